"""Generated record types and the functions that use them; typed containers."""

import numpy as np

from worker import NPTYPES, conv, mod, norm, op

KEYS = {**NPTYPES, "i64": np.int64, "f64": np.float64, "str": np.str_}


def kind_of(dtype):
    """What a field holds: numpy's code of a scalar, and the shape of an array; nested records are told by their own layout."""
    base, shape = dtype, []
    while base.subdtype:  # an array of arrays is one in numpy
        shape += base.subdtype[1]
        base = base.subdtype[0]
    return [kind_of_record(base) if base.names else base.str, shape]


def kind_of_record(dtype):
    return [[n, dtype.fields[n][1], kind_of(dtype.fields[n][0])] for n in dtype.names]


@op
def record_use(source, root, raw, count, calls, tuples):
    """Layout of a generated record type, what a generated function reads in each call, and the records after them."""
    compilation = mod("compilation")
    space = {"np": np, "Annotated": __import__("typing").Annotated, "optional_njit": compilation.optional_njit}
    space["optional_jitclass"], space["array_type"] = compilation.optional_jitclass, compilation.array_type
    space.update({k: getattr(mod("data.util"), k) for k in "U8 U16 U32 U64 F32 BOOL8 unused_bytes dtype_array dtype_dataclass".split()})
    exec(compile(source, "<generated>", "exec"), space)  # pylint: disable=exec-used
    dtype = space[root].dtype
    layout = [[n, dtype.fields[n][1], kind_of(dtype.fields[n][0])] for n in dtype.names] + [["", dtype.itemsize, ""]]
    records = np.frombuffer(bytearray(raw), dtype=dtype).view(np.recarray)
    f = space["f"]
    if "Box" in space:
        f = space["Box"](records).f
    outs = []
    for i, j, k in calls:
        ints, floats = np.zeros(count, np.uint64), np.zeros(count, np.float64)
        args = (i, j, k, ints, floats)
        f(*args) if "Box" in space else f(records, *args)
        outs.append([norm(ints), norm(floats)])
    return [layout, outs, list(records.tobytes())]


def put(d, k, v):
    d[k] = v


def get(d, k):
    return d[k]


def has(d, k):
    return k in d


def length(d):
    return len(d)


def append(d, v):
    d.append(v)


def pop(d):
    return d.pop()


def remove(d, k):
    del d[k]


def merge(d, other):
    d.update(other)


OUTSIDE = {"update": merge, "put": put, "get": get, "has": has, "len": length, "append": append, "pop": pop, "remove": remove}
INSIDE = {}


def element(arg):
    kind, value = arg
    return KEYS[kind](value) if kind in KEYS and kind != "str" else conv(arg)


@op
def container_history(kind, types, ops):
    """Results of operations on a typed dictionary or list; those marked go through a compiled function."""
    compilation = mod("compilation")
    if not INSIDE:
        INSIDE.update({name: compilation.optional_njit(f) for name, f in OUTSIDE.items()})

    def make_dict():
        return compilation.TypedDict(key_type=KEYS[types[0]], value_type=KEYS[types[1]])

    d = make_dict() if kind == "dict" else compilation.TypedList()
    out = []
    for name, where, *args in ops:
        big_keys = name == "update" and types[0] == "u64"
        if name == "update":
            other = make_dict()
            for k, v in args[0]:
                other[element(k)] = element(v)
            args = [other]
        else:
            args = [element(a) for a in args]
        try:
            if name == "items":
                # numba gives Python ints when iterated, and takes none from 2**63 on
                pairs = [(k, d[np.uint64(k)]) for k in d] if types[0] == "u64" else d.items()
                out.append([[norm(k), norm(v)] for k, v in pairs])
            elif name == "all":
                out.append([norm(v) for v in d])
            else:
                out.append(norm((INSIDE if where or big_keys else OUTSIDE)[name](d, *args)))
        except (KeyError, IndexError) as e:
            out.append("KeyError" if isinstance(e, KeyError) else "IndexError")
    return out
