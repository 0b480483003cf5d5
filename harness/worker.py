"""Runs generated cases against the package in one mode (NPP_USE_NUMBA decides which).

Reads one JSON request per line on stdin and answers one JSON line: {"ok": value}, {"exc": text} when the
code under test raised, or {"harness": text} when this file itself is at fault. Every request builds its own
objects, so answers depend on the request alone. Only the package's public names are used.
"""

import importlib
import json
import os
import signal
import sys
import traceback

sys.dont_write_bytecode = True
_OUT = os.fdopen(os.dup(1), "wb", buffering=0)
os.dup2(2, 1)  # anything the package prints goes to the log
sys.path.insert(0, os.environ["PYTHONPATH"].split(":")[0])

import importlib.resources as _resources  # noqa: E402

_read_text = _resources.read_text


def _read_text_or_empty(package, resource, *args, **kwargs):
    """resources/encount/la/spawner_names.json is absent from this copy of the repository; without
    a stand-in nothing that needs encounter data could be imported at all."""
    try:
        return _read_text(package, resource, *args, **kwargs)
    except FileNotFoundError:
        if resource == "spawner_names.json":
            return "{}"
        raise


_resources.read_text = _read_text_or_empty

import numpy as np  # noqa: E402

NUMBA = os.environ.get("NPP_USE_NUMBA", "TRUE") == "TRUE"
PKG = "numba_pokemon_prngs"


class Harness(Exception):
    """The request is malformed: a defect of the check."""


def mod(name):
    return importlib.import_module(f"{PKG}.{name}" if name else PKG)


# --------------------------------------------------------------------------- values
NPTYPES = {
    "u8": np.uint8,
    "u16": np.uint16,
    "u32": np.uint32,
    "u64": np.uint64,
    "i8": np.int8,
    "i16": np.int16,
    "i32": np.int32,
    "i64": np.int64,
    "f32": np.float32,
    "b": np.bool_,
}


def conv(arg, objs=()):
    """["i", 5] is the Python int 5; ["u32", 5] is np.uint32(5); ["obj", 0] an earlier object."""
    if not isinstance(arg, list):
        return arg
    kind, value = arg
    if kind == "obj":
        return objs[value]
    if kind == "i":
        # numba cannot take a Python int of 2**63 or more; np.uint64 is what its users must pass
        if NUMBA and value >= 1 << 63:
            return np.uint64(value)
        return value
    if kind == "int":
        return value  # a Python int of any size, for functions that always run as plain Python
    if kind == "f":
        return float(value)
    if kind == "bool":
        return bool(value)
    if kind == "s":
        return value
    if kind == "enum":
        return getattr(getattr(mod("enums"), value[0]), value[1])
    if kind == "arr":
        return np.array(value[1], dtype=NPTYPES[value[0]])
    if kind == "fbits":
        return np.array([value], dtype=np.uint32).view(np.float32)[0]
    return NPTYPES[kind](value)


def norm(x):
    if x is None or isinstance(x, str):
        return x
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, np.ndarray):
        return [norm(v) for v in x.tolist()] if x.dtype.names is None else [norm_record(r) for r in x]
    if isinstance(x, (tuple, list)):
        return [norm(v) for v in x]
    if isinstance(x, np.void):
        return norm_record(x)
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    return f"<{type(x).__name__}>"


def norm_record(r):
    return {n: norm(r[n]) for n in r.dtype.names if n}


# --------------------------------------------------------------------------- classes
WHERE = {
    "MersenneTwister": "mersenne_twister",
    "SIMDFastMersenneTwister": "mersenne_twister",
    "TinyMersenneTwister": "mersenne_twister",
    "Xorshift128": "xorshift",
    "Xoroshiro128PlusRejection": "xorshift",
    "SplitMixXoroshiro128Plus": "xorshift",
    "SHA1": "sha1",
}
CLASSES = {}


def get_class(spec):
    key = json.dumps(spec, sort_keys=True)
    if key not in CLASSES:
        CLASSES[key] = make_class(spec)
    return CLASSES[key]


def make_class(spec):
    if isinstance(spec, str):
        return getattr(mod(WHERE.get(spec, "lcrng")), spec)
    if "custom" in spec:
        lcrng = mod("lcrng")
        bits = spec["custom"]
        init = getattr(lcrng, f"lcrng{bits}_init")
        dist = getattr(getattr(lcrng, f"LCRNG{bits}RandomDistribution"), spec["dist"])
        cls = type("Custom", (getattr(lcrng, f"LCRNG{bits}"),), {"__doc__": "user defined", "__module__": __name__})
        return init(add=conv(spec["add"]), mult=conv(spec["mult"]), distribution=dist, reverse=spec["reverse"])(cls)
    if "rnglist" in spec:
        return mod("rng_list").build_rnglist(
            rng_class=get_class(spec["rnglist"]),
            next_function_name=spec["fn"],
            state_type=NPTYPES[spec["dtype"]],
            size=spec["size"],
        )
    raise Harness(f"class {spec}")


class TooSlow(Exception):
    """Raised by the alarm: the call did not finish in the time it was given."""


class limited:
    """Run a block for at most some seconds (interpreted code only)."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def ring(_signum, _frame):
            raise TooSlow()

        signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *_exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


GUARD = 64


def array_fields(obj):
    """Names of an object's array fields, compiled or not."""
    kind = getattr(obj, "_numba_type_", None)
    names = list(kind.struct) if kind is not None else list(getattr(obj, "__dict__", {}))
    for name in names:
        value = getattr(obj, name, None)
        if isinstance(value, np.ndarray) and value.ndim == 1 and value.dtype.kind == "u" and value.flags.writeable:
            yield name, value


def enclose(obj, pattern):
    """Move the object's arrays into the middle of larger ones, whose other words have the given pattern."""
    moved = []
    for name, value in array_fields(obj):
        size = value.itemsize
        words = np.empty(len(value) + 2 * GUARD + 64 // size, dtype=value.dtype)
        skip = -words.ctypes.data % 64 // size
        words = words[skip : skip + len(value) + 2 * GUARD]
        words[:] = [(pattern * (2 * i + 1) * 0x9E3779B97F4A7C15 >> 7) & ((1 << 8 * size) - 1) for i in range(len(words))]
        words[GUARD : GUARD + len(value)] = value
        setattr(obj, name, words[GUARD : GUARD + len(value)])
        moved.append((name, words, words.copy(), len(value)))
    return moved


def unharmed(moved):
    for name, words, before, size in moved:
        for i in [*range(GUARD), *range(GUARD + size, len(words))]:
            if words[i] != before[i]:
                raise RuntimeError(f"memory outside the array {name} was written: the word at index {i - GUARD}, of {size}")


@op
def hist(objs, ops, guard=None):
    """Build objects, then apply operations in order; the result of each operation is returned.

    With a guard, the arrays of the objects lie within others, the rest of which must stay as it is."""
    made = []
    classes = []
    moved = []
    for o in objs:
        cls = get_class(o["cls"])
        classes.append(cls)
        made.append(cls(*[conv(a, made) for a in o["args"]]))
        if guard is not None:
            moved += enclose(made[-1], guard)
    out = []
    for who, method, args in ops:
        obj = made[who]
        if method == "get":
            out.append(norm(getattr(obj, args[0])))
        elif method == "const":
            # a compiled function made by the class for constant arguments, applied to the object
            factory, arg, kwargs = args
            out.append(norm(getattr(classes[who], factory)(conv(arg), **(kwargs or {}))(obj)))
        elif method == "many":
            # the same call repeated: [name, args, count]
            name, margs, count = args
            f = getattr(obj, name)
            margs = [conv(a, made) for a in margs]
            out.append([norm(f(*margs)) for _ in range(count)])
        else:
            out.append(norm(getattr(obj, method)(*[conv(a, made) for a in args])))
    unharmed(moved)
    return out


@op
def hists(runs):
    """Several histories, each on its own objects."""
    return [hist(**r) for r in runs]


@op
def big_advance(cls, args, before, steps, tail, limit):
    """Advance by large amounts, then read outputs; None if the interpreter needs more than `limit` seconds."""
    obj = get_class(cls)(*[conv(a) for a in args])
    for _ in range(before):
        obj.next()
    try:
        with limited(limit):
            for n in steps:
                obj.advance(conv(n))
            return [norm(obj.next()) for _ in range(tail)]
    except TooSlow:
        return None


@op
def fn(module, name, calls):
    """Apply a function of the package to every argument list in calls."""
    f = mod(module)
    for part in name.split("."):
        f = getattr(f, part)
    return [norm(f(*[conv(a) for a in args])) for args in calls]


@op
def fnz(module, name, kinds, cols):
    """As fn, for many calls whose arguments are given as columns of plain numbers (a kind per column, or per number)."""
    f = mod(module)
    for part in name.split("."):
        f = getattr(f, part)
    n = len(cols[0])
    types = [[NPTYPES.get(k, int) for k in (ks if isinstance(ks, list) else [ks] * n)] for ks in kinds]
    return [norm(f(*[t(v) for t, v in zip(ts, row)])) for ts, row in zip(zip(*types), zip(*cols))]


def arm(fault):
    """VERIF_FAULT: "open N" ends the process when it opens the N-th file of its cache, "space N" lets no file
    grow beyond N bytes, "space-kill N" ends the process that tries."""
    kind, n = fault.split()
    if kind == "open":
        left = [int(n)]
        folder = os.environ["XDG_CACHE_HOME"]

        def hook(event, args):
            if event == "open" and isinstance(args[0], str) and args[0].startswith(folder):
                left[0] -= 1
                if left[0] < 0:
                    os._exit(9)

        sys.addaudithook(hook)
        return
    import resource

    if kind == "space-kill":
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_FSIZE, (int(n), int(n)))


def main():
    if "VERIF_FAULT" in os.environ:
        arm(os.environ["VERIF_FAULT"])
    for name in ("worker_data", "worker_misc", "worker_cache", "worker_fbs", "worker_modes", "worker_records", "worker_typed", "worker_threads", "worker_pure", "worker_compiled", "worker_refuse"):
        importlib.import_module(name)
    _OUT.write(b'{"hello": 1}\n')
    while True:
        line = sys.stdin.buffer.readline()
        if not line:
            return
        try:
            req = json.loads(line)
            name = req.pop("op")
            f = OPS.get(name)
            if f is None:
                raise Harness(f"no operation {name}")
            ans = {"ok": f(**req)}
        except Harness:
            ans = {"harness": traceback.format_exc()}
        except Exception as e:  # pylint: disable=broad-except
            text = f"{type(e).__name__}: {str(e)[:1500]}"
            ans = {"exc": text, "type": type(e).__name__}
            traceback.print_exc()
        _OUT.write(json.dumps(ans).encode() + b"\n")


if __name__ == "__main__":
    sys.modules["worker"] = sys.modules["__main__"]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    main()
