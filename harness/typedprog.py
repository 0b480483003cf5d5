"""Programs with declared types: building their arguments and running them. Used by the workers (with the package's
decorators and types) and by the driver (with decorators that do nothing)."""

import typing

import numpy as np

KINDS = {
    "u8": np.uint8, "u16": np.uint16, "u32": np.uint32, "u64": np.uint64, "i8": np.int8, "i16": np.int16, "i32": np.int32,
    "i64": np.int64, "f32": np.float32, "f64": np.float64, "bool": np.bool_,
}  # fmt: skip


def value(spec):
    """["u8", 5], ["str", "text"], ["tuple", kind, [...]], ["arr", kind, shape, flat, layout, readonly]"""
    how = spec[0]
    if how in KINDS:
        return KINDS[how](spec[1])
    if how == "str":
        return spec[1]
    if how == "tuple":
        return tuple(KINDS[spec[1]](v) for v in spec[2])
    _, kind, shape, flat, layout, readonly = spec
    a = np.array(flat, dtype=KINDS[kind]).reshape(shape)
    if layout == "F":
        a = np.asfortranarray(a)
    if layout == "A":  # every other row of something bigger
        big = np.zeros([2 * shape[0], *shape[1:]], KINDS[kind])
        big[::2] = a
        a = big[::2]
    if readonly:
        a.flags.writeable = False
    return a


def plain(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, np.ndarray):
        return [str(x.dtype), list(x.shape), [plain(v) for v in x.ravel(order="C").tolist()]]
    if isinstance(x, (tuple, list)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, str):
        return x
    return "object"


def run(space, source, values, ops):
    """Runs ops: ["new", class, args], ["call", object, method, args], ["func", name, args], ["dict", key, value, pairs].

    Arguments are numbers of values, or ["obj", n]. -> results, and the arrays among the values afterwards.
    """
    space = {"np": np, "typing": typing, **space}
    exec(compile(source, "<generated>", "exec"), space)  # pylint: disable=exec-used
    pool = [value(v) for v in values]
    objects, out = [], []

    def arg(a):
        return objects[a[1]] if isinstance(a, list) else pool[a]

    for how, what, *rest in ops:
        if how == "new":
            objects.append(space[what](*map(arg, rest[0])))
        elif how == "call":
            out.append(plain(getattr(objects[what], rest[0])(*map(arg, rest[1]))))
        elif how == "func":
            out.append(plain(space[what](*map(arg, rest[0]))))
        else:
            d = eval(what, space)  # pylint: disable=eval-used
            for k, v in rest[0]:
                d[arg(k)] = arg(v)
            out.append([[plain(arg(k)), plain(d[arg(k)])] for k, _ in rest[0]])
    return [out, [plain(v) for v in pool if isinstance(v, np.ndarray)]]
