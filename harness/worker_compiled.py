"""A caller's own functions, compiled where numba is in use and plain Python otherwise."""

import numpy as np

from worker import NUMBA, conv, get_class, mod, norm, op
from worker_data import area_3, wild_generator


def decorate(function, options):
    if not NUMBA or options is None:
        return function
    import numba

    return numba.njit(**options)(function)


def build(name, src, options, namespace):
    exec(compile(src, f"<{name}>", "exec"), namespace)  # pylint: disable=exec-used
    namespace[name] = decorate(namespace[name], options)


def attr_of(module, path):
    x = mod(module)
    for part in path.split("."):
        x = getattr(x, part)
    return x


def compiled_run(classes, names, constants, makers, pieces, objs, args, length, after):
    """Build the caller's functions (the last is the one called) and call the last one.

    names: [alias, module, attribute] of the package; makers: [alias, class, factory, argument, options] for
    const_jump and const_rand; pieces: [name, source, options], options None for plain Python."""
    namespace = {"np": np}
    for i, spec in enumerate(classes):
        namespace[f"C{i}"] = get_class(spec)
    for alias, module, path in names:
        namespace[alias] = attr_of(module, path)
    for alias, value in constants:
        namespace[alias] = conv(value)
    for alias, which, factory, value, kwargs in makers:
        namespace[alias] = getattr(namespace[f"C{which}"], factory)(conv(value), **kwargs)
    for name, src, options in pieces:
        build(name, src, options, namespace)
    made = [namespace[f"C{which}"](*[conv(a) for a in a_args]) for which, a_args in objs]
    out = np.zeros(length, dtype=np.uint64)
    namespace[pieces[-1][0]](out, *[conv(a, made) for a in args])
    return [norm(out), [norm(getattr(made[i], method)()) for i, method in after]]


@op
def compiled(runs):
    return [compiled_run(**r) for r in runs]


@op
def compiled_wild(gen, areas, names, constants, pieces, args, length):
    """As above for wild generation: the generator and the areas may be arguments."""
    namespace = {"np": np}
    for alias, module, path in names:
        namespace[alias] = attr_of(module, path)
    for alias, value in constants:
        namespace[alias] = conv(value)
    for name, src, options in pieces:
        build(name, src, options, namespace)
    made = [wild_generator(gen)] + [area_3(a) for a in areas]
    out = np.zeros(length, dtype=np.uint64)
    n = namespace[pieces[-1][0]](out, *[conv(a, made) for a in args])
    return [norm(n), norm(out)]
