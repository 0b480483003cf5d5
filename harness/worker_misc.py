"""Worker operations on SHA-1 seeds, the cache, flatbuffers, configuration and decorators."""

import collections
import importlib.util
import os
import sys

from worker import conv, get_class, make_class, mod, norm, op


@op
def sha1(runs):
    """Each run builds SHA1 objects and applies [object, method, args]; `pre` keeps the alpha, `hash` uses it."""
    out = []
    for run in runs:
        objs = [get_class("SHA1")(*[conv(a) for a in args]) for args in run["objs"]]
        alphas = [None] * len(objs)
        seeds = []
        for who, method, args in run["ops"]:
            if method == "pre":
                alphas[who] = objs[who].precompute()
            elif method == "hash":
                seeds.append(norm(objs[who].hash_seed(alphas[who])))
            else:
                getattr(objs[who], method)(*[conv(a) for a in args])
        out.append(seeds)
    return out


class Version(collections.namedtuple("Version", "major minor micro releaselevel serial")):
    """Stands in for sys.version_info while a module is loaded."""


def old_pow(base, exponent, modulus=None):
    """pow as it was before Python 3.8."""
    if modulus is not None and exponent < 0:
        raise ValueError("pow() 2nd argument cannot be negative when 3rd argument specified")
    return pow(base, exponent, modulus)


@op
def mod_inv(version, pairs):
    """Load the module as that Python version would and invert every value; None for a ValueError."""
    path = os.path.join(os.path.dirname(mod("").__file__), "compatability.py")
    spec = importlib.util.spec_from_file_location("compatability_" + "_".join(map(str, version)), path)
    module = importlib.util.module_from_spec(spec)
    real = sys.version_info
    if version:
        sys.version_info = Version(*version, 0, "final", 0)
        if version < [3, 8]:
            module.pow = old_pow
    try:
        spec.loader.exec_module(module)
    finally:
        sys.version_info = real
    out = []
    for value, modulus in pairs:
        try:
            out.append(norm(module.mod_inv(conv(value), conv(modulus))))
        except ValueError:
            out.append(None)
    return out


@op
def rnglist_sizes(cls, fn, dtype, sizes):
    """Whether a list type can be made with each size."""
    out = []
    for n in sizes:
        try:
            make_class({"rnglist": cls, "fn": fn, "dtype": dtype, "size": n})
            out.append(True)
        except Exception:  # pylint: disable=broad-except
            out.append(False)
    return out
