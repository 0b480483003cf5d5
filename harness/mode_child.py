"""Imports the package as its environment says and reports how it runs: one JSON line on stdout.

argv[1]: "hidden" makes numba impossible to find; argv[2]: seed of the generators read.
"""

import importlib.resources
import json
import logging
import os
import sys
import warnings

sys.dont_write_bytecode = True
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
if sys.argv[1] == "hidden":
    sys.modules["numba"] = None
read_text = importlib.resources.read_text


def read_text_or_empty(package, resource, *args, **kwargs):
    """See worker.py."""
    try:
        return read_text(package, resource, *args, **kwargs)
    except FileNotFoundError:
        if resource == "spawner_names.json":
            return "{}"
        raise


importlib.resources.read_text = read_text_or_empty
told = []


class Keep(logging.Handler):
    """Keeps messages."""

    def emit(self, record):
        told.append([record.levelname, record.getMessage()])


logging.getLogger().addHandler(Keep())
with warnings.catch_warnings(record=True) as caught:
    warnings.simplefilter("always")
    import numba_pokemon_prngs.lcrng as lcrng
    import numba_pokemon_prngs.mersenne_twister as mt
    import numba_pokemon_prngs.xorshift as xorshift
    import numba_pokemon_prngs.fnv as fnv
    import numba_pokemon_prngs.util as util
told += [["WARNING", str(w.message)] for w in caught if not w.category.__module__.startswith("numba.")]
told = [t for t in told if "numba" in t[1].lower()]
seed = int(sys.argv[2])


def compiled(x):
    """Whether a class or function is numba's."""
    return type(x).__module__.split(".")[0] == "numba" or hasattr(x, "class_type") or hasattr(x, "py_func")


classes = {
    "PokeRNGMod": lcrng.PokeRNGMod,
    "BWRNG": lcrng.BWRNG,
    "MersenneTwister": mt.MersenneTwister,
    "TinyMersenneTwister": mt.TinyMersenneTwister,
    "Xorshift128": xorshift.Xorshift128,
    "Xoroshiro128PlusRejection": xorshift.Xoroshiro128PlusRejection,
}
args = {"Xorshift128": (seed, 1, 2, 3)}
outputs = {}
for name, cls in classes.items():
    rng = cls(*args.get(name, (seed,)))
    outputs[name] = [int(rng.next()) for _ in range(5)]
json.dump(
    {
        "compiled": {n: compiled(c) for n, c in classes.items()},
        "functions": {
            "rotate_left_u32": compiled(util.rotate_left_u32),
            "change_endian_u32": compiled(util.change_endian_u32),
            "compute_stat": compiled(util.compute_stat),
        },
        "outputs": outputs,
        "swap": int(util.change_endian_u32(seed)),
        "warned": [t[1] for t in told if t[0] in ("WARNING", "ERROR", "CRITICAL")],
        "loaded": sys.modules.get("numba") is not None,
    },
    out,
)
out.write("\n")
out.flush()
