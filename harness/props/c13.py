"""Compiled and numpy-only execution give identical results: a direct differential, no model involved."""

import importlib
import math

from hypothesis import strategies as st

from core import FatalViolation, Violation, short

EXAMPLES = (900, 30000)
SHARDS = (8, 8)
TECHNIQUE = "property-based testing (Hypothesis): differential between the two execution modes"
RULE = (
    "cases from the generators of the other properties (call histories of every generator class and RNG list, hashes, SHA-1 "
    "seeding, bit and stat helpers, Gen 3 states, wild generation windows, slot tables, Legends: Arceus slot choice), arguments as "
    "Python ints or annotated types, run in both modes; every answer, or the fact of an error, is compared between the modes; "
    "non-trivial: at least one request answered by both modes"
)
ASSUMPTIONS = [
    "numba takes no Python int of 2**63 or more; there np.uint64 is passed instead",
    "floating-point results agree to a relative 1e-5; slot choices are compared where the roll is not within rounding of a boundary",
]
# one group per shard, so that each shard compiles few modules: {part: share of the group's cases}
GROUPS = [
    {"c01": 2, "c02": 1},
    {"c03": 2, "c07": 1, "c15": 1, "c16": 1},
    {"c04": 1, "c05": 1, "c06": 2, "c17": 1},
    {"c08": 2, "c09": 3, "c10": 2, "c11": 1},
    {"c12": 2, "c14": 2},
    {"c18": 2, "c19": 2, "c24": 3},
    {"c20": 3, "c21": 3, "c34": 2},
    {"c22": 2, "c23": 1, "c28": 4},
]
FIXED = ["c04", "c05", "c06", "c08", "c09", "c10", "c11", "c12", "c14", "c18", "c19", "c20", "c21", "c24", "c28"]
PARTED = True
GROUP = {}


def begin(env):
    """Which parts this process runs."""
    GROUP.clear()
    GROUP.update(GROUPS[env.shard % len(GROUPS)])


def part(name):
    return importlib.import_module(f"props.{name}")


def strategy(tier):
    options = []
    for name, weight in GROUP.items():
        options += [st.fixed_dictionaries({"part": st.just(name), "case": part(name).strategy(tier)})] * weight
    return st.one_of(options)


def fixed_cases(tier):
    for name in GROUP:
        if name in FIXED and hasattr(part(name), "fixed_cases"):
            for case in part(name).fixed_cases(tier):
                yield {"part": name, "case": case}


class ModesDiffer(Violation):
    """The deciding comparison failed."""


class Done(Exception):
    """Both modes failed in the same way: nothing more to compare in this case."""


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return (math.isnan(a) and math.isnan(b)) or math.isclose(a, b, rel_tol=1e-5, abs_tol=1e-9)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and (a == b or all(same(x, y) for x, y in zip(a, b)))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def first_difference(a, b, where=""):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return first_difference(x, y, f"{where}[{i}]")
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        for k in a:
            if not same(a[k], b[k]):
                return first_difference(a[k], b[k], f"{where}.{k}")
    return f"result{where}: numba gives {short(a)}, numpy {short(b)}"


class Differ:
    """Stands for the Env of the part: its calls are compared between the modes, its own verdicts ignored."""

    def __init__(self, env):
        self._env = env
        self.both = 0
        self.labels = env.labels
        self.skip = set()

    def __getattr__(self, name):
        return getattr(self._env, name)

    def __setattr__(self, name, value):
        if name in ("_env", "both", "labels", "skip"):
            object.__setattr__(self, name, value)
        else:
            setattr(self._env, name, value)

    def label(self, *names):
        pass

    def call(self, op, modes=("numba", "numpy"), timeout=None, **args):
        got = self._env.call(op, modes=modes, timeout=timeout, **args)
        if len(got) == 2:
            self.both += 1
            a, b = got["numba"], got["numpy"]
            if ("exc" in a) != ("exc" in b):
                raise ModesDiffer(f"{op}: numba {short(a)}, numpy {short(b)}")
            if "ok" in a:
                self._env.compared += len(a["ok"]) if isinstance(a["ok"], list) else 1
                x, y = a["ok"], b["ok"]
                if self.skip:
                    x, y = ([None if i in self.skip else e for i, e in enumerate(z)] for z in (x, y))
                if not same(x, y):
                    raise ModesDiffer(f"{op}: {first_difference(x, y)}")
        return got

    def values(self, op, modes=("numba", "numpy"), timeout=None, **args):
        got = self.call(op, modes=modes, timeout=timeout, **args)
        if any("exc" in g for g in got.values()):
            raise Done()
        return {m: g["ok"] for m, g in got.items()}

    def expect(self, *_args):
        pass

    def require(self, *_args):
        pass


def check(env, case):
    name = case["part"]
    env.label(f"part-{name}")
    d = Differ(env)
    if name == "c28":
        inner = case["case"]
        d.skip = {i for i, r in enumerate(inner["rolls"]) if len(part(name).allowed(inner, *r)[0]) != 1}
    try:
        part(name).check(d, case["case"])
    except (ModesDiffer, FatalViolation):
        raise
    except (Violation, Done):
        env.label("model-disagrees-in-both-modes")
    env.label("compared" if d.both else "one-mode-only")
    return d.both > 0
