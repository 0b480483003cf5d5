"""Compiler settings change no result, and compiled code uses only its own, written memory."""

import importlib

from hypothesis import strategies as st

from core import MODES, FatalViolation, Violation

EXAMPLES = (560, 12000)
SHARDS = (8, 8)
TECHNIQUE = "property-based testing (Hypothesis): the other properties' cases under generated compiler settings, index checks among them"
RULE = (
    "cases from the generators of the other properties (histories of every generator class and RNG list, LCRNG constants and jumps, "
    "Gen 5 seeding, hashes, bit, stat and classification helpers, Gen 3 states, slots and wild generation windows, Legends: Arceus "
    "slot choice, records, typed containers and programs), run compiled under other settings of numba than the default ones; half of "
    "the processes check every index against its array's bounds, and fresh memory is filled with a pattern; the arrays of generators and lists may lie within larger ones, the rest of which must stay as it is; results compared with the same reference models; non-trivial: the "
    "part's own rule"
)
ASSUMPTIONS = [
    "index checks cover what numba compiles from Python; for the hand-written SFMT shuffle, the words around the state are watched",
    "settings that change what numba promises (fastmath) are out of scope",
]
CHECKED = {"NUMBA_BOUNDSCHECK": "1"}
SETTINGS = [
    CHECKED,
    CHECKED,
    CHECKED,
    CHECKED,
    {"NUMBA_OPT": "0", "NUMBA_CPU_NAME": "generic", "NUMBA_CPU_FEATURES": ""},
    {"NUMBA_DISABLE_JIT": "1"},
    {"NUMBA_OPT": "3", "NUMBA_SLP_VECTORIZE": "1", "NUMBA_DEBUGINFO": "1"},
    {"NUMBA_OPT": "1", "NUMBA_LOOP_VECTORIZE": "0", "NUMBA_LLVM_REFPRUNE_PASS": "0"},
]
GROUPS = [
    {"c01": 2, "c02": 1, "c03": 2, "c20": 2, "c18": 1, "c28": 2, "c36": 1},
    {"c04": 2, "c05": 2, "c06": 2, "c17": 1, "c19": 1, "c37": 1, "c12": 1},
    {"c08": 1, "c09": 1, "c10": 1, "c11": 2, "c14": 2, "c15": 1, "c16": 1, "c38": 1},
    {"c22": 3, "c23": 1, "c24": 3, "c21": 1, "c07": 1},
]
BOTH = {"c13", "c23", "c34"}
PARTED = True
HERE = {}


def begin(env):
    """Which settings and parts this process has; over the seeds, every pair."""
    setting = env.shard % len(SETTINGS)
    HERE["setting"] = setting
    HERE["group"] = GROUPS[setting if setting < 4 else (setting + env.seed) % len(GROUPS)]


def part(name):
    return importlib.import_module(f"props.{name}")


def strategy(tier):
    options = []
    for name, weight in HERE["group"].items():
        case = st.fixed_dictionaries(
            {
                "part": st.just(name),
                "setting": st.just(HERE["setting"]),
                "guard": st.one_of(st.none(), st.integers(0, (1 << 64) - 1)),
                "case": part(name).strategy(tier),
            }
        )
        options += [case] * weight
    return st.one_of(options)


class Settled:
    """Stands for the Env of the part: only compiled, under the settings, histories with the guard."""

    def __init__(self, env, name, guard):
        self._env = env
        self._both = name in BOTH
        self._guard = guard

    def __getattr__(self, name):
        return getattr(self._env, name)

    def __setattr__(self, name, value):
        if name in ("_env", "_both", "_guard"):
            object.__setattr__(self, name, value)
        else:
            setattr(self._env, name, value)

    def modes(self, modes):
        return modes if self._both or "numba" not in modes else ("numba",)

    def guarded(self, op, more):
        if op == "hist" and self._guard is not None:
            more["guard"] = self._guard
            self._env.label("guarded")
        return more

    def call(self, op, modes=MODES, **more):
        more = self.guarded(op, more)
        return self._env.call(op, modes=self.modes(modes), **more)

    def values(self, op, modes=MODES, **more):
        more = self.guarded(op, more)
        return self._env.values(op, modes=self.modes(modes), **more)


def set_up(env, setting):
    w = env.workers["numba"]
    if w.extra != SETTINGS[setting]:
        w.stop()
        w.extra = dict(SETTINGS[setting])


def check(env, case):
    set_up(env, case["setting"])
    env.label(f"part-{case['part']}", *[f"{k}={v}" for k, v in SETTINGS[case["setting"]].items()])
    try:
        return part(case["part"]).check(Settled(env, case["part"], case.get("guard")), case["case"])
    except (Violation, FatalViolation) as v:
        v.msg = f"under {SETTINGS[case['setting']]}: {v.msg}"
        raise
