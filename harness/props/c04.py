"""MersenneTwister against CPython's own MT19937 core."""

from hypothesis import strategies as st

import genhist
from strats import maxima, word

SPEC = "MersenneTwister"
EXAMPLES = (260, 4000)
RULE = (
    "a 32-bit seed and a history of runs of outputs (lengths around multiples of the 624-word state included), bounded "
    "draws of both kinds and re-seeding; compared output by output with CPython's MT19937 started from the same "
    "init_genrand state; non-trivial: at least two outputs"
)
BLOCK = 624


def counts():
    return st.one_of(
        st.integers(1, 30),
        st.integers(1, 30),
        st.sampled_from([k * BLOCK + d for k in (1, 2) for d in (-1, 0, 1)]),
        st.integers(1, 1400),
    )


def strategy(tier):
    return genhist.stream_history(
        SPEC, ["next"], counts(), max_ops=4, rand=[("next_rand", maxima(32)), ("next_rand_mod", maxima(32))]
    )


def fixed_cases(tier):
    n = 6 * BLOCK + 5 if tier == "quick" else 60 * BLOCK + 5
    for s in (0, 1, 5489, 0x12345678, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF):
        yield {"objs": [[SPEC, [s]]], "ops": [[0, "many", "next", [], n]], "typed": s == 1}
    for m in (1, 2, 0xFFFFFFFF, 0x80000000):
        yield {
            "objs": [[SPEC, [m]]],
            "ops": [[0, "many", "next_rand", [m], 700], [0, "many", "next_rand_mod", [m], 700]],
            "typed": m == 2,
        }


def check(env, case):
    env.label("across-refresh" if genhist.drawn(case) > BLOCK else "within-state")
    genhist.check_history(env, case)
    return genhist.drawn(case) >= 2
