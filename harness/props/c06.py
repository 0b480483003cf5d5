"""TinyMersenneTwister against TinyMT32."""

from hypothesis import strategies as st

import genhist
from strats import maxima

SPEC = "TinyMersenneTwister"
EXAMPLES = (700, 12000)
RULE = (
    "a 32-bit seed and a history of runs of outputs, bounded draws of both kinds and re-seeding; compared output by "
    "output with TinyMT32 in integer arithmetic, and every output checked to be a 32-bit value; non-trivial: at least "
    "two outputs"
)


def strategy(tier):
    return genhist.stream_history(
        SPEC,
        ["next"],
        st.one_of(st.integers(1, 30), st.integers(1, 300)),
        max_ops=6,
        rand=[("next_rand", maxima(32)), ("next_rand_mod", maxima(32))],
    )


def fixed_cases(tier):
    for s in (0, 1, 0x12345678, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF):
        n = 3000 if tier == "quick" else 60000
        yield {"objs": [[SPEC, [s]]], "ops": [[0, "many", "next", [], n]], "typed": s == 1}
    for m in (1, 2, 0xFFFFFFFF, 0x80000000):
        yield {
            "objs": [[SPEC, [m]]],
            "ops": [[0, "many", "next_rand", [m], 500], [0, "many", "next_rand_mod", [m], 500]],
            "typed": m == 2,
        }


def check(env, case):
    genhist.check_history(env, case)
    return genhist.drawn(case) >= 2
