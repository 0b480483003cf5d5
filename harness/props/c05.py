"""SIMDFastMersenneTwister against SFMT19937 written on 128-bit integers."""

from hypothesis import strategies as st

import genhist
from strats import maxima

SPEC = "SIMDFastMersenneTwister"
EXAMPLES = (260, 4000)
RULE = (
    "a 32-bit seed and a history of runs of 64-bit outputs (lengths around multiples of the 312-output state included), "
    "bounded draws and re-seeding; compared output by output with the SFMT19937 recursion on 128-bit integers, period "
    "certification included; non-trivial: at least two outputs"
)
BLOCK = 312


def counts():
    return st.one_of(
        st.integers(1, 30),
        st.integers(1, 30),
        st.sampled_from([k * BLOCK + d for k in (1, 2, 3) for d in (-1, 0, 1)]),
        st.integers(1, 1000),
    )


def strategy(tier):
    return genhist.stream_history(SPEC, ["next"], counts(), max_ops=4, rand=[("next_rand", maxima(64))])


def fixed_cases(tier):
    n = 6 * BLOCK + 5 if tier == "quick" else 60 * BLOCK + 5
    for s in (0, 1, 4321, 0x12345678, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF):
        yield {"objs": [[SPEC, [s]]], "ops": [[0, "many", "next", [], n]], "typed": s == 1}
    for m in (1, 2, (1 << 64) - 1, 1 << 63, 1 << 32):
        yield {"objs": [[SPEC, [m & 0xFFFFFFFF]]], "ops": [[0, "many", "next_rand", [m], 700]], "typed": m == 2}


def check(env, case):
    import refs

    env.label("across-refresh" if genhist.drawn(case) > BLOCK else "within-state")
    for _, (seed,) in case["objs"]:
        env.label("certified" if refs.SIMDFastMersenneTwister(seed).w[0] & 1 == seed & 1 else "certification-flip")
    genhist.check_history(env, case)
    return genhist.drawn(case) >= 2
