"""Xorshift128 against the published (11, 8, 19) generator."""

from hypothesis import strategies as st

import genhist

SPEC = "Xorshift128"
EXAMPLES = (900, 14000)
RULE = (
    "four 32-bit words and runs of outputs mixed with re-initialisations, compared with the xorshift128 recurrence in "
    "integer arithmetic in both modes; non-trivial: at least two outputs"
)


def strategy(tier):
    return genhist.stream_history(SPEC, ["next"], st.one_of(st.integers(1, 20), st.integers(1, 300)), max_ops=7)


def fixed_cases(tier):
    n = 500 if tier == "quick" else 20000
    for words in (
        [0, 0, 0, 0],
        [0, 0, 0, 1],
        [1, 0, 0, 0],
        [0xFFFFFFFF] * 4,
        [0x80000000, 0x7FFFFFFF, 0xFFFF, 0xFFFF0000],
        [123456789, 362436069, 521288629, 88675123],
    ):
        yield {"objs": [[SPEC, words]], "ops": [[0, "many", "next", [], n]], "typed": words[3] != 1}


def check(env, case):
    genhist.check_history(env, case)
    return genhist.drawn(case) >= 2
