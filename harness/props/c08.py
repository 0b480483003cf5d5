"""Both Xoroshiro128+ generators: the recurrence, the default second word and splitmix seeding."""

from hypothesis import strategies as st

import genhist
from strats import word

EXAMPLES = (900, 14000)
RULE = (
    "one of the two generators, 64-bit seeds (the second word of the rejection variant given or left to its default, in "
    "construction and re-initialisation) and runs of outputs; compared with xoroshiro128+ (24, 16, 37) and splitmix64 "
    "in integer arithmetic; non-trivial: at least two outputs"
)
NAMES = ["Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus"]


def args_of(spec):
    if spec == NAMES[1]:
        return st.lists(word(64), min_size=1, max_size=1)
    return st.lists(word(64), min_size=1, max_size=2)


@st.composite
def history(draw):
    spec = draw(st.sampled_from(NAMES))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 4))
        if k <= 2:
            ops.append([0, "many", "next", [], draw(st.one_of(st.integers(1, 20), st.integers(1, 200)))])
        elif k == 3:
            ops.append([0, "next"])
        else:
            ops.append([0, "re_init", *draw(args_of(spec))])
    ops.append([0, "many", "next", [], 3])
    return {"objs": [[spec, draw(args_of(spec))]], "ops": ops, "typed": draw(st.booleans())}


def strategy(tier):
    return history()


def fixed_cases(tier):
    for spec in NAMES:
        for s in (0, 1, (1 << 64) - 1, 1 << 63, 0x0123456789ABCDEF, 0xFFFFFFFF, 1 << 32):
            yield {
                "objs": [[spec, [s]]],
                "ops": [[0, "many", "next", [], 400 if tier == "quick" else 20000]],
                "typed": s != 1,
            }
    for s1 in (0, 1, (1 << 64) - 1):
        yield {"objs": [[NAMES[0], [5, s1]]], "ops": [[0, "many", "next", [], 300]], "typed": True}


def check(env, case):
    spec, args = case["objs"][0]
    env.label(spec, f"{len(args)}-seeds")
    genhist.check_history(env, case)
    return genhist.drawn(case) >= 2
