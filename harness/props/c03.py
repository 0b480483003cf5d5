"""LCRNG bounded draws: the documented distribution, one step each, in both forms."""

from hypothesis import strategies as st

import genhist
import refs
from strats import maxima, word

EXAMPLES = (800, 10000)
RULE = (
    "a generator (provided or with user constants), a seed and a history of next_rand and compiled const_rand draws "
    "with maxima from 1 to the top of the documented width, interleaved with plain draws and re-seeding; every result "
    "is compared with the integer formula, checked to lie in [0, m), and the seed is read after it; non-trivial: at "
    "least two bounded draws"
)
ASSUMPTIONS = [
    "maxima are at least 1 and fit the annotated width (16 bits for 32-bit generators, 32 bits for BWRNG)",
    "compiled const_rand functions are sampled: each costs a compilation",
]
NAMES = list(refs.LCRNGS)


@st.composite
def history(draw, tier):
    spec = draw(genhist.custom_lcrng()) if draw(st.integers(0, 11)) == 0 else draw(st.sampled_from(NAMES))
    bits = int(genhist.family(spec)[2:])
    width = bits // 2
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.integers(0, 9))
        if k <= 4:
            ops.append([0, "next_rand", draw(maxima(width))])
        elif k <= 6:
            ops.append([0, "const_rand", draw(maxima(width)), draw(st.booleans())])
        elif k == 7:
            ops.append([0, "many", "next_rand", [draw(maxima(width))], draw(st.integers(2, 50))])
        elif k == 8:
            ops.append([0, "re_init", draw(word(bits))])
        else:
            ops.append([0, "next"])
        ops.append([0, "seed?"])
    return {"objs": [[spec, [draw(word(bits))]]], "ops": ops, "typed": draw(st.booleans())}


def strategy(tier):
    return history(tier)


def fixed_cases(tier):
    for name in NAMES:
        bits = refs.LCRNGS[name][0]
        top = (1 << (bits // 2)) - 1
        # seeds whose next value has all-ones or all-zero top bits: extreme draws
        rev = {a: b for a, b in refs.PAIRS} | {b: a for a, b in refs.PAIRS}
        for target in ((1 << bits) - 1, 0, 1 << (bits - 1), (1 << (bits // 2)) - 1):
            seed = refs.make(rev[name], [target]).next()
            ms = [1, 2, 3, 100, 101, top, top - 1, top // 2, top // 2 + 1, top // 2 + 2]
            ops = []
            for m in ms:
                ops += [[0, "re_init", seed], [0, "next_rand", m], [0, "seed?"]]
            yield {"objs": [[name, [seed]]], "ops": ops, "typed": target == 0}
            ops = []
            for m in ms:
                ops += [[0, "re_init", seed], [0, "const_rand", m, False], [0, "seed?"]]
            yield {"objs": [[name, [seed]]], "ops": ops, "typed": target == 0, "numpy_only": True}
        seed = refs.make(rev[name], [(1 << bits) - 1]).next()
        ops = []
        for m in (1, top, 100):
            ops += [[0, "re_init", seed], [0, "const_rand", m, m == 100], [0, "seed?"], [0, "next_rand", m]]
        yield {"objs": [[name, [seed]]], "ops": ops, "typed": True}


def check(env, case):
    from props.c01 import modes_for

    modes = ("numpy",) if case.get("numpy_only") else ("numba", "numpy")
    spec = case["objs"][0][0]
    env.label("custom" if isinstance(spec, dict) else spec)
    if "numba" in modes:
        modes = modes_for(env, spec)
    consts = sum(op[1] == "const_rand" for op in case["ops"])
    if "numba" in modes and consts:
        env.label("const_rand")
        if not all(genhist.afford(env, "const", 30, 250) for _ in range(consts)):
            modes = ("numpy",)
    want = genhist.model_run(case)
    for op, v in zip(case["ops"], want):
        if op[1] in ("next_rand", "const_rand"):
            # the documented distributions themselves stay in range: a sanity check of the oracle
            assert 0 <= v < op[2], (op, v)
    genhist.check_history(env, case, modes=modes)
    return sum(op[1] in ("next_rand", "const_rand", "many") for op in case["ops"]) >= 2
