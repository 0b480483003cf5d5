"""LCRNG jumps: any length equals that many single steps, in every form, and jumps compose."""

from hypothesis import strategies as st

import genhist
import refs
from strats import word

EXAMPLES = (700, 9000)
RULE = (
    "a generator (provided or with user constants) and a history of jump, const_jump, advance and single draws whose "
    "values and seeds are compared with an integer model that squares the affine map; jump lengths are uniform, single "
    "bits, all-ones, and zero; arguments are Python ints or the annotated numpy type; non-trivial: some jump of more "
    "than one step"
)
ASSUMPTIONS = [
    "advance walks step by step, so its length is kept to 2^17 compiled and 2^13 interpreted",
    "compiled const_jump functions are sampled: each costs a compilation",
]
NAMES = list(refs.LCRNGS)


@st.composite
def history(draw, tier):
    spec = draw(genhist.custom_lcrng()) if draw(st.integers(0, 9)) == 0 else draw(st.sampled_from(NAMES))
    bits = int(genhist.family(spec)[2:])
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 11))
        if k <= 4:
            ops.append([0, "jump", draw(word(bits))])
        elif k <= 6:
            ops.append([0, "const_jump", draw(word(bits)), draw(st.booleans())])
        elif k == 7:
            ops.append([0, "advance", draw(st.one_of(st.integers(0, 40), st.sampled_from([255, 256, 257, 1000])))])
        elif k == 8 and draw(st.integers(0, 5)) == 0:
            ops.append([0, "advance", draw(st.one_of(st.sampled_from([65535, 65536, 65537]), st.integers(1000, 1 << 17)))])
        elif k == 9:
            ops.append([0, "next"])
        elif k == 10:
            ops.append([0, "seed?"])
        else:
            ops.append([0, "re_init", draw(word(bits))])
        ops.append([0, "seed?"])
    return {"objs": [[spec, [draw(word(bits))]]], "ops": ops, "typed": draw(st.booleans())}


@st.composite
def laws(draw, tier):
    """Two objects: jumping a+b against a then b; the reversed class undoing the jump."""
    a, b = draw(st.sampled_from(refs.PAIRS))
    if draw(st.booleans()):
        a, b = b, a
    bits = refs.LCRNGS[a][0]
    mask = (1 << bits) - 1
    x, y, s = draw(word(bits)), draw(word(bits)), draw(word(bits))
    m = refs.make(a, [s])
    end = m.skip(x)
    return {
        "objs": [[a, [s]], [a, [s]], [b, [end]]],
        "ops": [
            [0, "jump", x],
            [0, "jump", y],
            [1, "jump", (x + y) & mask],
            [0, "seed?"],
            [1, "seed?"],
            [2, "jump", x],
            [2, "seed?"],
        ],
        "typed": draw(st.booleans()),
    }


def strategy(tier):
    return st.one_of(history(tier), history(tier), laws(tier))


def fixed_cases(tier):
    for name in NAMES:
        bits = refs.LCRNGS[name][0]
        seed = 0x123456789ABCDEF & ((1 << bits) - 1)
        for typed in (False, True):
            ops = []
            for k in range(bits):
                ops += [[0, "jump", 1 << k], [0, "jump", (1 << k) - 1]]
            yield {"objs": [[name, [seed]]], "ops": ops, "typed": typed}
        ops = []
        for k in range(bits):
            ops += [[0, "const_jump", 1 << k, False]]
        ops += [[0, "const_jump", (1 << bits) - 1, False], [0, "const_jump", 0, False], [0, "seed?"]]
        yield {"objs": [[name, [seed]]], "ops": ops, "typed": False, "numpy_only": True}
        yield {"objs": [[name, [seed]]], "ops": ops[-12:], "typed": True, "numpy_only": True}
        # the table entries of each power of two make the constants of one compiled jump of each kind
        yield {"objs": [[name, [seed]]], "ops": [[0, "const_jump", seed | 1, False], [0, "seed?"]], "typed": True}
        yield {"objs": [[name, [seed]]], "ops": [[0, "const_jump", seed >> 3, True], [0, "seed?"]], "typed": False}


def check(env, case):
    from props.c01 import modes_for

    modes = ("numpy",) if case.get("numpy_only") else ("numba", "numpy")
    for spec, _ in case["objs"]:
        env.label("custom" if isinstance(spec, dict) else spec)
        if "numba" in modes:
            modes = modes_for(env, spec)
    consts = sum(op[1] == "const_jump" for op in case["ops"])
    walk = max([op[2] for op in case["ops"] if op[1] == "advance"], default=0)
    if "numba" in modes and consts:
        env.label("const_jump")
        if not all(genhist.afford(env, "const", 30, 250) for _ in range(consts)):
            modes = ("numpy",)
    if "numpy" in modes and walk > 8192 and not genhist.afford(env, "walk", 2, 30):
        modes = tuple(m for m in modes if m != "numpy")
    if not modes:
        return False
    genhist.check_history(env, case, modes=modes)
    return any(op[1] in ("jump", "const_jump", "advance") and op[2] > 1 for op in case["ops"])
