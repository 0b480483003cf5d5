"""Bounded draws of the xorshift family: range, law, and exactly the outputs they are said to consume."""

from hypothesis import strategies as st

import genhist
import refs
from core import Violation
from strats import maxima, word

EXAMPLES = (900, 14000)
RULE = (
    "one of the three generators, a state, and a history of bounded draws (rejection, modulo, integer range, alternate, "
    "float range) mixed with plain outputs and re-seeding; results and the outputs that follow are compared with the "
    "stated law over the reference stream, floats up to single-precision rounding; non-trivial: at least two bounded draws"
)
ASSUMPTIONS = [
    "maxima are at least 1 and fit 32 bits; integer ranges have min < max; float bounds are finite, at most 2^100",
]
NAMES = ["Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus", "Xorshift128"]
I32 = st.one_of(
    st.integers(-(1 << 31), (1 << 31) - 1),
    st.sampled_from([-(1 << 31), -(1 << 31) + 1, -1, 0, 1, (1 << 31) - 1, (1 << 31) - 2]),
    st.integers(-300, 300),
)
FLOATS = st.one_of(
    st.sampled_from([0.0, 1.0, -1.0, 0.5, 100.0, -0.0, 16777216.0, 1e-20]),
    st.floats(-(2.0**100), 2.0**100, width=32, allow_nan=False),
    st.floats(-1000, 1000, width=32, allow_nan=False),
)


@st.composite
def history(draw):
    spec = draw(st.sampled_from(NAMES))
    ops = []
    for _ in range(draw(st.integers(1, 9))):
        k = draw(st.integers(0, 11))
        if k <= 3:
            ops.append([0, "next_rand", draw(maxima(32))])
        elif k <= 5:
            ops.append([0, "many", "next_rand", [draw(maxima(32))], draw(st.integers(2, 40))])
        elif k == 6:
            ops.append([0, "re_init", *draw(genhist.seed_args(spec))])
        elif k == 7 or spec != "Xorshift128":
            ops.append([0, "next"])
        elif k == 8:
            ops.append([0, "next_alternate_rand", draw(maxima(32))])
        elif k == 9:
            lo, hi = sorted(draw(st.lists(I32, min_size=2, max_size=2, unique=True)))
            ops.append([0, "next_randrange", lo, hi])
        else:
            lo, hi = sorted([draw(FLOATS), draw(FLOATS)])
            ops.append([0, "next_float_randrange", lo, hi])
    ops.append([0, "next"])
    return {"objs": [[spec, draw(genhist.seed_args(spec))]], "ops": ops, "typed": draw(st.booleans())}


def strategy(tier):
    return history()


def fixed_cases(tier):
    edges = [1, 2, 3, 4, 5, 255, 256, 257, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1]
    for spec in NAMES:
        n = len(genhist.sig(spec, "init"))
        for typed in (False, True):
            ops = []
            for m in edges:
                ops += [[0, "many", "next_rand", [m], 60], [0, "next"]]
            yield {"objs": [[spec, [0x9ABCDEF1 + i for i in range(n)]]], "ops": ops, "typed": typed}
    ops = []
    for m in edges:
        ops += [[0, "many", "next_alternate_rand", [m], 40], [0, "next"]]
    for lo, hi in ((-(1 << 31), (1 << 31) - 1), (-1, 1), (0, 1), (-5, -4), (-(1 << 31), -(1 << 31) + 1), (0, (1 << 31) - 1)):
        ops += [[0, "many", "next_randrange", [lo, hi], 40], [0, "next"]]
    for typed in (False, True):
        yield {"objs": [["Xorshift128", [1, 2, 3, 4]]], "ops": ops, "typed": typed}
    # outputs whose low 23 bits are all ones or zero reach both ends of the float range
    for target in (0xFFFFFFFF, 0x007FFFFF, 0x00800000, 0, 1):
        m = refs.Xorshift128(7, 8, 9, target)
        m.previous()
        yield {
            "objs": [["Xorshift128", list(m.s)]],
            "ops": [[0, "next_float_randrange", -3.0, 100.0], [0, "next_float_randrange", 0.0, 1.0], [0, "next"]],
            "typed": target == 0,
        }


TOL = 4


def close(v, frac, lo, hi):
    # the constants are rounded to single precision, as are the bounds; both ends are reached exactly
    want = frac * lo + (1 - frac) * hi
    tol = TOL * 2.0**-24 * max(abs(lo), abs(hi)) + 1e-44
    if frac in (0, 1):
        tol = 2.0**-24 * max(abs(lo), abs(hi)) + 1e-44
    return abs(v - want) <= tol and lo - tol <= v <= hi + tol


def check(env, case):
    spec, args = case["objs"][0]
    env.label(spec)
    typed = case["typed"]
    req = genhist.to_worker({**case, "ops": [op for op in case["ops"] if op[1] != "next_float_randrange"]})
    plain = iter(req["ops"])
    wire = []
    for op in case["ops"]:
        if op[1] == "next_float_randrange":
            env.label("float")
            wire.append([0, op[1], [["f32" if typed else "f", op[2]], ["f32" if typed else "f", op[3]]]])
        else:
            wire.append(next(plain))
    req["ops"] = wire
    model = refs.make(spec, args)
    want = []
    for _, name, *rest in case["ops"]:
        if name == "many":
            want.append([getattr(model, rest[0])(*rest[1]) for _ in range(rest[2])])
        elif name == "next_float_randrange":
            want.append(model.next_float_fraction())
        else:
            want.append(getattr(model, name)(*rest))
    got = env.values("hist", **req)
    for m, outs in got.items():
        for i, (op, g, w) in enumerate(zip(case["ops"], outs, want)):
            if op[1] == "re_init":
                continue
            env.compared += 1
            if op[1] == "next_float_randrange":
                if not (isinstance(g, (int, float)) and close(g, w, op[2], op[3])):
                    exact = w * op[2] + (1 - w) * op[3]
                    raise Violation(f"[{m}] operation {i} {op[1:]} on {spec}: got {g}, expected about {exact}")
            elif g != w:
                raise Violation(f"[{m}] operation {i} {op[1:]} on {spec}: got {g}, expected {w}")
    return sum(op[1] not in ("next", "re_init") for op in case["ops"]) >= 2
