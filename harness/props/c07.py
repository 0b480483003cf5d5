"""advance(n) discards exactly n outputs, for every generator that is not an LCRNG and every n."""

from hypothesis import strategies as st

import genhist
import refs

EXAMPLES = (420, 6000)
SHARDS = (5, 6)
RULE = (
    "a generator, a seed and a history of advances mixed with runs of outputs, compared with models that draw and "
    "discard; separately, advances of up to the whole documented width compared with a GF(2) matrix power (xoroshiro, "
    "xorshift, TinyMT) or with the same distance in 2^20-sized pieces (MT, SFMT); non-trivial: some advance of more "
    "than one output followed by a draw"
)
ASSUMPTIONS = [
    "interpreted advances beyond about 10^5 steps are cut off after a few seconds; if the call returns it must be right",
    "compiled TinyMT and xorshift walks of 2^32 steps are taken once per run; Xoroshiro128+ walks go to 2^32 + 2^20",
]
NAMES = [
    "MersenneTwister",
    "SIMDFastMersenneTwister",
    "TinyMersenneTwister",
    "Xoroshiro128PlusRejection",
    "SplitMixXoroshiro128Plus",
    "Xorshift128",
]
BLOCK = {"MersenneTwister": 624, "SIMDFastMersenneTwister": 312}


def lengths(spec):
    b = BLOCK.get(spec, 64)
    near = [k * b + d for k in (1, 2, 3) for d in (-1, 0, 1)]
    return st.one_of(st.integers(0, 20), st.sampled_from(near), st.integers(0, 3 * b))


@st.composite
def history(draw, tier):
    spec = draw(st.sampled_from(NAMES))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 9))
        if k <= 5:
            ops.append([0, "advance", draw(lengths(spec))])
        elif k == 6 and draw(st.booleans()):
            far = st.one_of(st.integers(1000, 9000), st.sampled_from([65535, 65536, 65537, 70000]))
            ops.append([0, "advance", draw(far)])
        else:
            n = draw(st.one_of(st.integers(1, 5), lengths(spec).map(lambda v: v + 1)))
            ops.append([0, "many", "next", [], n])
    ops.append([0, "many", "next", [], 3])
    return {"kind": "hist", "objs": [[spec, draw(genhist.seed_args(spec))]], "ops": ops, "typed": draw(st.booleans())}


def strategy(tier):
    return history(tier)


def big(spec, before, n, mode, typed=False, tail=4):
    return {"kind": "big", "spec": spec, "before": before, "n": n, "mode": mode, "typed": typed, "tail": tail}


def fixed_cases(tier):
    top = (1 << 32) - 1
    # long compiled walks, one per shard where they are slow
    yield big("TinyMersenneTwister", 3, (1 << 31) + 7 if tier == "quick" else top, "numba")
    yield big("Xorshift128", 2, top, "numba")
    yield big("Xoroshiro128PlusRejection", 1, (1 << 32) + (1 << 20), "numba", True)
    yield big("SplitMixXoroshiro128Plus", 5, (1 << 32) + (1 << 20) + 1, "numba", True)
    yield big("SIMDFastMersenneTwister", 10, top, "numba", False, 700)
    yield big("MersenneTwister", 10, top, "numba", False, 1300)
    yield big("MersenneTwister", 623, top - 622, "numba", True, 1300)
    yield big("SIMDFastMersenneTwister", 311, (1 << 31) + 1, "numba", True, 700)
    yield big("MersenneTwister", 1, (1 << 31) + 5, "numba", False, 700)
    for spec in NAMES:
        yield big(spec, 1, 1 << 24, "numba", True)
        yield big(spec, 0, top, "numpy", True)
        if spec in BLOCK:
            yield big(spec, 5, top - 3, "numpy")
        yield big(spec, 7, 1 << 31, "numpy")
        yield big(spec, 2, 100_003, "numpy")
    for spec in NAMES[3:5]:
        yield big(spec, 2, (1 << 32) + 1, "numpy", True)
        yield big(spec, 2, (1 << 40) + 1, "numpy")


def check_big(env, case):
    spec, n, mode = case["spec"], case["n"], case["mode"]
    kinds = genhist.sig(spec, "advance")
    width = genhist.WIDTH[kinds[0]]
    typed = case["typed"]
    args = [0x12345678 + 77 * i for i in range(len(genhist.sig(spec, "init")))]

    def enc(v):
        return [kinds[0] if typed else "i", v]

    base = {"cls": spec, "args": genhist.encode(spec, "init", args, typed), "before": case["before"]}
    assert n >> width == 0
    limit = 200 if mode == "numba" else 1 if n >> 24 else 20
    got = env.values("big_advance", modes=(mode,), steps=[enc(n)], tail=case["tail"], limit=limit, **base)[mode]
    env.label(f"{mode}-{'long' if n >> 24 else 'medium'}-walk")
    if got is None:
        env.label("cut-off")
        return False
    if spec in BLOCK and n > 1 << 21:
        # the same distance in pieces short enough to be compared with the model elsewhere
        piece = 1 << 20
        steps = [piece] * (n // piece) + [n % piece]
        want = env.values(
            "big_advance", modes=("numba",), steps=[["u32", s] for s in steps], tail=case["tail"], limit=200, **base
        )["numba"]
    else:
        m = refs.make(spec, args)
        for _ in range(case["before"]):
            m.next()
        if spec in BLOCK:
            m.advance(n)
        else:
            refs.linear_skip(m, n)
        want = [m.next() for _ in range(case["tail"])]
    env.expect({mode: got}, want, f"{spec}: {case['before']} outputs, then advance({n}), then outputs")
    return True


def check(env, case):
    if case["kind"] == "big":
        return check_big(env, case)
    spec = case["objs"][0][0]
    env.label(spec)
    walk = sum(op[2] for op in case["ops"] if op[1] == "advance")
    modes = ("numba", "numpy")
    if walk > 8192 and spec not in BLOCK:
        if not genhist.afford(env, "walk", 3, 40):
            modes = ("numba",)
    genhist.check_history(env, case, modes=modes)
    return any(op[1] == "advance" and op[2] > 1 for op in case["ops"])
