"""re_init equals constructing anew; objects share nothing."""

from hypothesis import strategies as st

import genhist
from core import Violation, diff, short
from strats import maxima, word

EXAMPLES = (420, 6000)
RULE = (
    "up to four generators of any classes (often the same class and seed), an interleaved history of draws, advances, "
    "jumps, steps back, bounded draws and re-initialisations, run once interleaved and once with every object's "
    "operations alone on an object of its own, where each re-initialisation is replaced by constructing a new object; "
    "all results must agree; non-trivial: a re-initialisation followed by a draw, or two objects drawing alternately"
)
NAMES = list(genhist.SIG)[2:] + ["PokeRNGMod", "PokeRNGRDiv", "ARNG", "XDRNGR", "BWRNG", "BWRNGR"]


@st.composite
def op_for(draw, spec):
    fam = genhist.family(spec)
    sig = genhist.SIG[fam]
    names = [n for n in sig if n not in ("init", "re_init", "next_randrange")]
    name = draw(st.sampled_from(names + ["next", "next", "re_init", "re_init"]))
    if name == "re_init":
        return ["re_init", *draw(genhist.seed_args(spec))]
    if name == "next":
        b = {"MersenneTwister": 650, "SIMDFastMersenneTwister": 320}.get(spec, 40)
        return ["many", "next", [], draw(st.one_of(st.integers(1, 5), st.integers(1, b)))]
    if name == "advance":
        return ["advance", draw(st.one_of(st.integers(0, 30), st.integers(0, 700)))]
    args = []
    for kind in sig[name]:
        args.append(draw(maxima(genhist.WIDTH[kind]) if "rand" in name else word(genhist.WIDTH[kind])))
    return [name, *args]


@st.composite
def history(draw, tier):
    n = draw(st.integers(1, 4))
    pool = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=2))
    objs = []
    for _ in range(n):
        spec = draw(st.sampled_from(pool))
        same = [o for o in objs if o[0] == spec]
        args = draw(st.sampled_from(same))[1] if same and draw(st.booleans()) else draw(genhist.seed_args(spec))
        objs.append([spec, args])
    ops = []
    for _ in range(draw(st.integers(2, 12))):
        i = draw(st.integers(0, n - 1))
        ops.append([i, *draw(op_for(objs[i][0]))])
    for i in range(n):
        ops.append([i, "many", "next", [], 3])
    return {"objs": objs, "ops": ops, "typed": draw(st.booleans())}


def strategy(tier):
    return history(tier)


def fixed_cases(tier):
    for spec in NAMES:
        k = len(genhist.sig(spec, "init"))
        width = genhist.WIDTH[genhist.sig(spec, "init")[0]]
        seeds = [0, 1, (1 << width) - 1, 0x89ABCDEF]
        ops = []
        for s in seeds + seeds[::-1]:
            ops += [[0, "many", "next", [], 700], [0, "re_init", *[s] * k], [0, "many", "next", [], 10]]
        yield {"objs": [[spec, [5] * k]], "ops": ops, "typed": True}
        if k > 1:
            # every pattern of zero and non-zero words
            ops = []
            for bits in range(1, 1 << k):
                words = [(0x9E3779B9 + j) * (bits >> j & 1) for j in range(k)]
                ops += [[0, "many", "next", [], 5], [0, "re_init", *words], [0, "many", "next", [], 6]]
            yield {"objs": [[spec, [5] * k]], "ops": ops, "typed": False}
        yield {
            "objs": [[spec, [9] * k], [spec, [9] * k], [spec, [3] * k]],
            "ops": [[i % 3, "many", "next", [], 1 + 7 * i] for i in range(12)],
            "typed": False,
        }


def solo(case):
    """One history per object and per re-initialisation: each piece starts from construction."""
    pieces = []
    for i, (spec, args) in enumerate(case["objs"]):
        cur = {"objs": [[spec, args]], "ops": [], "typed": case["typed"], "at": []}
        for at, (o, *op) in enumerate(case["ops"]):
            if o != i:
                continue
            if op[0] == "re_init":
                pieces.append(cur)
                cur = {"objs": [[spec, op[1:]]], "ops": [], "typed": case["typed"], "at": []}
            else:
                cur["ops"].append([0, *op])
                cur["at"].append(at)
        pieces.append(cur)
    return [p for p in pieces if p["ops"]]


def check(env, case):
    for spec, _ in case["objs"]:
        env.label(spec)
    got = env.values("hist", **genhist.to_worker(case))
    pieces = solo(case)
    alone = env.values("hists", runs=[genhist.to_worker(p) for p in pieces])
    for m in got:
        whole = genhist.mask_void(case, got[m])
        for p, outs in zip(pieces, alone[m]):
            for at, v in zip(p["at"], genhist.mask_void(p, outs)):
                env.compared += 1
                if whole[at] != v:
                    op = case["ops"][at]
                    raise Violation(
                        f"[{m}] operation {at} {op[1:]} of object {op[0]} ({short(case['objs'][op[0]])}): in the "
                        f"interleaved history {diff(whole[at], v)} (expected: a new object's result)"
                    )
    reinit = any(op[1] == "re_init" for op in case["ops"])
    switches = sum(a[0] != b[0] for a, b in zip(case["ops"], case["ops"][1:]))
    env.label("with-reinit" if reinit else "no-reinit", "interleaved" if switches > 1 else "single")
    return reinit or switches > 1
