"""LCRNG single steps: the recurrence, its inverse and the derived 16/32-bit outputs, over histories."""

from hypothesis import strategies as st

import genhist
import refs
from strats import maxima, word

EXAMPLES = (900, 12000)
RULE = (
    "a generator class (the ten provided ones, or user-supplied constants), a seed and a history of "
    "next/next_u16/next_u32/next_rand/re_init/seed reads, each compared with integer arithmetic; non-trivial: at least "
    "three outputs are drawn; forward/reverse pairs also walk forth and back"
)
ASSUMPTIONS = ["multipliers given with reverse=True are odd (otherwise no inverse exists)"]
NAMES = list(refs.LCRNGS)


@st.composite
def history(draw, tier):
    if draw(st.integers(0, 9)) == 0:
        spec = draw(genhist.custom_lcrng())
    else:
        spec = draw(st.sampled_from(NAMES))
    bits = int(genhist.family(spec)[2:])
    top = "next_u16" if bits == 32 else "next_u32"
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.integers(0, 9))
        if k <= 2:
            ops.append([0, "next"])
        elif k <= 4:
            ops.append([0, top])
        elif k == 5:
            ops.append([0, "seed?"])
        elif k == 6:
            ops.append([0, "re_init", draw(word(bits))])
        elif k == 7:
            ops.append([0, "next_rand", draw(maxima(16 if bits == 32 else 32))])
        else:
            ops.append([0, "many", draw(st.sampled_from(["next", top])), [], draw(st.integers(1, 60))])
    ops.append([0, "seed?"])
    return {"kind": "hist", "objs": [[spec, [draw(word(bits))]]], "ops": ops, "typed": draw(st.booleans())}


@st.composite
def inverse(draw, tier):
    """Walk n steps with one of a pair, hand the seed to its opposite, walk back."""
    if draw(st.integers(0, 9)) == 0:
        a = draw(genhist.custom_lcrng())
        a["mult"] |= 1
        b = dict(a, reverse=not a["reverse"])
    else:
        a, b = draw(st.sampled_from(refs.PAIRS))
        if draw(st.booleans()):
            a, b = b, a
    bits = int(genhist.family(a)[2:])
    return {
        "kind": "inverse",
        "a": a,
        "b": b,
        "seed": draw(word(bits)),
        "n": draw(st.integers(1, 40)),
        "typed": draw(st.booleans()),
    }


def strategy(tier):
    return st.one_of(history(tier), history(tier), inverse(tier))


def fixed_cases(tier):
    for name in NAMES:
        bits = refs.LCRNGS[name][0]
        for s in (0, 1, (1 << bits) - 1, 1 << (bits - 1)):
            yield {"kind": "hist", "objs": [[name, [s]]], "ops": [[0, "many", "next", [], 200]], "typed": s == 1}


def modes_for(env, spec):
    """Compiling a class for every user-supplied set of constants is slow: numba takes the first few."""
    if not isinstance(spec, dict) or env.replaying:
        return ("numba", "numpy")
    seen = env.memo.setdefault("custom", [])
    if spec in seen:
        return ("numba", "numpy")
    if len(seen) < (6 if env.tier == "quick" else 60):
        seen.append(spec)
        return ("numba", "numpy")
    return ("numpy",)


def check(env, case):
    if case["kind"] == "hist":
        spec = case["objs"][0][0]
        env.label("custom" if isinstance(spec, dict) else spec)
        genhist.check_history(env, case, modes=modes_for(env, spec))
        return sum(o[1] not in ("seed?", "re_init") for o in case["ops"]) >= 3
    a, b, n, seed = case["a"], case["b"], case["n"], case["seed"]
    env.label("inverse")
    modes = modes_for(env, a) if isinstance(a, str) else ("numpy",)
    fwd = {"objs": [[a, [seed]]], "ops": [[0, "many", "next", [], n]], "typed": case["typed"]}
    genhist.check_history(env, fwd, modes=modes)
    walked = genhist.model_run(fwd)[0]
    back = {"objs": [[b, [walked[-1]]]], "ops": [[0, "many", "next", [], n]], "typed": case["typed"]}
    got = env.values("hist", modes=modes, **genhist.to_worker(back))
    want = [(walked[:-1][::-1] + [seed])]
    env.expect(got, want, f"{b} does not walk back what {a} walked")
    return n >= 2
