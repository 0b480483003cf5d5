"""Histories over generator objects: generation, translation to worker calls, and the model run."""

from hypothesis import strategies as st

import refs
from strats import maxima, u16, u32, u64, word  # noqa: F401

LC32 = [n for n, v in refs.LCRNGS.items() if v[0] == 32]
LC64 = [n for n, v in refs.LCRNGS.items() if v[0] == 64]

# annotated argument types of every public method
SIG = {
    "LC32": {
        "init": ["u32"],
        "re_init": ["u32"],
        "next": [],
        "next_u16": [],
        "jump": ["u32"],
        "advance": ["u32"],
        "next_rand": ["u16"],
    },
    "LC64": {
        "init": ["u64"],
        "re_init": ["u64"],
        "next": [],
        "next_u32": [],
        "jump": ["u64"],
        "advance": ["u64"],
        "next_rand": ["u32"],
    },
    "MersenneTwister": {
        "init": ["u32"],
        "re_init": ["u32"],
        "next": [],
        "advance": ["u32"],
        "next_rand": ["u32"],
        "next_rand_mod": ["u32"],
    },
    "SIMDFastMersenneTwister": {
        "init": ["u32"],
        "re_init": ["u32"],
        "next": [],
        "advance": ["u32"],
        "next_rand": ["u64"],
    },
    "TinyMersenneTwister": {
        "init": ["u32"],
        "re_init": ["u32"],
        "next": [],
        "advance": ["u32"],
        "next_rand": ["u32"],
        "next_rand_mod": ["u32"],
    },
    "Xoroshiro128PlusRejection": {
        "init": ["u64", "u64"],
        "re_init": ["u64", "u64"],
        "next": [],
        "previous": [],
        "advance": ["u64"],
        "next_rand": ["u32"],
    },
    "SplitMixXoroshiro128Plus": {
        "init": ["u64"],
        "re_init": ["u64"],
        "next": [],
        "previous": [],
        "advance": ["u64"],
        "next_rand": ["u32"],
    },
    "Xorshift128": {
        "init": ["u32"] * 4,
        "re_init": ["u32"] * 4,
        "next": [],
        "previous": [],
        "advance": ["u32"],
        "next_rand": ["u32"],
        "next_randrange": ["i32", "i32"],
        "next_alternate_rand": ["u32"],
    },
}
VOID = {"re_init", "advance"}  # calls whose result (if any) is not part of the contract for non-LCRNGs
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64}


def family(spec):
    if isinstance(spec, dict):
        return f"LC{spec['custom']}"
    if spec in refs.LCRNGS:
        return f"LC{refs.LCRNGS[spec][0]}"
    return spec


def sig(spec, method):
    return SIG[family(spec)][method]


def encode(spec, method, args, typed):
    """Worker encoding of the arguments: annotated numpy scalars if typed, else Python ints."""
    kinds = sig(spec, method)
    return [[k if typed else "i", v] for k, v in zip(kinds, args)]


def to_worker(case):
    """case: {"objs": [[spec, args]...], "ops": [[obj, method, *args] ...], "typed": bool}"""
    typed = bool(case.get("typed"))
    objs = [{"cls": spec, "args": encode(spec, "init", args, typed)} for spec, args in case["objs"]]
    ops = []
    for o, method, *args in case["ops"]:
        spec = case["objs"][o][0]
        if method == "seed?":
            ops.append([o, "get", ["seed"]])
        elif method in ("const_jump", "const_rand"):
            kind = sig(spec, "jump" if method == "const_jump" else "next_rand")[0]
            kwargs = {"inline": "always"} if len(args) > 1 and args[1] else None
            ops.append([o, "const", [method, [kind if typed else "int", args[0]], kwargs]])
        elif method == "many":
            name, margs, count = args
            ops.append([o, "many", [name, encode(spec, name, margs, typed), count]])
        else:
            ops.append([o, method, encode(spec, method, args, typed)])
    return {"objs": objs, "ops": ops}


def model_run(case):
    """Expected result of every operation (None where the result is not part of the contract)."""
    objs = [refs.make(spec, args) for spec, args in case["objs"]]
    out = []
    for o, method, *args in case["ops"]:
        m = objs[o]
        lc = isinstance(m, refs.Lcrng)
        if method == "seed?":
            out.append(m.seed)
        elif method in ("const_jump", "const_rand"):
            out.append(getattr(m, method)(args[0]))
        elif method == "many":
            name, margs, count = args
            out.append([getattr(m, name)(*margs) for _ in range(count)])
        else:
            v = getattr(m, method)(*args)
            out.append(v if lc or method not in VOID else None)
            if lc and method == "re_init":
                out[-1] = None
    return out


def mask_void(case, got):
    """Results outside the contract are not compared."""
    res = []
    for (o, method, *_), v in zip(case["ops"], got):
        lc = family(case["objs"][o][0]).startswith("LC")
        res.append(None if method == "re_init" or (method == "advance" and not lc) else v)
    return res


def check_history(env, case, modes=("numba", "numpy"), what="history"):
    want = model_run(case)
    got = env.values("hist", modes=modes, **to_worker(case))
    for m, results in got.items():
        g = mask_void(case, results)
        env.compared += sum(len(x) if isinstance(x, list) else 1 for x in g)
        if g != want:
            from core import Violation, diff, short

            i = next((i for i, (a, b) in enumerate(zip(g, want)) if a != b), None)
            if i is None:
                raise Violation(f"[{m}] {what}: {diff(g, want)}", env.case)
            op = case["ops"][i]
            spec = case["objs"][op[0]][0]
            raise Violation(
                f"[{m}] {what}: operation {i} {op[1:]} on {short(spec)}: {diff(g[i], want[i])}", env.case
            )


def afford(env, key, quick, thorough):
    """Count a costly step (a compilation, a long walk); False once the tier's allowance is used up."""
    if env.replaying:
        return True
    used = env.memo.get(key, 0)
    if used >= (quick if env.tier == "quick" else thorough):
        return False
    env.memo[key] = used + 1
    return True


# --------------------------------------------------------------------------- strategies
def seed_args(spec):
    return st.tuples(*[word(WIDTH[k]) for k in sig(spec, "init")]).map(list)


@st.composite
def custom_lcrng(draw, bits=None):
    bits = bits or draw(st.sampled_from([32, 64]))
    reverse = draw(st.booleans())
    mult = draw(word(bits))
    if reverse:
        mult |= 1
    if bits == 32:
        dist = draw(st.sampled_from(["MODULO", "RECIPROCAL_DIVISION"]))
    else:
        dist = "MULTIPLICATION_SHIFT"
    return {"custom": bits, "add": draw(word(bits)), "mult": mult, "dist": dist, "reverse": reverse}


@st.composite
def stream_history(draw, spec, draws, counts, max_ops=6, rand=(), reinit=True, copies=1):
    """Draws from one generator: runs of plain outputs (lengths from counts), bounded draws, re-initialisation."""
    objs = [[spec, draw(seed_args(spec))] for _ in range(copies)]
    ops = []
    for _ in range(draw(st.integers(1, max_ops))):
        o = draw(st.integers(0, copies - 1))
        k = draw(st.integers(0, 9))
        if k <= 4 or (k >= 8 and not reinit):
            ops.append([o, "many", draw(st.sampled_from(draws)), [], draw(counts)])
        elif k <= 7 and rand:
            name, maxi = draw(st.sampled_from(rand))
            margs = [draw(maxi)]
            if draw(st.booleans()):
                ops.append([o, name, *margs])
            else:
                ops.append([o, "many", name, margs, draw(st.integers(1, 40))])
        elif reinit and k >= 8:
            ops.append([o, "re_init", *draw(seed_args(spec))])
        else:
            ops.append([o, draw(st.sampled_from(draws))])
    return {"objs": objs, "ops": ops, "typed": draw(st.booleans())}


def drawn(case):
    return sum(op[-1] if op[1] == "many" else op[1] != "re_init" for op in case["ops"])
