"""Requests the package does not support are refused in both modes, and a refusal changes nothing."""

from hypothesis import strategies as st

import genhist
import refs
from core import Violation, short
from strats import maxima, word

EXAMPLES = (480, 14000)
SHARDS = (8, 8)
RULE = (
    "histories over generators some of which lack an operation (LCRNGs without a distribution, the LCRNG base classes), mixing "
    "refused requests with ones that are answered; classes that cannot be made (a reversed LCRNG whose multiplier has no inverse, a "
    "list of outputs of a method that does not exist, the abstract Xoroshiro128Plus); tables of games without one, alone and "
    "combined, among tables that exist; cached functions that fail in the function, its encoding or while pickling; each answer "
    "compared with a model that says which are refused, with which kind of error, and what the others give; non-trivial: at least "
    "one request is refused and one is answered afterwards"
)
ASSUMPTIONS = [
    "a combination of games is asked for only if none of them has a table, or they share one",
    "refusals made by assert (sizes and ranges) vanish under python -O; C14 and C33 decide those of a normal run",
]
LENGTHS = [
    (["RUBY", "SAPPHIRE"], 387),
    (["EMERALD"], 387),
    (["FIRE_RED"], 387),
    (["LEAF_GREEN"], 387),
    (["DIAMOND", "PEARL"], 501),
    (["PLATINUM"], 508),
    (["BLACK", "WHITE"], 668),
    (["BLACK2", "WHITE2"], 709),
    (["X", "Y"], 799),
    (["OMEGA_RUBY", "ALPHA_SAPPHIRE"], 826),
    (["SUN", "MOON"], 961),
    (["ULTRA_SUN", "ULTRA_MOON"], 976),
    (["SWORD", "SHIELD"], 1192),
    (["BRILLIANT_DIAMOND", "SHINING_PEARL"], 560),
    (["LEGENDS_ARCEUS"], 1276),
]
WITHOUT = ["NONE", "GALES", "COLOSSEUM", "HEART_GOLD", "SOUL_SILVER"]
AREAS = {"RUBY", "SAPPHIRE", "EMERALD", "FIRE_RED", "LEAF_GREEN"}
ERRORS = ["ValueError", "KeyError", "RuntimeError", "KeyboardInterrupt"]
PART = {32: "next_u16", 64: "next_u32"}


# --------------------------------------------------------------------------- generation
@st.composite
def lcrng(draw):
    bits = draw(st.sampled_from([32, 64]))
    if draw(st.integers(0, 4)) == 0:
        return {"bare": bits}
    spec = draw(genhist.custom_lcrng(bits))
    if draw(st.integers(0, 3)):
        spec["dist"] = "NONE"
    return spec


@st.composite
def history(draw):
    objs = []
    for _ in range(draw(st.integers(1, 2))):
        spec = draw(lcrng())
        objs.append([spec, draw(word(spec.get("bare") or spec["custom"]))])
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        who = draw(st.integers(0, len(objs) - 1))
        spec = objs[who][0]
        bits = spec.get("bare") or spec["custom"]
        name = draw(
            st.sampled_from(["next", PART[bits], "jump", "advance", "re_init", "const_jump", "seed?"] + ["next_rand"] * 3 + ["const_rand"] * 2)
        )
        if name in ("next", PART[bits], "seed?"):
            args = []
        elif name in ("next_rand", "const_rand"):
            args = [draw(maxima(bits // 2))]
        elif name == "advance":
            args = [draw(st.integers(0, 60))]
        else:
            args = [draw(word(bits))]
        ops.append([who, name, args])
    return {"kind": "history", "objs": objs, "ops": ops}


@st.composite
def making(draw):
    items = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 9))
        if k <= 5:
            bits = draw(st.sampled_from([32, 64]))
            items.append(["reverse", bits, draw(word(bits)), draw(word(bits))])
        elif k <= 7:
            cls = draw(st.sampled_from(["PokeRNGMod", "BWRNG", "Xorshift128", "MersenneTwister"]))
            real = {"BWRNG": "next_u32", "PokeRNGMod": "next_u16"}.get(cls, "next")
            items.append(["list", cls, draw(st.sampled_from([real, "next_nothing", "", "__next__", "nexT"]))])
        else:
            items.append(["abstract", "Xoroshiro128Plus"])
    return {"kind": "make", "items": items}


@st.composite
def tables(draw):
    games = []
    for _ in range(draw(st.integers(2, 8))):
        if draw(st.booleans()):
            games.append(draw(st.lists(st.sampled_from(WITHOUT), min_size=1, max_size=4, unique=True)))
        else:
            names, _ = draw(st.sampled_from(LENGTHS))
            games.append(draw(st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True)))
    return {"kind": "tables", "games": games}


@st.composite
def cached(draw):
    calls = []
    for _ in range(draw(st.integers(2, 9))):
        error = draw(st.sampled_from([None, None, None] + ERRORS))
        calls.append([draw(st.integers(0, 2)), error, draw(st.sampled_from(["function", "encode", "pickle"]))])
    return {"kind": "cached", "name": draw(st.sampled_from(["a", "areas", "b-1", "π"])), "calls": calls}


def strategy(tier):
    return st.one_of(history(), history(), making(), tables(), cached())


def fixed_cases(tier):
    for bits in (32, 64):
        for reverse in (False, True):
            spec = {"custom": bits, "add": 12345, "mult": 0x41C64E6D, "dist": "NONE", "reverse": reverse}
            ops = [[0, "next", []]]
            for name in ("next_rand", "const_rand"):
                ops += [[0, name, [7]], [0, "seed?", []], [0, "next", []]]
            yield {"kind": "history", "objs": [[spec, 99]], "ops": ops}
        bare = [[0, n, a] for n, a in (("next", []), (PART[bits], []), ("jump", [3]), ("next_rand", [5]), ("advance", [2]), ("const_jump", [1]))]
        yield {"kind": "history", "objs": [[{"bare": bits}, 77]], "ops": bare + [[0, "const_rand", [4]], [0, "seed?", []]]}
        yield {"kind": "make", "items": [["reverse", bits, 1, m] for m in (0, 2, 4, 1 << (bits - 1), 3, (1 << bits) - 1)]}
    yield {"kind": "make", "items": [["abstract", "Xoroshiro128Plus"]] * 2}
    yield {"kind": "tables", "games": [[n] for names, _ in LENGTHS for n in names] + [[n] for n in WITHOUT] + [WITHOUT]}
    for where in ("function", "encode", "pickle"):
        yield {"kind": "cached", "name": "all", "calls": [[n, e, where] for n, e in enumerate(ERRORS)] + [[n, None, where] for n in range(4)] * 2}


# --------------------------------------------------------------------------- model
NOT = "NotImplementedError"


def model_history(case):
    """Expected answers: the value, the name of an error's class, or None where the answer is not part of the contract."""
    made = []
    for spec, seed in case["objs"]:
        bits = spec.get("bare") or spec["custom"]
        made.append(refs.make({"custom": bits, "add": 0, "mult": 1, "dist": "NONE", "reverse": False} if "bare" in spec else spec, [seed]))
    out = []
    for who, name, args in case["ops"]:
        spec, m = case["objs"][who][0], made[who]
        if name == "seed?":
            out.append(m.seed)
        elif name == "re_init":
            m.re_init(*args)
            out.append(None)
        elif "bare" in spec:
            out.append(m.seed if name == "advance" and not args[0] else NOT)
        elif name in ("next_rand", "const_rand") and spec["dist"] == "NONE":
            out.append(NOT)
        else:
            out.append(getattr(m, name)(*args))
    return out


def agree(env, mode, what, got, want):
    env.compared += 1
    if isinstance(want, str):
        if want not in got.get("exc", ()):
            raise Violation(f"[{mode}] {what}: should be refused with {want}, gave {short(got)}", env.case)
    elif "ok" not in got:
        raise Violation(f"[{mode}] {what}: refused with {got['exc'][0]}, should give {short(want)}", env.case)
    elif want is not None and got["ok"] != want:
        raise Violation(f"[{mode}] {what}: gave {short(got['ok'])}, not {short(want)}", env.case)


def check_history(env, case):
    want = model_history(case)
    modes = ["numpy"]
    keys = {(repr(s), m) for s, m, *_ in [[case["objs"][w][0], n] for w, n, _ in case["ops"]]}
    if genhist.afford(env, "history", 5, 300):
        modes.append("numba")
    else:
        env.label("not-compiled")
    objs = [{"cls": spec, "args": [["i", seed]]} for spec, seed in case["objs"]]
    ops = []
    for who, name, args in case["ops"]:
        kind = "int" if name.startswith("const") else "i"
        ops.append([who, name, [[kind, a] for a in args]])
    # a Custom class takes its constants as Python ints
    for o in objs:
        if "custom" in o["cls"]:
            o["cls"] = {**o["cls"], "add": ["int", o["cls"]["add"]], "mult": ["int", o["cls"]["mult"]]}
    got = env.values("refuse_history", modes=modes, objs=objs, ops=ops)
    for m in modes:
        for i, (g, w) in enumerate(zip(got[m], want)):
            agree(env, m, f"operation {i} {case['ops'][i][1:]} on {short(case['objs'][case['ops'][i][0]][0])}", g, w)
    env.label(*{n for _, n in keys})
    refused = [i for i, w in enumerate(want) if w == NOT]
    return bool(refused) and any(w is not None and w != NOT for w in want[refused[0] :])


def check_make(env, case):
    modes = ["numpy"]
    if genhist.afford(env, "make", 3, 120):
        modes.append("numba")
    got = env.values("refuse_make", modes=modes, items=[[k, *[["int", a] if isinstance(a, int) and k == "reverse" and j else a for j, a in enumerate(x)]] for k, *x in case["items"]])
    refused = 0
    for m in modes:
        for item, g in zip(case["items"], got[m]):
            kind, *args = item
            if kind == "reverse":
                bits, add, mult = args
                if mult % 2 == 0:
                    refused += 1
                    agree(env, m, f"{item}", g, "ValueError")
                else:
                    mask = (1 << bits) - 1
                    agree(env, m, f"{item}", g, (1 - add) * pow(mult, -1, 1 << bits) & mask)
            elif kind == "list":
                if args[1] in ("next", "next_u16", "next_u32"):
                    agree(env, m, f"{item}", g, None)
                else:
                    refused += 1
                    agree(env, m, f"{item}", g, "Exception")
            else:
                refused += 1
                agree(env, m, f"{item}", g, NOT)
            env.label(kind)
    return refused > 0 and len(case["items"]) > 1


def check_tables(env, case):
    got = env.values("refuse_tables", games=case["games"])
    lengths = {n: size for names, size in LENGTHS for n in names}
    for m, answers in got.items():
        for names, (table, areas) in zip(case["games"], answers):
            agree(env, m, f"table of {names}", table, lengths.get(names[0], NOT))
            if len(names) == 1:
                if names[0] in AREAS:
                    agree(env, m, f"areas of {names}", areas, None)
                else:
                    agree(env, m, f"areas of {names}", areas, "KeyError")
    kinds = {names[0] in lengths for names in case["games"]}
    return len(kinds) == 2


def check_cached(env, case):
    env.memo["runs"] = env.memo.get("runs", 0) + 1
    name = f"refuse-{case['name']}-{env.shard}-{env.memo['runs']}"
    got = env.values("refuse_cached", name=name, calls=case["calls"])
    for m, answers in got.items():
        stored = set()
        for i, (arg, error, where) in enumerate(case["calls"]):
            answer, calls, files = answers[i]
            what = f"call {i} {case['calls'][i]}"
            if arg in stored:
                agree(env, m, what, answer, [arg, arg * 2])
                env.require(calls == 0, f"[{m}] {what}: computed again")
            elif error:
                agree(env, m, what, answer, error)
                env.require(calls == 1, f"[{m}] {what}: computed {calls} times")
            else:
                agree(env, m, what, answer, [arg, arg * 2])
                env.require(calls == 1, f"[{m}] {what}: computed {calls} times")
                stored.add(arg)
            want = sorted(f"{name}_{a}.pkl" for a in stored)
            env.require(files == want, f"[{m}] {what}: the cache folder holds {short(files)}, not {short(want)}")
    errors = [i for i, c in enumerate(case["calls"]) if c[1]]
    return bool(errors) and errors[0] + 1 < len(case["calls"])


def check(env, case):
    env.label(case["kind"])
    return {"history": check_history, "make": check_make, "tables": check_tables, "cached": check_cached}[case["kind"]](env, case)
