"""RNGList is a sliding window with a wrapping cursor over its generator's outputs."""

from hypothesis import strategies as st

import genhist
import refs
from core import Violation, diff
from strats import word

EXAMPLES = (420, 6000)
SHARDS = (4, 6)
RULE = (
    "a generator class, output function, matching element type, power-of-two size and seed, and a history of get_value "
    "runs (longer than the window), cursor advances of any width, state advances, refills, and refills after the "
    "generator was re-seeded or drawn from; compared with a list-based window over the reference generator; also list types "
    "asked for in any size, of which exactly the powers of two are to be had; "
    "non-trivial: values are read after the window or cursor moved"
)
ASSUMPTIONS = [
    "each compiled list type costs seconds, so a fixed set of them runs compiled (spread over the shards) and all "
    "combinations run interpreted; draws from the generator behind the list's back are followed by a refill",
]
# class, output function, element type: the functions that take no argument
KINDS = (
    [(n, "next_u16", "u16") for n in genhist.LC32]
    + [(n, "next", "u32") for n in genhist.LC32]
    + [(n, "next_u32", "u32") for n in genhist.LC64]
    + [(n, "next", "u64") for n in genhist.LC64]
    + [
        ("MersenneTwister", "next", "u32"),
        ("SIMDFastMersenneTwister", "next", "u64"),
        ("TinyMersenneTwister", "next", "u32"),
        ("Xoroshiro128PlusRejection", "next", "u64"),
        ("SplitMixXoroshiro128Plus", "next", "u32"),
        ("Xorshift128", "next", "u32"),
        ("Xoroshiro128PlusRejection", "previous", "u64"),
        ("SplitMixXoroshiro128Plus", "previous", "u32"),
        ("Xorshift128", "previous", "u32"),
    ]
)
COMPILED = [
    ("PokeRNGMod", "next_u16", "u16", 8),
    ("MersenneTwister", "next", "u32", 128),
    ("SIMDFastMersenneTwister", "next", "u64", 32),
    ("Xorshift128", "next", "u32", 65536),
    ("Xoroshiro128PlusRejection", "next", "u64", 16),
    ("SplitMixXoroshiro128Plus", "next", "u32", 2),
    ("BWRNG", "next", "u64", 256),
    ("XDRNG", "next_u16", "u16", 131072),
    ("TinyMersenneTwister", "next", "u32", 1),
    ("BWRNGR", "next_u32", "u32", 4),
    ("PokeRNGRDiv", "next", "u32", 1024),
    ("Xorshift128", "previous", "u32", 8),
]


def size_strategy(tier):
    return st.one_of(st.sampled_from([1, 2, 4, 8, 16, 32]), st.sampled_from([64, 128, 256, 1024]))


@st.composite
def history(draw, tier, compiled):
    if compiled:
        spec, fn, dtype, size = draw(st.sampled_from(compiled))
    else:
        spec, fn, dtype = draw(st.sampled_from(KINDS))
        size = draw(size_strategy(tier))
    small = size <= 4096
    ops = []
    for _ in range(draw(st.integers(1, 9))):
        k = draw(st.integers(0, 11))
        if k <= 3:
            n = st.integers(1, 2 * size + 3) if size <= 64 else st.integers(1, 130)
            ops.append(["get", draw(n)])
        elif k <= 5:
            ops.append(["advance", draw(st.one_of(st.integers(0, 3 * min(size, 100)), word(32)))])
        elif k == 6:
            ops.append(["advance_state"])
        elif k <= 8:
            n = st.integers(1, 2 * size + 3) if size <= 64 else st.integers(1, 150)
            ops.append(["advance_states", draw(n)])
        elif k == 9 and small:
            ops.append(["re_init"])
        elif k == 10 and small:
            ops.append(["reseed", *draw(genhist.seed_args(spec))])
        elif k == 11 and small:
            ops.append(["drawn", draw(st.integers(1, 5))])
    ops.append(["get", min(size, 64) + 2])
    return {
        "spec": spec,
        "fn": fn,
        "dtype": dtype,
        "size": size,
        "seed": draw(genhist.seed_args(spec)),
        "ops": ops,
        "typed": draw(st.booleans()),
        "compiled": bool(compiled),
    }


def strategy(tier):
    small = [c for c in COMPILED if c[3] <= 4096]
    size = st.one_of(st.integers(0, 40), word(20, 1), st.integers(0, 20).map(lambda n: 1 << n), st.integers(0, 20).map(lambda n: 3 << n))
    sizes = st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "sizes": st.lists(size, min_size=1, max_size=6)})
    return st.one_of(*[history(tier, small), history(tier, None)] * 8, sizes)


def fixed_cases(tier):
    yield {"kind": KINDS[0], "sizes": list(range(70)) + [(1 << n) + d for n in range(7, 21) for d in (-1, 0, 1)]}
    for i, (spec, fn, dtype, size) in enumerate(COMPILED):
        n = len(genhist.sig(spec, "init"))
        w = min(size, 300)
        yield {
            "spec": spec,
            "fn": fn,
            "dtype": dtype,
            "size": size,
            "seed": [(0xFEDCBA98 - i) >> k for k in range(n)],
            # the end of the window, the wrap, and the window after it moved past its own end
            "ops": [
                ["get", w],
                ["advance", (size - w - 2) % size],
                ["get", 5],
                ["advance_states", size + 3],
                ["get", w + 2],
                ["advance", 0xFFFFFFFF],
                ["get", 2],
                ["advance_state"],
                ["advance", size - 1],
                ["get", 2],
                ["re_init"],
                ["get", 3],
            ],
            "typed": i % 2 == 0,
            "compiled": True,
        }


def check_sizes(env, case):
    spec, fn, dtype = case["kind"]
    for m, got in env.values("rnglist_sizes", cls=spec, fn=fn, dtype=dtype, sizes=case["sizes"]).items():
        for n, made in zip(case["sizes"], got):
            power = n > 0 and n & (n - 1) == 0
            env.compared += 1
            env.require(made == power, f"[{m}] a {spec}.{fn} list of size {n} is {'accepted' if made else 'refused'}")
    env.label("sizes")
    return any(n & (n - 1) for n in case["sizes"])


def check(env, case):
    if "sizes" in case:
        return check_sizes(env, case)
    spec, fn, size = case["spec"], case["fn"], case["size"]
    typed = case["typed"]
    modes = ("numpy",)
    if case["compiled"]:
        # every shard compiles its own part of the list
        mine = COMPILED.index((spec, fn, case["dtype"], size)) % env.shards == env.shard
        if mine or env.replaying:
            modes = ("numba", "numpy")
    env.label(f"{spec}.{fn}", f"size-{size}", *[m for m in modes])
    objs = [
        {"cls": spec, "args": genhist.encode(spec, "init", case["seed"], typed)},
        {"cls": {"rnglist": spec, "fn": fn, "dtype": case["dtype"], "size": size}, "args": [["obj", 0]]},
    ]
    rng = refs.make(spec, case["seed"])
    model = refs.RNGList(rng, fn, size)
    u32 = "u32" if typed else "i"
    wire, want = [], []

    def both(op, result=None):
        wire.append(op)
        want.append(result)

    for name, *args in case["ops"]:
        if name == "get":
            both([1, "many", ["get_value", [], args[0]]], [model.get_value() for _ in range(args[0])])
        elif name in ("advance", "advance_states"):
            getattr(model, name)(args[0])
            both([1, name, [[u32, args[0]]]])
        elif name == "reseed":
            rng.re_init(*args)
            model.re_init()
            both([0, "re_init", genhist.encode(spec, "re_init", args, typed)])
            both([1, "re_init", []])
        elif name == "drawn":
            for _ in range(args[0]):
                rng.next()
            model.re_init()
            both([0, "many", ["next", [], args[0]]])
            both([1, "re_init", []])
        else:
            getattr(model, name)()
            both([1, name, []])
    got = env.values("hist", modes=modes, objs=objs, ops=wire)
    for m, outs in got.items():
        for i, (op, g, w) in enumerate(zip(wire, outs, want)):
            if w is None:
                continue
            env.compared += len(w)
            if g != w:
                raise Violation(f"[{m}] {spec}.{fn} list of {size}, operation {i} {op[1:]}: {diff(g, w)}")
    names = [op[0] for op in case["ops"]]
    return "get" in names and any(n != "get" for n in names)
