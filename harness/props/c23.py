"""Wild generation windows are consistent with each other."""

from hypothesis import strategies as st

import gen3model
from core import Violation
from strats import word

EXAMPLES = (260, 9000)
SHARDS = (3, 6)
RULE = (
    "one window of a wild generator plus, of the same seed and area: the window cut in two or three parts, a part starting "
    "later, the part shifted into the delay and into the seed, the same window again on the same and on a new generator, and "
    "windows of other areas in between; the lists are compared with each other, advances checked to increase inside the window; "
    "non-trivial: the window yields at least two states"
)
ASSUMPTIONS = [
    "windows of more than 65536 advances are asked for compiled only, and compared with short windows at some places",
]


@st.composite
def case(draw, longest):
    gen = draw(gen3model.generator())
    areas = draw(st.lists(gen3model.area(gen["game"], gen["encounter"]), min_size=2, max_size=2))
    count = draw(st.integers(2, longest))
    top = (1 << 32) - 1
    delay = draw(st.one_of(st.just(0), st.integers(0, 9), word(20), word(32)))
    initial = draw(st.one_of(st.integers(0, 5), word(16), word(32), st.integers(top - longest, top)))
    cuts = sorted(draw(st.lists(st.integers(0, count), min_size=1, max_size=3)))
    return {
        "gen": gen,
        "areas": areas,
        "seed": draw(word(32)),
        "delay": delay,
        "initial": initial,
        "count": count,
        "cuts": cuts,
        "between": [draw(word(32)), draw(st.integers(0, 3)), draw(st.integers(0, 9)), draw(st.integers(0, 10))],
        "typed": draw(st.booleans()),
    }


def strategy(tier):
    return case(30 if tier == "quick" else 100)


def long_window(tier):
    lengths = [65537] if tier == "quick" else [65535, 65536, 65537, 70001, 131072, 262147]
    for i, n in enumerate(lengths):
        for enc, lead in (("GRASS", "NONE"), ("SURFING", "CUTE_CHARM_F"))[: 1 if tier == "quick" else 2]:
            gen = {"method": gen3model.METHODS[i % 3], "encounter": enc, "lead": lead, "game": "EMERALD", "tid": 7, "sid": 9}
            yield {"gen": gen, "seed": 0x1234567 * (i + 1), "delay": i, "initial": 3 * i, "count": n, "long": True}


def fixed_cases(tier):
    yield from long_window(tier)


def check_long(env, case):
    """The length of a long window, and its states at some places against windows of one advance."""
    seed, d, i, n = case["seed"], case["delay"], case["initial"], case["count"]
    gen = gen3model.encode_gen(case["gen"], False)
    places = sorted({0, 1, 255, 256, 65534, 65535, 65536, n // 2, n - 2, n - 1} & set(range(n)))
    area = {"gen": gen, "areas": [gen3model.simple_area()]}
    got = env.values("wild_long", modes=("numba",), window=gen3model.encode_window([seed, d, i, n], False), places=places, **area)
    length, states = got["numba"]
    env.expect({"numba": length}, n, f"number of states of a window of {n} advances")
    short = env.values(
        "wild", modes=("numba",), runs=[{**area, "windows": [gen3model.encode_window([seed, d, i + p, 1, 0], False) for p in places]}]
    )["numba"][0]
    for p, state, want in zip(places, states, short):
        env.expect({"numba": state}, want[0], f"state {p} of a window of {n} advances against a window of its own")
    env.label("long-window")
    return True


def windows(case):
    """Named windows, all of the same frames; and the order in which they are asked for."""
    seed, d, i, n, cuts = case["seed"], case["delay"], case["initial"], case["count"], case["cuts"]
    edges = [0] + cuts + [n]
    out = [("whole", [seed, d, i, n, 0])]
    for a, b in zip(edges, edges[1:]):
        out.append((f"part {a}-{b}", [seed, d, i + a, b - a, 0]))
        out.append(("between", case["between"] + [1]))
    out.append((f"later {cuts[0]}", [seed, d, i + cuts[0], n - cuts[0], 0]))
    out.append(("seed shifted by the delay", [gen3model.jump(seed, d), 0, i, n, 0]))
    out.append(("delay and advance exchanged", [seed, i, d, n, 0]))
    out.append(("again", [seed, d, i, n, 0]))
    return out


def check(env, case):
    if case.get("long"):
        return check_long(env, case)
    gen = gen3model.encode_gen(case["gen"], case["typed"])
    wins = windows(case)
    seed, d, i, n, cuts = case["seed"], case["delay"], case["initial"], case["count"], case["cuts"]
    runs = [
        {"gen": gen, "areas": case["areas"], "windows": [gen3model.encode_window(w, case["typed"]) for _, w in wins]},
        {"gen": gen, "areas": case["areas"], "windows": [gen3model.encode_window(wins[0][1], case["typed"])]},
    ]
    got = env.values("wild", runs=runs)
    some = False
    for m, (shared, fresh) in got.items():
        named = dict(zip([name for name, _ in wins], shared))
        whole = named["whole"]
        some = some or len(whole) > 1
        # advances count modulo 2**32, as the generator does
        advances = [(s["advance"] - i) & 0xFFFFFFFF for s in whole]
        env.require(
            all(a < b for a, b in zip(advances, advances[1:])), f"[{m}] advances are not increasing from {i}: {advances}"
        )
        env.require(
            all(a < n for a in advances), f"[{m}] advances outside the window {i}..{i + n - 1}: {i} + {advances}"
        )
        if not (case["gen"]["encounter"] == "ROCK_SMASH"):
            env.require(len(whole) == n, f"[{m}] {len(whole)} states for a window of {n} advances")
        parts = [s for name, _ in wins if name.startswith("part") for s in named[name]]
        env.expect({m: parts}, whole, f"the window cut at {cuts} and joined, against the whole window")
        later = [s for s in whole if (s["advance"] - i) & 0xFFFFFFFF >= cuts[0]]
        env.expect({m: named[f"later {cuts[0]}"]}, later, f"the window started {cuts[0]} later")
        env.expect({m: named["seed shifted by the delay"]}, whole, f"the seed advanced by the delay {d}, without delay")
        moved = [{**s, "advance": (s["advance"] - i + d) & 0xFFFFFFFF} for s in whole]
        env.expect({m: named["delay and advance exchanged"]}, moved, "delay and first advance exchanged")
        env.expect({m: named["again"]}, whole, "the same window asked for again")
        env.expect({m: fresh[0]}, whole, "the same window on a new generator")
    env.label(f"game-{case['gen']['game']}", f"encounter-{case['gen']['encounter']}", f"parts-{len(cuts) + 1}")
    return some
