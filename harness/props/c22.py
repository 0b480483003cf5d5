"""The Gen 3 wild generator agrees with a step-by-step reference."""

from hypothesis import strategies as st

import gen3model
from core import Violation, short
from strats import word

EXAMPLES = (500, 16000)
SHARDS = (3, 6)
RULE = (
    "a generator (game, method 1/2/4, encounter type, lead, trainer ids) and windows (seed, delay, first advance, length) over "
    "shipped or made-up encounter areas; every field of every state compared with a step-by-step reference; "
    "non-trivial: the reference yields at least one state"
)
ASSUMPTIONS = [
    "Unown slots carry one of the 28 letters (no other PID search ends)",
    "the HP of species 292 is not compared",
    "made-up Ruby/Sapphire areas do not use map numbers 186-189, which no shipped area has",
]


@st.composite
def window(draw, areas, longest):
    count = draw(st.one_of(st.integers(0, longest), st.integers(1, longest), st.just(longest)))
    delay = draw(st.one_of(st.just(0), st.integers(0, 3), word(16), word(32)))
    initial = draw(st.one_of(st.just(0), st.integers(0, 5), word(16), word(32), st.integers((1 << 32) - 1 - longest, (1 << 32) - 1)))
    return [draw(word(32)), delay, initial, count, draw(st.integers(0, areas - 1))]


@st.composite
def case(draw, longest):
    gen = draw(gen3model.generator())
    areas = draw(st.lists(gen3model.area(gen["game"], gen["encounter"]), min_size=1, max_size=2))
    windows = draw(st.lists(window(len(areas), longest), min_size=1, max_size=4))
    return {"gen": gen, "areas": areas, "windows": windows, "typed": draw(st.booleans())}


def strategy(tier):
    return case(40 if tier == "quick" else 120)


SPECIES = (1, 25, 29, 81, 113, 132, 201 | 5 << 11, 236, 290, 303, 351, 386)


def fixed_area(location, offset=0):
    area = {"location": location, "land_rate": 20, "water_rate": 4, "rock_rate": 90, "fish_rate": 30}
    for f, n in gen3model.SIZES.items():
        area[f] = [[2 + i, 2 + i + (i * 3) % 11, SPECIES[(i + offset) % len(SPECIES)]] for i in range(n)]
    return area


def fixed_cases(tier):
    # every lead, every (game, encounter) and every method at least once, with enough frames to see each branch
    leads = [(l, i) for i, l in enumerate(gen3model.LEADS)]
    for lead, i in leads:
        enc = gen3model.ENCOUNTERS[i % 6]
        gen = {
            "method": gen3model.METHODS[i % 3],
            "encounter": enc,
            "lead": lead,
            "game": "EMERALD",
            "tid": 12345,
            "sid": 54321,
        }
        locations = [20, 72, 73, 74, 97, 98]
        yield {
            "gen": gen,
            "areas": [fixed_area(locations[i % 6] if i % 2 else 3, i), fixed_area(7, i + 5)],
            "windows": [[i * 0x1234567, 0, 0, 60, 0], [i * 0x7654321 & 0xFFFFFFFF, i, 100 * i, 40, 1]],
            "typed": False,
        }
    for g, game in enumerate(gen3model.GAMES):
        for e, enc in enumerate(gen3model.ENCOUNTERS):
            yield {
                "gen": {
                    "method": gen3model.METHODS[(g + e) % 3],
                    "encounter": enc,
                    "lead": gen3model.OTHER_LEADS[(3 * g + e) % len(gen3model.OTHER_LEADS)],
                    "game": game,
                    "tid": 1,
                    "sid": 0xFFFF - e,
                },
                "areas": [fixed_area((88, 89, 90, 91, 92, 93)[e], e + g), fixed_area((20, 72, 73, 74, 97, 98)[e], g)],
                "windows": [[g << 24 | e, 0, 1, 50, 0], [0xFFFFFFFF - e, 7, 3, 50, 1]],
                "typed": True,
            }


def encode(case):
    return {
        "gen": gen3model.encode_gen(case["gen"], case["typed"]),
        "areas": case["areas"],
        "windows": [gen3model.encode_window(w, case["typed"]) for w in case["windows"]],
    }


def compare(env, m, got, want, where):
    env.compared += len(want)
    if len(got) != len(want):
        raise Violation(
            f"[{m}] {len(got)} states instead of {len(want)} for {where}: advances {short([s['advance'] for s in got])}, "
            f"expected {short([s['advance'] for s in want])}"
        )
    for g, w in zip(got, want):
        for f, v in w.items():
            if f == "stats" and w["species"] == 292:
                g, v = {**g, f: g[f][1:]}, v[1:]
            if g[f] != v:
                raise Violation(f"[{m}] {f} is {g[f]} instead of {v} in the state of advance {w['advance']} for {where}")


def check(env, case):
    got = env.values("wild", runs=[encode(case)])
    frames = set()
    some = False
    for i, (seed, delay, initial, count, area) in enumerate(case["windows"]):
        want = gen3model.generate(
            case["gen"], seed, delay, initial, count, gen3model.area_of(case["areas"][area]), frames
        )
        some = some or bool(want)
        for m, runs in got.items():
            compare(env, m, runs[0][i], want, {"gen": case["gen"], "window": case["windows"][i]})
    gen = case["gen"]
    env.label(f"game-{gen['game']}", f"encounter-{gen['encounter']}", f"method-{gen['method']}", *frames)
    if gen["game"] == "EMERALD":
        env.label("lead-SYNCHRONIZE" if gen["lead"].startswith("SYNC") else f"lead-{gen['lead']}")
    return some
