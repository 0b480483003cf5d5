"""Encounter slots, levels and rates follow the games' tables."""

from hypothesis import strategies as st

import gen3model
from core import Violation
from strats import word

EXAMPLES = (500, 20000)
SHARDS = (3, 6)
RULE = (
    "an area (shipped or made-up), game, encounter type and lead, with seeds built to give chosen slot rolls: slot chosen, "
    "slots of the lead's type, choice among them, level (with and without pressure), encounter rate and Safari Zone membership, "
    "and the generator's state after each step, compared with the games' tables; all 100 rolls of all six encounter types "
    "are fixed cases; non-trivial: the slots of the encounter type are not all equal"
)
ASSUMPTIONS = [
    "levels satisfy 1 <= minimum <= maximum <= 100",
    "made-up Ruby/Sapphire areas do not use map numbers 186-189, which no shipped area has",
]


def seed_for(roll, n, high):
    """A seed whose next output is roll modulo n."""
    top = (high >> 16) // n * n + roll
    if top > 0xFFFF:
        top -= n
    return gen3model.before(top << 16 | high & 0xFFFF)


@st.composite
def seed(draw):
    kind = draw(st.integers(0, 2))
    if kind == 0:
        return draw(word(32))
    n = 100 if kind == 1 else 2
    return seed_for(draw(st.integers(0, n - 1)), n, draw(st.integers(0, (1 << 32) - 1)))


@st.composite
def case(draw):
    game = draw(st.sampled_from(gen3model.GAMES))
    encounter = draw(st.sampled_from(gen3model.ENCOUNTERS))
    return {
        "area": draw(gen3model.area(game, encounter)),
        "game": game,
        "encounter": encounter,
        "lead": draw(st.one_of(st.sampled_from(list(gen3model.LEAD_TYPE)), st.sampled_from(gen3model.LEADS))),
        "seeds": draw(st.lists(seed(), min_size=1, max_size=25)),
        "pressure": draw(st.booleans()),
        "typed": draw(st.booleans()),
    }


def strategy(tier):
    return case()


def fixed_cases(tier):
    for e, encounter in enumerate(gen3model.ENCOUNTERS):
        for lead in ("NONE", *gen3model.LEAD_TYPE):
            area = {"location": 9, "land_rate": 11, "water_rate": 22, "rock_rate": 33, "fish_rate": 44}
            for f, n in gen3model.SIZES.items():
                # levels tell the slots apart; every type a lead attracts occurs
                kinds = [81, 25, 43, 58, 54, 1, 100, 374, 252, 255, 258, 19]
                area[f] = [[1 + i, 1 + i + 4 * (i % 4), kinds[(i + e) % 12]] for i in range(n)]
            for at in (0, 1):
                yield {
                    "area": area,
                    "game": gen3model.GAMES[(e + at) % 5],
                    "encounter": encounter,
                    "lead": lead,
                    "seeds": [seed_for(r, 100, (r * 0x9E3779B1 + at * 0x51234567) & 0xFFFFFFFF) for r in range(100)],
                    "pressure": bool(at),
                    "typed": bool(at),
                }
    # Safari Zone membership of every shipped area
    for game in gen3model.GAMES:
        for i in range(len(gen3model.shipped_areas(game))):
            yield {
                "area": ["shipped", game, i],
                "game": game,
                "encounter": gen3model.ENCOUNTERS[i % 6],
                "lead": list(gen3model.LEAD_TYPE)[i % 5],
                "seeds": [],
                "pressure": False,
                "typed": True,
            }


def check(env, case):
    k = "u32" if case["typed"] else "i"
    args = {f: case[f] for f in ("area", "game", "encounter", "lead", "pressure")}
    got = env.values("slots_3", seeds=[[k, s] for s in case["seeds"]], **args)
    area, encounter, lead = gen3model.area_of(case["area"]), case["encounter"], case["lead"]
    where = {f: case[f] for f in ("area", "game", "encounter", "lead") if f != "area" or isinstance(case["area"], list)}
    typed = gen3model.typed_slots(area, encounter, lead, case["game"])
    env.expect({m: g["rate"] for m, g in got.items()}, gen3model.encounter_rate(area, encounter), f"encounter rate of {where}")
    env.expect(
        {m: bool(g["safari"]) for m, g in got.items()}, gen3model.safari(area, case["game"]), f"Safari Zone membership of {where}"
    )
    env.expect({m: g["modified"] for m, g in got.items()}, typed, f"slots the lead attracts, {where}")
    for i, s in enumerate(case["seeds"]):
        rng = gen3model.Rng(s)
        plain = gen3model.choose_slot(area, rng, encounter)
        after = rng.seed
        rng = gen3model.Rng(s)
        slot = gen3model.choose_slot_lead(area, rng, encounter, lead, typed)
        after_lead = rng.seed
        level = gen3model.level_of(slot, rng, case["pressure"])
        want = [plain, after, slot, after_lead, level, rng.seed]
        names = ("slot", "state after the slot", "slot with the lead", "state after it", "level", "state after the level")
        for m, g in got.items():
            for name, a, b in zip(names, g["rolls"][i], want):
                env.compared += 1
                if a != b:
                    raise Violation(f"[{m}] {name} is {a} instead of {b} for seed {s:#010x}, {where}, pressure {case['pressure']}")
    slots = area[gen3model.SLOTS[encounter][0]]
    env.label(f"encounter-{encounter}", f"lead-type-{gen3model.LEAD_TYPE.get(lead, 'none')}", "attracted" if typed else "none-attracted")
    return any(s != slots[0] for s in slots)
