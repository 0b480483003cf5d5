"""Gen 3 wild encounters, read directly from the algorithm; areas and cases for the checks that use them."""

from hypothesis import strategies as st

import gen3data
import refs
from refs import M32
from strats import word

GAMES = tuple(gen3data.TABLE_OF)
ENCOUNTERS = ("GRASS", "ROCK_SMASH", "SURFING", "OLD_ROD", "GOOD_ROD", "SUPER_ROD")
METHODS = ("METHOD_1", "METHOD_2", "METHOD_4")
NATURES = ("HARDY LONELY BRAVE ADAMANT NAUGHTY BOLD DOCILE RELAXED IMPISH LAX TIMID HASTY SERIOUS JOLLY NAIVE MODEST MILD "
           "QUIET BASHFUL RASH CALM GENTLE SASSY CAREFUL QUIRKY").split()
OTHER_LEADS = ("NONE CUTE_CHARM_F CUTE_CHARM_M MAGNET_PULL STATIC HARVEST FLASH_FIRE STORM_DRAIN PRESSURE HUSTLE VITAL_SPIRIT "
               "SUCTION_CUPS STICKY_HOLD COMPOUND_EYES SUPER_LUCK ARENA_TRAP ILLUMINATE NO_GUARD").split()
LEADS = OTHER_LEADS + [f"SYNCHRONIZE_{n}" for n in NATURES]
PRESSURE = ("PRESSURE", "HUSTLE", "VITAL_SPIRIT")
LEAD_TYPE = {"MAGNET_PULL": 8, "STATIC": 12, "HARVEST": 11, "FLASH_FIRE": 9, "STORM_DRAIN": 10}
SLOTS = {
    "GRASS": ("land", (20, 20, 10, 10, 10, 10, 5, 5, 4, 4, 1, 1)),
    "ROCK_SMASH": ("rock", (60, 30, 5, 4, 1)),
    "SURFING": ("water", (60, 30, 5, 4, 1)),
    "OLD_ROD": ("fish_old", (70, 30)),
    "GOOD_ROD": ("fish_good", (60, 20, 20)),
    "SUPER_ROD": ("fish_super", (40, 40, 15, 4, 1)),
}
RATE = {"GRASS": "land_rate", "ROCK_SMASH": "rock_rate", "SURFING": "water_rate"}
SIZES = {"land": 12, "water": 5, "rock": 5, "fish_old": 2, "fish_good": 3, "fish_super": 5}
RSE = ("RUBY", "SAPPHIRE", "EMERALD")
# index of the Safari Zone maps among each game's areas
SAFARI = {"RUBY": (89, 90, 91, 92), "SAPPHIRE": (89, 90, 91, 92), "EMERALD": (20, 72, 73, 74, 97, 98)}


class Rng:
    """The LCRNG every Gen 3 game uses; rand(n) is the upper half modulo n."""

    def __init__(self, seed):
        self.seed = seed

    def u16(self):
        self.seed = (self.seed * 0x41C64E6D + 0x6073) & M32
        return self.seed >> 16

    def rand(self, n):
        return self.u16() % n


def jump(seed, n):
    mult, add = 0x41C64E6D, 0x6073
    while n:
        if n & 1:
            seed = (seed * mult + add) & M32
        mult, add = mult * mult & M32, (mult + 1) * add & M32
        n >>= 1
    return seed


def before(seed):
    """The state one step earlier."""
    return ((seed - 0x6073) * 0xEEB9EB65) & M32


# --------------------------------------------------------------------------- areas
def shipped_areas(game):
    """Areas of the game as the data files list them (see refs_encounter3 in gen3data)."""
    return gen3data.areas(game)


def area_of(spec):
    return shipped_areas(spec[1])[spec[2]] if isinstance(spec, list) else spec


def encounter_rate(area, encounter):
    return area[RATE.get(encounter, "fish_rate")]


def slot_index(encounter, roll):
    at = 0
    for i, p in enumerate(SLOTS[encounter][1]):
        at += p
        if roll < at:
            return i
    raise AssertionError(roll)


def safari(area, game):
    return area["location"] in SAFARI.get(game, ())


def typed_slots(area, encounter, lead, game):
    kind = LEAD_TYPE.get(lead)
    if kind is None:
        return []
    table = gen3data.TABLE_OF[game]
    return [s for s in area[SLOTS[encounter][0]] if kind in gen3data.record(table, s[2] & 0x7FF).types]


def choose_slot(area, rng, encounter):
    return area[SLOTS[encounter][0]][slot_index(encounter, rng.rand(100))]


def choose_slot_lead(area, rng, encounter, lead, typed):
    if lead in ("MAGNET_PULL", "STATIC") and rng.rand(2) == 0 and typed:
        return typed[rng.rand(len(typed))]
    return choose_slot(area, rng, encounter)


def level_of(slot, rng, pressure):
    lo, hi = slot[0], slot[1]
    roll = rng.rand(hi - lo + 1)
    if pressure:
        if rng.rand(2) == 0:
            return hi
        roll = max(roll - 1, 0)
    return lo + roll


# --------------------------------------------------------------------------- the generator
def generate(gen, seed, delay, initial, count, area, frames=None):
    """All states of a window; frames receives labels of what happened."""
    game, encounter, method = gen["game"], gen["encounter"], gen["method"]
    lead = gen["lead"] if game == "EMERALD" else "NONE"
    tsv = gen["tid"] ^ gen["sid"]
    table = gen3data.TABLE_OF[game]
    typed = typed_slots(area, encounter, lead, game)
    frames = frames if frames is not None else set()
    out = []
    start = jump(seed, initial + delay)
    for advance in range(initial, initial + count):
        rng = Rng(start)
        start = jump(start, 1)
        if game in RSE and encounter == "ROCK_SMASH" and rng.rand(2880) >= 16 * area["rock_rate"]:
            frames.add("rock-smash-failed")
            continue
        slot = choose_slot_lead(area, rng, encounter, lead, typed)
        species, form = slot[2] & 0x7FF, slot[2] >> 11
        level = level_of(slot, rng, lead in PRESSURE)
        info = gen3data.record(table, species)
        charmed = False
        if lead in ("CUTE_CHARM_F", "CUTE_CHARM_M") and 0 < info.gender_ratio < 254:
            charmed = rng.rand(3) != 0
            frames.add("cute-charm" if charmed else "cute-charm-failed")
        if safari(area, game):
            rng.u16()
            frames.add("safari")
        if lead.startswith("SYNCHRONIZE"):
            if rng.rand(2) == 0:
                nature = NATURES.index(lead[12:])
                frames.add("synchronized")
            else:
                nature = rng.rand(25)
        else:
            nature = rng.rand(25)
        while True:
            pid = rng.u16()
            pid |= rng.u16() << 16
            if pid % 25 != nature:
                continue
            if charmed:
                female = pid & 0xFF < info.gender_ratio
                if female == (lead == "CUTE_CHARM_F"):
                    continue
            if species == 201 and refs.unown_letter(pid) != form:
                continue
            break
        if method == "METHOD_2":
            rng.u16()
        iv1 = rng.u16()
        if method == "METHOD_4":
            rng.u16()
        iv2 = rng.u16()
        ivs = [iv1 & 31, iv1 >> 5 & 31, iv1 >> 10 & 31, iv2 >> 5 & 31, iv2 >> 10 & 31, iv2 & 31]
        out.append(refs.state3(advance & 0xFFFFFFFF, pid, species, form, ivs, pid & 1, level, refs.shiny3(pid, tsv), info))
    return out


# --------------------------------------------------------------------------- strategies
ELECTRIC_STEEL = [25, 26, 81, 82, 100, 101, 125, 135, 145, 170, 171, 172, 179, 180, 181, 205, 208, 212, 227, 239, 243, 303, 304, 305, 306, 309, 310, 311, 312, 374, 375, 376]
GRASS_FIRE_WATER = [1, 4, 7, 43, 54, 58, 60, 69, 72, 77, 79, 129, 152, 155, 158, 252, 255, 258, 270, 278, 318, 324]
ODD_GENDERS = [29, 32, 81, 100, 106, 107, 113, 120, 124, 128, 132, 137, 233, 236, 237, 238, 241, 242, 313, 314, 337, 338]
SPECIES = st.one_of(
    st.integers(1, 386).filter(lambda s: s not in (201, 292)),
    st.sampled_from(ELECTRIC_STEEL),
    st.sampled_from(GRASS_FIRE_WATER),
    st.sampled_from(ODD_GENDERS),
)


@st.composite
def slot(draw, unown=True):
    lo = draw(st.integers(1, 100))
    hi = draw(st.one_of(st.just(lo), st.integers(lo, min(100, lo + 10)), st.integers(lo, 100)))
    if unown and draw(st.integers(0, 25)) == 0:
        return [lo, hi, 201 | draw(st.integers(0, 27)) << 11]
    return [lo, hi, draw(SPECIES)]


@st.composite
def made_up_area(draw, game):
    locations = [0, 1, 5, 19, 20, 21, 71, 72, 73, 74, 75, 88, 89, 90, 91, 92, 93, 96, 97, 98, 99, 123]
    area = {"location": draw(st.sampled_from(locations))}
    for f in ("land_rate", "water_rate", "rock_rate", "fish_rate"):
        area[f] = draw(st.one_of(st.sampled_from([0, 1, 20, 25, 90, 180, 255]), word(8)))
    pool = draw(st.lists(slot(), min_size=1, max_size=6))
    for f, n in SIZES.items():
        area[f] = draw(st.lists(st.one_of(st.sampled_from(pool), slot()), min_size=n, max_size=n))
    return area


def has(area, encounter):
    return any(s[2] for s in area[SLOTS[encounter][0]])


@st.composite
def area(draw, game, encounter, made_up=True):
    if made_up and draw(st.booleans()):
        return draw(made_up_area(game))
    good = [i for i, a in enumerate(shipped_areas(game)) if has(a, encounter)]
    if not good:
        return draw(made_up_area(game))
    return ["shipped", game, draw(st.sampled_from(good))]


@st.composite
def generator(draw):
    game = draw(st.sampled_from(GAMES + ("EMERALD", "EMERALD", "EMERALD")))
    lead = draw(st.one_of(st.sampled_from(LEADS), st.sampled_from(OTHER_LEADS), st.just("NONE")))
    tid = draw(word(16))
    # a small trainer value makes shiny states less rare for chosen seeds only; keep it free
    return {
        "method": draw(st.sampled_from(METHODS)),
        "encounter": draw(st.sampled_from(ENCOUNTERS)),
        "lead": lead,
        "game": game,
        "tid": tid,
        "sid": draw(st.one_of(word(16), st.just(tid))),
    }


def encode_gen(g, typed):
    k = "u16" if typed else "i"
    return {**g, "tid": [k, g["tid"]], "sid": [k, g["sid"]]}


def encode_window(w, typed):
    k = "u32" if typed else "i"
    # advances count modulo 2**32
    return [[k, a & 0xFFFFFFFF] for a in w[:4]] + w[4:]


def simple_area():
    """A made-up area with something in every slot."""
    area = {"location": 3, "land_rate": 20, "water_rate": 4, "rock_rate": 90, "fish_rate": 30}
    for f, n in SIZES.items():
        area[f] = [[2 + i, 2 + i + (i * 3) % 11, (1, 25, 29, 81, 113)[i % 5]] for i in range(n)]
    return area
