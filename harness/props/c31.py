"""Enumerations identify things uniquely and match the data they index."""

from hypothesis import strategies as st

import gen3model
import ladata
from core import Violation

EXAMPLES = (700, 20000)
RULE = (
    "sets of games combined by their flags (which games the combination contains), pairs of members of one enumeration compared, "
    "natures of synchronize leads, and multipliers of shipped slots indexed by time and weather members; all members of all "
    "enumerations are fixed cases; non-trivial: at least two different members take part"
)
GAMES = (
    "RUBY SAPPHIRE EMERALD FIRE_RED LEAF_GREEN GALES COLOSSEUM DIAMOND PEARL PLATINUM HEART_GOLD SOUL_SILVER BLACK WHITE BLACK2 "
    "WHITE2 X Y OMEGA_RUBY ALPHA_SAPPHIRE SUN MOON ULTRA_SUN ULTRA_MOON SWORD SHIELD BRILLIANT_DIAMOND SHINING_PEARL LEGENDS_ARCEUS"
).split()
TIMES = "DAWN DAY DUSK NIGHT".split()
# "NONE" has no entry in the files: its multiplier is always 1 and comes first
WEATHERS = "NONE SUNNY CLOUDY RAIN SNOW DROUGHT FOG RAINSTORM SNOWSTORM".split()
METHODS = (
    "NONE METHOD_1 METHOD_1_REVERSE METHOD_2 METHOD_4 XD_COLO CHANNEL EBRED EBRED_SPLIT EBRED_ALTERNATE EBRED_PID RSFRLGBRED "
    "RSFRLGBRED_SPLIT RSFRLGBRED_ALTERNATE RSFRLGBRED_MIXED CUTE_CHARM_DPPT CUTE_CHARM_HGSS METHOD_J METHOD_K POKERADAR "
    "WONDERCARD_IVS METHOD_5_IVS METHOD_5_CGEAR METHOD_5"
).split()
ENCOUNTERS = (
    "GRASS DOUBLE_GRASS SPECIAL_GRASS ROCK_SMASH SURFING SPECIAL_SURF OLD_ROD GOOD_ROD SUPER_ROD SPECIAL_SUPER_ROD STATIC "
    "BUG_CATCHING_CONTEST HEADBUTT HEADBUTT_ALT HEADBUTT_SPECIAL ROAMER GIFT ENTRALINK GIFT_EGG HIDDEN_GROTTO"
).split()
MEMBERS = {
    "Game": ["NONE"] + GAMES,
    "Method": METHODS,
    "Encounter": ENCOUNTERS,
    "Language": "ENGLISH FRENCH GERMAN ITALIAN JAPANESE KOREAN SPANISH".split(),
    "DSType": "DS DSI DS3".split(),
    "LAArea": list(ladata.AREAS) + ["JUBILIFE_VILLAGE", "ANCIENT_RETREAT"],
    "LATime": TIMES,
    "LAWeather": WEATHERS,
    "Lead": gen3model.LEADS,
}
# leads with the same effect share a number
SAME = [
    {"PRESSURE", "HUSTLE", "VITAL_SPIRIT"},
    {"SUCTION_CUPS", "STICKY_HOLD"},
    {"COMPOUND_EYES", "SUPER_LUCK"},
    {"ARENA_TRAP", "ILLUMINATE", "NO_GUARD"},
]


def may_share(cls, a, b):
    return a == b or (cls == "Lead" and any(a in s and b in s for s in SAME))


@st.composite
def pair(draw):
    cls = draw(st.sampled_from(list(MEMBERS)))
    return [cls, draw(st.sampled_from(MEMBERS[cls])), cls, draw(st.sampled_from(MEMBERS[cls]))]


@st.composite
def slot(draw):
    area = draw(st.sampled_from(ladata.AREAS))
    table = draw(st.sampled_from(sorted(k for k, v in ladata.encounter_tables(area).items() if v)))
    n = len(ladata.encounter_tables(area)[table])
    return {"kind": "slot", "area": area, "table": table, "slot": draw(st.integers(0, n - 1))}


def strategy(tier):
    return st.one_of(
        st.lists(st.lists(st.sampled_from(GAMES), max_size=8, unique=True), min_size=1, max_size=8).map(
            lambda s: {"kind": "sets", "sets": s}
        ),
        st.lists(pair(), min_size=1, max_size=30).map(lambda p: {"kind": "pairs", "pairs": p}),
        slot(),
    )


def fixed_cases(tier):
    for cls in MEMBERS:
        yield {"kind": "members", "cls": cls}
        names = MEMBERS[cls]
        yield {"kind": "pairs", "pairs": [[cls, a, cls, b] for a in names for b in names]}
    yield {"kind": "sets", "sets": [[g] for g in GAMES] + [GAMES, []]}
    yield {"kind": "natures"}
    done = 0
    for area in ladata.AREAS:
        # slots whose multipliers tell the places apart
        for table, slots in ladata.encounter_tables(area).items():
            for i, s in enumerate(slots):
                if len(set(s["time_multipliers"])) > 1 and len(set(s["weather_multipliers"])) > 2 and done < 60:
                    done += 1
                    yield {"kind": "slot", "area": area, "table": table, "slot": i}


def check_members(env, cls, got):
    for m, members in got.items():
        values = dict(map(tuple, members))
        for name in MEMBERS[cls]:
            env.require(name in values, f"[{m}] {cls}.{name} is missing")
        for a, x in members:
            for b, y in members:
                env.compared += 1
                if x == y and not may_share(cls, a, b):
                    if cls != "Lead" or (a in MEMBERS[cls] and b in MEMBERS[cls]):
                        raise Violation(f"[{m}] {cls}.{a} and {cls}.{b} are both {x}")
        if cls == "Game":
            for a, x in members:
                env.require(a == "NONE" or (x > 0 and x & (x - 1) == 0), f"[{m}] Game.{a} = {x} is not a single flag bit")
            env.require(values["NONE"] == 0, f"[{m}] Game.NONE is {values['NONE']}")
        if cls == "Lead":
            for i, n in enumerate(gen3model.NATURES):
                env.require(
                    values[f"SYNCHRONIZE_{n}"] == i, f"[{m}] Lead.SYNCHRONIZE_{n} is {values[f'SYNCHRONIZE_{n}']}, not {i}"
                )
            for a, x in members:
                env.require(0 <= x <= 255, f"[{m}] Lead.{a} = {x} does not fit in a byte")
                env.require(a.startswith("SYNCHRONIZE") or x >= 25, f"[{m}] Lead.{a} = {x} reads as a synchronize lead")
        if cls in ("LATime", "LAWeather"):
            for i, n in enumerate(MEMBERS[cls]):
                env.require(values[n] == i, f"[{m}] {cls}.{n} is {values[n]}, but its multiplier is number {i}")
        if cls == "LAArea":
            for n in ladata.AREAS:
                env.require(values[n] == ladata.NUMBER[n], f"[{m}] LAArea.{n} is {values[n]}, its files are number {ladata.NUMBER[n]}")


def check(env, case):
    kind = case["kind"]
    env.label(f"kind-{kind}")
    if kind == "members":
        check_members(env, case["cls"], env.values("enum_members", name=case["cls"]))
        return True
    if kind == "natures":
        got = env.values("sync_names", leads=[f"SYNCHRONIZE_{n}" for n in gen3model.NATURES])
        env.expect(got, [n.capitalize() for n in gen3model.NATURES], "names of the natures the synchronize leads force")
        return True
    if kind == "pairs":
        for m, got in env.values("enum_equal", pairs=case["pairs"]).items():
            for (cls, a, _, b), answers in zip(case["pairs"], got):
                same = may_share(cls, a, b)
                env.compared += 1
                if answers != [same] * 3:
                    raise Violation(f"[{m}] {cls}.{a} and {cls}.{b}: equal, same number, same key are {answers}, expected {same}")
        return any(p[1] != p[3] for p in case["pairs"])
    if kind == "slot":
        want = ladata.encounter_tables(case["area"])[case["table"]][case["slot"]]
        args = {k: case[k] for k in ("area", "table", "slot")}
        got = env.values("multipliers_at", times=TIMES, weathers=WEATHERS, **args)
        env.expect(got, [want["time_multipliers"], want["weather_multipliers"]], f"multipliers by time and weather of {args}")
        return len(set(want["time_multipliers"])) > 1 or len(set(want["weather_multipliers"])) > 1
    for m, got in env.values("game_sets", sets=case["sets"]).items():
        for names, (combined, inside, touched, equal) in zip(case["sets"], got):
            env.compared += 1
            known = [g for g in inside if g in GAMES]
            env.require(sorted(known) == sorted(names), f"[{m}] {names} combined are {combined:#x}, which contains {inside}")
            env.require(sorted(inside) == sorted(touched), f"[{m}] {names} combined touch {touched} but contain {inside}")
            for i, row in enumerate(equal):
                env.require(row == [i == j for j in range(len(names))], f"[{m}] equal games among {names}: {equal}")
    return any(len(s) > 1 for s in case["sets"])
