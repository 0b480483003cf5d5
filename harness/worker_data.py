"""Worker operations on encounter data, personal data and generators."""

import numpy as np

from worker import conv, get_class, mod, norm, op


@op
def la_table_names():
    names = mod("data.encounter").ENCOUNTER_TABLE_NAMES_LA
    return sorted([norm(k), v] for k, v in names.items())


FIELDS = (
    "advance pid species form ivs ability ability_index level shiny stats gender nature hidden_power "
    "hidden_power_strength characteristic"
).split()


def state_fields(state):
    return {f: norm(getattr(state, f)) for f in FIELDS}


def record_3(raw):
    """A Gen 3 personal record: [table, index] or its 28 bytes."""
    personal = mod("data.personal")
    if len(raw) == 2:
        return getattr(personal, f"PERSONAL_INFO_{raw[0]}")[raw[1]]
    dtype = personal.PersonalInfo3.dtype
    return np.frombuffer(bytes(raw), dtype=dtype).copy().view(np.recarray)[0]


def build_state(item):
    return mod("gen3.state").GeneratorState(
        *[conv(a) for a in item["args"]],
        record_3(item["info"]),
    )


@op
def states(items, text=False):
    out = []
    for item in items:
        state = build_state(item)
        got = {"fields": state_fields(state)}
        if text:
            got["csv"] = norm(state.csv())
            got["str"] = str(state)
        out.append(got)
    return out


AREA_SLOTS = ("land", "water", "rock", "fish_old", "fish_good", "fish_super")
AREA_RATES = ("land_rate", "water_rate", "rock_rate", "fish_rate")


def area_3(spec):
    """["shipped", game, index], or the fields of an area: slots are [min level, max level, species | form << 11]."""
    encounter = mod("data.encounter")
    if isinstance(spec, list):
        return encounter.ENCOUNTER_INFORMATION_GEN3[getattr(mod("enums").Game, spec[1])][spec[2]]
    area = np.zeros(1, dtype=encounter.EncounterArea3.dtype).view(np.recarray)[0]
    area["location"] = spec["location"]
    for f in AREA_RATES:
        area[f] = spec[f]
    for f in AREA_SLOTS:
        for i, (lo, hi, species) in enumerate(spec[f]):
            area[f][i]["min_level"] = lo
            area[f][i]["max_level"] = hi
            area[f][i]["species"] = species
    return area


def enum(cls, name):
    return getattr(getattr(mod("enums"), cls), name)


def slot_values(slot):
    return [norm(slot["min_level"]), norm(slot["max_level"]), norm(slot["species"])]


def wild_generator(g):
    return mod("gen3.wild_generator_3").WildGenerator3(
        enum("Method", g["method"]),
        enum("Encounter", g["encounter"]),
        enum("Lead", g["lead"]),
        enum("Game", g["game"]),
        conv(g["tid"]),
        conv(g["sid"]),
    )


@op
def wild(runs):
    """Each run builds one wild generator and asks it for windows [seed, delay, initial, count, area]."""
    out = []
    for run in runs:
        gen = wild_generator(run["gen"])
        areas = [area_3(a) for a in run["areas"]]
        windows = []
        for *args, area in run["windows"]:
            windows.append([state_fields(s) for s in gen.generate(*[conv(a) for a in args], areas[area])])
        out.append(windows)
    return out


@op
def wild_long(gen, areas, window, places):
    """The number of states of a window and the states at the given places."""
    states = wild_generator(gen).generate(*[conv(a) for a in window], area_3(areas[0]))
    return [len(states), [state_fields(states[p]) for p in places if p < len(states)]]


@op
def slots_3(area, game, encounter, lead, seeds, pressure):
    """Everything encounter_area_3 computes for one area, encounter type, lead and game."""
    a3 = mod("gen3.encounter_area_3")
    rng_class = get_class("PokeRNGMod")
    a = area_3(area)
    enc, ld, gm = enum("Encounter", encounter), enum("Lead", lead), enum("Game", game)
    table = mod("data.personal").get_info_table_3(gm)
    out = {
        "rate": norm(a3.get_encounter_rate(a, enc)),
        "safari": norm(a3.is_rse_safari_zone(a, gm)),
    }
    modified = a3.get_modified_slots(a, enc, ld, gm, table)
    out["modified"] = [slot_values(s) for s in modified]
    out["rolls"] = []
    for seed in seeds:
        rng = rng_class(conv(seed))
        plain = slot_values(a3.calculate_hslot(a, rng, enc))
        after = norm(rng.seed)
        rng = rng_class(conv(seed))
        slot = a3.calculate_hslot_lead(a, rng, enc, ld, modified)
        after_lead = norm(rng.seed)
        level = norm(a3.calculate_level(slot, rng, pressure))
        out["rolls"].append([plain, after, slot_values(slot), after_lead, level, norm(rng.seed)])
    return out


def area_values(area):
    out = {"location": norm(area["location"])}
    for f in AREA_RATES:
        out[f] = norm(area[f])
    for f in AREA_SLOTS:
        out[f] = [slot_values(s) for s in area[f]]
    return out


@op
def areas_3(games, load):
    """Map names and areas of each game, as the module holds them or as its loader returns them."""
    encounter = mod("data.encounter")
    out = []
    for g in games:
        g = enum("Game", g)
        if load:
            names, areas = encounter.load_encounter_3(g)
        else:
            names, areas = encounter.MAP_NAMES_GEN3[g], encounter.ENCOUNTER_INFORMATION_GEN3[g]
        out.append([norm(list(names)), [area_values(a) for a in areas]])
    return out

SLOT_LA = (
    "species gender form min_level max_level guaranteed_ivs base_probability is_alpha time_multipliers weather_multipliers"
).split()
SPAWNER_LA = "spawner_id group_id min_spawn_count max_spawn_count is_mass_outbreak is_water is_sky encounter_table_id".split()


def slot_la(slot):
    return {f: norm(slot[f]) for f in SLOT_LA}


def whole(value):
    """Absent numbers and flags read as 0 or None; both say the same."""
    return norm(value) or 0


def spawner_la(s):
    out = {f: whole(getattr(s, f)) for f in SPAWNER_LA}
    out["coordinates"] = [whole(v) for v in s.coordinates.as_tuple()]
    return out


def group_la(g):
    return {
        "hash": whole(g.hash),
        "wave_details": [whole(w.encounter_table_id) for w in g.wave_details],
        "first_wave_encounter_table_id": whole(g.first_wave_encounter_table_id),
    }


LOTTERY_LA = ("table_common", "table_rare_1", "table_rare_2", "full_table")


def lottery_la(g):
    return {"hash": whole(g.hash), **{f: [whole(d.hash) for d in getattr(g, f)] for f in LOTTERY_LA}}


def u64_key(k):
    return np.uint64(k)


@op
def la_tables(area):
    """[table id under which it is found, the table's own id, slots] for every encounter table of an area."""
    tables = mod("data.encounter").ENCOUNTER_INFORMATION_LA[enum("LAArea", area)]
    out = []
    for k in list(tables.keys()):
        t = tables[u64_key(k)]
        out.append([norm(k), norm(t.table_id), [slot_la(s) for s in t.slots]])
    return out


@op
def la_find(area, ids):
    """Slots of the tables with these ids (None if there is none)."""
    tables = mod("data.encounter").ENCOUNTER_INFORMATION_LA[enum("LAArea", area)]
    out = []
    for i in ids:
        i = u64_key(i)
        if i in tables:
            t = tables[i]
            out.append([norm(t.table_id), [slot_la(s) for s in t.slots]])
        else:
            out.append(None)
    return out


@op
def la_spawners(area):
    info = mod("data.encounter").SPAWNER_INFORMATION_LA[enum("LAArea", area)]
    return {
        "list": [spawner_la(s) for s in info.spawners],
        "by_id": sorted([whole(k), spawner_la(s)] for k, s in info.spawner_table_lookup.items()),
        "by_group": sorted([whole(k), spawner_la(s)] for k, s in info.spawner_by_group.items()),
    }


@op
def la_common():
    """The tables shared by all areas."""
    enc = mod("data.encounter")
    groups, lottery = enc.NHO_GROUP_TABLE_LA, enc.NHO_LOTTERY_TABLE_LA
    mult, misc = enc.ENCOUNTER_MULTIPLIER_LA, enc.POKE_MISC_LA
    return {
        "groups": [group_la(g) for g in groups.groups],
        "group_lookup": sorted([norm(k), group_la(g)] for k, g in groups.group_lookup.items()),
        "lottery": [lottery_la(g) for g in lottery.lottery_groups],
        "lottery_lookup": sorted([norm(k), lottery_la(g)] for k, g in lottery.lottery_group_lookup.items()),
        "details": [
            [whole(g.hash), sorted([norm(k), whole(d.hash)] for k, d in g.full_table_lookup.items())]
            for g in lottery.lottery_groups
        ],
        "multipliers": sorted(
            [list(map(norm, k)), [whole(m.species), whole(m.form)], norm(m.time_of_day_multipliers), norm(m.weather_multipliers)]
            for k, m in mult.multiplier_lookup.items()
        ),
        "misc": sorted(
            [list(map(norm, k)), [whole(m.species), whole(m.form)], whole(m.alpha_level_index)]
            for k, m in misc.misc_lookup.items()
        ),
        "counts": [len(mult.encounter_multipliers), len(misc.misc_list)],
    }


@op
def la_raw_tables(area, ids):
    """The undecoded tables of an area's file, as its own reader returns them, and lookups by id."""
    import importlib.resources as resources

    fbs = mod("data.fbs.encounter_la")
    number = int(enum("LAArea", area))
    raw = resources.files(mod("resources.encount.la")).joinpath(f"ha_area{number:02d}_encounter.bin").read_bytes()
    table = fbs.EncounterTable8aTable(raw)
    return [
        [[whole(t.table_id), whole(t.min_level), whole(t.max_level), len(t.encounter_slots)] for t in table.encounter_tables],
        [whole(table.encounter_table_lookup[i].table_id) for i in ids],
    ]


def area_la(spec):
    """["shipped", area, table id] or a list of slots [species, base probability, time multipliers, weather multipliers]."""
    enc = mod("data.encounter")
    if spec and spec[0] == "shipped":
        return enc.ENCOUNTER_INFORMATION_LA[enum("LAArea", spec[1])][np.uint64(spec[2])]
    area = mod("data.encounter.encounter_area_la").EncounterAreaLA(np.uint64(1), len(spec))
    slots = area.slots
    for i, (species, base, times, weathers) in enumerate(spec):
        slots["species"][i] = species
        slots["base_probability"][i] = base
        slots["time_multipliers"][i] = np.array(times, np.float32)
        slots["weather_multipliers"][i] = np.array(weathers, np.float32)
    return area


@op
def la_choose(area, rolls, kind):
    """Species, levels and flags of the slot chosen for each [roll, time, weather]."""
    a = area_la(area)
    out = []
    for roll, time, weather in rolls:
        roll = np.float32(roll) if kind["roll"] == "f32" else float(roll)
        if kind["index"] == "enum":
            time = list(mod("enums").LATime)[time]
            weather = list(mod("enums").LAWeather)[weather]
        elif kind["index"] == "u8":
            time, weather = np.uint8(time), np.uint8(weather)
        slot = a.calc_slot(roll, time, weather)
        out.append([norm(slot.species), norm(slot.base_probability), norm(slot.gender), norm(slot.form), norm(slot.is_alpha)])
    return out


def personal_table(game, how):
    """The table of a game (or of several games whose flags are combined)."""
    personal = mod("data.personal")
    game_class = mod("enums").Game
    flags = [getattr(game_class, g) for g in game]
    value = flags[0]
    for f in flags[1:]:
        value = value | f
    if how == "gen3":
        return personal.get_info_table_3(value)
    return personal.get_info_table(value)


@op
def personal_columns(game, how, names):
    """[number of records, {field: column}] of a game's table."""
    table = personal_table(game, how)
    return [len(table), {n: norm(np.asarray(table[n])) for n in names}]


@op
def personal_records(game, how, indices, names):
    """Fields of single records, read as attributes (by name where compiled code returned a plain array)."""
    table = personal_table(game, how)
    if how == "gen3":
        return [{n: norm(table[i][n]) for n in names} for i in indices]
    return [{n: norm(getattr(table[i], n)) for n in names} for i in indices]


@op
def personal_file(identifier, fmt, names, indices):
    """[records, whole columns, the asked records by attribute] of a shipped file, read with a format's class."""
    table = mod("data.personal").load_personal(identifier, getattr(mod("data.personal.personal_info"), f"PersonalInfo{fmt}"))
    return [
        len(table),
        {n: norm(np.asarray(table[n])) for n in names},
        [{n: norm(getattr(table[i], n)) for n in names} for i in indices],
    ]


@op
def personal_refused(games):
    """What asking for each game's table raises (null if it gives a table)."""
    out = []
    for g in games:
        try:
            personal_table([g], "any")
            out.append(None)
        except Exception as e:  # pylint: disable=broad-except
            out.append(type(e).__name__)
    return out


@op
def personal_bytes(fmt, raw, names):
    """A record in a given format."""
    dtype = getattr(mod("data.personal.personal_info"), f"PersonalInfo{fmt}").dtype
    record = np.frombuffer(bytes(raw), dtype=dtype).view(np.recarray)[0]
    return [dtype.itemsize, {n: norm(getattr(record, n)) for n in names}]


@op
def enum_members(name):
    """[member name, value] of every name of an enumeration, aliases included."""
    return [[k, int(v)] for k, v in getattr(mod("enums"), name).__members__.items()]


@op
def game_sets(sets):
    """For each list of games: their flags combined, and which games (of all) are contained in the combination."""
    game = mod("enums").Game
    out = []
    for names in sets:
        combined = game.NONE
        for n in names:
            combined = combined | getattr(game, n)
        inside = [k for k, v in game.__members__.items() if v and (combined & v) == v]
        touched = [k for k, v in game.__members__.items() if combined & v]
        equal = [[a == b for b in map(lambda n: getattr(game, n), names)] for a in map(lambda n: getattr(game, n), names)]
        out.append([int(combined), inside, touched, equal])
    return out


@op
def enum_equal(pairs):
    """Whether two members are equal, hash alike or convert to the same number: [class, name, class, name]."""
    out = []
    for c1, a, c2, b in pairs:
        x, y = enum(c1, a), enum(c2, b)
        out.append([bool(x == y), int(x) == int(y), {x: 1}.get(y) is not None])
    return out


@op
def sync_names(leads):
    """The nature name at the number of each synchronize lead."""
    names = mod("data").NATURES_EN
    return [names[enum("Lead", lead)] for lead in leads]


@op
def multipliers_at(area, table, slot, times, weathers):
    """A slot's multipliers at the places of the given members."""
    s = mod("data.encounter").ENCOUNTER_INFORMATION_LA[enum("LAArea", area)][np.uint64(table)].slots[slot]
    return [
        [norm(s["time_multipliers"][int(enum("LATime", t))]) for t in times],
        [norm(s["weather_multipliers"][int(enum("LAWeather", w))]) for w in weathers],
    ]
