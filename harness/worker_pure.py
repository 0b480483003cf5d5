"""Worker operation: calls must change nothing but the object they are made on.

Every call is described by a name and a number from which its arguments are made. What the call was given, what earlier calls
returned, the package's tables and the state of the process are compared before and after.
"""

import decimal
import gc
import hashlib
import importlib.resources
import io
import locale
import logging
import os
import random
import sys
import tempfile
import warnings

import numpy as np

from worker import NUMBA, PKG, mod, op
from worker_data import AREA_RATES, AREA_SLOTS, FIELDS

TEMPLATES = {}


def template(f):
    TEMPLATES[f.__name__] = f
    return f


# --------------------------------------------------------------------------- what things are
def digest(data):
    return hashlib.sha1(data).hexdigest()[:16]


def canon(x):
    """A value that changes whenever the contents of x do."""
    if x is None or isinstance(x, (str, int, float, bool)):
        return [type(x).__name__, repr(x)]
    if isinstance(x, (bytes, bytearray)):
        return [type(x).__name__, digest(bytes(x))]
    if isinstance(x, (np.ndarray, np.void)):
        if x.dtype.names and x.dtype.hasobject:
            return ["objects", repr(x)]
        return [str(np.shape(x)), digest(np.ascontiguousarray(x).tobytes())]
    if isinstance(x, np.generic):
        return [type(x).__name__, repr(x)]
    if isinstance(x, dict):
        return ["dict", [[canon(k), canon(v)] for k, v in x.items()]]
    if isinstance(x, (tuple, list)) or type(x).__name__ == "List":
        return ["list", [canon(v) for v in x]]
    if type(x).__name__ == "DictType" or hasattr(x, "keys"):
        return ["dict", [[canon(k), canon(x[np.uint64(k)])] for k in list(x.keys())]]
    if hasattr(x, "table_id") and hasattr(x, "slots"):
        return ["area", canon(x.table_id), canon(x.slots)]
    if hasattr(x, "ability_index"):
        return ["state", [[f, canon(np.array(getattr(x, f)).tolist())] for f in FIELDS]]
    if isinstance(x, type):
        return ["class", x.__name__, id(x)]
    return ["object", type(x).__name__, id(x)]


def is_table(x):
    if isinstance(x, (np.ndarray, str, int, float)):
        return True
    if isinstance(x, tuple):
        return all(is_table(v) for v in x)
    if isinstance(x, dict):
        return all(is_table(v) for v in x.values())
    return False


def package_tables():
    """Contents of the package's constants (names in capitals), by module and name."""
    out = {}
    for name, module in sorted(sys.modules.items()):
        if name != PKG and not name.startswith(PKG + "."):
            continue
        for attr, value in vars(module).items():
            if attr.isupper() and not attr.startswith("_") and is_table(value):
                out[f"{name}.{attr}"] = canon(value)
    return out


def listing(folder):
    return sorted(f"{base}/{f}" for base, _, files in os.walk(folder) for f in files)


def process_state():
    """What all code of a process shares."""
    mask = os.umask(0o22)
    os.umask(mask)
    stirred = np.random.get_state()
    return {
        "numpy error handling": np.geterr(),
        "numpy print options": repr(np.get_printoptions()),
        "numpy random state": [digest(stirred[1].tobytes()), repr(stirred[2:])],
        "random state": digest(repr(random.getstate()).encode()),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "files in the working directory": sorted(n for n in os.listdir(".") if os.path.isfile(n) and not n.endswith(".log")),
        "module search path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "warning filters": repr(warnings.filters),
        "locale": locale.setlocale(locale.LC_ALL, None),
        "logging level": [logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable],
        "garbage collection": [gc.isenabled(), gc.get_threshold()],
        "decimal context": repr(decimal.getcontext()),
        "umask": mask,
        "standard streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        "hooks": [id(sys.excepthook), id(sys.displayhook), id(sys.gettrace()), id(sys.getprofile())],
    }


# --------------------------------------------------------------------------- arguments
def some(rnd, bits):
    """Often near a limit."""
    return rnd.choice([0, 1, (1 << bits) - 1, 1 << (bits - 1)]) if rnd.random() < 0.2 else rnd.getrandbits(bits)


def enums(name):
    return list(getattr(mod("enums"), name))


GEN3 = ("RUBY", "SAPPHIRE", "EMERALD", "FIRE_RED", "LEAF_GREEN")
ENCOUNTERS = ("GRASS", "SURFING", "ROCK_SMASH", "OLD_ROD", "GOOD_ROD", "SUPER_ROD")


def game_3(rnd):
    return getattr(mod("enums").Game, rnd.choice(GEN3))


def area_3(rnd, game):
    """An area of the caller's own."""
    areas = mod("data.encounter").ENCOUNTER_INFORMATION_GEN3[game]
    area = areas[rnd.randrange(len(areas)) : ][:1].copy().view(np.recarray)
    slots = [(rnd.randrange(1, 387), rnd.randrange(1, 60)) for _ in range(4)]
    for f in AREA_RATES:
        area[0][f] = rnd.randrange(256)
    for f in AREA_SLOTS:
        for i in range(len(area[0][f])):
            species, level = rnd.choice(slots)
            species = 25 if species == 292 else species
            species |= rnd.randrange(28) << 11 if species == 201 or rnd.random() < 0.2 else 0
            area[0][f][i]["species"] = species
            area[0][f][i]["min_level"] = level
            area[0][f][i]["max_level"] = level + rnd.randrange(5)
    return area


def area_la(rnd):
    enc = mod("data.encounter.encounter_area_la")
    area = enc.EncounterAreaLA(np.uint64(some(rnd, 64)), rnd.randrange(1, 8))
    slots = area.slots
    for i in range(len(slots)):
        slots["species"][i] = rnd.randrange(1000)
        slots["base_probability"][i] = rnd.randrange(1, 100)
        slots["time_multipliers"][i] = [rnd.randrange(1, 5) for _ in range(slots["time_multipliers"].shape[1])]
        slots["weather_multipliers"][i] = [rnd.randrange(1, 5) for _ in range(slots["weather_multipliers"].shape[1])]
    return area


def ivs(rnd):
    return np.array([rnd.randrange(32) for _ in range(6)], dtype=np.uint8)


def table_3(rnd, game):
    """A personal table of the caller's own."""
    return mod("data.personal").get_info_table_3(game).copy().view(np.recarray)


def state_args(rnd):
    table = table_3(rnd, game_3(rnd))
    record = table[rnd.choice([i for i in (1, 25, 29, 32, 81, 113, 132, 280, 303, 351, 386, rnd.randrange(1, 387)) if i < len(table)])]
    own = ivs(rnd)
    numbers = [np.uint32(some(rnd, 32)), np.uint32(some(rnd, 32)), np.uint16(rnd.randrange(1, 387)), np.uint8(rnd.randrange(28))]
    return [*numbers, own, np.uint8(rnd.randrange(2)), np.uint8(rnd.randrange(1, 101)), np.uint8(rnd.randrange(3)), record], own, table


# Each template gives (what the call is given, the call, what may be changed afterwards without changing the result).


@template
def state(rnd):
    args, own, table = state_args(rnd)
    return [own, table], lambda: mod("gen3.state").GeneratorState(*args), [own, table]


@template
def state_text(rnd):
    args, _, table = state_args(rnd)
    made = mod("gen3.state").GeneratorState(*args)
    return [made, table], lambda: [made.csv(), str(made)], [made]


@template
def wild(rnd):
    game = game_3(rnd)
    area = area_3(rnd, game)
    e = mod("enums")
    lead = rnd.choice(enums("Lead"))
    gen = mod("gen3.wild_generator_3").WildGenerator3(
        rnd.choice([e.Method.METHOD_1, e.Method.METHOD_2, e.Method.METHOD_4]),
        getattr(e.Encounter, rnd.choice(ENCOUNTERS)),
        lead,
        game,
        np.uint16(some(rnd, 16)),
        np.uint16(some(rnd, 16)),
    )
    window = [np.uint32(some(rnd, 32)), np.uint32(rnd.randrange(5)), np.uint32(rnd.randrange(50)), np.uint32(rnd.randrange(1, 9))]
    return [area], lambda: list(gen.generate(*window, area[0])), [area]


@template
def slots(rnd):
    game = game_3(rnd)
    area = area_3(rnd, game)
    table = table_3(rnd, game)
    a3 = mod("gen3.encounter_area_3")
    enc = getattr(mod("enums").Encounter, rnd.choice(ENCOUNTERS))
    lead = rnd.choice(enums("Lead"))
    lcrng = mod("lcrng").PokeRNGMod
    seed = some(rnd, 32)
    pressure = rnd.random() < 0.5

    def call():
        modified = a3.get_modified_slots(area[0], enc, lead, game, table)
        rng = lcrng(np.uint32(seed))
        plain = a3.calculate_hslot(area[0], rng, enc)
        chosen = a3.calculate_hslot_lead(area[0], rng, enc, lead, modified)
        level = a3.calculate_level(chosen, rng, pressure)
        numbers = [int(level), int(rng.seed), int(a3.get_encounter_rate(area[0], enc)), int(a3.is_rse_safari_zone(area[0], game))]
        return [list(modified), plain, chosen, numbers]

    return [area, table], call, []


@template
def la_slot(rnd):
    area = area_la(rnd)
    roll, time, weather = np.float32(rnd.random() * 0.99), np.uint8(rnd.randrange(4)), np.uint8(rnd.randrange(8))
    return [area], lambda: area.calc_slot(roll, time, weather), []


def console(rnd):
    e = mod("enums")
    sha = mod("sha1").SHA1(
        rnd.choice([e.Game.BLACK, e.Game.WHITE, e.Game.BLACK2, e.Game.WHITE2]),
        rnd.choice(enums("Language")),
        rnd.choice(enums("DSType")),
        np.uint64(some(rnd, 48)),
        rnd.random() < 0.5,
        np.uint8(some(rnd, 8)),
        np.uint8(some(rnd, 8)),
    )
    settings(rnd, sha)
    return sha


def settings(rnd, sha):
    sha.set_timer0(np.uint32(some(rnd, 16)), np.uint8(some(rnd, 8)))
    sha.set_button(np.uint32(some(rnd, 32)))
    sha.set_date(np.uint16(2000 + rnd.randrange(100)), np.uint8(rnd.randrange(1, 13)), np.uint8(rnd.randrange(1, 29)), np.uint8(rnd.randrange(7)))
    sha.set_time(np.uint8(rnd.randrange(24)), np.uint8(rnd.randrange(60)), np.uint8(rnd.randrange(60)))


@template
def alpha(rnd):
    sha = console(rnd)
    return [], sha.precompute, []


@template
def seed(rnd):
    sha = console(rnd)
    own = sha.precompute()
    return [own], lambda: sha.hash_seed(own), [own]


@template
def alpha_then_settings(rnd):
    """An alpha computed before other settings were made still belongs to the caller."""
    sha = console(rnd)
    own = sha.precompute()

    def call():
        settings(rnd, sha)
        return [int(sha.hash_seed(own)), int(sha.hash_seed(sha.precompute())), int(sha.hash_seed(own))]

    return [own], call, []


@template
def nazo(rnd):
    sha = mod("sha1")
    e = mod("enums")
    words = [np.uint32(some(rnd, 32)) for _ in range(3)]
    game = rnd.choice([e.Game.BLACK, e.Game.WHITE, e.Game.BLACK2, e.Game.WHITE2])
    language, ds = rnd.choice(enums("Language")), rnd.choice(enums("DSType"))
    return (
        [],
        lambda: [sha.compute_nazo_bw(words[0]), sha.compute_nazo_bw2(*words), np.array(sha.get_nazo(game, language, ds))],
        [],
    )


@template
def helpers(rnd):
    util, g3, fnv = mod("util"), mod("gen3.util"), mod("fnv")
    a, b, n = np.uint32(some(rnd, 32)), np.uint64(some(rnd, 64)), np.uint8(rnd.randrange(1, 32))
    stat, nature, index = np.uint16(rnd.randrange(1000)), np.uint8(rnd.randrange(25)), rnd.randrange(1, 6)
    text = "".join(rnd.choice("abcdefgh_0123é") for _ in range(rnd.randrange(20)))
    ratio = np.uint8(rnd.choice([0, 31, 63, 127, 191, 254, 255]))
    return (
        [],
        lambda: [
            int(util.change_endian_u32(a)),
            int(util.rotate_left_u32(a, n)),
            int(util.rotate_right_u32(a, n)),
            int(util.rotate_left_u64(b, n)),
            int(util.rotate_right_u64(b, n)),
            int(util.compute_stat(stat, nature, index)),
            str(util.hex_32(a)),
            int(g3.get_gender(a, ratio)),
            int(g3.get_shiny(a, np.uint16(int(b) & 0xFFFF))),
            int(g3.unown_check(a, n)),
            int(fnv.fnv1_64(text)),
            int(fnv.fnv1a_64(text)),
            int(mod("compatability").mod_inv(int(b) | 1, 1 << 64)),
        ],
        [],
    )


@template
def slot_table(rnd):
    cuts = sorted(rnd.sample(range(1, 100), rnd.randrange(1, 8))) + [100]
    return [cuts], lambda: mod("gen3.encounter_area_3").compute_table(cuts), [cuts]


@template
def personal(rnd):
    games = GEN3 + ("DIAMOND", "PLATINUM", "BLACK", "WHITE2", "X", "SUN", "SWORD", "LEGENDS_ARCEUS")
    game = getattr(mod("enums").Game, rnd.choice(games))
    return [], lambda: [mod("data.personal").get_info_table(game)], []


@template
def load_3(rnd):
    game = game_3(rnd)

    def call():
        names, areas = mod("data.encounter").load_encounter_3(game)
        return [list(names), areas]

    return [], call, "result"


@template
def load_la(rnd):
    area = rnd.choice(enums("LAArea")[1:6])

    def call():
        tables = mod("data.encounter").load_encounter_tables_la(area)
        return [[int(k), tables[np.uint64(k)]] for k in sorted(int(k) for k in tables.keys())[:40]]

    return [], call, "result"


FILES = (("EncounterMultiplier8aTable", "poke_encount.bin"), ("PokeMisc8aTable", "poke_misc.bin"),
         ("NewHugeOutbreakGroupLotteryTable8a", "new_huge_outbreak_group_lottery.bin"), ("NewHugeOutbreakGroupTable8a", "new_huge_outbreak_group.bin"))


@template
def flatbuffer(rnd):
    cls, name = rnd.choice(FILES)
    raw = bytearray(importlib.resources.files(mod("resources.encount.la")).joinpath(name).read_bytes())

    def call():
        obj = getattr(mod("data.fbs.encounter_la"), cls)(raw)
        out = io.BytesIO()
        obj.dump_binary(out)
        return [len(out.getvalue())]

    return [raw], call, []


@template
def cached(rnd):
    """A function whose results are kept in a file: neither the function's own object nor a loaded one is the file's."""
    value = [rnd.randrange(100) for _ in range(4)]
    given = [value]
    name = f"pure_{rnd.getrandbits(60)}" + "_{}.pkl"
    args = (rnd.randrange(10),)

    def encode(x):
        return [-v for v in x]

    def decode(x):
        return [-v for v in x]

    coders = {"encode": encode, "decode": decode} if rnd.random() < 0.5 else {}

    def call():
        f = mod("data.encounter").pickle_cached(name, **coders)(lambda n: list(value))
        first = f(*args)
        before = list(first)
        first.append(1000)
        second = f(*args)
        held = list(second)
        second.append(2000)
        return [before, held, f(*args)]

    return [given], call, []


TYPES = [np.uint8, np.uint16, np.uint32, np.uint64, np.int64]


def spec_of(rnd):
    return {f"a{i}": rnd.choice(TYPES) for i in range(rnd.randrange(1, 4))}


def make_class(names, annotated, method, value):
    """A class with fields by spec and by annotation; method is the name of its only method."""

    def __init__(self):
        self.a0 = value

    def read(self):
        return self.a0

    space = {"__init__": __init__, method: read, "__annotations__": {n: np.uint32 for n in annotated}, "__module__": __name__}
    return type("Made", (), space)


@template
def decorate_classes(rnd):
    """One spec (or one decorator) for several classes, each with more fields of its own."""
    spec = spec_of(rnd)
    how = rnd.randrange(3)
    kinds = [(["b", "c"], "read"), ([], "b"), (["d"], "c")]
    rnd.shuffle(kinds)
    kinds = kinds[: rnd.randrange(2, 4)]
    jitclass = mod("compilation").optional_jitclass

    def call():
        shared = jitclass(spec) if how == 0 else jitclass(spec=spec)
        out = []
        for annotated, method in kinds:
            cls = make_class(spec, annotated, method, 7)
            made = (shared if how < 2 else jitclass(spec=spec))(cls)
            out.append(int(getattr(made(), method)()))
        return out

    return [spec], call, []


@template
def decorate_function(rnd):
    compilation = mod("compilation")
    local = {"x": rnd.choice(TYPES[2:])}
    inputs = [rnd.choice(TYPES[2:]), np.uint64]
    value = rnd.randrange(100)

    def body(a, b):
        x = a
        return x

    def call():
        signature = compilation.return_type(np.uint64, inputs)
        f = compilation.optional_njit(signature, locals=local)(body)
        return [int(f(inputs[0](value), np.uint64(2)))]

    return [local, inputs], call, []


@template
def outputs(rnd):
    """A list of outputs and its generator, next to another generator with the same seed."""
    cls = mod("lcrng").PokeRNGMod
    number = some(rnd, 32)
    bystander = cls(np.uint32(number))

    def call():
        rng = cls(np.uint32(number))
        seen = [int(rng.next()) for _ in range(3)]
        rng.jump(np.uint32(some(rnd, 32)))
        cls.const_jump(5)(rng)
        cls.const_rand(7)(rng)
        if int(bystander.seed) != number:
            raise AssertionError("another generator was moved")
        return seen

    return [], call, []


# --------------------------------------------------------------------------- histories
SPOILABLE = (np.ndarray, bytearray, list)


def spoil(x):
    """Change everything that can be changed in place."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            raw = x.view(np.ndarray)
            raw[...] = np.frombuffer(bytes(255 - b for b in raw.tobytes()), dtype=raw.dtype).reshape(raw.shape)
    elif isinstance(x, bytearray):
        x[:] = bytes(255 - b for b in x)
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append(12345)
    elif hasattr(x, "table_id") and hasattr(x, "slots"):
        spoil(x.slots)
    elif hasattr(x, "ability_index"):
        spoil(x.ivs)
        spoil(x.stats)


@op
def pure(calls, order):
    """Make the calls, then make them again in another order; returns what was wrong (a list of texts)."""
    for name in ("data.encounter", "data.personal", "gen3.wild_generator_3", "gen3.encounter_area_3", "sha1", "fnv", "util", "rng_list", "lcrng", "xorshift", "mersenne_twister"):
        mod(name)
    wrong = []
    # unlike what the package or numba would set
    np.seterr(divide="print", under="print", invalid="print")
    tables, process = package_tables(), process_state()
    kept = []
    first = {}
    for turn, (i, name, number, change) in enumerate([[i, *c] for i, c in enumerate(calls)] + [[i, *calls[i]] for i in order]):
        what = f"call {turn} ({name} {number})"
        given, call, changeable = TEMPLATES[name](random.Random(number))
        before = [canon(x) for x in given]
        result = call()
        for x, was in zip(given, before):
            if canon(x) != was:
                wrong.append(f"{what} changed its argument: {str(was)[:150]} became {str(canon(x))[:150]}")
        got = canon(result)
        comparable = [c for c in [got] if "object" not in str(c)]
        if i in first and comparable and first[i] != got:
            wrong.append(f"{what} gives {str(got)[:200]}, the first time {str(first[i])[:200]}")
        first.setdefault(i, got)
        for j, (text, value, was) in enumerate(kept):
            if canon(value) != was:
                wrong.append(f"{what} changed what {text} returned")
                kept[j] = (text, value, canon(value))
        if change and changeable == "result":
            spoil(result)
        else:
            if change:
                for x in changeable:
                    spoil(x)
                if canon(result) != got:
                    wrong.append(f"what {what} returned changes with the arguments it was given")
            kept.append((what, result, canon(result)))
        now = process_state()
        for k in process:
            if now[k] != process[k]:
                wrong.append(f"{what} changed the process: {k} was {str(process[k])[:120]}, is {str(now[k])[:120]}")
        process = now
        if len(wrong) > 5:
            break
    now = package_tables()
    for k in tables:
        if now.get(k) != tables[k]:
            wrong.append(f"one of the calls changed a table of the package: {k} was {str(tables[k])[:120]}, is {str(now.get(k))[:120]}")
    return wrong


@op
def probe(items):
    """What calls give in this process, whatever it did before."""
    return [canon(TEMPLATES[name](random.Random(number))[1]()) for name, number in items]
