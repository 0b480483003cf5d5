"""Any well-formed encounter data file is decoded exactly, not only the shipped ones."""

import json
import os
import random
import shutil
import subprocess

from hypothesis import strategies as st

import core
import gen3data
import ladata
from flatfile import EACH, FLOATS, INTS, SIZE, encode
from props import c25, c27

EXAMPLES = (110, 3000)
SHARDS = (7, 8)
RULE = (
    "a copy of the package whose encounter files are made up: Legends: Arceus encounter, spawner, outbreak, multiplier and alpha "
    "level files (known fields present or absent, unknown fields of any kind, any layout, flags of any non-zero value, extreme "
    "ids and numbers), and Gen 3 wild encounter files (any entries, levels, rates, species, labels and maps); a process in "
    "either mode loads it and everything it holds is compared with an independent reading of the files; non-trivial: the files "
    "hold at least one encounter slot"
)
ASSUMPTIONS = [
    "the field numbers are those the package documents; names, rate, level and species ranges are those of the games",
    "a slot's species, rate, eligibility and alpha objects and a table's levels are present, each slot's species has its "
    "multipliers and (alphas) level index 1-5, and ids are unique within a file",
    "an absent number or flag may be reported as 0 or None; multipliers and coordinates are not NaN",
]
PAD_KINDS = [*INTS, *FLOATS, "str"]


def strategy(tier):
    size = st.sampled_from([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20])
    return st.fixed_dictionaries(
        {
            "seed": st.integers(0, 1 << 32),
            "mode": st.sampled_from(["numpy"] * 5 + ["numba"]),
            "tables": size,
            "slots": size,
            "spawners": size,
            "groups": size,
            "maps": size,
        }
    )


def fixed_cases(tier):
    for mode in ("numpy", "numba"):
        yield {"seed": 1, "mode": mode, "tables": 60, "slots": 9, "spawners": 60, "groups": 25, "maps": 90}
        yield {"seed": 2, "mode": mode, "tables": 0, "slots": 0, "spawners": 0, "groups": 0, "maps": 0}


class Writer:
    def __init__(self, case):
        self.rng = random.Random(case["seed"])
        self.case = case

    # ------------------------------------------------------------------ values
    def id(self):
        r = self.rng
        return r.choice([r.getrandbits(64), r.getrandbits(64), r.getrandbits(r.randrange(1, 65)), (1 << 64) - 1 - r.getrandbits(8)])

    def ids(self, n):
        out = []
        while len(out) < n:
            i = self.id()
            if i not in out:
                out.append(i)
        return out

    def i32(self):
        r = self.rng
        return r.choice([0, 1, -1, r.getrandbits(8), r.getrandbits(31), -r.getrandbits(31), (1 << 31) - 1])

    def maybe(self, value, chance=0.7):
        return value if self.rng.random() < chance else None

    def flag(self):
        return self.maybe(self.rng.choice([0, 0, 1, 1, 2, -1, -128, 127]))

    def f32(self):
        r = self.rng
        return r.choice([-1.0, -1.0, 0.0, 1.0, r.random() * 3, r.random(), 1e-30, float(r.getrandbits(20)), -0.25])

    def padding(self, n):
        """Fields the package does not know: any kind, present or absent."""
        schema, values = [], []
        for _ in range(n):
            kind = self.rng.choice(PAD_KINDS)
            schema.append([kind, None])
            if kind in INTS:
                bits = 8 * SIZE[kind]
                v = self.rng.getrandbits(bits if kind[0] == "U" else bits - 1)
            else:
                v = "text" if kind == "str" else self.rng.random()
            values.append(self.maybe(v, 0.6))
        return schema, values

    def table(self, *fields):
        """Fields are (kind, sub, value) or a number of unknown ones. -> schema, values"""
        schema, values = [], []
        for f in fields:
            if isinstance(f, int):
                s, v = self.padding(f)
                schema += s
                values += v
            else:
                schema.append([f[0], f[1]])
                values.append(f[2])
        return schema, values

    def vector(self, tables):
        """A field holding objects."""
        return ("arr", EACH, tables)

    def write(self, path, tables):
        field = self.vector(tables)
        if not tables and self.rng.random() < 0.5:
            field = ("arr", EACH, None)
        schema, values = self.table(field)
        with open(path, "wb") as f:
            f.write(encode(schema, values, self.rng.getrandbits(32)))


def num(kind, value):
    return (kind, None, value)


class LA(Writer):
    def floats(self, n):
        return [num("F32", self.maybe(self.f32(), 0.85)) for _ in range(n)]

    def all(self, la):
        r, case = self.rng, self.case
        pool = {(r.choice([r.randrange(1, 906), r.randrange(1, 906), r.randrange(1, 65536)]), r.choice([0, 0, 1, r.randrange(256)])) for _ in range(8)}
        pool = sorted(pool)
        self.write(
            os.path.join(la, "poke_encount.bin"),
            [
                self.table(num("I32", s), num("I32", f or self.maybe(0)), *self.floats(12))
                for s, f in r.sample(pool, len(pool))
            ],
        )
        self.write(
            os.path.join(la, "poke_misc.bin"),
            [
                self.table(num("I32", s), num("I32", f or self.maybe(0)), 4, num("I32", r.randrange(1, 6)), 16)
                for s, f in r.sample(pool, len(pool))
            ],
        )
        for area in ladata.NUMBER.values():
            self.write(
                os.path.join(la, f"ha_area{area:02d}_encounter.bin"),
                [self.encounters(i, pool) for i in self.ids(self.size("tables"))],
            )
            groups = self.ids(2 * self.size("spawners"))
            half = len(groups) // 2
            self.write(
                os.path.join(la, f"ha_area{area:02d}_spawner.bin"),
                [self.spawner(a, b) for a, b in zip(groups[:half], groups[half:])],
            )
        self.write(os.path.join(la, "new_huge_outbreak_group.bin"), [self.group(i) for i in self.ids(self.size("groups"))])
        self.write(
            os.path.join(la, "new_huge_outbreak_group_lottery.bin"), [self.lottery(i) for i in self.ids(self.size("groups"))]
        )

    def size(self, what):
        n = self.case[what]
        return n if self.rng.random() < 0.7 else self.rng.randrange(n + 1)

    def encounters(self, number, pool):
        r = self.rng
        slots = [self.slot(*r.choice(pool)) for _ in range(self.size("slots"))]
        field = self.vector(slots)
        return self.table(num("U64", number), num("I32", r.randrange(1, 101)), num("I32", r.randrange(1, 101)), field)

    def slot(self, species, form):
        r = self.rng
        override = (None, None, 0, -1, 1, 2, 99, 100, 101, 200, 255, 256, r.randrange(1, 101), self.i32())
        own = self.table(7, *self.floats(12), 3)
        alpha = self.table(num("I8", self.flag()), num("I8", self.flag()), 2)
        return self.table(
            num("I32", species),
            1,
            num("I32", self.maybe(r.choice([-1, 0, 1, 2]))),
            num("I32", form or self.maybe(0)),
            21,
            num("I32", self.maybe(r.randrange(7))),
            3,
            num("I32", r.choice([0, 1, 10, 100, r.getrandbits(16), r.getrandbits(31)])),
            num("I32", r.choice(override)),
            num("I32", r.choice(override)),
            13,
            ("obj", own[0], own[1]),
            ("obj", alpha[0], alpha[1]),
        )

    def spawner(self, number, group):
        r = self.rng
        where = [self.maybe(r.choice([0.0, r.uniform(-3000, 3000), r.random()]), 0.9) for _ in range(3)]
        params = [self.table(7, ("vec", None, where if i == 0 else [1.0, 2.0, 3.0]), 2) for i in range(r.randrange(1, 3))]
        f20 = [self.table(num("U64", self.maybe(self.id(), 0.95)), 8) for _ in range(r.randrange(1, 3))]
        return self.table(
            num("U64", number or None),
            num("U64", group or None),
            self.vector(params),
            4,
            num("I32", self.maybe(r.choice([0, 1, 2, 5, self.i32()]))),
            num("I32", self.maybe(r.choice([0, 1, 2, 5, self.i32()]))),
            1,
            num("I8", self.flag()),
            num("I8", self.flag()),
            num("I8", self.flag()),
            7,
            self.vector(f20),
            2,
        )

    def group(self, number):
        waves = [self.table(7, num("U64", self.maybe(self.id(), 0.95)), 1) for _ in range(self.rng.randrange(6))]
        return self.table(num("U64", number), self.vector(waves), num("U64", self.maybe(self.id(), 0.95)))

    def lottery(self, number):
        known = self.ids(6)
        fields = []
        for _ in range(3):
            details = [self.table(num("U64", self.rng.choice(known)), 1) for _ in range(self.rng.randrange(5))]
            fields.append(self.vector(details) if details or self.rng.random() < 0.5 else ("arr", EACH, None))
        return self.table(num("U64", number), *fields)


WORDS = "PETALBURG CITY CAVE OF ORIGIN MT MOON UNDERWATER TANOBY RUINS S SS ANNE BEACH BLUFF FOREST RED ROOF MAPLE FOUR".split()


class Gen3(Writer):
    def all(self, folder):
        names = [n for n in gen3data.species_number() if n.removeprefix("SPECIES_").isascii()]
        names = [n for n in names if n.replace("_", "").isalpha()]
        for stem, marks in (("rs", ("Ruby", "Sapphire")), ("e", ("",)), ("frlg", ("FireRed", "LeafGreen"))):
            entries = []
            for _ in range(self.case["maps"]):
                entries.append(self.entry(self.rng.choice(marks), stem, names))
            groups = [{"label": "gWildMonHeaders", "for_maps": True, "encounters": entries}]
            for _ in range(self.rng.randrange(2)):
                groups.append({"label": "gOther", "for_maps": False, "encounters": [self.entry(marks[0], stem, names)]})
            with open(os.path.join(folder, f"{stem}_wild_encounters.json"), "w", encoding="utf-8") as f:
                json.dump({"wild_encounter_groups": groups}, f, indent=self.rng.choice([None, 2]))

    def word(self):
        r = self.rng
        n = r.choice([r.randrange(1, 10), r.randrange(1, 140)])
        return r.choice([f"ROUTE{n}", f"ROOM{n}", f"{n}F", f"B{n}F", f"{n}R", *r.choices(WORDS, k=8)])

    def entry(self, mark, stem, names):
        r = self.rng
        name = "_".join(self.word() for _ in range(r.randrange(1, 5)))
        label = "g" + name.title().replace("_", "")
        kind = r.randrange(12)
        if kind == 0 and stem == "frlg":
            name = f"SEVEN_ISLAND_TANOBY_RUINS_{r.choice(list(gen3data.TANOBY))}_CHAMBER"
        elif kind == 1:
            label = f"gAlteringCave{r.choice(['', *'123456789'])}"
        elif kind == 2:
            label = f"sSixIslandAlteringCave_{r.choice(['', *'123456789'])}"
        elif kind == 3:
            label += "_Unused"
        entry = {"map": "MAP_" + name, "base_label": label + ("_" + mark if mark else "")}
        kinds = [k for k in gen3data.KINDS if r.random() < 0.5]
        for k in kinds:
            n = sum(c for _, c in gen3data.KINDS[k][1])
            species = lambda: "SPECIES_UNOWN" if kind == 0 and k == "land_mons" else r.choice(names)
            entry[k] = {
                "encounter_rate": r.choice([1, 4, 21, 255, r.randrange(256)]),
                "mons": [
                    {"min_level": r.randrange(1, 101), "max_level": r.choice([1, 100, r.randrange(1, 101)]), "species": species()}
                    for _ in range(n)
                ],
            }
        return entry


def make(folder, case):
    resources = os.path.join(folder, "numba_pokemon_prngs", "resources", "encount")
    LA(case).all(os.path.join(resources, "la"))
    gen3data.forget()
    Gen3(case).all(resources)


def template(env):
    """A compiled copy of the package."""
    path = os.path.join(env.tmp, "c35-package")
    if not os.path.isdir(path):
        source = os.path.join(core.REPO, "numba_pokemon_prngs")
        shutil.copytree(source, os.path.join(path, "numba_pokemon_prngs"), ignore=shutil.ignore_patterns("__pycache__"))
        subprocess.run([core.PY, "-m", "compileall", "-q", path], check=False, stdout=subprocess.DEVNULL)
    return path


def check(env, case):
    path = template(env)
    cache = env.scratch()
    core.DATA.append(path)
    try:
        make(path, case)
        ladata.forget()
        gen3data.forget()
        asks = [[k, a, []] for a in ladata.AREAS for k in ("tables", "spawners")] + [["common", ladata.AREAS[0], []]]
        for a in ladata.AREAS:
            known = sorted(ladata.encounter_tables(a))
            asks += [["find", a, known[:5] + [0, 1]], ["raw", a, known]]
        msgs = [c27.request(*a) for a in asks]
        msgs += [{"op": "areas_3", "games": list(gen3data.FILES), "load": load} for load in (False, True)]
        got = env.one_off(case["mode"], *msgs, PYTHONPATH=path, XDG_CACHE_HOME=cache)
        for a, answer in zip(asks, got):
            c27.judge(env, a, answer, f"[{case['mode']}]")
        for tables in got[len(asks) :]:
            for game, table in zip(gen3data.FILES, tables):
                c25.compare(env, case["mode"], game, table, "")
        slots = [s for a in ladata.AREAS for t in ladata.encounter_tables(a).values() for s in t]
        env.label(f"mode-{case['mode']}")
        if any(s["is_alpha"] for s in slots):
            env.label("alpha")
        return bool(slots)
    finally:
        core.DATA.pop()
        ladata.forget()
        gen3data.forget()
        shutil.rmtree(cache, ignore_errors=True)
