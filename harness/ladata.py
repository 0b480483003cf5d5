"""The driver's own reading of the Legends: Arceus data shipped in the repository."""

import functools
import os
import struct

import core

AREAS = ("OBSIDIAN_FIELDLANDS", "CRIMSON_MIRELANDS", "CORONET_HIGHLANDS", "COBALT_COASTLANDS", "ALABASTER_ICELANDS")
NUMBER = {
    "OBSIDIAN_FIELDLANDS": 1,
    "CRIMSON_MIRELANDS": 2,
    "COBALT_COASTLANDS": 3,
    "CORONET_HIGHLANDS": 4,
    "ALABASTER_ICELANDS": 5,
}


class Table:
    """A FlatBuffer table: fields are numbered from 0."""

    def __init__(self, buf, at=None):
        self.buf = buf
        self.at = self.u32(0) if at is None else at
        vtable = self.at - struct.unpack_from("<i", buf, self.at)[0]
        size = struct.unpack_from("<H", buf, vtable)[0]
        self.offsets = struct.unpack_from(f"<{size // 2 - 2}H", buf, vtable + 4)

    def u32(self, at):
        return struct.unpack_from("<I", self.buf, at)[0]

    def where(self, n):
        off = self.offsets[n] if n < len(self.offsets) else 0
        return self.at + off if off else None

    def num(self, fmt, n, default=0):
        at = self.where(n)
        return default if at is None else struct.unpack_from("<" + fmt, self.buf, at)[0]

    def i32(self, n, default=0):
        return self.num("i", n, default)

    def u64(self, n, default=0):
        return self.num("Q", n, default)

    def flag(self, n):
        return int(bool(self.num("b", n)))

    def f32s(self, first, count):
        return [self.num("f", i, 0.0) for i in range(first, first + count)]

    def child(self, n):
        at = self.where(n)
        return None if at is None else Table(self.buf, at + self.u32(at))

    def children(self, n):
        at = self.where(n)
        if at is None:
            return []
        at += self.u32(at)
        return [Table(self.buf, e + self.u32(e)) for e in range(at + 4, at + 4 + 4 * self.u32(at), 4)]


def root(name):
    with open(os.path.join(core.DATA[-1], "numba_pokemon_prngs", "resources", "encount", "la", name), "rb") as f:
        return Table(f.read())


@functools.lru_cache(maxsize=None)
def multipliers():
    out = {}
    for t in root("poke_encount.bin").children(0):
        out[t.i32(0), t.i32(1)] = (t.f32s(2, 4), [1.0] + t.f32s(6, 8))
    return out


@functools.lru_cache(maxsize=None)
def alpha_levels():
    return {(t.i32(0), t.i32(1)): t.i32(6) for t in root("poke_misc.bin").children(0)}


def pick(own, species):
    """A slot's own multipliers where set, else the species', else 1."""
    return [a if a >= 0 else b if b >= 0 else 1.0 for a, b in zip(own, species)]


def level(override, table):
    return override if 1 <= override <= 100 else table


@functools.lru_cache(maxsize=None)
def encounter_tables(area):
    """{table id: [slots]}"""
    out = {}
    for t in root(f"ha_area{NUMBER[area]:02d}_encounter.bin").children(0):
        slots = []
        for s in t.children(3):
            key = s.i32(0), s.i32(3)
            own = s.child(45)
            times, weathers = multipliers()[key]
            oybn = s.child(46)
            alpha = oybn.flag(0) | oybn.flag(1)
            boost = (15, 15, 15, 20, 20)[alpha_levels()[key] - 1] if alpha else 0
            slots.append(
                {
                    "species": key[0],
                    "gender": s.i32(2) & 0xFF,  # kept in one byte: -1 (any) reads as 255
                    "form": key[1],
                    "min_level": level(s.i32(30), t.i32(1)) + boost,
                    "max_level": level(s.i32(31), t.i32(2)) + boost,
                    "guaranteed_ivs": s.i32(25),
                    "base_probability": s.i32(29),
                    "is_alpha": alpha,
                    "time_multipliers": pick(own.f32s(7, 4), times),
                    "weather_multipliers": pick([1.0] + own.f32s(11, 8), weathers),
                }
            )
        out[t.u64(0)] = slots
    return out


@functools.lru_cache(maxsize=None)
def spawners(area):
    out = []
    for t in root(f"ha_area{NUMBER[area]:02d}_spawner.bin").children(0):
        out.append(
            {
                "spawner_id": t.u64(0),
                "group_id": t.u64(1),
                "coordinates": t.children(2)[0].child(7).f32s(0, 3),
                "min_spawn_count": t.i32(7),
                "max_spawn_count": t.i32(8),
                "is_mass_outbreak": t.flag(10),
                "is_water": t.flag(11),
                "is_sky": t.flag(12),
                "encounter_table_id": t.children(20)[0].u64(0),
            }
        )
    return out


@functools.lru_cache(maxsize=None)
def outbreak_groups():
    return [
        {
            "hash": t.u64(0),
            "wave_details": [w.u64(7) for w in t.children(1)],
            "first_wave_encounter_table_id": t.u64(2),
        }
        for t in root("new_huge_outbreak_group.bin").children(0)
    ]


@functools.lru_cache(maxsize=None)
def lottery():
    out = []
    for t in root("new_huge_outbreak_group_lottery.bin").children(0):
        tables = [[d.u64(0) for d in t.children(n)] for n in (1, 2, 3)]
        out.append(
            {
                "hash": t.u64(0),
                "table_common": tables[0],
                "table_rare_1": tables[1],
                "table_rare_2": tables[2],
                "full_table": sum(tables, []),
            }
        )
    return out


def forget():
    """Forget what was read: the files to read have changed."""
    for f in (multipliers, alpha_levels, encounter_tables, spawners, outbreak_groups, lottery):
        f.cache_clear()
