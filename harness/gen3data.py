"""The driver's own reading of the Gen 3 data shipped in the repository."""

import functools
import json
import os

import core
import refs

TABLE_OF = {"RUBY": "RS", "SAPPHIRE": "RS", "EMERALD": "E", "FIRE_RED": "FR", "LEAF_GREEN": "LG"}
GAME_VALUE = {"RUBY": 1, "SAPPHIRE": 2, "EMERALD": 4, "FIRE_RED": 8, "LEAF_GREEN": 16}
RECORD = 28


def resource(*parts):
    return os.path.join(core.DATA[-1], "numba_pokemon_prngs", "resources", *parts)


@functools.lru_cache(maxsize=None)
def personal(table):
    """Every record's bytes in personal_<table>."""
    with open(resource("bin", "personal", f"personal_{table.lower()}"), "rb") as f:
        raw = f.read()
    return tuple(raw[i : i + RECORD] for i in range(0, len(raw), RECORD))


@functools.lru_cache(maxsize=None)
def record(table, index):
    return refs.Personal3(personal(table)[index])


@functools.lru_cache(maxsize=None)
def lines(name):
    with open(resource("txt", name), encoding="utf-8-sig") as f:
        return tuple(f.read().splitlines())


# --------------------------------------------------------------------------- encounter areas
FILES = {
    "RUBY": ("rs", "Ruby"),
    "SAPPHIRE": ("rs", "Sapphire"),
    "EMERALD": ("e", ""),
    "FIRE_RED": ("frlg", "FireRed"),
    "LEAF_GREEN": ("frlg", "LeafGreen"),
}
# Unown letters of the land slots in the Tanoby chambers (A = 0 ... Z = 25, ! = 26, ? = 27)
TANOBY = {
    "MONEAN": [0] * 11 + [27],
    "LIPTOO": [2, 2, 2, 3, 3, 3, 7, 7, 7, 20, 20, 14],
    "WEEPTH": [13] * 4 + [18] * 4 + [8, 8, 4, 4],
    "DILFORD": [15, 15, 11, 11, 9, 9, 17, 17, 17, 16, 16, 16],
    "SCUFIB": [24, 24, 19, 19, 6, 6, 6, 5, 5, 5, 10, 10],
    "RIXY": [21, 21, 21, 22, 22, 22, 23, 23, 12, 12, 1, 1],
    "VIAPOIS": [25] * 11 + [26],
}
KINDS = {
    "land_mons": ("land_rate", (("land", 12),)),
    "water_mons": ("water_rate", (("water", 5),)),
    "rock_smash_mons": ("rock_rate", (("rock", 5),)),
    "fishing_mons": ("fish_rate", (("fish_old", 2), ("fish_good", 3), ("fish_super", 5))),
}


@functools.lru_cache(maxsize=None)
def species_number():
    out = {}
    for i, name in enumerate(lines("species_en.txt")):
        name = {"Nidoran♂": "NIDORAN_M", "Nidoran♀": "NIDORAN_F"}.get(name, name.upper())
        out.setdefault("SPECIES_" + name, i)
    return out


def unused(label):
    """Areas that exist in the data but cannot be visited: later Altering Cave rotations and unused maps."""
    if "Unused" in label:
        return True
    for digit in "23456789":
        if label.startswith(f"gAlteringCave{digit}") or f"AlteringCave_{digit}" in label:
            return True
    return False


@functools.lru_cache(maxsize=None)
def listed(game):
    """The game's entries of the shipped file, in order."""
    stem, mark = FILES[game]
    with open(resource("encount", f"{stem}_wild_encounters.json"), encoding="utf-8") as f:
        entries = json.load(f)["wild_encounter_groups"][0]["encounters"]
    return tuple(e for e in entries if mark in e["base_label"])


def blank():
    area = {"location": 0}
    for rate, parts in KINDS.values():
        area[rate] = 0
        for name, n in parts:
            area[name] = [[0, 0, 0] for _ in range(n)]
    return area


@functools.lru_cache(maxsize=None)
def areas(game):
    out = []
    for number, entry in enumerate(listed(game)):
        area = blank()
        out.append(area)
        if unused(entry["base_label"]):
            continue
        area["location"] = number
        for kind, (rate, parts) in KINDS.items():
            if kind not in entry:
                continue
            area[rate] = entry[kind]["encounter_rate"]
            mons = iter(entry[kind]["mons"])
            for name, n in parts:
                area[name] = [[m["min_level"], m["max_level"], species_number()[m["species"]]] for _, m in zip(range(n), mons)]
        for chamber, letters in TANOBY.items():
            if "land_mons" in entry and entry["map"] == f"MAP_SEVEN_ISLAND_TANOBY_RUINS_{chamber}_CHAMBER":
                for slot, letter in zip(area["land"], letters):
                    slot[2] |= letter << 11
    return tuple(out)


def map_name(entry):
    """The readable name of an entry's map; empty for unused areas."""
    if unused(entry["base_label"]):
        return ""
    words = []
    for word in entry["map"].removeprefix("MAP_").split("_"):
        for prefix in ("ROUTE", "ROOM"):
            if word.startswith(prefix) and word[len(prefix) :].isdigit():
                words += [prefix.capitalize(), word[len(prefix) :]]
                break
        else:
            number = word[1:-1] if word.startswith("B") else word[:-1]
            floor = number.isdigit() and word[-1] in "FR"
            words.append(word if floor else word[0] + word[1:].lower())
    return " ".join(words)


def forget():
    """Forget what was read: the files to read have changed."""
    for f in (personal, record, lines, species_number, listed, areas):
        f.cache_clear()
