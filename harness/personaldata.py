"""Documented layouts of the personal records and the driver's own reading of the shipped files."""

import functools

import gen3data


def fields(text):
    """ "hp@0 ev_yield@10:2 tm@40x16" -> {name: (offset, size, count)}"""
    out = {}
    for word in text.split():
        name, rest = word.split("@")
        count = None
        if "x" in rest[2:] or ("x" in rest and not rest.startswith("0x")):
            head, count = rest.rsplit("x", 1)
            rest, count = head, int(count)
        at, _, size = rest.partition(":")
        out[name] = (int(at, 0), int(size or 1), count)
    return out


STATS = "hp@0 attack@1 defense@2 speed@3 special_attack@4 special_defense@5 type_1@6 type_2@7 catch_rate@8 "
GEN34 = (
    STATS + "base_exp@9 ev_yield@10:2 item_1@12:2 item_2@14:2 gender_ratio@16 hatch_cycles@17 base_friendship@18 exp_growth@19 "
    "egg_group_1@20 egg_group_2@21 ability_1@22 ability_2@23 escape_rate@24 misc@25x3 "
)
GEN5UP = (
    STATS + "evo_stage@9 ev_yield@10:2 item_1@12:2 item_2@14:2 item_3@16:2 gender_ratio@18 hatch_cycles@19 base_friendship@20 "
    "exp_growth@21 egg_group_1@22 egg_group_2@23 form_count@32 misc@33 base_exp@34:2 height@36:2 weight@38:2 "
)
GEN567 = GEN5UP + "ability_1@24 ability_2@25 ability_h@26 escape_rate@27 form_stats_index@28:2 form_sprite@30:2 "
GEN8 = GEN5UP + "ability_1@24:2 ability_2@26:2 ability_h@28:2 form_stats_index@30:2 "
FORMATS = {
    "1": (
        0x1C,
        "gender_ratio@0 hp@1 attack@2 defense@3 speed@4 special@5 type_1@6 type_2@7 catch_rate@8 base_exp@9 move_1@0x0F move_2@0x10 "
        "move_3@0x11 move_4@0x12 exp_growth@0x13 tm_hm@20x7",
    ),
    "2": (
        0x20,
        "dex_id@0 hp@1 attack@2 defense@3 speed@4 special_attack@5 special_defense@6 type_1@7 type_2@8 catch_rate@9 base_exp@10 "
        "item_1@11 item_2@12 gender_ratio@13 hatch_cycles@0x0F exp_growth@0x16 egg_group@0x17 tm_hm@24x8",
    ),
    "3": (0x1C, GEN34),
    "4": (0x2C, GEN34 + "tm_hm@28x13 form_count@0x29 form_stats_index@0x2A:2"),
    "5BW": (0x3C, GEN567 + "tm_hm@40x16 type_tutors@56x4"),
    "5B2W2": (0x4C, GEN567 + "tm_hm@40x16 type_tutors@56x4 specific_tutors@60x16"),
    "6XY": (0x40, GEN567 + "tm_hm@40x16 type_tutors@56x8"),
    "6AO": (0x50, GEN567 + "tm_hm@40x16 type_tutors@56x8 specific_tutors@64x16"),
    "7": (
        0x54,
        GEN567 + "tm@40x16 type_tutors@56x4 specific_tutors@60x16 special_z_item@0x4C:2 special_z_base_move@0x4E:2 "
        "special_z_move@0x50:2 local_variant@0x52",
    ),
    "7GG": (
        0x54,
        GEN567 + "tm@40x32 go_species@0x48:2 special_z_item@0x4C:2 special_z_base_move@0x4E:2 special_z_move@0x50:2 local_variant@0x52",
    ),
    "8SWSH": (
        0xB0,
        GEN8 + "tm@40x16 type_tutors@56x4 tr@60x16 species@0x4C:2 hatch_species@0x56:2 local_form_index@0x58:2 "
        "regional_flags@0x5A:2 pokedex_index@0x5C:2 regional_form_index@0x5E:2 armor_tutor@168x4 armor_dex_index@0xAC:2 "
        "crown_dex_index@0xAE:2",
    ),
    "8BDSP": (
        0x44,
        GEN8 + "tm@40x16 type_tutors@56x4 species@0x3C:2 hatch_species@0x3E:2 hatch_form_index@0x40:2 pokedex_index@0x42:2",
    ),
    "8LA": (
        0xB0,
        GEN8 + "hatch_species@0x56:2 hatch_form_index@0x58:2 regional_flags@0x5A:2 species@0x5C:2 form@0x5E:2 "
        "dex_index_hisui@0x60:2 dex_index_hisui_local_1@0x62:2 dex_index_hisui_local_2@0x64:2 dex_index_hisui_local_3@0x66:2 "
        "dex_index_hisui_local_4@0x68:2 dex_index_hisui_local_5@0x6A:2 move_shop@168x8",
    ),
    "9SV": (
        0x44,
        STATS + "evo_stage@9 ev_yield@10:2 gender_ratio@12 hatch_cycles@13 base_friendship@14 exp_growth@15 egg_group_1@16 "
        "egg_group_2@17 ability_1@0x12:2 ability_2@0x14:2 ability_h@0x16:2 form_stats_index@0x18:2 form_count@0x1A misc@0x1B "
        "is_present_in_game@0x1C dex_group@0x1D dex_index@0x1E:2 height@0x20:2 weight@0x22:2 hatch_species@0x24:2 "
        "local_form_index@0x26:2 regional_flags@0x28:2 regional_form_index@0x2A:2 tm@44x24",
    ),
}
FORMATS = {k: (size, fields(text)) for k, (size, text) in FORMATS.items()}
# shipped file, its format, and the games whose data it is
TABLES = {
    "rs": ("3", ("RUBY", "SAPPHIRE")),
    "e": ("3", ("EMERALD",)),
    "fr": ("3", ("FIRE_RED",)),
    "lg": ("3", ("LEAF_GREEN",)),
    "dp": ("4", ("DIAMOND", "PEARL")),
    "pt": ("4", ("PLATINUM",)),
    "bw": ("5BW", ("BLACK", "WHITE")),
    "b2w2": ("5B2W2", ("BLACK2", "WHITE2")),
    "xy": ("6XY", ("X", "Y")),
    "ao": ("6AO", ("OMEGA_RUBY", "ALPHA_SAPPHIRE")),
    "sm": ("7", ("SUN", "MOON")),
    "uu": ("7", ("ULTRA_SUN", "ULTRA_MOON")),
    "swsh": ("8SWSH", ("SWORD", "SHIELD")),
    "bdsp": ("8BDSP", ("BRILLIANT_DIAMOND", "SHINING_PEARL")),
    "la": ("8LA", ("LEGENDS_ARCEUS",)),
}
# shipped files that belong to no loaded table, read through the loader with the class of their format
FILES = {"rb": "1", "y": "1", "gs": "2", "c": "2", "hgss": "4", "gg": "7GG", "sv": "9SV"}
FILES.update({name: fmt for name, (fmt, _) in TABLES.items()})
WITHOUT = ("NONE", "GALES", "COLOSSEUM", "HEART_GOLD", "SOUL_SILVER")
TABLE_OF = {g: t for t, (_, games) in TABLES.items() for g in games}


def decode(fmt, raw):
    out = {}
    for name, (at, size, count) in FORMATS[fmt][1].items():
        if count is None:
            out[name] = int.from_bytes(raw[at : at + size], "little")
        else:
            out[name] = list(raw[at : at + count])
    return out


@functools.lru_cache(maxsize=None)
def records(table):
    with open(gen3data.resource("bin", "personal", f"personal_{table}"), "rb") as f:
        raw = f.read()
    size = FORMATS[FILES[table]][0]
    return tuple(raw[i : i + size] for i in range(0, len(raw), size))
