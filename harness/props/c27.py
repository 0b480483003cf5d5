"""Legends: Arceus data is decoded exactly from the shipped files."""

import shutil

from hypothesis import strategies as st

import ladata
from core import Violation
from strats import word

EXAMPLES = (15, 400)
SHARDS = (6, 8)
RULE = (
    "a history of processes in either mode sharing one cache directory that starts empty; each process dumps or looks up "
    "encounter tables, spawners, outbreak groups, lotteries, multipliers and alpha levels, which are compared with an "
    "independent reading of the shipped binary files; non-trivial: at least two processes share the cache"
)
ASSUMPTIONS = [
    "the field numbers of the shipped FlatBuffer files are those the package documents",
    "a gender of -1 (any) is reported as the byte 255",
    "an absent number or flag may be reported as 0 or None",
]


@st.composite
def ask(draw):
    kind = draw(st.sampled_from(["tables", "find", "find", "spawners", "common", "raw"]))
    area = draw(st.sampled_from(ladata.AREAS))
    if kind in ("find", "raw"):
        known = st.sampled_from(sorted(ladata.encounter_tables(area)))
        other = st.sampled_from(sorted(ladata.encounter_tables(draw(st.sampled_from(ladata.AREAS)))))
        ids = draw(st.lists(st.one_of(known, other, word(64)) if kind == "find" else known, min_size=1, max_size=20))
        return [kind, area, ids]
    return [kind, area, []]


def strategy(tier):
    process = st.fixed_dictionaries(
        {"mode": st.sampled_from(["numba", "numpy", "numpy"]), "asks": st.lists(ask(), min_size=1, max_size=5)}
    )
    return st.fixed_dictionaries({"history": st.lists(process, min_size=1, max_size=4)})


def fixed_cases(tier):
    everything = [[k, a, []] for a in ladata.AREAS for k in ("tables", "spawners")] + [["common", ladata.AREAS[0], []]]
    for modes in (["numpy", "numpy", "numba"], ["numba", "numba", "numpy"]):
        yield {"history": [{"mode": m, "asks": everything} for m in modes]}


def request(kind, area, ids):
    if kind in ("find", "raw"):
        return {"op": "la_find" if kind == "find" else "la_raw_tables", "area": area, "ids": ids}
    if kind == "common":
        return {"op": "la_common"}
    return {"op": "la_" + kind, "area": area}


def by(key, things):
    """Last one with each key, as in a lookup built in order (keys are unique but for repeated lottery entries)."""
    return sorted([k, v] for k, v in {t[key]: t for t in things}.items())


def same(env, got, want, what):
    env.compared += len(want)
    if got != want:
        from core import diff

        raise Violation(f"{what}: {diff(got, want)}")


def judge(env, ask, got, where):
    kind, area, ids = ask
    if kind == "tables":
        want = ladata.encounter_tables(area)
        same(env, sorted(k for k, _, _ in got), sorted(want), f"{area}: ids of the encounter tables {where}")
        for k, own, slots in got:
            env.require(own == k, f"{area}: the table found under {k} has id {own} {where}")
            same(env, slots, want[k], f"{area} table {k} {where}")
    elif kind == "find":
        want = ladata.encounter_tables(area)
        same(env, got, [[i, want[i]] if i in want else None for i in ids], f"{area}: tables {ids} {where}")
    elif kind == "raw":
        want = ladata.root(f"ha_area{ladata.NUMBER[area]:02d}_encounter.bin").children(0)
        rows = [[t.u64(0), t.i32(1), t.i32(2), len(t.children(3))] for t in want]
        same(env, got[0], rows, f"{area}: raw encounter tables {where}")
        same(env, got[1], ids, f"{area}: lookup of raw encounter tables {where}")
    elif kind == "spawners":
        want = ladata.spawners(area)
        same(env, got["list"], want, f"{area}: spawners {where}")
        same(env, got["by_id"], by("spawner_id", want), f"{area}: spawners by id {where}")
        same(env, got["by_group"], by("group_id", want), f"{area}: spawners by group {where}")
    else:
        groups, lottery = ladata.outbreak_groups(), ladata.lottery()
        same(env, got["groups"], groups, f"outbreak groups {where}")
        same(env, got["group_lookup"], by("hash", groups), f"outbreak groups by hash {where}")
        same(env, got["lottery"], lottery, f"outbreak lotteries {where}")
        same(env, got["lottery_lookup"], by("hash", lottery), f"outbreak lotteries by hash {where}")
        details = [[g["hash"], sorted([h, h] for h in set(g["full_table"]))] for g in lottery]
        same(env, got["details"], details, f"lottery entries by hash {where}")
        mult = sorted([list(k), list(k), t, w] for k, (t, w) in ladata.multipliers().items())
        same(env, got["multipliers"], mult, f"species multipliers {where}")
        misc = sorted([list(k), list(k), v] for k, v in ladata.alpha_levels().items())
        same(env, got["misc"], misc, f"alpha level indices {where}")


def check(env, case):
    cache = env.scratch()
    try:
        for n, proc in enumerate(case["history"]):
            got = env.one_off(proc["mode"], *[request(*a) for a in proc["asks"]], XDG_CACHE_HOME=cache)
            modes = [p["mode"] for p in case["history"][: n + 1]]
            for a, answer in zip(proc["asks"], got):
                judge(env, a, answer, f"[{proc['mode']}, after processes {modes} sharing a cache]")
                env.label(f"ask-{a[0]}", f"area-{a[1]}")
            env.label("fresh-cache" if n == 0 else "cached", f"mode-{proc['mode']}")
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    return len(case["history"]) > 1
