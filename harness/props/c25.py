"""Gen 3 encounter tables equal the shipped game data."""

import shutil

from hypothesis import strategies as st

import gen3data
from core import Violation

EXAMPLES = (18, 500)
SHARDS = (6, 8)
RULE = (
    "a history of processes in either mode sharing one cache directory that starts empty; each process loads games in some "
    "order, from the module's tables and through the loader; every rate, level, species, location and map name of every area "
    "is compared with an independent reading of the shipped files; non-trivial: at least two processes share the cache"
)
ASSUMPTIONS = ["levels, rates and species are those of the JSON files shipped with the package"]


def process():
    games = st.lists(st.sampled_from(list(gen3data.FILES)), min_size=1, max_size=7)
    return st.fixed_dictionaries(
        {
            "mode": st.sampled_from(["numba", "numpy", "numpy"]),
            "asks": st.lists(st.tuples(games, st.booleans()), min_size=1, max_size=3),
        }
    )


def strategy(tier):
    return st.fixed_dictionaries({"history": st.lists(process(), min_size=1, max_size=4)})


def fixed_cases(tier):
    everything = [[list(gen3data.FILES), False], [list(gen3data.FILES), True]]
    for modes in (["numpy", "numpy", "numba"], ["numba", "numba", "numpy"]):
        yield {"history": [{"mode": m, "asks": everything} for m in modes]}


def expected(game):
    names = [gen3data.map_name(e) for e in gen3data.listed(game)]
    return names, gen3data.areas(game)


def compare(env, m, game, got, where):
    names, areas = expected(game)
    env.compared += sum(len(a["land"]) * 3 for a in areas) + len(names)
    if list(got[0]) != names:
        bad = [(i, a, b) for i, (a, b) in enumerate(zip(got[0], names)) if a != b]
        raise Violation(f"[{m}] {game} map names ({len(got[0])} of {len(names)}) differ: {bad[:3]} {where}")
    if len(got[1]) != len(areas):
        raise Violation(f"[{m}] {game} has {len(got[1])} areas instead of {len(areas)} {where}")
    for i, (g, w) in enumerate(zip(got[1], areas)):
        for f, v in w.items():
            if g[f] != v:
                raise Violation(f"[{m}] {game} area {i} ({names[i]}): {f} is {g[f]} instead of {v} {where}")


def check(env, case):
    cache = env.scratch()
    try:
        for n, proc in enumerate(case["history"]):
            msgs = [{"op": "areas_3", "games": games, "load": load} for games, load in proc["asks"]]
            got = env.one_off(proc["mode"], *msgs, XDG_CACHE_HOME=cache)
            modes = [p["mode"] for p in case["history"][: n + 1]]
            for (games, load), tables in zip(proc["asks"], got):
                for game, table in zip(games, tables):
                    compare(env, proc["mode"], game, table, f"after processes {modes} sharing a cache (loader: {load})")
                    env.label(f"game-{game}")
            env.label("fresh-cache" if n == 0 else "cached", f"mode-{proc['mode']}")
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    return len(case["history"]) > 1
