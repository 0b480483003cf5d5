"""The data cache survives crashes and never changes results."""

import shutil

from hypothesis import strategies as st

import ladata
import gen3data
from core import MODES, Violation, Worker, WorkerDied, WorkerHung, short
from props import c25, c27
from strats import word

EXAMPLES = (600, 20000)
SHARDS = (7, 8)
RULE = (
    "histories of 2-6 processes calling cached functions (one to three functions; one or two arguments, passed by position, by "
    "name or left at their default; values of several "
    "kinds and sizes, empty and false ones included; with and without encode/decode), each process free of faults, killed after a chosen number of interpreter "
    "events, killed or failing while a value is pickled, or out of space (failing or killed) after a chosen number of bytes; "
    "processes may run at the same time and callers may modify what they were given; plus imports of the package's own "
    "cached tables under the same faults; non-trivial: a fault precedes a fault-free process"
)
ASSUMPTIONS = [
    "arguments have distinct text forms free of path separators, and the file name has a place for each",
    "a call in a process that runs out of space may fail with OSError; it may not return a wrong value",
    "the entry of a call is complete once that call has returned in a process without disk faults",
]


ARG = st.one_of(st.integers(0, 3), st.sampled_from(["a", "b", "1x", "-1", "ruby"]), st.integers(-5, 300))


@st.composite
def func(draw, number):
    arity = draw(st.integers(1, 2))
    size = draw(st.one_of(st.integers(0, 40), st.integers(0, 9000), st.sampled_from([4095, 8192, 8193, 65536, 70000])))
    kind = draw(st.sampled_from(["list", "list", "list", "text", "bytes", "dict", "array", "none", "empty"]))
    shape = draw(st.sampled_from(["star", "named", "named", "kwonly"]))
    if shape == "kwonly":
        arity = 2
    places = ["{}"] * arity
    if shape != "star" and (shape == "kwonly" or draw(st.booleans())):
        places = draw(st.permutations(["{first}", "{second}"][:arity]))
    return {
        "file": f"f{number}_" + "_".join(places) + ".pkl",
        "shape": shape,
        "default": draw(ARG),
        "arity": arity,
        "kind": kind,
        "size": min(size, 3000) if kind in ("list", "array", "text") else size,
        "coding": draw(st.sampled_from([False, False, True, "thin"])),
        "bomb": draw(st.integers(0, 100)),
    }


STYLE = st.sampled_from(["positional", "keyword", "mixed", "omitted"])


def fault():
    return st.one_of(
        st.tuples(st.just("moment"), st.one_of(st.integers(0, 120), st.integers(0, 1500))),
        st.tuples(st.sampled_from(["space", "space-kill"]), st.one_of(st.integers(0, 64), st.integers(0, 9000), word(17))),
        st.tuples(st.sampled_from(["die", "fail"]), st.just(0)),
    )


@st.composite
def case(draw):
    funcs = [draw(func(i)) for i in range(draw(st.integers(1, 3)))]
    pool = []
    for _ in range(draw(st.integers(1, 4))):
        which = draw(st.integers(0, len(funcs) - 1))
        args = [draw(ARG) for _ in range(funcs[which]["arity"])]
        if draw(st.booleans()):
            args[-1] = funcs[which]["default"]
        pool.append([which, args])
    call = st.tuples(st.sampled_from(pool), st.booleans(), STYLE).map(lambda c: [*c[0], *c[1:]])
    procs = []
    for i in range(draw(st.integers(2, 6))):
        faulty = draw(st.booleans())
        procs.append(
            {
                "fault": draw(fault()) if faulty else None,
                "calls": draw(st.lists(call, min_size=1, max_size=4)),
                "together": draw(st.integers(0, 5)) == 0,
                "empty": draw(st.integers(0, 12)) // 11,
            }
        )
    style = draw(STYLE)
    procs.append({"fault": None, "calls": [[*c, False, style] for c in pool], "together": False, "empty": 0})
    folder = draw(st.sampled_from(["", "", "", "a b", "{}", "{first}", "{x", "100%s"]))
    return {"funcs": funcs, "procs": procs, "folder": folder}


def strategy(tier):
    return case()


def fixed_cases(tier):
    # one call killed at every early moment, then repeated by two sound processes
    for kind, size, coding in (("list", 2000, False), ("list", 3, True), ("bytes", 9000, True), ("none", 0, False)):
        f = {"file": "f0_{}.pkl", "arity": 1, "kind": kind, "size": size, "coding": coding, "bomb": 60}
        call = [0, [7], False]
        for start in range(0, 160, 8):
            procs = []
            for n in range(start, start + 8):
                procs.append({"fault": ["moment", n], "calls": [[0, [n], False]], "together": False, "empty": 0})
            sound = {"fault": None, "calls": [[0, [n], False] for n in range(start, start + 8)], "together": False, "empty": 0}
            yield {"funcs": [f], "procs": procs + [sound, sound]}
        for first in (["die", 0], ["fail", 0], ["space", 100], ["space", 0], ["space-kill", 4096], ["space-kill", 20]):
            procs = [{"fault": first, "calls": [call], "together": False, "empty": 0}]
            procs += [{"fault": None, "calls": [call, call], "together": False, "empty": 0}] * 2
            yield {"funcs": [f], "procs": procs}
    # empty results, in full and in empty encoded forms
    for size in range(6):
        for coding in (False, True, "thin"):
            f = {"file": "f0_{}.pkl", "arity": 1, "kind": "empty", "size": size, "coding": coding, "bomb": 0}
            procs = [{"fault": None, "calls": [[0, [7], False]] * 2, "together": False, "empty": 0}] * 2
            yield {"funcs": [f], "procs": procs}
    # the same arguments, however passed
    for number, (shape, arity, places) in enumerate(
        (("named", 1, "{}"), ("named", 2, "{}_{}"), ("named", 2, "{second}_{first}"), ("kwonly", 2, "{first}_{second}"))
    ):
        f = {"file": f"f0_{places}.pkl", "arity": arity, "kind": "list", "size": 9, "coding": False, "bomb": 0}
        f.update(shape=shape, default=7)
        styles = ["positional", "keyword", "mixed", "omitted"]
        procs = []
        for i in range(4):
            calls = [[0, [3, 7][2 - arity :], False, s] for s in styles[i:] + styles[:i]]
            calls += [[0, [7, 3][:arity] if i % 2 else [4, 3][2 - arity :], False, "keyword"]]
            procs.append({"fault": None, "calls": calls, "together": False, "empty": 0})
        yield {"funcs": [f], "procs": procs, "folder": ["", "{}", "{first}", "a{"][number]}
    # the package's own tables
    faults = [f"open {n}" for n in (0, 1, 2, 4, 5, 8, 11, 15, 19)]
    faults += [f"space {n}" for n in (0, 10000)] + [f"space-kill {n}" for n in (100, 20000, 60000)]
    for i, f in enumerate(faults):
        yield {"import": f, "modes": ["numpy", MODES[i % 2]] if i % 4 else ["numba", "numpy"]}


def check_import(env, case):
    cache = env.scratch()
    try:
        w = Worker(case["modes"][0], env.tmp, XDG_CACHE_HOME=cache, VERIF_FAULT=case["import"])
        try:
            w.send({"op": "areas_3", "games": ["RUBY"], "load": False})
            w.recv(60)
        except (WorkerDied, WorkerHung, OSError):
            pass
        finally:
            w.stop()
        for n in range(2):
            mode = case["modes"][1] if n == 0 else case["modes"][0]
            area = ladata.AREAS[n]
            msgs = [{"op": "areas_3", "games": list(gen3data.FILES), "load": False}]
            msgs += [{"op": "la_tables", "area": a} for a in ladata.AREAS]
            got = env.one_off(mode, *msgs, XDG_CACHE_HOME=cache)
            where = f"after a process stopped by '{case['import']}' while loading"
            for game, table in zip(gen3data.FILES, got[0]):
                c25.compare(env, mode, game, table, where)
            for area, tables in zip(ladata.AREAS, got[1:]):
                c27.judge(env, ["tables", area, []], tables, f"[{mode}, {where}]")
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    env.label(f"import-{case['import'].split()[0]}")
    return True


def groups(procs):
    """Indices of processes that run at the same time."""
    out, group = [], []
    for i, p in enumerate(procs):
        group.append(i)
        if not p["together"]:
            out.append(group)
            group = []
    return out + ([group] if group else [])


def judge(env, case, m, got):
    complete = set()
    for group in groups(case["procs"]):
        finished = set()
        if case["procs"][group[0]].get("empty") or any(case["procs"][i].get("empty") for i in group):
            complete = set()
        for i in group:
            proc = case["procs"][i]
            ran, wanted = got[i]
            kind = proc["fault"][0] if proc["fault"] else None
            where = f"process {i} of {short(case['procs'])}"
            env.require(not ran["hung"], f"[{m}] {where} does not end")
            if kind is None:
                env.require(
                    ran["status"] == 0 and len(ran["answers"]) == len(proc["calls"]),
                    f"[{m}] {where} ended with status {ran['status']} after {len(ran['answers'])} calls",
                )
            mine = set(complete)
            for call, answer, want in zip(proc["calls"], ran["answers"], wanted):
                key = (call[0], str(call[1]))
                if answer[0] == "exc":
                    env.require(
                        kind in ("space", "space-kill", "fail") and answer[2],
                        f"[{m}] call {call} raised {answer[1]} in {where}",
                    )
                    continue
                env.require(answer[1] == want, f"[{m}] call {call} gives {short(answer[1])}, not {short(want)}, in {where}")
                if key in mine:
                    env.require(answer[2] == 0, f"[{m}] call {call} was computed again although cached, in {where}")
                    env.label("reused")
                else:
                    env.label("computed")
                if kind not in ("space", "space-kill", "fail"):
                    mine.add(key)
                    finished.add(key)
        complete |= finished


def check(env, case):
    if "import" in case:
        return check_import(env, case)
    folders = {}
    try:
        for m in MODES:
            folders[m] = env.scratch()
            folder = f"{folders[m]}/{case.get('folder', '')}"
            got = env.values("cache_history", modes=(m,), folder=folder, funcs=case["funcs"], procs=case["procs"])
            judge(env, case, m, got[m])
    finally:
        for f in folders.values():
            shutil.rmtree(f, ignore_errors=True)
    seen = False
    nontrivial = False
    for p in case["procs"]:
        for c in p["calls"]:
            env.label(f"{case['funcs'][c[0]].get('shape', 'star')}-{c[3] if len(c) > 3 else 'positional'}")
        env.label(f"fault-{p['fault'][0] if p['fault'] else 'none'}")
        if p["together"]:
            env.label("concurrent")
        nontrivial = nontrivial or (seen and not p["fault"])
        seen = seen or bool(p["fault"])
    return nontrivial
