"""Any module may be imported first, and the process may be set up in any way."""

import json
import os
import subprocess

from hypothesis import strategies as st

from core import HERE, PY, REPO, Violation, short, worker_env

EXAMPLES = (96, 3000)
SHARDS = (8, 8)
RULE = (
    "processes of their own that import generated modules of the package in a generated order and form, possibly with calls in "
    "between, under generated interpreter options (-O, -OO, -X dev, UTF-8 mode), environments (locale, hash seed, time zone, "
    "home and cache folders with odd names, unset or shared) and settings made before (numpy's error handling and printing, "
    "random seeds, recursion limit, garbage collection, warnings, decimal, umask, hooks), in the main thread, in another one or "
    "in a forked child; what calls then give is compared with what a long-running process gives; non-trivial: at least one "
    "import before the calls and a setting or a second import"
)
ASSUMPTIONS = [
    "importing the package sets numpy's handling of overflow, which is documented there",
    "warnings turned into errors are out of scope (Python's own deprecations of importlib.resources functions are among them)",
]
OPTIONS = [[], ["-O"], ["-OO"], ["-X", "dev"], ["-X", "utf8=0"], ["-X", "utf8=1"], ["-O", "-X", "dev"], ["-u"], ["-s"]]
ENVIRONMENT = [
    ["LC_ALL", "C"],
    ["LC_ALL", "POSIX"],
    ["LANG", "xx_YY.ISO-8859-1"],
    ["PYTHONHASHSEED", "12345"],
    ["PYTHONHASHSEED", "random"],
    ["TZ", "Asia/Tokyo"],
    ["COLUMNS", "20"],
    ["PYTHONIOENCODING", "ascii"],
    ["PYTHONCOERCECLOCALE", "0"],
    ["OMP_NUM_THREADS", "4"],
    ["NO_COLOR", "1"],
]
CACHES = ["own", "shared", "with spaces and 'quotes'", "π", "{0}{game}", "deeper/and/deeper", "unset"]
SETTINGS = ["seterr", "printoptions", "random", "recursion", "gc", "warnings", "decimal", "umask", "excepthook", "switch", "stdin", "trace"]
# these compile little
QUICK_PROBES = ["helpers", "nazo", "slot_table", "personal", "load_3", "load_la", "flatbuffer", "cached", "la_slot"]
PROBES = QUICK_PROBES + ["state", "state_text", "wild", "slots", "alpha", "seed", "alpha_then_settings", "outputs", "decorate_function"]
MODULES = []


def modules():
    if not MODULES:
        root = os.path.join(REPO, "numba_pokemon_prngs")
        for base, dirs, files in os.walk(root):
            dirs[:] = [d for d in dirs if d != "__pycache__"]
            for f in files:
                if f.endswith(".py"):
                    parts = os.path.relpath(os.path.join(base, f), root)[:-3].split(os.sep)
                    MODULES.append(".".join(p for p in parts if p != "__init__"))
        MODULES.sort()
    return MODULES


def probe(names):
    return st.tuples(st.sampled_from(names), st.integers(0, 40)).map(list)


@st.composite
def case(draw, tier):
    mode = draw(st.sampled_from(["numpy"] * 4 + ["numba"]))
    names = PROBES if mode == "numpy" or tier != "quick" else QUICK_PROBES
    form = st.sampled_from(["import", "from", "star", "importlib"])
    imports = draw(st.lists(st.tuples(st.just("import"), form, st.sampled_from(modules())).map(list), min_size=1, max_size=6))
    calls = draw(st.lists(probe(names).map(lambda p: ["call", *p]), max_size=3))
    steps = list(imports)
    for c in calls:
        steps.insert(draw(st.integers(0, len(steps))), c)
    return {
        "mode": mode,
        "options": draw(st.sampled_from(OPTIONS)),
        "env": draw(st.lists(st.sampled_from(ENVIRONMENT), max_size=3)),
        "cache": draw(st.sampled_from(CACHES)),
        "before": draw(st.lists(st.sampled_from(SETTINGS), max_size=3, unique=True)),
        "steps": steps,
        "where": draw(st.sampled_from(["main", "main", "thread", "fork"])),
        "probes": draw(st.lists(probe(names), min_size=2, max_size=5)),
    }


def strategy(tier):
    return case(tier)


PLAIN = {"options": [], "env": [], "cache": "own", "before": [], "where": "main"}


def fixed_cases(tier):
    for i, m in enumerate(modules()):
        probes = [[QUICK_PROBES[(i + j) % len(QUICK_PROBES)], i % 5] for j in range(2)]
        yield {**PLAIN, "mode": "numpy", "steps": [["import", "import", m]], "probes": probes}
        if tier != "quick" or i % 8 == 0:
            yield {**PLAIN, "mode": "numba", "steps": [["import", "from", m]], "probes": probes}
    for i, o in enumerate(OPTIONS):
        yield {**PLAIN, "options": o, "mode": "numpy", "steps": [["import", "import", ""]], "probes": [[p, i % 3] for p in PROBES]}
    ascii_only = {"options": ["-X", "utf8=0"], "env": [["LC_ALL", "C"], ["PYTHONCOERCECLOCALE", "0"], ["PYTHONIOENCODING", "ascii"]]}
    yield {**PLAIN, **ascii_only, "mode": "numpy", "steps": [["import", "import", "data"]], "probes": [[p, 1] for p in PROBES]}
    yield {**PLAIN, **ascii_only, "mode": "numba", "steps": [["import", "import", "fnv"]], "probes": [[p, 1] for p in QUICK_PROBES]}
    for i, b in enumerate(SETTINGS):
        before = [b, SETTINGS[(i + 5) % len(SETTINGS)]]
        where = ["main", "thread", "fork"][i % 3]
        yield {**PLAIN, "before": before, "where": where, "mode": "numpy", "steps": [["import", "star", "gen3"]], "probes": [[p, i % 3] for p in PROBES]}
    for i, c in enumerate(CACHES):
        yield {**PLAIN, "cache": c, "mode": "numpy", "steps": [["import", "star", "enums"]], "probes": [["load_3", i], ["load_la", i]]}


def run(env, case):
    extra = dict(map(tuple, case["env"]))
    tmp = env.scratch()
    home = os.path.join(tmp, "home")
    os.mkdir(home)
    extra["HOME"] = home
    if case["cache"] not in ("shared", "unset"):
        extra["XDG_CACHE_HOME"] = os.path.join(tmp, case["cache"])
    elif case["cache"] == "shared":
        extra["XDG_CACHE_HOME"] = os.path.join(env.tmp, f"shared-{case['mode']}")
    full = worker_env(tmp, case["mode"], **extra)
    if case["cache"] == "unset":
        del full["XDG_CACHE_HOME"]
    request = {k: case[k] for k in ("before", "steps", "where", "probes")}
    folder = os.path.join(tmp, "cwd")
    os.mkdir(folder)
    try:
        done = subprocess.run(
            [PY, "-W", "ignore", *case["options"], os.path.join(HERE, "import_child.py"), json.dumps(request)],
            env=full,
            cwd=folder,
            capture_output=True,
            timeout=200,
            check=False,
            stdin=subprocess.DEVNULL,
        )
    except subprocess.TimeoutExpired:
        return {"exc": "no end after 200 s"}
    lines = done.stdout.decode("utf-8", "replace").splitlines()
    for line in reversed(lines):
        if line.startswith("{"):
            return json.loads(line)
    return {"exc": f"status {done.returncode}: {done.stderr.decode('utf-8', 'replace')[-500:]}"}


def check(env, case):
    mode = case["mode"]
    got = run(env, case)
    if "exc" in got:
        again = run(env, case)
        if "exc" in again:
            raise Violation(f"[{mode}] fails: {got['exc']}", case)
        got = again
    got = got["ok"]
    env.require(not got["changed"], f"[{mode}] importing changes {short(got['changed'])}")
    env.memo.setdefault("probes", {})
    for name, number in case["probes"]:
        key = (mode, name, number)
        if key not in env.memo["probes"]:
            env.memo["probes"][key] = env.values("probe", modes=(mode,), items=[[name, number]])[mode][0]
    want = [env.memo["probes"][(mode, *p)] for p in case["probes"]]
    for p, g, w in zip(case["probes"], got["probes"], want):
        env.expect({mode: g}, w, f"what {p} gives in that process, against one that runs long")
    env.label(f"mode-{mode}", f"where-{case['where']}", f"cache-{case['cache'][:6]}", *case["before"], " ".join(case["options"]) or "no-options")
    return any(s[0] == "import" for s in case["steps"]) and bool(len(case["steps"]) > 1 or case["before"] or case["env"] or case["options"])
