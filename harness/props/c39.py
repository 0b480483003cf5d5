"""Work done in several threads at once gives what it gives alone."""

from hypothesis import strategies as st

import gen3model
import gensha
from core import Violation, diff, short
from props import c12, c22, c28
from strats import word

EXAMPLES = (400, 12000)
SHARDS = (8, 8)
RULE = (
    "two to four pieces of work (histories of generators, lists of outputs, Gen 5 seed searches, Gen 3 wild generation, slot "
    "tables, Legends: Arceus slot choices, hashes and bit helpers, state fields, cached functions, and calls of every other part of the package, encounter data "
    "read anew among them), often alike, each in a "
    "thread of its own, under a generated schedule that says after how many lines (or bytecodes) of the package which thread "
    "goes on; each must give what it gives alone (run before or after, on objects of its own); compiled code switches between "
    "calls; non-trivial: the threads switch at least ten times"
)
ASSUMPTIONS = ["threads share nothing but the package (and the functions and classes they use)", "compiled calls hold the interpreter's lock, so threads change places between them"]


@st.composite
def histories(draw):
    from genhist import to_worker

    case = draw(c12.history("quick"))
    ops = [[o, m, *(a[:2] + [min(a[2], 12)] if m == "many" else a)] for o, m, *a in case["ops"] if o == 0][-8:]
    # what these return is not part of their contract, but it is the same alone
    return ["hist", to_worker({**case, "objs": case["objs"][:1], "ops": ops})]


@st.composite
def sha1(draw):
    typed = draw(st.booleans())
    ops = [[0, name, draw(gensha.SETTINGS[name])] for name in gensha.SETTINGS]
    for _ in range(draw(st.integers(1, 3))):
        name = draw(st.sampled_from(["set_time", "set_button"]))
        ops += [[0, name, draw(gensha.SETTINGS[name])], [0, "pre", []], [0, "hash", []]]
    return ["sha1", {"runs": [{"objs": [gensha.encode_console(draw(gensha.console()), typed)], "ops": [gensha.encode_op(o, typed) for o in ops]}]}]


@st.composite
def wild(draw):
    case = draw(c22.case(6))
    return ["wild", {"runs": [c22.encode(case)]}]


@st.composite
def slots(draw):
    gen = draw(gen3model.generator())
    area = draw(gen3model.area(gen["game"], gen["encounter"]))
    seeds = draw(st.lists(word(32).map(lambda n: ["u32", n]), min_size=1, max_size=4))
    area = gen3model.area_of(area) if not isinstance(area, dict) else area
    return ["slots_3", {"area": area, "game": gen["game"], "encounter": gen["encounter"], "lead": gen["lead"], "seeds": seeds, "pressure": draw(st.booleans())}]


@st.composite
def la(draw):
    case = draw(c28.case())
    return ["la_choose", {k: case[k] for k in ("area", "rolls", "kind")}]


@st.composite
def functions(draw):
    name = draw(st.sampled_from(["fnv", "swap", "rotate_left_u32", "rotate_right_u32"]))
    if name == "fnv":
        return ["fn", {"module": "fnv", "name": "fnv1a_64", "calls": draw(st.lists(st.text(max_size=20).map(lambda t: [["s", t]]), min_size=1, max_size=6))}]
    if name == "swap":
        return ["fnz", {"module": "util", "name": "change_endian_u32", "kinds": ["u32"], "cols": [draw(st.lists(word(32), min_size=1, max_size=6))]}]
    n = draw(st.integers(1, 6))
    values, by = draw(st.lists(word(32), min_size=n, max_size=n)), draw(st.lists(st.integers(1, 31), min_size=n, max_size=n))
    return ["fnz", {"module": "util", "name": name, "kinds": ["u32", "u8"], "cols": [values, by]}]


LISTS = [("MersenneTwister", "next", "u32", 64), ("PokeRNGMod", "next_u16", "u16", 16)]


@st.composite
def rng_list(draw):
    spec, fn, dtype, size = draw(st.sampled_from(LISTS))
    seeds = [["u32", draw(word(32))]]
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        ops.append(draw(st.sampled_from([[1, "many", ["get_value", [], 9]], [1, "advance", [["i", draw(st.integers(0, 90))]]], [1, "advance_state", []]])))
    return ["hist", {"objs": [{"cls": spec, "args": seeds}, {"cls": {"rnglist": spec, "fn": fn, "dtype": dtype, "size": size}, "args": [["obj", 0]]}], "ops": ops}]


def cached():
    call = st.lists(st.integers(0, 2), min_size=2, max_size=2)
    return st.tuples(st.sampled_from(["plain", "encoded"]), st.lists(call, min_size=1, max_size=4).map(lambda c: c * 2)).map(
        lambda t: ["cached_calls", {"name": t[0], "form": t[0], "calls": t[1]}]
    )


CALLS = (
    "state state_text wild slots la_slot alpha seed alpha_then_settings nazo helpers slot_table personal load_3 load_3 load_3 "
    "load_la flatbuffer flatbuffer cached cached decorate_classes decorate_function outputs"
).split()


@st.composite
def package_calls(draw):
    """Calls of any part of the package, mostly all of one or two kinds."""
    pool = draw(st.lists(st.sampled_from(CALLS), min_size=1, max_size=2))
    call = st.tuples(st.sampled_from(pool), st.integers(0, 1 << 30)).map(list)
    most = 1 if "load_la" in pool else 2
    return [["package_calls", {"items": draw(st.lists(call, min_size=1, max_size=most))}] for _ in range(draw(st.integers(2, 3)))]


@st.composite
def task_pair(draw):
    """Mostly several pieces of work of one kind, as they share most."""
    kinds = [histories(), histories(), histories(), sha1(), wild(), slots(), la(), functions(), rng_list(), cached(), cached(), cached()]
    pool = draw(st.lists(st.sampled_from(range(len(kinds))), min_size=1, max_size=2))
    return [draw(kinds[draw(st.sampled_from(pool))]) for _ in range(draw(st.integers(2, 4)))]


STEPS = st.one_of(st.sampled_from([1, 1, 2, 3, 5, 8]), st.integers(1, 30), st.integers(1, 400))


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "tasks": st.one_of(task_pair(), task_pair(), package_calls()),
            "schedule": st.lists(st.tuples(STEPS, st.integers(0, 2)).map(list), min_size=1, max_size=12),
            "fine": st.booleans(),
            "compiled": st.integers(0, 15).map(lambda n: n == 7),
            "fresh": st.booleans(),
            "first": st.sampled_from(["alone", "threads"]),
        }
    )


def fixed_cases(tier):
    # every part of the package at least once, next to another call of the same kind
    for n, name in enumerate(sorted(set(CALLS))):
        for more in range(1 if tier == "quick" else 6):
            tasks = [["package_calls", {"items": [[name, 7 * n + more + 100 * t]]}] for t in range(3 if more % 2 else 2)]
            yield {"tasks": tasks, "schedule": [[3 + more, 0], [20, 1], [50, 0]], "fine": False, "compiled": False, "fresh": True, "first": "threads" if n % 2 else "alone"}


def check(env, case):
    # compiling is slow while threads are watched, so it is done before
    first = "alone" if case["compiled"] else case["first"]
    modes = ("numba", "numpy") if case["compiled"] else ("numpy",)
    if "load_la" in str(case["tasks"]):
        # many lines as it is
        case = {**case, "fine": False}
    got = env.values("threaded", modes=modes, first=first, **{k: case[k] for k in ("tasks", "schedule", "fine", "fresh")})
    most = 0
    for m, (alone, together, switches) in got.items():
        most = max(most, switches)
        for task, a, t in zip(case["tasks"], alone, together):
            env.compared += 1
            if a != t:
                raise Violation(f"[{m}] {short(task)} gives in a thread among others {diff(t, a)} (expected: the result alone)")
    names = {t[0] for t in case["tasks"]} | {name for t in case["tasks"] if t[0] == "package_calls" for name, _ in t[1]["items"]}
    env.label(*names, "fine" if case["fine"] else "lines", f"first-{case['first']}")
    return most >= 10
