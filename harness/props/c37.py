"""Typed dictionaries and lists behave as Python's own in both modes."""

from hypothesis import strategies as st

from core import Violation, diff
from strats import word

EXAMPLES = (2400, 40000)
SHARDS = (8, 8)
RULE = (
    "a typed dictionary (keys and values of integer, float or text types) or typed list, and a history of up to forty stores, "
    "lookups, deletions, membership tests, lengths, iterations and merges, each made directly or inside a compiled function; "
    "every result, error and order of iteration compared with Python's own dictionary or list; non-trivial: something is read "
    "after something was stored"
)
ASSUMPTIONS = [
    "keys and values are given in their declared type; floats used as keys are numbers",
    "each compiled container type costs seconds, so each shard compiles a few of the types; all run interpreted",
]
INT = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "i32": (1, 32), "i64": (1, 64)}
DICTS = [("u64", "u64"), ("u32", "f32"), ("str", "u16"), ("i64", "f64"), ("u16", "str"), ("u8", "i32"), ("i32", "u8"), ("str", "str")]
LISTS = ["u64", "u8", "f32", "i32", "u32", "u16", "f64", "i64"]


def value(kind):
    if kind == "str":
        return st.text(max_size=5)
    if kind == "f32":
        return st.floats(width=32, allow_nan=False)
    if kind == "f64":
        return st.floats(allow_nan=False)
    signed, bits = INT[kind]
    if signed:
        return st.one_of(st.integers(-(1 << bits - 1), (1 << bits - 1) - 1), st.integers(-3, 3))
    return word(bits)


@st.composite
def dict_case(draw):
    types = list(draw(st.sampled_from(DICTS)))
    pool = draw(st.lists(value(types[0]), min_size=1, max_size=6))
    key = st.one_of(st.sampled_from(pool), st.sampled_from(pool), value(types[0]))
    ops = []
    for _ in range(draw(st.integers(1, 40))):
        name = draw(st.sampled_from(["put", "put", "put", "get", "get", "has", "remove", "len", "items", "all", "update"]))
        args = []
        if name in ("put", "get", "has", "remove"):
            args.append(draw(key))
        if name == "put":
            args.append(draw(value(types[1])))
        if name == "update":
            args.append(draw(st.lists(st.tuples(key, value(types[1])).map(list), max_size=3)))
        ops.append([name, draw(st.booleans()), *args])
    return {"kind": "dict", "types": types, "ops": ops + [["items", False]]}


@st.composite
def list_case(draw):
    kind = draw(st.sampled_from(LISTS))
    ops = [["append", False, draw(value(kind))]]
    index = st.integers(-4, 6)
    for _ in range(draw(st.integers(1, 40))):
        name = draw(st.sampled_from(["append", "append", "get", "get", "put", "pop", "remove", "len", "all", "has"]))
        args = []
        if name in ("get", "put", "remove"):
            args.append(draw(index))
        if name in ("append", "put", "has"):
            args.append(draw(value(kind)))
        ops.append([name, draw(st.booleans()), *args])
    return {"kind": "list", "types": [kind], "ops": ops + [["all", False]]}


def strategy(tier):
    return st.one_of(dict_case(), list_case())


def fixed_cases(tier):
    # many entries, so that the table grows and shrinks
    for k, v in DICTS:
        if k in INT and v in INT:
            mask = (1 << INT[k][1] - INT[k][0]) - 1
            keys = list(dict.fromkeys((n * 2654435761) & mask for n in range(300)))
            ops = [["put", n % 3 == 0, x, n % 100] for n, x in enumerate(keys)]
            ops += [["remove", n % 2 == 0, x] for n, x in enumerate(keys) if n % 4]
            ops += [["get", True, x] for x in keys[:40]] + [["put", False, x, 1] for x in keys[:60]] + [["items", False], ["all", False]]
            yield {"kind": "dict", "types": [k, v], "ops": ops}


def tagged(kind, v):
    return ["s" if kind == "str" else kind, v]


def model(case):
    kind = case["kind"]
    d = {} if kind == "dict" else []
    out = []
    for name, _, *args in case["ops"]:
        try:
            if name == "put":
                d[args[0]] = args[1]
                out.append(None)
            elif name == "get":
                out.append(d[args[0]])
            elif name == "has":
                out.append(int(args[0] in d))
            elif name == "remove":
                del d[args[0]]
                out.append(None)
            elif name == "len":
                out.append(len(d))
            elif name == "items":
                out.append([[k, v] for k, v in d.items()])
            elif name == "all":
                out.append(list(d))
            elif name == "update":
                d.update(dict(args[0]))
                out.append(None)
            elif name == "append":
                d.append(args[0])
                out.append(None)
            elif name == "pop":
                out.append(d.pop())
        except KeyError:
            out.append("KeyError")
        except IndexError:
            out.append("IndexError")
    return out


def wire(case):
    kind, types = case["kind"], case["types"]
    first = types[0] if kind == "dict" else "i64"
    out = []
    for name, where, *args in case["ops"]:
        if name == "update":
            args = [[[tagged(types[0], k), tagged(types[1], v)] for k, v in args[0]]]
        elif name in ("append",) or (name == "has" and kind == "list"):
            args = [tagged(types[0], args[0])]
        elif name == "put":
            args = [tagged(first, args[0]), tagged(types[-1], args[1])]
        elif args:
            args = [tagged(first, args[0])]
        out.append([name, where, *args])
    return out


def check(env, case):
    types = tuple(case["types"])
    number = DICTS.index(types) if case["kind"] == "dict" else LISTS.index(types[0])
    mine = env.replaying or number % env.shards == env.shard
    modes = ("numba", "numpy") if mine else ("numpy",)
    want = model(case)
    got = env.values("container_history", modes=modes, kind=case["kind"], types=case["types"], ops=wire(case))
    for m, outs in got.items():
        for n, (op, g, w) in enumerate(zip(case["ops"], outs, want)):
            env.compared += 1
            if g != w:
                raise Violation(f"[{m}] {case['kind']} of {types}, operation {n} {op}: {diff(g, w)}")
    env.label(case["kind"], *[f"{case['kind']}-{m}" for m in modes])
    names = [o[0] for o in case["ops"]]
    return any(n in ("get", "items", "all", "pop") for n in names) and any(n in ("put", "append") for n in names)
