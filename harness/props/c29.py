"""The FlatBuffer reader returns what was written, or the default."""

import numpy as np
from hypothesis import strategies as st

from core import Violation, diff
from flatfile import FLOATS, INTS, SIZE, encode
from strats import word

EXAMPLES = (1500, 60000)
SHARDS = (3, 6)
RULE = (
    "a schema of up to 12 fields (all integer and float kinds, strings, nested objects, object arrays, vectors of three floats, "
    "two levels deep), values or absence for every field, a layout (order and padding of fields and parts, vtables before or "
    "after and shared or not, absent fields at the end cut off or not) written by an encoder of the check's own, and a program "
    "of reads by position and in declaration order with padding and defaults; every result compared with what was written; "
    "non-trivial: at least one present and one absent field are read"
)
ASSUMPTIONS = ["integers read as an enumeration have a member", "floats are not NaN"]


# --------------------------------------------------------------------------- generators
def scalar_kinds():
    return st.sampled_from([*INTS, *FLOATS, "str", "vec"])


@st.composite
def schema(draw, depth, longest=12):
    out = []
    for _ in range(draw(st.integers(1, longest))):
        kind = draw(st.one_of(scalar_kinds(), st.sampled_from(["obj", "arr"])) if depth else scalar_kinds())
        out.append([kind, draw(schema(depth - 1, 5)) if kind in ("obj", "arr") else None])
    return out


F32 = st.floats(width=32, allow_nan=False)


def value(kind, sub):
    if kind in INTS:
        bits = 8 * SIZE[kind]
        if kind[0] == "U":
            return word(bits)
        return st.one_of(st.integers(-(1 << bits - 1), (1 << bits - 1) - 1), st.integers(-3, 3), st.sampled_from([-(1 << bits - 1)]))
    if kind == "F32":
        return F32
    if kind == "F64":
        return st.floats(allow_nan=False)
    if kind == "str":
        return st.text(alphabet=st.characters(blacklist_categories=["Cs"]), max_size=12)
    if kind == "vec":
        return st.lists(st.one_of(F32, st.none()), min_size=3, max_size=3)
    if kind == "obj":
        return table(sub)
    return st.lists(table(sub), max_size=4).flatmap(lambda ts: st.sampled_from([ts, ts + ts[-1:]]))


def table(fields):
    return st.tuples(*[st.one_of(st.none(), value(*f), value(*f)) for f in fields]).map(list)


@st.composite
def step(draw, how, field, kind, sub):
    if kind in INTS and draw(st.integers(0, 3)) == 0:
        return [how, kind, field, draw(defaults(kind)), draw(st.sampled_from(["bool", "twice"]))]
    more = draw(program(sub)) if kind in ("obj", "arr") else None
    return [how, kind, field, "none given" if kind == "arr" else draw(defaults(kind)), more]


def defaults(kind):
    if kind == "str":
        return st.sampled_from(["none given", "", "absent"])
    if kind in FLOATS:
        return st.sampled_from(["none given", 0.0, 1.5])
    return st.sampled_from(["none given", 0, 7]) if kind in INTS else st.sampled_from(["none given", "nothing"])


@st.composite
def program(draw, fields):
    """Reads in declaration order, with some fields skipped as padding, and reads by position in between."""
    steps = []
    n = len(fields)
    at = 0
    while True:
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
            f = draw(st.integers(0, n - 1))
            steps.append(draw(step("at", f, *fields[f])))
        if at >= n:
            return steps
        if draw(st.integers(0, 4)) == 0:
            skip = draw(st.integers(0, n - at))
            steps.append(["init", "pad", skip, None, None])
            at += skip
        if at < n:
            steps.append(draw(step("init", at, *fields[at])))
            at += 1


@st.composite
def case(draw):
    fields = draw(schema(2))
    return {
        "schema": fields,
        "values": draw(table(fields)),
        "program": draw(program(fields)),
        "layout": draw(st.integers(0, 1 << 32)),
        "mutable": draw(st.booleans()),
    }


def strategy(tier):
    return case()


def fixed_cases(tier):
    kinds = [*INTS, *FLOATS, "str", "vec"]
    values = [255, 65535, 2**32 - 1, 2**64 - 1, -128, -32768, -(2**31), -(2**63), 1.5, 1e300, "é\0x", [1.0, None, -2.5]]
    fields = [[k, None] for k in kinds]
    sub = [["U32", None], ["str", None]]
    fields += [["obj", sub], ["arr", sub]]
    values += [[5, None], [[1, "a"], [None, ""], [1, "a"]]]
    subsub = [["at", "str", 1, "none given", None], ["init", "U32", 0, 9, None], ["init", "str", 1, "d", None]]
    for how in ("at", "init"):
        for default in ("none given", "given"):
            for hole in range(-1, len(fields)):
                steps = []
                for i, (k, s) in enumerate(fields):
                    d = "none given" if default == "none given" or k == "arr" else "absent" if k == "str" else "nothing" if k in ("vec", "obj") else 3
                    steps.append([how, k, i, d, subsub if s else None])
                present = [None if i == hole else v for i, v in enumerate(values)]
                yield {"schema": fields, "values": present, "program": steps, "layout": hole, "mutable": hole % 2 == 0}
    # every value an enumeration or a flag can take
    for v in (0, 1, 2, 100, None):
        for k in INTS:
            steps = [[how, k, 0, "none given", f] for how in ("at", "init", "at") for f in ("bool", "colour", "twice")]
            steps = [s for i, s in enumerate(steps) if s[0] != "init" or i == 3]
            yield {"schema": [[k, None]], "values": [v], "program": steps, "layout": 1, "mutable": False}


# --------------------------------------------------------------------------- oracle
def expected(schema, values, program, seen):
    out = []
    at = 0
    for how, kind, field, default, more in program:
        if kind == "pad":
            at += field
            out.append(None)
            continue
        if how == "init":
            field = at
            at += 1
        v = values[field] if field < len(values) else None
        seen.add(v is not None)
        if v is None:
            out.append([] if kind == "arr" else None if default == "none given" else default)
        elif kind == "obj":
            out.append({"object": expected(schema[field][1], v, more, seen)})
        elif kind == "arr":
            out.append([{"object": expected(schema[field][1], t, more, seen)} for t in v])
        elif kind in INTS and more:
            out.append(["bool", int(bool(v))] if more == "bool" else ["colour", v] if more == "colour" else 2 * v)
        elif kind == "F32":
            out.append(float(np.float32(v)))
        else:
            out.append(v)
    return out


def check(env, case):
    raw = encode(case["schema"], case["values"], case["layout"])
    got = env.values("fbs_read", data=raw.hex(), program=case["program"], mutable=case["mutable"])
    seen = set()
    want = expected(case["schema"], case["values"], case["program"], seen)
    for m, (results, dumped) in got.items():
        env.compared += len(want) + 1
        if results != want:
            for s, g, w in zip(case["program"], results, want):
                if g != w:
                    raise Violation(f"[{m}] read {s[:4]}: {diff(g, w)} (buffer {raw.hex()})")
            raise Violation(f"[{m}] {diff(results, want)}")
        if dumped != raw.hex():
            raise Violation(f"[{m}] dumping writes {dumped} instead of {raw.hex()}")
    env.label(*{f"kind-{s[1]}" for s in case["program"]}, *{f"how-{s[0]}" for s in case["program"]})
    return len(seen) == 2
