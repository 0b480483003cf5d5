"""Record types lay fields out as declared, and compiled code reads and writes every field as interpreted code does."""

import math
import struct

from hypothesis import strategies as st

from core import Violation
from strats import word

EXAMPLES = (400, 12000)
SHARDS = (8, 8)
RULE = (
    "one to four generated record types (integers, floats, flags, unused bytes, one- and two-dimensional arrays, records inside records and arrays of "
    "them, inherited fields, fields declared in any order), arrays of random bytes, and a generated function of up to eight "
    "statements (reads, writes, copies, loops and lengths by attribute or name, constant or variable indices, records passed to "
    "another function, whole records copied, columns), plain or as a method of a class holding the array; the layout, every "
    "value read and every byte left are compared with a packed layout computed from the declaration; non-trivial: the function "
    "touches a nested field"
)
ASSUMPTIONS = ["flags hold 0 or 1, and there are no arrays of them (numba has none inside records)", "floats that are not numbers need only stay so"]
SCALARS = {"U8": (1, "B"), "U16": (2, "H"), "U32": (4, "I"), "U64": (8, "Q"), "F32": (4, "f"), "BOOL8": (1, "?")}
NUMBERS = [k for k in SCALARS if k != "BOOL8"]


# --------------------------------------------------------------------------- declarations
@st.composite
def declarations(draw):
    """[[base or None, [kind of each field]]]: scalars, ["unused", n], ["array", scalar, n], ["rec", class], ["recs", class, n]."""
    classes = []
    for c in range(draw(st.integers(1, 4))):
        kinds = [st.sampled_from(list(SCALARS)), st.sampled_from(list(SCALARS))]
        kinds.append(st.tuples(st.just("unused"), st.integers(1, 9)).map(list))
        kinds.append(st.tuples(st.just("array"), st.sampled_from(NUMBERS), st.integers(1, 7)).map(list))
        kinds.append(st.tuples(st.just("grid"), st.sampled_from(NUMBERS), st.integers(1, 4), st.integers(1, 4)).map(list))
        base = None
        if c:
            other = st.one_of(st.just(c - 1), st.integers(0, c - 1))
            kinds += [st.tuples(st.just("rec"), other).map(list), st.tuples(st.just("recs"), other, st.integers(1, 6)).map(list)] * 2
            if draw(st.integers(0, 4)) == 0:
                base = draw(other)
        classes.append([base, draw(st.lists(st.one_of(*kinds), min_size=1, max_size=6))])
    return classes


def fields(classes, c):
    """[[name, kind]] of a class, inherited ones first."""
    base, own = classes[c]
    return (fields(classes, base) if base is not None else []) + [[f"f{c}_{i}", k] for i, k in enumerate(own)]


def size(classes, kind):
    if isinstance(kind, str):
        return SCALARS[kind][0]
    if kind[0] == "unused":
        return kind[1]
    if kind[0] == "array":
        return SCALARS[kind[1]][0] * kind[2]
    if kind[0] == "grid":
        return SCALARS[kind[1]][0] * kind[2] * kind[3]
    return sum(size(classes, k) for _, k in fields(classes, kind[1])) * (kind[2] if kind[0] == "recs" else 1)


def source(case):
    classes = case["classes"]
    out = []
    for c, (base, own) in enumerate(classes):
        out += ["@dtype_dataclass", f"class C{c}{'' if base is None else f'(C{base})'}:"]
        for i, k in enumerate(own):
            if isinstance(k, str):
                text = k
            elif k[0] == "unused":
                text = f"unused_bytes({k[1]})"
            elif k[0] == "rec":
                text = f"C{k[1]}"
            else:
                what = f"C{k[1]}" if k[0] == "recs" else f"dtype_array({k[1]}, {k[3]})" if k[0] == "grid" else k[1]
                text = f"Annotated[list, dtype_array({what}, {k[2]})]" if case["annotated"] else f"dtype_array({what}, {k[2]})"
            out.append(f"    f{c}_{i}: {text}")
    body, helpers = [], []
    slot = {"int": 0, "float": 0}

    def take(kind):
        which = "float" if kind == "F32" else "int"
        slot[which] += 1
        return f"{which}s[{slot[which] - 1}]"

    for n, s in enumerate(case["statements"]):
        what = s[0]
        if what == "read":
            body.append(f"{take(s[2])} = {text_of(s[1])}")
        elif what == "write":
            body.append(f"{text_of(s[1])} = {literal(s[2], s[3])}")
        elif what == "copy":
            body.append(f"{text_of(s[1])} = {text_of(s[2])}")
        elif what == "loop":
            target = take(s[3])
            kind = "np.float64" if s[3] == "F32" else "np.uint64"
            start = "total = np.float64(0)" if s[3] == "F32" else "total = np.uint64(0)"
            name = f"total{n}"
            body += [start.replace("total", name), f"for x{n} in {text_of(s[1])}:", f"    {name} += {kind}({text_of([f'x{n}'] + s[2])})", f"{target} = {name}"]
        elif what == "len":
            body.append(f"{take('U8')} = len({text_of(s[1])})")
        elif what == "call":
            helpers += ["@optional_njit", f"def h{n}(r, k):", f"    return {text_of(['r'] + s[2])}"]
            body.append(f"{take(s[3])} = h{n}({text_of(s[1])}, k)")
        elif what == "record":
            body.append("t[i] = t[j]")
        elif what == "column":
            body.append(f"{take(s[2])} = t[\"{s[1]}\"][j]")
    # numpy's own attribute reads of flags and such need no more; both outputs always exist
    out += helpers
    if case["boxed"]:
        out += ["@optional_jitclass", "class Box:", f"    t: array_type(C{len(classes) - 1}.dtype)", "    def __init__(self, t):", "        self.t = t"]
        out += ["    def f(self, i, j, k, ints, floats):", "        t = self.t"] + ["        " + b for b in body]
        out.append("f = None")
    else:
        out += ["@optional_njit", "def f(t, i, j, k, ints, floats):"] + ["    " + b for b in body]
    return "\n".join(out) + "\n"


def text_of(path):
    """["t", ["at", "i"], ["attr", name], ["item", name], ["at", 2]]"""
    out = path[0]
    for how, what in path[1:]:
        out += f".{what}" if how == "attr" else f'["{what}"]' if how == "item" else f"[{what[0]}, {what[1]}]" if how == "pair" else f"[{what}]"
    return out


def literal(kind, value):
    if kind == "BOOL8":
        return f"np.bool_({int(value)})"
    if kind == "F32":
        return f"np.float32({value!r})"
    return f"np.uint{8 * SCALARS[kind][0]}({value})"


# --------------------------------------------------------------------------- statements
@st.composite
def descend(draw, classes, c, style, goal):
    """A path from a record of class c to something: -> (steps, kind). goal: "scalar", "many" (array of scalars or records), "record"."""
    steps = []
    while True:
        options = fields(classes, c)
        if goal == "record":
            options = [o for o in options if o[1][0] in ("rec", "recs")]
            if not options or (steps and draw(st.booleans())):
                return steps, ["rec", c]
        elif goal == "many":
            options = [o for o in options if not isinstance(o[1], str)]
            if not options:
                return None
        if goal == "scalar" and draw(st.booleans()):
            nested = [o for o in options if not isinstance(o[1], str)]
            options = nested or options
        name, kind = draw(st.sampled_from(options))
        steps.append([style, name])
        if isinstance(kind, str):
            return steps, kind
        if goal == "many" and kind[0] == "grid":
            if draw(st.booleans()):
                steps.append(["at", draw(st.integers(0, kind[2] - 1))])
                return steps, ["array", kind[1], kind[3]]
            return steps, kind
        if goal == "many" and kind[0] != "rec" and (kind[0] != "recs" or draw(st.booleans())):
            return steps, kind
        if kind[0] == "rec":
            c = kind[1]
            continue
        count = kind[1] if kind[0] == "unused" else kind[2]
        steps.append(["at", draw(st.one_of(st.integers(0, count - 1), st.just(f"(k % {count})"), st.just(-1)))])
        if kind[0] == "grid":
            last = draw(st.integers(0, kind[3] - 1))
            if draw(st.booleans()):
                steps.append(["at", last])
            else:
                steps[-1] = ["pair", [steps[-1][1], last]]
            return steps, kind[1]
        if kind[0] != "recs":
            return steps, ("U8" if kind[0] == "unused" else kind[1])
        c = kind[1]


def element(draw, style="attr"):
    return ["t", ["at", draw(st.sampled_from(["i", "j"]))]]


@st.composite
def statement(draw, classes):
    root = len(classes) - 1
    style = draw(st.sampled_from(["attr", "attr", "item"]))
    what = draw(st.sampled_from(["read", "read", "read", "write", "write", "copy", "loop", "len", "call", "record", "column"]))
    if what in ("read", "write", "copy"):
        steps, kind = draw(descend(classes, root, style, "scalar"))
        path = element(draw) + steps
        if what == "read":
            return [what, path, kind]
        if what == "write":
            if kind == "F32":
                return [what, path, kind, draw(st.floats(width=32, allow_nan=False, allow_infinity=False))]
            return [what, path, kind, draw(st.integers(0, 1) if kind == "BOOL8" else word(8 * SCALARS[kind][0]))]
        for _ in range(4):
            other, k = draw(descend(classes, root, style, "scalar"))
            if k == kind:
                return [what, path, element(draw) + other, kind]
        return ["read", path, kind]
    if what in ("loop", "len"):
        found = draw(descend(classes, root, style, "many"))
        if found is None:
            return ["record"]
        steps, kind = found
        path = element(draw) + steps
        if what == "len" or kind[0] == "grid":
            return ["len", path, kind]
        if kind[0] != "recs":
            return [what, path, [], "U8" if kind[0] == "unused" else kind[1]]
        inner, k = draw(descend(classes, kind[1], style, "scalar"))
        return [what, path, inner, k]
    if what == "call":
        steps, (_, c) = draw(descend(classes, root, style, "record"))
        inner, k = draw(descend(classes, c, style, "scalar"))
        return [what, element(draw) + steps, inner, k]
    if what == "column":
        names = [f for f in fields(classes, root) if isinstance(f[1], str)]
        if not names:
            return ["record"]
        return [what, *draw(st.sampled_from(names))]
    return ["record"]


COUNT = 5


@st.composite
def case(draw):
    classes = draw(declarations())
    total = size(classes, ["rec", len(classes) - 1])
    at = st.integers(0, COUNT - 1)
    return {
        "classes": classes,
        "annotated": draw(st.booleans()),
        "boxed": draw(st.integers(0, 3)) == 0,
        "statements": draw(st.lists(statement(classes), min_size=1, max_size=8)),
        "raw": list(draw(st.binary(min_size=total * COUNT, max_size=total * COUNT))),
        "calls": draw(st.lists(st.tuples(at, at, st.integers(0, 20)).map(list), min_size=1, max_size=4)),
    }


def strategy(tier):
    return case()


def fixed_cases(tier):
    every = [*SCALARS, ["unused", 3]] + [["array", s, 3] for s in NUMBERS] + [["grid", s, 2, 3] for s in NUMBERS]
    classes = [[None, every], [None, ["U8", ["recs", 0, 2], ["rec", 0], "U16"]], [0, [["recs", 1, 3], ["rec", 1], "F32"]]]
    statements = []
    for _, k in fields(classes, 0):
        name = f"f0_{every.index(k)}"
        tail = [] if isinstance(k, str) else [["pair", [1, 2]]] if k[0] == "grid" else [["at", 2]]
        scalar = k if isinstance(k, str) else "U8" if k[0] == "unused" else k[1]
        for head in ([["at", "i"]], [["at", "i"], ["attr", "f2_0"], ["at", "(k % 3)"], ["attr", "f1_1"], ["at", 1]]):
            statements.append(["read", ["t", *head, ["attr", name], *tail], scalar])
    raw = [(n * 37 + n // 250) % 251 for n in range(size(classes, ["rec", 2]) * COUNT)]
    for annotated in (True, False):
        yield {"classes": classes, "annotated": annotated, "boxed": False, "statements": statements, "raw": raw, "calls": [[1, 2, 3], [4, 0, 2]]}


# --------------------------------------------------------------------------- oracle
class Model:
    def __init__(self, case):
        self.classes = case["classes"]
        self.root = ["rec", len(self.classes) - 1]
        self.size = size(self.classes, self.root)
        self.data = bytearray(case["raw"])
        self.clean(0, ["recs", self.root[1], COUNT])

    def clean(self, at, kind):
        """Make every flag 0 or 1 and every float a number."""
        if kind == "BOOL8":
            self.data[at] &= 1
        elif kind == "F32":
            if math.isnan(struct.unpack_from("<f", self.data, at)[0]):
                self.data[at + 2] &= 0x7F
        elif isinstance(kind, list) and kind[0] in ("array", "grid"):
            for n in range(kind[2] * (kind[3] if kind[0] == "grid" else 1)):
                self.clean(at + n * SCALARS[kind[1]][0], kind[1])
        elif isinstance(kind, list) and kind[0] in ("rec", "recs"):
            for _ in range(kind[2] if kind[0] == "recs" else 1):
                for _, k in fields(self.classes, kind[1]):
                    self.clean(at, k)
                    at += size(self.classes, k)

    def find(self, path, env, at=0, kind=None):
        """(offset, kind) of what a path leads to."""
        kind = kind or ["recs", self.root[1], COUNT]
        for how, what in path:
            if how in ("attr", "item"):
                for name, k in fields(self.classes, kind[1]):
                    if name == what:
                        kind = k
                        break
                    at += size(self.classes, k)
                continue
            if how == "pair":
                at, kind = self.find([["at", what[0]], ["at", what[1]]], env, at, kind)
                continue
            n = env[what] if what in env else what if isinstance(what, int) else env["k"] % int(what.split("%")[1][:-1])
            count = kind[1] if kind[0] == "unused" else kind[2]
            n %= count
            kind = "U8" if kind[0] == "unused" else kind[1] if kind[0] == "array" else ["array", kind[1], kind[3]] if kind[0] == "grid" else ["rec", kind[1]]
            at += n * size(self.classes, kind)
        return at, kind

    def get(self, at, kind):
        return struct.unpack_from("<" + SCALARS[kind][1], self.data, at)[0]

    def run(self, statements, i, j, k):
        env = {"i": i, "j": j, "k": k}
        ints, floats = [], []

        def give(kind, value):
            (floats if kind == "F32" else ints).append(value)

        for s in statements:
            what = s[0]
            if what == "read":
                give(s[2], self.get(*self.find(s[1][1:], env)))
            elif what == "write":
                at, kind = self.find(s[1][1:], env)
                struct.pack_into("<" + SCALARS[kind][1], self.data, at, s[3])
            elif what == "copy":
                at, kind = self.find(s[1][1:], env)
                other, _ = self.find(s[2][1:], env)
                n = SCALARS[kind][0]
                self.data[at : at + n] = self.data[other : other + n]
            elif what == "loop":
                at, kind = self.find(s[1][1:], env)
                count = kind[1] if kind[0] == "unused" else kind[2]
                total = 0.0 if s[3] == "F32" else 0
                one = "U8" if kind[0] == "unused" else kind[1] if kind[0] == "array" else ["rec", kind[1]]
                for n in range(count):
                    total += self.get(*self.find(s[2], env, at + n * size(self.classes, one), one))
                give(s[3], total if s[3] == "F32" else total % (1 << 64))
            elif what == "len":
                _, kind = self.find(s[1][1:], env)
                give("U8", kind[1] if kind[0] == "unused" else kind[2])
            elif what == "call":
                at, kind = self.find(s[1][1:], env)
                give(s[3], self.get(*self.find(s[2], env, at, kind)))
            elif what == "record":
                self.data[i * self.size : (i + 1) * self.size] = self.data[j * self.size : (j + 1) * self.size]
            elif what == "column":
                give(s[2], self.get(*self.find([["at", "j"], ["attr", s[1]]], env)))
        return ints, floats


CODES = {"U8": "|u1", "U16": "<u2", "U32": "<u4", "U64": "<u8", "F32": "<f4", "BOOL8": "|b1"}


def described(classes, c):
    """[[name, offset, [what it holds, shape]]] of a class's fields."""
    out, at = [], 0
    for name, kind in fields(classes, c):
        if isinstance(kind, str):
            holds, shape = CODES[kind], []
        elif kind[0] == "unused":
            holds, shape = CODES["U8"], [kind[1]]
        elif kind[0] in ("rec", "recs"):
            holds, shape = described(classes, kind[1]), kind[2:]
        else:
            holds, shape = CODES[kind[1]], kind[2:]
        out.append([name, at, [holds, shape]])
        at += size(classes, kind)
    return out


def alike(a, b):
    return a == b or (a != a and b != b)


def check(env, case):
    model = Model(case)
    raw = list(model.data)
    root = f"C{len(case['classes']) - 1}"
    text = source(case)
    layout = described(case["classes"], len(case["classes"]) - 1)
    layout.append(["", model.size, ""])
    count = len(case["statements"])
    want = [model.run(case["statements"], *c) for c in case["calls"]]
    got = env.values("record_use", source=text, root=root, raw=raw, count=count, calls=case["calls"], tuples=None)
    for m, (places, outs, after) in got.items():
        env.require(places == layout, f"[{m}] the fields of {case['classes']} are {places}, not {layout}")
        for call, (ints, floats), (wi, wf) in zip(case["calls"], outs, want):
            env.compared += len(wi) + len(wf)
            for g, w in [*zip(ints, wi), *zip(floats, wf)]:
                if not alike(g, w):
                    raise Violation(f"[{m}] call {call} reads {ints} {floats} instead of {wi} {wf}:\n{text}")
        if after != list(model.data):
            n = next(n for n, (a, b) in enumerate(zip(after, model.data)) if a != b)
            raise Violation(f"[{m}] byte {n % model.size} of record {n // model.size} is {after[n]}, not {model.data[n]}, after\n{text}")
    for s in case["statements"]:
        env.label(s[0])
    env.label("boxed" if case["boxed"] else "plain", f"classes-{len(case['classes'])}")
    return any(len(p) > 3 for s in case["statements"] for p in s[1:2] if isinstance(p, list))
