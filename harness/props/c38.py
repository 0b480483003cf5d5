"""Declared types mean the same in both modes."""

import numpy
from hypothesis import strategies as st

import typedprog
from core import Violation, diff
from strats import word

EXAMPLES = (96, 4000)
SHARDS = (8, 8)
RULE = (
    "one or two generated classes with fields declared (by annotation, in a spec, or mixed) as scalars given as numpy types, "
    "dtypes or the package's names, text, tuples, arrays of one to three dimensions of every layout, read-only or not, and "
    "objects of another class; functions with declared arguments, results (also none) and locals of those types; dictionaries "
    "keyed and filled with them; objects made, read, written and shared; every result and every array left compared with the "
    "same program run undecorated; non-trivial: an array, tuple, text or object is involved"
)
ASSUMPTIONS = ["arguments are values of the declared type", "floats are numbers"]
INTS = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64)}
OWN = {"u8": "U8", "u16": "U16", "u32": "U32", "u64": "U64", "f32": "F32", "bool": "BOOL8"}
NUMPY = {k: f"np.{t.__name__}" for k, t in typedprog.KINDS.items()} | {"bool": "np.bool_"}
KINDS = list(typedprog.KINDS)
I64 = ["sc", "i64", "np"]


def kind():
    return st.sampled_from(KINDS)


def scalar_type():
    return st.tuples(st.just("sc"), kind(), st.sampled_from(["np", "np", "own", "dt"])).map(list)


def array_type():
    shape = st.tuples(st.integers(1, 3), st.sampled_from("CCCFA"))
    return st.tuples(st.just("arr"), kind(), shape, st.integers(0, 2)).map(
        lambda t: ["arr", t[1], t[2][0], "C" if t[2] == (1, "F") else t[2][1], t[3] == 0]
    )


def tuple_type():
    return st.tuples(st.just("tuple"), kind(), st.integers(1, 4)).map(list)


def any_type(classes):
    return st.one_of(
        scalar_type(), array_type(), array_type(), tuple_type(), st.just(["str"]), *([st.tuples(st.just("obj"), st.integers(0, classes - 1)).map(list)] if classes else [])
    )


def type_text(t):
    if t[0] == "sc":
        return {"np": NUMPY[t[1]], "own": OWN.get(t[1], NUMPY[t[1]]), "dt": f"np.dtype({NUMPY[t[1]]})"}[t[2]]
    if t[0] == "str":
        return "np.str_"
    if t[0] == "tuple":
        return f"unituple_type({NUMPY[t[1]]}, {t[2]})"
    if t[0] == "obj":
        return f"K{t[1]}"
    _, k, ndim, layout, readonly = t
    more = "".join([f", {ndim}" if ndim > 1 else "", f', layout="{layout}"' if layout != "C" else "", ", readonly=True" if readonly else ""])
    return f"array_type({NUMPY[k]}{more})"


def number(k):
    if k == "bool":
        return st.integers(0, 1)
    if k[0] == "f":
        return st.floats(width=int(k[1:]), allow_nan=False)
    signed, bits = INTS[k]
    return st.one_of(st.integers(-(1 << bits - 1), (1 << bits - 1) - 1), st.integers(-3, 3)) if signed else word(bits)


class Build:
    def __init__(self, draw):
        self.draw, self.values, self.made, self.classes, self.ops, self.objects = draw, [], [], [], [], []

    def argument(self, t):
        """The number of a value of a type (sometimes one already used), or ["obj", n]."""
        draw = self.draw
        if t[0] == "obj":
            have = [n for n, c in enumerate(self.objects) if c == t[1]]
            if have and draw(st.booleans()):
                return ["obj", draw(st.sampled_from(have))]
            return self.new(t[1])
        same = [n for n, other in enumerate(self.made) if other == t[:2] + t[2:4] * (t[0] != "sc")]
        if same and draw(st.integers(0, 2)) == 0:
            return draw(st.sampled_from(same))
        if t[0] == "sc":
            v = [t[1], draw(number(t[1]))]
        elif t[0] == "str":
            v = ["str", draw(st.text(max_size=5))]
        elif t[0] == "tuple":
            v = ["tuple", t[1], draw(st.lists(number(t[1]), min_size=t[2], max_size=t[2]))]
        else:
            shape = draw(st.lists(st.integers(2, 3), min_size=t[2], max_size=t[2]))
            size = int(numpy.prod(shape))
            pool = draw(st.lists(number(t[1]), min_size=3, max_size=9))
            layout = t[3] if t[3] != "A" else draw(st.sampled_from("AAC"))
            v = ["arr", t[1], shape, [pool[(7 * n + n // 5) % len(pool)] for n in range(size)], layout, t[4] and draw(st.booleans())]
        self.values.append(v)
        readonly = t[0] == "arr" and v[5]
        self.made.append(None if readonly else t[:2] + t[2:4] * (t[0] != "sc"))
        return len(self.values) - 1

    def new(self, c):
        args = [self.argument(t) for _, t in self.classes[c]]
        self.objects.append(c)
        self.ops.append(["new", f"K{c}", args])
        return ["obj", len(self.objects) - 1]

    def index(self, ndim):
        return ", ".join(str(self.draw(st.sampled_from([0, 1, -1, -2]))) for _ in range(ndim))

    def reads(self, text, t):
        """[(expression, its type)]"""
        if t[0] == "sc":
            return [(text, t)]
        if t[0] == "str":
            return [(text, t), (f"len({text})", I64)]
        if t[0] == "tuple":
            n = self.draw(st.integers(-t[2], t[2] - 1))
            return [(text, t), (f"{text}[{n}]", ["sc", t[1], "np"])]
        if t[0] == "arr":
            element = (f"{text}[{self.index(t[2])}]", ["sc", t[1], "np"])
            return [element, element, (text, t), (f"{text}.shape[{t[2] - 1}]", I64), (f"{text}.size", I64)]
        return [r for name, u in self.classes[t[1]] for r in self.reads(f"{text}.{name}", u)]

    def writes(self, text, t):
        """[(target, type of what may be assigned)]"""
        if t[0] == "arr" and not t[4]:
            element = (f"{text}[{self.index(t[2])}]", ["sc", t[1], "np"])
            return [element, element] + ([(text, t)] if "." in text else [])
        inner = [w for name, u in self.classes[t[1]] for w in self.writes(f"{text}.{name}", u)] if t[0] == "obj" else []
        return inner + ([(text, t)] if "." in text else [])


@st.composite
def case(draw):
    b = Build(draw)
    source, methods = [], []
    for c in range(draw(st.integers(1, 2))):
        names = [f"f{n}" for n in range(draw(st.integers(1, 4)))]
        fields = [[n, draw(any_type(c))] for n in names]
        if c and draw(st.booleans()):
            fields[0][1] = ["obj", 0]
        b.classes.append(fields)
        form = draw(st.sampled_from(["annotations", "annotations", "spec", "mixed"]))
        spec = [f for f in fields if form == "spec" or (form == "mixed" and draw(st.booleans()))]
        text = ", ".join(f'"{n}": {type_text(t)}' for n, t in spec)
        source += [f"@optional_jitclass({{{text}}})" if spec else "@optional_jitclass", f"class K{c}:"]
        source += [f"    {n}: {type_text(t)}" for n, t in fields if [n, t] not in spec]
        source += [f"    def __init__(self, {', '.join('a' + n for n in names)}):"] + [f"        self.{n} = a{n}" for n in names]
        for m in range(draw(st.integers(1, 3))):
            field, t = draw(st.sampled_from(fields))
            writes = b.writes(f"self.{field}", t)
            if writes and draw(st.booleans()):
                target, u = draw(st.sampled_from(writes))
                source += [f"    def m{m}(self, v):", f"        {target} = v"]
                methods.append((c, f"m{m}", [u]))
            else:
                text, _ = draw(st.sampled_from(b.reads(f"self.{field}", t)))
                source += [f"    def m{m}(self):", f"        return {text}"]
                methods.append((c, f"m{m}", []))
        source += ["    def all(self):"]
        source += [f"        r{n} = {draw(st.sampled_from(b.reads(f'self.{f}', t)))[0]}" for n, (f, t) in enumerate(fields)]
        source += [f"        return ({', '.join('r' + str(n) for n in range(len(fields)))},)"]
        methods.append((c, "all", []))
    functions = []
    for n in range(draw(st.integers(1, 3))):
        types = draw(st.lists(any_type(len(b.classes)), min_size=1, max_size=3))
        names = [f"p{i}" for i in range(len(types))]
        writes = [w for p, t in zip(names, types) for w in b.writes(p, t)]
        lines, locals_ = [], ""
        if writes and draw(st.booleans()):
            target, u = draw(st.sampled_from(writes))
            sources = [text for p, t in zip(names, types) for text, v in b.reads(p, t) if v[:2] == u[:2] and v[2:] == u[2:]]
            if not sources or u[0] == "obj":
                types, names = types + [u], names + ["w"]
                sources = ["w"]
            lines = [f"{target} = {draw(st.sampled_from(sources))}"]
            result = "np.void"
        else:
            text, r = draw(st.sampled_from([x for p, t in zip(names, types) for x in b.reads(p, t)]))
            result = type_text(r)
            if r[0] == "sc" and draw(st.booleans()):
                count = draw(st.integers(1, 3))
                text, result = f"({', '.join([text] * count)},)", f"unituple_type({NUMPY[r[1]]}, {count})"
            if draw(st.booleans()):
                locals_ = f', locals={{"x": {result}}}'
            lines = [f"x = {text}", "return x"]
        head = f"@optional_njit(return_type({result}, ({', '.join(map(type_text, types))},)){locals_})"
        source += [head, f"def g{n}({', '.join(names)}):"] + ["    " + x for x in lines]
        functions.append((f"g{n}", types))
    for c in range(len(b.classes)):
        b.new(c)
    for _ in range(draw(st.integers(3, 14))):
        what = draw(st.sampled_from(["method", "method", "function", "new", "all"]))
        if what == "function":
            name, types = draw(st.sampled_from(functions))
            b.ops.append(["func", name, [b.argument(t) for t in types]])
        elif what == "new":
            b.new(draw(st.integers(0, len(b.classes) - 1)))
        else:
            n = draw(st.integers(0, len(b.objects) - 1))
            own = [m for m in methods if m[0] == b.objects[n] and (what == "method" or m[1] == "all")]
            _, name, types = draw(st.sampled_from(own))
            b.ops.append(["call", n, name, [b.argument(t) for t in types]])
    if draw(st.integers(0, 2)) == 0:
        ints = st.tuples(st.just("sc"), st.sampled_from(list(INTS)), st.sampled_from(["np", "own", "dt"])).map(list)
        k = draw(st.one_of(ints, ints, st.just(["str"]), st.tuples(st.just("tuple"), st.sampled_from(list(INTS)), st.integers(1, 3)).map(list)))
        v = draw(any_type(0))
        pairs = [[b.argument(k), b.argument(v)] for _ in range(draw(st.integers(1, 5)))]
        b.ops.append(["dict", f"TypedDict(key_type={type_text(k)}, value_type={type_text(v)})", pairs])
    for n in range(len(b.objects)):
        b.ops.append(["call", n, "all", []])
    return {"source": "\n".join(source) + "\n", "values": b.values, "ops": b.ops}


def strategy(tier):
    return case()


def fixed_cases(tier):
    # every kind in every declared form: one class of all of them, and one function each
    fields = [["sc", k, how] for k in KINDS for how in ("np", "own", "dt")]
    source = ["@optional_jitclass", "class K0:"] + [f"    f{n}: {type_text(t)}" for n, t in enumerate(fields)]
    names = [f"a{n}" for n in range(len(fields))]
    source += [f"    def __init__(self, {', '.join(names)}):"] + [f"        self.f{n} = a{n}" for n in range(len(fields))]
    source += ["    def all(self):", f"        return ({', '.join(f'self.f{n}' for n in range(len(fields)))})"]
    values = [[t[1], 1 if t[1] == "bool" else 1.5 if t[1][0] == "f" else (1 << INTS[t[1]][1] - INTS[t[1]][0]) - 1 - n] for n, t in enumerate(fields)]
    yield {"source": "\n".join(source) + "\n", "values": values, "ops": [["new", "K0", list(range(len(values)))], ["call", 0, "all", []]]}


def check(env, case):
    same = lambda x=None, *_, **__: x if isinstance(x, type) else lambda f: f
    space = {
        "optional_jitclass": same,
        "optional_njit": lambda *_, **__: lambda f: f,
        **{k: lambda *_, **__: None for k in ("array_type", "unituple_type", "return_type")},
        "TypedDict": lambda **_: {},
        **{k: k for k in OWN.values()},
    }
    want = typedprog.run(space, case["source"], case["values"], case["ops"])
    got = env.values("typed_program", **case)
    for m, g in got.items():
        env.compared += len(want[0])
        if g != want:
            raise Violation(f"[{m}] {diff(g, want)}:\n{case['source']}{case['ops']}")
    for w in ("array_type", "unituple_type", "np.str_", "np.void", "TypedDict", "readonly", "layout", "locals", "{"):
        if w in case["source"] or w in str(case["ops"]):
            env.label(f"with-{w}")
    for c in ("K0", "K1"):
        if f": {c}" in case["source"]:
            env.label("object-field")
    return any(w in case["source"] for w in ("array_type", "unituple_type", "np.str_", ": K0", "(K0"))
