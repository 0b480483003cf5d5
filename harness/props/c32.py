"""Execution mode selection and compile decorators are transparent."""

import json
import os
import subprocess

from hypothesis import strategies as st

import core
import refs
from core import Violation, worker_env
from strats import word

EXAMPLES = (150, 4000)
SHARDS = (7, 8)
RULE = (
    "new processes with NPP_USE_NUMBA unset or set to generated values, numba present or hidden (mode, warning and generator "
    "outputs); generated functions decorated in every call form (bare, empty, signature as type, keyword or text, options, "
    "locals), also calling each other or depending on their options (declared unsigned locals, bounds checks), and generated classes decorated in every form (bare, empty, spec positional, by keyword or "
    "with the class, annotations), against the same source run undecorated; non-trivial: every case"
)
ASSUMPTIONS = [
    "numba counts as available when Python can find a module of that name",
    "generated code stays within 64-bit integers; unsigned types appear only where plain Python and numba agree on arithmetic",
    "specs are dictionaries",
]
FORMS = ["bare", "bare-options", "empty", "signature", "signature-keyword", "text", "function-keyword"]
CLASS_FORMS = ["bare", "empty", "positional", "keyword", "class-and-spec", "class-keyword"]


# --------------------------------------------------------------------------- generated code
@st.composite
def expr(draw, names, depth=3):
    if depth == 0 or draw(st.integers(0, 3)) == 0:
        return draw(st.one_of(st.sampled_from(names), st.sampled_from(names), st.integers(0, 50).map(str)))
    a, b = draw(expr(names, depth - 1)), draw(expr(names, depth - 1))
    how = draw(st.sampled_from(["+", "-", "*", "%", "//", "&", "|", "^", "if"]))
    if how == "*":
        return f"(({a}) * ({b}) % 10007)"
    if how in ("%", "//"):
        return f"(({a}) {how} {draw(st.integers(1, 97))})"
    if how == "if":
        return f"(({a}) if ({a}) < ({b}) else ({b}))"
    return f"(({a}) {how} ({b}))"


@st.composite
def body(draw, names, result):
    lines = [f"t = {draw(expr(names))}"]
    inner = names + ["t"]
    if draw(st.booleans()):
        lines += [f"for i in range({draw(st.integers(0, 5))}):", f"    t = ({draw(expr(inner + ['i']))}) % 9973"]
    if draw(st.booleans()):
        lines += [f"if ({draw(expr(inner, 1))}) < ({draw(expr(inner, 1))}):", f"    t = {draw(expr(inner, 2))}"]
    return lines + [f"return (t) % {result}"]


RESULT = {"u8": 251, "u16": 65521, "u32": 9999991, "u64": 9999991, "i32": 9999991, "i64": 9999991, "f64": 9999991}


@st.composite
def njit_case(draw):
    n = draw(st.integers(1, 3))
    names = ["a", "b", "c"][:n]
    out = draw(st.sampled_from(list(RESULT)))
    form = draw(st.sampled_from(FORMS))
    source = [f"def f({', '.join(names)}):"] + ["    " + x for x in draw(body(names, RESULT[out]))]
    return {
        "kind": "njit",
        "source": "\n".join(source) + "\n",
        "form": form,
        "kinds": [out] + [draw(st.sampled_from(["i64", "i64", "i32"])) for _ in names],
        "option": draw(st.sampled_from([None, "nogil", "boundscheck", "inline", "error"])),
        "local": draw(st.sampled_from([None, None, "i64"])),
        "calls": draw(st.lists(st.lists(st.integers(-1000, 1000), min_size=n, max_size=n), min_size=1, max_size=5)),
    }


@st.composite
def chain_case(draw):
    names = ["g", "h", "f"][-draw(st.integers(2, 3)) :]
    source = []
    for i, name in enumerate(names):
        lines = draw(body(["a", "b"], 9999991))
        if i:
            lines[0] += f" + {names[i - 1]}(b, {draw(st.sampled_from(['a', '3', 'a + b']))})"
        source += [f"def {name}(a, b):"] + ["    " + x for x in lines]
    return {
        "kind": "chain",
        "source": "\n".join(source) + "\n",
        "names": names,
        "forms": [draw(st.sampled_from(FORMS)) for _ in names],
        "kinds": ["i64", "i64", "i64"],
        "calls": draw(st.lists(st.lists(st.integers(-1000, 1000), min_size=2, max_size=2), min_size=1, max_size=4)),
    }


WITH_OPTIONS = [f for f in FORMS if f != "bare"]


@st.composite
def narrow_case(draw):
    """Declared local variables: the unsigned type of t makes compiled arithmetic wrap as numpy's does."""
    kind = draw(st.sampled_from(["u8", "u16", "u32"]))
    n = draw(st.integers(2, 3))
    names = ["a", "b", "c"][:n]
    lines = [f"t = {draw(st.sampled_from(names))} {draw(st.sampled_from('+-*'))} {draw(st.sampled_from(names))}"]
    for _ in range(draw(st.integers(0, 4))):
        lines.append(f"t = t {draw(st.sampled_from('+-*&|^'))} {draw(st.sampled_from(names))}")
    source = [f"def f({', '.join(names)}):"] + ["    " + x for x in lines] + ["    return t"]
    return {
        "kind": "narrow",
        "source": "\n".join(source) + "\n",
        "form": draw(st.sampled_from(WITH_OPTIONS)),
        "kinds": [kind] * (n + 1),
        "option": None,
        "local": kind,
        "calls": draw(st.lists(st.lists(word(int(kind[1:])), min_size=n, max_size=n), min_size=1, max_size=6)),
    }


@st.composite
def bounds_case(draw):
    """Bounds checks asked for: an index outside the array raises as it does in plain Python."""
    size = draw(st.integers(1, 6))
    source = f"def f(a, b):\n    v = np.arange({size})\n    t = v[a] * 5 + b\n    return t\n"
    return {
        "kind": "bounds",
        "source": source,
        "form": draw(st.sampled_from(WITH_OPTIONS)),
        "kinds": ["i64", "i64", "i64"],
        "option": "boundscheck",
        "local": None,
        "calls": draw(st.lists(st.tuples(st.integers(-9, 9), st.integers(0, 9)).map(list), min_size=1, max_size=6)),
    }


FIELDS = [["x", "i64"], ["y", "i32"], ["v", "arr-i64"], ["w", "u32"]]


@st.composite
def class_case(draw):
    names = ["self.x", "self.y", "n"]
    step = draw(body(names, 10007))
    step[-1:] = ["self.x = t % 10007", "self.v[n % 4] = self.x", "return self.x"]
    look = draw(body(["self.x", "self.y", "self.v[0]", "self.v[3]"], 10007))
    source = ["class C:", '    """Generated."""', "    def __init__(self, a, b):"]
    source += ["        self.x = a", "        self.y = b", "        self.w = a + b", "        self.v = np.zeros(4, np.int64)", "        self.v[b % 4] = a"]
    source += ["    def step(self, n):"] + ["        " + x for x in step]
    source += ["    def look(self):"] + ["        " + x for x in look]
    source += ["    def total(self):", "        t = 0", "        for e in self.v:", "            t += e", "        return t + self.w % 7"]
    source += ["    def both(self, n):", "        return self.step(n) * 3 + self.look()"]
    form = draw(st.sampled_from(CLASS_FORMS))
    with_spec = form in ("positional", "keyword", "class-and-spec")
    given = [f for f in FIELDS if with_spec and draw(st.integers(0, 3))]
    annotated = [f for f in FIELDS if f not in given or draw(st.integers(0, 3)) == 0]
    small = st.integers(0, 1000)
    call = st.one_of(
        st.tuples(st.just("step"), st.tuples(small)),
        st.tuples(st.just("both"), st.tuples(small)),
        st.tuples(st.sampled_from(["look", "total"]), st.just(())),
    )
    obj = st.tuples(st.tuples(small, small), st.lists(call, min_size=1, max_size=8))
    return {
        "kind": "class",
        "source": "\n".join(source) + "\n",
        "form": form,
        "annotated": annotated,
        "spec": given,
        "objects": draw(st.lists(obj, min_size=1, max_size=3)),
        "twice": draw(st.booleans()),
    }


VALUES = [None, "TRUE", "FALSE", "", "true", "True", "1", "0", "false", "YES", "ON", "TRUE ", " TRUE", "TRUETRUE", "numba"]


def process_case():
    text = st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=126), max_size=6)
    return st.fixed_dictionaries(
        {
            "kind": st.just("process"),
            "value": st.one_of(st.sampled_from(VALUES), text),
            "hidden": st.booleans(),
            "seed": word(32),
        }
    )


def strategy(tier):
    return st.one_of(*[njit_case()] * 4, *[chain_case()] * 2, *[class_case()] * 4, narrow_case(), narrow_case(), bounds_case(), process_case())


SIMPLE = "def f(a, b):\n    t = a * 3 + b\n    return t\n"
SIMPLE_CLASS = (
    "class C:\n    def __init__(self, a, b):\n        self.x = a\n        self.y = b\n        self.w = a\n"
    "        self.v = np.zeros(4, np.int64)\n    def step(self, n):\n        self.x = self.x * n + self.y\n        return self.x\n"
)


def fixed_cases(tier):
    for value in VALUES:
        for hidden in (False, True):
            yield {"kind": "process", "value": value, "hidden": hidden, "seed": 12345}
    for form in FORMS:
        for option, local in ((None, None), ("nogil", None), (None, "i64")):
            yield {
                "kind": "njit",
                "source": SIMPLE,
                "form": form,
                "kinds": ["i64", "i64", "i64"],
                "option": option,
                "local": local,
                "calls": [[1, 2], [5, -3]],
            }
    for form in WITH_OPTIONS:
        yield {
            "kind": "narrow",
            "source": "def f(a, b):\n    t = a + b\n    t = t * a\n    return t\n",
            "form": form,
            "kinds": ["u8", "u8", "u8"],
            "option": None,
            "local": "u8",
            "calls": [[1, 2], [200, 100], [255, 255]],
        }
        yield {
            "kind": "bounds",
            "source": "def f(a, b):\n    v = np.arange(4)\n    t = v[a] * 5 + b\n    return t\n",
            "form": form,
            "kinds": ["i64", "i64", "i64"],
            "option": "boundscheck",
            "local": None,
            "calls": [[1, 2], [4, 1], [-4, 1], [-5, 1]],
        }
    for form in CLASS_FORMS:
        split = [([], FIELDS), (FIELDS[:2], FIELDS[2:])] if form in ("positional", "keyword", "class-and-spec") else [(FIELDS, [])]
        for annotated, given in split:
            yield {
                "kind": "class",
                "source": SIMPLE_CLASS,
                "form": form,
                "annotated": annotated,
                "spec": given,
                "objects": [[[3, 4], [["step", [5]], ["step", [6]]]]],
                "twice": False,
            }


# --------------------------------------------------------------------------- oracle
def run_plain(source, name):
    import numpy as np

    space = {"np": np}
    exec(compile(source, "<generated>", "exec"), space)  # pylint: disable=exec-used
    return space[name]


def check_process(env, case):
    value, hidden, seed = case["value"], case["hidden"], case["seed"]
    e = worker_env(env.tmp, "numba")
    if value is None:
        del e["NPP_USE_NUMBA"]
    else:
        e["NPP_USE_NUMBA"] = value
    child = os.path.join(core.HERE, "mode_child.py")
    argv = [core.PY, child, "hidden" if hidden else "present", str(seed)]
    where = f"NPP_USE_NUMBA {'unset' if value is None else repr(value)}, numba {'not available' if hidden else 'available'}"
    try:
        p = subprocess.run(argv, env=e, cwd=env.tmp, capture_output=True, timeout=150, check=False)
    except subprocess.TimeoutExpired as x:
        raise Violation(f"no answer: {where}") from x
    if p.returncode != 0:
        raise Violation(f"{where}: importing and running fails: {p.stderr.decode('utf-8', 'replace')[-700:]}")
    got = json.loads(p.stdout)
    asked = value in (None, "TRUE")
    compiled = asked and not hidden
    for what, c in {**got["compiled"], **got["functions"]}.items():
        env.require(c == compiled, f"{where}: {what} {'runs' if c else 'does not run'} compiled")
    env.require(
        bool(got["warned"]) == (asked and hidden), f"{where}: {'warning ' + str(got['warned']) if got['warned'] else 'no warning'}"
    )
    for name, out in got["outputs"].items():
        model = refs.make(name, [seed, 1, 2, 3] if name == "Xorshift128" else [seed])
        env.expect({where: out}, [model.next() for _ in out], f"outputs of {name}")
    env.require(got["swap"] == refs.bswap32(seed), f"{where}: byte swap of {seed} is {got['swap']}")
    env.label("compiled" if compiled else "numpy-only", "warned" if got["warned"] else "silent")


def check(env, case):
    kind = case["kind"]
    env.label(f"kind-{kind}")
    if kind == "process":
        check_process(env, case)
        return True
    if kind == "class":
        cls = run_plain(case["source"], "C")
        want = []
        for args, calls in case["objects"]:
            obj = cls(*args)
            want.append([int(getattr(obj, name)(*margs)) for name, margs in calls])
        args = {k: case[k] for k in ("source", "form", "annotated", "spec", "objects", "twice")}
        got = env.values("jitclass_forms", **args)
        env.label(f"class-{case['form']}")
    elif kind == "chain":
        space = {}
        exec(compile(case["source"], "<generated>", "exec"), space)  # pylint: disable=exec-used
        want = [space[case["names"][-1]](*c) for c in case["calls"]]
        got = env.values("njit_calls", **{k: case[k] for k in ("source", "names", "forms", "kinds", "calls")})
    else:
        f = run_plain(case["source"], "f")
        want = []
        for c in case["calls"]:
            try:
                want.append(int(f(*c)))
            except IndexError:
                want.append("IndexError")
        if kind == "narrow":
            # each operation is a ring or bitwise one, so reducing the last result is enough
            want = [v & ((1 << int(case["local"][1:])) - 1) for v in want]
        args = {k: case[k] for k in ("source", "form", "kinds", "option", "local", "calls")}
        got = env.values("njit_forms", passed="typed" if kind == "narrow" else "int", **args)
        env.label(f"form-{case['form']}")
    env.expect(got, want, f"{kind} decorated as {case.get('form', case.get('forms'))}")
    return True
