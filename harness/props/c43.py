"""Used inside a caller's compiled function, everything gives what it gives from outside."""

from hypothesis import strategies as st

import gen3model
import genhist
import gensha
import refs
from core import Violation, short
from props import c20
from strats import maxima, word

EXAMPLES = (300, 9000)
SHARDS = (8, 8)
PARTED = True
RULE = (
    "generated source of a caller's function (and of helpers it calls) that constructs generators, lists of outputs, states, wild "
    "generators and Gen 5 messages or is given them, calls their methods, functions made for constants and the package's helpers "
    "in sequence, in loops and in branches, with arguments that are literals, literals of a numpy type, parameters, constants of "
    "the module, elements of an array or computed from the loop; compiled with generated numba options and settings, run as plain "
    "Python in the other mode; what it stores, and what given objects yield afterwards, compared with the reference models; "
    "non-trivial: at least three results stored"
)
ASSUMPTIONS = [
    "a literal or parameter of 2**63 or more is of an unsigned type, as numba requires",
    "the caller's function is compiled without fastmath, parallel or object mode",
]
# settings numba reads from the environment; one per shard
SETTINGS = [
    {},
    {"NUMBA_OPT": "0"},
    {"NUMBA_BOUNDSCHECK": "1"},
    {"NUMBA_OPT": "1", "NUMBA_SLP_VECTORIZE": "1"},
    {"NUMBA_CPU_NAME": "generic", "NUMBA_CPU_FEATURES": ""},
    {"NUMBA_DISABLE_JIT": "1"},
    {"NUMBA_BOUNDSCHECK": "1"},
    {"NUMBA_OPT": "2"},
]
HERE = {"setting": 0, "kinds": ["program"], "heavy": True}
KINDS_OF = {5: ["program", "program", "wild", "sha"], 6: ["wild", "wild", "program"], 7: ["sha", "sha", "program"]}
OPTIONS = [{}, {}, {"inline": "always"}, {"boundscheck": True}, {"nogil": True}, {"error_model": "numpy"}, {"no_cfunc_wrapper": True}]
NAMES = list(refs.LCRNGS) + list(genhist.SIG)[2:] * 2
LISTS = [
    ("PokeRNGMod", "next_u16", "u16"),
    ("PokeRNGRDiv", "next", "u32"),
    ("BWRNG", "next_u32", "u32"),
    ("MersenneTwister", "next", "u32"),
    ("Xorshift128", "next", "u32"),
    ("TinyMersenneTwister", "next", "u32"),
]
FORMS = ["lit", "np", "par", "int", "glob", "cell", "loop"]
FUNCTIONS = {
    "change_endian_u32": ("util", ["u32"]),
    "rotate_left_u32": ("util", ["u32", "c32"]),
    "rotate_right_u32": ("util", ["u32", "c32"]),
    "rotate_left_u64": ("util", ["u64", "c64"]),
    "rotate_right_u64": ("util", ["u64", "c64"]),
    "compute_stat": ("util", ["stat", "nature", "index"]),
    "get_gender": ("gen3.util", ["u32", "u8"]),
    "get_shiny": ("gen3.util", ["u32", "u16"]),
    "unown_check": ("gen3.util", ["u32", "u8"]),
    "hex_32": ("util", ["u32"]),
    "fnv1_64": ("fnv", ["text"]),
    "fnv1a_64": ("fnv", ["text"]),
}
NP = {"u8": "uint8", "u16": "uint16", "u32": "uint32", "u64": "uint64", "i32": "int32"}
TYPE_OF = {"c32": "u8", "c64": "u8", "stat": "u16", "nature": "u8", "index": "u8"}
M64 = (1 << 64) - 1


def begin(env):
    HERE["setting"] = env.shard % len(SETTINGS)
    HERE["kinds"] = KINDS_OF.get(HERE["setting"], ["program"])


# --------------------------------------------------------------------------- generation
def form():
    return st.sampled_from(FORMS)


@st.composite
def number(draw, kind):
    if kind in genhist.WIDTH:
        return draw(word(genhist.WIDTH[kind]))
    if kind in ("c32", "c64"):
        top = int(kind[1:])
        return draw(st.one_of(st.sampled_from([0, top]), st.integers(0, top)))
    if kind == "stat":
        return draw(st.integers(0, 1000))
    if kind == "nature":
        return draw(st.integers(0, 24))
    if kind == "index":
        return draw(st.integers(1, 5))
    return draw(st.text(st.sampled_from("aZ09 _-é\U0001F600\u30dd"), max_size=9))


@st.composite
def call_of(draw, spec):
    """A method of a generator with its arguments."""
    if isinstance(spec, dict):
        name = draw(st.sampled_from(["get_value", "get_value", "get_value", "advance_state", "advance_states", "advance", "re_init"]))
        return name, [draw(st.integers(0, 40))] if name.startswith("adv") and name != "advance_state" else []
    fam = genhist.family(spec)
    sig = genhist.SIG[fam]
    name = draw(st.sampled_from([n for n in sig if n != "init"] + ["next"]))
    if name == "next_randrange":
        lo = draw(st.integers(-70000, 70000))
        return name, [lo, lo + draw(st.integers(1, 1 << 20))]
    if name == "advance":
        # one step at a time
        return name, [draw(st.one_of(st.integers(0, 4), st.integers(0, 700)))]
    return name, [draw(maxima(genhist.WIDTH[k]) if "rand" in name else word(genhist.WIDTH[k])) for k in sig[name]]


@st.composite
def statement(draw, objs, depth=0):
    k = draw(st.integers(0, 11))
    if k <= 5:
        which = draw(st.integers(0, len(objs) - 1))
        name, args = draw(call_of(objs[which][0]))
        heavy = name in ("re_init", "advance", "jump") or len(args) > 2
        times = 1 if heavy else draw(st.one_of(st.just(1), st.integers(1, 12), st.integers(1, 30)))
        return ["call", which, name, args, [draw(form()) for _ in args], times, draw(st.booleans())]
    if k <= 7:
        name = draw(st.sampled_from(sorted(FUNCTIONS)))
        args = [draw(number(kind)) for kind in FUNCTIONS[name][1]]
        return ["fn", name, args, [draw(form()) for _ in args], draw(st.booleans())]
    if k == 8:
        lc = [i for i, o in enumerate(objs) if isinstance(o[0], str) and genhist.family(o[0]).startswith("LC")]
        if lc:
            which = draw(st.sampled_from(lc))
            wide = genhist.family(objs[which][0]) == "LC64"
            if draw(st.booleans()):
                return ["const", which, "const_jump", draw(word(64 if wide else 32)), draw(st.booleans())]
            return ["const", which, "const_rand", draw(maxima(32 if wide else 16)), draw(st.booleans())]
    if k == 9 and depth < 2:
        inner = draw(st.lists(statement(objs, depth + 1), min_size=1, max_size=3))
        return ["if", draw(st.booleans()), inner]
    if k == 10:
        item = draw(c20.state())
        if len(item["info"]) == 2:
            return ["state", item]
    name, args = "change_endian_u32", [draw(word(32))]
    return ["fn", name, args, [draw(form())], False]


@st.composite
def an_object(draw):
    where = draw(st.sampled_from(["inside", "inside", "given", "helper"]))
    if draw(st.integers(0, 7)) == 0:
        cls, fn, dtype = draw(st.sampled_from(LISTS))
        spec = {"rnglist": cls, "fn": fn, "dtype": dtype, "size": draw(st.sampled_from([1, 2, 8, 32]))}
        where = "inside"
    else:
        spec = cls = draw(st.sampled_from(NAMES))
    args = draw(genhist.seed_args(cls))
    return [spec, args, [draw(st.sampled_from(FORMS[:-1])) for _ in args], where]


@st.composite
def program(draw):
    objs = draw(st.lists(an_object(), min_size=1, max_size=3))
    stmts = draw(st.lists(statement(objs), min_size=2, max_size=10))
    return {
        "kind": "program",
        "objs": objs,
        "stmts": stmts,
        "options": draw(st.sampled_from(OPTIONS)),
        "helper_options": draw(st.sampled_from(OPTIONS)),
    }


@st.composite
def wild(draw):
    gen = draw(gen3model.generator())
    area = draw(gen3model.area(gen["game"], gen["encounter"]))
    seeds = draw(st.lists(word(32), min_size=1, max_size=3))
    return {
        "kind": "wild",
        "gen": gen,
        "area": area,
        "seeds": seeds,
        "window": [draw(st.one_of(st.just(0), word(32))), draw(st.one_of(st.integers(0, 5), word(32))), draw(st.integers(1, 30))],
        "forms": [draw(st.sampled_from(FORMS[:-1])) for _ in range(5)],
        "inside": draw(st.booleans()),
        "options": draw(st.sampled_from(OPTIONS)),
    }


@st.composite
def sha(draw):
    console = draw(gensha.console())
    ops = []
    for name in ("set_timer0", "set_date", "set_time", "set_button"):
        args = draw(gensha.SETTINGS[name])
        ops.append([name, args, [draw(st.sampled_from(FORMS[:-1])) for _ in args]])
    return {
        "kind": "sha",
        "console": console,
        "forms": [draw(st.sampled_from(FORMS[:-1])) for _ in range(3)],
        "ops": draw(st.permutations(ops)),
        "buttons": draw(st.lists(st.sampled_from(gensha.BUTTONS), max_size=3)),
        "seconds": draw(st.integers(1, 8)),
        "options": draw(st.sampled_from(OPTIONS)),
    }


def strategy(tier):
    kinds = {"program": program(), "wild": wild(), "sha": sha()}
    return st.fixed_dictionaries(
        {"setting": st.just(HERE["setting"]), "body": st.one_of([kinds[k] for k in HERE["kinds"]])}
    )


def plain(*stmts, objs=(), options=None):
    return {
        "kind": "program",
        "objs": [list(o) for o in objs] or [["PokeRNGMod", [1], ["lit"], "inside"]],
        "stmts": [list(s) for s in stmts],
        "options": options or {},
        "helper_options": {},
    }


def fixed_cases(tier):
    setting = HERE["setting"]
    for forms in (["lit", "lit"], ["np", "glob"]):
        rows = []
        for name, (_, kinds) in sorted(FUNCTIONS.items()):
            if kinds[-1] in ("c32", "c64"):
                width = int(kinds[-1][1:])
                for count in (0, 1, width - 1, width):
                    rows.append(["fn", name, [0x9E3779B97F4A7C15 & ((1 << width) - 1), count], forms, False])
            elif kinds == ["text"]:
                rows.append(["fn", name, ["abc"], forms[:1], False])
        yield {"setting": setting, "body": plain(*rows)}
    if "program" in HERE["kinds"] and setting < 5:
        # every method of every class at least once, spread over the shards
        for i, spec in enumerate(list(refs.LCRNGS) + list(genhist.SIG)[2:]):
            if i % 5 != setting:
                continue
            sig = genhist.sig(spec, "init")
            obj = [spec, [0x12345678 + j for j in range(len(sig))], [FORMS[(i + j) % 5] for j in range(len(sig))], "inside"]
            rows = []
            for name, kinds in genhist.SIG[genhist.family(spec)].items():
                if name != "init":
                    args = [-5, 77] if name == "next_randrange" else [100 + j for j in range(len(kinds))]
                    rows.append(["call", 0, name, args, ["lit"] * len(args), 3 if "rand" in name or not args else 1, False])
                    rows.append(["call", 0, "next", [], [], 2, False])
            if spec in refs.LCRNGS:
                for inline in (False, True):
                    rows.append(["const", 0, "const_jump", 1000 + inline, inline])
                    rows.append(["const", 0, "const_rand", 25 + inline, inline])
            yield {"setting": setting, "body": plain(*rows, objs=[obj])}
    if setting in (5, 7):
        yield {
            "setting": setting,
            "body": {
                "kind": "sha",
                "console": ["BLACK2", "ENGLISH", "DSI", 0x9BF123456, False, 6, 6],
                "forms": ["np", "lit", "lit"],
                "ops": [
                    ["set_timer0", [0x1102, 0x5F], ["lit", "lit"]],
                    ["set_date", [2011, 2, 28, 1], ["lit"] * 4],
                    ["set_time", [23, 59, 10], ["lit"] * 3],
                    ["set_button", [0xFF2F0000], ["lit"]],
                ],
                "buttons": [0xFF270000],
                "seconds": 10,
                "options": {},
            },
        }


# --------------------------------------------------------------------------- source and expectation
class Source:
    """The text of the caller's function, what it is given, and what it should store."""

    def __init__(self):
        self.lines = []
        self.params = []
        self.given = []
        self.constants = []
        self.names = {}
        self.makers = []
        self.classes = []
        self.pieces = []
        self.want = []
        self.where = []
        self.cells = {}

    def emit(self, depth, text):
        self.lines.append("    " * depth + text)

    def name(self, module, attr):
        return self.names.setdefault((module, attr), f"F{len(self.names)}")

    def cls(self, spec):
        if spec not in self.classes:
            self.classes.append(spec)
        return f"C{self.classes.index(spec)}"

    def constant(self, value):
        self.constants.append([f"K{len(self.constants)}", value])
        return self.constants[-1][0]

    def param(self, value):
        self.params.append(f"a{len(self.params)}")
        self.given.append(value)
        return self.params[-1]

    def number(self, kind, value, how):
        """An expression for the value of the annotated type."""
        if kind == "text":
            if how in ("lit", "np", "loop"):
                return repr(value)
            return self.constant(["s", value]) if how == "glob" else self.param(["s", value])
        kind = TYPE_OF.get(kind, kind)
        if how in ("lit", "loop"):
            return str(value)
        if how == "np":
            return f"np.{NP[kind]}({value})"
        if how == "glob":
            return self.constant(["int" if value & 1 and value >> 63 == 0 else kind, value])
        if how == "int":
            return self.param(["i", value])
        if how == "cell":
            cells = self.cells.setdefault(kind, [])
            cells.append(value)
            return f"cells_{kind}[{len(cells) - 1}]"
        return self.param([kind, value])

    def store(self, depth, text, at):
        self.emit(depth, f"out[{at}] = {text}")

    def request(self, options):
        for kind, cells in self.cells.items():
            self.params.append(f"cells_{kind}")
            self.given.append(["arr", [kind, cells]])
        src = f"def main({', '.join(['out'] + self.params)}):\n" + "\n".join(self.lines or ["    pass"]) + "\n"
        return {
            "names": [[alias, m, a] for (m, a), alias in self.names.items()],
            "constants": self.constants,
            "pieces": self.pieces + [["main", src, options]],
            "args": self.given,
            "length": len(self.want),
        }


def fnv_text(text):
    return refs.fnv1a(map(ord, text))


def expected_fn(name, args):
    if name == "change_endian_u32":
        return refs.bswap32(*args)
    if name.startswith("rotate"):
        width = int(name[-2:])
        return (refs.rotl if "left" in name else refs.rotr)(args[0], args[1] % width, width)
    if name == "hex_32":
        return fnv_text(f"{args[0]:08X}")
    if name in ("fnv1_64", "fnv1a_64"):
        return (refs.fnv1 if name == "fnv1_64" else refs.fnv1a)(map(ord, args[0]))
    if name == "compute_stat":
        return refs.nature_stat(*args)
    if name == "get_gender":
        return refs.gender3(*args)
    if name == "get_shiny":
        return refs.shiny3(*args)
    return int(refs.unown_letter(args[0]) == args[1])


class Program(Source):
    def __init__(self, body):
        super().__init__()
        self.body = body
        self.models = []
        self.objs = []
        self.after = []
        self.helpers = {}
        for i, (spec, args, forms, where) in enumerate(body["objs"]):
            self.construct(i, spec, args, forms, where)
        for s in body["stmts"]:
            self.statement(s, 1, True)
        for given, i in self.after_given:
            for _ in range(3):
                self.after.append([given, "next"])
        self.want_after = [self.models[i].next() for given, i in self.after_given for _ in range(3)]

    @property
    def after_given(self):
        return [(n, i) for n, i in enumerate(self.passed)]

    def construct(self, i, spec, args, forms, where):
        if i == 0:
            self.passed = []
        if isinstance(spec, dict):
            rng = refs.make(spec["rnglist"], args)
            self.models.append(refs.RNGList(rng, spec["fn"], spec["size"]))
            inner = [self.number(k, a, f) for k, a, f in zip(genhist.sig(spec["rnglist"], "init"), args, forms)]
            self.emit(1, f"o{i} = {self.cls(spec)}({self.cls(spec['rnglist'])}({', '.join(inner)}))")
            return
        self.models.append(refs.make(spec, args))
        kinds = genhist.sig(spec, "init")
        if where == "given":
            self.objs.append([spec, [[k, a] for k, a in zip(kinds, args)]])
            self.param(["obj", len(self.objs) - 1])
            self.emit(1, f"o{i} = {self.params[-1]}")
            self.passed.append(i)
            return
        texts = [self.number(k, a, f) for k, a, f in zip(kinds, args, forms)]
        made = self.cls(spec)
        if where == "helper":
            made = self.helper(f"return {made}({', '.join(f'x{n}' for n in range(len(args)))})", len(args))
        self.emit(1, f"o{i} = {made}({', '.join(texts)})")

    def helper(self, body, arity):
        if (body, arity) not in self.helpers:
            name = f"h{len(self.helpers)}"
            self.helpers[body, arity] = name
            src = f"def {name}({', '.join(f'x{n}' for n in range(arity))}):\n    {body}\n"
            self.pieces.append([name, src, self.body["helper_options"]])
        return self.helpers[body, arity]

    def result(self, live, value, where):
        """The place in `out` of the next result."""
        if live:
            self.want.append(value & M64)
        else:
            self.want.append(0)
        self.where.append(where)
        return len(self.want) - 1

    def statement(self, s, depth, live):
        getattr(self, "do_" + s[0])(depth, live, *s[1:])

    def do_if(self, depth, live, flag, inner):
        cond = self.param(["bool", flag])
        self.emit(depth, f"if {cond}:")
        for s in inner:
            self.statement(s, depth + 1, live and flag)

    def do_fn(self, depth, live, name, args, forms, through):
        module, kinds = FUNCTIONS[name]
        texts = [self.number(k, a, f) for k, a, f in zip(kinds, args, forms)]
        f = self.name(module, name)
        if through:
            f = self.helper(f"return {f}({', '.join(f'x{n}' for n in range(len(args)))})", len(args))
        call = f"{f}({', '.join(texts)})"
        if name == "hex_32":
            call = f"{self.name('fnv', 'fnv1a_64')}({call})"
        at = self.result(live, expected_fn(name, args), f"{name}({', '.join(map(str, args))}), given {forms}")
        self.store(depth, call, at)

    def do_const(self, depth, live, which, factory, value, inline):
        spec = self.body["objs"][which][0]
        alias = f"J{len(self.makers)}"
        kind = genhist.sig(spec, "jump" if factory == "const_jump" else "next_rand")[0]
        self.cls(spec)
        self.makers.append(
            [alias, self.classes.index(spec), factory, [kind, value], {"inline": "always"} if inline else {}]
        )
        got = getattr(self.models[which], factory)(value) if live else 0
        self.store(depth, f"{alias}(o{which})", self.result(live, got, f"{factory}({value}) of {spec}"))

    def do_call(self, depth, live, which, name, args, forms, times, through):
        spec = self.body["objs"][which][0]
        model = self.models[which]
        listed = isinstance(spec, dict)
        kinds = ["u32"] * len(args) if listed else genhist.sig(spec, name)
        void = name == "re_init" or (name.startswith("advance") and (listed or not isinstance(model, refs.Lcrng)))
        step = 1 if "loop" in forms and "rand" in name and times > 1 else 0
        if name == "next_randrange" or (args and max(args) + times >= 1 << min(genhist.WIDTH.get(k, 32) for k in kinds)):
            step = 0
        texts = []
        for k, a, f in zip(kinds, args, forms):
            text = self.number(k, a, f)
            texts.append(f"{text} + j" if step and f == "loop" else text)
        call = f"o{which}.{name}({', '.join(texts)})"
        if through and not listed:
            inner = ", ".join(f"x{n + 1}" for n in range(len(args)))
            h = self.helper(f"return x0.{name}({inner})", len(args) + 1)
            call = f"{h}({', '.join([f'o{which}'] + texts)})"
        first = None
        for j in range(times):
            values = [a + j if step and f == "loop" else a for a, f in zip(args, forms)]
            got = getattr(model, name)(*values) if live else 0
            if not void:
                at = self.result(live, got, f"{name}{tuple(values)} of {short(spec)}")
                first = at if first is None else first
        if times > 1:
            self.emit(depth, f"for j in range({times}):")
            depth += 1
        if void:
            self.emit(depth, call)
        else:
            self.store(depth, call, f"{first} + j" if times > 1 else first)

    def do_state(self, depth, live, item):
        table, species = item["info"]
        advance, pid, sp, form_, ivs, ability, level, shiny = item["args"]
        texts = [f"np.uint32({advance})", f"np.uint32({pid})", str(sp), str(form_), self.param(["arr", ["u8", ivs]])]
        texts += [str(ability), str(level), str(shiny)]
        texts.append(f"{self.name('data.personal', 'PERSONAL_INFO_' + table)}[{species}]")
        self.emit(depth, f"s = {self.name('gen3.state', 'GeneratorState')}({', '.join(texts)})")
        fields = c20.expected(item)
        for f in ("pid", "ability_index", "gender", "nature", "hidden_power", "hidden_power_strength", "characteristic"):
            self.store(depth, f"s.{f}", self.result(live, fields[f], f"{f} of the state {item}"))
        for i in range(1 if sp == 292 else 0, 6):
            self.store(depth, f"s.stats[{i}]", self.result(live, fields["stats"][i], f"stat {i} of the state {item}"))


def set_up(env, setting):
    w = env.workers["numba"]
    if w.extra != SETTINGS[setting]:
        w.stop()
        w.extra = dict(SETTINGS[setting])


def judge(env, p, body, m, out, what):
    env.compared += len(out)
    for i, (g, w) in enumerate(zip(out, p.want)):
        if g != w:
            raise Violation(
                f"[{m}, {SETTINGS[env.memo['setting']] or 'default settings'}, compiled with {body['options']}] {what}"
                f"{p.where[i]} gave {g}, expected {w}",
                env.case,
            )


def check_program(env, body):
    p = Program(body)
    req = p.request(body["options"])
    req.update(classes=p.classes, makers=p.makers, objs=[[p.classes.index(s) if s in p.classes else None, a] for s, a in p.objs], after=p.after)
    for o, (s, _) in zip(req["objs"], p.objs):
        if o[0] is None:
            p.cls(s)
            o[0] = p.classes.index(s)
    got = env.values("compiled", runs=[req], timeout=300)
    for m, ((out, after),) in got.items():
        judge(env, p, body, m, out, "in the caller's function ")
        env.compared += len(after)
        if after != p.want_after:
            raise Violation(
                f"[{m}] generators given to the caller's function yield {after} afterwards, expected {p.want_after}", env.case
            )
    for s in body["stmts"]:
        env.label(f"does-{s[0]}")
    for o in body["objs"]:
        env.label(f"object-{o[3]}")
    return len(p.want)


def check_wild(env, body):
    p = Source()
    gen, (delay, initial, count) = body["gen"], body["window"]
    texts = [p.number("u32", v, f) for v, f in zip((delay, initial, count), body["forms"])]
    if body["inside"]:
        made = [["Method", gen["method"]], ["Encounter", gen["encounter"]], ["Lead", gen["lead"]], ["Game", gen["game"]]]
        made = [p.constant(["enum", e]) for e in made]
        made += [p.number("u16", v, f) for v, f in zip((gen["tid"], gen["sid"]), body["forms"][3:])]
        p.emit(1, f"g = {p.name('gen3.wild_generator_3', 'WildGenerator3')}({', '.join(made)})")
    else:
        p.emit(1, f"g = {p.param(['obj', 0])}")
    area = p.param(["obj", 1])
    seeds = p.param(["arr", ["u32", body["seeds"]]])
    p.emit(1, "n = 0")
    p.emit(1, f"for i in range(len({seeds})):")
    p.emit(2, f"for s in g.generate({seeds}[i], {', '.join(texts)}, {area}):")
    fields = ["advance", "pid", "species", "form", "level", "shiny", "gender", "nature", "ability_index", "characteristic"]
    for f in fields:
        p.emit(3, f"out[n] = s.{f}")
        p.emit(3, "n += 1")
    for f in ("ivs", "stats"):
        p.emit(3, "for k in range(1, 6):")
        p.emit(4, f"out[n] = s.{f}[k]")
        p.emit(4, "n += 1")
    p.emit(1, "return n")
    for seed in body["seeds"]:
        for s in gen3model.generate(gen, seed, delay, initial, count, gen3model.area_of(body["area"])):
            for f, v in [(f, s[f]) for f in fields] + [(f, v) for f in ("ivs", "stats") for v in s[f][1:]]:
                p.want.append(v)
                p.where.append(f"{f} of the state of advance {s['advance']} from seed {seed:#x} for {gen}")
    size = len(body["seeds"]) * count * 20
    used = len(p.want)
    req = p.request(body["options"])
    req["length"] = max(size, 1)
    typed = gen3model.encode_gen(gen, True)
    for m, (n, out) in env.values("compiled_wild", gen=typed, areas=[body["area"]], timeout=300, **req).items():
        env.require(n == used, f"[{m}] {n // 20} states instead of {used // 20} inside a caller's function for {gen}")
        judge(env, p, body, m, out, "wild generation in the caller's function: ")
    return used


def check_sha(env, body):
    p = Source()
    game, language, ds, mac, reset, frame, gx = body["console"]
    f = body["forms"]
    made = [p.constant(["enum", e]) for e in (["Game", game], ["Language", language], ["DSType", ds])]
    made += [p.number("u64", mac, f[0]), str(reset), p.number("u8", frame, f[1]), p.number("u8", gx, f[2])]
    p.emit(1, f"s = {p.name('sha1', 'SHA1')}({', '.join(made)})")
    model = refs.Gen5Message(*body["console"])
    for name, args, forms in body["ops"]:
        texts = [p.number(k, a, f) for k, a, f in zip(gensha.KINDS[name], args, forms)]
        p.emit(1, f"s.{name}({', '.join(texts)})")
        getattr(model, name)(*args)
    p.emit(1, "alpha = s.precompute()")
    date = next(op for op in body["ops"] if op[0] == "set_date")
    time = next(op for op in body["ops"] if op[0] == "set_time")
    for b in body["buttons"]:
        p.emit(1, f"s.set_button({b})")
        model.set_button(b)
    hour, minute = time[1][:2]
    p.emit(1, f"for j in range({body['seconds']}):")
    p.emit(2, f"s.set_time({hour}, {minute}, j)")
    p.emit(2, "out[j] = s.hash_seed(alpha)")
    for j in range(body["seconds"]):
        model.set_time(hour, minute, j)
        p.want.append(model.seed())
        p.where.append(f"the seed of {body['console']} on {date[1]} at {hour}:{minute}:{j}")
    req = p.request(body["options"])
    req.update(classes=[], makers=[], objs=[], after=[])
    for m, ((out, _),) in env.values("compiled", runs=[req], timeout=300).items():
        judge(env, p, body, m, out, "in the caller's function ")
    return len(p.want)


def check(env, case):
    body = case["body"]
    set_up(env, case["setting"])
    env.memo["setting"] = case["setting"]
    env.label(body["kind"], "-".join(f"{k}={v}" for k, v in SETTINGS[case["setting"]].items()) or "default")
    n = {"program": check_program, "wild": check_wild, "sha": check_sha}[body["kind"]](env, body)
    return n >= 3
