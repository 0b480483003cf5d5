"""An integer argument means its value, whichever integer type carries it."""

import importlib
import random

from hypothesis import strategies as st

EXAMPLES = (420, 9000)
SHARDS = (8, 8)
TECHNIQUE = "property-based testing (Hypothesis): the other properties' cases with arguments carried by other integer types"
RULE = (
    "cases from the generators of the other properties (histories of every generator class and RNG list, Gen 5 seeding, bit, stat "
    "and classification helpers, Gen 3 states and wild generation windows, modular inverses, LCRNG constants), every integer "
    "argument given as a Python int or as one of the eight numpy integer types able to hold it, chosen independently in each mode; "
    "results compared with the same reference models; non-trivial: some argument had another type than the annotated one"
)
ASSUMPTIONS = [
    "numba takes no Python int of 2**63 or more; there np.uint64 is passed instead",
    "parameters annotated with an enumeration take its members or Python ints only; sizes of lists are Python ints",
    "compiled, each new combination of types costs a compilation, so a process tries a limited number of them",
]
GROUPS = [
    {"c01": 2, "c02": 3},
    {"c03": 2, "c02": 1, "c07": 1},
    {"c04": 1, "c05": 1, "c06": 2, "c15": 1},
    {"c08": 2, "c09": 3},
    {"c10": 3, "c11": 2},
    {"c14": 2, "c16": 1, "c33": 2},
    {"c18": 2, "c19": 1, "c20": 2, "c21": 2},
    {"c22": 3, "c23": 1},
]
PARTED = True
GROUP = {}
KINDS = {"i": None}
for _w in (8, 16, 32, 64):
    KINDS[f"i{_w}"] = (-(1 << (_w - 1)), (1 << (_w - 1)) - 1)
    KINDS[f"u{_w}"] = (0, (1 << _w) - 1)
GIVEN = set(KINDS) | {"int"}
# new combinations of argument types per process: for one method, in all
LIMITS = {"quick": (3, 70), "thorough": (25, 900)}
WILD_LIMITS = {"quick": (4, 4), "thorough": (40, 40)}


def begin(env):
    """Which parts this process runs."""
    GROUP.clear()
    GROUP.update(GROUPS[env.shard % len(GROUPS)])


def part(name):
    return importlib.import_module(f"props.{name}")


def strategy(tier):
    options = []
    for name, weight in GROUP.items():
        options += [
            st.fixed_dictionaries(
                {"part": st.just(name), "types": st.integers(0, 1 << 30), "case": part(name).strategy(tier)}
            )
        ] * weight
    return st.one_of(options)


def fixed_cases(tier):
    for name in GROUP:
        if name in ("c02", "c03", "c08", "c09", "c10", "c11", "c18", "c19", "c21", "c22"):
            if hasattr(part(name), "fixed_cases"):
                for i, case in enumerate(part(name).fixed_cases(tier)):
                    if name == "c22" and i % 7 and tier == "quick":
                        continue
                    yield {"part": name, "types": i, "case": case}
        if name == "c09":
            # the distance between bounds does not fit the bounds' own type
            ranges = [(-100, 100), (-128, 127), (3, 200), (-30000, 30000), (-32768, 32767), (0, 65535), (-(1 << 31), (1 << 31) - 1)]
            ops = [[0, "next_randrange", lo, hi] for lo, hi in ranges]
            for n in range(4):
                yield {"part": name, "types": 3 * n, "case": {"objs": [["Xorshift128", [1 << 31, 5, 77, 0xDEADBEEF]]], "ops": ops * 2, "typed": False}}


def able(value):
    return [k for k, r in KINDS.items() if r is None or r[0] <= value <= r[1]]


def narrowest(kinds):
    """The types of the fewest bits among those."""
    widths = [int(k[1:]) for k in kinds if k != "i"]
    return [k for k in kinds if k != "i" and int(k[1:]) == min(widths)] if widths else kinds


def is_argument(x):
    return isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) and x[0] in GIVEN and type(x[1]) is int


class Retyper:
    """Stands for the Env of the part: integer arguments on their way to the workers change type."""

    def __init__(self, env, seed):
        self._env = env
        self._seed = seed
        self.changed = 0

    def __getattr__(self, name):
        return getattr(self._env, name)

    def __setattr__(self, name, value):
        if name in ("_env", "_seed", "_rng", "changed"):
            object.__setattr__(self, name, value)
        else:
            setattr(self._env, name, value)

    def kinds(self, mode, what, given, values):
        """Types for the arguments of one call."""
        options = [able(v) for v in values]
        if self._seed % 3 == 0:
            # the smallest type that holds each value, where sums and differences of arguments soonest leave it
            choice = [self._rng.choice(narrowest(o)) for o in options]
        else:
            choice = [self._rng.choice(o) for o in options]
        if mode == "numba" and what is not None:
            used = self._env.memo.setdefault("types", {})
            mine = used.setdefault(what, [])
            seen = ["i64" if k == "i" else k for k in choice]
            each, total = (WILD_LIMITS if what[0] == "wild" else LIMITS)[self._env.tier]
            if seen not in mine and not self._env.replaying:
                if len(mine) < each and sum(map(len, used.values())) < total:
                    mine.append(seen)
                else:
                    fit = [c for c in mine if all(k in o for k, o in zip(c, options))]
                    choice = list(self._rng.choice(fit)) if fit else list(given)
        self.changed += sum(a != b and not {a, b} <= {"i", "int"} for a, b in zip(choice, given))
        return choice

    def arguments(self, mode, what, args):
        """A list of arguments, integers among them retyped."""
        places = [i for i, a in enumerate(args) if is_argument(a)]
        if not places:
            return args
        chosen = self.kinds(mode, what, [args[i][0] for i in places], [args[i][1] for i in places])
        args = list(args)
        for i, k in zip(places, chosen):
            # functions that always run as plain Python take integers of any size
            args[i] = ["int" if k == "i" and args[i][0] == "int" else k, args[i][1]]
        return args

    def history(self, mode, objs, ops):
        specs = []
        made = []
        for o in objs:
            spec = o["cls"]
            if isinstance(spec, dict) and "custom" in spec:
                given = self.arguments(mode, None, [["int", spec["add"]], ["int", spec["mult"]]])
                made_spec = {**spec, "add": given[0], "mult": given[1]}
            else:
                made_spec = spec
            name = spec if isinstance(spec, str) else str(sorted(spec.items()))
            specs.append(name)
            made.append({"cls": made_spec, "args": self.arguments(mode, (name, "init"), o["args"])})
        out = []
        for who, method, args in ops:
            name = specs[who]
            if method == "get":
                pass
            elif method == "const":
                args = [args[0], self.arguments(mode, None, [args[1]])[0], args[2]]
            elif method == "many":
                args = [args[0], self.arguments(mode, (name, args[0]), args[1]), args[2]]
            else:
                args = self.arguments(mode, (name, method), args)
            out.append([who, method, args])
        return {"objs": made, "ops": out}

    def retype(self, mode, op, args):
        self._rng = random.Random(self._seed * 2 + (mode == "numba"))
        if op == "hist":
            return self.history(mode, **args)
        if op == "hists":
            return {"runs": [self.history(mode, **r) for r in args["runs"]]}
        if op == "fnz":
            kinds = []
            for k, col in zip(args["kinds"], args["cols"]):
                if k in GIVEN and k != "int":
                    col_kinds = [self._rng.choice(able(v)) for v in col]
                    if mode == "numba":
                        col_kinds = ["u64" if c == "i" and v >> 63 else c for c, v in zip(col_kinds, col)]
                    self.changed += sum(c != k for c in col_kinds)
                    kinds.append(col_kinds)
                else:
                    kinds.append(k)
            return {**args, "kinds": kinds}
        if op == "mod_inv":
            pairs = [[["int", v] for v in p] for p in args["pairs"]]
            return {**args, "pairs": [self.arguments(mode, None, p) for p in pairs]}
        if op == "wild":
            runs = []
            for run in args["runs"]:
                g = run["gen"]
                tid, sid = self.arguments(mode, ("wild", "init"), [g["tid"], g["sid"]])
                windows = [self.arguments(mode, ("wild", "generate"), w[:-1]) + w[-1:] for w in run["windows"]]
                runs.append({**run, "gen": {**g, "tid": tid, "sid": sid}, "windows": windows})
            return {"runs": runs}
        if op == "sha1":
            runs = []
            for run in args["runs"]:
                objs = [self.arguments(mode, ("SHA1", "init"), o) for o in run["objs"]]
                ops = [[w, m, self.arguments(mode, ("SHA1", m), a)] for w, m, a in run["ops"]]
                runs.append({"objs": objs, "ops": ops})
            return {"runs": runs}
        if op == "states":
            items = [{**i, "args": self.arguments(mode, ("state", "init"), i["args"])} for i in args["items"]]
            return {**args, "items": items}
        if op == "big_advance":
            steps = [self.arguments(mode, (str(args["cls"]), "advance"), [s])[0] for s in args["steps"]]
            return {**args, "args": self.arguments(mode, (str(args["cls"]), "init"), args["args"]), "steps": steps}
        return args

    def call(self, op, modes=("numba", "numpy"), timeout=None, **args):
        out = {}
        for m in modes:
            out.update(self._env.call(op, modes=(m,), timeout=timeout, **self.retype(m, op, args)))
        return out

    def values(self, op, modes=("numba", "numpy"), timeout=None, **args):
        out = {}
        for m in modes:
            out.update(self._env.values(op, modes=(m,), timeout=timeout, **self.retype(m, op, args)))
        return out


def check(env, case):
    name = case["part"]
    env.label(f"part-{name}")
    r = Retyper(env, case["types"])
    part(name).check(r, case["case"])
    env.label("retyped" if r.changed else "types-as-annotated")
    return r.changed > 0
