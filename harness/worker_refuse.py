"""Requests the package refuses, among ones it answers."""

import os

import numpy as np

from worker import WHERE, conv, get_class, mod, norm, op


def attempt(f):
    try:
        return {"ok": norm(f())}
    except Exception as e:  # pylint: disable=broad-except
        return {"exc": [c.__name__ for c in type(e).__mro__]}


def class_of(spec):
    if isinstance(spec, dict) and "bare" in spec:
        return getattr(mod("lcrng"), f"LCRNG{spec['bare']}")
    return get_class(spec)


@op
def refuse_history(objs, ops):
    """Operations on objects; each answers {"ok": value} or {"exc": names of the exception's classes}."""
    made = [class_of(o["cls"])(*[conv(a) for a in o["args"]]) for o in objs]
    out = []
    for who, method, args in ops:
        obj = made[who]
        args = [conv(a) for a in args]
        if method == "seed?":
            out.append(attempt(lambda: obj.seed))
        elif method.startswith("const"):
            factory = getattr(class_of(objs[who]["cls"]), method)

            def use():
                # made for the constants, then applied
                return factory(*args)(obj)

            out.append(attempt(use))
        else:
            out.append(attempt(lambda: getattr(obj, method)(*args)))
    return out


@op
def refuse_make(items):
    """Classes that cannot be made: ["reverse", bits, add, mult], ["list", class, function], ["abstract", name]."""
    out = []
    lcrng = mod("lcrng")
    for kind, *args in items:
        if kind == "reverse":
            bits, add, mult = args

            def make():
                base = getattr(lcrng, f"LCRNG{bits}")
                cls = type("Custom", (base,), {"__doc__": "user defined", "__module__": __name__})
                made = getattr(lcrng, f"lcrng{bits}_init")(add=conv(add), mult=conv(mult), reverse=True)(cls)
                return made(1).next()

        elif kind == "list":
            cls, function = args

            def make():
                made = mod("rng_list").build_rnglist(
                    rng_class=get_class(cls), next_function_name=function, state_type=np.uint32, size=4
                )
                return made(get_class(cls)(1)).get_value()

        else:
            name = args[0]

            def make():
                module = mod("xorshift.xoroshiro128plus" if name.startswith("Xoro") else WHERE.get(name, "lcrng"))
                return str(getattr(module, name)())

        out.append(attempt(make))
    return out


@op
def refuse_tables(games):
    """The number of records of each game's table (games: lists of names, combined), and of its areas."""
    flags = mod("enums").Game
    out = []
    for names in games:
        game = flags(0)
        for n in names:
            game |= flags[n]
        tables = attempt(lambda: len(mod("data.personal").get_info_table(game)))
        areas = attempt(lambda: len(mod("data.encounter").ENCOUNTER_INFORMATION_GEN3[game]))
        out.append([tables, areas])
    return out


class Unwilling:
    """Cannot be pickled."""

    def __init__(self, error):
        self.error = error

    def __reduce__(self):
        raise self.error


ERRORS = {"ValueError": ValueError, "KeyError": KeyError, "RuntimeError": RuntimeError, "KeyboardInterrupt": KeyboardInterrupt}


@op
def refuse_cached(name, calls):
    """A cached function that fails as told: [argument, error or None, where]; answers and what is in the folder after each."""
    encounter = mod("data.encounter")
    folder = os.path.join(os.environ["XDG_CACHE_HOME"], "numba_pokemon_prngs")
    plan = {}
    counts = {"calls": 0}

    def encode(x):
        if plan["where"] == "encode" and plan["error"]:
            raise ERRORS[plan["error"]]("told to")
        return x

    def function(arg):
        counts["calls"] += 1
        if plan["where"] == "function" and plan["error"]:
            raise ERRORS[plan["error"]]("told to")
        if plan["where"] == "pickle" and plan["error"]:
            return [arg, Unwilling(ERRORS[plan["error"]]("told to"))]
        return [arg, arg * 2]

    cached = encounter.pickle_cached(name + "_{0}.pkl", encode=encode, decode=lambda x: x)(function)
    out = []
    for arg, error, where in calls:
        plan.update(error=error, where=where)
        before = counts["calls"]
        try:
            answer = {"ok": norm(cached(arg))}
        except BaseException as e:  # pylint: disable=broad-except
            answer = {"exc": [c.__name__ for c in type(e).__mro__]}
        files = sorted(os.path.relpath(os.path.join(d, f), folder) for d, _, fs in os.walk(folder) for f in fs)
        mine = [f for f in files if name in f or f.startswith("tmp")]
        out.append([answer, counts["calls"] - before, mine])
    return out
