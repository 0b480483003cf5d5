"""Calls change nothing but the object they are made on."""

from hypothesis import strategies as st

from core import short

EXAMPLES = (240, 6000)
SHARDS = (8, 8)
RULE = (
    "histories of up to ten calls over the package (states and their text, wild generation, slot tables, Legends: Arceus slots, "
    "Gen 5 alphas and seeds, helpers, loaders, FlatBuffer reading, cached functions, decorators, generators), each with arguments "
    "of the caller's own, then the same calls again in another order; after every call the arguments, everything returned so far, "
    "the package's constants and the state of the process are compared with what they were, and each call's result with its "
    "first; some arguments and loaded results are overwritten by the caller; non-trivial: at least two kinds of calls"
)
ASSUMPTIONS = [
    "the tables handed out by get_info_table and get_nazo are the package's own; the caller does not write to them",
    "generators given to a list of outputs or to a function made by const_jump and const_rand are meant to move",
]
CALLS = {
    "state": 4,
    "state_text": 3,
    "wild": 5,
    "slots": 5,
    "la_slot": 3,
    "alpha": 2,
    "seed": 3,
    "alpha_then_settings": 3,
    "nazo": 2,
    "helpers": 3,
    "slot_table": 1,
    "personal": 1,
    "load_3": 2,
    "load_la": 1,
    "flatbuffer": 1,
    "cached": 2,
    "decorate_classes": 1,
    "decorate_function": 1,
    "outputs": 1,
}
# compiling these takes seconds, so in the quick tier only some processes do
HEAVY = {
    "state_text": (0,),
    "wild": (1, 2, 3),
    "alpha": (4, 5, 6),
    "seed": (4, 5, 6),
    "alpha_then_settings": (4, 5, 6),
    "decorate_classes": (6, 7),
    "decorate_function": (7,),
    "outputs": (7,),
}
# these compile something every time
ENDLESS = {"decorate_classes", "decorate_function", "outputs"}
NAMES = [n for n, w in CALLS.items() for _ in range(w)]
PARTED = True


def call():
    return st.tuples(st.sampled_from(NAMES), st.integers(0, 1 << 20), st.booleans()).map(list)


@st.composite
def strategy_(draw):
    calls = draw(st.lists(call(), min_size=1, max_size=10))
    order = draw(st.permutations(range(len(calls))))
    return {"calls": calls, "order": list(order)}


def strategy(tier):
    return strategy_()


def fixed_cases(tier):
    for name in CALLS:
        yield {"calls": [[name, n, bool(n % 2)] for n in range(2 if name in ENDLESS else 4)], "order": [1, 0], "fixed": name}


def check(env, case):
    modes = ["numpy"]
    here = all(env.shard in HEAVY[c[0]] for c in case["calls"] if c[0] in HEAVY)
    if "fixed" in case and not env.replaying:
        # each by one process, compiled
        if env.shard != (HEAVY[case["fixed"]][0] if case["fixed"] in HEAVY else list(CALLS).index(case["fixed"]) % 4):
            return False
    endless = sum(2 for c in case["calls"] if c[0] in ENDLESS)
    spent = env.memo.get("endless", 0)
    if env.replaying or ((here or env.tier != "quick") and (not endless or spent + endless <= (12 if env.tier == "quick" else 400))):
        env.memo["endless"] = spent + endless
        modes.append("numba")
    else:
        env.label("not-compiled")
    got = env.values("pure", modes=modes, calls=case["calls"], order=case["order"])
    for m, wrong in got.items():
        env.require(not wrong, f"[{m}] {short(wrong[0]) if wrong else ''}")
        env.compared += 2 * len(case["calls"])
    kinds = {c[0] for c in case["calls"]}
    env.label(*kinds)
    return len(kinds) > 1
