"""Natures raise and lower the right stat by exactly ten percent."""

from hypothesis import strategies as st

import refs
from core import Violation

EXAMPLES = (300, 4000)
RULE = (
    "every nature and stat for every stat value 0..1000 (in batches), and random larger values whose result fits 16 bits, "
    "compared with the games' integer formula; non-trivial: some nature in the batch changes a value"
)
NATURES = ("Hardy Lonely Brave Adamant Naughty Bold Docile Relaxed Impish Lax Timid Hasty Serious Jolly Naive Modest Mild "
           "Quiet Bashful Rash Calm Gentle Sassy Careful Quirky").split()
STATS = ("", "attack", "defense", "special attack", "special defense", "speed")


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "stats": st.lists(st.one_of(st.integers(0, 1000), st.integers(0, 59577)), min_size=1, max_size=10, unique=True),
            "natures": st.lists(st.integers(0, 24), min_size=1, max_size=6, unique=True),
            "typed": st.booleans(),
        }
    )


def fixed_cases(tier):
    for lo in range(0, 1001, 50):
        yield {"stats": list(range(lo, min(lo + 50, 1001))), "natures": list(range(25)), "typed": lo % 100 == 0}


def check(env, case):
    rows = [(s, n, i) for s in case["stats"] for n in case["natures"] for i in range(1, 6)]
    cols = [list(c) for c in zip(*rows)]
    kinds = ["u16", "u8", "u8"] if case["typed"] else ["i", "i", "i"]
    want = [refs.nature_stat(*r) for r in rows]
    for m, got in env.values("fnz", module="util", name="compute_stat", kinds=kinds, cols=cols).items():
        env.compared += len(got)
        for (s, n, i), g, w in zip(rows, got, want):
            if g != w:
                raise Violation(f"[{m}] {STATS[i]} of {s} with {NATURES[n]} is {g}, expected {w}")
    env.label("typed" if case["typed"] else "plain")
    return any(w != s for (s, _, _), w in zip(rows, want))
