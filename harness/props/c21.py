"""Gender, shininess and Unown letters are classified exactly from the PID."""

from hypothesis import strategies as st

import refs
from core import Violation
from strats import word

EXAMPLES = (700, 14000)
RULE = (
    "batches of PIDs, also built next to a gender threshold or a shiny boundary of the trainer value; gender for every ratio "
    "given, shininess for the trainer value, and all 28 Unown letters (exactly one must match, no value above 27 may); "
    "compared with integer arithmetic, as Python ints and numpy scalars; non-trivial: at least one shiny, or two genders"
)


@st.composite
def batch(draw):
    ratios = draw(st.lists(st.one_of(st.sampled_from([0, 31, 63, 127, 191, 225, 254, 255]), word(8)), min_size=1, max_size=5))
    tsv = draw(word(16))
    pids = []
    for _ in range(draw(st.integers(1, 12))):
        pid = draw(word(32))
        k = draw(st.integers(0, 3))
        if k == 1:
            pid = pid & ~0xFF | (draw(st.sampled_from(ratios)) + draw(st.integers(-1, 1))) & 0xFF
        elif k >= 2:
            low = (pid >> 16) ^ tsv ^ draw(st.one_of(st.integers(0, 9), st.sampled_from([0x10, 0x8000])))
            pid = pid & 0xFFFF0000 | low
        pids.append(pid)
    return {"pids": pids, "ratios": ratios, "tsv": tsv, "typed": draw(st.booleans())}


def strategy(tier):
    return batch()


def fixed_cases(tier):
    # every low byte against every ratio, every letter pattern, every small shiny distance
    for lo in range(0, 256, 32):
        yield {"pids": list(range(256)), "ratios": list(range(lo, lo + 32)), "tsv": lo, "typed": lo % 64 == 0}
    letters = [a << 24 | b << 16 | c << 8 | d for a in range(4) for b in range(4) for c in range(4) for d in range(4)]
    yield {"pids": letters, "ratios": [127], "tsv": 0, "typed": True}
    yield {"pids": [p | 0xFCFCFCFC for p in letters], "ratios": [127], "tsv": 1, "typed": False}
    for tsv in (0, 1, 0x8000, 0xFFFF, 0x1234):
        yield {
            "pids": [(h << 16) | (h ^ tsv ^ d) for h in (0, 1, 0x7FFF, 0xFFFF) for d in list(range(18)) + [0x8000, 0xFFFF]],
            "ratios": [31],
            "tsv": tsv,
            "typed": tsv != 1,
        }


def ask(env, name, kinds, rows, want, typed):
    kinds = kinds if typed else ["i"] * len(kinds)
    cols = [list(c) for c in zip(*rows)]
    for m, got in env.values("fnz", module="gen3.util", name=name, kinds=kinds, cols=cols).items():
        env.compared += len(got)
        for row, g, w in zip(rows, got, want):
            if g != w:
                raise Violation(f"[{m}] {name}({row[0]:#010x}, {row[1]}) = {g}, expected {w}")


def check(env, case):
    typed, tsv = case["typed"], case["tsv"]
    rows = [(p, r) for p in case["pids"] for r in case["ratios"]]
    genders = [refs.gender3(*r) for r in rows]
    ask(env, "get_gender", ["u32", "u8"], rows, genders, typed)
    rows = [(p, tsv) for p in case["pids"]]
    shiny = [refs.shiny3(*r) for r in rows]
    ask(env, "get_shiny", ["u32", "u16"], rows, shiny, typed)
    rows = [(p, f) for p in case["pids"] for f in list(range(28)) + [28, 63, 255]]
    letters = [int(refs.unown_letter(p) == f) for p, f in rows]
    ask(env, "unown_check", ["u32", "u8"], rows, letters, typed)
    for s in set(shiny):
        env.label(("none", "star", "square")[s])
    return any(shiny) or len(set(genders)) > 1
