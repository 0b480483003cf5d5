"""Byte swap, rotations and eight-digit hex text are exact."""

from hypothesis import strategies as st

import refs
from core import Violation
from strats import word

EXAMPLES = (700, 12000)
RULE = (
    "batches of 32- and 64-bit words with every rotation count 0..width; byte swap, its double application, left and right "
    "rotation, their composition and hex text compared with integer arithmetic, passed as Python ints and numpy scalars; "
    "non-trivial: some word is not 0"
)
ROT = (("rotate_left_u32", refs.rotl, 32), ("rotate_right_u32", refs.rotr, 32), ("rotate_left_u64", refs.rotl, 64),
       ("rotate_right_u64", refs.rotr, 64))


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "w32": st.lists(word(32), min_size=1, max_size=12),
            "w64": st.lists(word(64), min_size=1, max_size=8),
            "counts": st.lists(st.integers(0, 64), min_size=1, max_size=10),
            "typed": st.booleans(),
        }
    )


def fixed_cases(tier):
    every = list(range(65))
    for typed in (False, True):
        yield {"w32": [1 << k for k in range(32)], "w64": [1 << k for k in range(64)], "counts": every, "typed": typed}
        yield {
            "w32": [0, 0xFFFFFFFF, 0x12345678, 0x80000001, 0xDEADBEEF],
            "w64": [0, (1 << 64) - 1, 0x0123456789ABCDEF, 1 << 63 | 1],
            "counts": every,
            "typed": typed,
        }
    for b in range(0, 256, 64):
        yield {"w32": [x << s for x in range(b, b + 64) for s in (0, 8, 16, 24)], "w64": [1], "counts": [8], "typed": True}


def ask(env, name, kinds, cols, want, what):
    for m, got in env.values("fnz", module="util", name=name, kinds=kinds, cols=cols).items():
        env.compared += len(got)
        for row, g, w in zip(zip(*cols), got, want):
            if g != w:
                raise Violation(f"[{m}] {name}({', '.join(f'{x:#x}' for x in row)}) = {g!r}, expected {w!r} ({what})")


def check(env, case):
    typed = case["typed"]
    w32 = case["w32"]
    u32 = "u32" if typed else "i"
    swapped = [refs.bswap32(x) for x in w32]
    ask(env, "change_endian_u32", [u32], [w32], swapped, "bytes reversed")
    ask(env, "change_endian_u32", [u32], [swapped], w32, "its own inverse")
    ask(env, "hex_32", [u32], [w32], [f"{x:08X}" for x in w32], "eight digits")
    for name, ref, width in ROT:
        rows = [(x, c) for x in case[f"w{width}"] for c in case["counts"] if c <= width]
        if not rows:
            continue
        cols = [list(c) for c in zip(*rows)]
        kind = f"u{width}" if typed or width == 64 else "i"
        want = [ref(x, c % width, width) for x, c in rows]
        count = "u8" if typed else "i"
        ask(env, name, [kind, count], cols, want, "rotation")
        back = name.replace("left", "RIGHT").replace("right", "left").replace("RIGHT", "right")
        ask(env, back, [kind, count], [want, cols[1]], cols[0], "undoes the rotation")
    env.label("typed" if typed else "plain")
    return any(w32)
