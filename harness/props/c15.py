"""Gen 5 initial seeds are those of a real SHA-1 over the message the console settings define."""

from hypothesis import strategies as st

import gensha
import refs
from core import Violation, short

EXAMPLES = (700, 16000)
RULE = (
    "a batch of complete console settings (game, language, console, 48-bit MAC, soft reset, frame, graphics state, timer, "
    "vcount, date 2000-2099, time, 32-bit buttons), each set once in a fixed order and hashed; compared with hashlib's "
    "SHA-1 of the 13-word message and one BWRNG step; every game x language x console is always covered; non-trivial: "
    "at least one seed compared"
)
ASSUMPTIONS = ["the per-game constants are those in harness/refs.py, taken from the repository at the pinned commit"]


def setting():
    return st.tuples(gensha.console(), *[gensha.SETTINGS[n] for n in gensha.SETTINGS]).map(list)


def strategy(tier):
    return st.fixed_dictionaries({"items": st.lists(setting(), min_size=1, max_size=8), "typed": st.booleans()})


def fixed_cases(tier):
    i = 0
    for game in gensha.GAMES:
        for language in refs.LANGUAGES:
            items = []
            for ds in gensha.DS:
                for hour in (0, 11, 12, 23):
                    i += 1
                    items.append(
                        [
                            [game, language, ds, (0x0009BF000000 + i * 0x3333333) & (1 << 48) - 1, i % 2 == 0, i % 256, 6],
                            [0xC60 + i, 0x60 + i % 8],
                            [2000 + i % 100, 1 + i % 12, 1 + i % 31, i % 7],
                            [hour, i % 60, (7 * i) % 60],
                            [gensha.BUTTONS[i % len(gensha.BUTTONS)]],
                        ]
                    )
            yield {"items": items, "typed": i % 2 == 0}
    # every value of every date and time field
    for lo in range(0, 100, 20):
        yield {
            "items": [
                [
                    ["BLACK", "ENGLISH", gensha.DS[k % 3], 0x9BF123456, False, 5, 6],
                    [0xC79, 0x60],
                    [2000 + k, 1 + k % 12, 1 + k % 31, k % 7],
                    [k % 24, k % 60, (k + 30) % 60],
                    [0xFF2F0000],
                ]
                for k in range(lo, lo + 20)
            ],
            "typed": lo % 40 == 0,
        }


def check(env, case):
    typed = case["typed"]
    runs, want = [], []
    for item in case["items"]:
        ops = [[0, name, args] for name, args in zip(gensha.SETTINGS, item[1:])] + [[0, "pre", []], [0, "hash", []]]
        runs.append(
            {"objs": [gensha.encode_console(item[0], typed)], "ops": [gensha.encode_op(o, typed) for o in ops]}
        )
        want.append(gensha.run([item[0]], ops))
        env.label(item[0][0], item[0][1], item[0][2])
    for m, got in env.values("sha1", runs=runs).items():
        env.compared += len(got)
        for item, g, w in zip(case["items"], got, want):
            if g != w:
                raise Violation(f"[{m}] settings {short(item)}: seed {g[0]:016X}, expected {w[0]:016X}")
    return bool(want)
