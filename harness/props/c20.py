"""A Gen 3 state's derived fields follow from PID, IVs, level and species."""

from hypothesis import strategies as st

import gen3data
import refs
from core import Violation
from strats import word

EXAMPLES = (700, 16000)
RULE = (
    "a batch of states built from a 32-bit PID, six IVs 0-31 (ties and all-zero frequent), level 1-100, ability slot, form, "
    "shininess and either a shipped Gen 3 personal record or a made-up one; all fifteen public fields compared with the "
    "games' integer formulas; non-trivial: the IVs are not all equal"
)
ASSUMPTIONS = ["the HP of species 292 (always 1 in the games, not modelled by the library) is not compared"]
GIVEN = ("u32", "u32", "u16", "u8", None, "u8", "u8", "u8")


@st.composite
def state(draw):
    if draw(st.integers(0, 2)):
        table = draw(st.sampled_from(["RS", "E", "FR", "LG"]))
        species = draw(st.integers(0, 386))
        info = [table, species]
    else:
        species = draw(st.integers(0, 1000))
        info = draw(st.lists(word(8), min_size=28, max_size=28))
    top = draw(st.sampled_from([31, 31, 31, 0, 1, 3, 30]))
    ivs = draw(st.lists(st.one_of(st.integers(0, top), st.just(top)), min_size=6, max_size=6))
    return {
        "args": [
            draw(word(32)),
            draw(word(32)),
            species,
            draw(st.one_of(st.just(0), st.integers(0, 27))),
            ivs,
            draw(st.integers(0, 1)),
            draw(st.one_of(st.integers(1, 100), st.sampled_from([1, 5, 50, 99, 100]))),
            draw(st.integers(0, 2)),
        ],
        "info": info,
    }


def strategy(tier):
    return st.fixed_dictionaries({"items": st.lists(state(), min_size=1, max_size=6), "typed": st.booleans()})


def fixed_cases(tier):
    # every nature x first characteristic position, and every single-IV pattern
    for lo in range(0, 150, 30):
        yield {
            "items": [
                {"args": [p, p, 25 + p % 100, 0, [31, 31, 31, 31, 31, 31], p % 2, 1 + p % 100, 0], "info": ["E", 25 + p % 100]}
                for p in range(lo, lo + 30)
            ],
            "typed": lo % 60 == 0,
        }
    for start in range(6):
        items = []
        for i in range(6):
            for v in (1, 2, 3, 30, 31):
                ivs = [0] * 6
                ivs[i] = v
                items.append({"args": [0, start, 1, 0, ivs, 0, 100, 0], "info": ["RS", 1 + i]})
        yield {"items": items, "typed": True}
    yield {
        "items": [
            {"args": [0, pid, 1, 0, [20, 20, 20, 20, 20, 20], 0, 50, 0], "info": [255] * 16 + [ratio] + [255] * 11}
            for ratio in (0, 1, 31, 63, 127, 191, 225, 253, 254, 255)
            for pid in (ratio, max(0, ratio - 1), min(255, ratio + 1), 0xFF, 0xFF00)
        ],
        "typed": True,
    }


def encode(item, typed):
    args = []
    for kind, a in zip(GIVEN, item["args"]):
        args.append(["arr", ["u8", a]] if kind is None else [kind if typed else "i", a])
    return {"args": args, "info": item["info"]}


def expected(item):
    raw = item["info"]
    info = gen3data.record(*raw) if len(raw) == 2 else refs.Personal3(raw)
    return refs.state3(*item["args"], info)


def check(env, case):
    typed = case["typed"]
    got = env.values("states", items=[encode(i, typed) for i in case["items"]])
    for m, out in got.items():
        for item, g in zip(case["items"], out):
            g, want = g["fields"], expected(item)
            env.compared += len(want)
            if item["args"][2] == 292:
                g["stats"][0] = want["stats"][0]
            for f, w in want.items():
                if g[f] != w:
                    raise Violation(f"[{m}] {f} is {g[f]}, expected {w}, for {item}")
    for item in case["items"]:
        env.label(f"nature-{item['args'][1] % 25}", "record" if len(item["info"]) == 2 else "made-up-record")
    return any(len(set(i["args"][4])) > 1 for i in case["items"])
