"""The text form of a Gen 3 state shows the state's own values."""

from hypothesis import strategies as st

import gen3data
from core import Violation, diff
from props import c20

EXAMPLES = (900, 20000)
RULE = (
    "a batch of generated states (as for C20, species 1-386 or made-up records with known abilities, forms 0-27); the "
    "field/value pairs and the one-line text are rebuilt from the state's own public fields and the shipped name lists and "
    "compared, in both modes; non-trivial: some state has a form, an ability slot 1 or a gender other than male"
)
GENDERS = "♂♀-"


def strategy(tier):
    abilities = st.integers(0, 100)

    @st.composite
    def item(draw):
        s = draw(c20.state())
        if len(s["info"]) != 2:
            s["info"] = s["info"][:22] + [draw(abilities), draw(abilities)] + s["info"][24:]
        return s

    return st.fixed_dictionaries({"items": st.lists(item(), min_size=1, max_size=6), "typed": st.booleans()})


def fixed_cases(tier):
    # every species, nature and ability of the Gen 3 tables, every hidden power
    for table in ("RS", "E", "FR", "LG"):
        for lo in range(1, 387, 97):
            yield {
                "items": [
                    {
                        "args": [s, (s * 0x9E3779B9 + lo) & 0xFFFFFFFF, s, s % 28, [(s >> k) % 32 for k in range(6)], s % 2, s % 100 + 1, 0],
                        "info": [table, s],
                    }
                    for s in range(lo, min(lo + 97, 387))
                ],
                "typed": lo % 2 == 0,
            }
    yield {
        "items": [
            {"args": [0xFFFFFFFF - k, k << 28, 201, k % 28, [k >> i & 1 for i in range(6)], 0, 5, 0], "info": ["E", 201]}
            for k in range(64)
        ],
        "typed": True,
    }


def text_of(f):
    species = gen3data.lines("species_en.txt")[f["species"]]
    pairs = [
        ["Advance", str(f["advance"])],
        ["Species", f"{species}-{f['form']}" if f["form"] else species],
        ["Level", str(f["level"])],
        ["PID", f"{f['pid']:08X}"],
        ["Nature", gen3data.lines("natures_en.txt")[f["nature"]]],
        ["Ability", f"{gen3data.lines('abilities_en.txt')[f['ability_index']]} ({f['ability']})"],
        ["IVs", "/".join(map(str, f["ivs"]))],
        ["Stats", "/".join(map(str, f["stats"]))],
        ["HP", f"{gen3data.lines('types_en.txt')[f['hidden_power'] + 1]} ({f['hidden_power_strength']})"],
        ["Gender", GENDERS[f["gender"]]],
    ]
    return pairs, ", ".join(f"{k}: {v}" for k, v in pairs)


def check(env, case):
    got = env.values("states", items=[c20.encode(i, case["typed"]) for i in case["items"]], text=True)
    for m, out in got.items():
        for item, g in zip(case["items"], out):
            pairs, line = text_of(g["fields"])
            env.compared += len(pairs) + 1
            if g["csv"] != pairs:
                raise Violation(f"[{m}] pairs of {g['fields']}: {diff(g['csv'], pairs)}")
            if g["str"] != line:
                raise Violation(f"[{m}] text of {g['fields']}: {diff(g['str'], line)}")
    for a, b in zip(got["numba"], got["numpy"]):
        if a["str"] != b["str"]:
            raise Violation(f"the modes differ: {a['str']!r} and {b['str']!r}")
    fields = [g["fields"] for g in got["numpy"]]
    for f in fields:
        env.label("form" if f["form"] else "no-form", f"gender-{f['gender']}")
    return any(f["form"] or f["ability"] or f["gender"] for f in fields)
