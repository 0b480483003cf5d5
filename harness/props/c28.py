"""Legends: Arceus slot choice is proportional to slot weights."""

from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import ladata
from core import Violation, short
from strats import word

EXAMPLES = (900, 40000)
SHARDS = (3, 6)
RULE = (
    "an area of 1-40 slots (made-up weights with zeros, ties and large ratios, or a shipped encounter table) and rolls in [0, 1) "
    "as Python floats or float32, aimed at interval edges and at the ends, with time and weather as enum members or integers; "
    "the chosen slot's exact interval must contain the roll within rounding and have weight; non-trivial: two slots have weight"
)
ASSUMPTIONS = [
    "rolls are in [0, 1), multipliers are finite and not negative",
    "an area none of whose slots has weight may give any of its slots",
    "rounding: 2.4e-7 of the total per slot; none where every product and sum involved fits single precision exactly",
]
BELOW_1 = {"f64": 1 - 2.0**-53, "f32": 1 - 2.0**-24}

# float32 values, so that weights are exactly what was set
MULTIPLIER = st.one_of(
    st.sampled_from([0.0, 0.0, 1.0, 1.0, 1.0, 0.5, 2.0, 1.5, 3.0, 10.0]),
    st.sampled_from([0.1, 0.2, 0.3, 0.7, 1.2, 2.3]).map(lambda x: float(np.float32(x))),
    st.integers(0, 4000).map(lambda n: n / 64),
)
BASE = st.one_of(st.sampled_from([0, 1, 1, 10, 20, 50, 100]), st.integers(0, 120), word(16), word(32))


@st.composite
def made_up(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 40)))
    plain = draw(st.booleans())
    slots = []
    for i in range(n):
        times = [1.0] * 4 if plain else draw(st.lists(MULTIPLIER, min_size=4, max_size=4))
        weathers = [1.0] * 9 if plain else draw(st.lists(MULTIPLIER, min_size=9, max_size=9))
        slots.append([i + 1, draw(BASE), times, weathers])
    return slots


@st.composite
def case(draw):
    if draw(st.integers(0, 3)) == 0:
        name = draw(st.sampled_from(ladata.AREAS))
        area = ["shipped", name, draw(st.sampled_from(sorted(ladata.encounter_tables(name))))]
    else:
        area = draw(made_up())
    kind = {"roll": draw(st.sampled_from(["f64", "f32"])), "index": draw(st.sampled_from(["enum", "enum", "u8", "int"]))}
    rolls = []
    for _ in range(draw(st.integers(1, 12))):
        time, weather = draw(st.integers(0, 3)), draw(st.integers(0, 8))
        weights = weights_of(area, time, weather)
        total = sum(weights)
        how = draw(st.integers(0, 3))
        if how == 0 or not total:
            roll = draw(st.floats(0, BELOW_1["f64"]))
        elif how == 1:
            roll = draw(st.sampled_from([0.0, 2.0**-24, 2.0**-32, 1e-30, 0.5, BELOW_1[kind["roll"]], 1 - 2.0**-20]))
        else:
            k = draw(st.integers(0, len(weights)))
            if k < len(weights) and how == 2:
                part = draw(st.sampled_from([Fraction(1, 2), Fraction(1, 1000), Fraction(999, 1000)]))
            else:
                k, part = min(k, len(weights) - 1), Fraction(draw(st.integers(0, 1)))
            roll = float((sum(weights[:k]) + part * weights[k]) / total)
        if kind["roll"] == "f32":
            roll = float(np.float32(roll))
        rolls.append([min(max(roll, 0.0), BELOW_1[kind["roll"]]), time, weather])
    return {"area": area, "kind": kind, "rolls": rolls}


def strategy(tier):
    return case()


def slots_of(area):
    if area and area[0] == "shipped":
        return [
            [s["species"], s["base_probability"], s["time_multipliers"], s["weather_multipliers"], s]
            for s in ladata.encounter_tables(area[1])[area[2]]
        ]
    return [[*s, {"species": s[0], "base_probability": s[1], "gender": 0, "form": 0, "is_alpha": 0}] for s in area]


def weights_of(area, time, weather):
    return [s[1] * Fraction(s[2][time]) * Fraction(s[3][weather]) for s in slots_of(area)]


def fixed_cases(tier):
    # every edge of intervals that add up to a power of two
    for weights in ([1, 2, 1, 4], [8, 8, 16, 32], [0, 3, 0, 5, 0], [1, 0, 0, 1], [100, 28], [64]):
        area = [[i + 1, b, [1.0, 0.5, 2.0, 1.0], [1.0] * 9] for i, b in enumerate(weights)]
        total = sum(weights)
        for roll in ("f64", "f32"):
            for t in (0, 1, 2):
                yield {"area": area, "kind": {"roll": roll, "index": "enum"}, "rolls": [[n / total, t, n % 9] for n in range(total)]}
    rolls = [0.0, 0.05, 0.0999, 0.1001, 0.35, 0.5999, 0.6001, 0.95, 0.999, BELOW_1["f32"]]
    ones = [[1.0] * 4, [1.0] * 9]
    for index in ("enum", "u8", "int"):
        for t in range(4):
            # each time and weather lets only its own slots through
            area = []
            for i in range(12):
                times = [1.0 if i % 4 == j else 0.0 for j in range(4)]
                area.append([i + 1, 10 * (i // 4 + 1), times, [1.0] * 9])
            yield {"area": area, "kind": {"roll": "f32", "index": index}, "rolls": [[r, t, t] for r in rolls]}
        for w in range(9):
            area = []
            for i in range(18):
                area.append([i + 1, 10 * (i // 9 + 1), [1.0] * 4, [2.0 if i % 9 == j else 0.0 for j in range(9)]])
            yield {"area": area, "kind": {"roll": "f64", "index": index}, "rolls": [[r, w % 4, w] for r in rolls]}
        # slots without weight first, last and between
        area = [[i + 1, b, *ones] for i, b in enumerate([0, 10, 0, 0, 50, 40, 0])]
        yield {"area": area, "kind": {"roll": "f64", "index": index}, "rolls": [[r, 1, 1] for r in rolls + [BELOW_1["f64"]]]}


def exact(numbers, at, weights):
    """Whether no order of the sums and products involved can round: all are multiples of one unit, and at most 2^24 of them."""
    unit = 1
    for x in [*numbers, *weights]:
        unit = max(unit, x.denominator if isinstance(x, Fraction) else 1)
    products = max([sum(weights) * unit, 1])
    return products < 1 << 24 and unit <= 1 << 24 and all((x * unit).denominator == 1 for x in map(Fraction, numbers))


def allowed(case, roll, time, weather):
    """The slots a roll may choose: one, or the neighbours of a boundary it cannot be told from."""
    weights = weights_of(case["area"], time, weather)
    total = sum(weights)
    at = Fraction(roll) * total
    if exact([total, at, Fraction(roll), *weights], at, weights):
        # half-open intervals
        low = Fraction(0)
        for k, w in enumerate(weights):
            if low <= at < low + w:
                return [k], weights
            low += w
    slack = total * Fraction(1, 1 << 22) * (len(weights) + 2)
    found = []
    low = Fraction(0)
    for k, w in enumerate(weights):
        if (not total) or (w > 0 and low - slack <= at <= low + w + slack):
            found.append(k)
        low += w
    return found, weights


def check(env, case):
    got = env.values("la_choose", area=case["area"], rolls=case["rolls"], kind=case["kind"])
    slots = slots_of(case["area"])
    several = False
    for i, (roll, time, weather) in enumerate(case["rolls"]):
        choices, weights = allowed(case, roll, time, weather)
        total = sum(weights)
        several = several or sum(w > 0 for w in weights) > 1
        wanted = [[slots[k][4][f] for f in ("species", "base_probability", "gender", "form", "is_alpha")] for k in choices]
        for m, g in got.items():
            env.compared += 1
            if g[i] not in wanted:
                raise Violation(
                    f"[{m}] roll {roll!r}, time {time}, weather {weather}: chose {g[i]} (species, base probability, ...), expected "
                    f"one of {wanted}; weights {short([float(w) for w in weights])}"
                )
        env.label("exact" if len(choices) == 1 else "edge" if total else "no-weight", f"time-{time}", f"weather-{weather}")
    return several
