"""Modular inverses are exact on every Python version branch."""

import math

from hypothesis import strategies as st

from core import Violation
from strats import word

EXAMPLES = (2500, 60000)
RULE = (
    "a batch of (value, modulus) pairs: powers of two up to 2^128, random moduli from 1 up, values below and above the "
    "modulus, multiples of a common factor; the module is loaded as Python 3.6, 3.7, 3.8, 3.9 and the running version; "
    "the result is checked by multiplication and gcd; non-trivial: some value has an inverse other than itself, or none"
)
TECHNIQUE = "property-based testing (Hypothesis) against the defining equation, on both version branches"
ASSUMPTIONS = [
    "old Python versions are simulated by presenting their sys.version_info while the module loads, and a pow that refuses "
    "negative exponents with a modulus, as theirs did",
    "values are not negative, as multipliers are",
]
VERSIONS = [[3, 6], [3, 7], [3, 8], [3, 9], []]


@st.composite
def pair(draw):
    bits = draw(st.sampled_from([8, 16, 32, 64, 128]))
    k = draw(st.integers(0, 3))
    if k == 0:
        modulus = 1 << draw(st.integers(0, bits))
    elif k == 1:
        modulus = 1 << bits
    else:
        modulus = draw(word(bits, 1))
    value = draw(word(bits))
    if draw(st.integers(0, 4)) == 0:
        value *= draw(st.sampled_from([2, 3, modulus]))
    return [value, modulus]


def strategy(tier):
    return st.fixed_dictionaries(
        {"pairs": st.lists(pair(), min_size=1, max_size=20), "version": st.sampled_from(VERSIONS)}
    )


def fixed_cases(tier):
    for v in VERSIONS:
        for m in range(1, 65):
            yield {"version": v, "pairs": [[x, m] for x in range(0, 2 * m + 2)]}
        yield {
            "version": v,
            "pairs": [
                [x, 1 << b]
                for b in (32, 64)
                for x in (0x41C64E6D, 0xEEB9EB65, 0x343FD, 0x6C078965, 0x5D588B656C078965, 0, 1, 2, (1 << b) - 1)
            ],
        }


def check(env, case):
    nontrivial = False
    for m, got in env.values("mod_inv", version=case["version"], pairs=case["pairs"]).items():
        env.compared += len(got)
        for (value, modulus), x in zip(case["pairs"], got):
            where = f"[{m}] mod_inv({value}, {modulus}) as Python {'.'.join(map(str, case['version'])) or 'running'}"
            if math.gcd(value, modulus) == 1:
                if x is None:
                    raise Violation(f"{where} raised ValueError although an inverse exists")
                if not 0 <= x < modulus or value * x % modulus != 1 % modulus:
                    raise Violation(f"{where} = {x}, which is not the inverse")
                nontrivial |= x != value
            else:
                if x is not None:
                    raise Violation(f"{where} = {x} although no inverse exists")
                nontrivial = True
    env.label("fallback" if case["version"] in ([3, 6], [3, 7]) else "builtin")
    return nontrivial
