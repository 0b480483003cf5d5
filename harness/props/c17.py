"""FNV-1 and FNV-1a are exact, and every shipped encounter-table name is stored under its FNV-1a hash."""

import json
import os

from hypothesis import strategies as st

import core
import refs
from core import Violation

EXAMPLES = (1500, 30000)
RULE = (
    "batches of strings (empty, one character, all 128 ASCII characters, shipped-name shapes, other scripts and planes, up to 300 "
    "characters) hashed with both functions and compared with FNV over their characters' numbers from the games' basis; and every entry of the shipped name table "
    "as loaded by the package compared with the hash of its name; non-trivial: a non-empty string or a shipped name"
)
ASSUMPTIONS = ["strings have no lone surrogates; names in the game data are all ASCII"]
ASCII = st.characters(min_codepoint=0, max_codepoint=127)
TEXT = st.one_of(
    st.text(ASCII, max_size=12),
    st.text(ASCII, max_size=80),
    st.from_regex(r"(eve|fly|gmk|lnd|mas|oyb|swm|whl)_(ex|no|ra)_[0-9]{2,3}", fullmatch=True),
    st.text(st.sampled_from("0123456789_abcdef"), max_size=300),
    st.text(st.characters(exclude_categories=["Cs"]), max_size=20),
    st.text(st.sampled_from("aé\xff\u0100\u30dd\uffff\U00010000\U0001f600\U0010ffff"), max_size=20),
)


def strategy(tier):
    return st.fixed_dictionaries({"strings": st.lists(TEXT, min_size=1, max_size=8)})


def shipped():
    path = os.path.join(core.REPO, "numba_pokemon_prngs/resources/encount/la/encounter_table_names.json")
    with open(path, encoding="utf-8") as f:
        return json.load(f)


def fixed_cases(tier):
    yield {"strings": [""] + [chr(i) for i in range(128)]}
    yield {"strings": ["a" * n for n in range(0, 260, 13)] + ["".join(map(chr, range(128)))]}
    yield {"strings": [chr(a) + chr(b) for a in range(0, 128, 9) for b in range(0, 128, 7)]}
    yield {"strings": [chr(n) for k in range(7, 21) for n in ((1 << k) - 1, 1 << k, (1 << k) + 1) if n < 0x110000 and not 0xD800 <= n < 0xE000]}
    yield {"table": True}
    names = sorted(shipped().values())
    for i in range(0, len(names), 2000):
        yield {"strings": names[i : i + 2000]}


def check(env, case):
    if "table" in case:
        raw = shipped()
        want = sorted([refs.fnv1a(name.encode()), name] for name in raw.values())
        for m, got in env.values("la_table_names").items():
            env.compared += len(got)
            bad = [[k, n] for k, n in got if k != refs.fnv1a(n.encode("utf-8"))]
            if bad:
                raise Violation(f"[{m}] {bad[0][1]!r} is stored under {bad[0][0]:016X}")
            if got != want:
                raise Violation(f"[{m}] the loaded names differ from the shipped ones: {core.diff(got, want)}")
        env.label("shipped-table")
        return True
    data = [[ord(c) for c in s] for s in case["strings"]]
    calls = [[["s", s]] for s in case["strings"]]
    for name, ref in (("fnv1_64", refs.fnv1), ("fnv1a_64", refs.fnv1a)):
        want = [ref(b) for b in data]
        for m, got in env.values("fn", module="fnv", name=name, calls=calls).items():
            env.compared += len(got)
            for s, g, w in zip(case["strings"], got, want):
                if g != w:
                    raise Violation(f"[{m}] {name}({s!r}) = {g:016X}, expected {w:016X}")
    env.label("ascii" if all(s.isascii() for s in case["strings"]) else "other-characters")
    env.label("long" if max(map(len, data)) > 30 else "short")
    return any(data)
