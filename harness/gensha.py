"""Console settings for Gen 5 seeds: generation, worker encoding and the model run."""

from hypothesis import strategies as st

import refs
from strats import word

GAMES = ("BLACK", "WHITE", "BLACK2", "WHITE2")
DS = ("DS", "DSI", "DS3")
KINDS = {
    "set_timer0": ("u32", "u8"),
    "set_date": ("u16", "u8", "u8", "u8"),
    "set_time": ("u8", "u8", "u8"),
    "set_button": ("u32",),
}
BUTTONS = [0xFF2F0000 - (1 << k) * 0x10000 for k in range(8)] + [0xFF2F0000, 0xFF270000]


def console():
    """game, language, console, MAC, soft reset, frame, graphics state"""
    return st.tuples(
        st.sampled_from(GAMES),
        st.sampled_from(refs.LANGUAGES),
        st.sampled_from(DS),
        word(48),
        st.booleans(),
        word(8),
        word(8),
    ).map(list)


SETTINGS = {
    "set_timer0": st.tuples(word(16), word(8)).map(list),
    "set_date": st.tuples(st.integers(2000, 2099), st.integers(1, 12), st.integers(1, 31), st.integers(0, 6)).map(list),
    "set_time": st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)).map(list),
    "set_button": st.one_of(st.sampled_from(BUTTONS), word(32)).map(lambda b: [b]),
}


def encode_console(c, typed):
    game, language, ds, mac, reset, frame, gx = c
    k = (lambda t: t) if typed else (lambda t: "i")
    return [
        ["enum", ["Game", game]],
        ["enum", ["Language", language]],
        ["enum", ["DSType", ds]],
        [k("u64"), mac],
        ["bool", reset],
        [k("u8"), frame],
        [k("u8"), gx],
    ]


def encode_op(op, typed):
    who, name, args = op
    kinds = KINDS.get(name, ())
    return [who, name, [[k if typed else "i", a] for k, a in zip(kinds, args)]]


def run(objs, ops):
    """Expected seed of every `hash`; asserts that each is computed with a valid alpha."""
    models = [refs.Gen5Message(*c) for c in objs]
    latest = [None] * len(objs)
    seeds = []
    for who, name, args in ops:
        m = models[who]
        if name == "pre":
            latest[who] = (m.w[5], m.w[8])
        elif name == "hash":
            assert latest[who] == (m.w[5], m.w[8]), "hash without a valid alpha"
            seeds.append(m.seed())
        else:
            getattr(m, name)(*args)
    return seeds
