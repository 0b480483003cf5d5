"""SHA-1 seeds depend only on the latest settings, and a precomputed alpha stays usable."""

from hypothesis import strategies as st

import gensha
from core import Violation

EXAMPLES = (900, 20000)
RULE = (
    "a history over one or two interleaved SHA1 objects: settings in any order and repeated, precomputations, and hashes "
    "with the latest alpha while only time and buttons changed since; the seed of each hash is compared with the seed of "
    "the latest settings (fresh object, reference message); non-trivial: a setting is overwritten or an alpha is used twice"
)


@st.composite
def history(draw):
    objs = draw(st.lists(gensha.console(), min_size=1, max_size=2))
    ops = []
    for who in range(len(objs)):
        for name in draw(st.permutations(list(gensha.SETTINGS))):
            ops.append([who, name, draw(gensha.SETTINGS[name])])
    fresh = [False] * len(objs)
    for _ in range(draw(st.integers(2, 14))):
        who = draw(st.integers(0, len(objs) - 1))
        k = draw(st.integers(0, 9))
        if k <= 4:
            name = draw(st.sampled_from(["set_time", "set_button", "set_time", "set_button", "set_timer0", "set_date"]))
            if name in ("set_timer0", "set_date"):
                fresh[who] = False
            ops.append([who, name, draw(gensha.SETTINGS[name])])
        elif k == 5:
            ops.append([who, "pre", []])
            fresh[who] = True
        else:
            if not fresh[who]:
                ops.append([who, "pre", []])
                fresh[who] = True
            ops.append([who, "hash", []])
    for who in range(len(objs)):
        if not fresh[who]:
            ops.append([who, "pre", []])
        ops.append([who, "hash", []])
    return {"objs": objs, "ops": ops, "typed": draw(st.booleans())}


def strategy(tier):
    return history()


def check(env, case):
    typed = case["typed"]
    want = gensha.run(case["objs"], case["ops"])
    run = {
        "objs": [gensha.encode_console(c, typed) for c in case["objs"]],
        "ops": [gensha.encode_op(o, typed) for o in case["ops"]],
    }
    # the same final settings on fresh objects, each hashed once
    fresh_ops, alone = [], []
    for who, c in enumerate(case["objs"]):
        last = {}
        for o, name, args in case["ops"]:
            if o == who and name in gensha.SETTINGS:
                last[name] = args
        ops = [[0, n, a] for n, a in last.items()] + [[0, "pre", []], [0, "hash", []]]
        fresh_ops.append({"objs": [gensha.encode_console(c, typed)], "ops": [gensha.encode_op(o, typed) for o in ops]})
        seeds = [i for i, (o, name, _) in enumerate(p for p in case["ops"] if p[1] == "hash") if o == who]
        alone.append(seeds[-1])
    hashes = len(want)
    env.label(f"objects-{len(case['objs'])}", f"hashes-{min(hashes, 6)}")
    for m, (got, *fresh) in env.values("sha1", runs=[run, *fresh_ops]).items():
        env.compared += len(got)
        for who, f in enumerate(fresh):
            if got[alone[who]] != f[0]:
                raise Violation(f"[{m}] object {who}: {got[alone[who]]:016X} after the history, {f[0]:016X} on a fresh object")
        for i, (g, w) in enumerate(zip(got, want)):
            if g != w:
                raise Violation(f"[{m}] hash {i}: {g:016X}, expected {w:016X} for the settings at that point")
    return hashes >= 2
