"""Stepping back undoes stepping forward, from any state and through any mix of directions."""

from hypothesis import strategies as st

import genhist

EXAMPLES = (900, 14000)
RULE = (
    "a generator that can step back, any state, and a walk of forward and backward steps that may go before the "
    "starting point; every step back must return the value of the step it undoes (an exact inverse in the model), and "
    "going forward again must replay the same outputs; non-trivial: at least one step back and one forward"
)
NAMES = ["Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus", "Xorshift128"]


@st.composite
def walk(draw):
    spec = draw(st.sampled_from(NAMES))
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        if draw(st.integers(0, 9)) == 0:
            ops.append([0, "re_init", *draw(genhist.seed_args(spec))])
        ops.append([0, "many", draw(st.sampled_from(["next", "previous"])), [], draw(st.one_of(st.integers(1, 6), st.integers(1, 120)))])
    return {"objs": [[spec, draw(genhist.seed_args(spec))]], "ops": ops, "typed": draw(st.booleans())}


def strategy(tier):
    return walk()


def fixed_cases(tier):
    for spec in NAMES:
        n = len(genhist.sig(spec, "init"))
        for s in (0, 1, 0xFFFFFFFF, 0xFFFFFFFFFFFFFFFF if n < 4 else 0x80000000):
            for first, then in (("next", "previous"), ("previous", "next")):
                yield {
                    "objs": [[spec, [s] * n]],
                    "ops": [[0, "many", first, [], 300], [0, "many", then, [], 600], [0, "many", first, [], 300]],
                    "typed": s != 1,
                }


def check(env, case):
    spec = case["objs"][0][0]
    env.label(spec)
    depth = low = 0
    for op in case["ops"]:
        if op[1] == "re_init":
            depth = 0
            continue
        depth += op[4] if op[2] == "next" else -op[4]
        low = min(low, depth)
    if low < 0:
        env.label("before-the-start")
    # the law itself, on what the code returned: a step back returns what the undone step produced
    got = env.values("hist", **genhist.to_worker(case))
    for m, outs in got.items():
        trail = {}  # outputs of the step from position p to p + 1
        pos = 0
        for op, values in zip(case["ops"], outs):
            if op[1] == "re_init":
                trail, pos = {}, 0
                continue
            for v in values:
                if op[2] == "next":
                    seen = trail.setdefault(pos, v)
                    pos += 1
                    where = pos
                else:
                    pos -= 1
                    seen = trail.setdefault(pos, v)
                    where = pos
                env.require(
                    seen == v, f"[{m}] {spec} at position {where}: {op[2]} gave {v}, the same step gave {seen} before"
                )
    return {op[2] for op in case["ops"] if op[1] == "many"} == {"next", "previous"}
