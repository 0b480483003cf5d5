"""Personal data is decoded exactly, and each game gets its own table."""

from hypothesis import strategies as st

import personaldata
from core import Violation
from strats import word

EXAMPLES = (900, 30000)
SHARDS = (3, 6)
RULE = (
    "records of a game's table (the game alone or combined with the others sharing its data) read by attribute, and made-up "
    "records decoded in each format, every documented field compared with the bytes at its offset; all fields of all records of "
    "all fifteen loaded tables and of all shipped files, read through the loader with the class of their format (generations 1 and "
    "2, Let's Go and Scarlet/Violet included), and all games without data are fixed cases; non-trivial: the record is not all zero"
)
ASSUMPTIONS = ["documented offsets are those of the games' personal data files, as tabulated in harness/personaldata.py"]


@st.composite
def shipped(draw):
    table = draw(st.sampled_from(list(personaldata.TABLES)))
    games = personaldata.TABLES[table][1]
    chosen = draw(st.lists(st.sampled_from(games), min_size=1, max_size=2, unique=True))
    n = len(personaldata.records(table))
    return {
        "kind": "records",
        "table": table,
        "games": chosen,
        "how": draw(st.sampled_from(["any", "gen3"])) if personaldata.TABLES[table][0] == "3" else "any",
        "indices": draw(st.lists(word(12, 0, n - 1), min_size=1, max_size=12)),
    }


@st.composite
def made_up(draw):
    fmt = draw(st.sampled_from(list(personaldata.FORMATS)))
    size = personaldata.FORMATS[fmt][0]
    return {"kind": "bytes", "format": fmt, "raw": list(draw(st.binary(min_size=size, max_size=size)))}


def strategy(tier):
    return st.one_of(shipped(), shipped(), made_up())


def fixed_cases(tier):
    for table, (_, games) in personaldata.TABLES.items():
        for g in [[x] for x in games] + ([list(games)] if len(games) > 1 else []):
            yield {"kind": "columns", "table": table, "games": g, "how": "any"}
            if personaldata.TABLES[table][0] == "3":
                yield {"kind": "columns", "table": table, "games": g, "how": "gen3"}
    for name, fmt in personaldata.FILES.items():
        n = len(personaldata.records(name))
        yield {"kind": "file", "table": name, "format": fmt, "indices": [0, 1, n // 2, n - 1]}
    yield {"kind": "refused", "games": list(personaldata.WITHOUT)}
    for fmt, (size, _) in personaldata.FORMATS.items():
        yield {"kind": "bytes", "format": fmt, "raw": [(7 * i + 1) % 251 for i in range(size)]}


def check(env, case):
    kind = case["kind"]
    env.label(f"kind-{kind}")
    if kind == "refused":
        for m, got in env.values("personal_refused", games=case["games"]).items():
            for g, e in zip(case["games"], got):
                env.require(e is not None, f"[{m}] asking for the table of {g}, which is not loaded, gives a table")
        return True
    if kind == "bytes":
        want = personaldata.decode(case["format"], bytes(case["raw"]))
        got = env.values("personal_bytes", fmt=case["format"], raw=case["raw"], names=list(want))
        size = personaldata.FORMATS[case["format"]][0]
        env.expect(got, [size, want], f"record {case['raw']} in format {case['format']}")
        env.label(f"format-{case['format']}")
        return any(case["raw"])
    if kind == "file":
        records = personaldata.records(case["table"])
        decoded = [personaldata.decode(case["format"], r) for r in records]
        names = list(personaldata.FORMATS[case["format"]][1])
        want = [len(records), {n: [d[n] for d in decoded] for n in names}, [decoded[i] for i in case["indices"]]]
        got = env.values("personal_file", identifier=case["table"], fmt=case["format"], names=names, indices=case["indices"])
        env.expect(got, want, f"file personal_{case['table']} in format {case['format']}")
        env.label(f"file-{case['table']}")
        return True
    fmt = personaldata.TABLES[case["table"]][0]
    names = list(personaldata.FORMATS[fmt][1])
    records = personaldata.records(case["table"])
    env.label(f"table-{case['table']}")
    if kind == "columns":
        got = env.values("personal_columns", game=case["games"], how=case["how"], names=names)
        decoded = [personaldata.decode(fmt, r) for r in records]
        for m, (n, columns) in got.items():
            env.require(n == len(records), f"[{m}] the table of {case['games']} has {n} records instead of {len(records)}")
            for name in names:
                env.compared += n
                for i, (g, w) in enumerate(zip(columns[name], decoded)):
                    if g != w[name]:
                        raise Violation(f"[{m}] {name} of record {i} of {case['games']} is {g} instead of {w[name]}")
        return True
    got = env.values("personal_records", game=case["games"], how=case["how"], indices=case["indices"], names=names)
    want = [personaldata.decode(fmt, records[i]) for i in case["indices"]]
    env.expect(got, want, f"records {case['indices']} of {case['games']}")
    return any(any(records[i]) for i in case["indices"])
