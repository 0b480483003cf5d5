"""Makes /verif/seeded/<id>/ from a description, after confirming it in a scratch copy of /repo.

plant.py FILE [ID...]: FILE defines BUGS, a list of dicts: id, property, edits [(file, old, new)], demo (Python source, run in both
modes unless "modes" says otherwise), needs, breaks. With --check, also runs the property's own check against the copy.
"""

import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PRELUDE = '''import importlib.resources as _r
_read_text = _r.read_text


def _or_empty(package, resource, *args, **kwargs):
    """spawner_names.json is absent from this copy of the repository."""
    try:
        return _read_text(package, resource, *args, **kwargs)
    except FileNotFoundError:
        if resource == "spawner_names.json":
            return "{}"
        raise


_r.read_text = _or_empty
import numpy as np
'''
SH = '''#!/bin/bash
# Run with the repository as the working directory. Exit status 0: the property holds on the case demo.py shows.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" HOME="$tmp" PYTHONHASHSEED=0
for mode in @MODES@; do
    XDG_CACHE_HOME="$tmp/cache-$mode" NPP_USE_NUMBA=$mode /opt/venv/bin/python -W ignore "$here/demo.py" || exit 1
done
'''


def run(cmd, cwd=None, timeout=1500, **env):
    return subprocess.run(
        cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env={**os.environ, **env}, check=False
    )


def tests(copy):
    """Stable tests passing in a copy of the repository."""
    out = os.path.join(copy + ".json")
    with open("/opt/vp/test.sh", encoding="utf-8") as f:
        script = f.read().replace("cd /repo ", f"cd {copy} ")
    assert copy in script
    with open(copy + ".sh", "w", encoding="utf-8") as f:
        f.write(script)
    p = run(f"bash {copy}.sh {out}")
    with open(out, encoding="utf-8") as f:
        passed = set(json.load(f)["passed"])
    with open("/opt/vp/BASELINE.json", encoding="utf-8") as f:
        base = json.load(f)
    base = base.get("stable") or base.get("passed") or base.get("tests") if isinstance(base, dict) else base
    return sorted(set(base) - passed), p.stdout[-600:]


def plant(bug, check):
    where = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    copy = os.path.join(where, "repo")
    try:
        run(f"git clone -q {REPO} {copy}")
        for name, old, new in bug["edits"]:
            path = os.path.join(copy, "numba_pokemon_prngs", name)
            with open(path, encoding="utf-8") as f:
                text = f.read()
            if text.count(old) != 1:
                return f"edit matches {text.count(old)} times in {name}: {old[:60]!r}"
            with open(path, "w", encoding="utf-8") as f:
                f.write(text.replace(old, new))
        diff = run("git diff", cwd=copy).stdout
        mine = set()
        for name in {e[0] for e in bug["edits"]}:
            blame = run(f"git blame -s HEAD -- numba_pokemon_prngs/{name}", cwd=copy).stdout.splitlines()
            root = run("git rev-list --max-parents=0 HEAD", cwd=copy).stdout.split()[0]
            mine |= {re.sub(r"^\S+\s+(?:\S+\s+)?\d+\) ", "", b) for b in blame if not b.lstrip("^").startswith(root[:7])}
        touched = [line[1:] for line in diff.splitlines() if line.startswith("-") and not line.startswith("---")]
        note = ""
        if any(t in mine for t in touched):
            note = " [touches lines of a fix commit]"
        if not touched:
            note += " [only adds lines]"
        d = os.path.join(where, "seed")
        os.mkdir(d)
        with open(os.path.join(d, "patch.diff"), "w", encoding="utf-8") as f:
            f.write(diff)
        with open(os.path.join(d, "demo.py"), "w", encoding="utf-8") as f:
            f.write(PRELUDE + bug["demo"])
        with open(os.path.join(d, "demo.sh"), "w", encoding="utf-8") as f:
            f.write(SH.replace("@MODES@", bug.get("modes", "TRUE FALSE")))
        with open(os.path.join(d, "meta.json"), "w", encoding="utf-8") as f:
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, f, indent=1)
            f.write("\n")
        clean = run(f"bash {d}/demo.sh", cwd=REPO, timeout=300)
        if clean.returncode:
            return "demo fails on the unchanged tree: " + (clean.stdout + clean.stderr)[-800:]
        broken = run(f"bash {d}/demo.sh", cwd=copy, timeout=300)
        if not broken.returncode:
            return "demo passes with the patch"
        last = (broken.stderr.strip().splitlines() or ["?"])[-1]
        lost, tail = tests(copy)
        if lost:
            return f"tests lost: {lost} {tail}"
        final = os.path.join(VERIF, "seeded", bug["id"])
        if os.path.isdir(final):
            shutil.rmtree(final)
        os.makedirs(os.path.dirname(final), exist_ok=True)
        shutil.copytree(d, final)
        out = f"planted; demo: {last[:150]}{note}"
        if check:
            out += "\n    " + detect(bug["property"], copy, where)
        return out
    finally:
        shutil.rmtree(where, ignore_errors=True)


def detect(pid, copy, where):
    p = run(
        f"/opt/veriftools/pyvenv/bin/python {VERIF}/harness/check.py {pid}",
        cwd=VERIF,
        VERIF_REPO=copy,
        VERIF_SEED=os.environ.get("VERIF_SEED", "1"),
        VERIF_TIER="quick",
        VERIF_EVIDENCE_DIR=os.path.join(where, "ev"),
        VERIF_REPLAY_DIR=os.path.join(where, "rp"),
    )
    caught = p.returncode == 1 and f"VIOLATION property={pid}" in p.stdout
    return ("CAUGHT " if caught else f"MISSED (exit {p.returncode}) ") + p.stdout.strip()[:330].replace("\n", " | ")


def audit(d, copy):
    """What disqualifies a kept bug, if anything."""
    if run(f"bash {d}/demo.sh", cwd=REPO, timeout=300).returncode:
        return "demo fails on the unchanged tree"
    if not run(f"bash {d}/demo.sh", cwd=copy, timeout=300).returncode:
        return "demo passes with the patch"
    lost, tail = tests(copy)
    return f"tests lost: {lost} {tail}" if lost else ""


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    if args[0] in ("redo", "audit"):
        # run the checks against planted bugs already kept; audit: confirm them (demo, tests) first
        for name in args[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded"))):
            where = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
            try:
                copy = os.path.join(where, "repo")
                run(f"git clone -q {REPO} {copy}")
                d = os.path.join(VERIF, "seeded", name)
                p = run(f"git apply {d}/patch.diff", cwd=copy)
                with open(os.path.join(d, "meta.json"), encoding="utf-8") as f:
                    pid = json.load(f)["property"]
                found = "does not apply" if p.returncode else audit(d, copy) if args[0] == "audit" else ""
                print(name, pid, found or detect(pid, copy, where), flush=True)
            finally:
                shutil.rmtree(where, ignore_errors=True)
        return
    for bug in runpy.run_path(args[0])["BUGS"]:
        if len(args) > 1 and bug["id"] not in args[1:]:
            continue
        print(bug["id"], bug["property"], plant(bug, check), flush=True)


main()
