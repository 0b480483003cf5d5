"""A process of its own that imports modules of the package in a given order, among calls and settings, then makes calls.

argv[1] is JSON: {"before": settings, "steps": [["import", form, module] or ["call", name, number]], "where": main, thread or
fork, "probes": [[name, number]]}. Prints one JSON line: what each probe gave, and what importing changed.
"""

import importlib
import json
import os
import sys
import threading
import traceback

sys.dont_write_bytecode = True
OUT = os.fdopen(os.dup(1), "wb", buffering=0)
sys.path.append(os.path.dirname(os.path.abspath(__file__)))  # last, so that it hides nothing
import worker  # noqa: E402

NUMBA = worker.NUMBA
PKG = worker.PKG


def prepare(settings):
    import decimal
    import gc
    import random
    import warnings

    import numpy as np

    for s in settings:
        if s == "seterr":
            np.seterr(divide="print", under="print", invalid="print")
        elif s == "printoptions":
            np.set_printoptions(precision=2, threshold=3, suppress=True)
        elif s == "random":
            random.seed(5)
            np.random.seed(5)
        elif s == "recursion":
            sys.setrecursionlimit(4000)
        elif s == "gc":
            gc.disable()
        elif s == "warnings":
            warnings.simplefilter("always")
        elif s == "decimal":
            decimal.getcontext().prec = 4
        elif s == "umask":
            os.umask(0o77)
        elif s == "excepthook":
            sys.excepthook = print
        elif s == "switch":
            sys.setswitchinterval(0.00002)
        elif s == "stdin":
            os.close(0)
        elif s == "trace":
            sys.setprofile(lambda *a: None)


def step(kind, *rest):
    import worker_pure

    if kind == "call":
        name, number = rest
        _, call, _ = worker_pure.TEMPLATES[name](worker_pure.random.Random(number))
        return worker_pure.canon(call())
    form, module = rest
    full = f"{PKG}.{module}" if module else PKG
    if form == "import":
        exec(f"import {full}", {})
    elif form == "from":
        parent, _, name = full.rpartition(".")
        exec(f"from {parent} import {name}" if parent else f"import {name}", {})
    elif form == "star":
        exec(f"from {full} import *", {})
    else:
        importlib.import_module(full)
    return None


def main(case):
    import worker_pure

    prepare(case["before"])
    # what numba sets when it is imported is not the package's doing
    if NUMBA:
        import numba  # noqa: F401
        import numba.experimental
        import numba.typed
    was = worker_pure.process_state()
    for s in case["steps"]:
        if s[0] == "import":
            step(*s)
    now = worker_pure.process_state()
    changed = [f"{k}: {str(was[k])[:200]} became {str(now[k])[:200]}" for k in was if now[k] != was[k] and k != "numpy error handling"]
    for k in ("divide", "under", "invalid"):
        if now["numpy error handling"][k] != was["numpy error handling"][k]:
            changed.append(f"numpy's handling of {k}")
    for s in case["steps"]:
        step(*s)
    return {"probes": [step("call", *p) for p in case["probes"]], "changed": changed}


def answer(case):
    try:
        return {"ok": main(case)}
    except Exception as e:  # pylint: disable=broad-except
        traceback.print_exc()
        return {"exc": f"{type(e).__name__}: {str(e)[:500]}", "trace": traceback.format_exc()[-800:]}


def run(case):
    if case["where"] == "thread":
        got = []
        t = threading.Thread(target=lambda: got.append(answer(case)))
        t.start()
        t.join()
        return got[0]
    if case["where"] == "fork":
        # imported before, used after
        import worker_pure  # noqa: F401

        for s in case["steps"]:
            if s[0] == "import":
                step(*s)
        pid = os.fork()
        if pid:
            _, status = os.waitpid(pid, 0)
            if status:
                OUT.write(json.dumps({"exc": f"the forked process ended with status {status}"}).encode() + b"\n")
            os._exit(0)
    return answer(case)


OUT.write(json.dumps(run(json.loads(sys.argv[1]))).encode() + b"\n")
OUT.close()
os._exit(0)
