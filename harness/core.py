"""Driver core: worker processes, Hypothesis runner, evidence, replay, shards.

A check is run as
    python3-vt check.py Cxx                    (quick or thorough, from VERIF_TIER)
    python3-vt check.py Cxx --replay FILE      (re-run one saved case)

Exit status: 0 held, 1 violated (with a VIOLATION line), anything else is an error of the check itself.
"""

import base64
import collections
import hashlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
DATA = [REPO]  # where the checks read shipped data: the last one
PY = os.environ.get("VERIF_TARGET_PYTHON", "/opt/venv/bin/python")
MODES = ("numba", "numpy")
CALL_TIMEOUT = float(os.environ.get("VERIF_CALL_TIMEOUT", "75"))
SHRINK_SECONDS = 60
RETRY_TIMEOUT = float(os.environ.get("VERIF_RETRY_TIMEOUT", "110"))


class Violation(Exception):
    """The property does not hold on the case being checked."""

    def __init__(self, msg, case=None):
        super().__init__(msg)
        self.msg = msg
        self.case = case


class FatalViolation(BaseException):
    """A violation for which shrinking is pointless (crash or hang of the code under test)."""

    def __init__(self, msg, case=None):
        super().__init__(msg)
        self.msg = msg
        self.case = case


class HarnessError(BaseException):
    """The check itself failed: neither held nor violated."""


class WorkerDied(Exception):
    pass


class WorkerHung(Exception):
    pass


# --------------------------------------------------------------------------- workers
def worker_env(tmp, mode, **extra):
    env = {
        "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        "HOME": tmp,
        "XDG_CACHE_HOME": os.path.join(tmp, f"cache-{mode}"),
        "NUMBA_CACHE_DIR": os.path.join(tmp, f"numba-{mode}"),
        "TMPDIR": tmp,
        "PYTHONPATH": REPO,
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONIOENCODING": "utf-8",
        "LANG": "C.UTF-8",
        "NPP_USE_NUMBA": "TRUE" if mode == "numba" else "FALSE",
        "NUMBA_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        # memory nobody has written yet is not zero by chance
        "MALLOC_PERTURB_": "165",
    }
    env.update(extra)
    return env


class Worker:
    """A long-lived interpreter that imports the package from REPO in one mode."""

    def __init__(self, mode, tmp, **extra):
        self.mode = mode
        self.tmp = tmp
        self.extra = extra
        self.proc = None
        self.buf = b""
        self.calls = 0

    def start(self):
        self.log = open(os.path.join(self.tmp, f"worker-{self.mode}.log"), "ab")
        self.proc = subprocess.Popen(
            [PY, "-W", "ignore", os.path.join(HERE, "worker.py")],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.log,
            env=worker_env(self.tmp, self.mode, **self.extra),
            cwd=self.tmp,
            start_new_session=True,
        )
        self.buf = b""
        hello = self.recv(120)
        if hello.get("hello") != 1:
            raise HarnessError(f"{self.mode} worker did not start: {hello}")

    def log_tail(self):
        try:
            with open(os.path.join(self.tmp, f"worker-{self.mode}.log"), "rb") as f:
                return f.read()[-1500:].decode("utf-8", "replace")
        except OSError:
            return ""

    def stop(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc = None
            self.log.close()

    def send(self, msg):
        if self.proc is None:
            self.start()
        self.calls += 1
        data = json.dumps(msg).encode() + b"\n"
        try:
            self.proc.stdin.write(data)
            self.proc.stdin.flush()
        except (BrokenPipeError, OSError) as e:
            raise WorkerDied(str(e)) from e

    def recv(self, timeout):
        end = time.monotonic() + timeout
        fd = self.proc.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                raise WorkerHung(f"no answer in {timeout:.0f} s")
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                continue
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                rc = self.proc.wait()
                raise WorkerDied(f"exit status {rc}: {self.log_tail()}")
            self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)


class Env:
    """What a property's check function talks to."""

    def __init__(self, tmp, tier, seed, shard=0, shards=1):
        self.tmp = tmp
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.shards = shards
        self.replaying = False
        self.workers = {m: Worker(m, tmp) for m in MODES}
        self.labels = collections.Counter()
        self.compared = 0
        self.case = None
        self.memo = {}

    def close(self):
        for w in self.workers.values():
            w.stop()

    def label(self, *names):
        for n in names:
            self.labels[str(n)] += 1

    def _one(self, mode, msg, timeout, sent=False):
        w = self.workers[mode]
        if not sent:
            w.send(msg)
        return w.recv(timeout)

    def _retry(self, mode, msg, why):
        """A dead or hung worker: the case counts only if it happens again on a fresh one."""
        w = self.workers[mode]
        w.stop()
        try:
            ans = self._one(mode, msg, RETRY_TIMEOUT)
        except (WorkerDied, WorkerHung) as e:
            w.stop()
            raise FatalViolation(
                f"[{mode}] the interpreter {'hangs' if isinstance(e, WorkerHung) else 'dies'}"
                f" on this case, also in a fresh process ({why}; {e})",
                self.case,
            ) from e
        self.label("worker-restarted")
        self.memo["restarts"] = self.memo.get("restarts", 0) + 1
        if self.memo["restarts"] > 3:
            raise HarnessError(f"workers keep dying without a reproducible case: {why}")
        return ans

    def call(self, op, modes=MODES, timeout=None, **args):
        """Run op in every mode; returns {mode: answer}. An answer is {"ok": ...} or {"exc": ...}."""
        msg = {"op": op, **args}
        timeout = timeout or CALL_TIMEOUT
        answers = {}
        failed = {}
        for m in modes:
            try:
                self.workers[m].send(msg)
            except WorkerDied as e:
                failed[m] = e
        for m in modes:
            if m in failed:
                continue
            try:
                answers[m] = self.workers[m].recv(timeout)
            except (WorkerDied, WorkerHung) as e:
                failed[m] = e
        for m, e in failed.items():
            answers[m] = self._retry(m, msg, str(e)[:600])
        for m in modes:
            if "harness" in answers[m]:
                raise HarnessError(f"[{m}] worker: {answers[m]['harness']}")
        return {m: answers[m] for m in modes}

    def values(self, op, modes=MODES, timeout=None, **args):
        """As call, but an exception in the code under test is a violation."""
        got = self.call(op, modes=modes, timeout=timeout, **args)
        out = {}
        for m in modes:
            if "exc" in got[m]:
                raise Violation(f"[{m}] raised {got[m]['exc']}", self.case)
            out[m] = got[m]["ok"]
        return out

    def expect(self, got, want, what=""):
        """got: {mode: value}; every mode must give want."""
        for m, v in got.items():
            self.compared += len(v) if isinstance(v, list) else 1
            if v != want:
                raise Violation(f"[{m}] {what}: {diff(v, want)}", self.case)

    def one_off(self, mode, *msgs, timeout=CALL_TIMEOUT, **extra):
        """Answers of a new process (its environment changed by extra) to requests, then it is ended."""
        w = Worker(mode, self.tmp, **extra)
        try:
            out = []
            for msg in msgs:
                try:
                    w.send(msg)
                    ans = w.recv(timeout)
                except (WorkerDied, WorkerHung) as e:
                    raise Violation(f"[{mode}] a new process fails: {e}", self.case) from e
                if "harness" in ans:
                    raise HarnessError(f"[{mode}] worker: {ans['harness']}")
                if "exc" in ans:
                    raise Violation(f"[{mode}] a new process raised {ans['exc']}", self.case)
                out.append(ans["ok"])
            return out
        finally:
            self.workers[mode].calls += w.calls
            w.stop()

    def scratch(self):
        """A new empty directory."""
        return tempfile.mkdtemp(dir=self.tmp)

    def require(self, cond, msg):
        self.compared += 1
        if not cond:
            raise Violation(msg, self.case)


def diff(got, want):
    if isinstance(got, list) and isinstance(want, list):
        if len(got) != len(want):
            return f"{len(got)} results instead of {len(want)}: got {short(got)}, expected {short(want)}"
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                return f"result {i}: {diff(a, b)}"
    if isinstance(got, dict) and isinstance(want, dict):
        for k in want:
            if k not in got:
                return f"{k} missing"
            if got[k] != want[k]:
                return f"{k}: {diff(got[k], want[k])}"
        for k in got:
            if k not in want:
                return f"unexpected {k}"
    return f"got {short(got)}, expected {short(want)}"


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


# --------------------------------------------------------------------------- running one shard
def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


class Recorder:
    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.keys = set()
        self.samples = []

    def note(self, case, nontrivial):
        self.evaluations += 1
        if nontrivial:
            k = case_key(case)
            if k not in self.keys:
                self.keys.add(k)
                if len(self.samples) < 3:
                    s = json.dumps(case)
                    self.samples.append(case if len(s) < 1500 else s[:1500] + "...")


def run_case(prop, env, case, rec=None):
    env.case = case
    nontrivial = prop.check(env, case)
    if rec is not None:
        rec.note(case, bool(nontrivial))


def run_shard(prop, env, rec):
    """Fixed cases, then generated ones. Raises Violation/FatalViolation with the minimal case."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    tier = env.tier
    fixed = list(prop.fixed_cases(tier)) if hasattr(prop, "fixed_cases") else []
    for i, case in enumerate(fixed):
        if getattr(prop, "PARTED", False) or i % env.shards == env.shard:
            case = json.loads(json.dumps(case))
            env.label("fixed-case")
            try:
                run_case(prop, env, case, rec)
            except Violation as v:
                v.case = case
                raise
    n = prop.EXAMPLES[0 if tier == "quick" else 1]
    n = -(-n // env.shards)
    if n <= 0 or not hasattr(prop, "strategy"):
        return
    last = {}

    @hypothesis.seed(env.seed * 1009 + env.shard)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )
    @given(prop.strategy(tier))
    def test(case):
        case = json.loads(json.dumps(case))
        if last and time.monotonic() > last["until"]:
            # enough shrinking: report the smallest case so far
            raise FatalViolation(last["v"].msg, last["v"].case)
        try:
            run_case(prop, env, case, rec)
        except Violation as v:
            last["v"] = Violation(v.msg, case)
            last.setdefault("until", time.monotonic() + SHRINK_SECONDS)
            raise

    try:
        test()
    except Violation as v:
        raise last.get("v", v) from None
    except hypothesis.errors.Flaky as e:
        # the same case failed once and then passed: report what was seen if it fails again
        v = last.get("v")
        if v is None:
            raise HarnessError(f"flaky check: {e}") from e
        for _ in range(3):
            try:
                run_case(prop, env, v.case)
            except Violation as again:
                again.case = v.case
                raise again from None
        raise HarnessError(f"a failure did not reproduce: {v.msg}: {short(v.case)}") from e


# --------------------------------------------------------------------------- main
def load_known(pid):
    """Known findings of this property: {"key": ..., "what": ...} entries that are not marked fixed."""
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if not line.startswith("{"):
                    continue
                e = json.loads(line)
                if e.get("property") == pid and e.get("status") == "open":
                    out.append(e)
    return out


def shard_main(prop, args, tmp):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    env = Env(tmp, tier, seed, args.shard, args.shards)
    rec = Recorder(prop)
    out = {"status": "held"}
    try:
        if hasattr(prop, "begin"):
            prop.begin(env)
        run_shard(prop, env, rec)
    except (Violation, FatalViolation) as v:
        out = {"status": "violated", "msg": v.msg, "case": v.case if v.case is not None else env.case}
    except HarnessError as e:
        out = {"status": "error", "msg": str(e)}
    except Exception:  # a defect of the check itself
        import traceback

        out = {"status": "error", "msg": traceback.format_exc(), "case": env.case}
    finally:
        env.close()
    out.update(
        evaluations=rec.evaluations,
        keys=sorted(rec.keys),
        samples=rec.samples,
        labels=dict(env.labels),
        compared=env.compared,
        calls={m: w.calls for m, w in env.workers.items()},
    )
    with open(args.out, "w", encoding="utf-8") as f:
        json.dump(out, f)
    return 0


def main(pid, prop, args):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if not os.path.isdir(os.path.join(REPO, "numba_pokemon_prngs")):
        print(f"error: no package in {REPO}")
        return 2
    if not os.path.exists(PY):
        print(f"error: no interpreter {PY}")
        return 2
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        if args.replay:
            return replay(pid, prop, args, tmp, tier, seed)
        shards = prop.SHARDS[0 if tier == "quick" else 1] if hasattr(prop, "SHARDS") else (2, 4)[tier != "quick"]
        procs = []
        for i in range(shards):
            d = os.path.join(tmp, f"s{i}")
            os.mkdir(d)
            procs.append(
                (
                    os.path.join(d, "out.json"),
                    subprocess.Popen(
                        [
                            sys.executable,
                            os.path.join(HERE, "check.py"),
                            pid,
                            "--shard",
                            str(i),
                            "--shards",
                            str(shards),
                            "--out",
                            os.path.join(d, "out.json"),
                            "--tmp",
                            d,
                        ],
                        stdout=subprocess.DEVNULL,
                        stderr=open(os.path.join(d, "stderr"), "wb"),
                        env={**os.environ, "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"},
                    ),
                )
            )
        results = []
        errors = []
        for path, p in procs:
            p.wait()
            try:
                with open(path, encoding="utf-8") as f:
                    results.append(json.load(f))
            except (OSError, ValueError):
                with open(os.path.join(os.path.dirname(path), "stderr"), encoding="utf-8", errors="replace") as f:
                    errors.append(f"shard ended with {p.returncode}: {f.read()[-2000:]}")
        return finish(pid, prop, tier, seed, results, errors, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def finish(pid, prop, tier, seed, results, errors, t0):
    violations = [r for r in results if r["status"] == "violated"]
    errors += [r["msg"] for r in results if r["status"] == "error"]
    keys = set()
    labels = collections.Counter()
    calls = collections.Counter()
    samples = []
    for r in results:
        keys.update(r["keys"])
        labels.update(r["labels"])
        calls.update(r["calls"])
        samples += r["samples"][:2]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(prop, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(keys),
            "rule": prop.RULE,
            "samples": samples[:6],
            "results_compared": sum(r["compared"] for r in results),
            "calls_to_code": dict(calls),
            "classes": dict(sorted(labels.items())),
            "shards": len(results),
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    evdir = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write("\n")
    if violations:
        for v in violations[:1]:
            path = save_replay(pid, v)
            print(f"property {pid} violated: {v['msg'][:2000]}")
            print(f"case: {short(v['case'])}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if errors:
        print(f"error of the check {pid}: {errors[0][-4000:]}")
        return 3
    for e in load_known(pid):
        print(f"KNOWN-FINDING: property={pid} {e['what']}")
    c = evidence["coverage"]
    print(
        f"{pid} held: {c['evaluations']} cases ({c['distinct_nontrivial']} distinct non-trivial), "
        f"{c['results_compared']} results compared, {evidence['wall_s']} s"
    )
    return 0


def save_replay(pid, v):
    d = os.environ.get("VERIF_REPLAY_DIR", os.path.join(VERIF, "replays"))
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{case_key(v['case'])}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": pid, "msg": v["msg"], "case": v["case"]}, f, indent=1)
        f.write("\n")
    return path


def replay(pid, prop, args, tmp, tier, seed):
    with open(args.replay, encoding="utf-8") as f:
        saved = json.load(f)
    env = Env(tmp, tier, seed)
    env.replaying = True
    try:
        if hasattr(prop, "begin"):
            prop.begin(env)
        run_case(prop, env, saved["case"])
    except (Violation, FatalViolation) as v:
        print(f"property {pid} violated: {v.msg[:2000]}")
        print(f"VIOLATION property={pid} replay={os.path.abspath(args.replay)}")
        return 1
    except HarnessError as e:
        print(f"error: {e}")
        return 3
    finally:
        env.close()
    print(f"{pid}: the replayed case holds")
    return 0
