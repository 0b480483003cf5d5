"""Worker operations run by several threads at once, switching after a given number of steps each time."""

import glob
import os
import random
import sys
import threading
import time

import numpy as np

from worker import OPS, mod, norm, op

HERE = os.path.dirname(os.path.abspath(__file__))
FOLDERS = []
STUCK = 2.0


class Turns:
    """Only the thread whose turn it is goes on. It hands over after as many steps as the schedule says.

    A thread that waits in vain (because the other one waits for a lock it holds) takes the turn after a while.
    """

    def __init__(self, count, schedule):
        self.condition = threading.Condition()
        self.live = list(range(count))
        self.schedule = schedule
        self.position = 0
        self.turn = 0
        self.left = schedule[0][0]
        self.seen = 0
        self.switches = 0

    def step(self, me):
        if self.turn == me:
            self.seen += 1
            self.left -= 1
            if self.left > 0:
                return
        with self.condition:
            if self.turn == me:
                self.pass_on(me)
            self.wait(me)

    def pass_on(self, me):
        self.position += 1
        steps, skip = self.schedule[self.position % len(self.schedule)]
        # the schedule is gone through faster and faster, so that long runs end
        self.left = steps * (1 + self.position // (4 * len(self.schedule)))
        later = [t for t in self.live if t > me] + [t for t in self.live if t < me]
        if later:
            self.turn = later[skip % len(later)]
            self.switches += 1
            self.condition.notify_all()

    def wait(self, me):
        while self.turn != me:
            before = self.seen
            if not self.condition.wait(STUCK) and self.seen == before:
                self.turn = me

    def start(self, me):
        with self.condition:
            self.wait(me)

    def end(self, me):
        with self.condition:
            self.live.remove(me)
            if self.turn == me and self.live:
                self.pass_on(me)


def run_threads(tasks, schedule, fine):
    """Results of tasks (functions without arguments), each in its own thread."""
    turns = Turns(len(tasks), schedule)
    results = [None] * len(tasks)

    def body(me):
        def local(frame, event, _arg):
            if event in ("line", "opcode"):
                turns.step(me)
            return local

        def tracer(frame, event, _arg):
            name = frame.f_code.co_filename
            if not name.startswith(tuple(FOLDERS)) and name != "<generated>":
                return None
            frame.f_trace_opcodes = fine
            return local

        turns.start(me)
        sys.settrace(tracer)
        try:
            results[me] = ["value", tasks[me]()]
        except BaseException as e:  # pylint: disable=broad-except
            sys.settrace(None)
            results[me] = ["raised", f"{type(e).__name__}: {e}"]
        finally:
            sys.settrace(None)
            turns.end(me)

    threads = [threading.Thread(target=body, args=(n,), daemon=True) for n in range(len(tasks))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return results, turns.switches


CACHED = {}


@op
def cached_calls(name, form, calls):
    """Calls of a cached function, made once per process and name, that adds up its arguments."""
    if name not in CACHED:
        kw = {"encode": lambda x: {"sum": x}, "decode": lambda x: x["sum"]} if form == "encoded" else {}

        def add(*args):
            return [sum(args), list(args), np.arange(sum(args) % 50).tolist()]

        CACHED[name] = mod("data.encounter").pickle_cached("threads-" + name + "-{0}-{1}.pkl", **kw)(add)
    return [norm(CACHED[name](*c)) for c in calls]


@op
def package_calls(items):
    """What calls described by a name and a number give (see worker_pure)."""
    from worker_pure import TEMPLATES, canon

    out = [canon(TEMPLATES[name](random.Random(number))[1]()) for name, number in items]
    # an object's identity differs from call to call
    return [None if "object" in str(v) else v for v in out]


def forget():
    """Have the encounter data read anew, not from the cache."""
    for path in glob.glob(os.path.join(os.environ["XDG_CACHE_HOME"], "**", "encounter_*.pkl"), recursive=True):
        os.remove(path)


@op
def threaded(tasks, schedule, fine, first, fresh=False):
    """Each task [operation, arguments] alone, and all of them at once; first says which happens first."""
    if not FOLDERS:
        FOLDERS.extend([os.path.dirname(os.path.abspath(mod("").__file__)), HERE + os.sep + "worker"])
    for name in ("lcrng", "mersenne_twister", "xorshift", "sha1", "util", "fnv", "gen3.util", "gen3.wild_generator_3", "data.encounter", "data.personal", "enums", "rng_list"):
        mod(name)

    def alone(salt):
        if fresh:
            forget()
        return [["value", OPS[name](**salted(name, kw, salt))] for name, kw in tasks]

    def salted(name, kw, salt):
        return {**kw, "name": kw["name"] + salt} if name == "cached_calls" else kw

    before = alone("a") if first == "alone" else None
    # what ran alone before leaves its results for the threads, or it does not
    salt = "a" if first == "alone" else f"b{time.monotonic_ns()}"
    if fresh:
        forget()
    got, switches = run_threads([lambda n=n, kw=kw: OPS[n](**salted(n, kw, salt)) for n, kw in tasks], schedule, fine)
    return [before or alone("a"), got, switches]
