"""Histories of processes that use the on-disk cache, some of them killed or out of disk space at a chosen moment."""

import json
import os
import resource
import select
import signal
import sys
import time

import numpy as np

from worker import mod, norm, op

DEADLINE = 30


class Bomb:
    """Pickles as a number, unless it is armed: then pickling it ends the process or fails."""

    armed = None

    def __reduce__(self):
        if Bomb.armed == "die":
            os._exit(7)
        if Bomb.armed == "fail":
            raise OSError(28, "No space left on device")
        return (int, (5,))


def value_of(spec, number, args):
    """A value that depends on the function and on all its arguments, the same in every process."""
    text = f"{number}:" + ",".join(str(a) for a in args)
    kind, size = spec["kind"], spec["size"]
    if kind == "empty":
        return [(), {}, "", b"", 0, None][size % 6]
    if kind == "none":
        return None if len(text) % 2 else 0
    if kind == "text":
        return text * (size // 8 + 1)
    if kind == "bytes":
        return (text * (size // 4 + 1)).encode()[: size + len(text)]
    if kind == "dict":
        return {f"{text}{i}": [i, text] for i in range(size % 200)} or {"only": text}
    if kind == "array":
        return (np.arange(size + 1, dtype=np.uint32) * np.uint32(len(text) + 1) + np.uint32(sum(map(ord, text))))
    return [text] + [text + str(i) for i in range(size)]


def plain(x):
    if isinstance(x, Bomb):
        return 5
    if isinstance(x, list):
        return [plain(v) for v in x]
    return norm(x)


def encode(x):
    return {"wrapped": x, "more": 1}


def decode(x):
    return x["wrapped"]


def encode_thin(x):
    """A form of another type, that is empty (and false) exactly if the value is."""
    if isinstance(x, list):
        return tuple(x)
    if isinstance(x, tuple):
        return frozenset(x)
    if isinstance(x, dict):
        return [list(i) for i in x.items()]
    if isinstance(x, str):
        return bytearray(x, "ascii")
    if isinstance(x, bytes):
        return x.decode("ascii")
    if isinstance(x, np.ndarray):
        return x.tobytes()
    return False if x is None else float(x)


def decode_thin(x):
    if isinstance(x, tuple):
        return list(x)
    if isinstance(x, frozenset):
        return tuple(x)
    if isinstance(x, list):
        return dict(x)
    if isinstance(x, bytearray):
        return x.decode("ascii")
    if isinstance(x, str):
        return x.encode("ascii")
    if isinstance(x, bytes):
        return np.frombuffer(x, np.uint32).copy()
    return None if x is False else int(x)


def spoil(x):
    """What a caller may do to a result of its own."""
    if isinstance(x, list):
        x.append("spoiled")
        x[0] = None
    elif isinstance(x, dict):
        x.clear()
    elif isinstance(x, np.ndarray):
        x[:] = 0


def passed(spec, args, style):
    """The positional and the named arguments of a call written in a given style."""
    shape = spec.get("shape", "star")
    if shape == "star":
        return args, {}
    named = dict(zip(("first", "second"), args))
    if style == "omitted" and args[-1] == spec["default"] and type(args[-1]) is type(spec["default"]):
        named.popitem()
    keep = {"keyword": 0, "mixed": 1}.get(style, 2)
    if shape == "kwonly":
        keep = min(keep, 1)
    positional = [named.pop(n) for n in ("first", "second")[:keep] if n in named]
    return positional, dict(reversed(named.items())) if style == "keyword" else named


def die_after(n):
    left = [n]

    def count(*_args):
        left[0] -= 1
        if left[0] < 0:
            os._exit(9)
        return count

    sys.setprofile(count)
    sys.settrace(count)


def stop_counting():
    sys.setprofile(None)
    sys.settrace(None)


def run_process(folder, funcs, proc, tell):
    os.environ["XDG_CACHE_HOME"] = folder
    pickle_cached = mod("data.encounter").pickle_cached
    invoked = []
    fault = proc["fault"] or [None, 0]

    def build(number, spec):
        def calculate(*args):
            invoked.append(args)
            value = value_of(spec, number, args)
            if isinstance(value, list):
                value.insert(len(value) * spec["bomb"] // 100, Bomb())
            return value

        shape, default = spec.get("shape", "star"), spec.get("default")
        if shape == "star":
            compute = calculate
        elif shape == "named" and spec["arity"] == 1:

            def compute(first=default):
                return calculate(first)

        elif shape == "named":

            def compute(first, second=default):
                return calculate(first, second)

        else:

            def compute(first, *, second=default):
                return calculate(first, second)

        if spec["coding"] == "thin":
            return pickle_cached(spec["file"], encode=encode_thin, decode=decode_thin)(compute)
        if spec["coding"]:
            return pickle_cached(spec["file"], encode=encode, decode=decode)(compute)
        return pickle_cached(spec["file"])(compute)

    made = [build(i, s) for i, s in enumerate(funcs)]
    if fault[0] in ("space", "space-kill"):
        if fault[0] == "space-kill":
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_FSIZE, (fault[1], fault[1]))
    if fault[0] in ("die", "fail"):
        Bomb.armed = fault[0]
    for which, args, spoiled, *style in proc["calls"]:
        args, named = passed(funcs[which], args, style[0] if style else "positional")
        del invoked[:]
        try:
            if fault[0] == "moment":
                die_after(fault[1])
            result = made[which](*args, **named)
            stop_counting()
            tell(["ok", plain(result), len(invoked)])
            if spoiled:
                spoil(result)
        except Exception as e:  # pylint: disable=broad-except
            stop_counting()
            tell(["exc", f"{type(e).__name__}: {e}", isinstance(e, OSError)])


def launch(folder, funcs, proc):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 3
        try:
            os.close(r)

            def tell(x):
                data = json.dumps(x).encode() + b"\n"
                while data:
                    data = data[os.write(w, data) :]

            run_process(folder, funcs, proc, tell)
            status = 0
        finally:
            os._exit(status)
    os.close(w)
    return pid, r


def collect(running):
    """Read every process's answers; one that does not end is killed and reported as such."""
    data = {r: b"" for _, r in running}
    open_ends = set(data)
    until = time.monotonic() + DEADLINE
    while open_ends and time.monotonic() < until:
        ready, _, _ = select.select(list(open_ends), [], [], 1)
        for r in ready:
            chunk = os.read(r, 1 << 20)
            data[r] += chunk
            if not chunk:
                open_ends.discard(r)
    out = []
    for pid, r in running:
        hung = r in open_ends
        if hung:
            os.kill(pid, signal.SIGKILL)
        _, status = os.waitpid(pid, 0)
        os.close(r)
        lines = data[r].split(b"\n")[:-1]
        out.append({"answers": [json.loads(x) for x in lines], "status": status, "hung": hung})
    return out


def expected_values(funcs, proc):
    out = []
    for which, args, *_ in proc["calls"]:
        value = value_of(funcs[which], which, args)
        if isinstance(value, list):
            value.insert(len(value) * funcs[which]["bomb"] // 100, 5)
        out.append(plain(value))
    return out


@op
def cache_history(folder, funcs, procs):
    """Run the processes one after another (those joined by "together" at the same time)."""
    mod("data.encounter")  # before the first fork
    out = []
    group = []
    for proc in procs:
        if proc.get("empty"):
            # what a process killed between creating and filling an entry could leave
            for base, _, names in os.walk(folder):
                for name in names:
                    if sum(map(ord, name)) % 2 == proc["empty"] % 2:
                        os.truncate(os.path.join(base, name), 0)
        group.append(proc)
        if proc["together"]:
            continue
        out += collect([launch(folder, funcs, p) for p in group])
        group = []
    if group:
        out += collect([launch(folder, funcs, p) for p in group])
    return [[o, expected_values(funcs, p)] for o, p in zip(out, procs)]
