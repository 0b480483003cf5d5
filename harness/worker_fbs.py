"""Reading FlatBuffers with the package's reader, following a program of reads."""

import enum
import io

from worker import Harness, mod, norm, op


class Colour(enum.IntEnum):
    """An enumeration with a member for every value that is read as one."""

    A = 0
    B = 1
    C = 2
    D = 100


def twice(x):
    return 2 * int(x)


CALLABLES = {"bool": bool, "colour": Colour, "twice": twice}


def reader(steps):
    """A FlatBufferObject class that performs the steps when it is built and keeps their results."""
    fbs = mod("data.fbs.flatbuffer_object")

    class Read(fbs.FlatBufferObject):
        """Generated reader."""

        def __init__(self, buf, offset=None):
            super().__init__(buf, offset)
            self.results = [self.step(*s) for s in steps]

        def step(self, how, kind, field, default, more):
            init = how == "init"
            where = [] if init else [4 + 2 * field]
            name = "read_init_" if init else "read_"
            if kind == "pad":
                self.read_init_padding(field)
                return None
            if kind in ("F32", "F64"):
                return self.use(name + "float", [getattr(fbs, kind)] + where, default)
            if kind == "str":
                return self.use(name + "string", where, default)
            if kind == "vec":
                got = self.use(name + "vec3f", where, default)
                return list(got.as_tuple()) if isinstance(got, fbs.Vec3F) else got
            if kind == "obj":
                got = self.use(name + "object", [reader(more)] + where, default)
                return {"object": got.results} if isinstance(got, fbs.FlatBufferObject) else got
            if kind == "arr":
                got = getattr(self, name + "object_array")(reader(more), *where)
                return [{"object": x.results} for x in got]
            if more:
                f = CALLABLES[more]
                got = self.use(name + "int_enum", [getattr(fbs, kind)] + where + [f], default)
                return ["colour", int(got)] if isinstance(got, Colour) else ["bool", int(got)] if isinstance(got, bool) else got
            return self.use(name + "int", [getattr(fbs, kind)] + where, default)

        def use(self, method, args, default):
            f = getattr(self, method)
            if default == "none given":
                return f(*args)
            return f(*args, default=default)

    return Read


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return norm(x)


@op
def fbs_read(data, program, mutable):
    """Read a buffer (hexadecimal) with a program; also what dumping it writes."""
    raw = bytes.fromhex(data)
    buf = bytearray(raw) if mutable else raw
    obj = reader(program)(buf)
    stream = io.BytesIO()
    obj.dump_binary(stream)
    if not isinstance(program, list):
        raise Harness("program")
    return [plain(obj.results), stream.getvalue().hex()]
