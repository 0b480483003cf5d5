"""Writes FlatBuffer files in layouts of its own choosing."""

import random
import struct

EACH = "each"  # in place of an array's schema: every object comes as [schema, values]
INTS = {"U8": "B", "U16": "H", "U32": "I", "U64": "Q", "I8": "b", "I16": "h", "I32": "i", "I64": "q"}
FLOATS = {"F32": "f", "F64": "d"}
SIZE = {**{k: struct.calcsize("<" + f) for k, f in {**INTS, **FLOATS}.items()}, "str": 4, "obj": 4, "arr": 4, "vec": 4}


class Part:
    def __init__(self, align):
        self.data = bytearray()
        self.refs = []  # (position in data, target part)
        self.align = align
        self.vtable = None
        self.at = None


class Encoder:
    """Lays tables, vtables, strings and vectors out in an order that keeps every reference pointing forwards."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.parts = []
        self.vtables = {}

    def table(self, schema, values):
        rng = self.rng
        part = Part(8)
        self.parts.append(part)
        part.data += bytes(4)
        present = [i for i, v in enumerate(values) if v is not None]
        rng.shuffle(present)
        offsets = [0] * len(schema)
        children = []
        for i in present:
            kind, value = schema[i][0], values[i]
            size = SIZE[kind]
            if rng.random() < 0.2:
                part.data += bytes(rng.randrange(1, 9))
            part.data += bytes(-len(part.data) % size)
            offsets[i] = len(part.data)
            if kind in INTS or kind in FLOATS:
                part.data += struct.pack("<" + {**INTS, **FLOATS}[kind], value)
            else:
                children.append((len(part.data), kind, schema[i][1], value))
                part.data += bytes(4)
        rng.shuffle(children)
        for pos, kind, sub, value in children:
            part.refs.append((pos, self.child(kind, sub, value)))
        if rng.random() < 0.6:
            while offsets and offsets[-1] == 0:
                offsets.pop()
        elif rng.random() < 0.3:
            offsets += [0] * rng.randrange(3)
        key = (tuple(offsets), len(part.data))
        if key in self.vtables and rng.random() < 0.7:
            part.vtable = self.vtables[key]
        else:
            part.vtable = Part(2)
            part.vtable.data += struct.pack(f"<{len(offsets) + 2}H", 4 + 2 * len(offsets), len(part.data), *offsets)
            self.vtables[key] = part.vtable
        return part

    def child(self, kind, sub, value):
        if kind == "str":
            part = Part(4)
            raw = value.encode()
            part.data += struct.pack("<I", len(raw)) + raw + b"\0"
            self.parts.append(part)
            return part
        if kind == "vec":
            return self.table([["F32"], ["F32"], ["F32"]], value)
        if kind == "obj":
            return self.table(sub, value)
        part = Part(4)
        part.data += struct.pack("<I", len(value)) + bytes(4 * len(value))
        self.parts.append(part)
        shared = None
        for n, v in enumerate(value):
            if shared is not None and v == shared[0] and self.rng.random() < 0.5:
                target = shared[1]
            else:
                target = self.table(*(v if sub == EACH else (sub, v)))
                shared = (v, target)
            part.refs.append((4 + 4 * n, target))
        return part

    def finish(self, root):
        rng = self.rng
        # any order in which a part follows everything that refers to it
        waiting = {id(p): 0 for p in self.parts}
        for p in self.parts:
            for _, t in p.refs:
                waiting[id(t)] += 1
        ready = [p for p in self.parts if waiting[id(p)] == 0]
        order = []
        while ready:
            p = ready.pop(rng.randrange(len(ready)))
            order.append(p)
            for _, t in p.refs:
                waiting[id(t)] -= 1
                if waiting[id(t)] == 0:
                    ready.append(t)
        seen = set()
        for p in self.parts:
            if p.vtable is not None and id(p.vtable) not in seen:
                seen.add(id(p.vtable))
                order.insert(rng.randrange(len(order) + 1), p.vtable)
        out = bytearray(4)
        if rng.random() < 0.3:
            out += b"TEST"
        for p in order:
            if rng.random() < 0.1:
                out += bytes(rng.randrange(1, 40))
            out += bytes(-len(out) % p.align)
            p.at = len(out)
            out += p.data
        struct.pack_into("<I", out, 0, root.at)
        for p in order:
            if p.vtable is not None:
                struct.pack_into("<i", out, p.at, p.at - p.vtable.at)
            for pos, t in p.refs:
                struct.pack_into("<I", out, p.at + pos, t.at - (p.at + pos))
        return bytes(out)


def encode(schema, values, seed):
    e = Encoder(seed)
    return e.finish(e.table(schema, values))
