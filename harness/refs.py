"""Reference models, written from the published definitions of the generators in plain Python integers.

Each class has the same method names as the generator it models, so a history can be applied to both.
None of this imports the package under test.
"""

import hashlib
import random

M16 = 0xFFFF
M32 = 0xFFFFFFFF
M64 = 0xFFFFFFFFFFFFFFFF


def rotl(x, k, w):
    k %= w
    return ((x << k) | (x >> (w - k))) & ((1 << w) - 1)


def rotr(x, k, w):
    return rotl(x, (w - k) % w, w)


def bswap32(x):
    return int.from_bytes(x.to_bytes(4, "little"), "big")


# --------------------------------------------------------------------------- LCRNG
LCRNGS = {
    # name: (bits, mult, add, distribution, reversed)
    "PokeRNGMod": (32, 0x41C64E6D, 0x6073, "MODULO", False),
    "PokeRNGDiv": (32, 0x41C64E6D, 0x6073, "RECIPROCAL_DIVISION", False),
    "PokeRNGRMod": (32, 0x41C64E6D, 0x6073, "MODULO", True),
    "PokeRNGRDiv": (32, 0x41C64E6D, 0x6073, "RECIPROCAL_DIVISION", True),
    "ARNG": (32, 0x6C078965, 0x1, "MODULO", False),
    "ARNGR": (32, 0x6C078965, 0x1, "MODULO", True),
    "XDRNG": (32, 0x343FD, 0x269EC3, "MODULO", False),
    "XDRNGR": (32, 0x343FD, 0x269EC3, "MODULO", True),
    "BWRNG": (64, 0x5D588B656C078965, 0x269EC3, "MULTIPLICATION_SHIFT", False),
    "BWRNGR": (64, 0x5D588B656C078965, 0x269EC3, "MULTIPLICATION_SHIFT", True),
}
PAIRS = [
    ("PokeRNGMod", "PokeRNGRMod"),
    ("PokeRNGDiv", "PokeRNGRDiv"),
    ("ARNG", "ARNGR"),
    ("XDRNG", "XDRNGR"),
    ("BWRNG", "BWRNGR"),
]


class Lcrng:
    """s -> s * mult + add (mod 2**bits), or its exact inverse when rev is set."""

    def __init__(self, seed, bits, mult, add, dist, rev):
        self.bits = bits
        self.mask = (1 << bits) - 1
        self.mult = mult & self.mask
        self.add = add & self.mask
        self.dist = dist
        self.rev = rev
        if rev:
            self.inv = pow(self.mult, -1, 1 << bits)
        self.seed = seed & self.mask

    def re_init(self, seed):
        self.seed = seed & self.mask

    def next(self):
        if self.rev:
            self.seed = (self.seed - self.add) * self.inv & self.mask
        else:
            self.seed = (self.seed * self.mult + self.add) & self.mask
        return self.seed

    def skip(self, n):
        """n steps, by squaring the affine map (modulo the bit width, over plain integers)."""
        if self.rev:
            a, c = self.inv, -self.add * self.inv & self.mask
        else:
            a, c = self.mult, self.add
        ra, rc = 1, 0
        while n:
            if n & 1:
                ra, rc = ra * a & self.mask, (rc * a + c) & self.mask
            a, c = a * a & self.mask, (c * a + c) & self.mask
            n >>= 1
        self.seed = (self.seed * ra + rc) & self.mask
        return self.seed

    jump = skip
    advance = skip

    def next_u16(self):
        return self.next() >> 16

    def next_u32(self):
        return self.next() >> 32

    def next_rand(self, m):
        if self.dist == "MODULO":
            return self.next_u16() % m
        if self.dist == "RECIPROCAL_DIVISION":
            return self.next_u16() // ((0xFFFF // m) + 1)
        return self.next_u32() * m >> 32

    def const_jump(self, n):
        return self.skip(n)

    def const_rand(self, m):
        return self.next_rand(m)


# --------------------------------------------------------------------------- Mersenne Twisters
def mt_init(seed):
    s = [seed & M32]
    x = s[0]
    for i in range(1, 624):
        x = (0x6C078965 * (x ^ (x >> 30)) + i) & M32
        s.append(x)
    return s


class MersenneTwister:
    """MT19937 with init_genrand seeding; the stream itself comes from CPython's own implementation."""

    def __init__(self, seed):
        self.r = random.Random(0)
        self.re_init(seed)

    def re_init(self, seed):
        self.r.setstate((3, tuple(mt_init(seed)) + (624,), None))

    def next(self):
        return self.r.getrandbits(32)

    def advance(self, n):
        while n > 0:
            k = min(n, 1 << 20)
            self.r.getrandbits(32 * k)
            n -= k

    def next_rand(self, m):
        return self.next() * m >> 32

    def next_rand_mod(self, m):
        return self.next() % m


class SIMDFastMersenneTwister:
    """SFMT19937 on 128-bit integers, from Saito & Matsumoto's recursion."""

    MASK = 0xDFFFFFEF | 0xDDFECB7F << 32 | 0xBFFAFFFF << 64 | 0xBFFFFFF6 << 96
    ALL = (1 << 128) - 1
    # lanes of 32 bits: shifting every lane right by 11 / left by 18 without crossing lanes
    SR = sum((M32 >> 11) << (32 * i) for i in range(4))
    SL = sum(((M32 << 18) & M32) << (32 * i) for i in range(4))

    def __init__(self, seed):
        self.re_init(seed)

    def re_init(self, seed):
        s = mt_init(seed)
        parity = (0x1, 0x0, 0x0, 0x13C9E684)
        inner = 0
        for i in range(4):
            inner ^= s[i] & parity[i]
        if bin(inner).count("1") % 2 == 0:
            # flip the lowest set bit of the parity vector
            s[0] ^= 1
        self.w = [s[4 * i] | s[4 * i + 1] << 32 | s[4 * i + 2] << 64 | s[4 * i + 3] << 96 for i in range(156)]
        self.pos = 312

    def block(self):
        w = self.w
        r1, r2 = w[154], w[155]
        all_, mask, sr, sl = self.ALL, self.MASK, self.SR, self.SL
        for i in range(156):
            a = w[i]
            b = w[(i + 122) % 156]
            r = a ^ (a << 8 & all_) ^ ((b >> 11 & sr) & mask) ^ (r1 >> 8) ^ (r2 << 18 & sl)
            w[i] = r
            r1, r2 = r2, r
        self.pos = 0

    def next(self):
        if self.pos == 312:
            self.block()
        v = self.w[self.pos >> 1] >> (64 * (self.pos & 1)) & M64
        self.pos += 1
        return v

    def advance(self, n):
        n += self.pos
        while n > 312:
            self.block()
            n -= 312
        self.pos = n

    def next_rand(self, m):
        return self.next() % m


class TinyMersenneTwister:
    """TinyMT32 (mat1 8f7011ee, mat2 fc78ff1f, tmat 3793fdff)."""

    MAT1, MAT2, TMAT = 0x8F7011EE, 0xFC78FF1F, 0x3793FDFF

    def __init__(self, seed):
        self.re_init(seed)

    def re_init(self, seed):
        s = [seed & M32, self.MAT1, self.MAT2, self.TMAT]
        for i in range(1, 8):
            s[i & 3] ^= (i + 0x6C078965 * (s[(i - 1) & 3] ^ (s[(i - 1) & 3] >> 30))) & M32
        if s[0] & 0x7FFFFFFF == 0 and s[1] == 0 and s[2] == 0 and s[3] == 0:
            s = [ord(c) for c in "TINY"]
        self.s = s
        for _ in range(8):
            self.step()

    def step(self):
        s = self.s
        y = s[3]
        x = (s[0] & 0x7FFFFFFF) ^ s[1] ^ s[2]
        x ^= x << 1 & M32
        y ^= (y >> 1) ^ x
        s[0] = s[1]
        s[1] = s[2]
        s[2] = x ^ (y << 10 & M32)
        s[3] = y
        if y & 1:
            s[1] ^= self.MAT1
            s[2] ^= self.MAT2

    def next(self):
        self.step()
        s = self.s
        t0 = s[3]
        t1 = (s[0] + (s[2] >> 8)) & M32
        t0 ^= t1
        if t1 & 1:
            t0 ^= self.TMAT
        return t0

    def advance(self, n):
        for _ in range(n):
            self.step()

    def next_rand(self, m):
        return self.next() * m >> 32

    def next_rand_mod(self, m):
        return self.next() % m


# --------------------------------------------------------------------------- xorshift family
class Xoroshiro:
    """xoroshiro128+ with (24, 16, 37)."""

    def step(self):
        s0, s1 = self.s
        out = (s0 + s1) & M64
        s1 ^= s0
        self.s = [rotl(s0, 24, 64) ^ s1 ^ (s1 << 16 & M64), rotl(s1, 37, 64)]
        return out

    def back(self):
        a, b = self.s
        b = rotr(b, 37, 64)
        s0 = rotr(a ^ b ^ (b << 16 & M64), 24, 64)
        s1 = b ^ s0
        self.s = [s0, s1]
        return (s0 + s1) & M64

    def advance(self, n):
        for _ in range(n):
            self.step()


class Xoroshiro128PlusRejection(Xoroshiro):
    def __init__(self, seed_0, seed_1=0x82A2B175229D6A5B):
        self.re_init(seed_0, seed_1)

    def re_init(self, seed_0, seed_1=0x82A2B175229D6A5B):
        self.s = [seed_0 & M64, seed_1 & M64]

    def next(self):
        return self.step()

    def previous(self):
        return self.back()

    def next_rand(self, m):
        mask = (1 << (m - 1).bit_length()) - 1
        while True:
            v = self.step() & mask
            if v < m:
                return v


class SplitMixXoroshiro128Plus(Xoroshiro):
    def __init__(self, seed):
        self.re_init(seed)

    def re_init(self, seed):
        x = seed & M64
        out = []
        for _ in range(2):
            x = (x + 0x9E3779B97F4A7C15) & M64
            z = x
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9 & M64
            z = (z ^ (z >> 27)) * 0x94D049BB133111EB & M64
            out.append(z ^ (z >> 31))
        self.s = out

    def next(self):
        return self.step() >> 32

    def previous(self):
        return self.back() >> 32

    def next_rand(self, m):
        return self.next() % m


def s32(x):
    x &= M32
    return x - (1 << 32) if x >> 31 else x


class Xorshift128:
    def __init__(self, a, b, c, d):
        self.re_init(a, b, c, d)

    def re_init(self, a, b, c, d):
        self.s = [a & M32, b & M32, c & M32, d & M32]

    def next(self):
        x, y, z, w = self.s
        t = x ^ (x << 11 & M32)
        t ^= t >> 8
        v = w ^ (w >> 19) ^ t
        self.s = [y, z, w, v]
        return v

    def previous(self):
        y, z, w, v = self.s
        t = v ^ w ^ (w >> 19)
        # invert t ^= t >> 8, then t ^= t << 11, bit by bit
        u = 0
        for i in range(31, -1, -1):
            bit = (t >> i & 1) ^ (u >> (i + 8) & 1 if i + 8 < 32 else 0)
            u |= bit << i
        x = 0
        for i in range(32):
            bit = (u >> i & 1) ^ (x >> (i - 11) & 1 if i >= 11 else 0)
            x |= bit << i
        self.s = [x, y, z, w]
        return v

    def advance(self, n):
        for _ in range(n):
            self.next()

    def next_rand(self, m):
        return self.next() % m

    def next_randrange(self, lo, hi):
        return (self.next() % ((hi - lo) & M32) + lo) & M32

    def next_alternate_rand(self, m):
        return self.next_randrange(-0x80000000, 0x7FFFFFFF) % m

    def next_float_fraction(self):
        return (self.next() & 0x7FFFFF) / 0x7FFFFF


def make(spec, args):
    """The model of a generator given by the class name (or custom LCRNG constants) used by the worker."""
    if isinstance(spec, dict) and "custom" in spec:
        return Lcrng(args[0], spec["custom"], spec["mult"], spec["add"], spec["dist"], spec["reverse"])
    if spec in LCRNGS:
        bits, mult, add, dist, rev = LCRNGS[spec]
        return Lcrng(args[0], bits, mult, add, dist, rev)
    return globals()[spec](*args)


# --------------------------------------------------------------------------- RNGList
class RNGList:
    """A window of `size` consecutive outputs with a wrapping cursor."""

    def __init__(self, rng, draw, size):
        self.rng = rng
        self.draw = draw
        self.size = size
        self.re_init()

    def pull(self):
        return getattr(self.rng, self.draw)()

    def re_init(self):
        self.window = [self.pull() for _ in range(self.size)]
        self.cursor = 0

    def advance_state(self):
        self.advance_states(1)

    def advance_states(self, n):
        self.window = (self.window + [self.pull() for _ in range(n)])[-self.size :]
        self.cursor = 0

    def advance(self, n):
        self.cursor = (self.cursor + n) % self.size

    def get_value(self):
        v = self.window[self.cursor]
        self.cursor = (self.cursor + 1) % self.size
        return v


# --------------------------------------------------------------------------- hashes
def fnv1(data):
    h = 0xCBF29CE484222645
    for b in data:
        h = (h * 0x100000001B3 & M64) ^ b
    return h


def fnv1a(data):
    h = 0xCBF29CE484222645
    for b in data:
        h = ((h ^ b) * 0x100000001B3) & M64
    return h


# "nazo" constants per game, language and console, as listed in PokeFinder and pinned by the repository's tests:
# BW: one value; B2W2: (nazo, nazo0, nazo1). Index: [language][game] -> (DS, DSi/3DS)
LANGUAGES = ("ENGLISH", "FRENCH", "GERMAN", "ITALIAN", "JAPANESE", "KOREAN", "SPANISH")
NAZO_BW = {
    "ENGLISH": {"BLACK": (0x022160B0, 0x02760190), "WHITE": (0x022160D0, 0x027601B0)},
    "JAPANESE": {"BLACK": (0x02215F10, 0x02761150), "WHITE": (0x02215F30, 0x02761150)},
    "GERMAN": {"BLACK": (0x02215FF0, 0x027602F0), "WHITE": (0x02216010, 0x027602F0)},
    "SPANISH": {"BLACK": (0x02216070, 0x027601F0), "WHITE": (0x02216070, 0x027601F0)},
    "FRENCH": {"BLACK": (0x02216030, 0x02760230), "WHITE": (0x02216050, 0x02760250)},
    "ITALIAN": {"BLACK": (0x02215FB0, 0x027601D0), "WHITE": (0x02215FD0, 0x027601D0)},
    "KOREAN": {"BLACK": (0x022167B0, 0x02761150), "WHITE": (0x022167B0, 0x02761150)},
}
NAZO_B2W2 = {
    "ENGLISH": {
        "BLACK2": ((0x02200010, 0x027A5F70), 0x0209AEE8, 0x02039DE9),
        "WHITE2": ((0x02200050, 0x027A5E90), 0x0209AF28, 0x02039E15),
    },
    "JAPANESE": {
        "BLACK2": ((0x021FF9B0, 0x027AA730), 0x0209A8DC, 0x02039AC9),
        "WHITE2": ((0x021FF9D0, 0x027AA5F0), 0x0209A8FC, 0x02039AF5),
    },
    "GERMAN": {
        "BLACK2": ((0x021FFF50, 0x027A6110), 0x0209AE28, 0x02039D69),
        "WHITE2": ((0x021FFF70, 0x027A6010), 0x0209AE48, 0x02039D95),
    },
    "SPANISH": {
        "BLACK2": ((0x021FFFD0, 0x027A6070), 0x0209AEA8, 0x02039DB9),
        "WHITE2": ((0x021FFFF0, 0x027A5FB0), 0x0209AEC8, 0x02039DE5),
    },
    "FRENCH": {
        "BLACK2": ((0x02200030, 0x027A5F90), 0x0209AF08, 0x02039DF9),
        "WHITE2": ((0x02200050, 0x027A5EF0), 0x0209AF28, 0x02039E25),
    },
    "ITALIAN": {
        "BLACK2": ((0x021FFF10, 0x027A5F70), 0x0209ADE8, 0x02039D69),
        "WHITE2": ((0x021FFF50, 0x027A5ED0), 0x0209AE28, 0x02039D95),
    },
    "KOREAN": {
        "BLACK2": ((0x02200750, 0x02200770), 0x0209B60C, 0x0203A4D5),
        "WHITE2": ((0x02200770, 0x027A57B0), 0x0209B62C, 0x0203A501),
    },
}


def nazo(game, language, ds):
    """The five constant words, as the console stores them (little-endian words hashed as bytes)."""
    i = 0 if ds == "DS" else 1
    if game in ("BLACK", "WHITE"):
        n = NAZO_BW[language][game][i]
        words = [n, n + 0xFC, n + 0xFC, n + 0xFC + 0x4C, n + 0xFC + 0x4C]
    else:
        n, n0, n1 = NAZO_B2W2[language][game]
        n = n[i]
        words = [n0, n1, n, n + 0x54, n + 0x54]
    return [bswap32(w & M32) for w in words]


def bcd(x):
    return x // 10 << 4 | x % 10


class Gen5Message:
    """The 13-word message hashed to make a Gen 5 initial seed."""

    def __init__(self, game, language, ds, mac, soft_reset, v_frame, gx_state):
        self.ds = ds
        self.w = nazo(game, language, ds) + [0] * 8
        self.w[6] = (mac & 0xFFFF) ^ (0x01000000 if soft_reset else 0)
        self.w[7] = (mac >> 16 & M32) ^ (v_frame << 24) ^ gx_state

    def set_timer0(self, timer0, vcount):
        self.w[5] = bswap32(vcount << 16 | timer0)

    def set_date(self, year, month, day, dow):
        self.w[8] = bcd(year - 2000) << 24 | bcd(month) << 16 | bcd(day) << 8 | dow

    def set_time(self, hour, minute, second):
        pm = 0x40 if hour >= 12 and self.ds != "DS3" else 0
        self.w[9] = (bcd(hour) + pm) << 24 | bcd(minute) << 16 | bcd(second) << 8

    def set_button(self, button):
        self.w[12] = button

    def seed(self):
        digest = hashlib.sha1(b"".join(x.to_bytes(4, "big") for x in self.w)).digest()
        s = int.from_bytes(digest[:8], "little")
        return (s * 0x5D588B656C078965 + 0x269EC3) & M64


# --------------------------------------------------------------------------- stats
def nature_stat(stat, nature, index):
    """index 1..5 is attack, defense, special attack, special defense, speed; natures are in game order."""
    # natures come in the order attack, defense, speed, sp. attack, sp. defense
    col = (0, 1, 3, 4, 2)[index - 1]
    up, down = nature // 5, nature % 5
    if up == down:
        return stat
    if col == up:
        return stat * 110 // 100
    if col == down:
        return stat * 90 // 100
    return stat


# --------------------------------------------------------------------------- skipping ahead over GF(2)
# One step of xoroshiro128+, xorshift128 and TinyMT is linear over GF(2) in 128 state bits, so n steps are a
# power of a 128 x 128 bit matrix. A matrix is the list of images of the unit vectors.
_POWERS = {}


def _step_int(kind, v):
    if kind == "xoroshiro":
        g = Xoroshiro()
        g.s = [v & M64, v >> 64]
        g.step()
        return g.s[0] | g.s[1] << 64
    words = [v >> (32 * i) & M32 for i in range(4)]
    if kind == "xorshift":
        g = Xorshift128(*words)
        g.next()
    else:
        g = TinyMersenneTwister.__new__(TinyMersenneTwister)
        g.s = words
        g.step()
    return sum(w << (32 * i) for i, w in enumerate(g.s))


def _apply(m, v):
    r = 0
    i = 0
    while v:
        if v & 1:
            r ^= m[i]
        v >>= 1
        i += 1
    return r


def linear_skip(gen, n):
    """Advance a xoroshiro, xorshift128 or TinyMT model by n steps, for any n."""
    if isinstance(gen, Xoroshiro):
        kind, v = "xoroshiro", gen.s[0] | gen.s[1] << 64
    else:
        kind = "xorshift" if isinstance(gen, Xorshift128) else "tinymt"
        v = sum(w << (32 * i) for i, w in enumerate(gen.s))
    powers = _POWERS.setdefault(kind, [[_step_int(kind, 1 << i) for i in range(128)]])
    k = 0
    while n:
        if k == len(powers):
            last = powers[-1]
            powers.append([_apply(last, c) for c in last])
        if n & 1:
            v = _apply(powers[k], v)
        n >>= 1
        k += 1
    if kind == "xoroshiro":
        gen.s = [v & M64, v >> 64]
    else:
        gen.s = [v >> (32 * i) & M32 for i in range(4)]


# --------------------------------------------------------------------------- Gen 3 states
class Personal3:
    """The fields of a 28-byte Gen 3 personal record that generators use."""

    def __init__(self, raw):
        self.hp, self.attack, self.defense, self.speed, self.special_attack, self.special_defense = raw[:6]
        self.types = (raw[6], raw[7])
        self.gender_ratio = raw[16]
        self.abilities = (raw[22], raw[23])


def gender3(pid, ratio):
    """0 male, 1 female, 2 genderless"""
    if ratio == 255:
        return 2
    if ratio == 254:
        return 1
    if ratio == 0:
        return 0
    return 1 if pid & 0xFF < ratio else 0


def shiny3(pid, tsv):
    d = (pid >> 16) ^ (pid & 0xFFFF) ^ tsv
    return 2 if d == 0 else 1 if d < 8 else 0


def unown_letter(pid):
    return ((pid >> 24 & 3) << 6 | (pid >> 16 & 3) << 4 | (pid >> 8 & 3) << 2 | pid & 3) % 28


def state3(advance, pid, species, form, ivs, ability, level, shiny, info):
    """All fields of a generated state. IVs and stats are HP, Atk, Def, SpA, SpD, Spe."""
    nature = pid % 25
    base = (info.hp, info.attack, info.defense, info.special_attack, info.special_defense, info.speed)
    stats = [(2 * base[0] + ivs[0]) * level // 100 + level + 10]
    stats += [nature_stat((2 * base[i] + ivs[i]) * level // 100 + 5, nature, i) for i in range(1, 6)]
    # hidden power and characteristics count speed before the special stats
    order = [ivs[0], ivs[1], ivs[2], ivs[5], ivs[3], ivs[4]]
    kind = sum((v & 1) << i for i, v in enumerate(order))
    power = sum((v >> 1 & 1) << i for i, v in enumerate(order))
    best = max(order)
    at = next(i % 6 for i in range(pid % 6, pid % 6 + 6) if order[i % 6] == best)
    return {
        "advance": advance,
        "pid": pid,
        "species": species,
        "form": form,
        "ivs": list(ivs),
        "ability": ability,
        "ability_index": info.abilities[ability],
        "level": level,
        "shiny": shiny,
        "stats": stats,
        "gender": gender3(pid, info.gender_ratio),
        "nature": nature,
        "hidden_power": kind * 15 // 63,
        "hidden_power_strength": 30 + power * 40 // 63,
        "characteristic": at * 5 + best % 5,
    }
