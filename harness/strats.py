"""Hypothesis strategies shared by the properties: integers that favour boundaries, histories, choices."""

from hypothesis import strategies as st


def word(bits, lo=0, hi=None):
    """An integer of the given width: uniform, near a power of two, sparse, or an edge of the range."""
    top = (1 << bits) - 1
    hi = top if hi is None else hi
    edges = sorted(
        {
            v
            for k in range(bits + 1)
            for v in ((1 << k) - 1, 1 << k, (1 << k) + 1, top - (1 << k) if k < bits else 0)
            if lo <= v <= hi
        }
        | {lo, hi}
        | ({lo + 1, hi - 1} if hi - lo > 1 else set())
    )
    uniform = st.integers(lo, hi)
    opts = [uniform, uniform, st.sampled_from(edges)]
    small = min(hi, lo + 300)
    if small < hi:
        opts.append(st.integers(lo, small))
    return st.one_of(*opts)


u8 = word(8)
u16 = word(16)
u32 = word(32)
u64 = word(64)


def seeds(bits):
    return word(bits)


def maxima(bits):
    """An upper bound in [1, 2**bits - 1]; small ones and powers of two are frequent."""
    return st.one_of(
        st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 25, 31, 32, 64, 99, 100, 101, 128, 255, 256]),
        word(bits, 1),
    )
