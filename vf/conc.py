"""Concretization: abstract ranks of the specification -> values of each dtype, and back."""
from fractions import Fraction

import numpy as np

INTS = "bBhHiIlLqQ"
FLOATS = "fdg"


class Opaque:
    """An object whose order is not that of any NumPy type."""
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r

    def __lt__(self, o): return self.r < o.r
    def __le__(self, o): return self.r <= o.r
    def __gt__(self, o): return self.r > o.r
    def __ge__(self, o): return self.r >= o.r
    def __eq__(self, o): return self.r == o.r
    def __ne__(self, o): return self.r != o.r
    def __hash__(self): return hash(self.r)
    def __repr__(self): return "Opaque(%d)" % self.r
    def __sub__(self, o): return self.r - o.r


def ladder(char, n, variant, rng):
    """n strictly increasing values of the dtype, as a list (object: Python objects).

    variant 0 spans the extremes of the type, 4 (floats) has infinities next to the largest numbers, 1 is small and consecutive around 0,
    2 is random over the whole range, 3 is close to one end.
    """
    if char == "O":
        if variant == 0:
            return [-(10 ** 30)] + list(range(1, n - 1)) + [10 ** 30] if n > 1 else [3]
        if variant == 1:
            return [Fraction(k - n // 2, 3) for k in range(n)]
        if variant == 2:
            return [Opaque(k) for k in range(n)]
        return ["a" * (k + 1) for k in range(n)]
    dt = np.dtype(char)
    if dt.kind in "iu":
        ii = np.iinfo(dt)
        lo, hi = int(ii.min), int(ii.max)
        if variant == 0:
            base = [lo, hi, lo + 1, hi - 1, 0, 1, -1, (hi + 1) // 2, hi // 2, lo // 2]
        elif variant == 1:
            s = max(lo, -(n // 2))
            base = list(range(s, s + n))
        elif variant == 3:
            base = list(range(hi - n + 1, hi + 1)) if rng.integers(2) else list(range(lo, lo + n))
        else:
            base = []
        vals = []
        for v in base:
            if lo <= v <= hi and v not in vals and len(vals) < n:
                vals.append(v)
        while len(vals) < n:
            v = int(rng.integers(lo, hi, endpoint=True, dtype=dt))
            if v not in vals:
                vals.append(v)
        return np.array(sorted(vals), dtype=dt)
    t = dt.type
    fi = np.finfo(dt)
    mx, tiny, sub = fi.max, fi.tiny, fi.smallest_subnormal
    if variant == 0:
        base = [t("-inf"), t("inf"), t(0), t(1), -mx, mx, t(-1), sub, -sub, tiny, -tiny]
    elif variant == 1:
        base = [t(k - n // 2) for k in range(n)]
    elif variant == 4:
        base = [t("-inf"), -mx, mx, t("inf"), -sub, sub, t(0)]
    elif variant == 3:
        v = t(1)
        base = []
        for _ in range(n):
            base.append(v)
            v = np.nextafter(v, t(2))
    else:
        base = []
    vals = []
    for v in base:
        if v not in vals and len(vals) < n:
            vals.append(v)
    while len(vals) < n:
        v = t(rng.standard_normal()) * t(10) ** t(int(rng.integers(-4, 5)))
        if v not in vals:
            vals.append(v)
    return np.array(sorted(vals), dtype=dt)


def realize(ranks, lad, char, nanrank=None):
    """Array of values for an array of ranks (any shape); nanrank becomes NaN."""
    r = np.asarray(ranks)
    if char == "O":
        out = np.empty(r.shape, dtype=object)
        flat = out.reshape(-1) if out.ndim else out
        for k, v in enumerate(r.reshape(-1)):
            flat[k] = float("nan") if nanrank is not None and v == nanrank else lad[int(v)]
        return flat.reshape(r.shape)
    if nanrank is None:
        return lad[r.astype(np.intp)] if r.size else np.zeros(r.shape, dtype=lad.dtype)
    isn = r == nanrank
    out = lad[np.where(isn, 0, r).astype(np.intp)].copy()
    out[isn] = np.nan
    return out


def rank_of(v, lad, odd=2000000003):
    """The rank of a value, or odd if it is not one of the ladder."""
    for k, w in enumerate(lad):
        if type(v) is type(w) or not isinstance(v, Opaque):
            try:
                if bool(v == w):
                    return k
            except Exception:
                pass
    return odd


def intern(*arrays):
    """Order-preserving dense ranks of the values of all arrays together (no NaN).

    -0.0 and 0.0 are one value.
    """
    flat = np.concatenate([np.asarray(a).reshape(-1) for a in arrays])
    u, inv = np.unique(flat, return_inverse=True)
    out, k = [], 0
    for a in arrays:
        a = np.asarray(a)
        out.append(inv[k:k + a.size].reshape(a.shape).astype(int))
        k += a.size
    return out


def bits_ids(*arrays):
    """Ids of the values by equality with NaN equal to NaN (no order)."""
    table, out = {}, []
    for a in arrays:
        a = np.asarray(a)
        ids = [table.setdefault("nan" if v != v else v + 0.0, len(table)) for v in a.reshape(-1)]
        out.append(np.array(ids, dtype=int).reshape(a.shape))
    return out


def as_int(v, scale=1, odd=2000000003):
    """The exact integer v*scale of a float, or a marker (NaN and inf have their own)."""
    if v != v:
        return 2000000001
    if v in (np.inf, -np.inf):
        return 2000000000 if v > 0 else -2000000000
    w = v * scale
    if w != np.rint(w) or abs(w) > 1000000000:
        return odd
    return int(w)


def as_ints(a, scale=1):
    return [as_int(v, scale) for v in np.asarray(a).reshape(-1)]


def arrange(x, rng):
    """The elements of x in one of the orders that algorithms are sensitive to."""
    x = np.array(x)
    n = len(x)
    m = int(rng.integers(10))
    if m == 0 or n < 3:
        return x
    s = np.sort(x)
    k = int(rng.choice([n // 2, n - 1, 1, n // 4, int(rng.integers(1, n))]))
    if m == 1:
        s = s[::-1]
    elif m in (2, 3):                    # sorted in part
        p = np.concatenate([np.sort(x[:k]), rng.permutation(x[k:])])
        s = p if m == 2 else p[::-1]
    elif m == 4:                         # up, then down
        s = np.concatenate([s[::2], s[1::2][::-1]])
    elif m == 5:                         # two sorted parts
        p = rng.permutation(x)
        s = np.concatenate([np.sort(p[:k]), np.sort(p[k:])])
    elif m == 6:                         # one element out of place
        s = np.roll(s, 1) if rng.integers(2) else np.concatenate([s[1:], s[:1]])
    elif m == 7:                         # neighbours swapped
        s[:n - n % 2] = s[:n - n % 2].reshape(-1, 2)[:, ::-1].reshape(-1)
    elif m == 8:                         # low and high in turn
        s = np.stack([s[:n // 2], s[n - n // 2:][::-1]], 1).reshape(-1) if n % 2 == 0 else s
    return np.array(s)


def scale(rng, char, mid, lo=0, hi=12, half=False):
    """A power of 2: near 1 half of the time (2^-mid..2^mid), otherwise anywhere in the range of the type.

    At least lo binary places above the smallest normal number, hi below the largest; with half its square is, too.
    """
    fi = np.finfo(char)
    if rng.integers(2):
        return np.longdouble(2.0) ** int(rng.integers(-mid, mid + 1))
    a, b = fi.minexp + lo, fi.maxexp - hi
    if half:
        a, b = a // 2 + 1, b // 2
    e = int(rng.choice([a + int(rng.integers(9)), b - int(rng.integers(9)), int(rng.integers(a, b))]))
    return np.longdouble(2.0) ** e
