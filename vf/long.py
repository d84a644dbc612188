"""Long sequences: recorded as runs, as repetitions of a pattern, or as sets of steps (spec/Runs.tla)."""
import mmap

import numpy as np

from .conc import as_int, as_ints, ladder, rank_of, realize
from .layouts import Placed, describe

NAN, ODD = 2000000001, 2000000003
LENGTHS = [1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 10007, 32768, 65535, 65536, 65537, 131073]
TRACE = dict(stream="long", module="Runs", failures="LongFailures")
OPS = ("LT", "LE", "EQ", "NE", "GT", "GE")


def laws(tier):
    return dict(name="runs", module="RunsLaws", emits=False,
                cfg="CONSTANTS Data = {0,1,3,%d} MaxRuns = %d MaxCount = %d\nSPECIFICATION Spec\n"
                    "INVARIANTS Scans Grow Extremes Counts Sums Dots Tiled Means Steps Gaps\n"
                    % ((NAN, 4, 3) if tier == "thorough" else (NAN, 3, 2)))


def lengths(d, most=None, few=4):
    ok = [n for n in LENGTHS if most is None or n <= most]
    if d.thorough:
        return ok
    return [int(n) for n in d.rng.choice(ok, size=min(few, len(ok)), replace=False)]


def cuts(d, n, k):
    """k run lengths adding up to n; the cuts lie at either end, near blocks, or anywhere."""
    s = set()
    for _ in range(k - 1):
        m = int(d.rng.integers(4))
        b = int(d.rng.choice([64, 256, 1000, 1024, 4096, 65536]))
        c = [1 + int(d.rng.integers(3)), n - 1 - int(d.rng.integers(3)),
             b * int(d.rng.integers(1, max(2, n // b + 1))) + int(d.rng.integers(-1, 2)), int(d.rng.integers(1, n))][m]
        if 0 < c < n:
            s.add(c)
    p = [0] + sorted(s) + [n]
    return [b - a for a, b in zip(p, p[1:])]


def place(d, a):
    m = int(d.rng.integers(4))
    return a if m == 0 else Placed(a, d.rng, steps=[None, None, [1] * a.ndim, [-1] * a.ndim][m]).view


def spread(vals, cs):
    return np.repeat(np.asarray(vals, dtype=np.int64), cs)


def pairs(vals, cs):
    return [[int(v), int(c)] for v, c in zip(vals, cs)]


def go(d, name, fn, *args, **kw):
    d.begin("%s long %s %s" % (name, describe(args), kw))
    d.cover("long sequences")
    return fn(*args, **kw)


# A run of so many zeros that its length does not fit 32 bits.  It is recorded as a run of SHORT: RunsLaws!Grow.
HUGE, SHORT = 2 ** 31 + 3, 7


class Sparse:
    """Memory that reads as zeros and takes no space until it is written to."""
    mm = None

    def __init__(self, d, char, signed=True):
        rng, t = d.rng, np.dtype(char)
        self.head, self.n = int(rng.integers(0, 4)), HUGE + int(rng.integers(0, 9))
        tail = int(rng.integers(0, 5))
        lo = -3 if signed and t.kind != "u" else 0
        vals = [int(v) for v in rng.integers(lo, 4, self.head + tail)]
        if rng.integers(2):
            vals = sorted(vals, key=lambda v: v)
            self.head = sum(v < 0 for v in vals)
            tail = len(vals) - self.head
        size = (self.n + 16) * t.itemsize
        Sparse.mm = m = mmap.mmap(-1, size, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000)       # MAP_NORESERVE
        self.x = np.frombuffer(m, dtype=char, count=self.head + self.n + tail)
        self.x[:self.head] = vals[:self.head]
        self.x[self.head + self.n:] = vals[self.head:]
        self.rs = [[v, 1] for v in vals[:self.head]] + [[0, SHORT]] + [[v, 1] for v in vals[self.head:]]
        self.sorted = vals[:self.head] == sorted(vals[:self.head]) and all(v <= 0 for v in vals[:self.head]) \
            and vals[self.head:] == sorted(vals[self.head:]) and all(v >= 0 for v in vals[self.head:])
        d.cover("huge sequences")

    def index(self, i):
        i = int(i)
        return i if i < self.head + 4 else i - (self.n - SHORT) if i >= self.head + self.n - 3 else ODD

    def count(self, c, most=1):
        """A count, in which the run counts up to so many times."""
        for m in range(most, -1, -1):
            q = int(c) - m * (self.n - SHORT)
            if 0 <= q <= 100:
                return q
        return ODD


def huge_chars(d):
    return "bBhif" if d.thorough else ["b", "B"][int(d.rng.integers(2)):][:1]


def huge03(d, ul):
    for char in huge_chars(d):
        s = Sparse(d, char)
        for op, t in [("NE", 0), ("GT", 0), ("LT", 0), ("EQ", 1)] if d.thorough else [("NE", 0), ("GT", 1)]:
            code = getattr(ul.op, op)
            a = int(go(d, "argfirst", ul.argfirst, s.x, code, s.x.dtype.type(t)))
            v = int(go(d, "first", ul.first, s.x, code, s.x.dtype.type(t), s.x.dtype.type(9)))
            d.emit("long", dict(k="first", rs=s.rs, op=op, t=t, o=9, arg=s.index(a) if a >= 0 else a, val=v))


def huge04(d, ul):
    for char in huge_chars(d):
        s = Sparse(d, char)
        for fn in ("argmin", "argmax", "minmax", "argminmax", "min_argmin", "max_argmax", "peaktopeak"):
            r = go(d, fn, getattr(ul, fn), s.x)
            r = list(r) if isinstance(r, tuple) or np.ndim(r) else [r]
            idx = [p for p in range(len(r)) if "arg" in fn and not (fn in ("min_argmin", "max_argmax") and p == 0)]
            d.emit("long", dict(k="extrema", rs=s.rs, fn=fn, out=[s.index(v) if p in idx else int(v) for p, v in enumerate(r)]))


def huge05(d, ul):
    for char in huge_chars(d):
        s = Sparse(d, char)
        for op in OPS if d.thorough else ("LE", "GE"):
            d.emit("long", dict(k="ordered", rs=s.rs, op=op, out=bool(go(d, "ordered", ul.ordered, s.x, getattr(ul.op, op)))))
        y = s.x[s.head:]
        d.emit("long", dict(k="all_same", rs=s.rs[s.head:], out=bool(go(d, "all_same", ul.all_same, y))))
        d.emit("long", dict(k="all_same", rs=[[0, SHORT]], out=bool(go(d, "all_same", ul.all_same, y[:s.n]))))


def huge06(d, ul):
    for char in "bBhHiIlLfd":
        s = Sparse(d, char)
        if s.sorted:
            vs = np.arange(0 if char in "BHIL" else -3, 5)
            lo, hi = (go(d, f.__name__, f, s.x, vs.astype(char)) for f in (ul.searchsortedl, ul.searchsortedr))
            for q, a, b in zip(vs, lo, hi):
                d.emit("long", dict(k="search", rs=s.rs, v=int(q), l=s.index(a), r=s.index(b)))
    for char in huge_chars(d):
        s = Sparse(d, char)
        for kind, kn in list(KIND.items())[::1 if d.thorough else 2]:
            q = int(d.rng.integers(-1 if char not in "BHIL" else 0, 3))
            w = np.longdouble(go(d, "percentileofscore", ul.percentileofscore, s.x, s.x.dtype.type(q), getattr(ul.op, kn)))
            w *= 2 * np.longdouble(s.x.size) / 100
            d.emit("long", dict(k="percentile", rs=s.rs, s=q, kind=kind,
                                out=s.count(np.rint(w), 2) if abs(w - np.rint(w)) < 1e-3 else ODD))


def huge07(d, ul):
    for char in huge_chars(d):
        if char == "f":
            continue
        s = Sparse(d, char)
        m = int(d.rng.integers(2, 5))
        r = go(d, "bincount", ul.bincount, s.x, m)
        d.emit("long", dict(k="bincount", rs=[[v, c, 1] for v, c in s.rs], m=m, out=[s.count(v) for v in r]))


def c03(d, ul):
    huge03(d, ul)
    for char in "bBhHiIlLefdgO":
        for n in lengths(d, None, 6):
            lad = ladder(char, 6, int(d.rng.integers(5)), d.rng)
            op = OPS[int(d.rng.integers(6))]
            t = int(d.rng.integers(0, 5))
            cs = cuts(d, n, int(d.rng.integers(1, 6)))
            sat = dict(LT=range(0, t), LE=range(0, t + 1), EQ=[t], NE=[r for r in range(5) if r != t],
                       GT=range(t + 1, 5), GE=range(t, 5))[op]
            non = [r for r in range(5) if r not in sat] + ([NAN] if char in "fdg" and op != "NE" else [])
            hit = int(d.rng.integers(0, len(cs) + 1))
            vals = [int(d.rng.choice(non)) if non and k < hit else int(d.rng.integers(0, 5)) for k in range(len(cs))]
            x = realize(spread(vals, cs), lad, char, NAN if char in "fdg" else None)
            x = place(d, x)
            code = getattr(ul.op, op)
            a = int(go(d, "argfirst", ul.argfirst, x, code, lad[t]))
            v = go(d, "first", ul.first, x, code, lad[t], lad[5])
            d.emit("long", dict(k="first", rs=pairs(vals, cs), op=op, t=t, o=5, arg=a,
                                val=NAN if v != v else rank_of(v, lad)))


def c04(d, ul):
    huge04(d, ul)
    one = dict(argmin=ul.argmin, argmax=ul.argmax, minmax=ul.minmax, argminmax=ul.argminmax,
               min_argmin=ul.min_argmin, max_argmax=ul.max_argmax)
    for char in "bBhHiIlLqQfdgO":
        for n in lengths(d, 10007 if char == "O" else None, 6):
            lad = ladder(char, 6, int(d.rng.integers(5)), d.rng)
            cs = cuts(d, n, int(d.rng.integers(1, 7)))
            vals = [int(v) for v in d.rng.integers(0, 6, size=len(cs))]
            x = place(d, realize(spread(vals, cs), lad, char))
            for fn, f in one.items():
                r = go(d, fn, f, x)
                r = list(r) if isinstance(r, tuple) or np.ndim(r) else [r]
                idx = [p for p in range(len(r)) if "arg" in fn and not (fn in ("min_argmin", "max_argmax") and p == 0)]
                out = [int(v) if p in idx else rank_of(v, lad) for p, v in enumerate(r)]
                d.emit("long", dict(k="extrema", rs=pairs(vals, cs), fn=fn, out=out))
            if char != "O":
                e = int(d.rng.integers(0, 7)) if char not in "fdg" else int(d.rng.integers(-20, 20))
                y = place(d, (spread(vals, cs) * (1 if char in "bBhH" else 3)).astype(char) * np.array(2.0 ** (e % 4)).astype(char))
                v = go(d, "peaktopeak", ul.peaktopeak, y)
                s = 2.0 ** (e % 4) * (1 if char in "bBhH" else 3)
                d.emit("long", dict(k="extrema", rs=pairs(vals, cs), fn="peaktopeak", out=[as_int(np.longdouble(v) / s)]))


def c05(d, ul):
    huge05(d, ul)
    for char in "bBhHiIlLefdgO":
        for n in lengths(d, None, 6):
            lad = ladder(char, 8, int(d.rng.integers(5)), d.rng)
            k = int(d.rng.integers(1, 6))
            cs = cuts(d, n, k)
            vals = np.sort(d.rng.permutation(8)[:len(cs)])
            if d.rng.integers(2):
                vals = vals[::-1]
            vals = [int(v) for v in vals]
            if d.rng.integers(3) == 0 and len(cs) > 1:
                j = int(d.rng.integers(len(cs)))
                vals[j] = int(d.rng.integers(8))
            x = place(d, realize(spread(vals, cs), lad, char))
            for op in OPS:
                v = go(d, "ordered", ul.ordered, x, getattr(ul.op, op))
                d.emit("long", dict(k="ordered", rs=pairs(vals, cs), op=op, out=bool(v)))
            v = go(d, "all_same", ul.all_same, x)
            d.emit("long", dict(k="all_same", rs=pairs(vals, cs), out=bool(v)))
            c1 = [n] if d.rng.integers(2) else cuts(d, n, 2)
            y = place(d, realize(spread(vals[:1] * len(c1), c1), lad, char))
            d.emit("long", dict(k="all_same", rs=pairs(vals[:1] * len(c1), c1), out=bool(go(d, "all_same", ul.all_same, y))))


    for char in "iIlLfdgO":       # no two neighbours are equal, apart from a fault
        for n in lengths(d, 10007 if char == "O" else None, 4):
            up = 1 - 2 * int(d.rng.integers(2))
            x = np.arange(n) if up == 1 else np.arange(n)[::-1].copy()
            for fault in (False, True):
                if fault:
                    j = sum(cuts(d, n, 2)[:1]) % (n - 1)
                    x[j + 1] = x[j] if d.rng.integers(2) else x[j] - up
                X = place(d, x.astype(char))
                signs = [int(v) for v in np.unique(np.sign(np.diff(x)))]
                for op in OPS:
                    v = go(d, "ordered", ul.ordered, X, getattr(ul.op, op))
                    d.emit("long", dict(k="signs", signs=signs, op=op, out=bool(v)))
    faults(d, ul)


def faults(d, ul):
    """One fault, at every kind of place beside a block of elements; it is one only to its neighbour."""
    seen = set()
    for char in "bBhHiIlLfdgO":
        most = min(np.iinfo(char).max, 4000) if char in "bBhHiIlL" else 600 if char == "O" else 1024 if char in "fg" else 4000
        for up in (1, -1):
            at = set(range(1, 20))
            for b in (8, 16, 32, 64, 128, 256, 512, 1024, 2048):
                m = int(d.rng.integers(1, 5))
                at |= {b * q + o for q in (1, m) for o in (-2, -1, 0, 1, 2)}
            at = sorted(j for j in at if 1 <= j < most // 3 - 3)
            n = at[-1] + 3
            for kind in ("none", "equal", "back", "below"):
                base = 3 * np.arange(n) + 1
                rows = np.tile(base, (len(at), 1))
                for i, j in enumerate(at):
                    # "back": not in order beside the neighbour, in order beside the one before
                    rows[i, j] = dict(none=base[j], equal=base[j - 1], back=base[j - 1] - 1, below=base[0] - 1)[kind]
                if up < 0:
                    rows = rows[:, ::-1] if d.rng.integers(2) else rows.max() + 1 - rows
                X = place(d, rows.astype(char))
                signs = [tuple(int(v) for v in np.unique(np.sign(np.diff(r)))) for r in rows]
                for op in OPS:
                    v = go(d, "ordered", ul.ordered, X, getattr(ul.op, op))
                    for s, out in zip(signs, v):
                        e = (s, op, bool(out), char)
                        if e not in seen:
                            seen.add(e)
                            d.emit("long", dict(k="signs", dtype=char, signs=list(s), op=op, out=bool(out)))
            # all equal, or one that differs
            one = 7 + up
            rows = np.full((len(at), n), 7)
            for i, j in enumerate(at):
                rows[i, j] = one if i % 7 else 7
            X = place(d, rows.astype(char))
            v, w = go(d, "all_same", ul.all_same, X), go(d, "ordered", ul.ordered, X, ul.op.EQ)
            for i, j in enumerate(at):
                rs = [[7, j], [one if i % 7 else 7, 1], [7, n - j - 1]]
                d.emit("long", dict(k="all_same", rs=rs, out=bool(v[i])))
                d.emit("long", dict(k="ordered", rs=rs, op="EQ", out=bool(w[i])))


KIND = dict(rank="KIND_RANK", weak="KIND_WEAK", strict="KIND_STRICT", mean="KIND_MEAN")


def c06(d, ul):
    huge06(d, ul)
    for char in "bBhHiIlLefdgO":
        for n in lengths(d, None, 6):
            lad = ladder(char, 9, int(d.rng.integers(5)), d.rng)
            cs = cuts(d, n, int(d.rng.integers(1, 6)))
            vals = [int(v) for v in np.sort(d.rng.permutation(9)[:len(cs)])]
            x = place(d, realize(spread(vals, cs), lad, char))
            vs = np.arange(9)
            V = realize(vs, lad, char)
            lo, hi = (go(d, f.__name__, f, x, V) for f in (ul.searchsortedl, ul.searchsortedr))
            for q in vs:
                d.emit("long", dict(k="search", rs=pairs(vals, cs), v=int(q), l=int(lo[q]), r=int(hi[q])))
            if char in "bBhHiIlLfd":
                j = d.rng.permutation(len(cs))
                p, q = [vals[i] for i in j], [cs[i] for i in j]
                y = place(d, realize(spread(p, q), lad, char))
                for kind, kn in KIND.items():
                    r = go(d, "percentileofscore", ul.percentileofscore, y, V, getattr(ul.op, kn))
                    for s in (int(v) for v in vs):
                        w = np.longdouble(r[s]) * (2 * n) / 100
                        out = as_int(np.rint(w)) if abs(w - np.rint(w)) < 1e-6 else ODD
                        d.emit("long", dict(k="percentile", rs=pairs(p, q), s=s, kind=kind, out=out))


def c07(d, ul):
    huge07(d, ul)
    for char in "bBhHiIlLqQ":
        for n in lengths(d, None, 6):
            m = int(d.rng.integers(1, 7))
            cs = cuts(d, n, int(d.rng.integers(1, 7)))
            vals = d.rng.integers(0 if char in "BHILQ" else -2, 8, size=len(cs))
            x = place(d, spread(vals, cs).astype(char))
            r = go(d, "bincount", ul.bincount, x, m)
            rs = [[int(v), int(c), 1] for v, c in zip(vals, cs)]
            d.emit("long", dict(k="bincount", rs=rs, m=m, out=as_ints(r)))
            wc = "ilfdFD"[int(d.rng.integers(6))]
            ws = d.rng.integers(1, 4, size=len(cs))
            w = place(d, np.repeat(ws, cs).astype(wc))
            r = go(d, "bincount", ul.bincount, x, m, weights=w)
            if r.dtype.kind == "c":
                r = np.where(r.imag == 0, r.real, np.nan)
            d.emit("long", dict(k="bincount", rs=[[int(v), int(c), int(q)] for v, c, q in zip(vals, cs, ws)], m=m, out=as_ints(r)))


def c10(d, ul):
    for char in "fdg":
        for n in lengths(d, None, 5):
            t = np.dtype(char).type
            p = int(d.rng.integers(3, 30))
            x = d.rng.integers(-8, 9, size=p)
            x = np.tile(x, n // p + 1)[:n]
            cut = cuts(d, n, 3)
            x = x + spread(d.rng.integers(-6, 7, size=len(cut)), cut)
            h, y0 = int(d.rng.integers(0, 4)), int(d.rng.integers(-8, 9))
            X = place(d, x.astype(char))
            r = go(d, "backlash", ul.backlash, X, t(2 * h), t(y0))
            d.emit("long", dict(k="play", h=h, steps=triples(y0, x, r)))
            lo, hi = sorted(int(v) for v in d.rng.integers(-6, 7, size=2))
            r = go(d, "hysteresis_relay", ul.hysteresis_relay, X, t(lo), t(hi), t(-50), t(70), t(9))
            d.emit("long", dict(k="relay", lo=lo, hi=hi, lv=-50, hv=70, steps=triples(9, x, r)))
            hs, y0s = d.rng.integers(0, 4, size=2), d.rng.integers(-8, 9, size=2)
            # weights 1 and 1000 keep the two operators apart in the sum
            s, f = go(d, "backlash_sum", ul.backlash_sum, X, np.array([1, 1000], dtype=char), (2 * hs).astype(char), y0s.astype(char))
            s = [as_int(v) for v in s]
            b = [(v + 500) // 1000 for v in s]
            a = [v - 1000 * w for v, w in zip(s, b)]
            for k, o in enumerate((a, b)):
                d.emit("long", dict(k="play", h=int(hs[k]), steps=triples(int(y0s[k]), x, o)))
                d.emit("long", dict(k="same", fn="backlash_sum-final", r=[as_int(f[k]), int(o[-1])]))


def triples(y0, x, r):
    """The distinct steps <<before, input, after>>."""
    o = np.array([as_int(v) for v in r], dtype=np.int64)
    prev = np.concatenate([[y0], o[:-1]])
    u = np.unique(np.stack([prev, np.asarray(x, dtype=np.int64), o], axis=1), axis=0)
    return [[int(v) for v in row] for row in u[:20000]]


def c11(d, ul):
    for char in "fdg":
        for n in lengths(d, None, 5):
            # poles on the unit circle; the input is A u, so that the output is B u and stays small
            a1, a2 = [[0, 0], [1, 1], [0, 1], [-1, 1], [0, -1], [1, 0], [-1, 0]][int(d.rng.integers(7))]
            c = [int(v) for v in d.rng.integers(-3, 4, size=3)] + [a1, a2]
            p = int(d.rng.integers(3, 20))
            u = np.tile(d.rng.integers(-8, 9, size=p), n // p + 1)[:n]
            x = np.convolve(u, [1, a1, a2])[:n]
            if d.rng.integers(3) == 0:
                x[int(d.rng.integers(n)):] = 0
            sos = np.array([c[:3] + [1] + c[3:]], dtype=char)
            X = place(d, x.astype(char))
            e = dict(k="section", c=c)
            r = go(d, "sosfilter", ul.sosfilter, sos, X)
            d.emit("long", dict(e, steps=windows(x, r)))
            y, zf = go(d, "sosfilter_ic", ul.sosfilter_ic, sos, X, np.zeros((1, 2), dtype=char))
            d.emit("long", dict(e, steps=windows(x, y)))
            y2, zf2 = go(d, "sosfilter_ic_contig", ul.sosfilter_ic_contig, sos, np.ascontiguousarray(X), np.zeros((1, 2), dtype=char))
            d.emit("long", dict(e, steps=windows(x, y2)))
            # the final state: what the next two inputs of zero bring out
            z, _ = ul.sosfilter_ic(sos, np.zeros(2, dtype=char), zf)
            z2, _ = ul.sosfilter_ic_contig(sos, np.zeros(2, dtype=char), zf2)
            for out, w in ((y, z), (y2, z2)):
                d.emit("long", dict(e, steps=windows(np.concatenate([x[-4:], [0, 0]]), np.concatenate([out[-4:], w]), skip=4)))


def windows(x, r, skip=0):
    o = np.array([as_int(v) for v in r], dtype=np.int64)
    x = np.asarray(x, dtype=np.int64)
    if skip == 0:
        x, o = np.concatenate([[0, 0], x]), np.concatenate([[0, 0], o])
        skip = 2
    s = np.stack([x[:-2], x[1:-1], x[2:], o[:-2], o[1:-1], o[2:]], axis=1)[skip - 2:]
    u = np.unique(s, axis=0)
    return [[int(v) for v in row] for row in u[:20000]]


def c12(d, ul):
    for char in "fdg":
        t = np.dtype(char).type
        for n in lengths(d, None, 6):
            half = int(d.rng.integers(2, 9))
            p = int(d.rng.integers(2, 20))
            x = np.tile(d.rng.integers(-30, 31, size=p), n // p + 1)[:n]
            r = go(d, "unwrap", ul.unwrap, place(d, x.astype(char)), t(2 * half))
            o = np.array([as_int(v) for v in r], dtype=np.int64)
            # the same step from another period is the same step
            prev, shift = o[:-1] % (2 * half), o[:-1] - o[:-1] % (2 * half)
            u = np.unique(np.stack([prev, x[1:], o[1:] - shift], axis=1), axis=0)
            d.emit("long", dict(k="unwrap", half=half, steps=[[int(v) for v in row] for row in u[:20000]]))
            d.emit("long", dict(k="same", fn="unwrap-first", r=[int(o[0]), int(x[0])]))

            cs = cuts(d, n, int(d.rng.integers(1, 7)))
            first = int(d.rng.integers(2))
            vals = [NAN if (k + first) % 2 else int(d.rng.integers(-50, 51)) for k in range(len(cs))]
            a = spread(vals, cs).astype(char)
            a[np.repeat([v == NAN for v in vals], cs)] = np.nan
            r = np.asarray(go(d, "fillnan1d", ul.fillnan1d, place(d, a)), dtype="g")
            s = np.concatenate([[0], np.cumsum(cs)])
            eps = float(np.finfo(char).eps)
            for i, v in enumerate(vals):
                seg = r[s[i]:s[i + 1]]
                lo, hi = max(0, i - 1), min(len(vals), i + 2)
                rec = dict(k="fill", rs=pairs(vals[lo:hi], cs[lo:hi]), at=i - lo + 1)
                if v != NAN or i in (0, len(vals) - 1):
                    flat = bool(np.all((seg == seg[0]) | ((seg != seg) & (seg[0] != seg[0]))))
                    d.emit("long", dict(rec, first=as_int(seg[0]), steps=[0 if flat else 1]))
                    continue
                # inside a gap of m - 1 elements, m times the values are integers
                m, left, right = cs[i] + 1, vals[i - 1], vals[i + 1]
                w = seg * m
                z = np.rint(w)
                tol = 16 * eps * 101
                if tol * m < 0.4:
                    z = np.where(np.abs(w - z) <= tol * m, z, ODD)
                    d.emit("long", dict(rec, first=int(z[0]), steps=sorted({int(q) for q in np.diff(z)})[:50]))
                else:           # too long to tell the integers apart
                    line = left + (right - left) * np.arange(1, m, dtype="g") / m
                    dev = np.max(np.abs(seg - line))
                    d.emit("long", dict(k="same", fn="fillnan1d", r=[0, int(dev // tol) if dev == dev else ODD]))


def recover(v, mult, scale, tol):
    """The integer v * mult, if v is within tol * scale of it."""
    v = np.longdouble(v)
    if not np.isfinite(v):
        return ODD
    w = v * mult
    return int(np.rint(w)) if abs(w - np.rint(w)) <= tol * max(scale, 1) + 1e-9 and tol * scale < 0.4 else ODD


def reps(d, most, p, few=4):
    """Numbers of repetitions that make the lengths about those of LENGTHS."""
    out = []
    for n in lengths(d, most, few):
        out.append(max(2, n // p + int(d.rng.integers(0, 2))))
    return out


def tolerance(char, terms):
    return float(np.finfo("d" if np.dtype(char).kind in "iu" else char).eps) * 8 * (terms + 64)


def usable(char, terms, scale):
    """The tolerance after so many roundings, if integers of this scale can still be told apart."""
    tol = tolerance(char, terms)
    return tol if tol * scale < 0.4 else None


def c15(d, ul):
    ops = dict(int=("add multiply subtract minimum maximum",
                    "add subtract minimum maximum kbnsum argmax argmin peaktopeak all_same"),
               bool=("logical_and logical_or logical_xor equal less", "logical_and logical_or logical_xor"))
    get = lambda s: getattr(ul if s in ("kbnsum", "argmax", "argmin", "peaktopeak", "all_same") else np, s)   # noqa: E731
    for kind, (ps, ss) in ops.items():
        for s in ss.split():
            for n in lengths(d, None, 3):
                p = ps.split()[int(d.rng.integers(len(ps.split())))]
                f = ul.gendot(get(p), get(s))
                ts = [t for t in f.types if t[0] == t[1] and t[0] in "ilqdg"]
                t = ts[int(d.rng.integers(len(ts)))]
                cs = cuts(d, n, int(d.rng.integers(1, 7)))
                xv, yv = d.rng.integers(-3, 4, size=(2, len(cs)))
                if kind == "bool":
                    xv, yv = d.rng.integers(0, 2, size=(2, len(cs)))
                r = go(d, f.__name__, f, place(d, spread(xv, cs).astype(t[0])), place(d, spread(yv, cs).astype(t[0])))
                d.emit("long", dict(k="dot", p=p, s=s, types=t, out=as_int(r) if r.dtype.kind == "f" else int(r),
                                    rs=[[int(a), int(c), int(b)] for a, c, b in zip(xv, cs, yv)]))


def c16(d, ul):
    fns = [("gmean", lambda x, w, t: ul.gmean(x)), ("hmean", lambda x, w, t: ul.hmean(x)),
           ("gmeanw", lambda x, w, t: ul.gmeanw(x, w)), ("hmeanw", lambda x, w, t: ul.hmeanw(x, w))]
    for q in (-2, -1, 0, 1, 2, 3):
        fns.append(("pmean%d" % q, lambda x, w, t, q=q: ul.pmean(x, t(q))))
        fns.append(("pmeanw%d" % q, lambda x, w, t, q=q: ul.pmeanw(x, w, t(q))))
    for char in "fdg":
        t = np.dtype(char).type
        for p in (1, 3, 7):
            x = d.rng.integers(1, 9, size=p).astype(char)
            w = d.rng.integers(1, 4, size=p).astype(char)
            for g in reps(d, None, p, 2):
                n = g * p
                X, W = place(d, np.tile(x, g)), place(d, np.tile(w, g))
                for fn, f in fns:
                    a, b = go(d, fn, f, X, W, t), f(x, w, t)
                    d.emit("long", dict(k="same", fn=fn, r=[0, rel_units(a, b, tolerance(char, n))]))


def rel_units(a, b, tol):
    """How far a lies from b in units of tol, as an integer (0: within)."""
    a, b = np.longdouble(a), np.longdouble(b)
    if a == b or (a != a and b != b):
        return 0
    if not (np.isfinite(a) and np.isfinite(b)):
        return 1000000
    return int(min(1000000, np.floor(abs(a - b) / (tol * max(abs(b), np.longdouble(1e-30))))))


def c17(d, ul):
    for char in "bBhHiIlLfdg":
        isint = char in "bBhHiIlL"
        for p in (2, 5):
            for g in reps(d, None, p, 3):
                n = g * p
                x = d.rng.integers(0, 5, size=p)
                off = int(d.rng.choice([0, 3] + ([-4] if char not in "BHIL" else [])))
                x = x + off
                X = place(d, np.tile(x, g).astype(char))
                ddof = int(d.rng.choice([0, 1, 2]))
                m, v = go(d, "meanvar", ul.meanvar, X, ddof)
                tol = usable("d" if isint else char, n, 30 * p * p)
                if tol is None:
                    continue
                v = np.longdouble(v) * (n - ddof) / n
                d.emit("long", dict(k="meanvar", x=[int(q) for q in x], mean=recover(m, p, 10 * p, tol),
                                    var=recover(v, p * p, 30 * p * p, tol)))
                if char not in "fldg":
                    continue
                # a common offset, beside which the squares of the values do not fit the type
                off = 2 ** int(np.finfo("d" if isint else char).nmant * 0.55) * int(d.rng.choice([-1, 1]))
                X = place(d, (np.tile(x, g) + off).astype(char))
                m, v = go(d, "meanvar", ul.meanvar, X, ddof)
                v = np.longdouble(v) * (n - ddof) / n
                d.emit("long", dict(k="meanvar", x=[int(q) for q in x], off=repr(off), n=n, dtype=char,
                                    mean=recover(np.longdouble(m) - off, p, 1, 0.2), var=recover(v, p * p, 1, 0.2)))
    for char in "fdg":
        for p in (2, 5):
            for g in reps(d, None, p, 4):
                n = g * p
                x = d.rng.integers(1, 6, size=p)
                X = place(d, np.tile(x, g).astype(char))
                tol = usable(char, 4 * n, 10 * p * p)
                if tol is None:
                    continue
                for u in (False, True):
                    k = np.longdouble(n - 1) / n if u else 1
                    mean = np.longdouble(x.sum()) / p
                    for fn, z in (("mad", 1), ("rmad", mean), ("gini", 2 * mean)):
                        v = go(d, fn, getattr(ul, fn), X, u)
                        d.emit("long", dict(k="mad", fn=fn, x=[int(q) for q in x],
                                            out=recover(np.longdouble(v) * k * z, p * p, 10 * p * p, tol)))


def c18(d, ul):
    for char in "bBhHiIlLfdg":
        for p in (3, 6):
            for g in reps(d, None, p, 3):
                n = g * p
                x, y = d.rng.integers(0, 6, size=p), d.rng.integers(0, 6, size=p)
                X, Y = (place(d, np.tile(v, g).astype(char)) for v in (x, y))
                tol = usable("d" if char in "bBhHiIlL" else char, 4 * n, 30 * p * p)
                cxx, cyy = (p * int((v * v).sum()) - int(v.sum()) ** 2 for v in (x, y))
                if tol is not None and cxx and cyy:
                    r = go(d, "pearson_corr", ul.pearson_corr, X, Y)
                    d.emit("long", dict(k="corr", x=[int(v) for v in x], y=[int(v) for v in y],
                                        out=recover(np.longdouble(r) * np.sqrt(np.longdouble(cxx) * cyy), 1, 30 * p * p, tol)))
                mx = int(np.maximum(x, y).sum())
                if char != "g" and mx and tol is not None:
                    r = go(d, "wjaccard", ul.wjaccard, X, Y)
                    d.emit("long", dict(k="wjaccard", x=[int(v) for v in x], y=[int(v) for v in y],
                                        out=recover(r, mx, mx, tol)))


def c19(d, ul):
    for char in "fdg":
        for n in lengths(d, None, 8):
            cs = cuts(d, n, int(d.rng.integers(1, 7)))
            vals = d.rng.integers(-60, 61, size=len(cs))
            x = place(d, spread(vals, cs).astype(char))
            v = go(d, "kbnsum", ul.kbnsum, x)
            d.emit("long", dict(k="sum", fn="kbnsum", rs=pairs(vals, cs), out=as_int(v)))
            # a term too big for the rest to show beside it, and its opposite, anywhere
            big = np.dtype(char).type(2.0 ** (30 if char == "f" else 70))
            y = np.array(x)
            i, j = int(d.rng.integers(n)), int(d.rng.integers(n))
            if i != j:
                z = np.concatenate([y[:i], [big], y[i:]])
                j += j > i
                z = np.concatenate([z[:j], [-big], z[j:]]).astype(char)
                v = go(d, "kbnsum", ul.kbnsum, place(d, z))
                if np.abs(np.concatenate([[0], np.cumsum(y.astype("g"))])).max() < 2 ** (20 if char == "f" else 40):
                    d.emit("long", dict(k="sum", fn="kbnsum", rs=pairs(vals, cs), out=as_int(v)))


def c20(d, ul):
    for char in "fdg":
        t = np.dtype(char).type
        for n in lengths(d, None, 5):
            cs = cuts(d, n, int(d.rng.integers(1, 5)))
            vals = d.rng.integers(-3, 4, size=len(cs))
            if not vals.any():
                vals[0] = 1
            x = spread(vals, cs)
            X = place(d, x.astype(char))
            rs = pairs(vals, cs)
            v = go(d, "vdot", ul.vdot, X, place(d, x.astype(char)))
            d.emit("long", dict(k="sumsq", fn="vdot", rs=rs, out=as_int(v)))
            o = np.ones(n, dtype=char)
            v = go(d, "vdot", ul.vdot, X, place(d, o))
            d.emit("long", dict(k="sum", fn="vdot", rs=rs, out=as_int(v)))
            tol = tolerance(char, n)
            a1 = [[abs(int(q)), int(c)] for q, c in zip(vals, cs)]
            for z in (X, place(d, X.astype(dict(f="F", d="D", g="G")[char]))):
                v = {q: np.longdouble(go(d, "vnorm", ul.vnorm, z, t(q))) for q in (1, 2, np.inf)}
                d.emit("long", dict(k="extrema", fn="max_argmax", rs=a1, out=[as_int(v[np.inf]), int(np.argmax(np.abs(x)))]))
                d.emit("long", dict(k="within", fn="vnorm", pow=1, rs=a1, **around(v[1], tol)))
                d.emit("long", dict(k="within", fn="vnorm", pow=2, rs=a1, **around(v[2] ** 2, 2 * tol)))
                q = np.longdouble(go(d, "rms", ul.rms, z))
                d.emit("long", dict(k="within", fn="rms", pow=2, rs=a1, **around(q ** 2 * n, 2 * tol)))


    for char in "fdg":          # points in many dimensions
        for p in (2, 3):
            for g in reps(d, 300 if char == "f" else None, p, 3):
                pts = d.rng.integers(-1, 2, size=(3, p))
                tol = usable(char, g * p, 64)
                if tol is None:
                    continue
                P = place(d, np.tile(pts, g).astype(char))
                for fn, v in (("tri_area", go(d, "tri_area", ul.tri_area, P)),
                              ("tri_area_indexed", go(d, "tri_area_indexed", ul.tri_area_indexed, P, [2, 0, -2]))):
                    v = np.longdouble(v) / g
                    d.emit("long", dict(k="area", fn=fn, pts=pts.tolist(), g=g, type=char, out=recover(v * v, 4, 64, tol)))
        for m in lengths(d, None, 4):           # many points
            P = d.rng.integers(-3, 4, size=(m, 2))
            X = place(d, P.astype(char))
            far = np.array([0, 1, m - 1, m - 2, m // 2, -1, -m, 127, 128, 255, 256, 32767, 32768, 65535, 65536])
            far = far[(far >= -m) & (far < m)]
            for _ in range(8):
                i = [int(q) for q in d.rng.choice(far, 3)] if d.rng.integers(2) else [int(q) for q in d.rng.integers(-m, m, 3)]
                v = np.longdouble(go(d, "tri_area_indexed", ul.tri_area_indexed, X, i))
                d.emit("long", dict(k="area", fn="tri_area_indexed", pts=P[i].tolist(), i=i, m=m, type=char,
                                    out=recover(v * v, 4, 64, tolerance(char, 2))))


def around(v, tol):
    """The integers within the relative tolerance of v."""
    if not np.isfinite(v) or v > 1e9:
        return dict(lo=1, hi=0)
    return dict(lo=int(np.ceil(v * (1 - tol) - 1e-9)), hi=int(np.floor(v * (1 + tol) + 1e-9)))
