"""C06: searchsortedl, searchsortedr, percentileofscore."""
import numpy as np

from vf import long
from vf.conc import ladder, realize, INTS
from vf.layouts import run_modes

ASSUMPTIONS = [
    "x is sorted (searchsorted) and without NaN; percentileofscore takes NaN in x, not as score.",
    "Only order and equality matter; ranks stand for values, realized per dtype.",
]
SCHARS = "bBhHiIlLefdgO"
PCHARS = "bBhHiIlLfd"
NAN = 2000000001
KIND = dict(rank="KIND_RANK", weak="KIND_WEAK", strict="KIND_STRICT", mean="KIND_MEAN")


def models(tier, seed):
    n, m = (9, 5) if tier == "thorough" else (6, 4)
    return [dict(name="bisect", module="Bisect",
                 cfg="CONSTANTS Ranks = {0,1,2,3} MaxLen = %d\nSPECIFICATION Spec\n"
                     "INVARIANTS Bracket Counts Emitted\nPROPERTY Shrinks\n" % n),
            dict(name="percentile", module="Percentile",
                 cfg="CONSTANTS Ranks = {0,1,2} MaxLen = %d\nSPECIFICATION Spec\n"
                     "INVARIANTS Counting Bounds Emitted\n" % m)] + [long.laws(tier)]


def traces(tier):
    return [dict(stream="search", module="Search", failures="SearchFailures"), long.TRACE]


def half_ladder(n, variant, rng):
    pool = {0: [-np.inf, -65504, -1, -6e-8, 0, 6e-8, 1, 65504, np.inf],
            1: list(range(-4, 5))}.get(variant)
    if pool is None or n > len(pool):
        pool = sorted({float(np.float16(v)) for v in rng.standard_normal(4 * n + 20)})
    idx = np.sort(rng.permutation(len(pool))[:n])
    return np.array([pool[k] for k in idx], dtype=np.float16)


def lad_for(char, n, variant, rng):
    return half_ladder(n, variant, rng) if char == "e" else ladder(char, n, variant, rng)


def drive(d):
    import ufunclab as ul
    long.c06(d, ul)
    groups = {}
    for c in d.cases("bisect"):
        groups.setdefault(len(c["x"]), []).append(c)
    for char in SCHARS:
        for variant in ((0, 1, 2, 3) if d.thorough else (0, int(d.rng.integers(1, 4)))) + ((4,) if char in "fdg" else ()):
            lad = lad_for(char, 4, variant, d.rng)
            for n, cs in sorted(groups.items()):
                x = realize(np.array([c["x"] for c in cs], dtype=int).reshape(len(cs), n), lad, char)
                v = realize([c["v"] for c in cs], lad, char)
                for fn, key in (("searchsortedl", "l"), ("searchsortedr", "r")):
                    replay(d, getattr(ul, fn), fn, char, [x, v], np.array([c[key] for c in cs]), np.intp, 0)
                    d.cover("replay " + fn, len(cs))
            d.sample(dict(fn="searchsorted", dtype=char, x=repr(list(x[-1])), v=repr(v[-1]), case=cs[-1]))
    mixed(d, ul, groups)
    groups = {}
    for c in d.cases("percentile"):
        groups.setdefault(len(c["x"]), []).append(c)
    for char in PCHARS:
        for variant in ((0, 1, 2, 3) if d.thorough else (0, int(d.rng.integers(1, 4)))) + ((4,) if char in "fdg" else ()):
            lad = ladder(char, 3, variant, d.rng)
            isf = char in "fd"
            for n, cs in sorted(groups.items()):
                cs = [c for c in cs if isf or NAN not in c["x"]]
                x = realize(np.array([c["x"] for c in cs], dtype=int).reshape(len(cs), n), lad, char,
                            NAN if isf else None)
                s = realize([c["s"] for c in cs], lad, char)
                names = list(KIND)
                pick = d.rng.integers(0, 4, size=len(cs))
                kinds = [names[k] for k in pick]
                kv = np.array([getattr(ul.op, KIND[k]) for k in kinds], dtype=np.intp)
                exp = np.array([c["two"][k] * 50.0 / n if n else np.nan for c, k in zip(cs, kinds)])
                replay(d, ul.percentileofscore, "percentileofscore", char, [x, s, kv], exp, float, 1e-12)
                d.cover("replay percentileofscore", len(cs))
    # an unknown kind
    vals = {int(getattr(ul.op, k)) for k in KIND.values()}
    d.expect(len(vals) == 4, "kind-values", lambda: repr(vals))
    for bad in (-1, 4, 17, -7, 10**9):
        if bad not in vals:
            d.begin("percentileofscore kind=%d" % bad)
            r = ul.percentileofscore(np.array([1.0, 2, 3]), 2.0, np.intp(bad))
            d.replayed += 1
            d.expect(np.isnan(r), "unknown-kind", lambda: dict(kind=bad, got=float(r)))
    record(d, ul)


def replay(d, f, fn, char, args, exp, dt, tol):
    def check(mode, rows, res):
        d.replayed += len(rows)
        g = res[0]
        if g.shape != rows.shape:
            d.violation(fn + "-shape", dict(call=fn, got=g.shape))
            return
        e = exp[rows]
        ok = (np.abs(g - e) <= tol * 100) | ((g != g) & (e != e))
        for b in np.argwhere(~ok)[:1]:
            k = rows[b[0]]
            d.violation(fn, dict(call=fn, dtype=char, layout=mode, args=[repr(a[k]) for a in args],
                                 got=repr(g[b[0]]), expected=repr(exp[k])))
    run_modes(d, fn, f, args, [((), dt)], check)


def mixed(d, ul, groups):
    """x and v of different types: NumPy's common type."""
    chars = "bBhHiIlefdg"
    cs = [c for n, g in groups.items() for c in g if 0 < n]
    for a in chars:
        for b in chars:
            if a == b:
                continue
            try:
                np.result_type(a, b)
            except Exception:
                continue
            for k in d.rng.permutation(len(cs))[:12]:
                c = cs[k]
                x = np.array([10 * r + 1 for r in c["x"]], dtype=a)
                v = np.array(10 * c["v"] + 1, dtype=b)
                for fn, key in (("searchsortedl", "l"), ("searchsortedr", "r")):
                    d.begin("%s %s %s %r %r" % (fn, a, b, x, v))
                    got = getattr(ul, fn)(x, v)
                    d.replayed += 1
                    d.expect(int(got) == c[key] and got.dtype == np.intp, fn + "-mixed",
                             lambda: dict(call=fn, types=a + b, x=x.tolist(), v=v.tolist(),
                                          got=repr(got), expected=c[key]))
    # a value between two elements, and outside the range of the type of x
    x = np.array([1, 2, 2, 3], dtype=np.int8)
    for v, l, r in ((1.5, 1, 1), (2.0, 1, 3), (1000.0, 4, 4), (-1e9, 0, 0), (np.inf, 4, 4)):
        for fn, e in (("searchsortedl", l), ("searchsortedr", r)):
            d.begin(fn + " mixed value")
            got = int(getattr(ul, fn)(x, np.float64(v)))
            d.replayed += 1
            d.expect(got == e, fn + "-mixed", lambda: dict(x=x.tolist(), v=v, got=got, expected=e))


def record(d, ul):
    lens = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000]
    for char in SCHARS:
        for n in lens * (3 if d.thorough else 1):
            nr = int(d.rng.choice([2, 5, 30, 120]))
            if char == "e":
                nr = min(nr, 30)
            lad = lad_for(char, nr, 1 if nr > 30 else int(d.rng.choice([0, 1, 2])), d.rng)
            if char == "e":
                lad = half_ladder(nr, 2, d.rng)
            r = np.sort(d.rng.integers(0, nr, size=n))
            x = realize(r, lad, char)
            if d.rng.integers(2):
                big = np.empty((n, 2), dtype=x.dtype)
                big[:, 0] = lad[0]
                big[:, 1] = x[::-1]
                x = big[::-1, 1]
            for v in {0, nr - 1, int(d.rng.integers(nr)), int(d.rng.integers(nr)),
                      int(r[0]) if n else 0, int(r[-1]) if n else 0}:
                for fn in ("searchsortedl", "searchsortedr"):
                    d.begin("%s dtype=%s x=%r v=%r" % (fn, char, x[:100], lad[v]))
                    out = int(getattr(ul, fn)(x, lad[v]))
                    d.emit("search", dict(fn=fn, dtype=char, kind="", x=[int(q) for q in r], v=int(v), out=out))
    for char in PCHARS:
        for n in lens * (3 if d.thorough else 1):
            nr = int(d.rng.choice([2, 5, 30]))
            lad = ladder(char, nr, int(d.rng.integers(5)), d.rng)
            r = d.rng.integers(0, nr, size=n)
            if char in "fd" and n and d.rng.integers(2):
                r[d.rng.integers(0, n, size=1 + n // 10)] = NAN
            x = realize(r, lad, char, NAN if char in "fd" else None)
            for kind, attr in KIND.items():
                v = int(d.rng.integers(nr))
                d.begin("percentileofscore dtype=%s x=%r v=%r kind=%s" % (char, x[:100], lad[v], kind))
                res = float(ul.percentileofscore(x, lad[v], getattr(ul.op, attr)))
                two = res * n / 50
                out = NAN if res != res else int(round(two)) if abs(two - round(two)) < 1e-7 else 2000000003
                d.emit("search", dict(fn="percentileofscore", dtype=char, kind=kind,
                                      x=[int(q) for q in r], v=v, out=out))
