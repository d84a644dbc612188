"""C05: ordered and all_same."""
import numpy as np

from vf import long, relobj
from vf.conc import ladder, realize
from vf.layouts import run_modes

ASSUMPTIONS = [
    "Only order and equality of elements matter; ranks stand for values.",
    "ordered with NaN in the data, and operators outside LT..GE, are outside the property.",
]
CHARS = "bBhHiIlLfdgO"
NAN = 2000000001


def models(tier, seed):
    n = 5 if tier == "thorough" else 4
    return [dict(name="scan", module="OrderedScan",
                 cfg="CONSTANTS Ranks = {0,1,2} MaxLen = %d\nSPECIFICATION Spec\n"
                     "INVARIANTS PrefixRight Transitive SameIsOrderedEq Emitted\n" % n)] + [long.laws(tier)]


def traces(tier):
    return [dict(stream="ordered", module="Ordered", failures="OrderedFailures"), long.TRACE]


def drive(d):
    import ufunclab as ul
    long.c05(d, ul)
    ops = {n: getattr(ul.op, n) for n in ("LT", "LE", "EQ", "NE", "GT", "GE")}
    groups = {}
    for c in d.cases("scan"):
        groups.setdefault(len(c["x"]), []).append(c)
    for char in CHARS:
        isf = char in "fdg"
        for variant in ((0, 1, 2, 3) if d.thorough else (0, int(d.rng.integers(1, 4)))) + ((4,) if isf else ()):
            lad = ladder(char, 3, variant, d.rng)
            for n, cs in sorted(groups.items()):
                c1 = [c for c in cs if not c["nan"]]
                c2 = [c for c in cs if c["op"] == "LT" and (isf or not c["nan"])]
                replay(d, ul, ops, char, lad, n, c1, "ordered")
                replay(d, ul, ops, char, lad, n, c2, "all_same")
    record(d, ul, ops)
    related(d, ul, ops)


def replay(d, ul, ops, char, lad, n, cs, fn):
    x = realize(np.array([c["x"] for c in cs], dtype=np.int64).reshape(len(cs), n), lad, char,
                NAN if char in "fdg" else None)
    op = np.array([ops[c["op"]] for c in cs], dtype=np.int8)
    exp = np.array([c["ord" if fn == "ordered" else "same"] for c in cs])

    def check(mode, rows, res):
        d.replayed += len(rows)
        g = res[0]
        if g.shape != rows.shape:
            d.violation(fn + "-shape", dict(call=fn, got=g.shape))
            return
        for b in np.argwhere(g != exp[rows])[:1]:
            k = rows[b[0]]
            d.violation(fn, dict(call=fn, dtype=char, layout=mode, op=cs[k]["op"],
                                 x=repr(list(x[k])), got=bool(g[b[0]]), expected=bool(exp[k])))
    run_modes(d, fn, getattr(ul, fn), [x, op] if fn == "ordered" else [x], [((), bool)], check)
    d.cover("replay " + fn, len(cs))
    d.sample(dict(dtype=char, case=cs[-1], x=repr(list(x[-1]))))


def record(d, ul, ops):
    """Long sequences that are in order but for at most one pair."""
    lens = [2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 600]
    for char in CHARS:
        for n in lens * (3 if d.thorough else 1):
            for op in ops:
                full = op in ("LT", "GT", "NE")
                nr = n + 1 if full else 6
                if char in "bB" and nr > 256:       # all the values there are
                    nr = 256
                    if n > nr and op != "NE":
                        continue
                lad = ladder(char, nr, 1 if nr > 60 else int(d.rng.integers(4 if char != "O" else 3)), d.rng)
                r = np.cumsum(d.rng.integers(1, nr, n)) % nr if n > nr > 250 else np.sort(d.rng.permutation(nr)[:n]) if full else np.sort(d.rng.integers(0, nr, size=n))
                if op in ("GT", "GE"):
                    r = r[::-1].copy()
                if op == "EQ":
                    r[:] = r[0]
                if op == "NE" and n <= nr:
                    r = d.rng.permutation(r)
                w = int(d.rng.integers(4))
                if w:       # break it at one pair: the first, the last or any
                    j = (0, n - 2, int(d.rng.integers(n - 1)))[w - 1]
                    if op in ("LT", "GT", "NE"):
                        r[j + 1:] = r[j + 1:] if d.rng.integers(2) else r[j + 1:]
                        r[j + 1] = r[j]
                    elif op == "EQ":
                        r[j + 1] = (r[j] + 1) % nr
                    else:
                        r[j], r[j + 1] = (1, 0) if op == "LE" else (0, 1)
                x = realize(r, lad, char)
                if d.rng.integers(2):
                    big = np.empty((n, 2), dtype=x.dtype)
                    big[:, 1] = x
                    big[:, 0] = lad[0]
                    x = big[:, 1]
                d.begin("ordered dtype=%s op=%s x=%r" % (char, op, x[:100]))
                d.emit("ordered", dict(fn="ordered", dtype=char, op=op, x=[int(v) for v in r],
                                       out=bool(ul.ordered(x, ops[op]))))
            r = np.full(n, 1)
            if d.rng.integers(3):
                r[(0, n - 1, int(d.rng.integers(n)))[int(d.rng.integers(3))]] = 0
            lad = ladder(char, 3, int(d.rng.integers(5)), d.rng)
            x = realize(r, lad, char)
            d.begin("all_same dtype=%s x=%r" % (char, x[:100]))
            d.emit("ordered", dict(fn="all_same", dtype=char, op="EQ", x=[int(v) for v in r],
                                   out=bool(ul.all_same(x))))


def related(d, ul, ops):
    """Objects related in any way: only the neighbours, or the first one, and their order, count."""
    for _ in range(1500 if d.thorough else 300):
        k = int(d.rng.integers(2, 6))
        rel, objs = relobj.items(k, d.rng, float(d.rng.choice([0.5, 0.8, 0.95])))
        n = int(d.rng.integers(2, 7))
        for op in ops:
            xs = [int(v) for v in d.rng.integers(0, k, n)]
            if d.rng.integers(3):           # walk along the relation for a while
                for i in range(1, n):
                    to = [j for j in range(k) if rel[op][xs[i - 1]][j]]
                    if to and d.rng.integers(8):
                        xs[i] = int(d.rng.choice(to))
            x = relobj.array([objs[v] for v in xs])
            for fn in ("ordered",) + (("all_same",) if op == "EQ" else ()):
                d.begin("%s of related objects op=%s x=%r rel=%r" % (fn, op, xs, rel[op]))
                r = ul.ordered(x, ops[op]) if fn == "ordered" else ul.all_same(x)
                d.emit("ordered", dict(fn=fn, op=op, rel=rel[op], x=xs, out=bool(r)))
    d.cover("objects related in any way")
