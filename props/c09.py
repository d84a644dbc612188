"""C09: next_less/next_greater, nextn_less/nextn_greater and issnan."""
import numpy as np

from vf.layouts import Placed, run_modes

ASSUMPTIONS = [
    "The bit layout of NumPy's floating-point types is IEEE 754 binary16/32/64 and x87 extended.",
    "The payload and sign of a NaN result are not part of the property.",
]
# exponent, then the fraction in limbs; the top limb is the exponent field
BASES = dict(f=[256, 128, 65536], d=[2048, 16, 65536, 65536, 65536], g=[32768, 32768, 65536, 65536, 65536])
WIDTH = {k: [int(b).bit_length() - 1 for b in v] for k, v in BASES.items()}
TOY = [4, 2, 3]


def seq(v):
    return "<<%s>>" % ",".join(str(x) for x in v)


def models(tier, seed):
    out = []
    for name, b, edge, n in [("toy", TOY, 2, 4), ("f", BASES["f"], 2, 5), ("d", BASES["d"], 1, 4),
                             ("g", BASES["g"], 1, 4)]:
        m = "Walk_" + name
        out.append(dict(name=name, module="LatticeWalk", workers=3,
                        cfg="CONSTANTS Bases <- B_%s Edge = %d N = %d Small = %s\nSPECIFICATION Spec\n"
                            "INVARIANTS Right Adjacent ThereAndBack KeepsNan Emitted\n"
                            % (name, edge, n, "TRUE" if name == "toy" else "FALSE")))
    return out


def traces(tier):
    return [dict(stream="lattice", module="FloatLattice", failures="LatticeFailures")]


def pack(char, neg, mag):
    """Bits of a pattern as an int."""
    b = 0
    for w, m in zip(WIDTH[char], mag):
        b = (b << w) | m
    return b, bool(neg)


def make(char, pats):
    """Array of the type with the given [(neg, mag)]."""
    n = len(pats)
    if char == "g":
        raw = np.zeros((n, 16), dtype=np.uint8)
        for k, (neg, mag) in enumerate(pats):
            b, s = pack("g", neg, mag)
            e, frac = b >> 63, b & ((1 << 63) - 1)
            i = 1 if e else 0                       # the explicit integer bit
            word = (int(s) << 79) | (e << 64) | (i << 63) | frac
            raw[k, :10] = np.frombuffer(word.to_bytes(10, "little"), dtype=np.uint8)
        return raw.reshape(-1).view(np.longdouble)
    bits = dict(f=32, d=64)[char]
    out = np.empty(n, dtype="u%d" % (bits // 8))
    for k, (neg, mag) in enumerate(pats):
        b, s = pack(char, neg, mag)
        out[k] = b | (int(s) << (bits - 1))
    return out.view(char)


def split(char, b):
    mag = []
    for w in reversed(WIDTH[char]):
        mag.append(b & ((1 << w) - 1))
        b >>= w
    return mag[::-1]


def read(char, a):
    """[(neg, mag)] of an array."""
    a = np.ascontiguousarray(a)
    out = []
    if char == "g":
        raw = a.reshape(-1).view(np.uint8).reshape(-1, 16)
        for r in raw:
            w = int.from_bytes(bytes(r[:10]), "little")
            out.append((bool(w >> 79), split("g", (((w >> 64) & 0x7fff) << 63) | (w & ((1 << 63) - 1)))))
        return out
    bits = dict(f=32, d=64)[char]
    for w in a.reshape(-1).view("u%d" % (bits // 8)):
        w = int(w)
        out.append((bool(w >> (bits - 1)), split(char, w & ((1 << (bits - 1)) - 1))))
    return out


def keys(char, a):
    """The bits of each element, one key for all NaNs."""
    a = np.asarray(a)
    if char == "g":
        c = np.ascontiguousarray(a).reshape(-1).view(np.uint8).reshape(-1, 16)[:, :10]
        lo = np.ascontiguousarray(c[:, :8]).view(np.uint64).reshape(a.shape)
        hi = np.ascontiguousarray(c[:, 8:]).view(np.uint16).reshape(a.shape)
        n = np.isnan(a)
        return np.where(n, np.uint64(1), lo), np.where(n, np.uint16(0x7fff), hi)
    u = np.ascontiguousarray(a).view("u%d" % a.dtype.itemsize)
    return (np.where(np.isnan(a), u.dtype.type(np.iinfo(u.dtype).max), u),)


def same_bits(char, a, b):
    return np.logical_and.reduce([x == y for x, y in zip(keys(char, a), keys(char, b))])


def drive(d):
    import ufunclab as ul
    for char in "fdg":
        neighbours(d, ul, char)
    longer(d, ul)
    signaling(d, ul)


def neighbours(d, ul, char):
    cs = list(d.cases(char))
    if not d.thorough and len(cs) > 6000:
        cs = [cs[k] for k in d.rng.permutation(len(cs))[:6000]]
    for up in (False, True):
        use = [c for c in cs if c["up"] == up]
        X = make(char, [(c["v"]["neg"], c["v"]["mag"]) for c in use])
        n = len(use[0]["r"])
        E = make(char, [(r["neg"], r["mag"]) for c in use for r in c["r"]]).reshape(len(use), n)
        f1 = ul.next_greater if up else ul.next_less
        fn = ul.nextn_greater if up else ul.nextn_less

        def check1(mode, rows, res):
            d.replayed += len(rows)
            ok = same_bits(char, res[0].reshape(rows.shape), E[rows, 0])
            for b in np.flatnonzero(~ok)[:1]:
                d.violation("neighbour", dict(call=f1.__name__, dtype=char, layout=mode, x=repr(X[rows[b]]),
                                              got=repr(res[0][b]), expected=repr(E[rows[b], 0])))
        run_modes(d, f1.__name__, f1, [X], [((), char)], check1, singles=20)
        for m in range(0, n + 1):
            want = E[:, :m]
            pl = Placed(X, d.rng)
            for how in range(4):
                d.begin("%s(%s, %d) how=%d" % (fn.__name__, char, m, how))
                if how == 0:
                    r = fn(X, m)
                elif how == 1:
                    r = fn(pl.view, m)
                elif how == 2:
                    po = Placed(np.zeros((len(X), m), dtype=char), d.rng)
                    r = fn(pl.view, n=m, out=po.view)
                    d.expect(po.guards_intact() and r is po.view, "write-outside-output", dict(fn=fn.__name__, n=m))
                else:
                    r = np.moveaxis(fn(X, m, axis=0), 0, -1)
                d.expect(pl.unchanged(), "input-modified", dict(fn=fn.__name__, n=m))
                d.replayed += len(X)
                if r.shape != want.shape or r.dtype != np.dtype(char):
                    d.violation("shape", dict(fn=fn.__name__, n=m, got=str(r.shape), dtype=str(r.dtype)))
                    continue
                ok = same_bits(char, r, want) if m else np.ones((len(X), 0), dtype=bool)
                for b in np.argwhere(~ok)[:1]:
                    d.violation("neighbours", dict(fn=fn.__name__, n=m, dtype=char, x=repr(X[b[0]]), got=repr(r[b[0]]),
                                                   expected=repr(want[b[0]])))
        d.cover("replay " + f1.__name__ + " " + char, len(use))
    d.sample(dict(type=char, case=cs[-1]))


def longer(d, ul):
    """Random patterns and longer walks, and neighbours of every binade boundary of the type."""
    for char in "fdg":
        nl = len(BASES[char])
        for t in range(600 if d.thorough else 160):
            mag = [int(d.rng.integers(b)) for b in BASES[char]]
            for j in range(1, nl):           # runs of ones and zeros make the carries long
                u = d.rng.integers(4)
                if u:
                    mag[j] = [0, 0, BASES[char][j] - 1, BASES[char][j] - 1 - int(d.rng.integers(3))][u]
            if d.rng.integers(3) == 0:
                mag[0] = int(d.rng.choice([0, 1, BASES[char][0] - 2, BASES[char][0] - 1]))
            neg, up = bool(d.rng.integers(2)), bool(d.rng.integers(2))
            x = make(char, [(neg, mag)])[0]
            n = int(d.rng.choice([1, 2, 3, 7, 20, 60]))
            fn = ul.nextn_greater if up else ul.nextn_less
            f1 = ul.next_greater if up else ul.next_less
            d.begin("%s(%r, %d)" % (fn.__name__, x, n))
            r = fn(x, n)
            single = []
            y = x
            for _ in range(min(n, 8)):
                y = f1(y)
                single.append(y)
            d.expect(same_bits(char, np.array(single, dtype=char), r[:len(single)]).all(), "iterate",
                     lambda: dict(fn=fn.__name__, x=repr(x), got=repr(r[:8]), single=repr(single)))
            d.emit("lattice", dict(k="steps", b=BASES[char], up=up, v=dict(neg=neg, mag=mag), n=n,
                                   r=[dict(neg=s, mag=m) for s, m in read(char, r)], x=repr(x)))
        # every binade boundary and its neighbours
        fi = np.finfo(char)
        e = np.arange(int(fi.minexp) - int(fi.nmant), int(fi.maxexp))
        x = np.ldexp(np.ones(len(e), dtype=char), e).astype(char)
        x = x[(x > 0) & np.isfinite(x)]
        x = np.concatenate([x, -x, np.zeros(2, dtype=char) * np.array([1, -1], dtype=char)])
        for up in (False, True):
            f1 = ul.next_greater if up else ul.next_less
            d.begin("%s at binade boundaries %s" % (f1.__name__, char))
            y = f1(x)
            z = (ul.next_less if up else ul.next_greater)(y)
            d.expect(((y > x) if up else (y < x)).all() and (z == x).all(), "inverse",
                     lambda: dict(fn=f1.__name__, dtype=char, x=repr(x[(z != x) | (y == x)][:3])))
            step = 1 if d.thorough else max(1, len(x) // 400)
            for k in range(0, len(x), step):
                (s, m), (s2, m2) = read(char, np.array([x[k], y[k]], dtype=char))
                d.emit("lattice", dict(k="steps", b=BASES[char], up=up, v=dict(neg=s, mag=m), n=1,
                                       r=[dict(neg=s2, mag=m2)], x=repr(x[k])))
        d.cover("binades " + char, len(x))


FMT = dict(e=(5, 9, np.uint16), f=(8, 22, np.uint32), d=(11, 51, np.uint64))


def signaling(d, ul):
    for char, (ne, npay, ut) in FMT.items():
        bits = np.dtype(char).itemsize * 8
        if char == "e":
            exps = range(1 << ne)
            pays = np.arange(1 << npay, dtype=np.uint64)
        else:
            exps = [0, 1, (1 << (ne - 1)) - 1, 1 << (ne - 1), (1 << ne) - 2, (1 << ne) - 1]
            p = {0, 1, 2, (1 << npay) - 1, (1 << npay) - 2} | {1 << j for j in range(npay)} \
                | {((1 << npay) - 1) ^ (1 << j) for j in range(npay)} \
                | {int(v) for v in d.rng.integers(0, 1 << npay, size=200)}
            pays = np.array(sorted(p), dtype=np.uint64)
        for sign in (0, 1):
            for e in exps:
                for q in (0, 1):
                    u = (np.uint64(sign) << np.uint64(bits - 1)) | (np.uint64(e) << np.uint64(npay + 1)) \
                        | (np.uint64(q) << np.uint64(npay)) | pays
                    x = u.astype(ut).view(char)
                    pl = Placed(x, d.rng)
                    how = int(d.rng.integers(3))
                    d.begin("issnan %s sign=%d exponent=%d quiet=%d" % (char, sign, e, q))
                    if how == 0:
                        got = ul.issnan(x)
                    elif how == 1:
                        got = ul.issnan(pl.view)
                    else:
                        po = Placed(np.zeros(len(x), dtype=bool), d.rng)
                        got = ul.issnan(pl.view, out=po.view)
                        d.expect(po.guards_intact(), "write-outside-output", "issnan")
                    d.expect(got.dtype == np.bool_, "dtype", lambda: str(got.dtype))
                    # payloads do not fit in TLC's integers: 0 or not, which is what matters, plus low bits
                    code = [int(v) if v < 2 ** 30 else int(v % 2 ** 29) + 2 ** 29 for v in pays]
                    d.emit("lattice", dict(k="snan", type=char, sign=sign, e=e, ones=e == (1 << ne) - 1, quiet=q,
                                           pay=code, got=[bool(v) for v in got],
                                           same=bool((x.view(ut) == u.astype(ut)).all() and pl.unchanged())))
                    d.cover("issnan patterns " + char, len(x))
    # integers and longdouble
    for x in (np.float32([1.5, np.nan, np.inf]), np.float64(np.nan), np.array([], dtype="d"), np.float16([[np.nan, 1]])):
        d.begin("issnan quiet")
        d.expect(not np.any(ul.issnan(x)) and np.shape(ul.issnan(x)) == np.shape(x), "signaling", lambda: repr(x))
    for bad in (np.longdouble(1), np.complex64(1)):
        d.begin("issnan of %r" % bad)
        try:
            ul.issnan(bad)
            d.violation("type-accepted", repr(bad))
        except TypeError:
            pass
