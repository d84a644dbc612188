"""C10: backlash, backlash_sum, hysteresis_relay."""
import numpy as np

from vf import long
from vf.conc import as_ints, bits_ids, intern, ladder, realize, scale
from vf.layouts import run_modes, same

ASSUMPTIONS = [
    "Signals contain no NaN, deadbands are not negative, low_threshold <= high_threshold.",
    "Model signals are integers in units of half a deadband, scaled by powers of two (exact in "
    "every type); for arbitrary floats x - deadband/2 and x + deadband/2 are computed by NumPy in "
    "the type of the loop.",
]


def models(tier, seed):
    big = tier == "thorough"
    cfg = ("CONSTANTS Xs = {%s} Hs = {%s} Inits = {%s} Ws = {%s} M = %d MaxLen = %d\nSPECIFICATION Spec\n"
           "INVARIANTS Band Chunkless Emitted\nPROPERTIES Pushed Causal\n")
    # values are shifted by +5 on the way (cfg files have no negative numbers)
    return [dict(name="play", module="PlayLoop",
                 cfg=cfg % ("3,4,5,6,7" if big else "3,5,6,7", "0,1,2", "4,7", "1", 1, 4)),
            dict(name="bank", module="PlayLoop",
                 cfg=cfg % ("3,5,6", "0,1,2" if big else "1,2", "4,7" if big else "5,7", "1,2", 2, 3)),
            dict(name="relay", module="RelayLoop",
                 cfg="CONSTANTS Xs = {0,1,2,3,4} Thresholds = {1,2,3} MaxLen = %d\nSPECIFICATION Spec\n"
                     "INVARIANTS Defined OnlyValues Emitted\nPROPERTIES Switches\n" % (5 if big else 4))] + [long.laws(tier)]


def traces(tier):
    return [dict(stream="hyst", module="Hysteresis", failures="HysteresisFailures"), long.TRACE]


SHIFT = 5


def drive(d):
    import ufunclab as ul
    long.c10(d, ul)
    for name in ("play", "bank"):
        replay_play(d, ul, list(d.cases(name)), name)
    replay_relay(d, ul, list(d.cases("relay")))
    record(d, ul)


def groups(cs):
    g = {}
    for c in cs:
        g.setdefault(tuple(c["cuts"]), []).append(c)
    return g


def bad(d, clause, call, char, mode, got, exp, what):
    s = same(got, exp)
    s = s.reshape(s.shape[0], -1).all(axis=1)
    for k in np.flatnonzero(~s)[:1]:
        d.violation(clause, dict(call=call, dtype=char, layout=mode, got=repr(got[k]), expected=repr(exp[k]),
                                 **{n: repr(v[k]) for n, v in what.items()}))


def replay_play(d, ul, cs, name):
    for cuts, g in sorted(groups(cs).items()):
        if not d.thorough:
            g = [g[k] for k in d.rng.permutation(len(g))[:900]]
        x = np.array([c["x"] for c in g]) - SHIFT
        hs = np.array([c["hs"] for c in g])
        ws = np.array([c["ws"] for c in g])
        y0 = np.array([c["y0"] for c in g]) - SHIFT
        tot = ws.sum(axis=1, keepdims=True)
        outs = np.array([c["outs"] for c in g]) - SHIFT * tot
        ys = np.array([c["ys"] for c in g]) - SHIFT
        for char in "fdg":
            t = np.dtype(char).type
            s = t(scale(d.rng, char, 20, -16))
            X, H, W, Y0 = (x * s).astype(char), (2 * hs * s).astype(char), ws.astype(char), (y0 * s).astype(char)
            O, F = (outs * s).astype(char), (ys * s).astype(char)
            edges = [0] + list(cuts) + [x.shape[1]]
            st = Y0
            for a, b in zip(edges, edges[1:]):      # one call per chunk
                xc, oc = X[:, a:b], O[:, a:b]
                m = hs.shape[1]

                def check_sum(mode, rows, res, xc=xc, oc=oc, st=st, last=(b == x.shape[1])):
                    d.replayed += len(rows)
                    what = dict(x=xc[rows], w=W[rows], deadband=H[rows], initial=st[rows])
                    bad(d, "backlash_sum", "backlash_sum", char, mode, res[0], oc[rows], what)
                    if last:
                        bad(d, "backlash_sum-final", "backlash_sum", char, mode, res[1], F[rows], what)
                run_modes(d, "backlash_sum", ul.backlash_sum, [xc, W, H, st], [((b - a,), char), ((m,), char)],
                          check_sum, modes=None if b - a > 1 else ["contig", "out"], singles=3)
                d.cover("replay backlash_sum", len(g))
                new = ul.backlash_sum(xc, W, H, st)[1]
                if name == "play":
                    def check_one(mode, rows, res, xc=xc, oc=oc, st=st):
                        d.replayed += len(rows)
                        bad(d, "backlash", "backlash", char, mode, res[0], oc[rows] / W[rows],
                            dict(x=xc[rows], deadband=H[rows], initial=st[rows]))
                    run_modes(d, "backlash", ul.backlash, [xc, H[:, 0], st[:, 0]], [((b - a,), char)], check_one,
                              modes=None if b - a > 1 else ["contig", "out"], singles=3)
                    d.cover("replay backlash", len(g))
                st = new
        d.sample(dict(fn=name, case=g[-1]))


def replay_relay(d, ul, cs):
    for cuts, g in sorted(groups(cs).items()):
        if not d.thorough:
            g = [g[k] for k in d.rng.permutation(len(g))[:900]]
        for char in "fdg":
            lad = ladder(char, 5, int(d.rng.integers(5)), d.rng)
            x = realize([c["x"] for c in g], lad, char)
            lo, hi = realize([c["lo"] for c in g], lad, char), realize([c["hi"] for c in g], lad, char)
            vals = ladder(char, 3, int(d.rng.integers(5)), d.rng)
            vals = {k: v for k, v in zip((10, 20, 30), vals[d.rng.permutation(3)])}
            y0 = np.array([vals[c["y0"]] for c in g], dtype=char)
            outs = np.array([[vals[v] for v in c["outs"]] for c in g], dtype=char)
            lv, hv = np.full(len(g), vals[10]), np.full(len(g), vals[20])
            edges = [0] + list(cuts) + [x.shape[1]]
            st = y0
            for a, b in zip(edges, edges[1:]):
                def check(mode, rows, res, a=a, b=b, st=st):
                    d.replayed += len(rows)
                    bad(d, "hysteresis_relay", "hysteresis_relay", char, mode, res[0], outs[rows, a:b],
                        dict(x=x[rows, a:b], low_threshold=lo[rows], high_threshold=hi[rows], low_value=lv[rows],
                             high_value=hv[rows], init=st[rows]))
                run_modes(d, "hysteresis_relay", ul.hysteresis_relay, [x[:, a:b], lo, hi, lv, hv, st],
                          [((b - a,), char)], check, singles=3)
                if b > a:
                    st = ul.hysteresis_relay(x[:, a:b], lo, hi, lv, hv, st)[:, -1]
                d.cover("replay hysteresis_relay", len(g))
        d.sample(dict(fn="relay", case=g[-1]))


def cutpoints(d, n):
    k = int(d.rng.integers(0, 5))
    return [0] + sorted(int(v) for v in d.rng.integers(0, n + 1, size=k)) + [n]


def record(d, ul):
    lens = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 129, 255, 257, 600]
    for char in "fdg":
        t = np.dtype(char).type
        for n in lens * (4 if d.thorough else 1):
            # integers
            s = t(scale(d.rng, char, 6, 0, 30))
            amp = int(d.rng.choice([3, 10, 1000]))
            x = np.cumsum(d.rng.integers(-amp, amp + 1, size=n)) if d.rng.integers(2) else \
                d.rng.integers(-amp, amp + 1, size=n)
            h, y0 = int(d.rng.integers(0, amp + 1)), int(d.rng.integers(-amp, amp + 1))
            X = (x * s).astype(char)
            d.begin("backlash %s x=%r deadband=%r init=%r" % (char, X[:50], 2 * h * s, y0 * s))
            out = ul.backlash(X, t(2 * h * s), t(y0 * s))
            d.emit("hyst", dict(fn="backlash", dtype=char, x=[int(v) for v in x], h=h, y0=y0,
                                out=as_ints(out, 1 / s)))
            m = int(d.rng.integers(0, 5))
            hs, ys, ws = (d.rng.integers(a, amp + 1, size=m) for a in (0, -amp, -3))
            ws = np.minimum(ws, 3)
            d.begin("backlash_sum %s x=%r w=%r deadband=%r init=%r" % (char, X[:50], ws, 2 * hs * s, ys * s))
            out, fin = ul.backlash_sum(X, ws.astype(char), (2 * hs * s).astype(char), (ys * s).astype(char))
            d.emit("hyst", dict(fn="backlash_sum", dtype=char, x=[int(v) for v in x], hs=[int(v) for v in hs],
                                ws=[int(v) for v in ws], y0=[int(v) for v in ys],
                                out=as_ints(out, 1 / s), final=as_ints(fin, 1 / s)))
            # arbitrary floats, sometimes with infinities and extreme values
            x = (d.rng.standard_normal(n) * 10.0 ** int(d.rng.integers(-3, 4))).astype(char)
            if n and d.rng.integers(3) == 0:
                pool = np.array([np.inf, -np.inf, np.finfo(char).max, -np.finfo(char).max, 0, np.finfo(char).tiny],
                                dtype=char)
                x[d.rng.integers(0, n, size=1 + n // 8)] = d.rng.choice(pool)
            dead = t(abs(d.rng.standard_normal()) * 10.0 ** int(d.rng.integers(-3, 4)))
            y0 = t(d.rng.standard_normal())
            d.begin("backlash %s x=%r deadband=%r init=%r" % (char, x[:50], dead, y0))
            out = ul.backlash(x, dead, y0)
            if np.isnan(out).any():
                d.violation("backlash-nan", dict(dtype=char, x=repr(x), deadband=repr(dead), init=repr(y0)))
                continue
            half = dead / t(2)
            a = intern(x - half, x + half, out, np.array([y0]))
            d.emit("hyst", dict(fn="backlash-ranks", dtype=char, xm=a[0].tolist(), xp=a[1].tolist(),
                                out=a[2].tolist(), y0=int(a[3][0])))
            # chunks of the same signals
            cp = cutpoints(d, n)
            parts, st = [], y0
            for p, q in zip(cp, cp[1:]):
                r = ul.backlash(x[p:q], dead, st)
                parts.append(r)
                st = r[-1] if q > p else st
            ids = bits_ids(out, *parts)
            d.emit("hyst", dict(fn="chunks", of="backlash", whole=ids[0].tolist(),
                                parts=[i.tolist() for i in ids[1:]], wfinal=[], pfinal=[]))
            m = int(d.rng.integers(1, 5))
            w, hb, st = (d.rng.standard_normal((3, m))).astype(char)
            hb = abs(hb)
            xf = np.where(np.isfinite(x), x, t(0)) / t(np.finfo(char).max if np.abs(x).max(initial=0) > 1e30 else 1)
            d.begin("backlash_sum %s n=%d m=%d chunks %r" % (char, n, m, cp))
            out, fin = ul.backlash_sum(xf, w, hb, st)
            parts = []
            for p, q in zip(cp, cp[1:]):
                r, st = ul.backlash_sum(xf[p:q], w, hb, st)
                parts.append(r)
            ids = bits_ids(out, fin, st, *parts)
            d.emit("hyst", dict(fn="chunks", of="backlash_sum", whole=ids[0].tolist(), wfinal=ids[1].tolist(),
                                pfinal=ids[2].tolist(), parts=[i.tolist() for i in ids[3:]]))
            # relay
            nr = int(d.rng.choice([3, 6, 20]))
            lad = ladder(char, nr, int(d.rng.integers(5)), d.rng)
            r = d.rng.integers(0, nr, size=n)
            lo, hi = sorted(int(v) for v in d.rng.integers(0, nr, size=2))
            vl = ladder(char, 3, int(d.rng.integers(5)), d.rng)[d.rng.permutation(3)]
            same_init = int(d.rng.integers(3))
            d.begin("hysteresis_relay %s x=%r lo=%r hi=%r" % (char, lad[r][:50], lad[lo], lad[hi]))
            out = ul.hysteresis_relay(lad[r], lad[lo], lad[hi], vl[0], vl[1], vl[same_init])
            code = [next((k for k in range(3) if vl[k] == v), 9) for v in out]
            d.emit("hyst", dict(fn="hysteresis_relay", dtype=char, x=r.tolist(), lo=lo, hi=hi, lv=0, hv=1,
                                y0=same_init, out=code))
            parts, st = [], vl[same_init]
            for p, q in zip(cp, cp[1:]):
                rr = ul.hysteresis_relay(lad[r[p:q]], lad[lo], lad[hi], vl[0], vl[1], st)
                parts.append(rr)
                st = rr[-1] if q > p else st
            ids = bits_ids(out, *parts)
            d.emit("hyst", dict(fn="chunks", of="hysteresis_relay", whole=ids[0].tolist(),
                                parts=[i.tolist() for i in ids[1:]], wfinal=[], pfinal=[]))
