"""C01: the result and the writes of every function do not depend on the layout of its arguments."""
import itertools
import mmap

import numpy as np

from vf.catalog import Wrapped, catalog
from vf.cells import Buffers, Ids, close, keys, span, strides_for, view

ASSUMPTIONS = [
    "The order of the type of a loop is the one NumPy dispatches to; results of floating-point loops are compared to "
    "those of separate contiguous calls within rounding, since a layout may select another order of evaluation.",
    "sosfilter_ic_contig, whose documentation requires contiguous arrays, is called with contiguous core dimensions only.",
]


def models(tier, seed):
    big = tier == "thorough"
    cfg = "CONSTANTS InSteps = {%s} OutSteps = {%s} Batch = %d Core = %d Shift = 3 MaxShare = %d Staging = %s\n" \
          "SPECIFICATION Spec\n" \
          "INVARIANTS Right Frame Emitted\n"
    m = [dict(name="layouts", module="LayoutLoop", cfg=cfg % ("1,2,3,4,5", "1,2,4,5,6" if big else "1,2,4,5", 2, 2, 3 if big else 2, "TRUE")),
         dict(name="fault-in-place", module="LayoutLoop", cfg=cfg % ("2,4", "2,4", 2, 2, 2, "FALSE"), refutes=True)]
    if big:
        m.append(dict(name="layouts3", module="LayoutLoop", cfg=cfg % ("2,3,4,6", "0,2,4,6", 3, 2, 2, "TRUE")))
        m.append(dict(name="layouts23", module="LayoutLoop", cfg=cfg % ("0,2,3,4,6", "0,2,4,6", 2, 3, 2, "TRUE")))
    return m


def traces(tier):
    return [dict(stream="layout", module="Layout", failures="LayoutFailures")]


def drive(d):
    styles = list(d.cases("layouts"))
    if d.thorough:
        styles += list(d.cases("layouts3")) + list(d.cases("layouts23"))
    d.cover("layouts from the model", len(styles))
    fns = catalog()
    rounds = 80 if d.thorough else 12
    for f in fns:
        for loop in f.loops:
            r = rounds
            if f.group in ("gendot", "bincountw") or len(f.loops) > 20:
                r = max(1, rounds // 4)
            for t in range(r):
                one_call(d, f, loop, styles, t)
            planned(d, f, loop, styles, 12 if d.thorough else 4)
        d.cover("functions")
        d.cover("loops", len(f.loops))
        folds(d, f)
        large(d, f)
        far(d, f)
        if f.dims:
            loops = f.loops if d.thorough else [f.loops[k] for k in d.rng.permutation(len(f.loops))[:4]]
            for loop in loops:
                for t in range(6 if d.thorough else 3):
                    one_call(d, f, loop, styles, t, top=[70, 130, 260][t % 3])


def planned(d, f, loop, styles, rounds):
    """Calls in which the contiguous and the other arguments are given, over the small batch lengths in turn."""
    if f.group in ("gendot", "bincountw") or len(f.loops) > 20:
        rounds = max(1, rounds // 4)
    n = f.nin + f.nout
    plans = [tuple(c) for c in itertools.product("co", repeat=n)] if n <= 3 else \
        sorted({tuple(p if q == k else r for q in range(n)) for k in range(n) for p in "co" for r in "co"})
    lens = [2, 3, 1, 5, 4, 8, 6, 7, 9, 16, 10, 12]
    shift = int(d.rng.integers(3))
    for t in range(rounds):
        for k, p in enumerate(plans):
            one_call(d, f, loop, styles, t, (p, lens[(t + (k + shift) % 2) % len(lens)]))


def reference(f, loop, slices, sz):
    """The call on contiguous, aligned copies of the slices of one batch index."""
    a = [np.array(s, order="C", copy=True) if s.ndim else s[()] for s in slices]
    out = None
    if f.outdims:
        out = tuple(np.zeros(f.core(c, sz), dtype=ch) for c, ch in zip(f.cout, loop[1]))
    r = f.call(a, out)
    r = r if isinstance(r, tuple) else (r,)
    res = []
    for v, ch in zip(r, loop[1]):
        if ch == "O":
            w = np.empty(np.shape(v), dtype=object)
            w[...] = v
            res.append(w)
        else:
            res.append(np.asarray(v))
    return res


def same_array(f, loop, sz, rng):
    """An input and an output that can be one array, after adjusting the sizes sz; or None."""
    pairs = [(i, j) for i in range(f.nin) for j in range(f.nout)
             if loop[0][i] == loop[1][j] and len(f.cin[i]) == len(f.cout[j])]
    for k in rng.permutation(len(pairs)):
        i, j = pairs[k]
        new = dict(sz)
        ok = True
        for p, q in zip(f.cin[i], f.cout[j]):
            if isinstance(p, str) and isinstance(q, str):
                new[p] = new[q]
            elif isinstance(p, str):
                new[p] = q
            elif isinstance(q, str):
                new[q] = p
            else:
                ok = ok and p == q
        if ok and f.core(f.cin[i], new) == f.core(f.cout[j], new) and min(new.values(), default=1) >= f.minlen:
            sz.update(new)
            return i, j
    return None


class Arg:
    """Where one argument is: its buffer, base, strides in cells (batch axes, then core axes) and view."""


def one_call(d, f, loop, styles, t, plan=None, top=4):
    """plan: (a letter for each argument, batch length): c is contiguous, o is any other plain layout."""
    rng = d.rng
    cin, cout = loop
    sz = f.sizes(rng, top)
    if top > 4:                     # one long dimension
        for q in list(rng.permutation(f.dims))[1:]:
            sz[q] = min(sz[q], 5)
    force = None                    # the pair of an input and an output that are to be the same array
    if not f.contig_only and not isinstance(f, Wrapped) and plan is None and (top > 4 or rng.integers(3) == 0):
        force = same_array(f, loop, sz, rng)
    rank = int(rng.choice([0, 1, 1, 1, 2, 2, 3])) if plan is None else 1
    if top > 4:
        rank = min(rank, 1)
    full = [int(rng.choice([1, 2, 2, 3, 3, 4])) if rng.integers(25) else 0 for _ in range(rank)]
    while np.prod(full, dtype=int) > 8:
        full[int(np.argmax(full))] -= 1
    if plan:
        full = [plan[1]]
    if top > 4:
        full = full[:1]
    st = [styles[int(rng.integers(len(styles)))] for _ in range(f.nin + f.nout)]
    bufs = Buffers(rng)
    elementwise_where = f.elementwise and plan is None and rng.integers(3) == 0
    give_out = bool(f.outdims) or elementwise_where or rng.integers(5) > 0 or force is not None or plan is not None
    dress = ["swapped" if q == 0 else "unaligned" if q == 1 else "" for q in rng.integers(0, 8, f.nin + f.nout)]
    if f.contig_only or plan:                       # NumPy's copies need not be contiguous
        dress = [""] * len(dress)
    args = []
    for j in range(f.nin + f.nout):
        isin = j < f.nin
        core = f.core((f.cin + f.cout)[j if isin else j], sz) if isin else f.core(f.cout[j - f.nin], sz)
        ch = (cin + cout)[j]
        s = st[j]["a" if isin else "o"]
        a = Arg()
        a.char, a.core, a.isin = ch, core, isin
        # the batch axes this argument has itself; the others are broadcast
        keep = [True] * rank
        lead = 0
        if isin and rank and f.nin > 1 and plan is None:
            q = int(rng.integers(6))
            if q == 0:
                lead = int(rng.integers(rank + 1))
            elif q == 1:
                keep = [bool(rng.integers(2)) for _ in range(rank)]
        a.lead = lead
        a.bshape = [n if k else 1 for n, k in zip(full, keep)]
        if isinstance(f, Wrapped) or (not give_out and j == 0) or (force and j == force[0]):
            lead = a.lead = 0
            a.bshape = list(full)
        for k in range(lead):
            a.bshape[k] = 1
        bkeys = [s["bs"][0]] + [st[int(rng.integers(len(st)))]["a" if isin else "o"]["bs"][0] * 2 for _ in range(rank)]
        bkeys = bkeys[:rank]
        rng.shuffle(bkeys)
        cs = (s["cs"] or [1])[0]
        ckeys = ([cs] + [int(rng.choice([-4, -1, 1, 4])) * abs(cs or 1) for _ in core])[:len(core)]
        if not isin:
            bkeys = [k or 1 for k in bkeys]
            ckeys = [k or 1 for k in ckeys]
        if f.contig_only:
            ckeys = [len(core) - k for k in range(len(core))]
            bkeys = [int(np.sign(k)) * 10 * abs(k) for k in bkeys]
        gap = 1 if f.contig_only else int(rng.choice([1, 1, 2, 3]))
        strides = strides_for(list(a.bshape) + list(core), bkeys + ckeys, gap)
        if plan:
            nat = [10] + list(range(len(core), 0, -1))
            q = 0 if plan[0][j] == "c" or f.contig_only else int(rng.integers(1, 7))
            if q == 4:
                nat = [-nat[0]] + nat[1:]
            elif q == 5:
                nat = [nat[0]] + [-k for k in nat[1:]] if core else [-nat[0]]
            elif q == 6:
                nat = list(range(1, len(core) + 2))
            gap = 1 if q == 0 or q == 6 and core else int(rng.choice([1, 2])) if q > 3 else q + 1
            if q == 3 and core:                     # rows apart, the core dimensions contiguous
                gap = 1
                nat[0] = 10
            strides = strides_for(list(a.bshape) + list(core), nat, gap)
            if q == 3 and core:
                strides[0] += 1
        sliding = isin and not f.contig_only and plan is None and rng.integers(8) == 0 and f.kinds[j] not in ("sorted", "sos")
        if sliding and len(strides) > 1:            # elements shared between rows
            strides = [int(np.sign(q)) for q in strides]
        a.ext, a.str = list(a.bshape) + list(core), strides
        a.lo, a.hi = span(a.ext, strides)
        a.dress = dress[j]
        args.append(a)
    ins, outs = args[:f.nin], args[f.nin:]
    if any(k in ("sorted", "sos") for k in f.kinds):
        for a, k in zip(ins, f.kinds):              # repeated core elements are no valid data here
            if k in ("sorted", "sos"):
                cstr = a.str[rank:]
                if any(q == 0 for q in cstr):
                    a.str = strides_for(a.ext, [1] * rank + [10] * len(a.core), 1)
                    a.lo, a.hi = span(a.ext, a.str)
    # share memory between an output and an input of the same type
    shared = None
    if plan is None and give_out and not f.accumulates and not f.contig_only and np.prod(full, dtype=int) > 0:
        pairs = [(i, j) for i in range(f.nin) for j in range(f.nout) if cin[i] == cout[j] and 0 not in ins[i].ext + outs[j].ext
                 and not isinstance(f, Wrapped)]
        if force in pairs:
            shared = force
        elif pairs and rng.integers(2):
            shared = pairs[int(rng.integers(len(pairs)))]
    # share memory between two inputs of the same type
    twin = None
    if plan is None and not f.contig_only and rng.integers(3) == 0:
        fixed = ("sorted", "sos")
        pairs = [(i, j) for i in range(f.nin) for j in range(f.nin) if i != j and cin[i] == cin[j] and 0 not in ins[i].ext + ins[j].ext
                 and f.kinds[i] not in fixed and f.kinds[j] not in fixed and not (shared and shared[0] in (i, j))]
        if pairs:
            twin = pairs[int(rng.integers(len(pairs)))]
            ins[twin[1]].dress = ins[twin[0]].dress
            d.cover("inputs that overlap")
    dtypes = []
    for a in args:
        dt = np.dtype(a.char)
        if a.dress == "swapped" and dt.kind in "iufc" and dt.itemsize > 1:
            dt = dt.newbyteorder()
        dtypes.append(dt)
    if shared:
        i, j = shared
        A, O = ins[i], outs[j]                      # noqa: E741
        dtypes[f.nin + j] = dtypes[i]
        O.dress = A.dress
        exact = A.ext == O.ext and bool(force or rng.integers(2))
        if exact:
            A.str, A.lo, A.hi = list(O.str), O.lo, O.hi
    where_used = elementwise_where
    mask = np.ones(full, dtype=bool)
    if where_used:
        mask = rng.integers(0, 2, full).astype(bool)
    for k, a in enumerate(args):
        if not a.isin and not give_out:
            continue
        if shared and k == f.nin + shared[1]:
            continue
        if twin and k == twin[1]:
            continue
        size = a.hi - a.lo + 1
        pad = int(rng.choice([0, 1, 3]))
        extra = 0
        off = 0
        if shared and k == shared[0]:
            O = outs[shared[1]]                     # noqa: E741
            if A.str == O.str and A.ext == O.ext and exact:
                off = 0
            else:
                off = int(rng.integers(0, 4))
            osize = O.hi - O.lo + 1
            o_first = bool(rng.integers(2))
            total = max(size + (off if o_first else 0), osize + (0 if o_first else off))
            extra = total - size
        if twin and k == twin[0]:
            W = ins[twin[1]]
            wsize = W.hi - W.lo + 1
            near = min(size, wsize) if rng.integers(2) else 4
            off = int(rng.integers(0, near))
            w_first = bool(rng.integers(2))
            extra = max(size + (off if w_first else 0), wsize + (0 if w_first else off)) - size
        n = size + pad + extra
        sh = int(rng.integers(1, max(2, dtypes[k].itemsize))) if a.dress == "unaligned" and dtypes[k].itemsize > 1 else 0
        a.buf = bufs.new(dtypes[k], n, sh)
        p0 = int(rng.integers(0, pad + 1))
        a.base = p0 - a.lo
        if twin and k == twin[0]:
            W.buf = a.buf
            if w_first:
                W.base, a.base = p0 - W.lo, p0 + off - a.lo
            else:
                W.base = p0 + off - W.lo
        if shared and k == shared[0]:
            O.buf = a.buf
            if o_first:
                O.base, a.base = p0 - O.lo, p0 + off - a.lo
            else:
                O.base = p0 + off - O.lo
    # contents: inputs first, where they overlap the later one wins
    for j, a in enumerate(ins):
        a.view = view(bufs.bufs[a.buf], a.base, a.ext, a.str)
        vals = f.data(j, cin[j], tuple(a.ext), rng, sz)
        if a.view.size:
            a.view[...] = vals
    for a in outs:
        if give_out:
            a.view = view(bufs.bufs[a.buf], a.base, a.ext, a.str)
            if f.accumulates:
                a.view[...] = 0
    # what each batch index should give, from the values as they are now
    bidx = list(itertools.product(*[range(n) for n in full]))
    bviews = [np.broadcast_to(a.view, tuple(full) + tuple(a.core)) for a in ins]
    ids = Ids()
    refs, rres = [], []
    valid = True
    cache = {}
    for b in bidx:
        sl = [np.array(v[b], dtype=np.dtype(ch)) for v, ch in zip(bviews, cin)]
        key = tuple(tuple(keys(s)) for s in sl)
        if key not in cache:
            d.begin("%s %s reference call on %r" % (f, "%s->%s" % loop, sl))
            try:
                cache[key] = reference(f, loop, sl, sz)
            except ValueError:
                valid = False
                break
        rres.append(cache[key])
        refs.append(dict(ins=[ids(s) for s in sl], outs=[ids(r) for r in cache[key]]))
    if not valid:
        d.cover("rejected data")
        return
    for r in (rres[:1] or []):
        d.expect(all(q.dtype == np.dtype(ch) for q, ch in zip(r, cout)), "result-type",
                 lambda: dict(call=f.name, loop="%s->%s" % loop, got=[q.dtype.char for q in r]))
    mem = [ids(q) for q in bufs.bufs]
    # the call
    kw = {}
    pass_in, pass_out = [], []
    axes = None
    if not f.elementwise and plan is None and rng.integers(3) == 0:
        axes = []
    one = None
    if isinstance(f, Wrapped) and axes is not None:
        one = int(rng.integers(-rank - 1, 0))
    for a in ins:
        v = a.view[tuple([0] * a.lead) + (Ellipsis,)]
        if axes is not None:
            v, ax = shuffle_axes(rng, v, len(a.core), one)
            axes.append(ax)
        pass_in.append(v)
    back = []
    for a in outs:
        if axes is not None:
            nd = rank + len(a.core)
            to = [int(q) for q in rng.permutation(nd)[:len(a.core)]]
            if one is not None:
                to = [nd + one]
            back.append(to)
            axes.append(tuple(q - nd if rng.integers(2) else q for q in to))
            if give_out:
                pass_out.append(np.moveaxis(a.view, list(range(rank, nd)), to))
        elif give_out:
            pass_out.append(a.view)
    if axes is not None:
        if one is not None:
            kw["axis"] = one if rng.integers(2) else one + rank + 1
        else:
            kw["axes"] = axes
    if where_used:
        kw["where"] = mask
    what = "%s %s%s %s%s" % (f, loop[0], "->" + loop[1], "shared=%s " % (shared,) if shared else "", describe(pass_in, pass_out, kw))
    d.begin(what)
    res = f.call(pass_in, tuple(pass_out) if give_out else None, **kw)
    res = res if isinstance(res, tuple) else (res,)
    if give_out:
        d.expect(all(r is o for r, o in zip(res, pass_out)), "out-not-returned", lambda: dict(call=what))
    full_out = []
    for k, (r, a) in enumerate(zip(res, outs)):
        if a.char == "O" and not isinstance(r, np.ndarray):
            w = np.empty((), dtype=object)
            w[()] = r
            r = w
        r = np.asarray(r)
        if axes is not None:
            nd = rank + len(a.core)
            r = np.moveaxis(r, back[k], list(range(rank, nd)))
        full_out.append(r)
        if r.shape != tuple(full) + tuple(a.core):
            d.violation("result-shape", dict(call=what, got=r.shape, expected=tuple(full) + tuple(a.core)))
            return
    # values that differ by rounding only count as the expected ones
    after = [np.array(q, copy=True) for q in bufs.bufs]
    for k, (a, r) in enumerate(zip(outs, full_out)):
        if give_out:
            av = view(after[a.buf], a.base, a.ext, a.str)
        else:
            av = np.array(r, copy=True, order="C")
            a.buf = len(after)
            after.append(av.reshape(-1))
            av = after[-1].reshape(r.shape)
            mem.append([0] * av.size)
            a.base = 0
            a.str = [int(np.prod(a.ext[q + 1:], dtype=int)) for q in range(len(a.ext))]
        if np.dtype(a.char).kind in "fc" and av.size:
            for b, rr in zip(bidx, rres):
                if not mask[b]:
                    continue
                sc = 0.0
                for v in bviews_scale(bviews, ins, b):
                    sc = max(sc, v)
                for c in np.ndindex(*a.core):
                    g, e = av[b + c], rr[k][c]
                    if g != e and close(g, e, sc, a.char):
                        av[b + c] = e
    rec = dict(k="call", fn=f.name, loop="%s->%s" % loop, what=what[:600], bshape=list(full), mem=mem, after=[ids(q) for q in after],
               mask=[bool(mask[b]) for b in bidx], refs=refs,
               ins=[place(a, rank, full) for a in ins], outs=[place(a, rank, full) for a in outs])
    d.emit("layout", rec)
    d.sample(dict(call=what), 3)


class Space:
    """A range of addresses far larger than the memory: pages exist when they are used."""
    SIZE, MARGIN = 1 << 40, 1 << 34

    def __init__(self):
        self.mm = mmap.mmap(-1, self.SIZE, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000)     # MAP_NORESERVE
        self.mm.madvise(15)                                                                         # MADV_NOHUGEPAGE
        self.at = self.MARGIN

    def array(self, char, ext, strides):
        lo, hi = span(ext, strides)
        base = self.at - lo
        self.at = (base + hi + self.MARGIN) & ~4095
        return np.ndarray(tuple(ext), dtype=char, buffer=self.mm, offset=base, strides=tuple(strides))

    def clear(self):
        self.mm.madvise(mmap.MADV_DONTNEED)
        self.at = self.MARGIN


SPACE = []


def far(d, f):
    """Arrays whose elements lie 2^15 to 2^33 bytes apart."""
    rng = d.rng
    if not SPACE:
        try:
            SPACE.append(Space())
        except OSError:                 # no such range of addresses here
            SPACE.append(None)
    space = SPACE[0]
    if space is None:
        return
    loops = f.loops if d.thorough or len(f.loops) <= 20 and f.group not in ("gendot", "bincountw") else \
        [f.loops[k] for k in rng.permutation(len(f.loops))[:4]]
    for loop in loops:
        if "O" in loop[0] + loop[1]:
            continue
        for size in ([1 << 31, 1 << 15, 1 << 32] if d.thorough else [1 << 31, [1 << 15, 1 << 16, 1 << 32][int(rng.integers(3))]]):
            sz = {q: max(2, f.minlen, v) for q, v in f.sizes(rng, 3).items()}
            n = int(rng.integers(2, 4))
            args = []
            for j, (ch, c) in enumerate(zip(loop[0] + loop[1], f.cin + f.cout)):
                core = f.core(c, sz)
                ext = [n] + list(core)
                step, strides = 1, []
                for q in ext:           # distinct elements have distinct addresses
                    strides.append(int(rng.choice([-1, 1])) * step * (size + 16 * int(rng.integers(1, 60))))
                    step *= q
                if f.contig_only and core:
                    it = np.dtype(ch).itemsize
                    strides[1:] = [it * int(np.prod(core[k + 1:], dtype=int)) for k in range(len(core))]
                a = Arg()
                a.core, a.char = core, ch
                a.view = space.array(ch, ext, strides)
                args.append(a)
                if j < f.nin:
                    vals = f.data(j, ch, tuple(ext), rng, sz)
                    a.view[...] = vals
                    a.copy = np.array(a.view, order="C", copy=True)
                elif f.accumulates:
                    a.view[...] = 0
            ins, outs = args[:f.nin], args[f.nin:]
            ids = Ids()
            what = "%s %s->%s far apart: %s" % (f, loop[0], loop[1], describe([a.view for a in ins], [a.view for a in outs], {}))
            try:
                rres = [reference(f, loop, [a.copy[b] for a in ins], sz) for b in range(n)]
            except ValueError:
                space.clear()
                continue
            refs = [dict(ins=[ids(a.copy[b]) for a in ins], outs=[ids(q) for q in rres[b]]) for b in range(n)]
            mem = [ids(a.view) for a in args]
            d.begin(what)
            f.call([a.view for a in ins], tuple(a.view for a in outs))
            after = [np.array(a.view, order="C", copy=True) for a in args]
            for k, a in enumerate(outs):
                av = after[f.nin + k]
                if np.dtype(a.char).kind in "fc":
                    for b in range(n):
                        sc = max([0.0] + [float(np.abs(q.copy[b].astype("G" if q.copy.dtype.kind == "c" else "g")).max())
                                          for q in ins if q.copy.dtype.kind in "fciu" and q.copy[b].size])
                        for c in np.ndindex(*a.core):
                            if av[(b,) + c] != rres[b][k][c] and close(av[(b,) + c], rres[b][k][c], sc, a.char):
                                av[(b,) + c] = rres[b][k][c]
            pl = []
            for q, a in enumerate(args):        # the cells in the order of the elements
                st = [int(np.prod(a.view.shape[k + 1:], dtype=int)) for k in range(a.view.ndim)]
                pl.append(dict(buf=q + 1, base=1, bs=st[:1], cs=st[1:], cshape=list(a.core)))
            d.emit("layout", dict(k="call", fn=f.name, loop="%s->%s" % loop, what=what[:600], bshape=[n], mem=mem,
                                  after=[ids(q) for q in after], mask=[True] * n, refs=refs, ins=pl[:f.nin], outs=pl[f.nin:]))
            space.clear()
    d.cover("far layouts")


def bviews_scale(bviews, ins, b):
    for v, a in zip(bviews, ins):
        if np.dtype(a.char).kind in "fciu":
            x = np.abs(np.asarray(v[b]).astype(np.dtype(a.char))).reshape(-1)
            x = x[np.isfinite(x)] if x.dtype.kind == "f" else x
            if x.size:
                yield float(x.max())


def place(a, rank, full):
    bs = [0 if a.ext[k] != full[k] else a.str[k] for k in range(rank)]
    return dict(buf=a.buf + 1, base=a.base + 1, bs=bs, cs=a.str[rank:], cshape=list(a.core))


def shuffle_axes(rng, v, nc, one=None):
    nd = v.ndim
    to = [int(q) for q in rng.permutation(nd)[:nc]]
    if one is not None and nc:
        to = [nd + one]
    return np.moveaxis(v, list(range(nd - nc, nd)), to), tuple(q - nd if rng.integers(2) else q for q in to)


def describe(ins, outs, kw):
    s = "; ".join("%s%s strides=%s %s" % (a.dtype.str, a.shape, a.strides, np.array2string(a, threshold=30, max_line_width=200)
                                          .replace("\n", "")) for a in ins)
    if outs:
        s += " | out " + "; ".join("%s%s strides=%s" % (a.dtype.str, a.shape, a.strides) for a in outs)
    return s + (" %s" % kw if kw else "")


def folds(d, f):
    """reduce, accumulate and reduceat of functions of two arguments are folds of the function."""
    if not (f.elementwise and f.nin == 2 and f.nout == 1):
        return
    rng = d.rng
    for t in range(6 if d.thorough else 2):
        for cin, cout in f.loops:
            if len(set(cin + cout)) != 1:
                continue
            n = int(rng.integers(1, 6))
            x = (rng.integers(1, 5, (2, n)) / 4).astype(cin[0])
            steps, memo, ids = [], {}, Ids()

            def call(a, b):
                k = (tuple(keys(a)), tuple(keys(b)))
                if k not in memo:
                    r = np.asarray(f.f(a, b))
                    memo[k] = r
                    steps.append(dict(a=ids(a)[0], b=ids(b)[0], r=ids(r)[0]))
                return memo[k]
            for row in x:
                acc = row[0]
                for j, q in enumerate(row[1:]):
                    acc = call(acc, q)
                for j in range(n):                  # folds that begin later (reduceat)
                    acc = row[j]
                    for q in row[j + 1:]:
                        acc = call(acc, q)
            mode = ["reduce", "accumulate", "reduceat"][int(rng.integers(3))]
            src = [x, x[::-1], np.asfortranarray(x)][int(rng.integers(3))]
            d.begin("%s.%s(%r)" % (f, mode, src))
            if mode == "reduce":
                r = f.f.reduce(src, axis=1)
                groups = [ids(row) for row in src]
            elif mode == "accumulate":
                r = f.f.accumulate(src, axis=1)
                groups = [ids(row[:j + 1]) for row in src for j in range(n)]
            else:
                at = sorted(set(int(q) for q in rng.integers(0, n, 2)))
                r = f.f.reduceat(src, at, axis=1)
                groups = [ids(row[p:q]) for row in src for p, q in zip(at, at[1:] + [n])]
            d.emit("layout", dict(k="fold", fn=f.name, mode=mode, x=repr(src), steps=steps, groups=groups, out=ids(r)))


def large(d, f):
    """Batches longer than the buffers NumPy casts through."""
    rng = d.rng
    for loop in ([f.loops[int(rng.integers(len(f.loops)))]] if not d.thorough else f.loops):
        if "O" in loop[0] or f.contig_only:
            continue
        sz = f.sizes(rng, 3)
        n = int(rng.choice([8191, 8193, 9001])) if rng.integers(2) else int(rng.choice([257, 1000]))
        a = [f.data(j, ch, (n,) + f.core(c, sz), rng, sz) for j, (ch, c) in enumerate(zip(loop[0], f.cin))]
        b = []
        for q in a:
            w = np.empty((q.shape[0] * 2 + 1,) + q.shape[1:], dtype=q.dtype.newbyteorder() if rng.integers(2) else q.dtype)[1::2]
            w[...] = q
            b.append(w)
        outs = [tuple(np.zeros((n,) + f.core(c, sz), dtype=ch) for c, ch in zip(f.cout, loop[1])) for _ in range(2)]
        d.begin("%s on %d rows, %s" % (f, n, loop))
        try:
            r = f.call(a, outs[0])
        except ValueError:
            continue
        s = f.call(b, outs[1])
        for p, q in zip(r if isinstance(r, tuple) else (r,), s if isinstance(s, tuple) else (s,)):
            with np.errstate(all="ignore"):
                ok = (p == q)
                if p.dtype.kind in "fc":
                    eps = np.finfo(p.dtype).eps
                    ok |= (np.isnan(p) & np.isnan(q)) | (np.abs(p - q) <= 256 * eps * (np.abs(p) + 10))
            d.expect(ok.all(), "value-depends-on-layout", lambda: dict(call=f.name, loop=loop, rows=n, sizes=sz))
            if f.accumulates:
                continue
            # some rows by themselves
            for k in rng.choice(n, 3):
                o1 = tuple(np.zeros(f.core(c, sz), dtype=ch) for c, ch in zip(f.cout, loop[1])) if f.outdims else None
                e = f.call([v[k] for v in a], o1)
                e = np.asarray(e[[i for i, z in enumerate(r) if z is p][0]] if isinstance(e, tuple) else e)
                g = p[k]
                with np.errstate(all="ignore"):
                    ok = (g == e)
                    if p.dtype.kind in "fc":
                        ok = ok | (np.isnan(g) & np.isnan(e)) | (np.abs(g - e) <= 256 * np.finfo(p.dtype).eps * (np.abs(e) + 10))
                d.expect(np.all(ok), "value-depends-on-batch",
                         lambda: dict(call=f.name, loop=loop, row=int(k), args=[repr(v[k]) for v in a], got=repr(g), alone=repr(e)))
