"""C23: names of the package, in every order of access."""
import json
import keyword
import os
import subprocess
import sys
import threading

import numpy as np

ASSUMPTIONS = [
    "The public names are those of the committed list in props/c23.py (the documented names and the two submodules).",
    "Reloading the package (importlib.reload) is outside the property.",
]
LISTED = """__version__ abs_squared abssq all_same argfirst argmax argmin argminmax backlash backlash_sum bincount convert_to_base
cross2 cross3 deadzone debye1 erfcx expint1 exponential_ramp fillnan1d first gendot gini gmean gmeanw hmean hmeanw hyperbolic_ramp hypot3
hysteresis_relay inv_yeo_johnson invsmoothstep3 issnan kbnsum linear_interp1d linearstep log1p_doubledouble log1p_theorem4
log_logistic logexpint1 logfactorial loggamma1p logistic logistic_deriv mad max_argmax meanvar min_argmin minmax
multivariate_logbeta nan_to_num next_greater next_less nextn_greater nextn_less one_hot op ordered peaktopeak pearson_corr
percentileofscore pmean pmeanw pow1pm1 rmad rms searchsortedl searchsortedr smoothstep3 smoothstep5 softmax sosfilter sosfilter_ic
sosfilter_ic_contig step swish trapezoid_pulse tri_area tri_area_indexed ufunc_inspector unwrap vdot vnorm wjaccard
yeo_johnson""".split()
OTHERS = ["normal", "semivar"]
GHOSTS = ["nosuchname", "numpy_", "Minmax", "", "_unknown", "__unknown__", "__wrapped__", "_", "__", ".", "..", "op.LT",
          "semivar.linear", "minmax ", " minmax", "MINMAX", "argmin_", "_argmin", "argminn", "argmi", "numpy.linalg",
          "_nothing.minmax", "tests.nothing", "first_", "normal2", "1", "__getattr", "__path", "import", "None", "gendot_",
          "bincount.gufunc", "_bincount0", "means"]
WITHIN = {"normal": ["cdf", "logcdf", "sf", "logsf"],
          "semivar": ["exponential", "linear", "parabolic", "spherical"]}


def models(tier, seed):
    inv = "SPECIFICATION Spec\nINVARIANTS Same Reached Coherent Emitted\n"
    return [dict(name="two", module="LazyLoad", cfg="CONSTANTS Steps = 2 Fault = \"none\"\n" + inv),
            dict(name="three", module="LazyLoad", cfg="CONSTANTS Steps = 3 Fault = \"none\"\n" + inv),
            dict(name="reload", module="LazyLoad", refutes=True, cfg="CONSTANTS Steps = 2 Fault = \"reload\"\n" + inv)]


def traces(tier):
    return [dict(stream="names", module="Names", failures="NamesFailures")]


class Servers:
    """Processes that fork one child for each history."""

    def __init__(self, n):
        env = dict(os.environ)
        child = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vf", "names_child.py")
        self.n, self.cmd, self.env = n, [sys.executable, "-W", "ignore", child], env

    def run(self, jobs):
        out = [None] * len(jobs)

        def work(k):
            p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=self.env)
            for i in range(k, len(jobs), self.n):
                p.stdin.write(json.dumps(jobs[i]) + "\n")
                p.stdin.flush()
                line = p.stdout.readline()
                out[i] = json.loads(line) if line.strip() else dict(error="no answer")
            p.stdin.close()
            p.wait()
        ts = [threading.Thread(target=work, args=(k,)) for k in range(self.n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out


def drive(d):
    import ufunclab as ul
    rng = d.rng
    s = Servers(6)
    every = LISTED + OTHERS
    jobs = []
    cs = [c["h"] for c in d.cases("two")]
    more = [c["h"] for c in d.cases("three")]
    more = [more[k] for k in rng.permutation(len(more))[:20000 if d.thorough else 500]]
    d.cover("model histories", len(cs) + len(more))
    for h in cs + more:
        few = [str(n) for n in rng.choice(every, 6, replace=False)]
        jobs.append(dict(h=h, final=sorted({n for _, n in h if n in every} | set(few)), listed=LISTED))
    # every name, in random orders
    for _ in range(150 if d.thorough else 24):
        order = [str(n) for n in rng.permutation(every)]
        h = []
        for n in order:
            h.append([str(rng.choice(["attr", "from", "pickle"])), n])
            if not rng.integers(6):
                g = str(rng.choice(GHOSTS))
                plain = g.isidentifier() and not keyword.iskeyword(g)
                h.append([str(rng.choice(["attr", "from"])) if plain else "attr", g])
            if not rng.integers(20):
                h.append([str(rng.choice(["star", "dir"])), "*"])
        jobs.append(dict(h=h, final=every, listed=LISTED))
    for g in GHOSTS:                # each by itself, before anything is loaded and after
        j = ["attr", g]
        jobs.append(dict(h=[j, ["attr", str(rng.choice(every))], j, ["star", "*"], j, ["dir", "*"], j], final=[], listed=LISTED))
    # names that live elsewhere in the package, unknown in a fresh process: they stay unknown
    for n in every:
        getattr(ul, n)
    inner = {n for m, v in list(sys.modules.items()) if m.startswith("ufunclab.") for n in dir(v)}
    inner |= {n for f in ("operator", "math", "numpy") for n in (f,)} | {"np", "functools", "os", "sys", "warnings"}
    inner = sorted(n for n in inner if n.isidentifier() and not n.startswith("_") and n not in every and n not in GHOSTS)
    fresh = s.run([dict(h=[["attr", n]], final=[], listed=LISTED) for n in inner])
    inner = [n for n, r in zip(inner, fresh) if isinstance(r, list) and r[0]["err"]]
    d.cover("inner names", len(inner))
    for _ in range(60 if d.thorough else 8):
        h = []
        for n in rng.permutation(every)[:int(rng.choice([1, 3, 10, len(every)]))]:
            h.append([str(rng.choice(["attr", "from"])), str(n)])
            if not rng.integers(8):
                h.append(["attr", str(rng.choice(inner))])
        h += [["star", "*"]] * int(rng.integers(2))
        jobs.append(dict(h=h + [["attr" if rng.integers(4) else "from", n] for n in inner], final=[], listed=LISTED))
    # several threads at once
    for _ in range(100 if d.thorough else 16):
        th = [[[str(rng.choice(["attr", "from", "pickle"])), str(n)] for n in (rng.permutation(every) if rng.integers(2) else every)]
              for _ in range(int(rng.integers(2, 7)))]
        jobs.append(dict(h=[], threads=th, final=every, listed=LISTED))
    d.begin("histories of imports")
    for j, r in zip(jobs, s.run(jobs)):
        d.calls += len(j["h"])
        if not d.expect(isinstance(r, list), "import-failed", lambda: dict(job=j["h"][:20], result=r)):
            continue
        d.replayed += 1
        d.emit("names", dict(h=r, unknown=inner))
    d.sample(jobs[0])
    within(d, ul)
    constants(d, ul)


def within(d, ul):
    for m, names in WITHIN.items():
        for n in names:
            f = getattr(getattr(ul, m), n, None)
            d.expect(callable(f) and f.__name__ == n, "wrong-object", lambda: dict(module=m, name=n, got=repr(f)))


def constants(d, ul):
    """The constants are distinct, and mean what they are called."""
    x = np.array([1.0, 2.0, 3.0, 2.0])
    want = {"LT": 0, "LE": 0, "EQ": 1, "NE": 0, "GT": 2, "GE": 1}
    o = ul.op
    vals = [int(getattr(o, n)) for n in want]
    d.expect(len(set(vals)) == 6, "constants", lambda: dict(values=vals))
    for n, w in want.items():
        for dt in "bBhHiIlLfdgO":
            d.begin("argfirst %s %s" % (n, dt))
            xx = x.astype("l").astype(dt)
            r = int(ul.argfirst(xx, getattr(o, n), xx[1]))
            d.expect(r == w, "constants", lambda: dict(op=n, dtype=dt, got=r, expected=w))
            pairs = {"LT": [1, 2], "LE": [1, 1], "EQ": [1, 1], "NE": [2, 1], "GT": [2, 1], "GE": [2, 2]}[n]
            anti = {"LT": [1, 1], "LE": [2, 1], "EQ": [1, 2], "NE": [1, 1], "GT": [1, 1], "GE": [1, 2]}[n]
            if n in ("LT", "LE", "GT", "GE"):
                for p, e in ((pairs, True), (anti, False)):
                    r = bool(ul.ordered(np.array(p).astype(dt), getattr(o, n)))
                    d.expect(r == e, "constants", lambda: dict(call="ordered", op=n, dtype=dt, x=p, got=r, expected=e))
    kinds = {"KIND_RANK": 62.5, "KIND_WEAK": 75.0, "KIND_STRICT": 25.0, "KIND_MEAN": 50.0}
    vals = [int(getattr(o, n)) for n in kinds]
    d.expect(len(set(vals)) == 4, "constants", lambda: dict(values=vals))
    for n, w in kinds.items():
        r = float(ul.percentileofscore(x, 2.0, getattr(o, n)))
        d.expect(r == w, "constants", lambda: dict(kind=n, got=r, expected=w))
