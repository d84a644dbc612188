"""C26: what calls hold when they have ended, and what happens when memory is refused."""
import json
import os
import subprocess
import sys
import threading

ASSUMPTIONS = [
    "A block or a reference that is held from the first calls on and does not become more is not a leak.",
    "The requests that are refused are those made from the library's own code (malloc, calloc, realloc, operator new); requests that "
    "NumPy or Python make are not refused.",
    "Blocks are counted with PYTHONMALLOC=malloc, so that each object of Python is one.",
]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOWS = ["type", "shape", "few", "value", "keyword", "order", "cast", "apart", "out"]
SPECIAL = ["gendot", "gendot-gufunc", "gendot-call", "gendot-bad", "gendot-bad2", "gendot-bad3", "gendot-empty", "inspector",
           "inspector-gufunc", "inspector-other", "inspector-none", "op", "bincount-neg", "bincount-own", "bincount-weights",
           "bincount-empty", "bincount-float", "one_hot-neg", "one_hot-out", "base-none", "nextn-neg"]


def models(tier, seed):
    inv = "SPECIFICATION Spec\nINVARIANTS Alive Allowed Clean Complete Emitted\n"
    c = "CONSTANTS MaxRows = %d MaxBlocks = 2 Times = 2 Fault = \"%s\"\n"
    return [dict(name="requests", module="ResourceLoop", cfg=c % (3, "none") + inv)] + \
           [dict(name=f, module="ResourceLoop", refutes=True, cfg=c % (2, f) + inv) for f in ("blind", "early", "silent", "last")]


def traces(tier):
    return [dict(stream="resources", module="Resources", failures="ResourcesFailures")]


class Workers:
    """Processes with the counting allocator; one that dies is replaced."""

    def __init__(self, d, n):
        self.lib = os.path.join(d.work, "alloc.so")
        subprocess.run(["g++", "-O2", "-shared", "-fPIC", "-fno-builtin", "-o", self.lib, os.path.join(HERE, "vf", "alloc.cpp")],
                       check=True)
        self.n = n
        self.env = dict(os.environ, LD_PRELOAD=self.lib, PYTHONMALLOC="malloc", PYTHONPATH=os.pathsep.join(
            [os.environ["VF_SITE"], HERE, os.environ.get("PYTHONPATH", "")]))
        self.cmd = [sys.executable, "-W", "ignore", os.path.join(HERE, "vf", "alloc_child.py")]

    def start(self, k):
        return subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                stderr=open(self.lib + ".%d.err" % k, "w"), text=True, env=self.env, cwd="/")

    def run(self, jobs):
        out = [None] * len(jobs)

        def work(k):
            p = self.start(k)
            for i in range(k, len(jobs), self.n):
                try:
                    p.stdin.write(json.dumps(jobs[i]) + "\n")
                    p.stdin.flush()
                    line = p.stdout.readline()
                except OSError:
                    line = ""
                if line.strip():
                    out[i] = json.loads(line)
                else:
                    rc = p.wait()
                    with open(self.lib + ".%d.err" % k) as f:
                        out[i] = dict(rc=rc, err=f.read()[-1500:])
                    p = self.start(k)
            p.stdin.close()
            p.wait()
        ts = [threading.Thread(target=work, args=(k,)) for k in range(self.n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out


def drive(d):
    from vf.catalog import catalog
    rng = d.rng
    cases = list(d.cases("requests"))
    jobs = [dict(fn=s, how="special", fail=0) for s in SPECIAL]

    def add(f, loop, how, rows, **kw):
        jobs.append(dict(fn=repr(f), loop=list(loop), how=how, rows=list(rows), seed=int(rng.integers(1 << 30)), **kw))

    for f in catalog():
        for li, loop in enumerate(f.loops):
            for t in range(3 if d.thorough else 1):
                add(f, loop, "plain", [(), (3,), (2, 2), (0,)][int(rng.integers(4))], fail=0)
                add(f, loop, "plain", (int(rng.integers(1, 6)),), top=40, least=1, fail=0, own=bool(rng.integers(2)))
                for q in f.dims:                    # nothing along one of the dimensions
                    if li < 2 or d.thorough or rng.integers(4) == 0:
                        add(f, loop, "plain", [(), (3,)][int(rng.integers(2))], least=2, zero=q, fail=0, own=bool(rng.integers(2)))
                if "O" in loop[0]:
                    add(f, loop, "bomb", (3,), least=3)
                    add(f, loop, "bomb", (), least=3)
                if li == 0 or d.thorough or rng.integers(4) == 0:
                    add(f, loop, "others", [(), (2,)][int(rng.integers(2))], own=bool(rng.integers(2)))
                hows = HOWS if d.thorough or li == 0 else [HOWS[int(k)] for k in rng.choice(len(HOWS), 2, replace=False)]
                for how in hows:
                    add(f, loop, how, [(), (3,)][int(rng.integers(2))], least=1)
    ws = Workers(d, 6)
    first = ws.run(jobs)
    # the histories of the model, for the functions that ask for memory
    asks, second = {}, []
    for j, a in zip(jobs, first):
        if isinstance(a, list) and a[0]["most"] and j["how"] == "plain":
            asks.setdefault((j["fn"], tuple(j["loop"])), True)
    fns = {repr(f): f for f in catalog()}
    for (fn, loop) in asks:
        every = d.thorough or fns[fn].group != "gendot" or loop == tuple(fns[fn].loops[0])
        for c in cases if every else [cases[int(k)] for k in rng.choice(len(cases), 2, replace=False)]:
            n = len(second)
            add(fns[fn], loop, ["plain", "plain", "apart"][n % 3], (c["rows"],), least=2, fail=c["fail"] or None)
            second.append(jobs.pop())
    d.cover("functions and loops that ask for memory", len(asks))
    answers = first + ws.run(second)
    for j, a in zip(jobs + second, answers):
        d.begin("%r" % j)
        what = "%s %s %s rows %s seed %s" % (j["fn"], "->".join(j.get("loop", [])), j["how"] + (" no " + j["zero"] if j.get("zero") else ""), j.get("rows"), j.get("seed"))
        if not isinstance(a, list):
            d.emit("resources", dict(k="died", what=what, **a))
            continue
        for ev in a:
            ev["what"] = what
            d.emit("resources", ev)
            d.calls += 1
        d.cover("jobs")
        d.cover("refused requests", sum(1 for e in a if e["k"] == "fault" and any(e["hit"])))
        d.cover("calls that end with an error", int(bool(a[0].get("base"))))
    d.replayed = len(second)
    d.sample(dict(job=jobs[-1], events=answers[len(jobs) - 1]))
    d.sample(dict(job=(second or [None])[-1], events=answers[-1]))
