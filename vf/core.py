"""Runner of one check: model -> cases -> implementation -> recorded events -> trace spec."""
import concurrent.futures as cf
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import build as vbuild
from . import tlc as vtlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

TRACE_CFG = """\
CONSTANT Failures <- {failures}
{consts}
INIT TraceInit
NEXT TraceNext
"""


def known_findings(pid):
    """Keys of the defects recorded but not repaired (KNOWN_FINDINGS.txt)."""
    out = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    for line in open(path):
        # known: property=C16 key=<key> | text
        if line.startswith("known: property=%s " % pid):
            rest = line.split(" key=", 1)[1]
            key, _, text = rest.partition(" | ")
            out[key.strip()] = text.strip()
    return out


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.prop = importlib.import_module("props." + pid.lower())
        self.violations = []      # dict(clause, detail, key)
        self.states = self.transitions = 0
        self.models = []
        self.t0 = time.time()

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # -- phases ---------------------------------------------------------
    def run_models(self, work):
        models = self.prop.models(self.tier, self.seed)
        par = max(1, min(len(models), 3))

        def one(m):
            env = {"CASES": os.path.join(work, m["name"] + ".cases.ndjson"),
                   "VF_SEED": self.seed}
            env.update(m.get("env", {}))
            open(env["CASES"], "w").close()
            res = vtlc.run(m["name"], m["module"], m["cfg"], work, env=env,
                           workers=m.get("workers", 3), timeout=m.get("timeout", 700),
                           heap=m.get("heap", "3g"), extra=m.get("extra", ()),
                           coverage=m.get("coverage", False))
            if m.get("refutes"):    # a design fault planted in the model: the invariants must notice
                if not res.violated:
                    raise vtlc.TlcError("model %s, with its fault, violates nothing" % m["name"])
                self.log("model %s: refuted by %s, as it should be, %.1fs" % (m["name"], res.violated, res.wall))
                return res, 0
            if res.violated:
                raise vtlc.TlcError("the model itself violates %s:\n%s"
                                    % (res.violated, res.output[-4000:]))
            ncases = sum(1 for _ in open(env["CASES"]))
            if m.get("emits", True) and ncases == 0:
                raise vtlc.TlcError("model %s emitted no case" % m["name"])
            self.log("model %s: %d states, %d generated, depth %d, %d cases, %.1fs"
                     % (m["name"], res.distinct, res.generated, res.depth, ncases, res.wall))
            for p in res.prints[:5]:
                self.log("  ", p)
            return res, ncases
        with cf.ThreadPoolExecutor(par) as ex:
            for m, (res, n) in zip(models, ex.map(one, models)):
                self.states += res.distinct
                self.transitions += max(0, res.generated)
                self.models.append(dict(name=m["name"], module=m["module"], states=res.distinct,
                                        transitions=res.generated, depth=res.depth, cases=n,
                                        wall_s=round(res.wall, 1)))

    def run_driver(self, work, site):
        env = vbuild.env()
        env["PYTHONPATH"] = site + os.pathsep + ROOT
        env["VF_SITE"] = site
        cur = os.path.join(work, "current.txt")
        open(cur, "w").close()
        out = os.path.join(work, "driver.out")
        cmd = [PY, "-X", "faulthandler", "-m", "vf.drive", self.pid, work, self.tier,
               str(self.seed)]
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, env=env, cwd=work, stdout=f, stderr=subprocess.STDOUT,
                                   timeout=420 if self.tier == "quick" else 3000)
            except subprocess.TimeoutExpired:
                what = open(cur, errors="replace").read().rstrip("\0 \n")
                if what:
                    self.violations.append(dict(clause="no-return", key="no-return",
                                                detail="a call did not return: " + what))
                    return None
                raise
        tail = open(out, errors="replace").read()[-3000:]
        if r.returncode < 0 and r.returncode != -9:
            what = open(cur, errors="replace").read().rstrip("\0 \n")
            self.violations.append(dict(
                clause="crash", key="crash",
                detail="the process died with signal %d during: %s\n%s"
                       % (-r.returncode, what, tail)))
            return None
        if r.returncode != 0:
            raise RuntimeError("driver failed (exit %d):\n%s" % (r.returncode, tail))
        res = json.load(open(os.path.join(work, "driver.json")))
        self.violations += res["violations"]
        self.log("driver: %d real calls, %d cases replayed, %d mismatches, events %s"
                 % (res["calls"], res["replayed"], len(res["violations"]), res["streams"]))
        return res

    def run_traces(self, work, drv):
        specs = [t for t in self.prop.traces(self.tier)
                 if drv["streams"].get(t["stream"], 0) > 0
                 or not (t.get("optional") or drv["violations"])]
        total = 0

        def one(t):
            stream = t["stream"]
            n = drv["streams"].get(stream, 0)
            if n == 0:
                raise RuntimeError("no event was recorded for trace spec " + stream)
            path = os.path.join(work, stream + ".trace.ndjson")
            env = {"TRACE": path, "CHUNK": str(max(1, min(2000, n // 16 + 1))),
                   "CASES": os.path.join(work, stream + ".x.ndjson")}
            env.update(t.get("env", {}))
            cfg = t.get("cfg") or TRACE_CFG.format(failures=t["failures"],
                                                   consts=t.get("consts", ""))
            try:
                res = vtlc.run("trace-" + stream, t["module"], cfg, work, env=env,
                               trace=True,
                               workers=t.get("workers", 4), timeout=t.get("timeout", 700),
                               heap=t.get("heap", "4g"))
            except vtlc.EvalError as e:
                # The events of the unchanged tree are all in the domain of the specification.
                res = vtlc.Result()
                res.fails = [(e.line, "outside-domain")]
                self.log("trace %s: event %d is outside the domain of the specification: %s"
                         % (stream, e.line, str(e)[:200]))
                return res, 0
            if res.violated:
                raise vtlc.TlcError("trace spec %s violates its own %s\n%s"
                                    % (stream, res.violated, res.output[-3000:]))
            want = t["states"](n, int(env["CHUNK"])) if "states" in t else \
                n + -(-n // int(env["CHUNK"]))
            if want is not None and res.distinct != want:
                raise vtlc.TlcError("trace %s: %d states for %d events (expected %d):\n%s"
                                    % (stream, res.distinct, n, want, res.output[-2000:]))
            self.log("trace %s: %d events, %d states, %d rejected, %.1fs"
                     % (stream, n, res.distinct, len(set(i for i, _ in res.fails)), res.wall))
            return res, n
        with cf.ThreadPoolExecutor(2) as ex:
            for t, (res, n) in zip(specs, ex.map(one, specs)):
                self.states += res.distinct
                self.transitions += res.generated
                self.models.append(dict(name="trace-" + t["stream"], module=t["module"],
                                        states=res.distinct, transitions=res.generated,
                                        events=n, wall_s=round(res.wall, 1)))
                total += n
                if res.fails:
                    bad = sorted(set(res.fails))
                    want = set(i for i, _ in bad[:50])
                    lines = {}
                    with open(os.path.join(work, t["stream"] + ".trace.ndjson")) as f:
                        for k, line in enumerate(f, 1):
                            if k in want:
                                lines[k] = line.strip()
                    for i, clause in bad[:50]:
                        ev = json.loads(lines[i])
                        self.violations.append(dict(
                            clause=clause, key=ev.get("key", "%s:%s" % (t["stream"], clause)),
                            detail=dict(stream=t["stream"], line=i, event=ev)))
        return total

    # -- the whole check -----------------------------------------------
    def run(self):
        work = tempfile.mkdtemp(prefix="vf-%s-" % self.pid)
        try:
            return self._run(work)
        finally:
            if os.environ.get("VF_KEEP"):
                self.log("kept", work)
            else:
                shutil.rmtree(work, ignore_errors=True)

    def _run(self, work):
        with cf.ThreadPoolExecutor(1) as ex:
            b = ex.submit(vbuild.build, work)
            self.run_models(work)
            site = b.result()
        self.log("built")
        drv = self.run_driver(work, site)
        events = 0
        if drv is not None:
            events = self.run_traces(work, drv)
        known = known_findings(self.pid)
        seen_known, fresh = {}, []
        for v in self.violations:
            if v.get("key") in known:
                seen_known.setdefault(v["key"], v)
            else:
                fresh.append(v)
        for k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(rdir, f))
        shown = set()
        for v in fresh:
            if v["clause"] in shown or len(shown) >= 5:
                continue
            shown.add(v["clause"])
            path = os.path.join(rdir, "%s-%d.json" % (self.pid, len(shown)))
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed,
                               clause=v["clause"], key=v.get("key"), detail=v["detail"],
                               how="the call in 'detail', made against /repo's build; rerun: "
                                   "VERIF_SEED=%d VERIF_TIER=%s python check.py %s"
                                   % (self.seed, self.tier, self.pid)), f, indent=1)
            print("  clause %s: %s" % (v["clause"], json.dumps(v["detail"])[:700]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        self.evidence(drv, events, fresh, seen_known)
        self.log("%s %s: %s" % (self.pid, self.tier,
                                "VIOLATED (%d)" % len(fresh) if fresh else "held"))
        return 1 if fresh else 0

    def evidence(self, drv, events, fresh, seen_known):
        drv = drv or dict(calls=0, replayed=0, streams={}, samples=[], covered={})
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=drv["replayed"] + events,
                   replayed_model_cases=drv["replayed"], recorded_events_checked=events,
                   real_calls=drv["calls"], models=self.models, covered=drv["covered"],
                   samples=drv["samples"][:6] or ["none: the driver did not finish"],
                   known_findings=sorted(seen_known))
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed,
                           level="model_checking", coverage=cov,
                           assumptions=list(self.prop.ASSUMPTIONS),
                           wall_s=round(time.time() - self.t0, 2), violations=len(fresh)),
                      f, indent=1)
            f.write("\n")


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return Check(pid, tier, seed).run()
    except Exception:
        traceback.print_exc()
        return 2
