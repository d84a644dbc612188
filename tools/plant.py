"""Tries planted bugs on scratch copies of /repo and stores the good ones in seeded/.

usage: plant.py FILE.py [ID ...]    FILE defines SEEDS = [dict(id, property, edits, demo, needs,
                                    what)], edits = [(file, old, new)], demo = Python source.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import build as vb  # noqa: E402

BASE = {}


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def site_of(work):
    return vb.build(work)


def run_demo(demo, site):
    env = vb.env()
    env["PYTHONPATH"] = site
    return sh(["/opt/venv/bin/python", demo], env=env, cwd="/tmp", timeout=300).returncode


def tests(site):
    r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--rootdir", site,
            "--pyargs", "ufunclab"], env=dict(vb.env(), PYTHONPATH=site), cwd=site)
    return r.returncode == 0, r.stdout[-300:]


def one(s, base_site):
    out = dict(id=s["id"], property=s["property"])
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True,
                        ignore=lambda d, n: ["build"] if d == "/repo" else [])
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) < 1 or (t.count(old) > 1 and not s.get("multi")):
                return dict(out, error="%d matches of %r in %s" % (t.count(old), old, f))
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "-C", repo, "diff"]).stdout
        gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        orig = "".join(sh(["git", "-C", repo, "show", "86ba7f3:" + f]).stdout for f, _, _ in s["edits"]).splitlines()
        if not any(l in orig and l.strip() for l in gone):
            return dict(out, error="changes no line of the original")
        if any(f.endswith(".src") for f, _, _ in s["edits"]):
            out["uncounted"] = True
        work = os.path.join(tmp, "w")
        os.makedirs(work)
        code = ("import sys; sys.path.insert(0, %r); from vf import build; "
                "print(build.build(%r))" % (ROOT, work))
        r = sh([sys.executable, "-c", code], env=dict(os.environ, VF_REPO=repo))
        if r.returncode:
            return dict(out, error="build: " + (r.stdout + r.stderr)[-800:])
        site = r.stdout.strip().splitlines()[-1]
        ok, tail = tests(site)
        if not ok:
            return dict(out, error="tests fail: " + tail)
        sd = os.path.join(ROOT, "seeded", s["id"])
        dd = os.path.join(tmp, "demo.py")
        open(dd, "w").write(s["demo"])
        a, b = run_demo(dd, base_site), run_demo(dd, site)
        out.update(demo_base=a, demo_patched=b)
        if a != 0 or b == 0:
            return dict(out, error="demo does not separate")
        os.makedirs(sd, exist_ok=True)
        open(os.path.join(sd, "patch.diff"), "w").write(diff)
        open(os.path.join(sd, "demo.py"), "w").write(s["demo"])
        with open(os.path.join(sd, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\n# Exit 0: the property holds here; nonzero: it is broken.\n'
                    'PYTHONPATH=/repo/build/install/site exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(sd, "demo.sh"), 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]),
                  open(os.path.join(sd, "meta.json"), "w"), indent=1)
        r = sh([sys.executable, os.path.join(ROOT, "check.py"), s["property"]],
               env=dict(os.environ, VF_REPO=repo, VERIF_SEED="1", VF_PY=""), cwd=ROOT)
        m = re.findall(r"^  clause (\S+)", r.stdout, re.M)
        out.update(rc=r.returncode, caught=r.returncode == 1 and "VIOLATION" in r.stdout, clauses=m)
        if r.returncode not in (0, 1):
            out["error"] = (r.stdout + r.stderr)[-1500:]
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = sys.argv[2:]
    seeds = [s for s in m.SEEDS if not want or s["id"] in want]
    tmp = tempfile.mkdtemp(prefix="plantbase-")
    try:
        base = vb.build(tmp)
        with cf.ThreadPoolExecutor(3) as ex:
            for r in ex.map(lambda s: one(s, base), seeds):
                print(json.dumps(r), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
