"""The part of a check that runs inside the process that imports the built ufunclab."""
import importlib
import json
import mmap
import os
import sys
import traceback
import warnings

import numpy as np


class Drive:
    def __init__(self, pid, work, tier, seed):
        self.pid, self.work, self.tier, self.seed = pid, work, tier, seed
        self.rng = np.random.default_rng([seed, int(pid[1:])])
        self.thorough = tier == "thorough"
        self.violations, self.samples, self.covered = [], [], {}
        self.calls = self.replayed = 0
        self.streams, self._files = {}, {}
        self._nviol = {}
        p = os.path.join(work, "current.txt")
        with open(p, "wb") as f:
            f.write(b"\0" * 8192)
        self._cur = open(p, "r+b")
        self._mm = mmap.mmap(self._cur.fileno(), 8192)

    # what is being executed now: read by the runner if this process dies
    def begin(self, what):
        self.calls += 1
        b = str(what).encode("utf-8", "replace")[:8000]
        self._mm[:len(b) + 1] = b + b"\0"

    def cases(self, name):
        with open(os.path.join(self.work, name + ".cases.ndjson")) as f:
            for line in sorted(f):       # TLC's workers write in any order
                line = line.strip()
                if line:
                    v = json.loads(line)      # CSVWrite quotes the record
                    yield json.loads(v) if isinstance(v, str) else v

    def emit(self, stream, rec):
        f = self._files.get(stream)
        if f is None:
            f = self._files[stream] = open(os.path.join(self.work, stream + ".trace.ndjson"), "w")
        self.streams[stream] = self.streams.get(stream, 0) + 1
        f.write(json.dumps(rec) + "\n")

    def violation(self, clause, detail, key=None):
        n = self._nviol[clause] = self._nviol.get(clause, 0) + 1
        if n <= 20:
            self.violations.append(dict(clause=clause, detail=detail,
                                        key=key or "%s:%s" % (self.pid, clause)))

    def expect(self, cond, clause, detail, key=None):
        if not cond:
            self.violation(clause, detail() if callable(detail) else detail, key)
        return bool(cond)

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def cover(self, what, n=1):
        self.covered[what] = self.covered.get(what, 0) + n

    def finish(self):
        for f in self._files.values():
            f.close()
        with open(os.path.join(self.work, "driver.json"), "w") as f:
            json.dump(dict(violations=self.violations, calls=self.calls, replayed=self.replayed,
                           streams=self.streams, samples=self.samples, covered=self.covered), f)


def main():
    pid, work, tier, seed = sys.argv[1:5]
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import ufunclab
    site = os.environ["VF_SITE"]
    if not os.path.realpath(ufunclab.__file__).startswith(os.path.realpath(site)):
        raise SystemExit("wrong ufunclab: " + ufunclab.__file__)
    d = Drive(pid, work, tier, int(seed))
    try:
        importlib.import_module("props." + pid.lower()).drive(d)
    except (MemoryError, OSError, KeyboardInterrupt):
        raise
    except Exception:
        # The drivers make only calls that succeed, or whose error they expect.
        if os.environ.get("VF_DEBUG"):
            raise
        what = bytes(d._mm).split(b"\0")[0].decode("utf-8", "replace")
        d.violation("unexpected-exception", dict(during=what, error=traceback.format_exc()[-2500:]))
    d.finish()


if __name__ == "__main__":
    main()
