"""Run TLC on a module of /verif/spec and parse what it says."""
import os
import re
import shutil
import subprocess
import time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = ("/opt/veriftools/tla/tla2tools.jar:"
        "/opt/veriftools/tla/CommunityModules-deps.jar")


class TlcError(Exception):
    """TLC could not finish: an error of the machinery, not a verdict."""


class EvalError(TlcError):
    """An event of a trace that the specification cannot evaluate: outside its domain."""
    def __init__(self, line, text):
        TlcError.__init__(self, text)
        self.line = line


class Result:
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.fails = []          # (index, clause) of trace verdicts
        self.prints = []
        self.violated = None     # name of a violated invariant of the model
        self.output = ""
        self.wall = 0.0
        self.name = ""
        self.actions = {}        # action name -> (distinct, taken)


def run(name, module, cfg, workdir, env=None, workers=4, timeout=800, heap="3g",
        extra=(), coverage=False, trace=False):
    """cfg is the text of the configuration. Returns a Result or raises TlcError."""
    d = os.path.join(workdir, "tlc-" + name)
    os.makedirs(d, exist_ok=True)
    # All modules of the specification are on the library path.
    with open(os.path.join(d, name + ".cfg"), "w") as f:
        f.write(cfg)
    if trace:     # the judgement of the module, stepped by TraceBase
        with open(os.path.join(d, "Trace_" + module + ".tla"), "w") as f:
            f.write("---- MODULE Trace_%s ----\nEXTENDS %s, TraceBase\n====\n"
                    % (module, module))
        module = "Trace_" + module
    else:
        shutil.copy(os.path.join(SPEC, module + ".tla"), d)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
           "-XX:TieredStopAtLevel=4", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
           "-config", name + ".cfg", "-workers", str(workers), "-deadlock", "-noGenerateSpecTE",
           "-metadir", os.path.join(d, "states"), "-nowarning"]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra) + [module + ".tla"]
    t0 = time.time()
    out = os.path.join(d, "out.txt")
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC %s: time limit of %d s" % (name, timeout))
    res = Result()
    res.name = name
    res.wall = time.time() - t0
    text = res.output = open(out, errors="replace").read()
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    if m:
        res.generated, res.distinct = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"depth of the complete state graph search is (\d+)", text)
    if m:
        res.depth = int(m.group(1))
    for m in re.finditer(r'<<"FAIL", (\d+), "([^"]*)">>', text):
        res.fails.append((int(m.group(1)), m.group(2)))
    for m in re.finditer(r'^<<"NOTE".*>>$', text, re.M):
        res.prints.append(m.group(0))
    for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)$", text, re.M):
        res.actions[m.group(1)] = (int(m.group(2)), int(m.group(3)))
    m = re.search(r"Error: (?:Invariant (\S+) is violated|Action property (\S+) is violated|"
                  r"Temporal properties were violated|Assumption .* is false)", text)
    if m:
        res.violated = m.group(1) or m.group(2) or m.group(0)
        return res
    if r.returncode != 0 or "Model checking completed. No error" not in text:
        if "simulate" in " ".join(extra) and r.returncode == 0:
            return res
        i = text.find("Error:")
        m = re.findall(r"^/\\ l = (\d+)$", text[i:], re.M) if i >= 0 and trace else []
        if m and "The error occurred when TLC was evaluating" in text:
            raise EvalError(int(m[-1]), text[i:i + 400])
        raise TlcError("TLC %s failed (exit %d):\n%s"
                       % (name, r.returncode, text[max(0, i):][:3000] + text[:i][-1500:] if i >= 0 else text[-3000:]))
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return res
