"""Running TLC: design instances, generators, validation of recorded histories."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def java(args, cwd, env=None, timeout=800, heap="6g", opts=()):
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", *opts, "-cp", JARS, "tlc2.TLC", *args]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as t:
        raise ToolError("TLC timed out: %s" % " ".join(args)) from t
    return p.returncode, p.stdout.decode(errors="replace")


def scratch():
    return tempfile.mkdtemp(prefix="roster-tlc-")


def _stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))


def model(module, cfg_text, workers=8, timeout=800, heap="8g", env=None, extra=()):
    """Model-check a module of /verif/spec. Returns a dict with the outcome."""
    d = scratch()
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        open(os.path.join(d, "m.cfg"), "w").write(cfg_text)
        t = time.time()
        rc, out = java(["-workers", str(workers), "-metadir", os.path.join(d, "md"), "-config", "m.cfg",
                        *extra, module + ".tla"], d, env=env, timeout=timeout, heap=heap)
        gen, dist = _stats(out)
        viol = re.findall(r"(?:Invariant|Action property|Temporal propert\w+) ?(\S*) (?:is|was|were) violated", out)
        if "Temporal properties were violated" in out:
            viol = viol or ["temporal"]
        ok = "Model checking completed. No error has been found." in out
        if not ok and not viol and "Deadlock reached" in out:
            viol = ["deadlock"]
        return {"ok": ok, "violated": viol[0] if viol else None, "generated": gen, "distinct": dist,
                "wall": time.time() - t, "out": out, "rc": rc}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _judge(histories, skip, timeout, workers):
    """Folds the contract over the histories: ({index: (event, clauses)} of those it refuses, states)."""
    if not histories:
        raise ToolError("no history to validate")
    d = scratch()
    try:
        for f in ("Commands.tla", "Contract.tla", "ContractTrace.tla", "ContractTrace.cfg"):
            shutil.copy(os.path.join(SPEC, f), d)
        path = os.path.join(d, "h.json")
        with open(path, "w") as f:
            json.dump({"skip": list(skip), "histories": [{"limit": h["limit"], "laddr": h["laddr"], "ev": h["ev"]}
                                                         for h in histories]}, f)
        rc, out = java(["-workers", str(workers), "-metadir", os.path.join(d, "md"), "-config",
                        "ContractTrace.cfg", "ContractTrace.tla"], d, env={"HISTORIES": path}, timeout=timeout)
        gen, dist = _stats(out)
        acc = set(int(x) - 1 for x in re.findall(r'<<"ACCEPTED", (\d+)>>', out))
        bad = {int(i) - 1: (int(l) - 2, re.findall(r'"([^"]+)"', c))
               for i, l, c in re.findall(r'<<\s*"REFUSED",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}', out)}
        if "No error has been found" not in out or len(acc | set(bad)) != len(histories) or acc & set(bad):
            keep = os.path.join(VERIF, ".build", "tlc-error.json")
            os.makedirs(os.path.dirname(keep), exist_ok=True)
            shutil.copy(path, keep)
            raise ToolError("validation failed: %d accepted, %d refused of %d\n%s" % (len(acc), len(bad), len(histories), out[-3000:]))
        return bad, {"states": dist, "generated": gen, "accepted": len(acc)}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate(histories, timeout=800, workers=8, skip=()):
    """Check recorded histories against Contract.tla.

    Returns (violation or None, states). A violation is a dict with the history,
    the index of the rejected event and the clauses it breaks."""
    bad, st = _judge(histories, skip, timeout, workers)
    if not bad:
        return None, st
    i = min(bad)
    n, clauses = bad[i]
    h = histories[i]
    return {"history": h, "index": n, "event": h["ev"][n] if 0 <= n < len(h["ev"]) else None,
            "clauses": clauses, "label": h.get("label", "")}, st


def refused(histories, skip=(), timeout=600, workers=4):
    """Which of the histories (indices) the contract refuses."""
    bad, st = _judge(histories, skip, timeout, workers)
    return set(bad), st["generated"], st["states"]
