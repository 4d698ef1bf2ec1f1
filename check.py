#!/usr/bin/env python3
"""Decides one property: check.py C05 [--replay FILE]

1. plays the scenarios of the property against the real server and checks every
   recorded history against the specification (Contract.tla) with TLC;
2. replays the vectors that the specification enumerates (C13, C14, C15);
3. checks the design specifications of the property with TLC, and that the
   defective designs (controls) are refused.

Exit 0: held on everything explored. 1: VIOLATION. 2: no answer."""
import concurrent.futures
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import build  # noqa: E402
import design  # noqa: E402
import runner  # noqa: E402
import spoil  # noqa: E402
import tlc  # noqa: E402
import vectors  # noqa: E402

for _m in ("scen_stream", "scen_kv", "scen_conn", "scen_hard", "scen_gen", "scen_enum", "scen_long", "scen_mem", "scen_race"):
    importlib.import_module(_m)

# Clauses of the contract that say nothing about a property: a history that breaks
# only these is no violation of it (the property they belong to has its own check).
REG = "list-twice list-type list-missing list-ids list-dead list-stuck list-laddr info-addr id-increasing"
NAMES = "list-name info-name getname"
IDS = "id-stable id-unique id-increasing"
PLACE = "limit fds starve memory"
SKIP = {
    "C01": [REG, PLACE, "list-name info-name id-unique"],
    "C02": [REG, PLACE, "list-name info-name id-unique"],
    "C03": [REG, PLACE, NAMES, IDS],
    "C04": ["limit fds starve memory id-increasing list-missing list-dead list-stuck list-ids list-type"],
    "C05": [REG, PLACE, NAMES, IDS, "setname unknown"],
    "C06": [REG, PLACE, NAMES, IDS, "setname unknown"],
    "C07": ["limit fds memory list-dead list-stuck list-twice id-increasing"],
    "C08": ["limit fds starve memory list-stuck list-dead id-increasing"],
    "C09": ["kv setname unknown", NAMES, PLACE, REG.replace("id-increasing", "")],
    "C10": ["kv setname unknown getname", PLACE],
    "C11": ["kv unknown", REG, IDS, PLACE],
    "C12": ["memory kv setname unknown fds", REG, NAMES, IDS],
    "C13": [PLACE, "list-twice list-missing list-dead list-stuck id-increasing id-unique"],
    "C16": ["memory kv setname unknown limit", REG, NAMES, IDS],
    "C17": ["kv setname unknown limit starve fds", REG, NAMES, IDS],
}
CHUNK = 25000


def skip_of(prop):
    return sorted(set(" ".join(SKIP.get(prop, [])).split()))


def chunks(histories):
    out, cur, n = [], [], 0
    for h in histories:
        if cur and n + len(h["ev"]) > CHUNK:
            out.append(cur)
            cur, n = [], 0
        cur.append(h)
        n += len(h["ev"])
    if cur:
        out.append(cur)
    return out


def validate(prop, histories):
    """(violation, states, transitions) of histories against the contract."""
    states = trans = 0
    first = None
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for v, st in ex.map(lambda c: tlc.validate(c, workers=2, skip=skip_of(prop)), chunks(histories)):
            states += st["states"]
            trans += st["generated"]
            if v and not first:
                first = v
    return first, states, trans


def explain(v):
    h = v["history"]
    n = v["index"]
    print("scenario %s: event %d breaks %s" % (v["label"], n, ", ".join(v["clauses"])))
    ev = h["ev"]
    c = (v["event"] or {}).get("c")
    near = [e for e in ev[: n + 1] if c is None or e.get("c") == c][-6:]
    for e in near:
        print("   " + json.dumps(e)[:400])
    if h.get("stderr"):
        print("   server: " + h["stderr"][-600:])


def write_replay(prop, seed, v, kind):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (prop, seed, int(time.time() * 1000) % 10 ** 9))
    with open(path, "w") as f:
        json.dump({"property": prop, "kind": kind, "violation": v}, f)
    return path


def known():
    """Findings that are recorded and not repaired: (property, identification)."""
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        line = line.strip()
        if line.startswith("finding: property="):
            p, _, rest = line[len("finding: property="):].partition(" ")
            out.append((p, rest))
    return out


def replay(prop, path):
    r = json.load(open(path))
    v = r["violation"]
    if r["kind"] == "history":
        got, _ = tlc.validate([v["history"]], skip=skip_of(prop))
        if not got:
            print("the history conforms")
            return 0
        explain(got)
    else:
        got = vectors.replay(prop, v)
        if not got:
            print("the vector conforms")
            return 0
        print(json.dumps(got)[:2000])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def sample(h, n=14):
    return {"scenario": h.get("label", ""), "events": len(h["ev"]), "first": [json.loads(json.dumps(e)) for e in h["ev"][:n]]}


def short(x):
    s = json.dumps(x)
    return x if len(s) < 3000 else s[:3000]


def main():
    prop = sys.argv[1]
    if "--replay" in sys.argv:
        return replay(prop, sys.argv[sys.argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    deep = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "design": [], "scenarios": {}}
    verdict = None  # (violation, kind)
    trouble = []

    binary = build.server()
    t_build = time.time() - t0

    scs = [s for s in runner.SCENARIOS if s.prop == prop]
    if scs:
        results = runner.run(scs, seed, deep, binary, parallel=5)
        hist = []
        for x in results:
            d = cov["scenarios"].setdefault(x["name"], {"runs": 0, "histories": 0, "events": 0})
            d["runs"] += 1
            d["histories"] += len(x["histories"])
            d["events"] += sum(len(h["ev"]) for h in x["histories"])
            for k, n in x["notes"].items():
                d[k] = d.get(k, 0) + n
            hist += x["histories"]
            if x["start"] and not verdict:
                verdict = ({"history": {"ev": [], "limit": 0, "laddr": "", "stderr": x["start"]}, "index": 0, "event": None,
                            "clauses": ["the server does not start"], "label": x["name"]}, "history")
            if x["error"]:
                trouble.append("scenario %s (%s):\n%s" % (x["name"], x["seed"], x["error"]))
        hist = [h for h in hist if h["ev"]]
        if hist:
            v, st, tr = validate(prop, hist)
            cov["states"] += st
            cov["transitions"] += tr
            cov["traces_validated_against_impl"] += len(hist)
            cov["samples"] += [sample(hist[k]) for k in sorted({0, len(hist) // 2, len(hist) - 1})]
            if v:
                verdict = (v, "history")
            elif not verdict:
                cov["spoiled_histories"], tr, st = spoil.run(prop, hist, seed, skip_of(prop), 40 if not deep else 200)
                cov["states"] += st
                cov["transitions"] += tr
    t_scen = time.time() - t0

    if not verdict and prop in vectors.CHECKS:
        v, st = vectors.run(prop, seed, deep, binary)
        cov["states"] += st.pop("states", 0)
        cov["transitions"] += st.pop("transitions", 0)
        cov["traces_validated_against_impl"] += st.pop("vectors", 0)
        cov["samples"] += [short(x) for x in st.pop("samples", [])[:5]]
        cov["vectors"] = st
        if v:
            verdict = (v, "vector")

    if not verdict:
        for inst, r in design.run(prop, deep, 3000 if deep else 700):
            cov["states"] += r["distinct"]
            cov["transitions"] += r["generated"]
            cov["design"].append({"instance": inst.name, "module": inst.module, "states": r["distinct"],
                                  "transitions": r["generated"], "refused": r["violated"], "control": inst.expect,
                                  "wall_s": round(r["wall"], 1)})

    wall = time.time() - t0
    evidence = os.environ.get("ROSTER_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evidence, exist_ok=True)
    with open(os.path.join(evidence, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "assumptions": ["TLC evaluates the specification correctly",
                                   "the recorder orders send before and receive after the server's action (one thread, one clock)",
                                   "schedules of the real server are sampled, those of the design instances are exhausted"],
                   "violations": 1 if verdict else 0, "wall_s": round(wall, 2)}, f, indent=1)
    for p, what in known():
        if p == prop:
            print("KNOWN-FINDING: property=%s %s" % (p, what))
    if verdict:
        v, kind = verdict
        if "history" in v:
            explain(v)
        else:
            print(json.dumps(v)[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, write_replay(prop, seed, v, kind)))
        return 1
    if trouble:
        print("\n".join(trouble))
        return 2
    print("%s holds on what was explored: %d histories and vectors, %d states, %.0f s (build %.0f s, scenarios %.0f s)" % (
        prop, cov["traces_validated_against_impl"], cov["states"], wall, t_build, t_scen - t_build))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (build.BuildError, tlc.ToolError) as e:
        print(str(e)[-4000:])
        sys.exit(2)
