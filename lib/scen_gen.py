"""Behaviours of Roster.tla played against the real server: TLC simulates the
specification, what its clients did becomes a script, and the history the real
server gives to that script is checked like any other."""
import json
import os
import re
import shutil

import tlc
from resp import Raw
from runner import scenario
from scen_conn import _answered


def scripts(seed, traces, conns, workers, limit, reqs, send, ends, depth=120):
    """Client scripts of simulated behaviours, without duplicates."""
    cfg = "\n".join(["SPECIFICATION GenSpec", "INVARIANTS Conforms Script", "CHECK_DEADLOCK FALSE", "CONSTANTS",
                     "Conns = {%s}" % ",".join(str(i + 1) for i in range(conns)),
                     "Workers = {%s}" % ",".join(str(i + 1) for i in range(workers)),
                     "Limit = %d" % limit, "Reqs <- " + reqs, "MaxSend = %d" % send, "MaxNow = 1",
                     "CanEnd <- " + ends, 'Bug = "none"']) + "\n"
    d = tlc.scratch()
    try:
        for f in os.listdir(tlc.SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(tlc.SPEC, f), d)
        open(os.path.join(d, "g.cfg"), "w").write(cfg)
        rc, out = tlc.java(["-simulate", "num=%d" % traces, "-depth", str(depth), "-seed", str(seed), "-workers", "1",
                            "-metadir", os.path.join(d, "md"), "-config", "g.cfg", "RosterGen.tla"], d, timeout=300, heap="2g")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if "is violated" in out or "Error:" in out:
        raise tlc.ToolError("the generator failed\n" + out[-3000:])
    seen = []
    for line in out.splitlines():
        if line.startswith('"SCRIPT '):
            seen.append(json.loads(line)[7:])
    uniq = []
    for s in dict.fromkeys(seen):
        uniq.append(json.loads(s))
    return uniq


def _arg(a, suffix):
    if a["k"] == "o":
        return Raw(b"$-1\r\n")
    return a["v"] + suffix if a["v"] in ("k", "j") else a["v"]


def play(w, script, rng, tag):
    """One script on the connections of one world."""
    m = {}
    want = {}
    got = lambda c: sum(1 for e in w.ev if e["e"] == "recv" and e["c"] == c)
    for st in script:
        c = m.get(st["c"])
        a = st["a"]
        if a == "conn":
            m[st["c"]] = w.conn()
            want[m[st["c"]]] = 0
        elif a == "send":
            if st["args"] and st["args"][0]["k"] == "junk":
                w.junk(c, rng.choice([b"*x\r\n", b"PING\r\n", b"$-1\r\n", b"*-1\r\nzz\r\n"]))
            else:
                w.send(c, *[_arg(x, tag) for x in st["args"]])
        elif a == "recv":
            want[c] += 1
            w.wait(lambda: got(c) >= want[c] or w.conns[c].eof, 0.15 if not w.conns[c].proved else 5.0)
        elif a == "eof":
            if w.conns[c].proved:
                w.wait(lambda: w.conns[c].eof, 5.0)
        elif a == "half":
            w.half(c)
        elif a == "close":
            (w.close if rng.random() < 0.7 else w.reset)(c)
        elif a == "tick":
            w.sleep(0.001)
    _quiet(w)


def _quiet(w):
    """Everything comes to rest: who is served is answered, who waits waits for a place."""
    def rest():
        cs = [c for c in w.conns.values() if not w.settled(c) or (c.half and not c.eof and not c.closed)]
        if not cs:
            return True
        silent = [c for c in w.conns.values() if not (c.proved or c.closed or c.eof or c.unanswered or c.outq)]
        return all(not c.proved for c in cs) and \
            len(_answered(w, [n for n in w.conns if not w.conns[n].half])) + len(silent) >= w.srv.limit
    if not w.wait(rest, 25.0) and not w.dead:
        proved = [c for c in w.conns.values() if c.proved and (not w.settled(c) or c.half and not c.eof and not c.closed)]
        if proved:
            w.log({"e": "late", "c": proved[0].n})
        else:
            w.log({"e": "starve"})
    for c in list(w.conns):
        if not w.conns[c].proved:
            w.close(c)


def _generated(r, conns, workers, limit, reqs, send, ends, n):
    rng = r.rng
    ss = scripts(rng.randrange(1 << 30), n, conns, workers, limit, reqs, send, ends)
    r.notes["scripts"] += len(ss)
    big = limit if limit < conns else 20000
    with r.server(limit=big) as s:
        for k, script in enumerate(ss):
            w = r.world(s, "script %d" % k)
            play(w, script, rng, "-%d" % k)
            dead = w.dead
            late = any(e["e"] in ("late", "starve") for e in w.ev)
            w.wait(lambda: s.extra_fds() <= sum(1 for c in w.conns.values() if not (c.closed or c.eof)), 2.0)
            r.done(w)
            if dead or late:
                break


N = 250


@scenario("C01 C08", quick=1, thorough=12)
def gen_pipelines(r):
    _generated(r, 2, 1, 2, r.rng.choice(["PipeReqs", "PlainReqs", "PlainReqs"]), r.rng.choice([5, 8]), "Ends2", N)


@scenario("C08 C05", quick=1, thorough=12)
def gen_rejections(r):
    _generated(r, 2, 1, 2, "RejReqs", r.rng.choice([4, 8]), "Ends2", N)


@scenario("C12 C16", quick=1, thorough=12)
def gen_limit(r):
    _generated(r, 3, 2, r.rng.choice([1, 2]), r.rng.choice(["PlainReqs", "RejReqs1"]), 6, "Ends2", N)


@scenario("C10 C09", quick=1, thorough=12)
def gen_registry(r):
    _generated(r, 3, 2, 3, "RegReqs", r.rng.choice([6, 10]), "Ends2", N)


@scenario("C11 C10", quick=1, thorough=12)
def gen_names(r):
    _generated(r, 3, 2, 3, r.rng.choice(["NameReqs", "RegReqs2"]), r.rng.choice([6, 10]), "Ends2", N)


@scenario("C05", quick=1, thorough=12)
def gen_keys(r):
    _generated(r, 3, 2, 3, r.rng.choice(["KvReqs", "Kv2Reqs"]), r.rng.choice([6, 12]), "CloseOnly", N)


@scenario("C06", quick=1, thorough=12)
def gen_ttls(r):
    _generated(r, 2, 2, 2, "TtlReqs", r.rng.choice([5, 8]), "CloseOnly", N)
