"""Requests that Requests.tla enumerates, sent to the real server: the histories
are judged by the contract like any other."""
import json

import tlc
import vectors
from reqs import JUNK, PING
from resp import Int, Raw, Simple
from runner import scenario

OTHER = [b"$-1\r\n", b"*0\r\n", b"*1\r\n$1\r\nk\r\n", b"%0\r\n", b"%1\r\n+a\r\n:1\r\n", b"-ERR\r\n", b"*2\r\n*1\r\n:1\r\n$-1\r\n"]
NOT_TEXT = [b"\xff\xfe", b"\x80", b"k\xff", b"\xc3\x28", b"\xed\xa0\x80"]


def enumerated(spec, deep):
    cfg = ("SPECIFICATION %s\nINVARIANTS TypeOK CaseBlind UnknownStays Report\nCHECK_DEADLOCK FALSE\nCONSTANTS Deep = %s\n"
           % (spec, "TRUE" if deep else "FALSE"))
    r = vectors.spec_run("Requests", cfg, workers=2)
    if "No error has been found" not in r["out"]:
        raise tlc.ToolError("the enumeration of requests failed\n" + r["out"][-3000:])
    out = [json.loads(json.loads(x)[4:]) for x in r["out"].splitlines() if x.startswith('"REQ ')]
    return sorted(out, key=lambda v: json.dumps(v["q"]))


def concrete(rng, q, key):
    out = []
    for a in q:
        v = key if a["v"] == "k" else a["v"]
        if a["k"] == "b":
            out.append(v)
        elif a["k"] == "s":
            out.append(Simple(v.encode()))
        elif a["k"] == "i":
            out.append(Int(int(v)))
        elif a["k"] == "x":
            out.append(rng.choice(NOT_TEXT))
        else:
            out.append(Raw(rng.choice(OTHER)))
    return tuple(out)


def accepted(r, vs):
    """On a few connections, in pipelines."""
    rng = r.rng
    with r.server() as s:
        for i in range(0, len(vs), 600):
            w = r.world(s, "accepted %d" % i)
            cs = [w.conn() for _ in range(4)]
            for v in vs[i:i + 600]:
                c = rng.choice(cs)
                w.send(c, *concrete(rng, v["q"], "k%d-%d" % (i, rng.randrange(4))))
                if rng.random() < 0.02:
                    w.sync(*cs)
            w.sync(*cs)
            w.call(cs[0], "CLIENT", "LIST")
            dead = w.dead
            r.done(w)
            if dead:
                return


def refused(r, vs, per=250):
    """Each on a connection of its own, between two others; nothing of them takes effect."""
    rng = r.rng
    with r.server() as s:
        for i in range(0, len(vs), per):
            w = r.world(s, "refused %d" % i)
            mon = w.conn()
            key = "r%d" % i
            was = rng.random() < 0.5
            if was:
                w.call(mon, "SET", key, "was")
            todo = vs[i:i + per]
            for j in range(0, len(todo), 25):
                cs = []
                for v in todo[j:j + 25]:
                    c = w.conn()
                    before = [("GET", key)] if rng.random() < 0.5 else []
                    after = [rng.choice([PING, ("SET", key, "after"), ("GET", key)])] if rng.random() < 0.5 else []
                    w.many(c, before + [concrete(rng, v["q"], key)] + after)
                    cs.append(c)
                w.await_eof(*cs)
                if w.dead:
                    break
            w.call(mon, "GET", key)
            w.call(mon, "CLIENT", "GETNAME")
            dead = w.dead
            r.done(w)
            if dead:
                return


def _part(rng, vs, n):
    return vs if len(vs) <= n else rng.sample(vs, n)


@scenario("C13", quick=1, thorough=1)
def spellings(r):
    vs = enumerated("NamesSpec", r.deep)
    r.notes["enumerated"] += len(vs)
    r.rng.shuffle(vs)
    accepted(r, [v for v in vs if v["op"] != "reject"])
    refused(r, [v for v in vs if v["op"] == "reject"])


@scenario("C08 C13", quick=1, thorough=1)
def shapes(r):
    vs = enumerated("ShapesSpec", r.deep)
    r.notes["enumerated"] += len(vs)
    r.rng.shuffle(vs)
    accepted(r, [v for v in vs if v["op"] != "reject"])
    refused(r, _part(r.rng, [v for v in vs if v["op"] == "reject"], 3000 if not r.deep else 40000))
