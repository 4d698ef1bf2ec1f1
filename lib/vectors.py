"""Vectors that the specification enumerates, replayed through the implementation."""
import concurrent.futures
import json
import os
import random
import select
import shutil
import socket
import subprocess
import time

import build
import sut
import tlc

CHECKS = {}
REPLAY = {}


def check(prop):
    def deco(fn):
        CHECKS.setdefault(prop, []).append(fn)
        return fn
    return deco


def run(prop, seed, deep, binary):
    """(violation or None, statistics) of all vector checks of the property."""
    total = {"states": 0, "transitions": 0, "vectors": 0, "samples": []}
    for fn in CHECKS.get(prop, []):
        v, st = fn(seed, deep, binary)
        for k, x in st.items():
            if k in ("states", "transitions", "vectors"):
                total[k] += x
            elif k == "samples":
                total[k] += x
            else:
                total[k] = x
        if v:
            return v, total
    return None, total


def replay(prop, v):
    return REPLAY[v["by"]](v)


def spec_run(module, cfg, env=None, extra=(), timeout=800, workers=4, heap="4g", files=()):
    """(statistics, output lines) of one TLC run over /verif/spec."""
    d = tlc.scratch()
    try:
        for f in os.listdir(tlc.SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(tlc.SPEC, f), d)
        for name, data in files:
            open(os.path.join(d, name), "w").write(data)
        open(os.path.join(d, "m.cfg"), "w").write(cfg)
        rc, out = tlc.java(["-workers", str(workers), "-metadir", os.path.join(d, "md"), "-config", "m.cfg", *extra,
                            module + ".tla"], d, env=env, timeout=timeout, heap=heap)
        gen, dist = tlc._stats(out)
        return {"gen": gen, "dist": dist, "out": out, "simulated": "-simulate" in extra}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def pipe(binary, mode, lines, timeout=600, args=()):
    """Lines through the harness; the lines it gives."""
    p = subprocess.run([binary, mode, *args], input="".join(x + "\n" for x in lines).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout)
    out = p.stdout.decode(errors="replace").splitlines()
    return out, p.returncode


# ---------------------------------------------------------------- C14: frames
def raw(text):
    return text.replace("~", "\xff").encode("latin-1")


# name, alphabet, tokens, longest text, quick, invariants of the grammar, simulated traces
ALPHABETS = [
    ("bytes", "Bytes", 4, 40, True, True, 0),
    ("parts", "Parts", 4, 60, True, True, 0),
    ("words", "Words", 3, 60, True, True, 0),
    ("odd", "Odd", 3, 80, True, True, 0),
    ("sized", "Sized", 2, 400, True, True, 0),
    ("deep", "Deep", 4, 400, True, False, 0),
    ("long", "Words", 12, 240, True, False, 300),
    ("bytes-5", "Bytes", 5, 40, True, False, 0),
    ("parts-5", "Parts", 5, 60, False, True, 0),
    ("words-4", "Words", 4, 80, True, False, 0),
    ("odd-4", "Odd", 4, 80, False, False, 0),
    ("sized-3", "Sized", 3, 400, False, False, 0),
    ("deep-5", "Deep", 5, 400, False, False, 0),
    ("longer", "Words", 24, 500, False, False, 1500),
    ("long-odd", "Odd", 14, 240, False, False, 3000),
]


def enumerate_frames(a, seed):
    name, alphabet, tokens, maxlen, quick, inv, sim = a
    cfg = ("SPECIFICATION Spec\nINVARIANTS Report %s\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTANTS\n Tokens <- %s\n"
           " MaxTokens = %d\n DeepEnough = 31\n MaxLen = %d\n") % ("PrefixSafe BeginningsClosed" if inv else "", alphabet, tokens, maxlen)
    extra = ("-simulate", "num=%d" % sim, "-depth", str(tokens + 2), "-seed", str(seed)) if sim else ()
    r = spec_run("MCResp", cfg, extra=extra, workers=1 if sim else 3, timeout=2500)
    bad = "is violated" in r["out"] or "Error:" in r["out"]
    if bad or (not sim and "No error has been found" not in r["out"]):
        raise tlc.ToolError("enumeration %s failed\n%s" % (name, "\n".join(x for x in r["out"].splitlines() if "VEC" not in x)[-2500:]))
    vec = {}
    for line in r["out"].splitlines():
        if line.startswith('"VEC '):
            v = json.loads(json.loads(line)[4:])
            vec[v["s"]] = v
    return r, list(vec.values())


def same(want, got):
    """Is what the harness shows the value of the specification? Maps are sets of pairs; which
    value of a key that comes twice stays is not said."""
    if want[0] != got[0]:
        return False
    k = want[0]
    if k in ("S", "E", "B"):
        return raw(want[1]).hex() == got[1]
    if k == "I":
        return want[1] == got[1]
    if k == "N":
        return True
    if k == "A":
        return len(want[1]) == len(got[1]) and all(same(x, y) for x, y in zip(want[1], got[1]))
    pairs = [(want[1][j], want[1][j + 1]) for j in range(0, len(want[1]), 2)]
    return (len(got[1]) <= len(pairs)
            and all(any(same(a, x) and same(b, y) for a, b in pairs) for x, y in got[1])
            and all(any(same(a, x) for x, _ in got[1]) for a, _ in pairs)
            and not any(x == y for j, (x, _) in enumerate(got[1]) for y, _ in got[1][:j]))


def judge(v, answer):
    """None, or what is wrong with the answer of the harness to the vector."""
    verdict, _, rest = answer.partition(" ")
    pos, _, val = rest.partition(" ")
    if verdict not in v["a"]:
        return "%s, the specification allows %s" % (verdict, ",".join(v["a"]))
    if verdict == "ok":
        if int(pos) != v["n"]:
            return "the frame has %d bytes, %s were consumed" % (v["n"], pos)
        if not same(v["v"], json.loads(val)):
            return "the value is %s" % val[:300]
    return None


def derived(vecs, rng, limit):
    """Beginnings of valid frames, and valid frames with something behind them."""
    oks = [v for v in vecs if v["a"] == ["ok"]]
    if len(oks) > limit:
        oks = rng.sample(oks, limit)
    out = []
    for v in oks:
        cuts = range(1, v["n"])
        if v["n"] > 60:
            cuts = sorted(rng.sample(range(1, v["n"]), 40))
        for k in cuts:
            out.append({"s": v["s"][:k], "a": ["inc"], "n": 0, "v": []})
        for t in ("+", "\r\n", "$1\r\na\r\n", "~", "*3\r\n", "a" * 70):
            out.append({"s": v["s"][:v["n"]] + t, "a": ["ok"], "n": v["n"], "v": v["v"]})
    return out


def ask_harness(binary, vecs, timeout=600):
    """The first wrong vector, or None. A crash of the harness counts for the vector it was at."""
    out, rc = pipe(binary, "frames", [raw(v["s"]).hex() for v in vecs], timeout)
    for v, a in zip(vecs, out):
        w = judge(v, a)
        if w:
            return {"by": "frame", "vector": v, "answer": a, "wrong": w}
    if len(out) < len(vecs):
        # the output is buffered: look for the one that crashes
        lo, hi = 0, len(vecs)
        while hi - lo > 1:
            mid = (lo + hi) // 2
            got, rc2 = pipe(binary, "frames", [raw(v["s"]).hex() for v in vecs[lo:mid]], timeout)
            if len(got) < mid - lo:
                hi = mid
            else:
                lo = mid
        return {"by": "frame", "vector": vecs[lo], "answer": "crash", "wrong": "the parser crashed (%s)" % rc}
    return None


def ask_server(binary, vecs, batch=60):
    """The vectors as an argument of an unknown command: an accepted one gets an error
    reply and leaves the connection usable, others get nothing."""
    srv = sut.Server(binary, limit=2000)
    tag = b"-ERR unknown"
    try:
        k = 0
        while k < len(vecs):
            part = vecs[k:k + batch]
            k += batch
            socks = []
            for v in part:
                s = socket.create_connection(srv.addr)
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                data = b"*2\r\n+zz\r\n" + raw(v["s"][:v["n"]] if v["n"] else v["s"])
                if v["a"] == ["ok"] or (v["n"] and "ok" in v["a"]):
                    data += b"*1\r\n$4\r\nPING\r\n"
                try:
                    s.sendall(data)
                    s.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
                socks.append((s, v))
            for s, v in socks:
                s.settimeout(10)
                got = b""
                end = "eof"
                try:
                    while True:
                        x = s.recv(65536)
                        if not x:
                            break
                        got += x
                except ConnectionError:
                    end = "reset"
                except socket.timeout:
                    end = "silence"
                s.close()
                fine = got.startswith(tag) and got.endswith(b"\r\n+PONG\r\n") and got.count(b"\r\n") == 2
                wrong = None
                if end == "silence":
                    wrong = "the connection does not end"
                elif "ok" not in v["a"] and got:
                    wrong = "a frame that is not one was answered: %r" % got[:200]
                elif v["a"] == ["ok"] and not fine:
                    wrong = "a valid frame was answered %r" % got[:200]
                elif v["a"] != ["ok"] and "ok" in v["a"] and got and not fine:
                    wrong = "a frame was answered %r" % got[:200]
                if not srv.alive():
                    wrong = "the server died: " + srv.stderr()[-300:]
                if wrong:
                    return {"by": "frame-server", "vector": v, "answer": got.decode("latin-1")[:300], "wrong": wrong}
    finally:
        srv.stop()
    return None


def nest(v):
    return 1 + max([nest(x) for x in v[1]], default=0) if v and v[0] in "AM" else 0


def _pick(vecs, rng, n):
    """A sample with every kind of verdict in it."""
    kinds = {}
    for v in vecs:
        kinds.setdefault((tuple(v["a"]), v["s"][:1]), []).append(v)
    out = []
    per = max(1, n // max(1, len(kinds)))
    for k in sorted(kinds):
        g = kinds[k]
        out += g if len(g) <= per else rng.sample(g, per)
    rng.shuffle(out)
    return out


@check("C14")
def frames(seed, deep, binary):
    rng = random.Random("%s/frames" % seed)
    st = {"states": 0, "transitions": 0, "vectors": 0, "samples": [], "alphabets": {}}
    harness = build.harness()
    st["through"] = "library and server" if harness else "server (the harness does not compile)"
    todo = [a for a in ALPHABETS if deep or a[4]]
    allv = []
    bad = None
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for a, (r, vecs) in zip(todo, ex.map(lambda a: enumerate_frames(a, seed), todo)):
            st["states"] += r["dist"] or len(vecs)
            st["transitions"] += r["gen"]
            vecs.sort(key=lambda v: v["s"])
            more = derived(vecs, rng, 3000 if not deep else 20000)
            st["alphabets"][a[0]] = {"texts": len(vecs), "valid": sum(1 for v in vecs if v["a"] == ["ok"]), "derived": len(more)}
            for v in rng.sample(vecs, 1):
                st["samples"].append(v)
            allv += vecs
            if harness:
                st["vectors"] += len(vecs) + len(more)
                bad = bad or ask_harness(harness, vecs + more)
    if bad:
        return bad, st
    # nesting far beyond what is accepted: refused or unfinished, never a crash
    far = []
    for unit in ("*1\r\n", "%1\r\n+k\r\n", "*2\r\n:1\r\n", "%1\r\n"):
        for n in (33, 40, 100, 1000, 10000, 200000):
            far.append({"s": unit * n, "a": ["err", "inc"], "n": 0, "v": []})
    if harness:
        st["vectors"] += len(far)
        bad = ask_harness(harness, far)
        if bad:
            bad["vector"] = {"s": bad["vector"]["s"][:40] + "...", "long": len(bad["vector"]["s"])}
            return bad, st
    # (an argument is one level deeper than a frame)
    allv = [v for v in allv if nest(v["v"]) < 31 and ("ok" in v["a"] or v["s"].count("*1") + v["s"].count("%1") < 31)]
    part = _pick(allv, rng, (1500 if not deep else 8000) if harness else (6000 if not deep else 30000)) + far
    st["vectors"] += len(part)
    st["through_server"] = len(part)
    return ask_server(binary, part), st


def _again_frame(v):
    harness = build.harness()
    return ask_harness(harness, [v["vector"]])


def _again_server(v):
    return ask_server(build.server(), [v["vector"]])


REPLAY["frame"] = _again_frame
REPLAY["frame-server"] = _again_server


# ---------------------------------------------------------------- C15: slots
def _split_list(deep):
    ns = list(range(1, 65)) + [65, 96, 100, 127, 128, 129, 192, 255, 256, 257, 300, 512, 1000, 1024, 1025, 4097]
    if deep:
        ns += list(range(66, 256)) + [333, 511, 513, 2047, 2048, 2049, 5461, 5462, 8191, 8192, 8193, 16383, 16384]
    return sorted(set(ns), reverse=True)


def _key_list(rng, deep):
    keys = [b"", b"123456789", b"foo", b"bar", b"{user1000}.following", b"{user1000}.followers", b"foo{}{bar}", b"foo{{bar}}zap"]
    keys += [bytes([x]) for x in range(256)]
    keys += [bytes([rng.randrange(256), rng.randrange(256)]) for _ in range(1500 if not deep else 20000)]
    for n in [3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300, 600, 1000]:
        for _ in range(6 if not deep else 40):
            keys.append(bytes(rng.randrange(256) for _ in range(n)))
    keys += [b"\0" * n for n in range(2, 20)] + [b"\xff" * n for n in range(2, 20)]
    keys += [b"key:%d" % n for n in range(500)]
    return list(dict.fromkeys(keys))


def judge_slots(splits, keys, timeout=800):
    """(statistics, wrong record or None)."""
    cfg = "SPECIFICATION Spec\nINVARIANTS Right\nCHECK_DEADLOCK FALSE\n"
    d = tlc.scratch()
    try:
        path = os.path.join(d, "r.json")
        with open(path, "w") as f:
            json.dump({"splits": splits, "keys": [{"b": list(k), "slot": s} for k, s in keys]}, f)
        r = spec_run("SlotsTrace", cfg, env={"RECORDS": path}, workers=6, timeout=timeout, heap="8g")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for line in r["out"].splitlines():
        if line.startswith('"WRONG '):
            return r, json.loads(json.loads(line)[6:])
    if "No error has been found" not in r["out"]:
        raise tlc.ToolError("the records of slots were not judged\n" + r["out"][-2500:])
    return r, None


def record_slots(harness, ns, procs=7, timeout=2500):
    """What the library gives for each number of parts; a crash gives an empty split."""
    # the biggest first, to the process that has the least to do
    shares = [[] for _ in range(procs)]
    for n in sorted(ns, reverse=True):
        min(shares, key=sum).append(n)

    def one(share):
        out, _ = pipe(harness, "slots", [str(n) for n in share], timeout)
        got = [json.loads(x) for x in out if x.endswith("}")]
        for n in share[len(got):]:
            got.append({"n": n, "ranges": [], "parts": [], "global": [0, 0]})
            break
        return got
    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        return [x for g in ex.map(one, [s for s in shares if s]) for x in g]


def record_keys(harness, keys):
    out, _ = pipe(harness, "crc", [k.hex() for k in keys])
    out += ["-1"] * (len(keys) - len(out))
    return list(zip(keys, [int(x) if int(x) >= 0 else 99999 for x in out]))


@check("C15")
def slots(seed, deep, binary):
    rng = random.Random("%s/slots" % seed)
    harness = build.harness()
    if not harness:
        # nothing of this can be seen through the server
        raise tlc.ToolError("the harness does not compile against the library")
    splits = record_slots(harness, _split_list(deep))
    keys = record_keys(harness, _key_list(rng, deep))
    r, wrong = judge_slots(splits, keys)
    st = {"states": r["dist"], "transitions": r["gen"], "vectors": len(splits) + len(keys), "splits": len(splits), "keys": len(keys),
          "samples": [{"n": x["n"], "ranges": x["ranges"][:4], "parts": len(x["parts"])} for x in splits[:2]]
          + [{"key": k.hex(), "slot": s} for k, s in rng.sample(keys, 3)]}
    if wrong:
        if wrong["kind"] == "split":
            rec = splits[wrong["i"] - 1]
            return {"by": "split", "n": rec["n"], "wrong": wrong["wrong"], "ranges": rec["ranges"][:3] + rec["ranges"][-2:]}, st
        k, s = keys[wrong["i"] - 1]
        return {"by": "key", "key": k.hex(), "slot": s, "wrong": wrong["wrong"]}, st
    return None, st


def _again_split(v):
    _, w = judge_slots(record_slots(build.harness(), [v["n"]]), [])
    return w


def _again_key(v):
    _, w = judge_slots([], record_keys(build.harness(), [bytes.fromhex(v["key"])]))
    return w


REPLAY["split"] = _again_split
REPLAY["key"] = _again_key


# ---------------------------------------------------------------- C05, C06: the store itself
def store_rounds(harness, seed, plans, procs=3):
    """Histories of threads on one segment of the store: the plans are
    (threads, operations, keys, percentage of expirations, rounds)."""
    def one(k):
        th, ops, keys, ttl, rounds = plans[k]
        p = subprocess.run([harness, "store", str(seed * 1000 + k), str(th), str(ops), str(keys), str(ttl), str(rounds)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        out = []
        for line in p.stdout.decode(errors="replace").splitlines():
            if line.endswith("]"):
                out.append({"limit": 20000, "laddr": "", "label": "store:%d" % k, "ev": json.loads(line)})
        if len(out) < rounds:
            # a crash of the whole process
            ev = [{"e": "conn", "c": 1, "addr": "t0"}, {"e": "died"}]
            out.append({"limit": 20000, "laddr": "", "label": "store:%d" % k, "ev": ev, "stderr": p.stderr.decode(errors="replace")[-500:]})
        return out
    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        return [h for hs in ex.map(one, range(len(plans))) for h in hs]


def _store(plans, deep_plans):
    def fn(seed, deep, binary):
        st = {"states": 0, "transitions": 0, "vectors": 0, "samples": []}
        harness = build.harness()
        if not harness:
            # the scenarios go through the server; this adds the store alone
            return None, {**st, "store": "the harness does not compile"}
        hist = store_rounds(harness, seed, deep_plans if deep else plans)
        groups, cur, n = [], [], 0
        for h in hist:
            cur.append(h)
            n += len(h["ev"])
            if n > 20000:
                groups.append(cur)
                cur, n = [], 0
        if cur:
            groups.append(cur)
        bad = None
        skip = ["limit", "fds", "starve", "info-addr"]
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for v, s in ex.map(lambda g: tlc.validate(g, workers=2, skip=skip), groups):
                st["states"] += s["states"]
                st["transitions"] += s["generated"]
                bad = bad or v
        st["vectors"] = len(hist)
        st["store_events"] = sum(len(h["ev"]) for h in hist)
        st["samples"] = [{"label": hist[0]["label"], "first": hist[0]["ev"][:8]}]
        if bad:
            bad["by"] = "store"
            return bad, st
        return None, st
    return fn


CHECKS.setdefault("C05", []).append(_store(
    [(2, 60, 1, 0, 60), (4, 40, 2, 0, 40), (2, 40, 1, 60, 60), (4, 30, 1, 70, 40), (6, 30, 3, 50, 30), (8, 20, 1, 20, 30)],
    [(2, 60, 1, 0, 600), (4, 40, 2, 0, 400), (2, 40, 1, 60, 600), (4, 30, 1, 70, 400), (6, 30, 3, 50, 300), (8, 20, 1, 20, 300)]))
CHECKS.setdefault("C06", []).append(_store(
    [(1, 60, 1, 70, 40), (2, 50, 2, 80, 40), (3, 40, 1, 90, 40)],
    [(1, 60, 1, 70, 400), (2, 50, 2, 80, 400), (3, 40, 1, 90, 400)]))


def _again_store(v):
    got, _ = tlc.validate([v["history"]], skip=["limit", "fds", "starve", "info-addr"])
    if got:
        got["by"] = "store"
    return got


REPLAY["store"] = _again_store
