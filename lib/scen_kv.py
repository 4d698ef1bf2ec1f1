"""Scenarios on the keyspace: C05 C06."""
import os
import time

from reqs import *
from resp import Int, Simple, tok
from runner import scenario


@scenario("C05", quick=6, thorough=60)
def hot_keys(r):
    """A few connections (so that several workers are involved) on two or three keys."""
    rng = r.rng
    with r.server() as s:
        for rnd in range(4 if not r.deep else 10):
            w = r.world(s, str(rnd))
            n = rng.choice([2, 3, 4, 6, 8])
            cs = [w.conn() for _ in range(n)]
            keys = ["hot%d-%d" % (rnd, j) for j in range(rng.choice([1, 2, 3]))]
            ttl = rng.random() < 0.5
            few = rng.random() < 0.3
            depth = 1 if n > 4 else rng.choice([1, 1, 2])
            val = 0
            for step in range(150):
                for c in rng.sample(cs, rng.randrange(1, n + 1)):
                    if len(w.conns[c].unanswered) + len(w.conns[c].outq) >= depth:
                        continue
                    val += 1
                    v = "v%d" % (val % 3 if few else val)
                    k = rng.choice(keys)
                    x = rng.random()
                    if x < 0.4:
                        if ttl and rng.random() < 0.6:
                            w.send(c, "SET", k, v, "PX", str(rng.choice([0, 1, 2, 3, 5, 8, 20])))
                        else:
                            w.send(c, "SET", k, v)
                    else:
                        w.send(c, "GET", k)
                w.pump(rng.choice([0, 0, 0.0005, 0.002]))
            w.sync()
            for c in cs:
                for k in keys:
                    w.send(c, "GET", k)
            w.sync()
            r.done(w)


@scenario("C05", quick=3, thorough=30)
def orphans(r):
    """Connections vanish right after sending SETs: each takes effect once or not at all."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        a, b = w.conn(), w.conn()
        for step in range(40 if not r.deep else 120):
            k = "orph%d" % (step % 5)
            c = w.conn()
            if rng.random() < 0.8:
                w.call(c, "PING")
            reqs = [("SET", k, "o%d-%d" % (step, j)) for j in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.3:
                reqs = [PING] * rng.randrange(1, 30) + reqs
            w.many(c, reqs)
            w.pump(rng.choice([0, 0, 0.0003, 0.001]))
            rng.choice([w.close, w.reset])(c)
            for _ in range(3):
                w.send(rng.choice([a, b]), "GET", k)
                w.pump(rng.choice([0, 0.0005]))
            if rng.random() < 0.4:
                w.send(rng.choice([a, b]), "SET", k, "s%d" % step)
            w.sync(a, b)
            w.gone(a, c)
            w.send(b, "GET", k)
            w.send(a, "GET", k)
        w.sync()
        r.done(w)


def _similar(rng, n):
    base = ["", "a", "A", "aa", "a ", " a", "a\x00", "\x00", "\x00\x00", "key", "Key", "KEY", "kEy", "key\n", "key\r\n", "ключ", "é", "e\u0301",
            "*", "get", "set", "{a}b", "{a}c", "a{}", "x" * 255, "x" * 256, "x" * 257, "x" * 1023 + "a", "x" * 1023 + "b",
            "x" * 5000 + "a", "x" * 5000 + "b", "y" + "x" * 5000, "1", "01", "1.0", "-1", "18446744073709551615"]
    out = list(base)
    for i in range(n):
        out.append("user:%d" % i)
        if i % 3 == 0:
            out.append("user:%08d" % i)
        if i % 4 == 0:
            out.append("%d:user" % i)
        if i % 5 == 0:
            out.append("user:%d\x00" % i)
        if i % 7 == 0:
            out.append("p" * 31 + "%d" % i)
        if i % 11 == 0:
            out.append("q" * 64 + "%d" % i + "q" * 64)
    return list(dict.fromkeys(out))


@scenario("C05", quick=1, thorough=6)
def many_keys(r):
    """Tens of thousands of similar keys at once: none affects another."""
    rng = r.rng
    keys = _similar(rng, 8000 if not r.deep else 60000)
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(6)]
        rng.shuffle(keys)
        B = 300
        for rnd in range(2):
            for i in range(0, len(keys), B * 6):
                for j, c in enumerate(cs):
                    part = keys[i + j * B:i + (j + 1) * B]
                    w.many(c, [("SET", k, "r%d:%s" % (rnd, tok(k))) for k in part])
                w.sync()
            for i in range(0, len(keys), B * 6):
                for j, c in enumerate(cs):
                    part = keys[i + j * B:i + (j + 1) * B]
                    w.many(c, [("GET", k) for k in part])
                w.sync()
        miss = [k + "?" for k in keys[:500]]
        w.many(cs[0], [("GET", k) for k in miss])
        w.sync()
        allk = keys + miss
        G = 400
        r.done(w, groups=[[tok(k) for k in allk[i:i + G]] for i in range(0, len(allk), G)])


@scenario("C05", quick=1, thorough=4)
def storm(r):
    """Every connection writes and reads all the keys, with pipelines, as fast as it can."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(5)]
        keys = ["st%d" % j for j in range(60)]
        for step in range(60 if not r.deep else 300):
            for c in cs:
                reqs = []
                for k in rng.sample(keys, 12):
                    reqs.append(("SET", k, "%d.%d" % (c, step)) if rng.random() < 0.4 else ("GET", k))
                w.many(c, reqs)
            w.sync()
        r.done(w, groups=[[k] for k in keys])


# ---------------------------------------------------------------------------
@scenario("C06", quick=2, thorough=12)
def ttls(r):
    """Many expirations at once, polled from several connections until well after."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(8)]
        for c in cs:  # connections that have already handled expirations
            w.send(c, "SET", "warm%d" % c, "x", "PX", "1")
        w.sync()
        w.sleep(0.03)
        pxs = [0, 1, 2, 3, 4, 5, 7, 10, 15, 20, 30, 50, 75, 100, 150, 200, 300, 400, 600, 800, 999, 1000, 1001, 1200, 1500]
        keys = []
        for i, px in enumerate(pxs):
            k = "px%d" % i
            keys.append(k)
            w.send(cs[i % 8], "SET", k, "v", recase(rng, "px"), rng.choice([str(px), Int(px), Simple(b"%d" % px)]))
        for i, ex in enumerate([0, 1, 1, 2]):
            k = "ex%d" % i
            keys.append(k)
            w.send(cs[i % 8], "SET", k, "v", recase(rng, "ex"), rng.choice([str(ex), Int(ex), Simple(b"%d" % ex)]))
        for i in range(4):
            keys.append("none%d" % i)
            w.send(cs[i], "SET", "none%d" % i, "v")
        end = time.monotonic() + 2.3
        while time.monotonic() < end:
            for k in rng.sample(keys, 12):
                w.send(rng.choice(cs), "GET", k)
            w.sync()
            w.sleep(rng.choice([0.002, 0.005, 0.012]))
        for k in keys:
            w.send(rng.choice(cs), "GET", k)
        w.sync()
        r.done(w, groups=[[k] for k in keys])


@scenario("C06 C05", quick=2, thorough=12)
def overwrites(r):
    """SET again with another expiration or none, before and after the first one passed."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(6)]
        keys = ["ow%d" % i for i in range(50)]
        end = time.monotonic() + (1.6 if not r.deep else 5)
        n = 0
        fresh = {k: rng.random() < 0.5 for k in keys}   # the others are set to the same value again and again

        def val(k):
            return "v%d" % (n if fresh[k] else n % rng.choice([1, 1, 2]))
        while time.monotonic() < end:
            for k in rng.sample(keys, 10):
                n += 1
                c = rng.choice(cs)
                x = rng.random()
                if x < 0.18:
                    w.send(c, "SET", k, val(k), "PX", str(rng.choice([1, 5, 10, 20, 40, 80, 150, 400])))
                elif x < 0.22:
                    w.send(c, "SET", k, val(k))
                elif x < 0.24:
                    w.send(c, "SET", k, val(k), "EX", str(rng.choice([0, 1, 1000])))
                elif x < 0.26:
                    w.send(c, "SET", k, val(k), "PX", rng.choice(["100000", "18446744073709551615"]))
                else:
                    w.send(c, "GET", k)
            if rng.random() < 0.7:
                w.sync()
            w.pump(0.002)
            w.sleep(rng.choice([0, 0.001, 0.004, 0.01]))
        w.sync()
        w.sleep(0.5)
        for k in keys:
            w.send(rng.choice(cs), "GET", k)
        w.sync()
        r.done(w, groups=[[k] for k in keys])


@scenario("C06", quick=1, thorough=4)
def slow_expirations(r):
    """Durations of many seconds, to the millisecond, read by several connections until after they passed."""
    rng = r.rng
    top = 12500 if not r.deep else rng.choice([31000, 62000, 125000])
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(8)]
        keys, due = [], {}
        t0 = time.monotonic()
        pxs = [rng.randrange(1000, top) for _ in range(60)] + [rng.randrange(9900, 12500) for _ in range(40)]
        for i, px in enumerate(pxs):
            k = "sl%d" % i
            keys.append(k)
            w.send(cs[i % 8], "SET", k, "v", "PX", str(px))
            due[k] = px / 1000
        for i in range(1, int(top / 1000)):
            k = "slx%d" % i
            keys.append(k)
            w.send(cs[i % 8], "SET", k, "v", "EX", str(i))
            due[k] = i
        w.sync()
        while time.monotonic() - t0 < top / 1000 + 0.5:
            now = time.monotonic() - t0
            # those that are close, and some others
            for k in [k for k in keys if -0.3 < due[k] - now < 1.1] + rng.sample(keys, 3):
                w.send(rng.choice(cs), "GET", k)
            w.sync()
            w.sleep(0.045)
        for k in keys:
            w.send(rng.choice(cs), "GET", k)
        w.sync()
        r.done(w, groups=[[k] for k in keys])


FARS = ["4294967295", "4294967296", "4294967297", "2147483647", "2147483648", "2147483646", "9223372036854775807", "9223372036854775808",
        "18446744073709551615", "18446744073709551614", "1844674407370955161", "18446744073709551", "18446744073709552", "4294967295000",
        "4294967296000", "4294967300000", "2147483647000", "2147483648000", "1000000000000", "99999999999", "3155760000", "1000000", "1800000000",
        "2200000000", "3000000000", "4000000000", "4294000000", "65536", "65535", "86400", "604800", "31536000", "100000000"]


@scenario("C06 C07", quick=1, thorough=3)
def far(r):
    """Durations up to the largest 64-bit number: they are accepted and never expire early."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        a, b = w.conn(), w.conn()
        fars = FARS + [str(rng.randrange(10 ** 6, 2 ** rng.choice([32, 40, 52, 63, 64]))) for _ in range(60)]
        for i, f in enumerate(fars):
            for u in ("EX", "PX"):
                if u == "PX" and int(f) < 10 ** 6:
                    continue
                w.send(a, "SET", "far%s%d" % (u, i), "v", u, Int(int(f)) if rng.random() < 0.3 else f)
        w.sync()
        for rnd in range(2):
            for i, f in enumerate(fars):
                for u in ("EX", "PX"):
                    w.send(rng.choice([a, b]), "GET", "far%s%d" % (u, i))
            w.sync()
            w.sleep(1.1)
        r.done(w)


@scenario("C06", quick=1, thorough=4)
def idle_then_ttl(r):
    """Old connections, new expirations: the clock the server uses goes on."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(9)]
        for c in cs:
            w.send(c, "SET", "it%d" % c, "v", "PX", "60")
            w.send(c, "GET", "it%d" % c)
        w.sync()
        w.sleep(0.4)
        for rnd in range(3):
            for c in cs:
                w.send(c, "SET", "it%d" % c, "w%d" % rnd, "PX", str(rng.choice([120, 200])))
            w.sync()
            for _ in range(8):
                for c in cs:
                    w.send(rng.choice(cs), "GET", "it%d" % c)
                w.sync()
                w.sleep(0.012)
            w.sleep(0.25)
            for c in cs:
                w.send(c, "GET", "it%d" % c)
            w.sync()
        r.done(w)


@scenario("C06 C05", quick=2, thorough=10)
def expiry_races(r):
    """GETs that find a value just expired race with SETs that replace it."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        ws = [w.conn() for _ in range(3)]
        rs = [w.conn() for _ in range(5)]
        keys = ["er%d" % i for i in range(12)]
        n = 0
        for step in range(150 if not r.deep else 600):
            k = keys[step % 12]
            n += 1
            w.send(ws[0], "SET", k, "t%d" % n, "PX", str(rng.choice([0, 1, 2])))
            w.sync(ws[0])
            w.sleep(rng.choice([0.004, 0.006]))
            # all at once: readers remove the expired value, writers put a new one
            for c in rs[:rng.randrange(1, 5)]:
                w.send(c, "GET", k, flush=False)
            for c in ws[:rng.randrange(1, 3)]:
                n += 1
                w.send(c, "SET", k, "f%d" % n, flush=False)
            for c in rs[3:]:
                w.send(c, "GET", k, flush=False)
            w.sync()
            w.send(rng.choice(rs), "GET", k)
            w.send(rng.choice(ws), "GET", k)
            w.sync()
        r.done(w, groups=[[k] for k in keys])
