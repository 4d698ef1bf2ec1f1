"""Scenarios on replies and streams: C01 C02 C03 C04."""
import os

import time

from reqs import *
from resp import Int, Raw, Simple, enc_req
from runner import scenario


def _light(rng, key):
    x = rng.random()
    if x < 0.4:
        return PING
    if x < 0.8:
        return ("PING", "m%d" % rng.randrange(10 ** 6))
    return valid(rng, key, light=True)


@scenario("C01", quick=2, thorough=10)
def pipelines(r):
    """Deep pipelines in one write, on many connections at once; half of them half-close at once."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        mon = w.conn()
        depths = [1, 2, 3, 7, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400]
        rng.shuffle(depths)
        for i in range(0, len(depths), 5):
            cs = []
            for d in depths[i:i + 5]:
                c = w.conn()
                cs.append(c)
                keys = ["p%d-%d" % (c, j) for j in range(5)]
                w.many(c, [valid(rng, lambda: rng.choice(keys), True) for _ in range(d)])
            w.call(mon, *LIST)
            for c in cs[::2]:
                w.half(c)
            w.sync()
            w.await_eof(*cs[::2])
        r.done(w)
        w = r.world(s, "deep")
        for d in (1000, 1023, 1024, 1025, 2500 if not r.deep else 5000):
            c = w.conn()
            w.many(c, [PING if rng.random() < 0.3 else ("PING", "d%d" % j) for j in range(d)])
            if rng.random() < 0.7:
                w.half(c)
                w.await_eof(c)
            w.sync(c)
        r.done(w)


@scenario("C01 C02", quick=1, thorough=4)
def alone(r):
    """Every kind of request alone, so that nothing that comes later can bring its reply about."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        cs = []
        sizes = [0, 1, 2, 62, 63, 64, 65, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 100000]
        for k in range(24):
            cs.append(w.conn())
            w.call(cs[-1], *PING)
            w.call(rng.choice(cs), *LIST)
            n = sizes[k % len(sizes)] + rng.choice([0, 0, -1, 3]) * (sizes[k % len(sizes)] > 100)
            v = bytes([65 + k]) * n
            jobs = [HELLO, ID, INFO, GETNAME, ("CLIENT", "SETNAME", "al%d" % k), GETNAME, INFO, ("CLIENT", "SETINFO", "LIB-NAME", "x"), ("CLIENT", "HELP"), ("ACL", "CAT"),
                    ("SET", "al%d" % k, v), ("GET", "al%d" % k), ("GET", "none%d" % k), ("PING", v), ("NOSUCH%d" % k, v), ("CLIENT", "NOPE%d" % k), ("SET", "px%d" % k, v, "PX", "90000"),
                    ("CLIENT", "SETNAME", ""), ("CLIENT", "SETNAME", "a b")] + [("CLIENT", "LIST", "ID", *[str(j) for j in range(m)]) for m in (1, k // 2 + 1, k + 1)]
            for q in rng.sample(jobs, len(jobs)):
                w.call(rng.choice([cs[-1], rng.choice(cs)]), *q)
        r.done(w)


@scenario("C01 C05", quick=2, thorough=20)
def mixed(r):
    """Many connections, small pipelines, replies read whenever they come."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        cs = []
        for step in range(120 if not r.deep else 400):
            x = rng.random()
            live = [c for c in cs if not w.conns[c].closed and not w.conns[c].half and not w.conns[c].eof]
            if (x < 0.15 and len(live) < 30) or not live:
                cs.append(w.conn())
            elif x < 0.85:
                c = rng.choice(live)
                keys = ["k%d-%d" % (c, j) for j in range(3)]
                w.many(c, [valid(rng, lambda: rng.choice(keys)) for _ in range(rng.choice([1, 1, 2, 3, 8, 20]))])
            elif x < 0.91:
                w.half(rng.choice(live))
            elif x < 0.94:
                w.close(rng.choice(live))
            else:
                w.sync()
            w.pump(rng.choice([0, 0, 0.001, 0.003]))
        halves = [c for c in cs if w.conns[c].half]
        w.sync()
        w.await_eof(*halves)
        r.done(w)


@scenario("C01 C03 C07", quick=1, thorough=6)
def paused_readers(r):
    """Clients that do not read for a while get everything later, in order; others are not delayed."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        lazy = []
        for k in range(4):
            c = w.conn(rcvbuf=4096)
            w.conns[c].paused = True
            body = bytes([65 + k]) * rng.choice([2000, 8190, 20000, 65536])
            w.many(c, [("PING", body[:len(body) - j % 50] + b"%d" % j) for j in range(150)] + [PING, ID])
            lazy.append(c)
        busy = [w.conn() for _ in range(16)]
        for j in range(10):
            for c in busy:
                w.many(c, [PING, ("PING", "b%d" % j), ID])
            w.sync(*busy)
        for c in lazy[:2]:
            w.conns[c].paused = False
        w.sync(*lazy[:2])
        for c in lazy[2:]:
            w.conns[c].paused = False
            w.half(c)
        w.sync()
        w.await_eof(*lazy[2:])
        r.done(w)


@scenario("C01", quick=1, thorough=4)
def half_then_wait(r):
    """Clients that stop sending and only much later start to read: every reply is still there, then the end."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        waits = [0.1, 0.3, 0.7, 1.3, 2.6, 5.5] if not r.deep else [1, 3, 7, 12, 25, 40, 65]
        lazy = []
        for k, t in enumerate(waits * 2):
            c = w.conn(rcvbuf=rng.choice([4096, 32768]))
            w.conns[c].paused = True
            body = bytes([97 + k % 26]) * rng.choice([40000, 65536, 200000])
            w.many(c, [("SET", "hw%d" % c, body), PING] + [("GET", "hw%d" % c)] * rng.choice([40, 80]) + [PING, ID, ("NOSUCH",)])
            w.half(c)
            lazy.append((t, c))
        busy = [w.conn() for _ in range(8)]
        t0 = time.monotonic()
        for t, c in sorted(lazy):
            while time.monotonic() - t0 < t:
                for b in busy:
                    w.send(b, *PING)
                w.sync(*busy)
                w.sleep(0.1)
            w.conns[c].paused = False
            w.await_eof(c)
        w.check_fds()
        r.done(w)


@scenario("C01 C16", quick=1, thorough=6)
def short_lived(r):
    """Connections that send their requests, half-close at once and must get all the replies."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        for rnd in range(25 if not r.deep else 100):
            cs = []
            for _ in range(16):
                c = w.conn()
                keys = ["s%d" % c]
                w.many(c, [_light(rng, lambda: keys[0]) for _ in range(rng.choice([0, 1, 1, 2, 3, 10, 40]))])
                w.half(c)
                cs.append(c)
            w.await_eof(*cs)
        w.check_fds()
        r.done(w)


# ---------------------------------------------------------------------------
def _streams(rng, tag):
    k = "c2%s" % tag
    return [
        [PING],
        [("PING", "hello"), ("SET", k, "value"), ("GET", k)],
        [("SET", k, b"a\r\nb$3\r\n*1\r\n"), ("GET", k), PING],
        [(Simple(b"set"), Simple(k.encode()), Simple(b"v"), Simple(b"px"), Int(50000)), (Simple(b"GET"), k)],
        [("SET", k, "", "EX", "1000"), ("GET", k), ("PING", "")],
        [ID, GETNAME, ("CLIENT", "SETNAME", "nm" + tag), GETNAME, ("FLY", "a"), PING],
        [("UNKNOWN", Int(5), Raw(b"*2\r\n$1\r\na\r\n%1\r\n+x\r\n:1\r\n"), Raw(b"$-1\r\n"), Raw(b"-ERR\r\n")), PING],
        [("PING", b"0123456789" * 12), ("SET", k, b"\x00\xff\r\n" * 5), ("GET", k)],
        [("CLIENT", "LIST", "ID", "999999", Int(888888)), ("CLIENT", "SETINFO", "LIB-NAME", "x"), PING],
    ]


@scenario("C02", quick=1, thorough=2)
def single_cuts(r):
    """Every way to cut the stream in two."""
    rng = r.rng
    with r.server() as s:
        for si in range(len(_streams(rng, "x"))):
            w = r.world(s, "stream %d" % si)
            L = len(b"".join(enc_req(q) for q in _streams(rng, "%04d" % 0)[si]))
            cuts = list(range(1, L))
            for i in range(0, len(cuts), 100):
                cs = []
                for cut in cuts[i:i + 100]:
                    c = w.conn()
                    w.send_stream(c, _streams(rng, "%04d" % (c % 10000))[si], [cut], delay=0.004)
                    cs.append(c)
                w.sync()
                for c in cs:
                    w.close(c)
            r.done(w)


@scenario("C02 C14", quick=1, thorough=6)
def byte_by_byte(r):
    """One byte per segment, and random fine cuts."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        n = len(_streams(rng, "x"))
        for rnd in range(4 if not r.deep else 12):
            for si in range(n):
                c = w.conn()
                reqs = _streams(rng, "%04d" % c)[si]
                L = len(b"".join(enc_req(q) for q in reqs))
                if rnd == 0:
                    cuts = list(range(1, L))
                else:
                    cuts = sorted(rng.sample(range(1, L), max(1, min(L - 1, rng.choice([2, 3, 5, 9, L // 3])))))
                w.send_stream(c, reqs, cuts, delay=rng.choice([0.0006, 0.0015, 0.004]))
            w.sync()
        r.done(w)


@scenario("C02 C03", quick=1, thorough=4)
def boundaries(r):
    """Requests that straddle the sizes at which the server's buffers fill up or grow."""
    rng = r.rng
    with r.server() as s:
        for B in (1024, 4096, 8192, 12288, 16384):
            w = r.world(s, str(B))
            cs = []
            for d in range(-9, 10):
                for style in range(3):
                    c = w.conn()
                    # a message such that the next request starts at B + d
                    over = len(enc_req(("PING", b"x" * (B - 40)))) - (B - 40)
                    pad = b"P" * (B + d - over)
                    reqs = [("PING", pad), ("SET", "bd%d-%d" % (B, c), "v%d" % c), ("GET", "bd%d-%d" % (B, c)), PING]
                    cuts = [] if style == 0 else [B] if style == 1 else [rng.randrange(1, B), B, B + rng.randrange(1, 30)]
                    w.send_stream(c, reqs, cuts, delay=0.004)
                    cs.append(c)
                if len(cs) > 40:
                    w.sync()
                    for c in cs:
                        w.close(c)
                    cs = []
            w.sync()
            r.done(w)


@scenario("C02 C01", quick=1, thorough=4)
def withheld(r):
    """A request is answered although the next one has only begun."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(40)]
        plan = {}
        for c in cs:
            n = rng.randrange(2, 6)
            keys = ["w%d" % c]
            plan[c] = w.chunks(c, [_light(rng, lambda: keys[0]) for _ in range(n)])
        for step in range(6):
            nxt = {}
            for c in cs:
                if step < len(plan[c]):
                    data, ev = plan[c][step]
                    rest = b""
                    tail = plan[c][step + 1] if step + 1 < len(plan[c]) else None
                    k = rng.randrange(0, len(tail[0])) if tail else 0
                    if tail:
                        rest = tail[0][:k]
                        plan[c][step + 1] = (tail[0][k:], tail[1])
                    w.push(c, data + rest, [ev])
            w.sync()
        r.done(w)


# requests that end with the smallest frames there are
SMALL_ENDS = [("PING", Simple(b"")), ("PING", ""), ("PING", Simple(b"a")), ("GET", Simple(b"")), ("GET", ""), ("GET", Simple(b"k")), (Simple(b"PING"),),
              ("SET", "small", Simple(b"")), ("SET", "small", ""), ("SET", "small", Simple(b"v")), (Simple(b""),), ("",), (Simple(b"a"),),
              ("SET", "small", "v", "EX", Int(9)), ("CLIENT", "SETNAME", Simple(b"")), ("CLIENT", "SETNAME", ""), ("CLIENT", "LIST", "ID", Int(0)),
              ("CLIENT",), ("ACL", "CAT", Simple(b"")), ("NOSUCH", Simple(b"")), ("NOSUCH", Raw(b"-\r\n")), ("NOSUCH", Int(0)), ("NOSUCH", Raw(b"*0\r\n")),
              ("NOSUCH", Raw(b"%0\r\n")), ("NOSUCH", Raw(b"$-1\r\n")), ("NOSUCH", Raw(b"*1\r\n+\r\n")), ("CLIENT", "NOSUCH", Simple(b""))]


@scenario("C02", quick=1, thorough=4)
def small_ends(r):
    """A request whose last frame is very small is answered although nothing comes after it."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        pipes = [w.conn() for _ in range(6)]
        for q in SMALL_ENDS:
            a, b, d = w.conn(), w.conn(), w.conn()
            w.send(a, *q)
            L = len(enc_req(q))
            w.send(b, *q, cuts=[L - k for k in (3, 2, 1)], delay=0.004)
            w.many(d, [_light(rng, lambda: "small%d" % d) for _ in range(3)] + [q])
            for c in pipes:
                w.many(c, rng.sample(SMALL_ENDS, 3) + [q])
            w.sync()
            for c in (a, b, d):
                w.close(c)
        r.done(w)


@scenario("C02 C07", quick=1, thorough=4)
def big_in_pieces(r):
    """Large values arriving in many pieces of odd sizes."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        sizes = [1000, 4090, 5000, 9000, 30000, 100000, 300000]
        for size in sizes:
            c = w.conn()
            k = "big%d" % c
            val = os.urandom(size)
            reqs = [PING, ("SET", k, val), ("GET", k), ("PING", val[:7000]), PING]
            L = len(b"".join(enc_req(q) for q in reqs))
            step = max(1, L // rng.choice([7, 23, 60]))
            cuts = [min(L - 1, x + rng.randrange(0, 50)) for x in range(step, L, step)]
            w.send_stream(c, reqs, cuts, delay=0.002)
        w.sync()
        r.done(w)


# ---------------------------------------------------------------------------
def content(rng, n):
    x = rng.randrange(7)
    if x == 0:
        return rng.randbytes(n)
    if x == 1:
        return (b"\r\n" * (n // 2 + 1))[:n]
    if x == 2:
        return b"\x00" * n
    if x == 3:
        return (b"$5\r\nhello\r\n*1\r\n+OK\r\n" * (n // 20 + 1))[:n]
    if x == 4:
        return b"\xff" * n
    if x == 5:
        return bytes(rng.choice(b"abcdefghij") for _ in range(min(n, 2000))) * (n // 2000 + 1) if n > 2000 else \
            bytes(rng.choice(b"abcdefghij") for _ in range(n))
    return (bytes(range(256)) * (n // 256 + 1))[:n]


@scenario("C03", quick=1, thorough=2)
def sizes(r):
    """Every small size, and the sizes around the powers of two."""
    rng = r.rng
    todo = list(range(0, 300 if not r.deep else 1200))
    for p in range(9, 18 if not r.deep else 23):
        todo += [2 ** p + d for d in range(-24, 4)]
    todo += [10 ** p + d for p in (3, 4, 5) for d in (-1, 0, 1)]
    with r.server() as s:
        for i in range(0, len(todo), 60):
            w = r.world(s, str(i))
            a, b = w.conn(), w.conn()
            for n in todo[i:i + 60]:
                v = content(rng, n)
                k = "sz%d" % n
                w.send(a, "SET", k, v)
                w.send(a, "PING", v)
                w.sync(a)
                w.send(b, "GET", k)
            w.sync()
            r.done(w)


@scenario("C03 C04", quick=1, thorough=4)
def contents(r):
    """Values and messages of every byte and of hostile texts, as stored and as echoed."""
    rng = r.rng
    todo = [bytes([x]) for x in range(256)] + HOSTILE + NOT_UTF8 + [rng.randbytes(rng.randrange(1, 60)) for _ in range(60)]
    with r.server() as s:
        for i in range(0, len(todo), 60):
            w = r.world(s, str(i))
            a, b, c = w.conn(), w.conn(), w.conn()
            for j, v in enumerate(todo[i:i + 60]):
                k = "ct%d" % j
                w.send(a, "SET", k, v)
                w.send(c, "PING", v)
                if b"\r" not in v and b"\n" not in v and is_utf8(v):
                    w.send(c, "PING", Simple(v))
                    w.send(a, "SET", "s" + k, Simple(v))
                    w.send(a, "GET", "s" + k)
                w.sync(a)
                w.send(b, "GET", k)
            w.sync()
            r.done(w)


@scenario("C03", quick=1, thorough=4)
def megabytes(r):
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        a, b = w.conn(), w.conn()
        for n in (1 << 20, (1 << 20) + 1, 3 * 10 ** 6, 9 * 10 ** 6, (1 << 24) + 7, 40 * 10 ** 6, (1 << 26) + 5) + ((150 * 10 ** 6, (1 << 28) + 1, 500 * 10 ** 6) if r.deep else ()):
            v = content(rng, n)
            w.send(a, "SET", "mb", v)
            w.sync(a)
            w.send(b, "GET", "mb")
            w.send(b, "PING")
            w.sync(b)
            w.send(a, "PING", v)
            w.sync(a)
        r.done(w)


@scenario("C03", quick=1, thorough=4)
def slow_readers(r):
    """Replies back up: small receive buffers, clients that read little by little or not for a while."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        a = w.conn()
        v = content(rng, 300000)
        u = content(rng, 8189)
        w.send(a, "SET", "sl", v)
        w.send(a, "SET", "su", u)
        w.sync(a)
        cs = []
        for k in range(6):
            c = w.conn(rcvbuf=rng.choice([2048, 4096, 16384]), slow=(rng.choice([1500, 8192, 30000]), 0.001))
            if k % 3 == 2:
                w.conns[c].paused = True
            w.many(c, [("GET", "sl"), PING, ("GET", "su"), ("GET", "nope"), ID, ("GET", "sl"), ("PING", u[:k * 1000 + 3])])
            cs.append(c)
        # many replies of one buffer each to clients that do not read
        for k in range(3):
            c = w.conn(rcvbuf=4096)
            w.conns[c].paused = True
            w.many(c, [("GET", "su")] * 400 + [PING])
            cs.append(c)
        w.sleep(0.8)
        for c in cs:
            w.conns[c].paused = False
        w.sync()
        r.done(w)


@scenario("C03 C01", quick=1, thorough=3)
def large_pipelined(r):
    """Many large replies pipelined on several connections at once."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        a = w.conn()
        vals = [content(rng, rng.choice([8180, 8185, 8186, 8190, 8192, 8193, 16384, 30000, 70000])) for _ in range(10)]
        for i, v in enumerate(vals):
            w.send(a, "SET", "lp%d" % i, v)
        w.sync()
        cs = [w.conn() for _ in range(6)]
        for c in cs:
            w.many(c, [("GET", "lp%d" % rng.randrange(10)) if rng.random() < 0.8 else PING for _ in range(60)])
        w.sync()
        # large lists too
        for j in range(60):
            c = w.conn()
            w.send(c, "CLIENT", "SETNAME", "x" * 150 + str(j))
        w.sync()
        w.many(a, [LIST] * 3)
        w.sync()
        r.done(w)


# ---------------------------------------------------------------------------
def _positions(h, key="hk"):
    """Requests with the hostile text h in every position."""
    out = [
        (h,), (h, "x"), ("x" + "y", h), ("CLIENT", h), ("CLIENT", h, "x"), ("ACL", h), ("GET", h), ("PING", h),
        ("SET", h, "v"), ("SET", key, h), ("SET", key, "v", h, "10"), ("SET", key, "v", "EX", h), ("SET", key, "v", "PX", h),
        ("CLIENT", "SETNAME", h), ("CLIENT", "SETINFO", h, "v"), ("CLIENT", "SETINFO", "LIB-NAME", h),
        ("CLIENT", "LIST", h), ("CLIENT", "LIST", "TYPE", h), ("CLIENT", "LIST", "ID", h), ("HELLO", h),
        ("ACL", "CAT", h), ("CLIENT", "GETNAME", h), ("UNKNOWN", h, h),
    ]
    return out


@scenario("C04", quick=1, thorough=1)
def hostile(r):
    """Hostile texts in every position of every command; afterwards the connection and the lists are in order."""
    rng = r.rng
    texts = list(HOSTILE) + NOT_UTF8
    with r.server() as s:
        for hi, h in enumerate(texts):
            w = r.world(s, repr(h[:30]))
            mon = w.conn()
            cs = []
            key = "hk%d" % hi
            pos = _positions(h, key)
            simple = b"\r" not in h and b"\n" not in h and is_utf8(h)
            if simple:
                pos = pos + _positions(Simple(h), key)
            if not r.deep and hi > 25:
                pos = rng.sample(pos, 8)
            for q in pos:
                c = w.conn()
                cs.append(c)
                w.many(c, [q, PING, INFO, GETNAME, ("PING", "after")])
            w.sync()
            w.call(mon, *LIST)
            w.send(mon, "GET", key)
            w.sync()
            r.done(w)


@scenario("C04 C07 C14", quick=2, thorough=12)
def mutated(r):
    """Mutated streams: whatever they mean, every reply is well formed and nobody else is affected."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        good = [w.conn() for _ in range(6)]
        for c in good:
            w.send(c, "CLIENT", "SETNAME", "good%d" % c)
            w.send(c, "SET", "good%d" % c, "v")
        w.sync()
        seedreqs = []
        for h in HOSTILE[:20]:
            seedreqs += _positions(h)
        for rnd in range(12 if not r.deep else 60):
            cs = []
            for _ in range(20):
                c = w.conn()
                w.wild(c)
                data = b""
                for _ in range(rng.randrange(1, 6)):
                    q = rng.choice(seedreqs)
                    # keys of their own: these streams may set anything
                    data += enc_req(tuple("wild-hk" if x == "hk" else x for x in q))
                b = bytearray(data)
                for _ in range(rng.choice([0, 1, 1, 2, 4, 9])):
                    p = rng.randrange(len(b))
                    x = rng.randrange(6)
                    if x == 0:
                        b[p] = rng.randrange(256)
                    elif x == 1:
                        del b[p:p + rng.randrange(1, 5)]
                    elif x == 2:
                        b[p:p] = rng.choice([b"\r\n", b"\r", b"\n", b"*", b"$", b"%", b":", b"+", b"-", b"-1", b"99999", b"\x00"])
                    elif x == 3:
                        b[p:p] = b[max(0, p - 10):p]
                    elif x == 4:
                        del b[p:]
                    else:
                        b[p] ^= 1 << rng.randrange(8)
                    if not b:
                        b = bytearray(b"*")
                w.raw(c, bytes(b))
                cs.append(c)
            for c in good:
                w.send(c, *rng.choice([PING, INFO, GETNAME, ("GET", "good%d" % c)]))
            w.sync(*good)
            for c in cs:
                rng.choice([w.close, w.reset, w.half, w.close])(c)
        w.call(good[0], *LIST)
        w.sync(*good)
        r.done(w)
