"""Scenarios on hostile clients and on rejected requests: C07, C08; and behaviours
generated from the specification: C01 C10 C11 C12."""
import os
import socket
import time

from reqs import *
from resp import Int, Raw, Simple, enc_req
from runner import scenario


def _name(args):
    """INVALID, on keys of its own."""
    return lambda k: tuple(k if x == "ik" else k + "-2" if x == "ik2" else x for x in args)


def _serves(w, good, rng, n=64):
    """Everybody is served: those who were there, and new ones on every worker."""
    for c in good:
        w.send(c, *rng.choice([PING, ID, GETNAME, ("GET", "g%d" % c)]), flush=False)
    cs = [w.conn() for _ in range(n)]
    for c in cs:
        w.send(c, *rng.choice([PING, ID, INFO, GETNAME, ("GET", "g%d" % (good or cs)[0]), ("SET", "gs%d" % (c % 7), "s%d" % c), ("NOSUCH%d" % c,)]), flush=False)
    w.sync()
    for c in cs[:2] + good[:1]:
        w.send(c, *LIST, flush=False)
    w.sync()
    for c in cs:
        w.close(c)


def _good(w, n=40):
    good = [w.conn() for _ in range(n)]
    for c in good:
        w.many(c, [("CLIENT", "SETNAME", "good%d" % c), ("SET", "g%d" % c, "v%d" % c), PING])
    w.sync()
    return good


def offences():
    """(label, what one hostile client does)."""
    out = []

    def off(label, fn):
        out.append((label, fn))

    for k, data in enumerate(JUNK):
        def f(w, rng, data=data):
            c = w.conn()
            w.junk(c, data)
            w.flush(c)
            return c, True
        off("junk %d" % k, f)
    for label, args in INVALID:
        def f(w, rng, args=args):
            c = w.conn()
            w.send(c, *_name(args)("off%d" % c))
            return c, True
        off(label, f)
    for depth in (31, 33, 200, 5000, 100000, 400000):
        for head in (b"*1\r\n", b"%1\r\n+a\r\n", b"*2\r\n:1\r\n", b"%1\r\n"):
            def f(w, rng, depth=depth, head=head):
                c = w.conn()
                w.wild(c)
                w.raw(c, head * depth)
                return c, False
            off("nesting %d of %r" % (depth, head), f)
    for n in ("2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
              "18446744073709551613", "18446744073709551614", "18446744073709551615", "99999999999999", "1152921504606846976",
              "4611686018427387904", "536870912", "100000000"):
        for head in ("*%s\r\n", "$%s\r\n", "%%%s\r\n", "*1\r\n$%s\r\n", "*1\r\n*%s\r\n", "*1\r\n%%%s\r\n", "*%s\r\n$4\r\nPING\r\n",
                     ":%s\r\n", ":-%s\r\n", "*-%s\r\n", "$-%s\r\n"):
            def f(w, rng, n=n, head=head):
                c = w.conn()
                w.wild(c)
                w.raw(c, (head % n).encode())
                w.raw(c, b"a\r\n" * 20)
                return c, False
            off("length %s in %s" % (n, head.strip()), f)

    def rst_now(w, rng):
        c = w.conn()
        w.reset(c)
        return c, False
    off("reset at once", rst_now)

    def vanish(w, rng):
        c = w.conn()
        data = enc_req(("SET", "van%d" % c, "x" * 300))
        w.partial(c, data[:rng.randrange(1, len(data) - 1)])
        w.pump(0)
        rng.choice([w.reset, w.close])(c)
        return c, False
    off("vanish in a request", vanish)

    def vanish_reply(w, rng):
        c = w.conn()
        w.conns[c].paused = True
        w.many(c, [("PING", b"y" * 100000)] * 60)
        w.pump(0.002)
        rng.choice([w.reset, w.close])(c)
        return c, False
    off("vanish in a reply", vanish_reply)

    def never_read(w, rng):
        c = w.conn(rcvbuf=4096)
        w.conns[c].paused = True
        w.many(c, [("PING", b"n" * 200000)] * 20)
        w.pump(0.002)
        return c, False
    off("never reads", never_read)

    def bad_then_flood(w, rng):
        c = w.conn()
        w.conns[c].paused = True
        w.junk(c, b"*x\r\n")
        w.flush(c)
        w.sleep(0.005)
        return c, True
    off("refused and does not read", bad_then_flood)

    def churn(w, rng):
        for _ in range(60):
            s = socket.socket()
            s.settimeout(10)
            try:
                s.connect(w.srv.addr)
                if rng.random() < 0.5:
                    s.send(rng.choice([b"", b"*", enc_req(PING), b"\xff\xff\r\n"]))
            except OSError:
                pass
            s.close()
        # their addresses may still be listed
        return None, False
    off("churn", churn)
    return out


@scenario("C07", quick=2, thorough=12)
def hostile_clients(r):
    """Hostile clients of every kind, one after the other or several at a time, while others work."""
    rng = r.rng
    todo = [o for o in offences() if o[0] != "churn"]
    rng.shuffle(todo)
    with r.server() as s:
        w = r.world(s)
        good = _good(w)
        k = 0
        while k < len(todo):
            n = rng.choice([1, 4, 12, 30])
            bad = []
            for label, fn in todo[k:k + n]:
                w.last_offence = label
                c, ends = fn(w, rng)
                if c is not None:
                    bad.append((c, ends))
                if rng.random() < 0.3:
                    w.send(rng.choice(good), *rng.choice([PING, LIST, ("GET", "g%d" % rng.choice(good))]))
            k += n
            for c in rng.sample(good, 12):
                w.send(c, *rng.choice([PING, INFO, GETNAME, ("GET", "g%d" % c)]), flush=False)
            w.sync(*good)
            for c, ends in bad:
                cc = w.conns[c]
                if ends and not cc.closed:
                    cc.paused = False
                    if rng.random() < 0.7:
                        w.await_eof(c)
                if not cc.eof and not cc.closed:
                    rng.choice([w.close, w.reset])(c)
            if w.dead:
                break
        _serves(w, good, rng)
        r.done(w)


@scenario("C07 C16", quick=2, thorough=8)
def never_reading(r):
    """Clients that do not read their replies, many of them on every worker, and one who reads at last."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        good = _good(w, 32)
        bad = []
        for _ in range(40):
            c = w.conn(rcvbuf=4096)
            w.conns[c].paused = True
            w.many(c, [("PING", b"n" * 150000)] * 8 + [PING])
            bad.append(c)
        w.sleep(0.2)
        for rnd in range(3):
            for c in good:
                w.send(c, *rng.choice([PING, LIST, GETNAME, ("GET", "g%d" % c)]), flush=False)
            w.sync(*good)
        for c in bad[:8]:
            w.conns[c].paused = False
        w.sync(*bad[:8])
        for c in bad[8:]:
            rng.choice([w.close, w.reset])(c)
        _serves_then_fds(w, good, rng)
        r.done(w)


def _serves_then_fds(w, good, rng):
    _serves(w, good, rng)
    w.check_fds()


@scenario("C07 C16", quick=2, thorough=6)
def descriptors(r):
    """Clients take all the descriptors of the server; those who were there go on, and
    once some leave new ones are served by every worker."""
    rng = r.rng
    import sut
    with r.server(nofile=220) as s:
        w = r.world(s)
        good = _good(w, 24)
        hogs = []
        for rnd in range(2):
            # more than it can take: the rest waits in the backlog
            for _ in range(260):
                hogs.append(_hog(w))
            end = time.monotonic() + (0.4 if rnd else rng.choice([3.0, 5.0]))
            while time.monotonic() < end:
                for c in rng.sample(good, 6):
                    w.send(c, *rng.choice([PING, GETNAME, ("GET", "g%d" % c)]))
                w.sync(*good)
                w.sleep(0.02)
            for h in hogs:
                h.close()
            hogs = []
            # the workers come back to accepting
            w.sleep(0.3)
            for c in good:
                w.send(c, *PING, flush=False)
            w.sync()
            _serves(w, good, rng, 48)
            if w.dead:
                break
        w.check_fds()
        r.done(w)


def _hog(w):
    s = socket.socket()
    s.setblocking(False)
    try:
        s.connect(w.srv.addr)
    except OSError:
        pass
    return s


@scenario("C07", quick=2, thorough=8)
def churn(r):
    """Hundreds of connections that come and go at once, saying nothing, half a request, a request or junk."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        good = _good(w, 32)
        for rnd in range(6 if not r.deep else 30):
            socks = []
            for _ in range(120):
                t = _hog(w)
                socks.append(t)
            for t in socks:
                try:
                    t.send(rng.choice([b"", b"*", b"*1\r\n$4\r\nPI", enc_req(PING), b"\xff\xff\r\n", enc_req(("GET",)), b"*1\r\n" * 50]))
                except OSError:
                    pass
            rng.shuffle(socks)
            for t in socks:
                if rng.random() < 0.4:
                    from sut import linger_reset
                    linger_reset(t)
                else:
                    t.close()
            for c in good:
                w.send(c, *rng.choice([PING, GETNAME, ("GET", "g%d" % c), ID]), flush=False)
            w.sync(*good)
            _serves(w, good, rng, 24)
        w.check_fds()
        r.done(w)


@scenario("C07 C08", quick=2, thorough=8)
def refusals_everywhere(r):
    """Refused connections on every worker at the same time, then everybody is served."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        good = _good(w, 32)
        for rnd in range(3 if not r.deep else 12):
            bad = [w.conn() for _ in range(80)]
            for c in bad:
                if rng.random() < 0.5:
                    w.many(c, [PING] * rng.randrange(3))
                if rng.random() < 0.4:
                    w.junk(c, rng.choice(JUNK))
                else:
                    w.send(c, *_name(rng.choice(INVALID)[1])("rf%d" % c))
                if rng.random() < 0.3:
                    w.send(c, *PING)
            w.await_eof(*bad)
            _serves(w, good, rng, 64)
        w.check_fds()
        r.done(w)


@scenario("C07", quick=1, thorough=4)
def extreme_requests(r):
    """Accepted requests of extreme sizes on connections that stay, while witnesses on every worker go on."""
    rng = r.rng
    sizes = [255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536]
    with r.server() as s:
        w = r.world(s)
        good = _good(w, 32)
        odd = []
        for rnd in range(6 if not r.deep else 20):
            for n in rng.sample(sizes, 8):
                x = rng.choice("abz~") * (n - 1) + "!"
                c = w.conn()
                odd.append(c)
                kind = rng.randrange(6)
                w.many(c, {0: [("CLIENT", "SETNAME", x), GETNAME, INFO],
                           1: [("NO" + x,), ("CLIENT", x), ("ACL", x, x)],
                           2: [("SET", x, x), ("GET", x)],
                           3: [("PING", x)] * 3,
                           4: [("CLIENT", "LIST", "ID") + tuple(str(rng.randrange(2 ** 40)) for _ in range(min(n, 5000))), PING],
                           5: [("CLIENT", "SETINFO", "lib-name", x), ("SET", "e%d" % c, x, "PX", str(2 ** 63 + n)), ("GET", "e%d" % c)]}[kind])
                for g in good:
                    w.send(g, *rng.choice([PING, GETNAME, ("GET", "g%d" % g)]), flush=False)
                w.sync()
                if kind == 0:
                    w.call(c, "CLIENT", "SETNAME", rng.choice(["", "short"]))
            w.send(good[rnd], *LIST)
            w.sync()
            for c in [c for c in odd if rng.random() < 0.5]:
                odd.remove(c)
                rng.choice([w.close, w.reset])(c)
            _serves(w, good, rng, 32)
        r.done(w)


@scenario("C07", quick=1, thorough=4)
def hostile_requests(r):
    """Hostile texts in every position of every command and requests of every shape, while witnesses on every worker go on."""
    import scen_enum
    from scen_stream import _positions
    rng = r.rng
    todo = []
    for h in HOSTILE + NOT_UTF8:
        todo += _positions(h)
        if b"\r" not in h and b"\n" not in h and is_utf8(h):
            todo += rng.sample(_positions(Simple(h)), 6)
    todo += [scen_enum.concrete(rng, v["q"], "hk") for v in scen_enum.enumerated("ShapesSpec", False) if v["op"] == "reject"]
    rng.shuffle(todo)
    todo = todo if r.deep else todo[:3600]
    for i in range(0, len(todo), 900):
        with r.server() as s:
            w = r.world(s, str(i))
            good = _good(w)
            for j in range(i, min(i + 900, len(todo)), 45):
                cs = []
                for q in todo[j:j + 45]:
                    c = w.conn()
                    w.many(c, [tuple("hk%d-%d" % (i, c) if x == "hk" else x for x in q), PING])
                    cs.append(c)
                for c in good:
                    w.send(c, *rng.choice([PING, GETNAME, ("GET", "g%d" % c)]), flush=False)
                w.sync()
                for c in cs:
                    w.close(c)
                if w.dead:
                    break
            _serves(w, good, rng)
            dead = w.dead
            r.done(w)
            if dead:
                break


# ---------------------------------------------------------------------------
def _refused(w, rng, mon, cases, glued=None):
    """Pipelines with a refused request among accepted ones, several at a time.
    glued: so many requests before it in the same segment, and nothing after."""
    cs = []
    for label, bad in cases:
        c = w.conn()
        k = "rk%d" % c
        before = []
        for _ in range(rng.choice([0, 1, 1, 2, 5, 20]) if glued is None else glued):
            before.append(rng.choice([("SET", k, "b%d" % rng.randrange(99)), ("GET", k), PING, ("PING", "p"), ID,
                                      ("CLIENT", "SETNAME", "nm%d" % c), GETNAME]))
        after = []
        for _ in range(rng.choice([0, 1, 2, 3, 10]) if glued is None else 0):
            after.append(rng.choice([("SET", k, "after"), ("SET", k + "-3", "after"), ("GET", k), PING,
                                     ("CLIENT", "SETNAME", "after%d" % c), ID]))
        if rng.random() < 0.5:
            w.send(mon, "SET", k, "was")
            w.sync(mon)
        parts = w.chunks(c, before)
        if isinstance(bad, bytes):
            w.requests += 1
            parts.append((bad, {"e": "junk", "c": c}))
        else:
            parts += w.chunks(c, [_name(bad)(k)])
        # what follows bytes that are not the protocol is not a request any more
        parts += w.chunks(c, after) if not isinstance(bad, bytes) else [(b"".join(enc_req(a) for a in after), None)]
        parts = [p for p in parts if p[0]]
        if rng.random() < 0.6 or glued is not None:
            w.push(c, b"".join(b for b, _ in parts), [e for _, e in parts if e])
        else:
            for b, e in parts:
                w.push(c, b, [e] if e else [], delay=rng.choice([0, 0, 0.001]))
        if rng.random() < 0.2:
            w.half(c)
        cs.append(c)
    w.await_eof(*cs)
    w.gone(mon, *cs)
    for c in cs:
        k = "rk%d" % c
        for x in (k, k + "-2", k + "-3"):
            w.send(mon, "GET", x, flush=False)
    w.send(mon, *LIST)
    w.sync(mon)


@scenario("C08", quick=3, thorough=30)
def refused(r):
    """Every refused request and every malformed text, anywhere in a pipeline."""
    rng = r.rng
    cases = list(INVALID) + [("junk", j) for j in JUNK]
    rng.shuffle(cases)
    with r.server() as s:
        w = r.world(s)
        mon = w.conn()
        w.call(mon, *PING)
        for i in range(0, len(cases), 10):
            _refused(w, rng, mon, cases[i:i + 10])
            if w.dead:
                break
        r.done(w)


@scenario("C08", quick=1, thorough=4)
def refused_last(r):
    """Every refused request and malformed text as the last bytes of a segment, with nothing before or with requests
    before it."""
    rng = r.rng
    cases = list(INVALID) + [("junk", j) for j in JUNK]
    with r.server() as s:
        w = r.world(s)
        mon = w.conn()
        w.call(mon, *PING)
        for glued in (1, rng.choice([0, 2, 7, 40])):
            rng.shuffle(cases)
            for i in range(0, len(cases), 25):
                _refused(w, rng, mon, cases[i:i + 25], glued)
                if w.dead:
                    break
        r.done(w)


@scenario("C08", quick=2, thorough=16)
def refused_mutants(r):
    """Accepted requests with one argument too many, too few or of another type."""
    rng = r.rng
    base = [("PING",), ("PING", "x"), ("GET", "ik"), ("SET", "ik", "bad"), ("SET", "ik", "bad", "EX", "10"),
            ("SET", "ik", "bad", "PX", "5000"), ("HELLO",), ("CLIENT", "ID"), ("CLIENT", "INFO"), ("CLIENT", "GETNAME"),
            ("CLIENT", "SETNAME", "bad"), ("CLIENT", "LIST"), ("CLIENT", "LIST", "ID", "1"), ("CLIENT", "HELP"),
            ("CLIENT", "LIST", "TYPE", "normal"), ("CLIENT", "SETINFO", "LIB-NAME", "x"), ("ACL", "CAT"), ("ACL", "CAT", "x")]
    odd = [Int(3), Raw(b"$-1\r\n"), Raw(b"*0\r\n"), Raw(b"*1\r\n:1\r\n"), Raw(b"%0\r\n"), Raw(b"-ERR\r\n"), b"\xff\xfe", "", "zz", "NX",
           Simple(b"ok"), "5", "-5"]
    with r.server() as s:
        w = r.world(s)
        mon = w.conn()
        w.call(mon, *PING)
        for rnd in range(14 if not r.deep else 60):
            cases = []
            while len(cases) < 10:
                q = list(rng.choice(base))
                x = rng.random()
                if x < 0.4:
                    q.append(rng.choice(odd))
                elif x < 0.7:
                    q[rng.randrange(len(q))] = rng.choice(odd)
                elif x < 0.85 and len(q) > 1:
                    q.pop()
                else:
                    q.insert(rng.randrange(1, len(q) + 1), rng.choice(odd))
                cases.append(("mutant", tuple(q)))
            _maybe_refused(w, rng, mon, cases)
            if w.dead:
                break
        r.done(w)


def _maybe_refused(w, rng, mon, cases):
    """As _refused, when it is for the specification to say which ones are refused:
    the connection either answers all or ends."""
    cs = []
    for label, q in cases:
        c = w.conn()
        k = "mk%d" % c
        w.send(mon, "SET", k, "was")
        w.many(c, [("GET", k), _name(q)(k), ("PING", "end")])
        cs.append(c)
    w.sync(mon)
    w.wait(lambda: all(w.settled(w.conns[c]) for c in cs))
    w.sync(*cs)
    for c in cs:
        w.close(c)
    w.gone(mon, *cs)
    for c in cs:
        w.send(mon, "GET", "mk%d" % c, flush=False)
    w.sync(mon)
