"""Scenarios on quantities: long lives, many connections over time, many at once, long
names and keys, many arguments, idleness."""
import select
import socket
import time

from reqs import *
from resp import Int, Simple, enc_req, tok
from runner import scenario
from sut import linger_reset


def burn(w, n, batch=150, request=b"", read=False):
    """n connections nobody records: they come, say something and vanish.

    Their addresses are announced, since they may be listed for a while."""
    addrs = []
    done = 0
    while done < n:
        k = min(batch, n - done)
        socks = []
        for _ in range(k):
            s = socket.socket()
            s.settimeout(20)
            try:
                s.connect(w.srv.addr)
                addrs.append("%s:%d" % s.getsockname())
                if request:
                    s.sendall(request)
            except OSError:
                pass
            socks.append(s)
        if read and request:
            for s in socks:
                try:
                    s.recv(4096)
                except OSError:
                    pass
        for s in socks:
            linger_reset(s)
        done += k
    return addrs


def pour(w, reqs, chunk=2000):
    """Many requests on a connection nobody records; waits until all are answered."""
    s = socket.create_connection(w.srv.addr, timeout=25)
    try:
        for i in range(0, len(reqs), chunk):
            part = reqs[i:i + chunk]
            data = b"".join(enc_req(q) for q in part)
            want = len(part)
            s.setblocking(False)
            got = 0
            while got < want:
                _, wr, _ = select.select([], [s] if data else [], [], 0 if data else None) if data else ([], [], [])
                if wr:
                    try:
                        k = s.send(data[:1 << 18])
                        data = data[k:]
                    except BlockingIOError:
                        pass
                rd, _, _ = select.select([s], [], [], 0 if data else 25)
                if not rd and not data:
                    return False
                if rd:
                    b = s.recv(1 << 18)
                    if not b:
                        return False
                    got += b.count(b"\n")
            s.setblocking(True)
    except OSError:
        return False
    finally:
        linger_reset(s)
    return True


@scenario("C01", quick=1, thorough=4)
def long_lived(r):
    """One connection, tens of thousands of requests; others that come and go on the same worker or another."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        c = w.conn()
        total = 66500 if not r.deep else 140000
        n = 0
        while n < total:
            k = rng.choice([1, 100, 400, 1000, 2000])
            if n < 65000 and n + k > 65400:
                k = 50
            w.many(c, [("PING", "n%d" % (n + j)) if (n + j) % 4 == 0 or n > 65000 else PING for j in range(k)])
            n += k
            w.sync(c)
            if w.conns[c].eof or w.dead:
                break
        w.many(c, [ID, GETNAME, INFO, PING])
        w.half(c)
        w.await_eof(c)
        r.done(w)


@scenario("C01 C06 C07", quick=1, thorough=2)
def idle(r):
    """Connections that say nothing for long, before their first request, between two or within one, are served as ever."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(24)]
        for c in cs[8:]:
            w.many(c, [PING, ("SET", "idle%d" % c, "v"), ("SET", "idlx%d" % c, "x", "PX", rng.choice(["500", "3000"]))])
        w.sync()
        parts = {}
        for c in cs[16:]:
            p, = w.chunks(c, [("GET", "idle%d" % c)])
            k = rng.randrange(1, len(p[0]))
            w.partial(c, p[0][:k])
            parts[c] = (p[0][k:], p[1])
        lazy = [w.conn(rcvbuf=4096) for _ in range(3)]
        for c in lazy:
            # its replies wait for it, more of them than the kernel keeps
            w.send(c, "SET", "idle%d" % c, bytes([97 + c % 26]) * 1000000)
        w.sync(*lazy)
        for c in lazy:
            w.conns[c].paused = True
            w.many(c, [("GET", "idle%d" % c)] * 12 + [PING, ID])
        w.sleep(61.5 if not r.deep else rng.choice([91, 125, 185]))
        for c in lazy:
            w.conns[c].paused = False
        for c, (data, ev) in parts.items():
            w.push(c, data, [ev])
        for c in cs:
            w.many(c, [PING, ("GET", "idle%d" % c), ("GET", "idlx%d" % c), ("SET", "idly%d" % c, "y", "PX", "200"), ("GET", "idly%d" % c), ID])
        w.sync()
        w.sleep(0.3)
        for c in cs:
            w.send(c, "GET", "idly%d" % c)
        for c in [w.conn() for _ in range(24)]:
            w.send(c, *PING)
        w.sync()
        for c in cs[:4] + lazy:
            w.many(c, [PING, ID])
        w.sync()
        r.done(w)


@scenario("C09 C16", quick=1, thorough=3)
def many_over_time(r):
    """More connections over time than 16 bits can count: ids go on, descriptors go back."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(10)]
        for c in cs:
            w.many(c, [ID, HELLO])
        w.sync()
        for total in ((200, 66000) if not r.deep else (200, 66000, 66000, 66000)):
            addrs = burn(w, total, request=rng.choice([b"", enc_req(PING)]))
            for _ in range(6):
                c = w.conn()
                cs.append(c)
                w.many(c, [ID, INFO])
            w.sync()
            for c in rng.sample(cs, 8):
                w.many(c, [ID, HELLO, INFO])
            w.sync()
            w.log({"e": "past", "addrs": addrs[-20000:] + w.past[-3000:]})
            w.send(cs[0], "CLIENT", "LIST", "ID", "1", "2", "3", "4", "5")
            w.sync()
        w.check_fds()
        r.done(w)


@scenario("C12", quick=1, thorough=3)
def places_over_time(r):
    """After any number of connections all the places are there, and no more."""
    rng = r.rng
    limit = rng.choice([3, 6, 20])
    with r.server(limit=limit) as s:
        w = r.world(s, "limit %d" % limit)
        # connections that are not served at once wait; those that are reset while they wait may still be taken
        burn(w, 5000 if not r.deep else 70000, batch=limit, request=enc_req(PING), read=True)
        w.wait(lambda: w.srv.extra_fds() == 0)
        cs = [w.conn() for _ in range(limit + 5)]
        for c in cs:
            w.send(c, *PING, flush=False)
        w.wait(lambda: sum(1 for c in cs if w.conns[c].proved) >= limit, 20)
        w.sleep(0.4)
        if sum(1 for c in cs if w.conns[c].proved) < limit and not w.dead:
            w.log({"e": "starve"})
        for c in cs:
            if not w.conns[c].proved:
                w.close(c)
        r.done(w)


@scenario("C10", quick=1, thorough=2)
def crowd(r):
    """A list of more than a thousand connections, whole and filtered, complete and in order."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        n = 1300 if not r.deep else 4500
        w.keep_raw = True
        cs = []
        for k in range(n):
            c = w.conn()
            cs.append(c)
            if k % 3 == 0:
                w.send(c, "CLIENT", "SETNAME", rng.choice(["m%d" % k, "long" * 30 + str(k)]), flush=False)
            w.send(c, *ID, flush=False)
            if k % 200 == 0:
                w.sync()
        w.sync()
        ids = [w.lastraw[c][1] for c in cs if w.lastraw.get(c, ("", 0))[0] == "int"]
        w.call(cs[0], *LIST)
        w.call(cs[-1], "CLIENT", "LIST", "TYPE", "normal")
        w.call(cs[5], "CLIENT", "LIST", "ID", *[str(i) for i in ids])
        w.call(cs[6], "CLIENT", "LIST", "ID", *[str(i) for i in rng.sample(ids, min(700, len(ids)))])
        w.call(cs[7], "CLIENT", "LIST", "ID", str(ids[-1]), str(ids[0]), str(ids[len(ids) // 2]))
        r.done(w)


@scenario("C11", quick=1, thorough=3)
def long_names(r):
    """Names of every length up to tens of thousands, which differ at the end only."""
    rng = r.rng
    lens = [1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049,
            4095, 4096, 4097, 8191, 8193, 16383, 16385, 32767, 32769, 65535, 65536, 65537]
    if r.deep:
        lens += [200000, 1000000]
    with r.server() as s:
        w = r.world(s)
        pairs = []
        for n in lens:
            a, b = w.conn(), w.conn()
            base = "N" * (n - 1)
            w.send(a, "CLIENT", "SETNAME", base + "a")
            w.send(b, "CLIENT", "SETNAME", base + "b")
            w.send(b, "CLIENT", "SETNAME", base + " ")   # refused
            pairs += [a, b]
            if rng.random() < 0.4:
                w.send(a, "CLIENT", "SETNAME", base + rng.choice(["\n", "\x7f", "é"]))
            w.many(a, [GETNAME, INFO])
            w.many(b, [GETNAME, INFO])
        w.sync()
        w.call(pairs[0], *LIST)
        for c in pairs[::3]:
            w.send(c, "CLIENT", "SETNAME", rng.choice(["", "short"]))
            w.many(c, [GETNAME, INFO])
        w.sync()
        w.call(pairs[1], *LIST)
        r.done(w)


@scenario("C05", quick=1, thorough=3)
def long_keys(r):
    """Keys of every length that differ at one place: the end, the beginning or the middle."""
    rng = r.rng
    lens = list(range(1, 40)) + [47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 192, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048,
                                 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537]
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(4)]
        keys = []
        for n in lens:
            base = "k" * (n - 1)
            keys += [base + "a", base + "b", "a" + base, base]
            if n > 4:
                keys += [base[:n // 2] + "a" + base[n // 2:]]
            if n % 4 == 0:
                keys += [base + " ", base + "\x00"]
        keys = list(dict.fromkeys(k for k in keys))
        order = keys[:]
        for rnd in range(2):
            rng.shuffle(order)
            for i, k in enumerate(order):
                if rnd == 0 or rng.random() < 0.5:
                    w.send(cs[i % 4], "SET", k, "%d:%s" % (rnd, tok(k)), flush=False)
            w.sync()
            rng.shuffle(order)
            for i, k in enumerate(order):
                w.send(cs[i % 4], "GET", k, flush=False)
            w.sync()
        G = 60
        r.done(w, groups=[[tok(k) for k in keys[i:i + G]] for i in range(0, len(keys), G)])


TTLS = [(), (), (), ("EX", "1000"), ("PX", "600000"), ("EX", "86400"), ("PX", "60")]


@scenario("C05 C06", quick=1, thorough=3)
def full_keyspace(r):
    """Values stay, with and without an expiration, although a million others are written, replaced and expire."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        a, b = w.conn(), w.conn()
        keys = ["fk%d" % i for i in range(600)]
        for k in keys:
            w.send(a, "SET", k, "v" + k, *rng.choice(TTLS), flush=False)
        w.sync()
        n = 1050000 if not r.deep else 2100000
        for tag in ("x", "y") if not r.deep else ("x", "y", "z"):
            pour(w, [("SET", "fill%s%d" % (tag, i), "f") if i % 5 else ("SET", "fill%s%d" % (tag, i), "f", "PX", "1") for i in range(n // 2)])
            for k in keys:
                w.send(rng.choice([a, b]), "GET", k, flush=False)
            w.sync()
            for k in rng.sample(keys, 100):
                w.send(a, "SET", k, tag + k, *rng.choice(TTLS), flush=False)
            w.sync()
        for k in keys:
            w.send(b, "GET", k, flush=False)
        w.sync()
        r.done(w, groups=[keys[i:i + 100] for i in range(0, len(keys), 100)])


@scenario("C02 C13", quick=1, thorough=3)
def many_arguments(r):
    """Requests of tens of thousands of arguments, accepted or not, in one segment or many."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        mon = w.conn()
        w.call(mon, *PING)
        cs = []
        for n in [2, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 10000, 65535, 65536] + ([200000] if r.deep else []):
            for q in [("FLYING",) + ("a",) * n, ("CLIENT", "NOPE") + (Int(7),) * n, ("CLIENT", "LIST", "ID") + (Int(10 ** 8),) * n, ("ACL", "NONE") + ("",) * n]:
                if n > 5000 and rng.random() < 0.6:
                    continue
                c = w.conn()
                cs.append(c)
                reqs = [PING, q, ("PING", "then"), PING]
                L = sum(len(enc_req(x)) for x in reqs)
                cuts = [] if rng.random() < 0.5 else sorted(rng.sample(range(1, L), min(L - 1, 12)))
                w.send_stream(c, reqs, cuts, delay=0.003)
            w.sync()
        r.done(w)


@scenario("C10", quick=1, thorough=4)
def addresses(r):
    """A server on all its addresses: each line has the two addresses of that very connection,
    also when two clients differ by the host or by the port only."""
    rng = r.rng
    for bind in ("0.0.0.0", "[::]", "[::1]"):
        try:
            if bind != "0.0.0.0":
                socket.socket(socket.AF_INET6).bind(("::1", 0))
        except OSError:
            continue
        with r.server(bind=bind) as s:
            w = r.world(s, bind)
            tos = {"0.0.0.0": ["127.0.0.1", "127.0.0.2", "127.1.2.3"], "[::]": ["127.0.0.1", "127.0.0.9", "::1"], "[::1]": ["::1"]}[bind]
            port = rng.randrange(31000, 32000)
            cs = []
            for k in range(30):
                to = rng.choice(tos)
                b = None
                if ":" not in to and rng.random() < 0.5:
                    b = ("127.0.0.%d" % (20 + k), port)   # the same port, another host
                try:
                    c = w.conn(to=to, bind=b)
                except OSError:
                    w.count -= 1
                    continue
                cs.append(c)
                w.many(c, rng.choice([[ID], [INFO], [("CLIENT", "SETNAME", "ad%d" % k)]]))
            w.sync()
            for c in cs:
                w.send(c, *INFO)
            w.sync()
            w.call(cs[0], *LIST)
            over = rng.sample(cs[1:], 8)
            for c in over:
                rng.choice([w.close, w.reset, w.half])(c)
            w.gone(cs[0], *over)
            w.call(cs[0], *LIST)
            r.done(w)


@scenario("C12", quick=2, thorough=6)
def limit_and_descriptors(r):
    """Descriptors run out while connections come and go: no place is lost, none is gained."""
    rng = r.rng
    limit = rng.choice([8, 20, 40])
    with r.server(limit=limit) as s:
        idle = s.idle_fds
    with r.server(limit=limit, nofile=idle + rng.choice([6, limit - 2, limit + 4])) as s:
        w = r.world(s, "limit %d" % limit)
        for rnd in range(2 if not r.deep else 6):
            socks = []
            for _ in range(120):
                t = socket.socket()
                t.setblocking(False)
                try:
                    t.connect(s.addr)
                except OSError:
                    pass
                socks.append(t)
            w.sleep(0.15)
            for t in socks:
                try:
                    t.send(rng.choice([enc_req(PING), enc_req(("GET",)), b"*1\r\n"]))
                except OSError:
                    pass
            w.sleep(0.1)
            rng.shuffle(socks)
            for t in socks:
                if rng.random() < 0.5:
                    linger_reset(t)
                else:
                    t.close()
        w.wait(lambda: w.srv.extra_fds() == 0)
        w.sleep(0.1)
        room = min(limit, s.nofile - idle - 1)
        cs = [w.conn() for _ in range(limit + 4)]
        for c in cs:
            w.send(c, *PING, flush=False)
        w.wait(lambda: sum(1 for c in cs if w.conns[c].proved) >= limit, 8 if room < limit else 25)
        w.sleep(0.3)
        if room >= limit + 2 and sum(1 for c in cs if w.conns[c].proved) < limit and not w.dead:
            w.log({"e": "starve"})
        # one after the other, there is room for each
        for c in cs:
            w.close(c)
        for k in range(2 * limit + 10):
            c = w.conn()
            w.send(c, *PING)
            if not w.sync(c):
                break
            w.close(c)
            w.wait(lambda: w.srv.extra_fds() == 0)
        r.done(w)


@scenario("C12", quick=1, thorough=2)
def extreme_limits(r):
    """No place at all: nobody is served. As many as there can be: everybody is, again and again."""
    rng = r.rng
    with r.server(limit=0) as s:
        w = r.world(s, "limit 0")
        cs = [w.conn() for _ in range(20)]
        for c in cs:
            w.many(c, [PING, ID])
        w.sleep(0.5)
        for c in cs:
            rng.choice([w.close, w.reset])(c)
        c = w.conn()
        w.send(c, *PING)
        w.sleep(0.3)
        w.close(c)
        r.done(w)
    for limit in (65535, 65534, 32768):
        with r.server(limit=limit) as s:
            w = r.world(s, "limit %d" % limit)
            from scen_conn import _end
            for rnd in range(3):
                cs = [w.conn() for _ in range(40)]
                for c in cs:
                    w.many(c, [PING, ID])
                w.sync()
                for c in cs:
                    _end(w, rng, c)
            for c in [w.conn() for _ in range(40)]:
                w.send(c, *PING)
            w.sync()
            r.done(w)
