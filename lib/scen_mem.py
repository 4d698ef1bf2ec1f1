"""Scenarios on memory: the same load again and again must stop adding to it."""
import random
import select
import socket
import time

from reqs import *
from resp import enc_req
from runner import scenario
from sut import linger_reset

ROUNDS = 12


class Load:
    """Loads that nobody records, and the memory of the server after each."""

    def __init__(self, r, w):
        self.r, self.w = r, w
        self.rng = r.rng
        self.conn = None
        self.seq = 0
        self.witness = w.conn()
        w.call(self.witness, *PING)
        self.base = w.srv.extra_fds()

    def line(self):
        if self.conn is None:
            self.conn = socket.create_connection(self.w.srv.addr, timeout=25)
            self.base += 1
        return self.conn

    def ask(self, reqs, batch=1500):
        """All requests on one long-lived connection; all their replies are read."""
        s = self.line()
        for i in range(0, len(reqs), batch):
            self.seq += 1
            end = b"\x02end-%d\x03" % self.seq
            data = b"".join(enc_req(q) for q in reqs[i:i + batch]) + enc_req(("PING", end))
            if not talk(s, data, end):
                return False
        return True

    def rest(self):
        """Nothing is going on any more: memory now."""
        end = time.monotonic() + 20
        while self.w.srv.extra_fds() > self.base and time.monotonic() < end and self.w.srv.alive():
            time.sleep(0.02)
        low = None
        for _ in range(3):
            time.sleep(0.03)
            m = self.w.srv.memory()
            low = m if low is None or m < low else low
        return low

    def repeat(self, what, n, kb, round_):
        """round_(k) is the load; until one of them adds nothing."""
        w = self.w
        last = None
        for k in range(ROUNDS):
            if round_(k) is False:
                w._alive()
                w.call(self.witness, *PING)
                if self.conn is not None:
                    self.conn.close()
                    self.conn, self.base = None, self.base - 1
                break   # the connection was ended: another property
            if last is not None:
                w.log({"e": "load", "what": what, "n": n, "kb": kb})
            m = self.rest()
            if not w._alive():
                return
            w.log({"e": "memory", "kb": m})
            each = 32 if what == "requests" else 100
            if last is not None and (m - last) * 1024 <= n * each + kb // 50 * 1024:
                w.log({"e": "kept"})
                break
            last = m
        else:
            w.log({"e": "kept"})
        w.call(self.witness, *PING)
        self.r.notes["loads"] += k + 1


def talk(s, data, end):
    """Writes data and reads until `end` was read."""
    s.setblocking(False)
    tail = b""
    view = memoryview(data)
    limit = time.monotonic() + 60
    try:
        while time.monotonic() < limit:
            rd, wr, _ = select.select([s], [s] if len(view) else [], [], 25)
            if not rd and not wr:
                return False
            if wr:
                try:
                    view = view[s.send(view[:1 << 18]):]
                except BlockingIOError:
                    pass
            if rd:
                b = s.recv(1 << 18)
                if not b:
                    return False
                tail = (tail + b)[-len(b) - 64:]
                if end in tail and not len(view):
                    return True
                tail = tail[-64:]
        return False
    except OSError:
        return False
    finally:
        s.setblocking(True)


def crowd_of(w, n, act, batch=100):
    """n connections in batches; act(i, socket) says how each ends (it may leave it open: it is reset)."""
    done = 0
    while done < n:
        socks = []
        for i in range(min(batch, n - done)):
            s = socket.socket()
            s.settimeout(20)
            try:
                s.connect(w.srv.addr)
            except OSError:
                s.close()
                continue
            socks.append(s)
        for i, s in enumerate(socks):
            try:
                act(done + i, s)
            except OSError:
                pass
        for s in socks:
            if s.fileno() != -1:
                linger_reset(s)
        done += batch
    return w.srv.alive()


@scenario("C17", quick=1, thorough=3)
def memory_answers(r):
    """Requests answered leave nothing: every command, with texts never seen before."""
    n = 12000 if not r.deep else 40000
    with r.server() as s:
        w = r.world(s)
        ld = Load(r, w)
        u = ld.rng.randrange(10 ** 6)
        kinds = [
            lambda k, j: PING,
            lambda k, j: ("PING", "m%d.%d.%d" % (u, k, j)),
            lambda k, j: ID,
            lambda k, j: INFO,
            lambda k, j: GETNAME,
            lambda k, j: ("CLIENT", "SETNAME", "n%d.%d" % (k, j)),
            lambda k, j: ("CLIENT", "SETNAME", "n %d.%d" % (k, j)),
            lambda k, j: ("CLIENT", "SETINFO", "lib-name", "l%d.%d" % (k, j)),
            lambda k, j: ("CLIENT", "SETINFO", "lib-ver", "%d.%d" % (k, j)),
            lambda k, j: ("CLIENT", "LIST"),
            lambda k, j: ("CLIENT", "LIST", "ID", "%d" % (k * n + j)),
            lambda k, j: ("CLIENT", "LIST", "TYPE", ["normal", "master", "replica", "pubsub"][j % 4]),
            lambda k, j: ("HELLO",),
            lambda k, j: ("ACL", "CAT"),
            lambda k, j: ("NO%d.%d" % (k, j), "x"),
            lambda k, j: ("CLIENT", "NO%d.%d" % (k, j)),
            lambda k, j: ("ACL", "NO%d.%d" % (k, j), "y"),
        ]
        for f in kinds:
            m = n if f(0, 0) not in (("HELLO",), ("ACL", "CAT"), ("CLIENT", "LIST")) else n // 3
            ld.repeat("requests", m, 0, lambda k: ld.ask([f(k, j) for j in range(m)]))
        r.done(w)


@scenario("C17", quick=1, thorough=3)
def memory_keys(r):
    """Replaced values, values that expired and were read again and keys that were only asked for leave nothing."""
    rng = r.rng
    n = 12000 if not r.deep else 40000
    with r.server() as s:
        w = r.world(s)
        ld = Load(r, w)
        size = rng.randrange(60, 300)
        kinds = [
            lambda k, j: ("SET", "r%d" % (j % 50), "%d.%d" % (k, j) + "v" * size),
            lambda k, j: ("SET", "r%d" % (j % 50), "%d.%d" % (k, j) + "v" * size, "EX", "%d" % rng.randrange(1, 10 ** 6)),
            lambda k, j: ("SET", "r%d" % (j % 50), "%d.%d" % (k, j) + "v" * size, "PX", "%d" % rng.randrange(3)),
            lambda k, j: ("SET", "r%d" % (j % 50), "v" * rng.randrange(0, 2 * size)),
            lambda k, j: ("GET", "r%d" % (j % 50)),
            lambda k, j: ("GET", "never%d.%d" % (k, j)),
        ]
        for f in kinds:
            ld.repeat("requests", n, 0, lambda k: ld.ask([f(k, j) for j in range(n)]))

        def expired(k):
            keys = ["x%d.%d" % (k, j) for j in range(n)]
            if not ld.ask([("SET", key, "v" * size, "PX", "1") for key in keys]):
                return False
            time.sleep(0.06)
            return ld.ask([("GET", key) for key in keys])
        # the keys are others each time: the table itself takes its share for a while
        ld.repeat("requests", n, 0, expired)

        def replaced_after(k):
            if not ld.ask([("SET", "y%d" % (j % 200), "%d.%d" % (k, j) + "v" * size, "PX", "0") for j in range(n // 2)]):
                return False
            time.sleep(0.02)
            return ld.ask([("SET", "y%d" % (j % 200), "%d.%d" % (k, j) + "w" * size) for j in range(n // 2)])
        ld.repeat("requests", n, 0, replaced_after)
        r.done(w)


@scenario("C17", quick=1, thorough=3)
def memory_values(r):
    """Large values replaced, echoed, half sent or asked for and not read leave nothing."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        ld = Load(r, w)
        mb = 1 << 20

        def noise(k, j, size):
            return b"%d.%d" % (k, j) + b"z" * (size + rng.randrange(1000))
        ld.repeat("requests", 24, 24 * 1024, lambda k: ld.ask([("SET", "big%d" % (j % 3), noise(k, j, mb)) for j in range(24)], batch=4))
        ld.repeat("requests", 400, 400 * 60, lambda k: ld.ask([("SET", "mid%d" % (j % 9), noise(k, j, 60000)) for j in range(400)], batch=40))
        ld.repeat("requests", 24, 24 * 1024, lambda k: ld.ask([("PING", noise(k, j, mb)) for j in range(24)], batch=4))
        ld.repeat("requests", 40, 40 * 1024, lambda k: ld.ask([("GET", "big%d" % (j % 3)) for j in range(40)], batch=8))

        def half_sent(i, sock):
            sock.sendall(b"*3\r\n$3\r\nSET\r\n$1\r\nh\r\n$%d\r\n" % (2 * mb) + b"q" * (400000 + rng.randrange(100000)))
        ld.repeat("connections", 100, 100 * 400, lambda k: crowd_of(w, 100, half_sent, batch=10))

        def unread(i, sock):
            sock.sendall(enc_req(("GET", "big0")) * 30)
            time.sleep(0.01)
        ld.repeat("connections", 60, 60 * 1024, lambda k: crowd_of(w, 60, unread, batch=10))

        def queued(i, sock):
            sock.setblocking(False)
            data = enc_req(("GET", "big0")) * 4 + enc_req(("PING", "p" * 50)) * 4000
            end = time.monotonic() + 0.15
            while data and time.monotonic() < end:
                try:
                    data = data[sock.send(data):]
                except BlockingIOError:
                    time.sleep(0.005)
        ld.repeat("connections", 40, 40 * 500, lambda k: crowd_of(w, 40, queued, batch=10))
        r.done(w)


def _read_to_end(s):
    while s.recv(65536):
        pass


def ways(rng):
    """(name, how a connection lives and ends)"""
    def close(i, s):
        s.close()

    def ping_close(i, s):
        s.sendall(enc_req(PING))
        s.recv(100)
        s.close()

    def ping_reset(i, s):
        s.sendall(enc_req(PING))
        s.recv(100)

    def half(i, s):
        s.sendall(enc_req(PING) * 3)
        s.shutdown(socket.SHUT_WR)
        _read_to_end(s)
        s.close()

    def silent_half(i, s):
        s.shutdown(socket.SHUT_WR)
        _read_to_end(s)
        s.close()

    def partial(i, s):
        s.sendall(enc_req(("SET", "p%d" % i, "v" * 40))[:rng.randrange(1, 40)])

    def partial_half(i, s):
        s.sendall(enc_req(("SET", "p%d" % i, "v" * 40))[:rng.randrange(1, 40)])
        s.shutdown(socket.SHUT_WR)
        _read_to_end(s)

    def refused(i, s):
        s.sendall(enc_req(PING) + enc_req(rng.choice([("GET",), ("SET", "a"), ("SET", "a", "b", "EX"), ("SET", "a", "b", "PX", "x"),
                                                     ("CLIENT", "SETNAME"), ("ACL", "CAT", "x", "y"), ("PING", "a", "b")])))
        _read_to_end(s)

    def malformed(i, s):
        s.sendall(enc_req(PING) + rng.choice([b"!\r\n", b"*1\r\n$x\r\n", b"*-2\r\n", b"$3\r\nabcde", b"+OK\r\n", b":1\r\n", b"*0\r\n"]))
        _read_to_end(s)

    def refused_stays(i, s):
        s.sendall(enc_req(("GET",)))   # the client stays until all are done

    def named(i, s):
        s.sendall(enc_req(("CLIENT", "SETNAME", "name%d-%d" % (i, rng.randrange(10 ** 9)))) + enc_req(("CLIENT", "SETINFO", "lib-name", "x")) +
                  enc_req(("HELLO",)))
        s.recv(1000)
        s.close()

    def keyed(i, s):
        s.sendall(enc_req(("SET", "kk%d" % (i % 40), "v%d" % i)) + enc_req(("GET", "kk%d" % (i % 40))))
        s.recv(1000)
        s.close()

    def listing(i, s):
        s.sendall(enc_req(("CLIENT", "LIST")))
    return [close, ping_close, ping_reset, half, silent_half, partial, partial_half, refused, malformed, refused_stays, named, keyed, listing]


def _ways(r, part, parts):
    n = 4000 if not r.deep else 12000
    with r.server() as s:
        w = r.world(s)
        ld = Load(r, w)
        for act in ways(r.rng)[part::parts]:
            m = n if act.__name__ != "listing" else n // 2
            ld.repeat("connections", m, 0, lambda k: crowd_of(w, m, act))
        r.done(w)


@scenario("C17", quick=1, thorough=3)
def memory_endings(r):
    """Connections over leave nothing, however they ended."""
    _ways(r, 0, 2)


@scenario("C17", quick=1, thorough=3)
def memory_endings_2(r):
    """The other ways to end."""
    _ways(r, 1, 2)


@scenario("C17", quick=1, thorough=3)
def memory_waiting(r):
    """Connections that waited for a place, served in the end or not, leave nothing."""
    rng = r.rng
    n = 2000 if not r.deep else 6000
    with r.server(limit=12) as s:
        w = r.world(s)
        ld = Load(r, w)

        def wave(i, s):
            s.sendall(enc_req(PING))
        ld.repeat("connections", n, 0, lambda k: crowd_of(w, n, wave, batch=60))

        def served(k):
            done = 0
            while done < n // 4:
                socks = []
                for _ in range(40):
                    c = socket.create_connection(w.srv.addr, timeout=25)
                    c.sendall(enc_req(PING))
                    c.shutdown(socket.SHUT_WR)
                    socks.append(c)
                for c in socks:
                    try:
                        _read_to_end(c)
                    except OSError:
                        return False
                    c.close()
                done += len(socks)
            return True
        ld.repeat("connections", n // 4, 0, served)
        r.done(w)
