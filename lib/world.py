"""Clients of one server, driven from a single thread that records the history.

Every event is recorded before the action that it announces (send, half, close)
or after the observation it reports (recv, eof), in one total order, so that the
instant at which the server acts always lies between the two.
"""
import collections
import contextlib
import math
import select
import signal
import socket
import time

from resp import Decoder, Garbage, arg_event, enc_req, reply_event
from sut import linger_reset

DEADLINE = 25.0  # generous: a reply that takes longer is a reply that never comes


class Hopeless(Exception):
    """The scenario ends here; what was recorded is judged."""


class Conn:
    __slots__ = ("n", "sock", "dec", "outq", "unanswered", "eof", "half", "closed", "addr", "ev",
                 "slow", "next_read", "broken", "paused", "wild", "proved", "rst")

    def __init__(self, n, sock):
        self.n = n
        self.sock = sock
        self.dec = Decoder()
        self.outq = collections.deque()  # (bytes, [events], earliest time)
        self.unanswered = collections.deque()
        self.eof = False
        self.half = False
        self.closed = False
        self.broken = False
        self.slow = None  # (bytes per read, seconds between reads)
        self.next_read = 0.0
        self.paused = False
        self.wild = False
        self.proved = False  # shown to be served
        self.rst = False  # ended by a reset


class World:
    def __init__(self, server, label=""):
        self.srv = server
        self.ev = []
        self.conns = {}
        self.count = 0
        self.label = label
        self.t0 = time.monotonic() - 1.0
        self.poll = select.poll()
        self.byfd = {}
        self.dead = False
        self.nreq = 0
        self.requests = 0
        self.replies = 0
        self.values = []  # replies of the last recv per conn, raw
        self.keep_raw = False
        self.lastraw = {}
        self.past = getattr(server, "past", [])
        if self.past:
            # (a port is not given again so soon)
            self.log({"e": "past", "addrs": list(self.past[-3000:])})

    # -- clocks: a lower bound taken before, an upper bound taken after
    def t_lo(self):
        c = time.clock_gettime(time.CLOCK_MONOTONIC_COARSE) if hasattr(time, "CLOCK_MONOTONIC_COARSE") \
            else time.clock_gettime(6)
        return math.floor((c - self.t0) * 1000) - 1

    def t_hi(self):
        return math.ceil((time.monotonic() - self.t0) * 1000) + 1

    def log(self, e):
        self.ev.append(e)

    # -- connections
    def conn(self, rcvbuf=None, slow=None, bind=None, to=None):
        """bind: the client's own address and port; to: the address of the server, if not the usual one."""
        self.count += 1
        n = self.count
        v6 = to is not None and ":" in to
        s = socket.socket(socket.AF_INET6 if v6 else socket.AF_INET, socket.SOCK_STREAM)
        if bind:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(bind)
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        e = {"e": "conn", "c": n, "addr": ""}
        if to is not None:
            e["laddr"] = ""
        self.log(e)
        s.settimeout(DEADLINE)
        try:
            s.connect(self.srv.addr if to is None else (to, self.srv.port))
        except OSError:
            s.close()
            e["addr"] = "refused:%d" % n
            c = Conn(n, None)
            c.broken = True
            self.conns[n] = c
            self.log({"e": "late", "c": n} if self.srv.alive() else {"e": "died"})
            if not self.srv.alive():
                self.dead = True
            return n
        e["addr"] = self.srv.shown(s.getsockname())
        if to is not None:
            e["laddr"] = self.srv.shown(s.getpeername())
        s.setblocking(False)
        c = Conn(n, s)
        c.addr = e["addr"]
        c.slow = slow
        self.conns[n] = c
        self.byfd[s.fileno()] = c
        self.poll.register(s, select.POLLIN)
        return n

    def _queue(self, c, data, events, delay=0.0):
        if c.eof or c.broken or c.closed:
            return
        c.outq.append([data, events, time.monotonic() + delay])
        if c.sock is not None and not c.closed:
            self.poll.modify(c.sock, select.POLLIN | select.POLLOUT)

    def send(self, n, *args, cuts=None, delay=0.0, flush=True):
        """Queue one request. cuts: offsets at which it is split into segments."""
        c = self.conns[n]
        data = enc_req(args)
        e = {"e": "send", "c": n, "tl": 0, "args": [arg_event(a) for a in args], "res": "?"}
        self.requests += 1
        self._send_raw(c, data, e, cuts, delay)
        if flush:
            self.pump(0)

    def _send_raw(self, c, data, e, cuts, delay):
        if c.broken or c.closed or c.half:
            return
        pieces = []
        prev = 0
        for k in sorted(set(x for x in (cuts or []) if 0 < x < len(data))):
            pieces.append(data[prev:k])
            prev = k
        pieces.append(data[prev:])
        for i, p in enumerate(pieces):
            self._queue(c, p, [e] if i == len(pieces) - 1 else [], delay * (i + 1) if cuts else delay)

    def send_stream(self, n, reqs, cuts, delay=0.0):
        """Several requests as one byte stream, cut anywhere."""
        c = self.conns[n]
        stream = b""
        ends = []
        for args in reqs:
            stream += enc_req(args)
            ends.append((len(stream), {"e": "send", "c": n, "tl": 0, "res": "?",
                                       "args": [arg_event(a) for a in args]}))
            self.requests += 1
        prev = 0
        points = sorted(set([x for x in cuts if 0 < x < len(stream)] + [len(stream)]))
        for i, k in enumerate(points):
            evs = [e for (x, e) in ends if prev < x <= k]
            self._queue(c, stream[prev:k], evs, delay * (i + 1))
            prev = k

    def many(self, n, reqs):
        """A pipeline in as few segments as possible."""
        self.send_stream(n, reqs, [])

    def junk(self, n, data):
        c = self.conns[n]
        self.requests += 1
        self._queue(c, data, [{"e": "junk", "c": n}])
        self.pump(0)

    def wild(self, n):
        """From now on the bytes sent on n have no known meaning."""
        self.conns[n].wild = True
        self.log({"e": "wild", "c": n})

    def raw(self, n, data, delay=0.0):
        """Bytes on a wild connection."""
        self._queue(self.conns[n], data, [], delay)
        self.pump(0)

    def chunks(self, n, reqs):
        """[(bytes, event)] of requests, for push."""
        out = []
        for args in reqs:
            self.requests += 1
            out.append((enc_req(args), {"e": "send", "c": n, "tl": 0, "res": "?",
                                        "args": [arg_event(a) for a in args]}))
        return out

    def push(self, n, data, events=(), delay=0.0):
        """Bytes that complete the requests announced by events."""
        self._queue(self.conns[n], data, list(events), delay)
        self.pump(0)

    def partial(self, n, data):
        """Bytes that do not complete a request."""
        self._queue(self.conns[n], data, [])
        self.pump(0)

    def half(self, n):
        c = self.conns[n]
        self.flush(n)
        if c.sock is None or c.closed or c.half:
            return
        self.log({"e": "half", "c": n})
        c.half = True
        try:
            c.sock.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def _unregister(self, c):
        if c.sock is not None:
            try:
                self.poll.unregister(c.sock)
            except (KeyError, ValueError):
                pass
            self.byfd.pop(c.sock.fileno(), None)

    def close(self, n):
        c = self.conns[n]
        if c.sock is None or c.closed:
            return
        self.log({"e": "close", "c": n})
        c.closed = True
        self._unregister(c)
        c.sock.close()

    def reset(self, n):
        c = self.conns[n]
        if c.sock is None or c.closed:
            return
        self.log({"e": "reset", "c": n})
        c.closed = True
        self._unregister(c)
        linger_reset(c.sock)

    # -- io
    def _write(self, c):
        now = time.monotonic()
        while c.outq and not c.closed:
            data, events, at = c.outq[0]
            if at > now:
                return
            for e in events:
                if e["e"] == "send":
                    e["tl"] = self.t_lo()
                    self.nreq += 1
                    e["i"] = self.nreq
                self.log(e)
                c.unanswered.append(e)
            c.outq[0][1] = []
            try:
                k = c.sock.send(data[: 1 << 20])
            except (BlockingIOError, InterruptedError):
                return
            except OSError:
                c.outq.clear()
                c.rst = True
                break
            if k == len(data):
                c.outq.popleft()
            else:
                c.outq[0][0] = data[k:]
        if not c.outq and not c.closed and not c.eof:
            self.poll.modify(c.sock, select.POLLIN)

    def _read(self, c):
        now = time.monotonic()
        if c.paused or now < c.next_read:
            return
        try:
            data = c.sock.recv(c.slow[0] if c.slow else 1 << 18)
        except (BlockingIOError, InterruptedError):
            return
        except OSError:
            data = b""
            c.rst = True
        if c.slow:
            c.next_read = now + c.slow[1]
        if not data:
            if c.dec.pending():
                self.log({"e": "recv", "c": c.n, "t": self.t_hi(), "r": {"k": "garbage", "v": "truncated reply"}})
            c.eof = True
            self.log({"e": "rst", "c": c.n, "t": self.t_hi()} if c.rst else {"e": "eof", "c": c.n})
            self._unregister(c)
            return
        c.dec.feed(data)
        self._decode(c)

    def _decode(self, c):
        while True:
            try:
                v = c.dec.next()
            except Garbage as g:
                self.log({"e": "recv", "c": c.n, "t": self.t_hi(),
                          "r": {"k": "garbage", "v": repr(g.args[0])[:100]}})
                c.eof = True
                self._unregister(c)
                return
            if v is None:
                return
            self.replies += 1
            c.proved = True
            r = reply_event(v)
            if self.keep_raw:
                self.lastraw[c.n] = v
            rv = {"e": "recv", "c": c.n, "t": self.t_hi(), "r": r}
            self.log(rv)
            if c.unanswered:
                q = c.unanswered.popleft()
                if q["e"] == "send":
                    rv["i"] = q["i"]
                    q["res"] = "(nil)" if r["k"] == "null" else r["v"] if r["k"] == "bulk" else "?"

    @contextlib.contextmanager
    def together(self):
        """What is sent meanwhile reaches the kernel while the server is stopped: all of its
        workers then find it at the same moment."""
        self.srv.signal(signal.SIGSTOP)
        try:
            yield
            self.flush()
        finally:
            self.srv.signal(signal.SIGCONT)

    def pump(self, timeout):
        """One round of I/O, waiting at most timeout."""
        pend = [c for c in self.byfd.values() if c.outq]
        now = time.monotonic()
        hold = [c for c in pend if c.outq[0][2] > now]
        for c in hold:
            self.poll.modify(c.sock, select.POLLIN)
            timeout = min(timeout, max(0.0, c.outq[0][2] - now))
        slow = [c for c in self.byfd.values() if c.paused or c.next_read > now]
        for c in slow:
            self.poll.modify(c.sock, select.POLLOUT if c.outq and c not in hold else 0)
            if not c.paused:
                timeout = min(timeout, max(0.0, c.next_read - now))
        got = self.poll.poll(max(0, timeout) * 1000)
        for fd, what in got:
            c = self.byfd.get(fd)
            if c is None:
                continue
            if what & select.POLLOUT:
                self._write(c)
            if what & (select.POLLIN | select.POLLHUP | select.POLLERR) and not c.closed and not c.eof:
                self._read(c)
        for c in hold + slow:
            if not c.closed and not c.eof and c.sock is not None and c.sock.fileno() in self.byfd:
                self.poll.modify(c.sock, select.POLLIN | (select.POLLOUT if c.outq else 0))
        return bool(got)

    def flush(self, n=None):
        end = time.monotonic() + DEADLINE
        cs = [self.conns[n]] if n else list(self.conns.values())
        while any(c.outq and not c.closed and not c.eof for c in cs):
            if time.monotonic() > end or not self.srv.alive():
                break
            self.pump(0.05)

    def sleep(self, secs):
        end = time.monotonic() + secs
        while True:
            left = end - time.monotonic()
            if left <= 0:
                return
            self.pump(left)

    def _alive(self):
        if not self.dead and not self.srv.alive():
            self.dead = True
            self.log({"e": "died"})
        return not self.dead

    def wait(self, cond, deadline=DEADLINE):
        end = time.monotonic() + deadline
        while not cond():
            if not self._alive():
                return False
            if time.monotonic() > end:
                return False
            self.pump(0.05)
        return True

    def late(self, n):
        """A reply, or an end, that does not come: waiting for the others is of no use."""
        self.log({"e": "late", "c": n})
        raise Hopeless("late on %d" % n)

    def settled(self, c):
        """Nothing is expected from c any more."""
        if c.closed or c.broken:
            return True
        if c.eof or c.wild:
            return True
        return not c.unanswered and not c.outq

    def sync(self, *ns, deadline=DEADLINE):
        """Wait for the replies to everything sent (on ns, or on all)."""
        cs = [self.conns[n] for n in ns] if ns else list(self.conns.values())
        ok = self.wait(lambda: all(self.settled(c) for c in cs), deadline)
        if not ok and not self.dead:
            for c in cs:
                if not self.settled(c):
                    self.late(c.n)
        return ok

    def await_eof(self, *ns, deadline=DEADLINE):
        cs = [self.conns[n] for n in ns]
        ok = self.wait(lambda: all(c.eof or c.closed or c.broken for c in cs), deadline)
        if not ok and not self.dead:
            for c in cs:
                if not (c.eof or c.closed):
                    self.late(c.n)
        return ok

    def call(self, n, *args):
        self.send(n, *args)
        return self.sync(n)

    def backed(self, n, bytes_due):
        """n does not read, and bytes_due of replies are due to it: more than the kernel keeps,
        so that the server must still be at it."""
        c = self.conns[n]
        room = sum(int(open("/proc/sys/net/ipv4/tcp_%smem" % x).read().split()[2]) for x in "rw")
        if c.paused and c.proved and not (c.eof or c.closed or c.broken or c.outq) and bytes_due > room + (8 << 20):
            self.log({"e": "backed", "c": n})

    def gone(self, monitor, *ns, deadline=DEADLINE):
        """Poll CLIENT LIST on connection monitor until none of ns is shown.

        A connection that was never seen to be served may not even be accepted
        yet: nothing can be said about it."""
        addrs = {self.conns[n].addr: n for n in ns if self.conns[n].proved}
        if not addrs:
            return True
        end = time.monotonic() + deadline
        pause = 0.002
        while True:
            if not self.call(monitor, "CLIENT", "LIST"):
                return False
            last = next((e for e in reversed(self.ev) if e["e"] == "recv" and e["c"] == monitor), None)
            if last is None or last["r"]["k"] != "lines":
                return False
            shown = {ln["addr"] for ln in last["r"]["lines"]}
            left = [n for a, n in addrs.items() if a in shown]
            if not left:
                for n in addrs.values():
                    self.log({"e": "gone", "c": n})
                return True
            if time.monotonic() > end:
                self.log({"e": "stuck", "c": left[0]})
                return False
            self.sleep(pause)
            pause = min(0.1, pause * 2)

    def check_fds(self, deadline=DEADLINE):
        """The descriptors of the server go back to the open connections."""
        opened = sum(1 for c in self.conns.values() if not (c.closed or c.eof or c.broken))
        self.wait(lambda: self.srv.extra_fds() <= opened, deadline)
        if self._alive():
            self.log({"e": "fds", "n": self.srv.extra_fds()})

    def finish(self):
        """End of the scenario: everything is answered, the server still runs."""
        if not any(e["e"] in ("late", "starve") for e in self.ev[-50:]):
            self.sync()
        self._alive()
        for n, c in list(self.conns.items()):
            if c.sock is not None and not c.closed:
                self._unregister(c)
                c.sock.close()
                c.closed = True
        self.srv.past = self.past + [c.addr for c in self.conns.values() if not c.broken]
        return self.history()

    def history(self):
        return {"limit": self.srv.limit, "laddr": self.srv.laddr, "label": self.label, "ev": self.ev,
                "stderr": self.srv.stderr() if self.dead else ""}


def project(history, groups):
    """Split a history of SET and GET into one history per group of keys.

    Only the requests on the keys of the group and their replies are kept: the
    clauses on one key depend on nothing else."""
    where = {}
    for g, keys in enumerate(groups):
        for k in keys:
            where[k] = g
    outs = [[] for _ in groups]
    reqs = {}
    for e in history["ev"]:
        k = e["e"]
        if k == "send" and len(e["args"]) > 1 and e["args"][1]["v"] in where:
            g = where[e["args"][1]["v"]]
            reqs[e["i"]] = g
            outs[g].append(e)
        elif k == "recv" and e.get("i") in reqs:
            outs[reqs[e["i"]]].append(e)
        elif k in ("send", "recv"):
            continue
        else:
            for o in outs:
                o.append(e)
    return [{"limit": history["limit"], "laddr": history["laddr"],
             "label": history["label"] + " (keys %d)" % g, "ev": o}
            for g, o in enumerate(outs) if o]
