"""RESP encoding of requests and strict decoding of replies.

The decoder accepts exactly what the protocol allows for a reply of this server
(RESP 2 types plus the RESP 3 map): anything else is Garbage.
"""
import hashlib
import re

CRLF = b"\r\n"


class Garbage(Exception):
    pass


class Simple(bytes):
    """A simple string argument."""


class Int(int):
    """An integer frame argument."""


class Raw(bytes):
    """Already encoded frame used as an argument (not a string nor integer)."""


def enc_arg(a):
    if isinstance(a, Raw):
        return bytes(a)
    if isinstance(a, Simple):
        return b"+" + bytes(a) + CRLF
    if isinstance(a, Int):
        return b":%d\r\n" % int(a)
    if isinstance(a, str):
        a = a.encode()
    return b"$%d\r\n%s\r\n" % (len(a), a)


def enc_req(args):
    return b"*%d\r\n" % len(args) + b"".join(enc_arg(a) for a in args)


_PLAIN = re.compile(rb"[\x20-\x7d][\x20-\x7e]{0,47}\Z")
_GRAPH = re.compile(rb"[\x21-\x7e]*\Z")
_RESERVED = {b"(none)", b"(nil)", b"?"}


def tok(b):
    """Injective name of a byte string (see Commands.tla)."""
    if isinstance(b, str):
        b = b.encode()
    b = bytes(b)
    if b == b"" or (_PLAIN.match(b) and b not in _RESERVED):
        return b.decode()
    h = hashlib.sha1(b).hexdigest()[:16]
    return ("~g:" if _GRAPH.match(b) else "~") + "%d:%s" % (len(b), h)


def arg_event(a):
    if isinstance(a, Raw):
        return {"k": "o", "v": ""}
    if isinstance(a, Int):
        return {"k": "i", "v": str(int(a))}
    if isinstance(a, Simple):
        return {"k": "s", "v": tok(bytes(a))}
    if isinstance(a, str):
        a = a.encode()
    try:
        a.decode()
        return {"k": "b", "v": tok(a)}
    except UnicodeDecodeError:
        return {"k": "x", "v": tok(a)}


class Decoder:
    """Incremental strict decoder; feed() then next() until None."""

    def __init__(self):
        self.buf = bytearray()
        self.pos = 0
        self.need = 0

    def feed(self, data):
        self.buf += data

    def pending(self):
        return len(self.buf) - self.pos

    def next(self):
        """The next complete value, or None. Raises Garbage."""
        if len(self.buf) < self.need:
            return None
        try:
            v, p = self._value(self.pos)
        except IndexError:
            if self.pos > 1 << 16:
                del self.buf[: self.pos]
                self.need -= self.pos
                self.pos = 0
            return None
        self.pos = p
        self.need = 0
        if self.pos > 1 << 20 or self.pos == len(self.buf):
            del self.buf[: self.pos]
            self.pos = 0
        return v

    def _line(self, p, limit=None):
        e = self.buf.find(CRLF, p)
        if e < 0:
            if b"\n" in self.buf[p:] or (limit and len(self.buf) - p > limit):
                raise Garbage(bytes(self.buf[p : p + 80]))
            raise IndexError
        line = bytes(self.buf[p:e])
        if b"\r" in line or b"\n" in line:
            raise Garbage(line[:80])
        return line, e + 2

    def _num(self, p):
        line, p = self._line(p, 25)
        if not re.match(rb"(0|[1-9][0-9]*)\Z", line):
            raise Garbage(line[:80])
        return int(line), p

    def _value(self, p):
        t = self.buf[p]
        if t == 0x2B:
            line, p = self._line(p + 1)
            return ("simple", line), p
        if t == 0x2D:
            line, p = self._line(p + 1)
            return ("error", line), p
        if t == 0x3A:
            n, p = self._num(p + 1)
            return ("int", n), p
        if t == 0x24:
            if self.buf[p + 1] == 0x2D:
                line, p = self._line(p + 1, 25)
                if line != b"-1":
                    raise Garbage(line[:80])
                return ("null", None), p
            n, p = self._num(p + 1)
            if len(self.buf) < p + n + 2:
                self.need = max(self.need, p + n + 2)
                raise IndexError
            if self.buf[p + n : p + n + 2] != CRLF:
                raise Garbage(bytes(self.buf[p + n : p + n + 40]))
            return ("bulk", bytes(self.buf[p : p + n])), p + n + 2
        if t == 0x2A:
            n, p = self._num(p + 1)
            out = []
            for _ in range(n):
                v, p = self._value(p)
                out.append(v)
            return ("array", out), p
        if t == 0x25:
            n, p = self._num(p + 1)
            out = []
            for _ in range(n):
                k, p = self._value(p)
                v, p = self._value(p)
                out.append((k, v))
            return ("map", out), p
        raise Garbage(bytes(self.buf[p : p + 80]))


_LINE = re.compile(rb"id=(\d{1,9}) addr=(\S+) laddr=(\S+) fd=(\d+) name=(\S*)\Z")


def line_of(b):
    m = _LINE.match(b)
    if not m:
        return None
    return {
        "id": int(m.group(1)),
        "addr": m.group(2).decode("latin1"),
        "laddr": m.group(3).decode("latin1"),
        "name": tok(m.group(5)) if m.group(5) else "(none)",
    }


def reply_event(v):
    """Abstraction of a decoded reply, the r field of recv events."""
    k, x = v
    if k == "simple":
        ln = line_of(x)
        if ln:
            return {"k": "line", **ln}
        return {"k": "simple", "v": tok(x)}
    if k == "error":
        # errors are kept as text as far as possible: they name what they refuse
        if re.match(rb"[\x20-\x7e]{0,400}\Z", x):
            return {"k": "error", "v": x.decode()}
        return {"k": "error", "v": tok(x)}
    if k == "int":
        if x > 10**9:
            return {"k": "garbage", "v": "int %d" % x}
        return {"k": "int", "n": x}
    if k == "bulk":
        return {"k": "bulk", "v": tok(x)}
    if k == "null":
        return {"k": "null"}
    if k == "array":
        lines = [line_of(e[1]) if e[0] == "simple" else None for e in x]
        if all(lines):
            return {"k": "lines", "lines": lines}
        return {"k": "array", "n": len(x)}
    if k == "map":
        fields, mid, proto = [], -2, -1
        for kk, vv in x:
            name = kk[1].decode("latin1") if kk[0] in ("bulk", "simple") else "?"
            fields.append(name)
            if name == "id" and vv[0] == "int" and vv[1] < 10**9:
                mid = vv[1]
            if name == "proto" and vv[0] == "int" and vv[1] < 10**9:
                proto = vv[1]
        return {"k": "map", "fields": fields, "id": mid, "proto": proto}
    return {"k": "garbage", "v": k}
