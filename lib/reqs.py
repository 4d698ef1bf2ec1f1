"""Requests and texts the scenarios are made of."""
from resp import Int, Raw, Simple

PING = ("PING",)
ID = ("CLIENT", "ID")
INFO = ("CLIENT", "INFO")
LIST = ("CLIENT", "LIST")
GETNAME = ("CLIENT", "GETNAME")
HELLO = ("HELLO",)


def recase(rng, s):
    return "".join(ch.upper() if rng.random() < 0.5 else ch.lower() for ch in s)


def maybe_simple(rng, s):
    b = s.encode() if isinstance(s, str) else s
    if rng.random() < 0.3 and b"\r" not in b and b"\n" not in b:
        return Simple(b)
    return b


def name(rng):
    return "n%d" % rng.randrange(1000)


def valid(rng, key, light=False):
    """A random accepted request; keys are taken from key()."""
    x = rng.random()
    if x < 0.15:
        return PING
    if x < 0.30:
        return ("PING", "m%d" % rng.randrange(10 ** 6))
    if x < 0.48:
        return ("SET", key(), "v%d" % rng.randrange(10 ** 6))
    if x < 0.66:
        return ("GET", key())
    if x < 0.72:
        return ID
    if x < 0.77:
        return ("CLIENT", "SETNAME", name(rng))
    if x < 0.82:
        return GETNAME
    if x < 0.87:
        return INFO
    if x < 0.90:
        return HELLO
    if x < 0.93:
        return ("FLY%d" % rng.randrange(100), "away")
    if x < 0.95:
        return ("CLIENT", "SETINFO", "LIB-NAME", "x")
    if x < 0.96:
        return ("CLIENT", "HELP")
    if x < 0.97:
        return ("ACL", "CAT")
    if x < 0.98:
        return ("CLIENT", "NOPE%d" % rng.randrange(10))
    return PING if light else LIST


# requests that are refused, and end their connection: (label, request)
INVALID = [
    ("empty array", ()),
    ("int as name", (Int(5), "a")),
    ("null as name", (Raw(b"$-1\r\n"),)),
    ("array as name", (Raw(b"*1\r\n$4\r\nPING\r\n"),)),
    ("map as name", (Raw(b"%1\r\n+a\r\n:1\r\n"),)),
    ("error as name", (Raw(b"-PING\r\n"),)),
    ("non-utf8 name", (b"\xff\xfe",)),
    ("non-utf8 name with args", (b"GET\xff", "ik")),
    ("get without key", ("GET",)),
    ("get two keys", ("GET", "ik", "ik2")),
    ("get int key", ("GET", Int(5))),
    ("get null key", ("GET", Raw(b"$-1\r\n"))),
    ("get non-utf8", ("GET", b"\xff\xff")),
    ("get array key", ("GET", Raw(b"*0\r\n"))),
    ("set alone", ("SET",)),
    ("set without value", ("SET", "ik")),
    ("set int value", ("SET", "ik", Int(7))),
    ("set null value", ("SET", "ik", Raw(b"$-1\r\n"))),
    ("set array value", ("SET", "ik", Raw(b"*1\r\n+x\r\n"))),
    ("set non-utf8 key", ("SET", b"\xc3\x28", "v")),
    ("set int key", ("SET", Int(1), "v")),
    ("set nx", ("SET", "ik", "bad", "NX")),
    ("set xx", ("SET", "ik", "bad", "XX")),
    ("set get", ("SET", "ik", "bad", "GET")),
    ("set keepttl", ("SET", "ik", "bad", "KEEPTTL")),
    ("set exat", ("SET", "ik", "bad", "EXAT", "100")),
    ("set pxat", ("SET", "ik", "bad", "PXAT", "100")),
    ("set empty option", ("SET", "ik", "bad", "")),
    ("set ex without number", ("SET", "ik", "bad", "EX")),
    ("set px without number", ("SET", "ik", "bad", "PX")),
    ("set ex word", ("SET", "ik", "bad", "EX", "ten")),
    ("set ex empty", ("SET", "ik", "bad", "EX", "")),
    ("set ex negative", ("SET", "ik", "bad", "EX", "-1")),
    ("set ex signed", ("SET", "ik", "bad", "EX", "+5")),
    ("set px signed", ("SET", "ik", "bad", "PX", "+5000")),
    ("set ex minus zero", ("SET", "ik", "bad", "EX", "-0")),
    ("set px space after", ("SET", "ik", "bad", "PX", "10 ")),
    ("set px newline", ("SET", "ik", "bad", "PX", "10\r\n")),
    ("set ex exponent", ("SET", "ik", "bad", "EX", "1e3")),
    ("set ex separators", ("SET", "ik", "bad", "EX", "1_000")),
    ("set ex commas", ("SET", "ik", "bad", "EX", "1,000")),
    ("set ex unit", ("SET", "ik", "bad", "EX", "10s")),
    ("set px simple signed", ("SET", "ik", "bad", "PX", Simple(b"+10"))),
    ("client list id signed", ("CLIENT", "LIST", "ID", "+1")),
    ("client list id space", ("CLIENT", "LIST", "ID", "1", " 2")),
    ("client list id overflow", ("CLIENT", "LIST", "ID", "18446744073709551616")),
    ("client list id simple word", ("CLIENT", "LIST", "ID", Simple(b"1x"))),
    ("set ex float", ("SET", "ik", "bad", "EX", "1.5")),
    ("set ex trailing", ("SET", "ik", "bad", "EX", "10x")),
    ("set ex space", ("SET", "ik", "bad", "EX", " 10")),
    ("set ex overflow", ("SET", "ik", "bad", "EX", "18446744073709551616")),
    ("set ex overflow more", ("SET", "ik", "bad", "EX", "99999999999999999999999")),
    ("set px word", ("SET", "ik", "bad", "PX", "0x10")),
    ("set px overflow", ("SET", "ik", "bad", "PX", "18446744073709551616")),
    ("set px null", ("SET", "ik", "bad", "PX", Raw(b"$-1\r\n"))),
    ("set ex non-utf8", ("SET", "ik", "bad", "EX", b"\xff")),
    ("set px non-utf8", ("SET", "ik", "bad", "PX", b"1\x80")),
    ("set ex multibyte", ("SET", "ik", "bad", "EX", "\u0661\u0660")),
    ("set ex nul", ("SET", "ik", "bad", "EX", "1\x00")),
    ("set ex plus", ("SET", "ik", "bad", "EX", "\u2212" + "1")),
    ("client list non-utf8 filter", ("CLIENT", "LIST", b"\xff")),
    ("client list empty filter", ("CLIENT", "LIST", "")),
    ("client list multibyte filter", ("CLIENT", "LIST", "\u00e9" * 40)),
    ("client list non-utf8 type", ("CLIENT", "LIST", "TYPE", b"\xff")),
    ("client list empty type", ("CLIENT", "LIST", "TYPE", "")),
    ("client list non-utf8 id", ("CLIENT", "LIST", "ID", "1", b"\xfe")),
    ("client list empty id", ("CLIENT", "LIST", "ID", "")),
    ("set px array", ("SET", "ik", "bad", "PX", Raw(b"*0\r\n"))),
    ("set ex then more", ("SET", "ik", "bad", "EX", "10", "NX")),
    ("set ex then px", ("SET", "ik", "bad", "EX", "10", "PX", "10")),
    ("set ex then word", ("SET", "ik", "bad", "EX", "10", "x")),
    ("set option int", ("SET", "ik", "bad", Int(10))),
    ("set option non-utf8", ("SET", "ik", "bad", b"\xff")),
    ("ping two", ("PING", "a", "b")),
    ("ping int", ("PING", Int(5))),
    ("ping null", ("PING", Raw(b"$-1\r\n"))),
    ("ping array", ("PING", Raw(b"*1\r\n+a\r\n"))),
    ("hello args", ("HELLO", "3")),
    ("hello more", ("HELLO", "3", "AUTH", "a", "b")),
    ("client int", ("CLIENT", Int(5))),
    ("client null", ("CLIENT", Raw(b"$-1\r\n"))),
    ("client non-utf8", ("CLIENT", b"\xfe")),
    ("client id more", ("CLIENT", "ID", "x")),
    ("client info more", ("CLIENT", "INFO", "x")),
    ("client getname more", ("CLIENT", "GETNAME", "x")),
    ("client help more", ("CLIENT", "HELP", "x")),
    ("client setname none", ("CLIENT", "SETNAME")),
    ("client setname two", ("CLIENT", "SETNAME", "bad1", "bad2")),
    ("client setname int", ("CLIENT", "SETNAME", Int(5))),
    ("client setname null", ("CLIENT", "SETNAME", Raw(b"$-1\r\n"))),
    ("client setname non-utf8", ("CLIENT", "SETNAME", b"\xff")),
    ("client setinfo many", ("CLIENT", "SETINFO", "a", "b", "c")),
    ("client setinfo int", ("CLIENT", "SETINFO", "LIB-NAME", Int(1))),
    ("client list word", ("CLIENT", "LIST", "NOPE")),
    ("client list bad type", ("CLIENT", "LIST", "TYPE", "nope")),
    ("client list int type", ("CLIENT", "LIST", "TYPE", Int(1))),
    ("client list id word", ("CLIENT", "LIST", "ID", "x")),
    ("client list id negative", ("CLIENT", "LIST", "ID", "-1")),
    ("client list id 1 word", ("CLIENT", "LIST", "ID", "1", "TYPE", "normal")),
    ("client list int", ("CLIENT", "LIST", Int(1))),
    ("acl alone", ("ACL",)),
    ("acl int", ("ACL", Int(1))),
    ("acl cat two", ("ACL", "CAT", "a", "b")),
]

# bytes that are not the protocol: each ends its connection
JUNK = [
    b"\r\n", b"\n\n", b"PING\r\n", b"GET / HTTP/1.1\r\nHost: x\r\n\r\n", b"\x00\x00\x00\x00", b"\xff\xff\r\n",
    b"*x\r\n", b"*-2\r\n", b"*1x\r\n$4\r\nPING\r\n", b"* 1\r\n$4\r\nPING\r\n", b"*\r\n", b"$\r\n", b"$x\r\n", b":\r\n", b":x\r\n",
    b":1.5\r\n", b"$4\r\nPING\r\n", b"+PING\r\n", b"-PING\r\n", b":1\r\n", b"$-1\r\n", b"%0\r\n", b"%1\r\n+a\r\n:1\r\n",
    b"*1\r\n!4\r\nPING\r\n", b"*1\r\n$x\r\nPING\r\n", b"*1\r\n?\r\n", b"*1\r\n:x\r\n",
    b"*99999999999999999999999\r\n", b"*18446744073709551616\r\n", b"$18446744073709551615\r\n",
    b"$18446744073709551614\r\n", b"$99999999999999999999\r\n", b"%18446744073709551615\r\n",
    b"%9223372036854775808\r\n", b"*1\r\n$18446744073709551615\r\n", b"*1\r\n%18446744073709551615\r\n",
    b"*1\r\n$-2\r\n", b"*1\r\n$4x\r\nPING\r\n", b"_\r\n", b"#t\r\n", b",1.5\r\n", b"(1\r\n", b"~1\r\n+a\r\n", b">1\r\n+a\r\n",
    b"*1\r\n" * 40 + b"$4\r\nPING\r\n", b"*1\r\n" * 20000, b"*1\r\n+\xff\xfe\r\n", b"*2\r\n$4\r\nPING\r\n+\xc3\x28\r\n",
    b"$99999999999999999999999\r\nx", b"*1\r\n$+4\r\nPI",
]
JUNK.pop()  # "+4" is read as a number by some parsers: no claim about it

# texts with everything that could confuse an encoder
HOSTILE = [
    "\u00e9".encode() * 70, "a".encode() + "\u20ac".encode() * 50, "ab".encode() + "\u20ac".encode() * 700, "\U0001f413".encode() * 300,
    b"\r\n", b"\n", b"\r", b"\r\n+OK\r\n", b"\r\n$5\r\nhello\r\n", b"x\r\n-ERR forged\r\n", b"a\r\nb", b"a\nb", b"a\rb",
    b"\r\r\n\n", b"end\r", b"end\n", b"end\r\n", b"\r\nstart", b"$-1\r\n", b"*3\r\n:1\r\n:2\r\n:3\r\n", b"%1\r\n+a\r\n+b\r\n",
    b"\x00", b"\x00\r\n\x00", b"nul\x00inside", b"", b" ", b"a b", b"\t", b"\x7f", b"\x1b[31m", b"'", b"\"", b"\\r\\n", b"{}", b"{0}",
    b"%s%n", b"name=x id=1", b"x id=99 addr=1.2.3.4:5 laddr=0.0.0.0:0 fd=1 name=evil", b"evil\nid=7 addr=1.1.1.1:1 laddr=2.2.2.2:2 fd=9 name=z",
    b"\xc3\xa9", b"\xe2\x80\xa8", b"\xe2\x80\xa9", b"\xc2\x85", b"\xf0\x9f\x90\x93", b"\xc4\xb0", b"\xe2\x84\xaa", b"\xef\xbb\xbfPING",
    b"a" * 64, b"a" * 1023, b"b" * 1024, b"c" * 4095, b"d" * 4096, b"e" * 8191, b"f" * 8192, b"g" * 8200,
    (b"\r\n" * 2000), (b"+OK\r\n" * 500),
]
NOT_UTF8 = [b"\xff", b"\xfe\xff\r\n", b"\xc3", b"\xc3\x28", b"a\x80b", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", bytes(range(256)), b"\xff\r\n+OK\r\n"]


def is_utf8(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False
