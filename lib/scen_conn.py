"""Scenarios on connections: ids, lists, names, limit, dispatch, resources: C09-C13, C16."""
import itertools
import time

from reqs import *
from resp import Int, Raw, Simple
from runner import scenario


def _end(w, rng, c, how=None):
    """Ends c in one of the ways a connection can end; returns how."""
    how = how or rng.choice(["close", "half", "reset", "reject", "junk", "partial-close", "partial-half", "pipelined-close", "pipelined-reset"])
    if how == "close":
        w.close(c)
    elif how == "half":
        w.half(c)
        w.await_eof(c)
    elif how == "reset":
        w.reset(c)
    elif how == "reject":
        w.send(c, *rng.choice(INVALID)[1])
        w.await_eof(c)
    elif how == "junk":
        w.junk(c, rng.choice(JUNK))
        w.await_eof(c)
    elif how == "partial-close":
        w.partial(c, rng.choice([b"*", b"*2\r\n$3\r\nGET\r\n", b"*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$5\r\nab"]))
        w.flush(c)
        w.close(c)
    elif how == "partial-half":
        w.partial(c, rng.choice([b"*", b"*2\r\n$3\r\nGET\r\n", b"*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$5\r\nab"]))
        w.half(c)
        w.await_eof(c)
    elif how == "pipelined-close":
        w.many(c, [("PING", "x" * 3000)] * 30)
        w.pump(0)
        w.close(c)
    elif how == "pipelined-reset":
        w.many(c, [("PING", "x" * 3000)] * 30)
        w.pump(0.001)
        w.reset(c)
    return how


@scenario("C09", quick=2, thorough=20)
def ids(r):
    """Churn: ids asked in every way, on several connections at a time."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        mon = w.conn()
        live = []
        for step in range(60 if not r.deep else 250):
            for _ in range(rng.choice([1, 2, 5, 12])):
                live.append(w.conn())
            for c in live:
                if rng.random() < 0.5:
                    w.many(c, rng.sample([ID, HELLO, INFO, ID, PING], rng.randrange(1, 4)))
            if rng.random() < 0.6:
                w.sync()
            if rng.random() < 0.3:
                w.send(rng.choice([mon] + live), *LIST)
            while len(live) > 12:
                c = live.pop(rng.randrange(len(live)))
                rng.choice([w.close, w.half, w.reset])(c)
        w.sync()
        r.done(w)


@scenario("C09", quick=1, thorough=6)
def simultaneous(r):
    """Bursts of connections accepted by all the workers at once get different ids."""
    with r.server() as s:
        w = r.world(s)
        for burst in range(5 if not r.deep else 20):
            cs = [w.conn() for _ in range(100)]
            for c in cs:
                w.send(c, *ID, flush=False)
            w.sync()
            for c in cs[:30]:
                w.send(c, *r.rng.choice([ID, HELLO, INFO]))
            w.sync()
            w.call(cs[0], *LIST)
            for c in cs[10:]:
                w.close(c)
        r.done(w)


@scenario("C10", quick=3, thorough=30)
def lists(r):
    """CLIENT LIST while connections come, go and change their names."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        live = [w.conn() for _ in range(6)]
        ended = []
        for step in range(120 if not r.deep else 500):
            x = rng.random()
            if x < 0.2 or len(live) < 3:
                c = w.conn()
                live.append(c)
                if rng.random() < 0.7:
                    w.send(c, *rng.choice([ID, INFO, PING]))
            elif x < 0.35 and len(live) > 4:
                c = live.pop(rng.randrange(1, len(live)))
                how = _end(w, rng, c)
                ended.append(c)
                if how not in ("close", "reset") and rng.random() < 0.5:
                    pass
            elif x < 0.5:
                w.send(rng.choice(live), "CLIENT", "SETNAME", rng.choice(["a", "b", "", "long" * 20, "x-%d" % step]))
            elif x < 0.85:
                c = rng.choice(live)
                w.send(c, *rng.choice([LIST, LIST, INFO, ("client", "list", "TYPE", "normal"), ("CLIENT", "LIST", "type")]))
            else:
                w.sync(*live)
            if rng.random() < 0.1 and ended:
                w.gone(live[0], *ended)
                ended = []
                w.send(rng.choice(live), *LIST)
        w.sync()
        w.gone(live[0], *ended)
        w.call(live[1], *LIST)
        r.done(w)


@scenario("C10", quick=2, thorough=10)
def filters(r):
    """Every TYPE, and ID with one, several, repeated, unknown and closed ids."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        w.keep_raw = True
        cs = [w.conn() for _ in range(25)]
        idof = {}
        for c in cs:
            if rng.random() < 0.5:
                w.call(c, "CLIENT", "SETNAME", "f%d" % c)
            w.call(c, *ID)
            v = w.lastraw.get(c, ("int", 0))
            idof[c] = v[1] if v[0] == "int" else 0
        dead = cs[:5]
        cs = cs[5:]
        for c in dead:
            _end(w, rng, c, rng.choice(["close", "half", "reset", "reject"]))
        w.gone(cs[0], *dead)
        for t in ("normal", "NORMAL", "master", "MASTER", "replica", "Replica", "pubsub", "PubSub"):
            w.send(cs[0], "CLIENT", "LIST", "TYPE", t)
            w.send(cs[1], "client", "list", "type", Simple(t.encode()), "ID", str(idof[cs[3]]), str(idof[cs[4]]))
        w.sync()
        for q in [("TYPE",), ("TYPE", "replica", "TYPE"), ("TYPE", "normal", "TYPE"), ("ID",), ("TYPE", "pubsub", "ID"), ("TYPE", "master", "TYPE", "replica", "TYPE", "normal")]:
            w.send(rng.choice(cs), "CLIENT", "LIST", *q)
        allids = [idof[c] for c in cs]
        other = [idof[c] for c in dead] + [999999, 1000000, 18446744073709551615, 4294967296 + allids[0], 2 ** 32]
        for step in range(120 if not r.deep else 600):
            ids = rng.sample(allids, rng.choice([0, 1, 1, 2, 3, 8, len(allids)])) + rng.sample(other, rng.choice([0, 0, 1, 3]))
            if rng.random() < 0.2 and ids:
                ids.append(ids[0])
            rng.shuffle(ids)
            if rng.random() < 0.15:  # long lists: the ids that count among many that are nobody's
                ids += [rng.randrange(10 ** 6, 10 ** 9) for _ in range(rng.choice([12, 28, 60, 300]))]
                rng.shuffle(ids)
            args = [Int(i) if rng.random() < 0.3 else Simple(b"%d" % i) if rng.random() < 0.3 else str(i) for i in ids]
            pre = rng.choice([(), (), (), ("TYPE", "normal"), ("type", "normal", "TYPE", "NORMAL"), ("TYPE", "master"), ("TYPE", "master", "TYPE", "normal"), ("TYPE", "normal", "TYPE", "pubsub")])
            w.send(rng.choice(cs), "CLIENT", recase(rng, "list"), *pre, recase(rng, "id"), *args)
        w.sync()
        r.done(w)


@scenario("C10", quick=1, thorough=5)
def growth(r):
    """Listing while the number of connections grows and shrinks by the hundred."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        mons = [w.conn() for _ in range(3)]
        w.sync()
        live = []
        top = 480 if not r.deep else 2500
        while len(live) < top:
            for _ in range(60):
                c = w.conn()
                live.append(c)
                if rng.random() < 0.3:
                    w.send(c, "PING")
            w.send(rng.choice(mons), *LIST)
        w.sync()
        for c in mons:
            w.send(c, *LIST)
        w.sync()
        rng.shuffle(live)
        gone = live[:top - 50]
        for c in gone:
            w.close(c)
        w.call(mons[0], *LIST)
        w.gone(mons[0], *gone)
        w.call(mons[1], *LIST)
        r.done(w)


@scenario("C10 C16", quick=2, thorough=12)
def leavers(r):
    """However a connection ends, it stops being listed."""
    rng = r.rng
    kinds = ["close", "half", "reset", "reject", "junk", "partial-close", "partial-half", "pipelined-close", "pipelined-reset"]
    with r.server() as s:
        w = r.world(s)
        mon = w.conn()
        w.call(mon, *LIST)
        for rnd in range(3 if not r.deep else 12):
            cs = []
            rng.shuffle(kinds)
            for k in kinds * 2:
                c = w.conn()
                if rng.random() < 0.8:
                    w.many(c, [("CLIENT", "SETNAME", k), PING])
                    w.sync(c)
                cs.append((c, k))
            for c, k in cs:
                _end(w, rng, c, k)
            w.gone(mon, *[c for c, _ in cs])
            w.call(mon, *LIST)
        w.check_fds()
        r.done(w)


@scenario("C11", quick=3, thorough=20)
def names(r):
    """Names are set, read back in three ways, changed, removed, refused, and never shared."""
    rng = r.rng
    good = ["a", "Name", "x" * 200, "conn-1", "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~", "0", "(x)", "id=5", "name=z", "A" * 48, "b" * 49, "null", "~t"]
    bad = [" ", "a b", "a\n", "\r\n", "a\r\nb", "\t", "\x00", "a\x7f", "é", "\x1b[0m", "x" * 300 + " ", " lead", "trail ", "\u2028", "ok\nid=9"]
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(10)]
        for step in range(250 if not r.deep else 800):
            c = rng.choice(cs)
            x = rng.random()
            if x < 0.35:
                w.send(c, "CLIENT", recase(rng, "setname"), maybe_simple(rng, rng.choice(good)))
            elif x < 0.42:
                w.send(c, "CLIENT", "SETNAME", rng.choice(["", Simple(b"")]))
            elif x < 0.55:
                w.send(c, "CLIENT", "SETNAME", rng.choice(bad))
            elif x < 0.7:
                w.send(c, *GETNAME)
            elif x < 0.8:
                w.send(c, *INFO)
            elif x < 0.88:
                w.send(c, *LIST)
            elif x < 0.9:
                w.send(c, "CLIENT", "SETINFO", "LIB-NAME", "notaname")
            elif x < 0.96:
                i = cs.index(c)
                (w.close if rng.random() < 0.5 else w.half)(c)
                cs[i] = w.conn()
                w.many(cs[i], [GETNAME, INFO])
            else:
                w.sync()
            w.pump(rng.choice([0, 0, 0.001]))
        w.sync()
        for c in cs:
            w.many(c, [GETNAME, INFO])
        w.call(cs[0], *LIST)
        w.sync()
        r.done(w)


# ---------------------------------------------------------------------------
def _answered(w, cs):
    return [c for c in cs if w.conns[c].proved and not w.conns[c].closed and not w.conns[c].eof]


def _settle(w, waiting, expect, deadline=10.0):
    """Wait until as many connections as there is room for are served."""
    return w.wait(lambda: len(_answered(w, waiting)) >= expect, deadline)


@scenario("C12", quick=3, thorough=25)
def limits(r):
    """More clients than places; they end in every way; every place comes back exactly once."""
    rng = r.rng
    limit = rng.choice([1, 2, 3, 4, 5, 8, 16])
    with r.server(limit=limit) as s:
        w = r.world(s, "limit %d" % limit)
        live = []
        rounds = max(12, 3 * limit) if not r.deep else max(40, 8 * limit)
        for rnd in range(rounds):
            want = limit + rng.choice([1, 2, 4])
            while len(live) < want:
                c = w.conn()
                w.many(c, rng.choice([[PING], [ID, PING], [PING, ("SET", "l%d" % c, "v"), ("GET", "l%d" % c)]]))
                live.append(c)
            ok = _settle(w, live, limit)
            if not ok and not w.dead:
                w.log({"e": "starve"})
                break
            w.sleep(rng.choice([0, 0.005, 0.03]))  # nobody else gets in meanwhile
            served = _answered(w, live)
            if rng.random() < 0.3 and len(live) > len(served):
                # one that waits leaves: it must not free a place
                c = rng.choice([c for c in live if c not in served])
                rng.choice([w.close, w.reset])(c)
                live.remove(c)
                w.sleep(0.03)
            for c in rng.sample(served, rng.randrange(1, len(served) + 1)):
                how = rng.choice(["close", "half", "reset", "reject", "junk", "partial-close", "partial-half", "pipelined-close", "pipelined-reset"])
                _end(w, rng, c, how)
                live.remove(c)
        # a full set of fresh connections at the end
        for c in live:
            w.close(c)
        fresh = [w.conn() for _ in range(limit)]
        for c in fresh:
            w.send(c, "PING")
        if not _settle(w, fresh, limit, 25.0) and not w.dead:
            w.log({"e": "starve"})
        else:
            extra = w.conn()
            w.send(extra, "PING")
            w.sleep(0.3)
            w.close(fresh[0])
            if not _settle(w, [extra], 1, 25.0) and not w.dead:
                w.log({"e": "starve"})
        # connections that were left waiting are not judged by finish
        for c in list(w.conns):
            if not w.conns[c].proved:
                w.close(c)
        r.done(w)


@scenario("C12 C16", quick=1, thorough=6)
def reuse(r):
    """Many more connections one after the other than there are places."""
    rng = r.rng
    limit = rng.choice([2, 5, 10])
    with r.server(limit=limit) as s:
        w = r.world(s, "limit %d" % limit)
        for k in range(120 if not r.deep else 1000):
            c = w.conn()
            w.send(c, "PING")
            if not w.sync(c):
                break
            _end(w, rng, c)
        w.check_fds()
        cs = [w.conn() for _ in range(limit)]
        for c in cs:
            w.send(c, "PING")
        w.sync()
        w.check_fds()
        r.done(w)


@scenario("C12", quick=1, thorough=4)
def big_limit(r):
    """A limit of hundreds or thousands is reached exactly and not passed."""
    rng = r.rng
    limit = rng.choice([1025, 1100, 1300]) if not r.deep else rng.choice([100, 255, 256, 257, 400, 2050, 3000, 4100])
    with r.server(limit=limit) as s:
        w = r.world(s, "limit %d" % limit)
        cs = []
        for _ in range(limit + 20):
            c = w.conn()
            w.send(c, "PING", flush=False)
            cs.append(c)
        if not _settle(w, cs, limit, 25.0) and not w.dead:
            w.log({"e": "starve"})
        w.sleep(0.3)
        served = _answered(w, cs)
        for c in served[:20]:
            w.close(c)
        left = [c for c in cs if c not in served]
        if not _settle(w, left, min(20, len(left)), 25.0) and not w.dead:
            w.log({"e": "starve"})
        r.done(w)


MB = 1 << 20


def _backed_up(w, rng, c, how):
    """c asks for 64 MB, does not read and stops sending (or sends a refused request)."""
    w.conns[c].paused = True
    w.many(c, [("GET", "large%d" % c)] * 64)
    if how == "half":
        w.half(c)
    elif how == "reject":
        w.send(c, *rng.choice(INVALID)[1])
    elif how == "junk":
        w.junk(c, rng.choice(JUNK))
    w.flush(c)
    w.backed(c, 64 * MB)


def _backed(r, limit, k):
    """Connections with replies outstanding, whose clients said they have no more to ask: they hold their
    places and are listed, however long they take to read."""
    rng = r.rng
    with (r.server(limit=limit) if limit else r.server()) as s:
        w = r.world(s, "limit %s" % limit)
        mon = w.conn()
        cs = [w.conn() for _ in range(k)]
        for c in cs:
            w.call(c, "CLIENT", "SETNAME", "b%d" % c)
            w.call(mon, "SET", "large%d" % c, b"L" * MB)
        hows = ["half", "half", "stay", "reject", "junk"]
        for i, c in enumerate(cs):
            _backed_up(w, rng, c, hows[i % len(hows)])
        extra = []
        for _ in range(3):
            c = w.conn()
            w.many(c, [PING, ("CLIENT", "LIST")])
            extra.append(c)
        for pause in (0.1, 0.4, 1.0 if not r.deep else 20.0):
            w.sleep(pause)
            w.call(mon, "CLIENT", "LIST")
        # some leave, some read
        done = []
        rng.shuffle(cs)
        for c in cs[:len(cs) // 2]:
            rng.choice([w.close, w.reset])(c)
            done.append(c)
        w.gone(mon, *done)
        w.call(mon, "CLIENT", "LIST")
        for c in cs[len(cs) // 2:]:
            w.conns[c].paused = False
            w.sync(c)
            if w.conns[c].half:
                w.await_eof(c)
        if not _settle(w, extra, 3, 25.0) and not w.dead:
            w.log({"e": "starve"})
        w.call(mon, "CLIENT", "LIST")
        for c in extra:
            w.close(c)
        r.done(w)


@scenario("C12", quick=1, thorough=5)
def backed_places(r):
    """Connections that are slow to read keep their places to the end."""
    _backed(r, 6, 5)


@scenario("C10", quick=1, thorough=5)
def backed_listed(r):
    """Connections that are slow to read are listed to the end."""
    _backed(r, None, 8)


# ---------------------------------------------------------------------------
def cases(word, cap=64, rng=None):
    opts = ["".join(t) for t in itertools.product(*[(ch.lower(), ch.upper()) for ch in word])]
    if len(opts) > cap:
        opts = rng.sample(opts, cap)
    return opts


DOCUMENTED = {
    "ping": [()], "get": [("ck",)], "set": [("ck", "v")], "hello": [()], "client": [("id",)], "acl": [("cat",)],
}
SUBS = {"id": [()], "info": [()], "getname": [()], "help": [()], "list": [()], "setname": [("cn",)], "setinfo": [("LIB-NAME", "x")]}


@scenario("C13", quick=1, thorough=3)
def letter_cases(r):
    """Every way to write the names of the commands, subcommands and options."""
    rng = r.rng
    cap = 64 if not r.deep else 200
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(8)]
        jobs = []
        for name, argl in DOCUMENTED.items():
            for v in cases(name, cap, rng):
                for a in argl:
                    jobs.append((v,) + a)
                    jobs.append((Simple(v.encode()),) + a)
        for name, argl in SUBS.items():
            for v in cases(name, cap, rng):
                for a in argl:
                    jobs.append(("client", v) + a)
                    jobs.append((recase(rng, "client"), Simple(v.encode())) + a)
        for v in cases("cat") + ["CAT"]:
            jobs.append(("acl", v))
            jobs.append(("acl", v, "string"))
        for v in cases("ex") + cases("px"):
            jobs.append(("SET", "ck", "v", v, "100000"))
            jobs.append(("SET", "ck", "v", Simple(v.encode()), Int(100000)))
        for t in ("normal", "master", "replica", "pubsub"):
            for v in cases(t, 32, rng):
                for u in rng.sample(cases("type"), 2):
                    jobs.append(("client", "list", u, v))
        for v in cases("id"):
            jobs.append(("client", "list", v, "0", "1", "2"))
            jobs.append(("client", "list", "type", "normal", v, "3"))
        rng.shuffle(jobs)
        for j in jobs:
            c = rng.choice(cs)
            if j[0] in ("SET",) or len(j) > 1 and j[-1] in ("ck", "v", "cn") or True:
                # keys of the connection's own, so that the histories stay small
                j = tuple("ck%d" % c if x == "ck" else x for x in j)
            w.send(c, *j, flush=False)
        w.sync()
        r.done(w)


UNKNOWN = ["", " ", "pin", "pingg", "ping ", " ping", "p", "ge", "gett", "sett", "se", "getset", "setex", "del", "exists", "incr", "keys", "flushall", "shutdown",
           "config", "info", "command", "quit", "auth", "select", "echo", "clients", "clien", "client id", "client|id", "acls", "ac", "hell", "helloo",
           "multi", "exec", "subscribe", "monitor", "debug", "eval", "0", "-1", "*", "$", "ping\x00", "\x00ping", "GET\x00", "pïng", "ＰＩＮＧ", "unknown",
           "x" * 500, "ping-pong", "set_", "get.", "PING PING", "\u017fet", "\u017fET", "\u0261et", "he\u2113lo", "p\u0131ng", "P\u0130NG", "cl\u0131ent", "CL\u0130ENT", "\u0131d", "\u0130D", "l\u0131\u017ft", "\u017fetname", "\u212a", "ge\u0165",
           "\u00e9" * 70, "a" + "\u20ac" * 50, "ab" + "\u20ac" * 50, "id", "list", "setname", "cat", "ex", "px", "type", "normal", "none"]


REDIS = """append asking auth bgrewriteaof bgsave bitcount bitfield bitfield_ro bitop bitpos blmove blmpop blpop brpop brpoplpush bzmpop bzpopmax bzpopmin cluster
command config copy dbsize debug decr decrby del discard dump echo eval eval_ro evalsha evalsha_ro exec exists expire expireat expiretime failover fcall fcall_ro
flushall flushdb function geoadd geodist geohash geopos georadius georadiusbymember geosearch geosearchstore getbit getdel getex getrange getset hdel hexists
hget hgetall hincrby hincrbyfloat hkeys hlen hmget hmset hrandfield hscan hset hsetnx hstrlen hvals incr incrby incrbyfloat info keys lastsave latency lcs lindex
linsert llen lmove lmpop lolwut lpop lpos lpush lpushx lrange lrem lset ltrim memory mget migrate module monitor move mset msetnx multi object persist pexpire
pexpireat pexpiretime pfadd pfcount pfdebug pfmerge pfselftest psetex psubscribe psync pttl publish pubsub punsubscribe quit randomkey readonly readwrite rename
renamenx replconf replicaof reset restore role rpop rpoplpush rpush rpushx sadd save scan scard script sdiff sdiffstore select setbit setex setnx setrange shutdown
sinter sintercard sinterstore sismember slaveof slowlog smembers smismember smove sort sort_ro spop spublish srandmember srem sscan ssubscribe strlen subscribe
substr sunion sunionstore sunsubscribe swapdb sync time touch ttl type unlink unsubscribe unwatch wait waitaof watch xack xadd xautoclaim xclaim xdel xgroup xinfo
xlen xpending xrange xread xreadgroup xrevrange xsetid xtrim zadd zcard zcount zdiff zdiffstore zincrby zinter zintercard zinterstore zlexcount zmpop zmscore
zpopmax zpopmin zrandmember zrange zrangebylex zrangebyscore zrangestore zrank zrem zremrangebylex zremrangebyrank zremrangebyscore zrevrange zrevrangebylex
zrevrangebyscore zrevrank zscan zscore zunion zunionstore""".split()
REDIS_SUBS = {"client": "caching getredir help kill no-evict no-touch pause reply tracking trackinginfo unblock unpause info2 ids lists names count",
              "acl": "deluser dryrun genpass getuser help list load log save setuser users whoami"}


@scenario("C13", quick=1, thorough=4)
def redis_names(r):
    """Every command of Redis that is not documented here, in the forms in which Redis takes it."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(6)]
        w.call(cs[0], "SET", "rn", "5")
        forms = [(), ("rn",), ("rn", "1"), ("rn", "1", "2"), ("rn", "f", "v", "g")]
        jobs = [((n,), f) for n in REDIS if n not in DOCUMENTED for f in forms]
        jobs += [((n, x), f) for n, l in REDIS_SUBS.items() for x in l.split() if (n == "acl" and x != "cat" or n == "client" and x not in SUBS) for f in [(), ("1",), ("a", "on")]]
        rng.shuffle(jobs)
        for i, (head, f) in enumerate(jobs):
            w.send(rng.choice(cs), *[recase(rng, x) for x in head], *f, flush=False)
            if i % 40 == 0:
                w.send(rng.choice(cs), "GET", "rn", flush=False)
                w.sync()
        w.sync()
        r.done(w)


@scenario("C13 C04", quick=1, thorough=3)
def unknown_names(r):
    """Names that are not documented get an error that names them, and the connection goes on."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(6)]
        odd = [(), ("a",), ("a", "b", "c"), (Int(5),), (Raw(b"$-1\r\n"),), (Raw(b"*2\r\n:1\r\n+x\r\n"), "z"), (Raw(b"%1\r\n+a\r\n:1\r\n"),), (b"\xff\xfe",),
               (Raw(b"-ERR\r\n"),), ("x" * 9000,), ("k", "v", "EX", "10"), tuple("a" for _ in range(200))]
        names_ = [n for n in UNKNOWN if n.lower() not in ("id", "list") or True]
        for n in names_:
            for rep in range(3 if not r.deep else 12):
                c = rng.choice(cs)
                a = rng.choice(odd)
                v = recase(rng, n)
                x = rng.random()
                if x < 0.5:
                    if n.lower() not in DOCUMENTED:
                        w.send(c, maybe_simple(rng, v), *a, flush=False)
                elif x < 0.8:
                    if n.lower() not in SUBS:
                        w.send(c, recase(rng, "client"), maybe_simple(rng, v), *a, flush=False)
                elif n.lower() != "cat":
                    w.send(c, recase(rng, "acl"), maybe_simple(rng, v), *a, flush=False)
                if rng.random() < 0.4:
                    w.send(c, *rng.choice([PING, GETNAME, ("SET", "un%d" % c, "v"), ("GET", "un%d" % c), INFO]), flush=False)
        w.sync()
        w.call(cs[0], *LIST)
        r.done(w)


@scenario("C13 C08", quick=1, thorough=3)
def encodings(r):
    """Accepted requests in every mixture of bulk, simple and integer arguments."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(6)]

        def enc(x):
            y = rng.random()
            if y < 0.3:
                return Simple(x.encode())
            return x

        for step in range(600 if not r.deep else 3000):
            c = rng.choice(cs)
            k = "en%d" % c
            n = str(rng.choice([100000, 200000, 999999]))
            num = rng.choice([n, Simple(n.encode()), Int(int(n)), "000" + n])
            q = rng.choice([
                (enc(recase(rng, "set")), enc(k), enc("v%d" % step)),
                (enc(recase(rng, "set")), enc(k), enc("v%d" % step), enc(recase(rng, "px")), num),
                (enc(recase(rng, "set")), enc(k), b"\xff%d" % step, enc(recase(rng, "ex")), num),
                (enc(recase(rng, "get")), enc(k)),
                (enc(recase(rng, "ping")),),
                (enc(recase(rng, "ping")), enc("m")),
                (enc(recase(rng, "client")), enc(recase(rng, "setname")), enc("nm%d" % step)),
                (enc(recase(rng, "client")), enc(recase(rng, "getname"))),
                (enc(recase(rng, "client")),),
                (enc(recase(rng, "client")), enc("setinfo")),
                (enc(recase(rng, "client")), enc("setinfo"), enc("lib-name")),
                (enc(recase(rng, "client")), enc("setinfo"), b"\xff", enc("x")),
                (enc(recase(rng, "hello")),),
                (enc(recase(rng, "client")), enc(recase(rng, "id"))),
            ])
            w.send(c, *q, flush=False)
            if rng.random() < 0.05:
                w.sync()
        w.sync()
        r.done(w)


# ---------------------------------------------------------------------------
@scenario("C16 C12", quick=2, thorough=12)
def endings(r):
    """Histories of connections ending in every way: descriptors go back to the open ones."""
    rng = r.rng
    kinds = ["close", "half", "reset", "reject", "junk", "partial-close", "partial-half", "pipelined-close", "pipelined-reset"]
    with r.server() as s:
        w = r.world(s)
        keep = [w.conn() for _ in range(4)]
        for c in keep:
            w.call(c, "PING")
        for rnd in range(5 if not r.deep else 25):
            cs = [w.conn() for _ in range(18)]
            for c in cs:
                if rng.random() < 0.6:
                    w.many(c, [PING, ("SET", "en%d" % c, "v" * rng.choice([1, 5000])), ("GET", "en%d" % c)])
                elif rng.random() < 0.3:
                    w.conns[c].paused = True
                    w.many(c, [("PING", b"z" * 60000)] * 30)
            w.pump(0.005)
            for i, c in enumerate(cs):
                if w.conns[c].paused:
                    rng.choice([w.close, w.reset])(c)
                else:
                    _end(w, rng, c, kinds[i % len(kinds)])
            w.check_fds()
            for c in keep:
                w.send(c, *rng.choice([PING, ID, LIST]))
            w.sync(*keep)
        w.gone(keep[0], *[c for c in w.conns if c not in keep])
        r.done(w)
