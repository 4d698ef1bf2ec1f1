"""Scenarios in which all the workers find what is to do at the same moment: the server is
stopped (SIGSTOP) while the clients act, and goes on once the kernel has it all. And those
in which there are few workers, so that every connection meets the others on the same one."""
import time

from reqs import *
from runner import scenario


@scenario("C12", quick=2, thorough=12)
def rush_places(r):
    """Many more clients than places arrive and leave, again and again, on all workers at once."""
    rng = r.rng
    limit = rng.choice([1, 2, 3])
    with r.server(limit=limit) as s:
        w = r.world(s, "limit %d" % limit)
        cs = []
        for rnd in range(220 if not r.deep else 1500):
            with w.together():
                for c in cs:
                    (w.close if rng.random() < 0.5 else w.reset)(c)
                cs = [w.conn() for _ in range(limit + rng.choice([7, 12]))]
                for c in cs:
                    w.send(c, "PING", flush=False)
            done = lambda: [c for c in cs if w.conns[c].proved]
            if not w.wait(lambda: len(done()) >= limit, 25.0):
                if not w.dead:
                    w.log({"e": "starve"})
                break
            w.pump(0)
        # none was lost and none was gained on the way
        for c in cs:
            w.close(c)
        fresh = [w.conn() for _ in range(limit + 9)]
        for c in fresh:
            w.send(c, "PING", flush=False)
        if not w.wait(lambda: sum(w.conns[c].proved for c in fresh) >= limit, 25.0) and not w.dead:
            w.log({"e": "starve"})
        w.sleep(0.3)
        for c in list(w.conns):
            if not w.conns[c].proved:
                w.close(c)
        r.done(w)


@scenario("C05 C06", quick=2, thorough=12)
def rush_keys(r):
    """Readers and writers of the same few keys, some of which have just expired, all at once."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        cs = [w.conn() for _ in range(24)]
        keys = ["rk%d" % i for i in range(5)]
        n = 0
        for rnd in range(160 if not r.deep else 900):
            for k in keys:
                if rng.random() < 0.6:
                    n += 1
                    w.send(rng.choice(cs), "SET", k, "t%d" % n, "PX", str(rng.choice([0, 1, 2])))
            w.sync()
            if rng.random() < 0.8:
                w.sleep(0.007)
            with w.together():
                free = cs[:]
                rng.shuffle(free)
                for k in keys:
                    for _ in range(rng.choice([1, 2, 3])):
                        w.send(free.pop(), "GET", k, flush=False)
                    n += 1
                    c = free.pop()
                    w.send(c, "SET", k, "f%d" % n, *rng.choice([(), (), ("PX", "1"), ("EX", "5")]), flush=False)
                    if rng.random() < 0.4:
                        w.send(c, "GET", k, flush=False)
            w.sync()
            for k in keys:
                w.send(rng.choice(cs), "GET", k, flush=False)
            w.sync()
        r.done(w, groups=[[k] for k in keys])


@scenario("C09 C10 C11", quick=1, thorough=8)
def rush_registry(r):
    """Connections come, name themselves, are listed and leave on all workers at once."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        mons = [w.conn() for _ in range(8)]
        for c in mons:
            w.call(c, *PING)
        live = []
        for rnd in range(50 if not r.deep else 300):
            gone = []
            with w.together():
                for c in rng.sample(live, len(live) // 2 if len(live) > 30 else len(live) // 4):
                    live.remove(c)
                    gone.append(c)
                    (w.close if rng.random() < 0.5 else w.reset)(c)
                for _ in range(rng.choice([4, 9, 14])):
                    c = w.conn()
                    live.append(c)
                    w.many(c, rng.choice([[ID], [HELLO, GETNAME], [("CLIENT", "SETNAME", "rush%d" % c), GETNAME, INFO], [LIST], [PING]]))
                for c in rng.sample(live, min(len(live), 5)):
                    w.send(c, *rng.choice([ID, INFO, GETNAME, ("CLIENT", "SETNAME", "again%d-%d" % (c, rnd)), ("CLIENT", "SETNAME", "")]), flush=False)
                for c in rng.sample(mons, 2):
                    w.send(c, *LIST, flush=False)
            w.sync()
            if rng.random() < 0.3:
                for c in rng.sample(live, min(len(live), 6)):
                    w.many(c, [ID, GETNAME, INFO])
                w.send(rng.choice(mons), *LIST, flush=False)
                w.sync()
        w.call(mons[0], *LIST)
        r.done(w)


@scenario("C16 C08", quick=1, thorough=8)
def rush_ends(r):
    """Connections that end in every way, all at the same moment, with requests before it."""
    rng = r.rng
    with r.server() as s:
        w = r.world(s)
        mon = w.conn()
        w.call(mon, *PING)
        for rnd in range(30 if not r.deep else 200):
            cs = [w.conn() for _ in range(24)]
            for c in cs:
                if rng.random() < 0.5:
                    w.send(c, "PING", flush=False)
            w.sync()
            eof = []
            with w.together():
                for c in cs:
                    how = rng.choice(["close", "half", "reset", "reject", "junk", "reject-last"])
                    if rng.random() < 0.7:
                        w.many(c, [("SET", "re%d" % c, "v"), ("GET", "re%d" % c), PING][:rng.randrange(1, 4)])
                    if how in ("close", "reset"):
                        w.flush(c)
                        (w.close if how == "close" else w.reset)(c)
                        continue
                    eof.append(c)
                    if how == "half":
                        w.half(c)
                    elif how == "junk":
                        w.junk(c, rng.choice(JUNK))
                    else:
                        w.send(c, "SET", "re%d" % c, "x", "NX", flush=False)
                        if how == "reject":
                            w.send(c, "SET", "re%d" % c, "y", flush=False)
            w.sync()
            w.await_eof(*eof)
            for c in rng.sample(cs, 6):
                w.send(mon, "GET", "re%d" % c, flush=False)
            w.sync(mon)
        w.check_fds()
        r.done(w)


@scenario("C01 C05 C07 C10 C12 C16", quick=1, thorough=8)
def few_workers(r):
    """One, two and three workers: what a connection does to the others of its worker."""
    rng = r.rng
    for cpus in (1, 2, 3, 1) if not r.deep else (1, 1, 1, 2, 3, 5):
        limit = rng.choice([40, 20000])
        with r.server(cpus=cpus, limit=limit) as s:
            w = r.world(s, "workers %d, limit %d" % (cpus, limit))
            good = [w.conn() for _ in range(12)]
            for c in good:
                w.many(c, [("CLIENT", "SETNAME", "fw%d" % c), PING])
            w.sync()
            lazy = []
            for _ in range(3):
                # more replies than the kernel keeps are due to them: their answerers wait
                c = w.conn(rcvbuf=4096)
                w.conns[c].paused = True
                w.many(c, [("PING", b"%d" % j + bytes([65 + j % 26]) * 60000) for j in range(80)] + [PING, ID])
                lazy.append(c)
            keys = ["fk%d" % j for j in range(3)]
            n = 0
            for step in range(40 if not r.deep else 200):
                x = rng.random()
                c = w.conn() if len([1 for k in w.conns.values() if not k.closed and not k.eof]) < 36 else None
                if c is None:
                    pass
                elif x < 0.15:
                    w.junk(c, rng.choice(JUNK))
                elif x < 0.3:
                    w.many(c, [PING, LIST])
                    w.send(c, "SET", rng.choice(keys), "no", "NX", flush=False)
                    w.send(c, *PING, flush=False)
                elif x < 0.45:
                    w.junk(c, rng.choice([b"*2\r\n$3\r\nGET\r\n", b"*1\r\n$400000000\r\nab", b"*", b"*3\r\n$3\r\nSET\r\n$2\r\nfk\r\n$9000\r\n" + b"x" * 5000]))
                    w.flush(c)
                    w.close(c)
                elif x < 0.6:
                    w.many(c, [("PING", "m%d" % j) for j in range(300)])
                    w.half(c)
                elif x < 0.75:
                    w.many(c, [PING, ID])
                    w.flush(c)
                    w.reset(c)
                else:
                    w.many(c, [("CLIENT", "SETNAME", "short%d" % c), GETNAME])
                    w.half(c)
                for g in rng.sample(good, 5):
                    n += 1
                    w.send(g, *rng.choice([PING, GETNAME, ID, INFO, ("GET", rng.choice(keys)), ("SET", rng.choice(keys), "v%d" % n),
                                           ("SET", rng.choice(keys), "p%d" % n, "PX", "3"), LIST]), flush=False)
                if rng.random() < 0.5:
                    w.sync(*good)
            w.sync(*good)
            for c in lazy[1:]:
                w.conns[c].paused = False
                w.half(c)
            w.reset(lazy[0])
            w.sync()
            w.await_eof(*lazy[1:])
            for g in good:
                w.many(g, [GETNAME, PING])
            w.sync()
            w.call(good[0], *LIST)
            for c in list(w.conns):
                if c not in good and not w.conns[c].closed:
                    w.close(c)
            w.check_fds()
            r.done(w)


@scenario("C11 C05", quick=1, thorough=8)
def acknowledged(r):
    """What has been acknowledged is so for everybody at once, however busy the worker that did it."""
    rng = r.rng
    work = Raw(b"*8000\r\n" + b":1\r\n" * 8000)
    for cpus in (2, 3):
        with r.server(cpus=cpus) as s:
            w = r.world(s, "workers %d" % cpus)
            setters = [w.conn() for _ in range(8)]
            mons = [w.conn() for _ in range(8)]
            busy = [w.conn() for _ in range(10)]
            for c in setters + mons + busy:
                w.many(c, [("CLIENT", "SETNAME", "old%d" % c), PING])
            w.sync()
            for rnd in range(25 if not r.deep else 200):
                with w.together():
                    for c in busy:
                        w.conns[c].paused = True
                        w.many(c, [("BUSY", work)] * 3)
                    for c in setters:
                        w.send(c, *rng.choice([("CLIENT", "SETNAME", "ack%d-%d" % (rnd, c)), ("SET", "ack%d" % c, "a%d" % rnd), ("SET", "ack%d" % c, "p%d" % rnd, "EX", "9"),
                                               ("CLIENT", "SETNAME", "")]), flush=False)
                todo = set(setters)
                end = time.monotonic() + 25
                while todo and time.monotonic() < end and not w.dead:
                    w.pump(0.001)
                    for c in [c for c in todo if w.settled(w.conns[c])]:
                        todo.remove(c)
                        w.send(rng.choice(mons), *LIST)
                        for m in rng.sample(mons, 3):
                            w.send(m, "GET", "ack%d" % c)
                for c in busy:
                    w.conns[c].paused = False
                w.sync()
            r.done(w)
