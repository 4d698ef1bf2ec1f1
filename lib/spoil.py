"""Self-test of the acceptor: recorded histories, spoiled in a way that breaks the
property, must be refused by the specification (with the clauses of the property).

Each spoiler returns the events of a spoiled history (or None) and the index of the
spoiled event; what comes long after it is cut off."""
import collections
import copy
import random

import tlc

SPOILERS = collections.defaultdict(list)
TAIL = 600
HEAD = 6000


def spoiler(props):
    def deco(fn):
        for p in props.split():
            SPOILERS[p].append(fn)
        return fn
    return deco


def pick(rng, ev, cond):
    n = len(ev)
    for _ in range(60):
        k = rng.randrange(n)
        if cond(k, ev[k]):
            return k
    for k in range(n):
        if cond(k, ev[k]):
            return k
    return None


def kind(e, *ks):
    return e["e"] == "recv" and e["r"]["k"] in ks


def reqs_of(ev):
    """index of a recv -> event of its request."""
    by = {e["i"]: e for e in ev if e["e"] == "send" and "i" in e}
    return {k: by[e["i"]] for k, e in enumerate(ev) if e["e"] == "recv" and e.get("i") in by}


def set_value(ev, k, rq, r):
    ev[k]["r"] = r
    rq["res"] = "(nil)" if r["k"] == "null" else r["v"] if r["k"] == "bulk" else "?"


@spoiler("C01 C02 C03 C05 C06 C07 C08 C11 C13")
def reply_lost(ev, rng, h):
    """a reply is missing, a later one on that connection has another content"""
    nxt = {}
    ok = set()
    for k in range(len(ev) - 1, -1, -1):
        e = ev[k]
        if e["e"] == "recv":
            if e["c"] in nxt and nxt[e["c"]]["k"] != e["r"]["k"]:
                ok.add(k)
            nxt[e["c"]] = e["r"]
    k = pick(rng, ev, lambda k, e: k in ok)
    if k is None:
        return None
    del ev[k]
    return k


@spoiler("C01 C02 C03 C04 C07 C13")
def reply_twice(ev, rng, h):
    """one reply more than requests"""
    last = {}
    for k, e in enumerate(ev):
        if e["e"] == "recv":
            last[e["c"]] = k
    k = pick(rng, ev, lambda k, e: last.get(e.get("c")) == k)
    if k is None:
        return None
    ev.insert(k + 1, copy.deepcopy(ev[k]))
    return k + 1


@spoiler("C01 C02")
def replies_swapped(ev, rng, h):
    """two replies in the wrong order"""
    prev = {}
    pairs = {}
    for k, e in enumerate(ev):
        if e["e"] == "recv":
            p = prev.get(e["c"])
            if p is not None and ev[p]["r"]["k"] != e["r"]["k"]:
                pairs[k] = p
            prev[e["c"]] = k
    k = pick(rng, ev, lambda k, e: k in pairs)
    if k is None:
        return None
    p = pairs[k]
    ev[k]["r"], ev[p]["r"] = ev[p]["r"], ev[k]["r"]
    return k


@spoiler("C01 C08")
def end_before_reply(ev, rng, h):
    """the stream ends while an accepted request is not answered"""
    k = pick(rng, ev, lambda k, e: e["e"] == "recv")
    if k is None:
        return None
    c = ev[k]["c"]
    ev[k:] = [{"e": "eof", "c": c}] + [e for e in ev[k:] if e.get("c") != c]
    return k


@spoiler("C03 C04 C07")
def garbage(ev, rng, h):
    k = pick(rng, ev, lambda k, e: e["e"] == "recv")
    if k is None:
        return None
    ev[k]["r"] = {"k": "garbage", "v": "x"}
    return k


@spoiler("C01 C07 C12")
def reply_never(ev, rng, h):
    """no reply before the deadline, on a connection that was served"""
    proved = set()
    ok = set()
    for k, e in enumerate(ev):
        if e["e"] == "recv":
            if e["c"] in proved:
                ok.add(k)
            proved.add(e["c"])
    k = pick(rng, ev, lambda k, e: k in ok)
    if k is None:
        return None
    ev[k:] = [{"e": "late", "c": ev[k]["c"]}]
    return k


@spoiler("C04 C07")
def died(ev, rng, h):
    k = rng.randrange(len(ev))
    ev[k:] = [{"e": "died"}]
    return k


@spoiler("C03 C04")
def echo_changed(ev, rng, h):
    rq = reqs_of(ev)
    k = pick(rng, ev, lambda k, e: k in rq and kind(e, "bulk") and len(rq[k]["args"]) == 2 and rq[k]["args"][0]["v"].lower() == "ping")
    if k is None:
        return None
    set_value(ev, k, rq[k], {"k": "bulk", "v": ev[k]["r"]["v"] + "!"})
    return k


def is_get(rq, k):
    return k in rq and len(rq[k]["args"]) == 2 and rq[k]["args"][0]["v"].lower() == "get"


@spoiler("C03 C05 C06")
def value_never_set(ev, rng, h):
    rq = reqs_of(ev)
    k = pick(rng, ev, lambda k, e: is_get(rq, k) and kind(e, "bulk"))
    if k is None:
        return None
    set_value(ev, k, rq[k], {"k": "bulk", "v": ev[k]["r"]["v"] + "!"})
    return k


@spoiler("C05 C06")
def value_gone(ev, rng, h):
    """a value that does not expire is not found"""
    rq = reqs_of(ev)
    timed = {e["args"][1]["v"] for e in ev if e["e"] == "send" and len(e["args"]) > 3 and e["args"][0]["v"].lower() == "set"}
    k = pick(rng, ev, lambda k, e: is_get(rq, k) and kind(e, "bulk") and rq[k]["args"][1]["v"] not in timed)
    if k is None:
        return None
    set_value(ev, k, rq[k], {"k": "null"})
    return k


@spoiler("C05")
def value_of_another_key(ev, rng, h):
    rq = reqs_of(ev)
    gets = [k for k in rq if is_get(rq, k) and kind(ev[k], "bulk")]
    for _ in range(50):
        if len(gets) < 2:
            return None
        a, b = rng.sample(gets, 2)
        if rq[a]["args"][1]["v"] != rq[b]["args"][1]["v"] and ev[a]["r"]["v"] != ev[b]["r"]["v"]:
            set_value(ev, b, rq[b], dict(ev[a]["r"]))
            return b
    return None


@spoiler("C05")
def value_replaced(ev, rng, h):
    """the value before the last one, although the SET that replaced it was answered and no other is pending"""
    rq = reqs_of(ev)
    pend = collections.Counter()
    hist = collections.defaultdict(list)
    ok = {}
    for k, e in enumerate(ev):
        if e["e"] == "send" and len(e["args"]) >= 3 and e["args"][0]["v"].lower() == "set":
            pend[e["args"][1]["v"]] += 1
        if k in rq:
            a = rq[k]["args"]
            if len(a) >= 3 and a[0]["v"].lower() == "set":
                pend[a[1]["v"]] -= 1
                hist[a[1]["v"]].append(a[2]["v"])
            elif is_get(rq, k) and kind(e, "bulk") and pend[a[1]["v"]] == 0:
                v = hist[a[1]["v"]]
                old = [x for x in v[:-3] if x not in v[-3:]]
                if old:
                    ok[k] = old[-1]
    k = pick(rng, ev, lambda k, e: k in ok)
    if k is None:
        return None
    set_value(ev, k, rq[k], {"k": "bulk", "v": ok[k]})
    return k


@spoiler("C06")
def value_outlives(ev, rng, h):
    """a value is found long after it expired"""
    rq = reqs_of(ev)
    last = {}
    ok = {}
    sets = collections.Counter()
    for k, e in enumerate(ev):
        if e["e"] == "send" and len(e["args"]) >= 3 and e["args"][0]["v"].lower() == "set":
            sets[e["args"][1]["v"]] += 1
        if k in rq:
            a = rq[k]["args"]
            if len(a) == 5 and a[0]["v"].lower() == "set" and a[3]["v"].lower() == "px":
                last[a[1]["v"]] = (e["t"] + int(a[4]["v"]), a[2]["v"], sets[a[1]["v"]])
            elif len(a) >= 3 and a[0]["v"].lower() == "set":
                last.pop(a[1]["v"], None)
            elif is_get(rq, k) and kind(e, "null"):
                x = last.get(a[1]["v"])
                if x and sets[a[1]["v"]] == x[2] and rq[k]["tl"] > x[0] + 5:
                    ok[k] = x[1]
    k = pick(rng, ev, lambda k, e: k in ok)
    if k is None:
        return None
    set_value(ev, k, rq[k], {"k": "bulk", "v": ok[k]})
    return k


@spoiler("C06")
def value_too_short_lived(ev, rng, h):
    """a value is not found although it cannot have expired"""
    rq = reqs_of(ev)
    ends = {}
    ok = set()
    for k, e in enumerate(ev):
        if e["e"] == "send" and len(e["args"]) == 5 and e["args"][0]["v"].lower() == "set" and e["args"][3]["v"].lower() == "px":
            ends[e["args"][1]["v"]] = min(ends.get(e["args"][1]["v"], 1 << 60), e["tl"] + int(e["args"][4]["v"]))
        elif e["e"] == "send" and len(e["args"]) >= 3 and e["args"][0]["v"].lower() == "set":
            ends.setdefault(e["args"][1]["v"], 1 << 60)
        if is_get(rq, k) and kind(e, "bulk") and e["t"] + 5 < ends.get(rq[k]["args"][1]["v"], 0):
            ok.add(k)
    k = pick(rng, ev, lambda k, e: k in ok)
    if k is None:
        return None
    set_value(ev, k, rq[k], {"k": "null"})
    return k


@spoiler("C08")
def refused_is_answered(ev, rng, h):
    k = pick(rng, ev, lambda k, e: e["e"] == "eof" and any(x["e"] == "junk" and x["c"] == e["c"] for x in ev[:k]))
    if k is None:
        k = pick(rng, ev, lambda k, e: e["e"] == "eof")
    if k is None:
        return None
    ev.insert(k, {"e": "recv", "c": ev[k]["c"], "t": 1 << 29, "r": {"k": "simple", "v": "OK"}})
    return k


def id_reply(k, e):
    return kind(e, "int") or kind(e, "map") and "id" in e["r"] or kind(e, "line")


def bump(e, d):
    r = e["r"]
    if r["k"] == "int":
        r["n"] += d
    else:
        r["id"] += d


@spoiler("C09")
def id_of_another(ev, rng, h):
    ks = [k for k, e in enumerate(ev) if id_reply(k, e)]
    for _ in range(50):
        if len(ks) < 2:
            return None
        a, b = sorted(rng.sample(ks, 2))
        if ev[a]["c"] != ev[b]["c"]:
            x = ev[a]["r"].get("n", ev[a]["r"].get("id"))
            y = ev[b]["r"].get("n", ev[b]["r"].get("id"))
            bump(ev[b], x - y)
            return b
    return None


@spoiler("C09")
def id_changes(ev, rng, h):
    seen = set()
    ok = set()
    for k, e in enumerate(ev):
        if id_reply(k, e):
            if e["c"] in seen:
                ok.add(k)
            seen.add(e["c"])
    k = pick(rng, ev, lambda k, e: k in ok)
    if k is None:
        return None
    bump(ev[k], rng.choice([1, -1, 1000, 65536]))
    return k


@spoiler("C09")
def id_goes_back(ev, rng, h):
    """the id of a connection opened after others were served is smaller"""
    first = {}
    for k, e in enumerate(ev):
        if id_reply(k, e) and e["c"] not in first:
            first[e["c"]] = k
    ks = sorted(first.values())
    if len(ks) < 8:
        return None
    k = ks[rng.randrange(len(ks) // 2, len(ks))]
    c = ev[k]["c"]
    conn = next(j for j, e in enumerate(ev) if e["e"] == "conn" and e["c"] == c)
    if not any(j < conn for j in ks):
        return None
    for j in range(k, len(ev)):
        if id_reply(j, ev[j]) and ev[j]["c"] == c:
            bump(ev[j], -1000000)
    return k


def listings(ev):
    return [k for k, e in enumerate(ev) if kind(e, "lines") and len(e["r"]["lines"]) > 1]


def stable_addrs(ev, k):
    """addresses that were served before the request was sent and do not end before the reply"""
    rq = reqs_of(ev)
    if k not in rq:
        return set()
    s = ev.index(rq[k])
    addr = {e["c"]: e["addr"] for e in ev if e["e"] == "conn"}
    proved = {e["c"] for e in ev[:s] if e["e"] == "recv"}
    over = {e["c"] for e in ev[:k] if e["e"] in ("close", "reset", "half", "eof", "rst", "wild", "junk")}
    return {addr[c] for c in proved - over}


@spoiler("C10")
def line_missing(ev, rng, h):
    for k in rng.sample(listings(ev), min(8, len(listings(ev)))):
        ok = stable_addrs(ev, k)
        ls = [i for i, ln in enumerate(ev[k]["r"]["lines"]) if ln["addr"] in ok]
        rq = reqs_of(ev)[k]["args"]
        if ls and len(rq) == 2:
            del ev[k]["r"]["lines"][rng.choice(ls)]
            return k
    return None


@spoiler("C10")
def line_twice(ev, rng, h):
    ls = listings(ev)
    if not ls:
        return None
    k = rng.choice(ls)
    lines = ev[k]["r"]["lines"]
    lines.insert(rng.randrange(len(lines)), dict(rng.choice(lines)))
    return k


@spoiler("C10")
def line_of_the_dead(ev, rng, h):
    ls = listings(ev)
    gone = [(j, e["c"]) for j, e in enumerate(ev) if e["e"] == "gone"]
    addr = {e["c"]: e["addr"] for e in ev if e["e"] == "conn"}
    for k in rng.sample(ls, len(ls)):
        rq = reqs_of(ev).get(k)
        if rq is None:
            continue
        s = ev.index(rq)
        dead = [c for j, c in gone if j < s and sum(1 for a in addr.values() if a == addr[c]) == 1]
        if dead:
            ln = dict(ev[k]["r"]["lines"][0])
            ln["addr"] = addr[rng.choice(dead)]
            ln["id"] = 10 ** 6 + k
            ev[k]["r"]["lines"].append(ln)
            return k
    return None


@spoiler("C10")
def line_of_nobody(ev, rng, h):
    ls = listings(ev)
    if not ls:
        return None
    k = rng.choice(ls)
    ln = dict(ev[k]["r"]["lines"][0])
    ln.update(addr="127.0.0.1:1", id=10 ** 7)
    ev[k]["r"]["lines"].append(ln)
    return k


@spoiler("C10")
def lines_exchanged(ev, rng, h):
    """the ids of two lines are exchanged"""
    rng.shuffle(ls := listings(ev))
    addr = {e["c"]: e["addr"] for e in ev if e["e"] == "conn"}
    for k in ls:
        known = {addr[e["c"]] for j, e in enumerate(ev) if id_reply(j, e)}
        ln = [x for x in ev[k]["r"]["lines"] if x["addr"] in known and list(addr.values()).count(x["addr"]) == 1]
        if len(ln) > 1:
            a, b = rng.sample(ln, 2)
            a["id"], b["id"] = b["id"], a["id"]
            return k
    return None


@spoiler("C11 C10")
def name_changed(ev, rng, h):
    """the own name is shown wrong"""
    k = pick(rng, ev, lambda k, e: kind(e, "line"))
    if k is None:
        return None
    ev[k]["r"]["name"] = "(none)" if ev[k]["r"]["name"] != "(none)" else "ghost"
    return k


@spoiler("C11")
def getname_changed(ev, rng, h):
    rq = reqs_of(ev)
    k = pick(rng, ev, lambda k, e: k in rq and len(rq[k]["args"]) == 2 and rq[k]["args"][1]["v"].lower() == "getname")
    if k is None:
        return None
    ev[k]["r"] = {"k": "bulk", "v": "ghost"} if kind(ev[k], "null") else {"k": "null"}
    return k


@spoiler("C11")
def listed_name_changed(ev, rng, h):
    ls = listings(ev)
    if not ls:
        return None
    k = rng.choice(ls)
    rng.choice(ev[k]["r"]["lines"])["name"] = "ghost-%d" % k
    return k


@spoiler("C12")
def one_place_less(ev, rng, h):
    """the same history with a limit that is too small for it"""
    served, most, over = set(), 0, set()
    for e in ev:
        if e["e"] == "recv" and e["c"] not in over:
            served.add(e["c"])
        elif e["e"] in ("close", "reset", "half", "eof", "rst", "wild", "junk"):
            served.discard(e["c"])
            over.add(e["c"])
        most = max(most, len(served))
    if most < 2:
        return None
    h["limit"] = rng.choice([1, max(1, most // 2)])
    return len(ev) - 1


@spoiler("C12")
def nobody_gets_in(ev, rng, h):
    """a client waits although there is a place"""
    k = rng.randrange(len(ev))
    n = sum(1 for e in ev[:k] if e["e"] == "conn")
    if n == 0:
        return None
    h["limit"] = 10 ** 6
    args = [{"k": "b", "v": "PING"}]
    ev[k:] = [{"e": "conn", "c": n + 1, "addr": "127.0.0.1:2"}, {"e": "send", "c": n + 1, "tl": 1, "args": args, "res": "?", "i": 10 ** 8}, {"e": "starve"}]
    return len(ev) - 1


@spoiler("C13")
def error_for_a_known_name(ev, rng, h):
    k = pick(rng, ev, lambda k, e: kind(e, "simple", "bulk", "int", "map"))
    if k is None:
        return None
    ev[k]["r"] = {"k": "error", "v": "ERR unknown command"}
    return k


@spoiler("C13")
def unknown_name_executed(ev, rng, h):
    k = pick(rng, ev, lambda k, e: kind(e, "error"))
    if k is None:
        return None
    ev[k]["r"] = {"k": "simple", "v": "OK"}
    return k


@spoiler("C16")
def descriptor_kept(ev, rng, h):
    k = pick(rng, ev, lambda k, e: e["e"] == "fds")
    if k is None:
        return None
    opened = set()
    for e in ev[:k]:
        if e["e"] == "conn":
            opened.add(e["c"])
        elif e["e"] in ("close", "reset", "eof", "rst"):
            opened.discard(e["c"])
    ev[k]["n"] = len(opened) + 1
    return k


@spoiler("C16 C08")
def end_never_seen(ev, rng, h):
    k = pick(rng, ev, lambda k, e: e["e"] == "eof")
    if k is None:
        return None
    if not any(e["e"] == "recv" and e["c"] == ev[k]["c"] for e in ev[:k]):
        return None
    ev[k:] = [{"e": "late", "c": ev[k]["c"]}]
    return k


@spoiler("C17")
def memory_keeps_growing(ev, rng, h):
    """each of the equal loads adds a bit"""
    k = pick(rng, ev, lambda k, e: e["e"] == "kept")
    if k is None:
        return None
    first = max([j for j in range(k) if ev[j]["e"] == "kept"], default=-1) + 1
    mem = [j for j in range(first, k) if ev[j]["e"] == "memory"]
    if len(mem) < 2:
        return None
    kb = ev[mem[0]]["kb"]
    for a, b in zip(mem, mem[1:]):
        kb += 1 + sum(e["n"] * (32 if e["what"] == "requests" else 100) + e["kb"] // 50 * 1024
                      for e in ev[a:b] if e["e"] == "load") // 1024
        ev[b]["kb"] = kb
    return k


def run(prop, histories, seed, skip, n=40):
    """Spoils up to n histories; {spoiler: {"spoiled": , "refused": }} and states."""
    todo = []
    fns = SPOILERS.get(prop, [])
    rng = random.Random("%s/spoil/%s" % (seed, prop))
    small = [h for h in histories if 3 < len(h["ev"]) <= 40000]
    if not fns or not small:
        return {}, 0, 0
    tries = 0
    while len(todo) < n and tries < 3 * n:
        fn = fns[tries % len(fns)]
        tries += 1
        src = rng.choice(small)
        h = {"limit": src["limit"], "laddr": src["laddr"], "label": fn.__name__, "ev": copy.deepcopy(src["ev"][:HEAD])}
        k = fn(h["ev"], rng, h)
        if k is None:
            continue
        h["ev"] = h["ev"][:k + 1 + TAIL]
        todo.append(h)
    if not todo:
        return {}, 0, 0
    refused, gen, dist = tlc.refused(todo, skip)
    out = {}
    for i, h in enumerate(todo):
        d = out.setdefault(h["label"], {"spoiled": 0, "refused": 0})
        d["spoiled"] += 1
        d["refused"] += i in refused
    return out, gen, dist
