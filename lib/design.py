"""Instances of the design specifications, per property, and the defective designs
(controls) that the same properties must refuse."""
import collections

import tlc

Inst = collections.namedtuple("Inst", "name module cfg tier expect")
INSTANCES = collections.defaultdict(list)
INV = "Conforms PlacesExact WithinLimit IdsUnique RepliesMatch LeavesNothing RegistryExact"


def roster_cfg(spec, conns, workers, limit, reqs, send, now=0, ends="NoEnds", bug="none", inv=INV, props=""):
    out = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    if inv:
        out.append("INVARIANTS " + inv)
    if props:
        out.append("PROPERTIES " + props)
    out.append("CONSTANTS")
    out += ["Conns = {%s}" % ",".join(str(i + 1) for i in range(conns)),
            "Workers = {%s}" % ",".join(str(i + 1) for i in range(workers)),
            "Limit = %d" % limit, "Reqs <- " + reqs, "MaxSend = %d" % send, "MaxNow = %d" % now,
            "CanEnd <- " + ends, 'Bug = "%s"' % bug]
    return "\n".join(out) + "\n"


def roster(claims, name, spec, conns, workers, limit, reqs, send, tier="both", **kw):
    """tier: quick, thorough or both. A bug= makes it a control, which must be refused."""
    bug = kw.get("bug", "none")
    if bug != "none" and "inv" not in kw:
        kw["inv"] = "Conforms" if not kw.get("props") else ""
    for p in claims.split():
        INSTANCES[p].append(Inst(name, "MCRoster", roster_cfg(spec, conns, workers, limit, reqs, send, **kw),
                                 tier, bug != "none"))


def plain(props, name, module, consts, spec="Spec", inv="", temporal="", tier="both", control=False):
    out = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    if inv:
        out.append("INVARIANTS " + inv)
    if temporal:
        out.append("PROPERTIES " + temporal)
    if consts:
        out.append("CONSTANTS")
        out += ["%s %s" % kv for kv in consts.items()]
    for p in props.split():
        INSTANCES[p].append(Inst(name, module, "\n".join(out) + "\n", tier, control))


S, F = "ServedSpec", "FairServedSpec"
# C01 replies
roster("C01", "pipeline", S, 1, 1, 1, "PipeReqs", 4, ends="Ends2")
roster("C01", "two-pipelines", S, 2, 1, 2, "PipeReqs", 4, tier="thorough", ends="HalfOnly")
roster("C01", "pipelines-that-end", S, 2, 1, 2, "PipeReqs", 3, tier="thorough", ends="Ends2")
roster("C01", "answered", F, 1, 1, 1, "PipeReqs", 3, ends="Ends2", inv="", props="Answered EndSeen")
roster("C01", "control-eof-drops", S, 1, 1, 1, "PipeReqs", 3, ends="HalfOnly", bug="eof-drops")
roster("C01", "control-swap", S, 1, 1, 1, "PipeReqs", 3, bug="swap")
# C04 no forged replies
roster("C04", "texts", S, 2, 1, 2, "TextReqs", 2, ends="NoEnds")
roster("C04", "texts-3", S, 2, 1, 2, "TextReqs", 3, tier="thorough", ends="NoEnds")
roster("C04", "control-forge", S, 1, 1, 1, "PipeReqs", 3, bug="forge")
roster("C04", "control-names-unchecked", S, 2, 1, 2, "TextReqs", 2, bug="names-unchecked")
# C05 keyspace
roster("C05", "keyspace", S, 2, 1, 2, "KvReqs", 3, ends="CloseOnly")
roster("C05", "keyspace-3", S, 3, 1, 3, "KvReqs", 3, tier="thorough", ends="NoEnds")
roster("C05", "keyspace-4", S, 2, 1, 2, "KvReqs", 4, tier="thorough", ends="NoEnds")
roster("C05", "two-keys", S, 2, 1, 2, "Kv2Reqs", 3, tier="thorough", ends="NoEnds")
roster("C05", "control-split-store", S, 2, 1, 2, "KvReqs", 2, bug="split-store")
# C06 expirations
roster("C06", "expirations", S, 2, 1, 2, "TtlReqs", 3, now=2)
roster("C06", "expirations-longer", S, 2, 1, 2, "TtlReqs", 3, tier="thorough", now=4)
roster("C06", "expirations-more", S, 1, 1, 1, "TtlReqs", 5, tier="thorough", now=3)
roster("C06", "control-keep-ttl", S, 1, 1, 1, "TtlReqs", 3, now=3, bug="keep-ttl")
roster("C06", "control-no-expiry", S, 1, 1, 1, "TtlReqs", 3, now=3, bug="no-expiry")
# C07 liveness for others
roster("C07", "others-served", "FairSpec", 2, 1, 2, "RejReqs", 2, inv="", props="Served Answered")
roster("C07", "rejections", S, 2, 1, 2, "RejReqs", 2, ends="HalfOnly")
roster("C07", "others-served-2", "FairSpec", 2, 2, 2, "RejReqs", 2, tier="thorough", ends="CloseOnly", inv="",
       props="Served Answered")
roster("C07", "control-worker-dies", "FairSpec", 2, 1, 2, "RejReqs", 1, inv="", props="Served", bug="worker-dies")
# C08 rejections
roster("C08", "rejections", S, 2, 1, 2, "RejReqs", 3, ends="NoEnds")
roster("C08", "refusal-ends", F, 1, 1, 1, "RejReqs", 3, inv="", props="RefusalEnds")
roster("C08", "rejections-half", S, 2, 1, 2, "RejReqs", 3, tier="thorough", ends="HalfOnly")
roster("C08", "control-skip-reject", S, 1, 1, 1, "RejReqs", 3, bug="skip-reject")
roster("C08", "control-join-both", F, 1, 1, 1, "RejReqs", 2, inv="", props="RefusalEnds", bug="join-both")
# C09 ids
roster("C09", "ids", "Spec", 2, 2, 2, "IdReqs", 3, ends="CloseOnly")
roster("C09", "ids-3", "Spec", 3, 2, 3, "IdReqs", 2, tier="thorough", ends="NoEnds")
roster("C09", "control-id-race", "Spec", 2, 2, 2, "IdReqs", 2, bug="id-race")
# C10 registry
roster("C10", "registry", "Spec", 2, 1, 2, "ListReqs", 2, ends="Gone2")
roster("C10", "filters", S, 2, 1, 2, "RegReqs2", 2)
roster("C10", "registry-names", S, 2, 1, 2, "RegReqs", 2, tier="thorough", ends="AllEnds")
roster("C10", "control-list-dead", "Spec", 2, 1, 2, "ListReqs", 1, ends="Gone2", bug="list-dead")
roster("C10", "control-no-filter", S, 2, 1, 2, "RegReqs2", 1, bug="no-filter")
# C11 names
roster("C11", "names", S, 2, 1, 2, "NameReqs", 2)
roster("C11", "names-3", S, 2, 1, 2, "NameReqs", 3, tier="thorough")
roster("C11", "control-shared-name", S, 2, 1, 2, "NameReqs", 2, bug="shared-name")
# C12 limit
roster("C12", "limit", "Spec", 2, 2, 1, "PingReqs", 1, ends="AllEnds")
roster("C12", "limit-2", "Spec", 2, 2, 1, "PingReqs", 2, tier="thorough", ends="AllEnds")
roster("C12", "limit-3", "Spec", 3, 2, 2, "PingReqs", 2, tier="thorough", ends="Ends2")
roster("C12", "places-back", "FairSpec", 2, 1, 1, "PingReqs", 1, ends="Ends2", inv="", props="PlaceBack Served")
roster("C12", "control-no-limit", "Spec", 2, 2, 1, "PingReqs", 2, bug="no-limit")
roster("C12", "control-leak-place", "Spec", 2, 1, 1, "RejReqs", 1, inv="PlacesExact", bug="leak-place")
roster("C10", "backed", "Spec", 2, 1, 2, "ListReqs", 2, ends="HalfStall")
roster("C10", "control-early-out", "Spec", 2, 1, 2, "ListReqs", 3, ends="HalfStall", bug="early-out")
roster("C12", "backed", "Spec", 2, 1, 1, "PingReqs", 4, ends="HalfStall")
roster("C12", "control-early-out", "Spec", 2, 1, 1, "PingReqs", 4, ends="HalfStall", bug="early-out")
roster("C07", "backed", F, 2, 1, 2, "PingReqs", 3, ends="StallOnly", inv="", props="Answered")
roster("C07", "backed-2", "FairSpec", 2, 1, 2, "PingReqs", 3, tier="thorough", ends="HalfStall", inv="", props="Served Answered")
# C16 resources
roster("C16", "sockets-back", "FairSpec", 2, 1, 2, "RejReqs", 1, ends="Ends2", inv="", props="PlaceBack RefusalEnds")
roster("C16", "sockets-back-2", F, 2, 1, 2, "RejReqs", 2, tier="thorough", ends="Ends2", inv="",
       props="PlaceBack RefusalEnds EndSeen")
roster("C16", "control-join-both", F, 1, 1, 1, "RejReqs", 1, inv="", props="RefusalEnds", bug="join-both")

# C17 nothing is kept
roster("C17", "endings", "Spec", 2, 1, 2, "RejReqs", 1, ends="Ends2", inv="LeavesNothing RegistryExact PlacesExact")
roster("C17", "expired", S, 1, 1, 1, "TtlReqs", 4, now=2, inv="LeavesNothing")
roster("C17", "endings-2", "Spec", 2, 2, 1, "RejReqs", 2, tier="thorough", ends="AllEnds", inv="LeavesNothing RegistryExact PlacesExact")
roster("C17", "given-back", "FairSpec", 2, 1, 1, "RejReqs", 1, ends="Ends2", inv="", props="Forgotten")
roster("C17", "control-keep-entry", "Spec", 1, 1, 1, "PingReqs", 1, ends="CloseOnly", bug="keep-entry", inv="LeavesNothing")
roster("C17", "control-keep-queue", "Spec", 1, 1, 1, "RejReqs", 2, ends="CloseOnly", bug="keep-queue", inv="LeavesNothing")
roster("C17", "control-keep-expired", S, 1, 1, 1, "TtlReqs", 2, now=2, bug="keep-expired", inv="LeavesNothing")
roster("C17", "control-join-both", F, 1, 1, 1, "RejReqs", 1, inv="", props="RefusalForgotten", bug="join-both")


# C02 the cutting of requests out of the bytes
def resp_stream(name, frames, tail, room, more, low, tier="both", bug="none", inv="Faithful Kept EndRight AtRest", temporal=""):
    plain("C02", name, "MCStream", {"Frames <-": frames, "Tail0 =": tail, "Room =": room, "More =": more, "Low =": low, "Bug =": '"%s"' % bug},
          inv=inv, temporal=temporal, tier=tier, control=bug != "none")


resp_stream("reads", "F3", 1, 3, 2, 2)
resp_stream("reads-tight", "F4", 0, 1, 1, 1)
resp_stream("reads-answered", "F3", 1, 3, 2, 2, inv="", temporal="Answered")
resp_stream("reads-long", "F6", 2, 4, 3, 3, tier="thorough")
resp_stream("reads-big-frame", "FB", 1, 2, 2, 1, tier="thorough")
for _b in ("overwrite", "wait-more", "no-room", "one-each"):
    resp_stream("control-" + _b, "F3", 1, 3, 2, 2, bug=_b)


# C03 the way of replies to the client
def write_buf(name, sizes, cap, window, tier="both", bug="none", inv="Intact Complete InWindow AtRest", temporal=""):
    plain("C03", name, "MCWrite", {"Sizes <-": sizes, "Cap =": cap, "Window =": window, "Bug =": '"%s"' % bug},
          inv=inv, temporal=temporal, tier=tier, control=bug != "none")


write_buf("replies", "W6", 6, 4)
write_buf("replies-delivered", "W4", 4, 3, inv="", temporal="Delivered")
write_buf("replies-tight", "W4", 1, 1)
write_buf("replies-large", "WB", 4, 5, tier="thorough")
write_buf("replies-large-delivered", "WB", 3, 2, tier="thorough", inv="", temporal="Delivered")
for _b in ("drop-rest", "flush-once", "no-flush"):
    write_buf("control-" + _b, "W4", 4, 3, bug=_b)


# C05, C06 the store in the steps of the code
def store(claims, name, threads, ops, n, now, tier="both", bug="none"):
    plain(claims, name, "StoreRace", {"Threads =": "{%s}" % ",".join(str(k + 1) for k in range(threads)), "Ops <-": ops, "MaxOps =": n,
                                     "MaxNow =": now, "Bug =": '"%s"' % bug}, inv="Conforms", tier=tier, control=bug != "none")


store("C05", "store-plain", 3, "PlainOps", 3, 0)
store("C05", "store-plain-4", 3, "PlainOps", 4, 0, tier="thorough")
store("C05", "store-expiring", 2, "TtlOps", 3, 2)
store("C05", "store-expiring-4", 2, "TtlOps", 4, 2, tier="thorough")
store("C05", "store-expiring-3", 3, "TtlOps", 4, 2, tier="thorough")
store("C05", "store-plain-5", 3, "PlainOps", 5, 0, tier="thorough")
store("C05", "control-insert-then-update", 2, "OldOps", 4, 1, bug="insert-then-update")
store("C05", "control-check-then-remove", 2, "OldOps", 4, 1, bug="check-then-remove")
store("C05", "control-copy-later", 2, "PlainOps", 3, 0, bug="copy-later")
store("C06", "store-ttls", 2, "TwoTtls", 3, 2)
store("C06", "store-ttls-4", 2, "TwoTtls", 4, 4, tier="thorough")
store("C06", "control-store-keep-ttl", 2, "TtlOps", 3, 2, bug="keep-ttl")
store("C06", "control-store-early", 2, "TtlOps", 3, 2, bug="early")
store("C06", "control-store-never", 1, "TtlOps", 2, 0, bug="never")


# C15 the split of the slots
def slots(name, ns, bug="none", tier="both"):
    plain("C15", name, "MCSlots", {"Ns <-": ns, "Bug =": '"%s"' % bug}, inv="Contiguous Starts Fits Covers", tier=tier, control=bug != "none")
    inst = INSTANCES["C15"].pop()
    INSTANCES["C15"].append(inst._replace(cfg=inst.cfg + "VIEW View\n"))


slots("splits", "UpTo250", tier="quick")
slots("splits-all", "UpTo1500", tier="thorough")
slots("splits-largest", "Largest", tier="thorough")
slots("control-drop-rest", "Few", bug="drop-rest")
slots("control-inclusive", "Few", bug="inclusive")


def run(prop, deep, budget):
    """Yields (instance, result) for the property; raises ToolError when one does
    not behave as it must."""
    todo = [i for i in INSTANCES[prop] if i.tier == "both" or (i.tier == "thorough") == deep]
    for inst in todo:
        r = tlc.model(inst.module, inst.cfg, timeout=budget)
        if inst.expect and not r["violated"]:
            raise tlc.ToolError("control %s is not refused\n%s" % (inst.name, r["out"][-2000:]))
        if not inst.expect and not r["ok"]:
            raise tlc.ToolError("the design %s is refused: %s\n%s" % (inst.name, r["violated"], r["out"][-3000:]))
        yield inst, r


if __name__ == "__main__":
    import sys
    for p in (sys.argv[1] if len(sys.argv) > 1 else ",".join(sorted(INSTANCES))).split(","):
        deep = len(sys.argv) > 2
        try:
            for inst, r in run(p, deep, 3000):
                print(p, inst.name, "%.1fs" % r["wall"], r["distinct"], r["violated"], flush=True)
        except tlc.ToolError as e:
            print(p, "ERROR", e)
