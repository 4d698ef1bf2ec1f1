----------------------------- MODULE StoreRace -----------------------------
(* One key of the store, and operations on it by threads that run at the same  *)
(* time, in the steps of the code: an operation looks its clock up, locks the    *)
(* entry of the key, does its work, unlocks.  Composed with the contract, which  *)
(* decides whether what the threads saw is linearizable and respects the         *)
(* expirations.  Bug selects the defective ways to do the same.                  *)
EXTENDS Contract

CONSTANTS Threads, Ops, MaxOps, MaxNow, Bug

VARIABLES pc, cmd, res, mem, at, now, seen, done, s
vars == <<pc, cmd, res, mem, at, now, seen, done, s>>

\* operations: [op |-> "set", v, ttl] or [op |-> "get"]
None == [v |-> NoVal, exp |-> Inf]
Arg(t) == [k |-> "b", v |-> t]
Request(o) ==
    IF o.op = "get" THEN <<Arg("get"), Arg("k")>>
    ELSE IF o.ttl = "" THEN <<Arg("set"), Arg("k"), Arg(o.v)>>
    ELSE <<Arg("set"), Arg("k"), Arg(o.v), Arg("px"), Arg(o.ttl)>>

RECURSIVE Opened(_, _)
Opened(st, n) == IF n = 0 THEN st
                 ELSE Step(Opened(st, n - 1), [e |-> "conn", c |-> n, addr |-> ToString(n)])
Init == /\ pc = [t \in Threads |-> "idle"] /\ cmd = [t \in Threads |-> None]
        /\ res = [t \in Threads |-> NoVal] /\ at = [t \in Threads |-> 0]
        /\ seen = [t \in Threads |-> None] /\ mem = None /\ now = 0 /\ done = 0
        /\ s = Opened(Start(100, "L"), Cardinality(Threads))

Call(t, o) ==
    /\ pc[t] = "idle" /\ done < MaxOps
    /\ done = 0 => t = 1    \* the threads are alike
    /\ done' = done + 1
    /\ cmd' = [cmd EXCEPT ![t] = o] /\ pc' = [pc EXCEPT ![t] = "clock"]
    /\ s' = Step(s, [e |-> "send", c |-> t, tl |-> now, args |-> Request(o), res |-> "?"])
    /\ UNCHANGED <<res, mem, at, now, seen>>
Clock(t) ==
    /\ pc[t] = "clock"
    /\ at' = [at EXCEPT ![t] = now] /\ pc' = [pc EXCEPT ![t] = cmd[t].op]
    /\ UNCHANGED <<cmd, res, mem, now, seen, done, s>>

Stamp(t) == IF cmd[t].ttl = "" THEN Inf ELSE at[t] + Num(cmd[t].ttl)
Stored(t) == [v |-> cmd[t].v, exp |-> IF Bug = "keep-ttl" /\ mem.v # NoVal THEN mem.exp ELSE Stamp(t)]
Expired(en, t) == en.v # NoVal /\ (IF Bug = "early" THEN at[t] + 1 > en.exp ELSE at[t] > en.exp)

\* set: the entry is locked from the lookup to the end of the insertion
Set(t) ==
    /\ pc[t] = "set"
    /\ IF Bug = "insert-then-update"
       THEN IF mem.v = NoVal
            THEN mem' = Stored(t) /\ pc' = [pc EXCEPT ![t] = "reply"]
            ELSE pc' = [pc EXCEPT ![t] = "update"] /\ UNCHANGED mem
       ELSE mem' = Stored(t) /\ pc' = [pc EXCEPT ![t] = "reply"]
    /\ UNCHANGED <<cmd, res, at, now, seen, done, s>>
Update(t) ==   \* changes the value if it is still there
    /\ pc[t] = "update"
    /\ mem' = IF mem.v = NoVal THEN mem ELSE Stored(t)
    /\ pc' = [pc EXCEPT ![t] = "reply"]
    /\ UNCHANGED <<cmd, res, at, now, seen, done, s>>
\* get: the entry is locked while it is judged, removed or copied
Get(t) ==
    /\ pc[t] = "get"
    /\ IF Expired(mem, t)
       THEN IF Bug = "check-then-remove"
            THEN pc' = [pc EXCEPT ![t] = "remove"] /\ UNCHANGED <<mem, res>>
            ELSE /\ mem' = None /\ res' = [res EXCEPT ![t] = NoVal] /\ pc' = [pc EXCEPT ![t] = "reply"]
       ELSE /\ res' = [res EXCEPT ![t] = IF Bug = "never" /\ mem.exp # Inf THEN NoVal ELSE mem.v]
            /\ UNCHANGED mem
            /\ pc' = [pc EXCEPT ![t] = IF Bug = "copy-later" /\ mem.v # NoVal THEN "copy" ELSE "reply"]
    /\ seen' = [seen EXCEPT ![t] = mem]
    /\ UNCHANGED <<cmd, at, now, done, s>>
Remove(t) ==   \* whatever is there by now
    /\ pc[t] = "remove"
    /\ mem' = None /\ res' = [res EXCEPT ![t] = NoVal] /\ pc' = [pc EXCEPT ![t] = "reply"]
    /\ UNCHANGED <<cmd, at, now, seen, done, s>>
Copy(t) ==     \* half of what was there, half of what is there
    /\ pc[t] = "copy"
    /\ res' = [res EXCEPT ![t] = IF mem.v = NoVal THEN @ ELSE SubSeq(seen[t].v, 1, 1) \o SubSeq(mem.v, 2, 2)]
    /\ pc' = [pc EXCEPT ![t] = "reply"]
    /\ UNCHANGED <<cmd, mem, at, now, seen, done, s>>
Reply0(t) ==
    /\ pc[t] = "reply"
    /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ s' = Step(s, [e |-> "recv", c |-> t, t |-> now,
                     r |-> IF cmd[t].op = "set" THEN [k |-> "simple", v |-> "OK"]
                           ELSE IF res[t] = NoVal THEN [k |-> "null"] ELSE [k |-> "bulk", v |-> res[t]]])
    /\ UNCHANGED <<cmd, res, mem, at, now, seen, done>>
TickNow == /\ now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<pc, cmd, res, mem, at, seen, done, s>>

Next == \/ \E t \in Threads : \/ \E o \in Ops : Call(t, o)
                              \/ Clock(t) \/ Set(t) \/ Update(t) \/ Get(t) \/ Remove(t) \/ Copy(t) \/ Reply0(t)
        \/ TickNow
Spec == Init /\ [][Next]_vars
Conforms == s.bad = {}

\* instances
PlainOps == {[op |-> "set", v |-> "aa", ttl |-> ""], [op |-> "set", v |-> "bb", ttl |-> ""], [op |-> "get"]}
TtlOps == {[op |-> "set", v |-> "aa", ttl |-> "1"], [op |-> "set", v |-> "bb", ttl |-> ""], [op |-> "get"]}
OldOps == {[op |-> "set", v |-> "aa", ttl |-> "0"], [op |-> "set", v |-> "bb", ttl |-> ""], [op |-> "get"]}
TwoTtls == {[op |-> "set", v |-> "aa", ttl |-> "1"], [op |-> "set", v |-> "bb", ttl |-> "2"], [op |-> "get"]}
=============================================================================
