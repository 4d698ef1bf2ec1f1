------------------------------ MODULE Contract ------------------------------
(* What clients of roster may observe.  The contract is a deterministic       *)
(* acceptor of histories: Step(s, e) is the state after the observable event   *)
(* e, and the names of the clauses that e violates are put in s.bad.           *)
(*                                                                            *)
(* It is used twice, with the same definitions:                               *)
(*  - Roster.tla (the implementation-shaped specification) is composed with    *)
(*    it: TLC shows that no behaviour of the design violates a clause;         *)
(*  - ContractTrace.tla folds it over histories recorded from the real server. *)
(*                                                                            *)
(* Events (fields beside e; c is the client's number of a connection):        *)
(*   past addrs         earlier connections, which the server may still list     *)
(*   conn c addr laddr  the client starts to connect (laddr: to which address,  *)
(*                      when it is not the one of all)                         *)
(*   send c tl args res the last byte of a request is about to be sent         *)
(*                      (tl: clock before; res: "?" or, in recorded histories, *)
(*                      the reply this request gets later, used as a prophecy  *)
(*                      that only prunes the search)                           *)
(*   junk c             bytes that are not the protocol are about to be sent   *)
(*   wild c             from now on c sends bytes of unknown meaning: nothing   *)
(*                      is expected of its replies but to be well formed       *)
(*   recv c t r         a reply has been received (t: clock after)             *)
(*   half c | close c | reset c    the client stops sending | ends | resets    *)
(*   eof c              the client has seen the end of the stream              *)
(*   rst c t            the end came as a reset, which may overtake replies that *)
(*                      were on their way: it is what TCP does when something    *)
(*                      arrives that the server does not read any more           *)
(*   gone c | stuck c   CLIENT LIST stopped showing c | still shows it after   *)
(*                      the deadline                                           *)
(*   late c | starve    no reply (or end) on c before the deadline | none of   *)
(*                      the waiting connections got one                        *)
(*   backed c           c does not read, and more than all that lies between can  *)
(*                      hold is to be written to it: it goes on being served,    *)
(*                      until the client reads or leaves                        *)
(*   fds n | died       descriptors of the server over its idle number | the   *)
(*                      server process ended                                   *)
(*   load what n kb     n requests (what = "requests") or connections            *)
(*                      ("connections") were served entirely and are over, kb of   *)
(*                      data went through; what is stored is of the size it was     *)
(*   memory kb | kept   the memory of the server, at rest | loads go no further   *)
EXTENDS Commands

Inf == 1073741824
NoVal == "(nil)"
Unseen == "(unseen)"   \* the result of a GET whose reply was lost
NoCfg == [v |-> NoVal, lo |-> Inf, hi |-> Inf, pos |-> <<>>, got |-> {}]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Plus(a, b) == IF b >= Far THEN Inf ELSE a + b

\* conni: when it was opened, prov: when it was first known to be served,
\* endi: from when on it may be over, gonei: from when on it is over
NewConn(n, addr, laddr) ==
    [st |-> "open", laddr |-> laddr, conni |-> n, prov |-> 0, endi |-> Inf, gonei |-> Inf, id |-> -1,
     wild |-> FALSE, backed |-> FALSE, stop |-> FALSE, more |-> FALSE, addr |-> addr, pend |-> <<>>,
     names |-> <<[n |-> NoName, s |-> 0, r |-> 0]>>]

\* limit: the configured maximum, laddr: the server's address
Start(limit, laddr) ==
    [n |-> 0, limit |-> limit, laddr |-> laddr, C |-> <<>>, kv |-> <<>>, bad |-> {},
     skip |-> {},   \* clauses that are not judged
     past |-> {},   \* addresses of connections of earlier histories on this server
     mem |-> [kb |-> -1, most |-> 0, flat |-> FALSE],   \* memory, and what a load may add
     K |-> <<>>,    \* pending operations on the keyspace
     at |-> <<>>]   \* address -> the connections that have it

Ids(s) == DOMAIN s.C
Bad(s, clause) == IF clause \in s.skip THEN s ELSE [s EXCEPT !.bad = @ \cup {clause}]
Require(s, cond, clause) == IF cond THEN s ELSE Bad(s, clause)

---------------------------------------------------------------------------
(* Keyspace.  The possible states of a key are kept as a set of               *)
(* configurations: value v, bounds lo/hi of the instant it expires, the last   *)
(* pending operation of each connection that already took effect (pos), and    *)
(* the results of those whose result is not foreseen (got).                    *)
(* Operations take effect only when a reply requires it, in any order that     *)
(* respects the order on each connection: this decides linearizability.       *)
IsKv(op) == op.op \in {"get", "set"}

(* s.K[key][d] is the sequence of the operations on key that connection d has  *)
(* sent and that are not answered.                                            *)
KQ(s, key) == IF key \in DOMAIN s.K THEN s.K[key] ELSE <<>>
SetKQ(s, key, Q) == [s EXCEPT !.K = (key :> Q) @@ @]

KvPush(s, c, o) ==
    LET Q == KQ(s, o.key)
    IN SetKQ(s, o.key, (c :> IF c \in DOMAIN Q THEN Append(Q[c], o) ELSE <<o>>) @@ Q)

Without(f, c) == IF c \in DOMAIN f THEN TLCEval([d \in DOMAIN f \ {c} |-> f[d]]) ELSE f

\* the oldest operation of c on the key of o is answered
KvPop(s, c, o) ==
    LET Q == KQ(s, o.key)
        left == Tail(Q[c])
    IN IF left # <<>> THEN SetKQ(s, o.key, (c :> left) @@ Q)
       ELSE IF DOMAIN Q = {c} THEN [s EXCEPT !.K = TLCEval([k \in DOMAIN @ \ {o.key} |-> @[k]])]
       ELSE SetKQ(s, o.key, Without(Q, c))

Pos(cfg, d) == IF d \in DOMAIN cfg.pos THEN cfg.pos[d] ELSE 0
Todo(cfg, d, Q) == LET p == Pos(cfg, d) IN SelectSeq(Q[d], LAMBDA o : o.n > p)

Mark(cfg, d, o, r) ==
    [cfg EXCEPT !.pos = (d :> o.n) @@ @,
                !.got = IF o.op = "get" /\ o.res = "?" THEN @ \cup {[o |-> o.n, r |-> r]} ELSE @]

\* o, sent by d, takes effect before the instant t
Apply(cfg, d, o, t) ==
    IF o.op = "set"
    THEN {[Mark(cfg, d, o, "OK") EXCEPT !.v = o.val, !.lo = Plus(o.tl, o.ttl), !.hi = Plus(t, o.ttl)]}
    ELSE IF cfg.v = NoVal
    THEN IF o.res \in {"?", NoVal} THEN {Mark(cfg, d, o, NoVal)} ELSE {}
    ELSE (IF o.tl <= cfg.hi /\ o.res \in {"?", cfg.v}
          THEN {[Mark(cfg, d, o, cfg.v) EXCEPT !.lo = IF cfg.lo = Inf THEN Inf ELSE Max2(@, o.tl)]}
          ELSE {})
         \cup (IF t > cfg.lo /\ o.res \in {"?", NoVal}
               THEN {[Mark(cfg, d, o, NoVal) EXCEPT !.v = NoVal, !.lo = Inf, !.hi = Inf]}
               ELSE {})

\* A pending GET known to return what an unexpiring key holds now can take effect
\* now: it changes nothing, so nothing is excluded by that.
RECURSIVE Reads(_, _, _)
Reads(todo, v, k) ==
    IF k < Len(todo) /\ todo[k + 1].op = "get" /\ todo[k + 1].res = v THEN Reads(todo, v, k + 1) ELSE k

RECURSIVE AbsorbEach(_, _, _)
AbsorbEach(cfg, Q, D) ==
    IF D = {} THEN cfg
    ELSE LET d == CHOOSE d \in D : TRUE
             todo == Todo(cfg, d, Q)
             k == Reads(todo, cfg.v, 0)
         IN AbsorbEach(IF k = 0 THEN cfg ELSE [cfg EXCEPT !.pos = (d :> todo[k].n) @@ @], Q, D \ {d})
Absorb(cfg, Q) == IF cfg.lo # Inf THEN cfg ELSE AbsorbEach(cfg, Q, DOMAIN Q)

Expand(cfg, Q, t) ==
    UNION { LET todo == Todo(cfg, d, Q)
            IN IF todo = <<>> THEN {} ELSE {Absorb(c2, Q) : c2 \in Apply(cfg, d, todo[1], t)}
          : d \in DOMAIN Q }

RECURSIVE Linearize(_, _, _, _, _)
Linearize(front, c, o, Q, t) ==
    LET fin == {cfg \in front : Pos(cfg, c) >= o.n}
        rest == front \ fin
    IN IF rest = {} THEN fin
       ELSE fin \cup Linearize(UNION {Expand(cfg, Q, t) : cfg \in rest}, c, o, Q, t)

Cfgs(s, key) == IF key \in DOMAIN s.kv THEN s.kv[key] ELSE {NoCfg}

\* the configurations left once c has seen the reply r to its operation o
KvStep(s, c, o, r, t) ==
    LET Q == KQ(s, o.key)
        all == Linearize({Absorb(cfg, Q) : cfg \in Cfgs(s, o.key)}, c, o, Q, t)
        Answered(cfg) == [cfg EXCEPT !.pos = IF @[c] = o.n THEN Without(@, c) ELSE @,
                                     !.got = {x \in @ : x.o # o.n}]
    IN IF o.op = "get" /\ r = Unseen THEN {Answered(cfg) : cfg \in all}
       ELSE IF o.op = "get" /\ o.res = "?"
       THEN {Answered(cfg) : cfg \in {x \in all : [o |-> o.n, r |-> r] \in x.got}}
       ELSE IF o.op = "get" /\ o.res # r THEN {}
       ELSE {Answered(cfg) : cfg \in all}

SetKv(s, key, cfgs) ==
    [s EXCEPT !.kv = (key :> cfgs) @@ @]

RECURSIVE Closure(_, _, _, _)
\* whatever of the pending operations took effect
Closure(front, acc, Q, t) ==
    LET new == UNION {Expand(cfg, Q, t) : cfg \in front} \ acc
    IN IF new = {} THEN acc ELSE Closure(new, acc \cup new, Q, t)

\* nothing is executed for c any more: what it left took effect before or never
Forget(s, c) ==
    LET keys == {k \in DOMAIN s.K : c \in DOMAIN s.K[k]}
        Mine(k) == {s.K[k][c][i].n : i \in 1..Len(s.K[k][c])}
        Clear(k) == {[cfg EXCEPT !.pos = Without(@, c), !.got = {x \in @ : x.o \notin Mine(k)}] :
                        cfg \in Closure(Cfgs(s, k), Cfgs(s, k), s.K[k], Inf)}
    IN IF keys = {} THEN s
       ELSE [s EXCEPT !.kv = TLCEval([k \in keys |-> Clear(k)]) @@ @,
                      !.K = TLCEval([k \in DOMAIN @ |-> Without(@[k], c)])]

---------------------------------------------------------------------------
(* Connections: identity, names, registry.                                    *)
OwnName(s, c) ==
    LET ns == s.C[c].names
        k == CHOOSE i \in 1..Len(ns) :
                /\ ns[i].r <= s.n
                /\ \A j \in (i + 1)..Len(ns) : ns[j].r > s.n
    IN ns[k].n

\* names connection d may have had at some instant between events a and b
NamesIn(s, d, a, b) ==
    LET ns == s.C[d].names
    IN {ns[i].n : i \in {i \in 1..Len(ns) :
            /\ ns[i].s <= b
            /\ \A j \in (i + 1)..Len(ns) : ns[j].r > a}}

\* d has been shown to be served
Prove(s, d) == IF s.C[d].prov = 0 THEN [s EXCEPT !.C[d].prov = s.n] ELSE s

\* x was already served when y was opened: its id is smaller
Learn(s, d, id) ==
    IF s.C[d].id = id THEN s
    ELSE LET s1 == Require(s, s.C[d].id = -1, "id-stable")
             me == s.C[d]
             Fits(x) == \/ x.id = -1
                        \/ x.id < id /\ (me.prov = 0 \/ me.prov >= x.conni)   \* not: d was served before x was opened
                        \/ x.id > id /\ (x.prov = 0 \/ x.prov >= me.conni)
             s2 == IF \A x \in Ids(s) : x = d \/ Fits(s.C[x]) THEN s1
                   ELSE IF \E x \in Ids(s) \ {d} : s.C[x].id = id THEN Bad(s1, "id-unique")
                   ELSE Bad(s1, "id-increasing")
         IN [s2 EXCEPT !.C[d].id = id]

\* connections certainly served during the events a..now
Live(s, a) == {d \in Ids(s) : /\ s.C[d].prov > 0 /\ s.C[d].prov < a
                              /\ s.C[d].endi = Inf}
Holders(s) == {d \in Ids(s) : s.C[d].prov > 0 /\ s.C[d].endi = Inf}

RECURSIVE SeesLines(_, _, _, _, _)
\* the lines of a listing asked by c with request o
SeesLines(s, c, o, lines, i) ==
    IF i > Len(lines) THEN s
    ELSE LET ln == lines[i]
             ds == IF ln.addr \in DOMAIN s.at THEN {d \in s.at[ln.addr] : s.C[d].gonei > o.n} ELSE {}
         IN IF ln.addr \in s.past THEN SeesLines(s, c, o, lines, i + 1)
            ELSE IF ds = {} THEN SeesLines(Bad(s, "list-dead"), c, o, lines, i + 1)
            \* a port used again: which of the two it is cannot be told
            ELSE IF Cardinality(ds) > 1 THEN SeesLines(s, c, o, lines, i + 1)
            ELSE LET d == CHOOSE d \in ds : TRUE
                     nm == IF d = c THEN {OwnName(s, c)} ELSE NamesIn(s, d, o.n, s.n)
                     s1 == Require(s, ln.name \in nm \/ s.C[d].wild, "list-name")
                     s2 == Require(s1, ln.laddr = s.C[d].laddr, "list-laddr")
                 IN SeesLines(Prove(Learn(s2, d, ln.id), d), c, o, lines, i + 1)

Listing(s, c, o, lines) ==
    LET addrs == {lines[i].addr : i \in 1..Len(lines)}
        ids == {lines[i].id : i \in 1..Len(lines)}
        again == {i \in 1..Len(lines) : lines[i].addr \in s.past}   \* a port may be used again
        shown == IF o.ids = {} THEN Live(s, o.n) \cup {c}
                 ELSE {d \in Live(s, o.n) \cup {c} : s.C[d].id \in o.ids}
        s1 == Require(s, Cardinality(ids) = Len(lines) /\ (again = {} => Cardinality(addrs) = Len(lines)), "list-twice")
        s2 == Require(s1, o.ty # "normal" => lines = <<>>, "list-type")
        s3 == Require(s2, o.ty = "normal" => \A d \in shown : s.C[d].addr \in addrs, "list-missing")
        s4 == Require(s3, o.ids # {} => ids \subseteq o.ids, "list-ids")
    IN SeesLines(s4, c, o, lines, 1)

---------------------------------------------------------------------------
Pop(s, c) == [s EXCEPT !.C[c].pend = Tail(@)]

HelloFields == {"server", "version", "proto", "id", "mode", "role", "modules"}

\* the reply r to the oldest unanswered request o of c
Reply(s, c, o, r, t) ==
    CASE o.op = "reject" -> Bad(s, "reply-to-rejected")
      [] o.op = "ping" -> Require(s, r.k = "simple" /\ r.v = "PONG", "reply")
      [] o.op = "echo" -> Require(s, r.k = "bulk" /\ r.v = o.val, "reply")
      [] o.op = "set" ->
            LET s1 == Require(s, r.k = "simple" /\ r.v = "OK", "reply")
                cfgs == KvStep(s, c, o, "OK", t)
            IN IF "kv" \in s.skip THEN s1 ELSE KvPop(SetKv(Require(s1, cfgs # {}, "kv"), o.key, cfgs), c, o)
      [] o.op = "get" ->
            IF r.k \notin {"bulk", "null"} THEN Bad(s, "reply")
            ELSE IF "kv" \in s.skip THEN s
            ELSE LET cfgs == KvStep(s, c, o, IF r.k = "null" THEN NoVal ELSE r.v, t)
                 IN IF cfgs = {} THEN Bad(s, "kv") ELSE KvPop(SetKv(s, o.key, cfgs), c, o)
      [] o.op = "hello" ->
            IF r.k # "map" THEN Bad(s, "reply")
            ELSE Require(Learn(s, c, r.id), HelloFields \subseteq {r.fields[i] : i \in 1..Len(r.fields)} /\ r.proto = 3, "reply")
      [] o.op = "id" -> IF r.k # "int" THEN Bad(s, "reply") ELSE Learn(s, c, r.n)
      [] o.op = "info" ->
            IF r.k # "line" THEN Bad(s, "reply")
            ELSE LET s1 == Require(s, r.addr = s.C[c].addr /\ r.laddr = s.C[c].laddr, "info-addr")
                     s2 == Require(s1, r.name = OwnName(s, c), "info-name")
                 IN Learn(s2, c, r.id)
      [] o.op = "list" ->
            IF r.k # "lines" THEN Bad(s, "reply") ELSE Listing(s, c, o, r.lines)
      [] o.op = "getname" ->
            Require(s, IF OwnName(s, c) = NoName THEN r.k = "null"
                       ELSE r.k = "bulk" /\ r.v = OwnName(s, c), "getname")
      [] o.op = "setname" ->
            IF ~ValidName(o.name) THEN Require(s, r.k = "error", "setname")
            ELSE [Require(s, r.k = "simple" /\ r.v = "OK", "setname")
                    EXCEPT !.C[c].names = LET k == CHOOSE i \in DOMAIN @ : @[i].s = o.n
                                               IN [@ EXCEPT ![k].r = s.n]]
      [] o.op = "setinfo" -> Require(s, r.k = "simple" /\ r.v = "OK", "reply")
      [] o.op = "help" -> Require(s, r.k = "array" /\ r.n = HelpLines, "reply")
      [] o.op = "aclcat" -> Require(s, r.k \in {"error", "array", "lines"}, "reply")
      [] o.op = "unknown" ->
            Require(s, r.k = "error" /\ (IsToken(o.name) \/ IsToken(r.v) \/ Contains(Lower(r.v), o.name)),
                    "unknown")
      [] OTHER -> Bad(s, "op")

EndAt(s, c) == [s EXCEPT !.C[c].endi = Min2(@, s.n)]

Push(s, c, cmd, tl, res) ==
    LET o == cmd @@ [n |-> s.n, tl |-> tl, res |-> res]
        s1 == [s EXCEPT !.C[c].pend = Append(@, o)]
        s2 == IF cmd.op = "setname" /\ ValidName(cmd.name)
              THEN [s1 EXCEPT !.C[c].names =
                        Append(@, [n |-> IF cmd.name = "" THEN NoName ELSE cmd.name,
                                   s |-> s.n, r |-> Inf])]
              ELSE s1
    IN IF s.C[c].st = "eof" THEN s
       ELSE IF cmd.op = "reject" THEN [(IF s.C[c].backed THEN s2 ELSE EndAt(s2, c)) EXCEPT !.C[c].stop = TRUE, !.C[c].more = s.C[c].stop]
       ELSE IF s.C[c].stop THEN [s2 EXCEPT !.C[c].more = TRUE]
       \* nothing takes effect from the first rejected request on
       ELSE IF IsKv(cmd) /\ "kv" \notin s.skip THEN KvPush(s2, c, o)
       ELSE s2

\* connections are numbered in the order in which they are opened
OnConn(s, e) ==
    IF e.c # Len(s.C) + 1 THEN Bad(s, "order")
    ELSE [s EXCEPT !.C = Append(@, NewConn(s.n, e.addr, IF "laddr" \in DOMAIN e THEN e.laddr ELSE s.laddr)),
                   !.at = (e.addr :> ({e.c} \cup IF e.addr \in DOMAIN @ THEN @[e.addr] ELSE {})) @@ @]

OnRecv(s, e) ==
    LET cc == s.C[e.c]
    IN IF cc.st \notin {"open", "half"} THEN Bad(s, "unsolicited")
       ELSE IF e.r.k = "garbage" THEN Bad(s, "garbage")
       ELSE IF cc.wild THEN Prove(s, e.c)
       ELSE IF cc.pend = <<>> THEN Bad(s, "unsolicited")
       ELSE LET s0 == IF ~cc.backed THEN s
                      ELSE IF cc.st = "half" \/ cc.stop THEN [EndAt(s, e.c) EXCEPT !.C[e.c].backed = FALSE]
                      ELSE [s EXCEPT !.C[e.c].backed = FALSE]
                s1 == Reply(s0, e.c, Head(cc.pend), e.r, e.t)
                s2 == Prove(Pop(s1, e.c), e.c)
            IN IF cc.prov > 0 /\ Head(cc.pend).op # "list" THEN s2   \* no new holder
               ELSE Require(s2, Cardinality(Holders(s2)) <= s.limit, "limit")

OnEof(s, e) ==
    LET cc == s.C[e.c]
        rejected == cc.pend # <<>> /\ Head(cc.pend).op = "reject"
        s1 == Require(s, rejected \/ cc.wild \/ (cc.st = "half" /\ cc.pend = <<>>), "eof")
        s2 == IF rejected THEN [s1 EXCEPT !.C[e.c].pend = <<>>] ELSE s1
    IN [EndAt(s2, e.c) EXCEPT !.C[e.c].st = "eof"]

\* the requests of c before the refused one were executed, their replies are lost
RECURSIVE Lost(_, _, _)
Lost(s, c, t) ==
    LET pend == s.C[c].pend
        o == Head(pend)
        done == CASE IsKv(o) /\ "kv" \notin s.skip ->
                       LET cfgs == KvStep(s, c, o, IF o.op = "set" THEN "OK" ELSE Unseen, t)
                       IN KvPop(SetKv(Require(s, cfgs # {}, "kv"), o.key, cfgs), c, o)
                  [] o.op = "setname" /\ ValidName(o.name) -> Reply(s, c, o, [k |-> "simple", v |-> "OK"], t)
                  [] OTHER -> s
    IN IF pend = <<>> THEN s ELSE IF o.op = "reject" THEN s ELSE Lost(Pop(done, c), c, t)

\* A reset: the server stops reading at the refused request, and what the client
\* sent after it makes TCP drop the connection with the replies not yet received.
OnReset(s, e) ==
    LET cc == s.C[e.c]
        loses == cc.stop /\ cc.more /\ cc.pend # <<>>
    IN OnEof(IF loses THEN Lost(s, e.c, e.t) ELSE s, e)

\* c has no right to wait: it is served, or there is room for it
MayWait(s, c) ==
    /\ s.C[c].prov = 0
    /\ Cardinality({d \in Ids(s) \ {c} : s.C[d].gonei = Inf}) >= s.limit

\* connections that may hold a place without a client being able to tell
Silent(s) == {d \in Ids(s) : s.C[d].prov = 0 /\ s.C[d].st \in {"open", "half"} /\ s.C[d].pend = <<>>}

(* Memory.  What is over leaves nothing: under a load that is repeated, memory  *)
(* must stop growing.  An allocator takes its share at first and now and then, so *)
(* one load that adds (nearly) nothing is enough; what every load adds is kept.  *)
PerRequest == 32        \* bytes that are no growth
PerConnection == 100

Step0(s, e) ==
    CASE e.e = "conn" -> OnConn(s, e)
      [] e.e = "send" -> Push(s, e.c, Command(e.args), e.tl, e.res)
      [] e.e = "junk" -> [Push(s, e.c, Reject, 0, "?") EXCEPT !.C[e.c].more = TRUE]
      [] e.e = "past" -> [s EXCEPT !.past = {e.addrs[i] : i \in 1..Len(e.addrs)}]
      [] e.e = "wild" -> [EndAt(s, e.c) EXCEPT !.C[e.c].wild = TRUE]
      [] e.e = "recv" -> OnRecv(s, e)
      [] e.e = "half" -> [(IF s.C[e.c].backed THEN s ELSE EndAt(s, e.c)) EXCEPT !.C[e.c].st = IF @ = "open" THEN "half" ELSE @]
      [] e.e = "close" -> [EndAt(s, e.c) EXCEPT !.C[e.c].st = "closed"]
      [] e.e = "reset" -> [EndAt(s, e.c) EXCEPT !.C[e.c].st = "closed"]
      [] e.e = "eof" -> OnEof(s, e)
      [] e.e = "rst" -> OnReset(s, e)
      \* nothing is executed for it any more, replies may be on their way
      [] e.e = "gone" ->
            LET s1 == [EndAt(s, e.c) EXCEPT !.C[e.c].gonei = Min2(@, s.n)]
            IN IF s.C[e.c].st = "closed" THEN Forget([s1 EXCEPT !.C[e.c].pend = <<>>], e.c) ELSE s1
      [] e.e = "backed" ->
            IF s.C[e.c].st \in {"open", "half"} /\ s.C[e.c].gonei = Inf /\ ~s.C[e.c].wild
            THEN [s EXCEPT !.C[e.c].endi = Inf, !.C[e.c].backed = TRUE] ELSE s
      [] e.e = "stuck" -> Require(s, s.C[e.c].endi = Inf, "list-stuck")
      [] e.e = "late" -> Require(s, MayWait(s, e.c), "late")
      [] e.e = "starve" ->
            Require(s, Cardinality(Holders(s)) + Cardinality(Silent(s)) >= s.limit
                       \/ ~\E d \in Ids(s) : s.C[d].prov = 0 /\ s.C[d].st = "open" /\ s.C[d].pend # <<>>,
                    "starve")
      [] e.e = "fds" ->
            Require(s, e.n <= Cardinality({d \in Ids(s) : s.C[d].st \in {"open", "half"}}), "fds")
      [] e.e = "load" ->
            [s EXCEPT !.mem.most = @ + e.n * (IF e.what = "requests" THEN PerRequest ELSE PerConnection) + 1024 * (e.kb \div 50)]
      [] e.e = "memory" ->
            [s EXCEPT !.mem = [kb |-> e.kb, most |-> 0,
                               flat |-> @.flat \/ (@.kb >= 0 /\ @.most > 0 /\ 1024 * (e.kb - @.kb) <= @.most)]]
      [] e.e = "kept" -> [Require(s, s.mem.flat, "memory") EXCEPT !.mem = [kb |-> -1, most |-> 0, flat |-> FALSE]]
      [] e.e = "died" -> Bad(s, "died")
      [] OTHER -> Bad(s, "event")

Step(s, e) == Step0([s EXCEPT !.n = @ + 1], e)
=============================================================================
