-------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The listed properties as monitors over what a user of one endpoint can  *)
(* observe: the calls, the returned events, the exported store and handled *)
(* set, the reported vacancy and the identifiers in use.  The monitors do  *)
(* not look at the state of Conn.tla: the same module judges the behaviours *)
(* of the specification (MCConn) and the traces of the real code           *)
(* (TraceConn).                                                            *)
(*                                                                         *)
(* An observation O is a record                                            *)
(*   c    the call            ev  the returned events                      *)
(*   ok, id   result of acquire / register                                 *)
(*   st, h, vac, ver   exported store, handled ids, vacancy, version after *)
(*   pb   identifiers in use among g.smp (<<-1>>: not sampled)             *)
(*   panic, early, left                                                    *)
(* Mon(g, O) = [g |-> next ghost state, v |-> set of <<property, text>>]   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE Conn

GNew(role, ver, w, smp) ==
  [ role |-> role, ver |-> ver, w |-> w, smp |-> smp,
    st |-> "D", isc |-> FALSE, pers |-> FALSE, ever |-> FALSE,
    mps |-> 0, lmps |-> 0, m |-> 0, lm |-> 0, tam |-> 0, ltam |-> 0,
    ka |-> 0, ska |-> -1, rt |-> 0, rsp |-> 0, ui |-> -1,
    out |-> {},    \* outbound exchanges <<id, qos, stage>>, stage "pub" "rec" "rel"
    live |-> {},   \* those of this connection, by id
    carry |-> FALSE,   \* the vacancy is not judged until the connection ends
    odd |-> FALSE,     \* a CONNACK was accepted where no CONNECT waits for one: only totality is judged from here on
    inq |-> {}, nq2 |-> {}, sa |-> <<>>, ra |-> <<>>, tm |-> {},
    used |-> {}, sub |-> {}, sto |-> <<>>, h |-> {}, vac |-> -1 ]

(* ------------------------------ event lists ------------------------------ *)
Sends(ev) == SelectSeq(ev, LAMBDA e : e.e = "send")
Recvs(ev) == SelectSeq(ev, LAMBDA e : e.e = "recv")
RelIds(ev) == { ev[i].id : i \in { j \in 1..Len(ev) : ev[j].e = "rel" } }
Errs(ev) == { ev[i].x : i \in { j \in 1..Len(ev) : ev[j].e = "err" } }
HasSend(ev, k) == \E i \in 1..Len(ev) : ev[i].e = "send" /\ ev[i].p.k = k
HasRecv(ev, k) == \E i \in 1..Len(ev) : ev[i].e = "recv" /\ ev[i].p.k = k
HasClose(ev) == \E i \in 1..Len(ev) : ev[i].e = "close"
HasReset(ev, t, ms) == \E i \in 1..Len(ev) : ev[i].e = "treset" /\ ev[i].t = t /\ ev[i].ms = ms
AnyReset(ev, t) == \E i \in 1..Len(ev) : ev[i].e = "treset" /\ ev[i].t = t
LastSend(ev) == LET S == { i \in 1..Len(ev) : ev[i].e = "send" } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i

OutIds(g) == { x[1] : x \in g.out }
Stage(g, id) == IF \E x \in g.out : x[1] = id THEN (CHOOSE x \in g.out : x[1] = id)[3] ELSE ""
OutQ(g, id) == IF \E x \in g.out : x[1] = id THEN (CHOOSE x \in g.out : x[1] = id)[2] ELSE 0
DropOut(g, id) == [g EXCEPT !.out = { x \in @ : x[1] # id }, !.live = @ \ {id}]
SetOut(g, id, q, stage) == [g EXCEPT !.out = { x \in @ : x[1] # id } \cup {<<id, q, stage>>}]
NewSession(g) == [g EXCEPT !.out = {}, !.live = {}, !.nq2 = {}, !.used = {}]
BindIn(seq, a, t) == Append(SelectSeq(seq, LAMBDA x : x[1] # a), <<a, t>>)
Bound(seq, a) == LET q == SelectSeq(seq, LAMBDA x : x[1] = a) IN IF q = <<>> THEN "" ELSE q[1][2]
StoredAs(sto, k, id) == \E i \in 1..Len(sto) : sto[i].k = k /\ sto[i].id = id

(* a call that leaves the peer's frame to be judged: complete, well-framed, parsed *)
Frame(O) == O.c.k = "recv" /\ ~O.c.bad
Parsed(O) == Frame(O) /\ O.c.perr = ""
Oversize(g, O) == Frame(O) /\ g.lmps > 0 /\ O.c.sz > g.lmps
Gated(g, O) == Frame(O) /\ g.ver # 0 /\ NeverReceives(g.role, g.ver, O.c.ty)
AckOf(k) == k \in {"puback", "pubrec", "pubcomp", "suback", "unsuback"}
(* does acknowledgement p complete a step of an exchange in flight? *)
Matches(g, p) ==
  CASE p.k = "puback" -> <<p.id, 1, "pub">> \in g.out
    [] p.k = "pubrec" -> <<p.id, 2, "pub">> \in g.out
    [] p.k = "pubcomp" -> Stage(g, p.id) = "rel"
    [] p.k = "suback" -> <<p.id, "subscribe">> \in g.sub
    [] p.k = "unsuback" -> <<p.id, "unsubscribe">> \in g.sub
    [] OTHER -> FALSE

(* this call establishes the connection *)
Establishes(g, O) ==
  \/ O.c.k = "send" /\ O.c.p.k = "connack" /\ O.c.p.rc = 0 /\ HasSend(O.ev, "connack")
  \/ O.c.k = "recv" /\ HasRecv(O.ev, "connack") /\ O.c.perr = "" /\ O.c.p.k = "connack" /\ O.c.p.rc = 0 /\ g.st # "C"
StartsClean(O) ==
  \/ O.c.k = "send" /\ O.c.p.k = "connect" /\ O.c.p.cl /\ HasSend(O.ev, "connect")
  \/ O.c.k = "recv" /\ HasRecv(O.ev, "connect") /\ O.c.p.cl
(* recorded defect: the client treats this CONNACK as the end of the session although it is present *)
Sei0(g, O) == O.c.k = "recv" /\ Establishes(g, O) /\ O.c.p.v = 5 /\ O.c.p.sp /\ O.c.p.sei = 0

(* ------------------- what the call itself changes ------------------------ *)
StartConn(g, p, isc) ==
  LET z == [g EXCEPT !.st = "G", !.isc = isc, !.ever = TRUE, !.mps = 0, !.lmps = 0, !.m = 0, !.lm = 0, !.tam = 0, !.ltam = 0,
                     !.ska = -1, !.inq = {}, !.live = {}, !.carry = FALSE, !.sa = <<>>, !.ra = <<>>,
                     !.pers = IF p.v = 3 THEN ~p.cl ELSE p.sei > 0,
                     !.ka = IF isc THEN p.ka * 1000 ELSE 0, !.rt = IF isc THEN 0 ELSE p.ka * 1500]
      y == IF isc THEN [z EXCEPT !.lmps = Max2(0, p.mps), !.lm = Max2(0, p.rm), !.ltam = Max2(0, p.tam)]
           ELSE [z EXCEPT !.mps = Max2(0, p.mps), !.m = Max2(0, p.rm), !.tam = Max2(0, p.tam)]
      x == IF p.v = 3 THEN z ELSE y
  IN IF p.cl THEN NewSession(x) ELSE x
(* accepted CONNACK: received by the client (isc) or sent by the server *)
Establish(g, p) ==
  LET z == [g EXCEPT !.st = "C"]
      y == IF p.v = 3 THEN z
           ELSE IF g.isc
           THEN [z EXCEPT !.mps = IF p.mps > 0 THEN p.mps ELSE @, !.m = IF p.rm > 0 THEN p.rm ELSE @,
                          !.tam = IF p.tam >= 0 THEN p.tam ELSE @, !.sa = IF p.tam > 0 THEN <<>> ELSE @,
                          !.ska = IF p.ska >= 0 THEN p.ska * 1000 ELSE @,
                          !.pers = IF p.sei >= 0 THEN p.sei > 0 ELSE @]
           ELSE [z EXCEPT !.lmps = IF p.mps > 0 THEN p.mps ELSE @, !.lm = IF p.rm > 0 THEN p.rm ELSE @,
                          !.ltam = IF p.tam >= 0 THEN p.tam ELSE @, !.ra = IF p.tam > 0 THEN <<>> ELSE @,
                          !.rt = IF p.ska >= 0 THEN p.ska * 1500 ELSE @]
      big == { y.sto[i].id : i \in { j \in 1..Len(y.sto) : p.v = 5 /\ y.mps > 0 /\ y.sto[j].sz > y.mps } }
      kept == { y.sto[i].id : i \in 1..Len(y.sto) } \ big
  IN IF ~p.sp \/ (p.v = 5 /\ g.isc /\ p.sei = 0) THEN NewSession(y)
     ELSE [y EXCEPT !.out = { x \in @ : x[1] \notin big }, !.live = kept,
                    !.carry = \E x \in y.out : x[3] = "rec"]

EndConn(g) ==
  LET z == [g EXCEPT !.st = "D", !.mps = 0, !.lmps = 0, !.m = 0, !.lm = 0, !.tam = 0, !.ltam = 0, !.ka = 0, !.ska = -1, !.rt = 0,
                     !.inq = {}, !.live = {}, !.carry = FALSE, !.sa = <<>>, !.ra = <<>>]
  IN IF z.pers THEN [z EXCEPT !.sub = {}] ELSE [z EXCEPT !.sub = {}, !.out = {}, !.nq2 = {}]

Pre(g, O) ==
  LET c == O.c IN
  CASE c.k = "timer" -> [g EXCEPT !.tm = @ \ {c.t}]
    [] c.k = "acquire" /\ O.ok -> [g EXCEPT !.used = @ \cup {O.id}]
    [] c.k = "release" /\ c.id \in g.live -> [g EXCEPT !.carry = TRUE]
    [] c.k = "register" /\ O.ok -> [g EXCEPT !.used = @ \cup {c.id}]
    [] c.k = "opt" /\ c.o = "offline" /\ c.n # 0 -> [g EXCEPT !.pers = TRUE]
    [] c.k = "opt" /\ c.o = "resp_timeout" -> [g EXCEPT !.rsp = c.n]
    [] c.k = "setint" -> [g EXCEPT !.ui = c.ms]
    [] c.k = "erase" /\ StoredAs(g.sto, "publish", c.id) -> DropOut(g, c.id)
    [] c.k = "restoreq2" -> [g EXCEPT !.nq2 = { c.ids[i] : i \in 1..Len(c.ids) }]
    [] c.k = "restore" ->
         LET new == { i \in 1..Len(c.ps) : c.ps[i].id \notin g.used }
         IN [g EXCEPT !.used = @ \cup { c.ps[i].id : i \in new },
                      !.out = @ \cup { <<c.ps[i].id, IF c.ps[i].k = "pubrel" THEN 2 ELSE c.ps[i].q,
                                         IF c.ps[i].k = "pubrel" THEN "rel" ELSE "pub">> : i \in new }]
    [] c.k = "closed" -> EndConn(g)
    [] Parsed(O) /\ AckOf(c.p.k) /\ HasRecv(O.ev, c.p.k) ->
         LET p == c.p IN
         CASE p.k = "pubrec" /\ p.rc < 128 -> SetOut(g, p.id, 2, "rec")
           [] p.k \in {"puback", "pubcomp", "pubrec"} -> DropOut(g, p.id)
           [] OTHER -> [g EXCEPT !.sub = { x \in @ : x[1] # p.id }]
    [] Parsed(O) /\ c.p.k = "connect" /\ HasRecv(O.ev, "connect") -> StartConn([g EXCEPT !.ver = c.p.v], c.p, FALSE)
    [] c.k = "recv" /\ Establishes(g, O) -> Establish(g, c.p)
    [] Parsed(O) /\ c.p.k = "pubrel" /\ HasRecv(O.ev, "pubrel") -> [g EXCEPT !.nq2 = @ \ {c.p.id}]
    [] Parsed(O) /\ c.p.k = "publish" /\ (HasRecv(O.ev, "publish") \/ (Errs(O.ev) \subseteq {"PacketTooLarge"} /\ ~Oversize(g, O))) ->
         \* the answer to it may be in the same list: outstanding before the events are looked at
         [g EXCEPT !.ra = IF c.p.a > 0 /\ c.p.t # "" THEN BindIn(@, c.p.a, c.p.t) ELSE @,
                   !.inq = IF c.p.q > 0 THEN @ \cup {c.p.id} ELSE @]
    [] OTHER -> g

(* --------------------------- event by event ------------------------------ *)
V(b, P, s) == IF b THEN {<<P, s>>} ELSE {}
IdName(p) == p.k \o " " \o ToString(p.id)

(* topic the application asked for with the PUBLISH just requested *)
Intended(g, O, p) ==
  IF O.c.k = "send" /\ O.c.p.k = "publish" THEN IF O.c.p.t # "" THEN O.c.p.t ELSE Bound(g.sa, O.c.p.a)
  ELSE LET q == SelectSeq(g.sto, LAMBDA x : x.k = "publish" /\ x.id = p.id) IN IF q = <<>> THEN "" ELSE q[1].t

OnSend(g, O, e, closed) ==
  LET p == e.p
      app == O.c.k = "send" /\ O.c.p.k = p.k
      v0 == V(closed, "C19", "request to send " \o p.k \o " after a request to close")
            \cup V(p.v = 5 /\ g.mps > 0 /\ p.sz > g.mps, "C14", "requested to send " \o IdName(p) \o " of "
                    \o ToString(p.sz) \o " bytes to a peer that accepts " \o ToString(g.mps))
  IN CASE p.k = "publish" ->
            LET want == Intended(g, O, p)
                v1 == V(p.t = "" /\ (p.a \notin 1..g.tam \/ Bound(g.sa, p.a) # want \/ want = ""), "C13",
                        "PUBLISH with empty topic and alias " \o ToString(p.a) \o " is not resolvable to " \o want)
                      \cup V(p.t # "" /\ p.t # want, "C13", "PUBLISH sent with topic " \o p.t \o " instead of " \o want)
                      \cup V(p.a > g.tam, "C13", "PUBLISH sent with alias " \o ToString(p.a) \o " beyond the peer's maximum")
                      \cup V(~app /\ (p.a # 0 \/ p.t = ""), "C13", "retransmitted PUBLISH uses an alias")
                      \cup V(app /\ p.q > 0 /\ p.v = 5 /\ g.m > 0 /\ p.id \notin g.live /\ Cardinality(g.live) >= g.m, "C12",
                             "new PUBLISH " \o ToString(p.id) \o " although " \o ToString(Cardinality(g.live))
                             \o " exchanges are incomplete and the peer's Receive Maximum is " \o ToString(g.m))
                      \cup V(app /\ p.q > 0 /\ p.id \notin g.used, "C08", "PUBLISH sent with an identifier that is not in use")
                g1 == IF p.a > 0 /\ p.t # "" THEN [g EXCEPT !.sa = BindIn(@, p.a, p.t)] ELSE g
                g2 == IF p.q > 0 THEN [SetOut(g1, p.id, p.q, "pub") EXCEPT !.live = @ \cup {p.id}] ELSE g1
            IN [g |-> g2, v |-> v0 \cup v1]
       [] p.k = "pubrel" -> [g |-> [SetOut(g, p.id, 2, "rel") EXCEPT !.live = @ \cup {p.id}], v |-> v0]
       [] p.k \in {"puback", "pubcomp"} -> [g |-> [g EXCEPT !.inq = @ \ {p.id}], v |-> v0]
       [] p.k = "pubrec" ->
            [g |-> IF p.v = 5 /\ p.rc >= 128 THEN [g EXCEPT !.inq = @ \ {p.id}, !.nq2 = @ \ {p.id}] ELSE g, v |-> v0]
       [] p.k = "connect" -> [g |-> StartConn(g, p, TRUE), v |-> v0]
       [] p.k = "connack" -> [g |-> IF p.rc = 0 THEN Establish(g, p) ELSE [g EXCEPT !.st = "D"],
                              v |-> v0 \cup V(p.rc # 0 /\ ~HasClose(O.ev), "C19", "refusing CONNACK without a close request")]
       [] p.k = "disconnect" -> [g |-> [g EXCEPT !.st = "D"],
                                 v |-> v0 \cup V(~HasClose(O.ev), "C19", "DISCONNECT sent without a close request")]
       [] p.k \in {"subscribe", "unsubscribe"} -> [g |-> [g EXCEPT !.sub = @ \cup {<<p.id, p.k>>}], v |-> v0]
       [] OTHER -> [g |-> g, v |-> v0]

OnRecv(g, O, e) ==
  LET p == e.p IN
  CASE p.k = "publish" ->
         LET w == O.c.p
             want == IF w.t # "" THEN w.t ELSE Bound(g.ra, w.a)
             v1 == V(p.t # want \/ want = "" \/ (p.a > 0 /\ p.a > g.ltam), "C13",
                     "PUBLISH delivered with topic " \o p.t \o " instead of " \o want \o " (alias " \o ToString(w.a) \o ")")
                   \cup V(p.q = 2 /\ p.id \in g.nq2, "C07", "QoS 2 PUBLISH " \o ToString(p.id) \o " notified twice in one exchange")
                   \cup V(p.q # w.q \/ p.fp # w.fp \/ p.id # w.id, "C07", "PUBLISH delivered with other content than received")
         IN [g |-> IF p.q = 2 THEN [g EXCEPT !.nq2 = @ \cup {p.id}] ELSE g, v |-> v1]
    [] OTHER -> [g |-> g, v |-> {}]

(* identifiers this call may take out of an unfinished persistent exchange *)
MayRelease(g0, O, id) ==
  \/ O.c.k \in {"release", "erase"} /\ O.c.id = id
  \/ O.c.k = "closed" /\ ~g0.pers
  \/ O.c.k = "send" /\ O.c.p.id = id
  \/ Establishes(g0, O)
  \/ Parsed(O) /\ AckOf(O.c.p.k) /\ O.c.p.id = id
OnRel(g, g0, O, id) ==
  [g |-> [DropOut(g, id) EXCEPT !.used = @ \ {id}, !.sub = { x \in @ : x[1] # id }],
   v |-> V(id \notin g.used, "C08", "release of identifier " \o ToString(id) \o " announced although it is free")
         \cup V(id \in OutIds(g) /\ ~MayRelease(g0, O, id), "C06",
                "identifier " \o ToString(id) \o " of an unfinished exchange released")]

OnEvent(g, g0, O, i) ==
  LET e == O.ev[i] IN
  CASE e.e = "send" -> OnSend(g, O, e, \E j \in 1..(i - 1) : O.ev[j].e = "close")
    [] e.e = "recv" -> OnRecv(g, O, e)
    [] e.e = "rel" -> OnRel(g, g0, O, e.id)
    [] e.e = "treset" -> [g |-> [g EXCEPT !.tm = @ \cup {e.t}], v |-> {}]
    [] e.e = "tcancel" -> [g |-> [g EXCEPT !.tm = @ \ {e.t}],
                           v |-> V(e.t \notin g.tm, "C15", "cancel of timer " \o e.t \o " which is not armed")]
    [] OTHER -> [g |-> g, v |-> {}]

RECURSIVE Fold(_, _, _, _, _)
Fold(g, g0, O, i, v) ==
  IF i > Len(O.ev) THEN [g |-> g, v |-> v]
  ELSE LET r == OnEvent(g, g0, O, i) IN Fold(r.g, g0, O, i + 1, v \cup r.v)

(* ------------------------------ afterwards ------------------------------- *)
(* store entries are compared by kind, id and content *)
SameEntry(a, b) == a.k = b.k /\ a.id = b.id /\ a.fp = b.fp /\ (a.k # "publish" \/ (a.t = b.t /\ a.q = b.q))
In(e, q) == \E i \in 1..Len(q) : SameEntry(e, q[i])
SameStore(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameEntry(a[i], b[i])

(* may stored packet x leave the store with this call? (g0 before, g2 after) *)
MayLeave(g0, g2, O, x) ==
  \/ Parsed(O) /\ O.c.p.id = x.id /\ HasRecv(O.ev, O.c.p.k)
     /\ \/ O.c.p.k = "puback" /\ x.k = "publish" /\ x.q = 1
        \/ O.c.p.k = "pubrec" /\ x.k = "publish" /\ x.q = 2
        \/ O.c.p.k = "pubcomp" /\ x.k = "pubrel"
  \/ O.c.k = "erase" /\ O.c.id = x.id /\ x.k = "publish"
  \/ StartsClean(O)
  \/ Establishes(g0, O) /\ ~O.c.p.sp
  \/ Establishes(g0, O) /\ g2.mps > 0 /\ x.sz > g2.mps
  \/ O.c.k = "closed" /\ ~g0.pers

ToResend(g0, g2) == SelectSeq(g0.sto, LAMBDA x : ~(x.v = 5 /\ g2.mps > 0 /\ x.sz > g2.mps))
ResendOk(want, got) ==
  Len(want) = Len(got) /\ \A i \in 1..Len(want) :
    /\ SameEntry(want[i], got[i].p)
    /\ want[i].k = "publish" => got[i].p.d /\ got[i].p.a = 0 /\ got[i].p.t # ""

C06(g0, g2, O) ==
  LET c == O.c
      refused == Errs(O.ev) # {}
      common == SelectSeq(g0.sto, LAMBDA x : In(x, O.st))
      n == Len(common)
  IN V(c.k = "send" /\ c.p.k = "publish" /\ c.p.q > 0 /\ ~refused
         /\ ~HasSend(O.ev, "publish") /\ ~StoredAs(O.st, "publish", c.p.id), "C06", "accepted PUBLISH neither sent nor stored")
     \cup V(c.k = "send" /\ c.p.k \in {"publish", "pubrel"} /\ (c.p.k = "pubrel" \/ c.p.q > 0) /\ ~refused /\ g0.pers
         /\ ~StoredAs(O.st, c.p.k, c.p.id), "C06", "accepted " \o c.p.k \o " of a persistent session is not in the store")
     \cup { <<"C06", "stored " \o IdName(x) \o " left the store without reason">> :
              x \in IF Sei0(g0, O) THEN {} ELSE { g0.sto[i] : i \in { j \in 1..Len(g0.sto) :
                       ~In(g0.sto[j], O.st) /\ ~MayLeave(g0, g2, O, g0.sto[j]) } } }
     \cup V(Sei0(g0, O) /\ g0.sto # <<>> /\ O.st = <<>>, "C06",
            "[sei0] CONNACK with session present and Session Expiry Interval 0 empties the store instead of resending it")
     \cup V(~(n <= Len(O.st) /\ \A i \in 1..n : SameEntry(common[i], O.st[i])), "C06", "the store was reordered")
     \cup V(Parsed(O) /\ AckOf(c.p.k) /\ ~Gated(g0, O) /\ ~Oversize(g0, O) /\ g0.ver # 0 /\ ~Matches(g0, c.p)
              /\ (HasRecv(O.ev, c.p.k) \/ "ProtocolError" \notin Errs(O.ev) \/ RelIds(O.ev) # {} \/ ~SameStore(g0.sto, O.st)),
            "C06", IdName(c.p) \o " matches nothing in flight but was acted upon or not reported")
     \cup V(Parsed(O) /\ AckOf(c.p.k) /\ ~Gated(g0, O) /\ ~Oversize(g0, O) /\ g0.st = "C" /\ Matches(g0, c.p)
              /\ ~HasRecv(O.ev, c.p.k), "C06", IdName(c.p) \o " completes an exchange but was not accepted")
     \cup V(Parsed(O) /\ AckOf(c.p.k) /\ HasRecv(O.ev, c.p.k)
              /\ \E i \in 1..Len(g0.sto) : MayLeave(g0, g2, O, g0.sto[i]) /\ In(g0.sto[i], O.st),
            "C06", IdName(c.p) \o " did not remove the packet it acknowledges")
     \cup V(Establishes(g0, O) /\ c.p.sp /\ ~Sei0(g0, O)
              /\ ~ResendOk(ToResend(g0, g2), SelectSeq(Sends(O.ev), LAMBDA e : e.p.k # "connack")), "C06",
            "stored packets not resent exactly, in order, with DUP, full topic and no alias")
     \cup V(Establishes(g0, O) /\ c.p.sp /\ c.k = "send" /\ Len(O.ev) > 0 /\ Sends(O.ev)[1].p.k # "connack", "C06",
            "resent before CONNACK")
     \cup V(Establishes(g0, O) /\ ~c.p.sp /\ O.st # <<>>, "C06", "session not present but the store is not empty")
     \cup V(Establishes(g0, O) /\ ~c.p.sp /\ O.pb # <<-1>> /\ O.pb # <<>>, "C06", "session not present but identifiers stay in use")
     \cup V(O.pb # <<-1>> /\ \E i \in 1..Len(O.st) : O.st[i].id \in g0.smp /\ ~\E j \in 1..Len(O.pb) : O.pb[j] = O.st[i].id,
            "C06", "identifier of a stored packet is not held")

C07(g0, g2, O) ==
  LET c == O.c
      q2 == Parsed(O) /\ c.p.k = "publish" /\ c.p.q = 2
      quiet == Errs(O.ev) = {}
  IN V(q2 /\ quiet /\ c.p.id \notin g0.nq2 /\ ~HasRecv(O.ev, "publish"), "C07",
       "QoS 2 PUBLISH " \o ToString(IF q2 THEN c.p.id ELSE 0) \o " swallowed without having been notified")
     \cup V(q2 /\ quiet /\ c.p.id \in g0.nq2 /\ g0.st = "C" /\ ~HasSend(O.ev, "pubrec"), "C07",
            "retransmitted QoS 2 PUBLISH not answered with PUBREC")
     \cup V({ O.h[i] : i \in 1..Len(O.h) } # g2.nq2, "C07", "exported handled ids " \o ToString(O.h) \o " instead of " \o ToString(g2.nq2))

C08(g0, g2, O) ==
  LET c == O.c
      owns == c.k = "send" /\ OwnsId(c.p.k) /\ (c.p.k # "publish" \/ c.p.q > 0)
      done == Parsed(O) /\ AckOf(c.p.k) /\ HasRecv(O.ev, c.p.k) /\ (c.p.k # "pubrec" \/ (c.p.v = 5 /\ c.p.rc >= 128))
      gone == { x[1] : x \in g0.sub } \cup (IF g0.pers THEN {} ELSE OutIds(g0))
      free == (IF g0.w = 2 THEN 65535 ELSE NoLimit) - Cardinality(g0.used)
  IN V(c.k = "acquire" /\ O.ok /\ O.id \in g0.used, "C08", "acquire handed out identifier " \o ToString(O.id) \o " which is in use")
     \cup V(c.k = "acquire" /\ O.ok /\ (O.id = 0 \/ (g0.w = 2 /\ O.id \notin 1..65535)), "C08", "acquire handed out an illegal identifier")
     \cup V(c.k = "acquire" /\ ~O.ok /\ free > 0, "C08", "acquire failed although identifiers are free")
     \cup V(c.k = "acquire" /\ O.ok /\ free <= 0, "C08", "acquire succeeded although all identifiers are in use")
     \cup V(c.k = "register" /\ O.ok # (c.id \notin g0.used /\ c.id # 0), "C08",
            "register of " \o ToString(IF c.k = "register" THEN c.id ELSE 0) \o " answered " \o ToString(O.ok))
     \cup V(c.k = "release" /\ (c.id \in g0.used) # (c.id \in RelIds(O.ev)), "C08", "release of an identifier not announced exactly when it was in use")
     \cup V(owns /\ Errs(O.ev) # {} /\ ~HasSend(O.ev, c.p.k) /\ c.p.id \in g0.used /\ c.p.id \notin RelIds(O.ev), "C08",
            "refused " \o c.p.k \o " keeps its identifier")
     \cup V(done /\ c.p.id \in g0.used /\ c.p.id \notin RelIds(O.ev), "C08", "completed exchange keeps its identifier")
     \cup V(c.k = "closed" /\ RelIds(O.ev) # gone \cap g0.used, "C08",
            "close released " \o ToString(RelIds(O.ev)) \o " instead of " \o ToString(gone \cap g0.used))
     \cup V(c.k \in {"send", "recv", "closed", "release"} /\
            Len(SelectSeq(O.ev, LAMBDA e : e.e = "rel")) # Cardinality(RelIds(O.ev)), "C08", "an identifier was released twice in one call")
     \cup V(O.pb # <<-1>> /\ { O.pb[i] : i \in 1..Len(O.pb) } # g2.used \cap g0.smp, "C08",
            "identifiers in use " \o ToString(O.pb) \o " instead of " \o ToString(g2.used \cap g0.smp))
     \cup V(Sei0(g0, O) /\ g0.used # {} /\ O.pb = <<>>, "C08",
            "[sei0] CONNACK with session present and Session Expiry Interval 0 frees identifiers unannounced")

StatusAllows(k, st) ==
  CASE k = "connect" -> st = "D" [] k = "connack" -> st = "G" [] k = "auth" -> st \in {"G", "C"} [] OTHER -> st = "C"
C11(g0, g2, O) ==
  IF O.c.k # "send" THEN {}
  ELSE LET p == O.c.p
           may == p.v = g0.ver /\ RoleMaySend(g0.role, p.v, p.k) /\ StatusAllows(p.k, g0.st)
           sent == HasSend(O.ev, p.k)
           kept == p.k \in {"publish", "pubrel"} /\ StoredAs(O.st, p.k, p.id)
           only == \A i \in 1..Len(O.ev) : O.ev[i].e = "err" \/ (O.ev[i].e = "rel" /\ O.ev[i].id = p.id)
       IN V(sent /\ ~may, "C11", p.k \o " was passed to the transport in state " \o g0.st)
          \cup V(~sent /\ ~kept /\ Errs(O.ev) = {}, "C11", p.k \o " neither sent nor refused")
          \cup V(~sent /\ Errs(O.ev) # {} /\ ~only, "C11", "refused " \o p.k \o " has other effects than an error")
          \cup V(~sent /\ Errs(O.ev) = {} /\ Len(O.ev) > 0, "C11", p.k \o " not sent but events were produced")
          \cup V(~sent /\ Errs(O.ev) # {} /\ ~(SameStore(g0.sto, O.st) /\ g0.h = { O.h[i] : i \in 1..Len(O.h) } /\ g0.vac = O.vac), "C11",
                 "refused " \o p.k \o " changed the exported state")

C12(g0, g2, O) ==
  LET c == O.c
      inpub == Parsed(O) /\ c.p.k = "publish" /\ c.p.q > 0 /\ c.p.v = 5 /\ g0.st = "C" /\ ~Oversize(g0, O)
      excess == inpub /\ g0.lm > 0 /\ c.p.id \notin g0.inq /\ Cardinality(g0.inq) >= g0.lm
      want == IF g2.m = 0 THEN -1 ELSE Max2(0, g2.m - Cardinality(g2.live))
  IN V(g2.ver = 5 /\ g2.st = "C" /\ ~g2.carry /\ O.vac # want, "C12",
       "vacancy " \o ToString(O.vac) \o " instead of " \o ToString(want))
     \cup V(O.vac > 65535 \/ O.vac < -1 \/ (g2.m > 0 /\ g2.st # "D" /\ O.vac > g2.m), "C12", "vacancy wrapped")
     \cup V(c.k = "send" /\ "ReceiveMaximumExceeded" \in Errs(O.ev) /\ (g0.m = 0 \/ (~g0.carry /\ Cardinality(g0.live) < g0.m)), "C12",
            "PUBLISH refused although the Receive Maximum is not reached")
     \cup V(excess /\ HasRecv(O.ev, "publish"), "C12", "excess PUBLISH delivered")
     \cup V(excess /\ (Errs(O.ev) = {} \/ (Errs(O.ev) = {"ReceiveMaximumExceeded"}
              /\ ~\E i \in 1..Len(O.ev) : O.ev[i].e = "send" /\ O.ev[i].p.k = "disconnect" /\ O.ev[i].p.rc = 147)), "C12",
            "excess PUBLISH not answered with DISCONNECT Receive Maximum exceeded")
     \cup V(c.k = "recv" /\ "ReceiveMaximumExceeded" \in Errs(O.ev) /\ Parsed(O) /\ c.p.k = "publish"
              /\ (g0.lm = 0 \/ c.p.id \in g0.inq \/ Cardinality(g0.inq) < g0.lm), "C12", "PUBLISH rejected although the local Receive Maximum is not exceeded")

C13(g0, g2, O) ==
  LET c == O.c
      pub == Parsed(O) /\ c.p.k = "publish" /\ c.p.v = 5 /\ ~Oversize(g0, O)
      badal == pub /\ (c.p.a > g0.ltam \/ (c.p.t = "" /\ (c.p.a = 0 \/ Bound(g0.ra, c.p.a) = "")))
  IN V(badal /\ (HasRecv(O.ev, "publish") \/ (g0.st = "C" /\ Errs(O.ev) \cap {"TopicAliasInvalid", "ReceiveMaximumExceeded"} = {})), "C13",
       "PUBLISH with an unusable alias not rejected as Topic Alias invalid")
     \cup V(pub /\ ~badal /\ "TopicAliasInvalid" \in Errs(O.ev), "C13", "PUBLISH with a usable alias rejected")
     \cup V(\E i \in 1..Len(O.st) : O.st[i].k = "publish" /\ (O.st[i].t = "" \/ O.st[i].a # 0)
              /\ ~(\E j \in 1..Len(g0.sto) : O.st[i] = g0.sto[j]) /\ c.k # "restore", "C13", "stored PUBLISH without its full topic or with an alias")
     \cup V(c.k = "send" /\ c.p.k = "publish" /\ c.p.t # "" /\ \E i \in 1..Len(O.st) :
              O.st[i].k = "publish" /\ O.st[i].id = c.p.id /\ Errs(O.ev) = {} /\ O.st[i].t # c.p.t, "C13", "stored PUBLISH with another topic")
     \cup V(c.k = "regulate" /\ O.ok /\ (O.rp[1].t # (IF c.p.t # "" THEN c.p.t ELSE Bound(g0.sa, c.p.a)) \/ O.rp[1].a # 0 \/ O.rp[1].t = ""),
            "C13", "regulated PUBLISH does not carry the full topic without alias")

C14(g0, g2, O) ==
  LET c == O.c
      over == Oversize(g0, O)
      big == { g0.sto[i] : i \in { j \in 1..Len(g0.sto) : g0.sto[j].v = 5 /\ g2.mps > 0 /\ g0.sto[j].sz > g2.mps } }
  IN V(over /\ Recvs(O.ev) # <<>>, "C14", "oversize packet delivered")
     \cup V(over /\ g0.st = "C" /\ (g0.mps = 0 \/ g0.mps >= 3)
              /\ ~\E i \in 1..Len(O.ev) : O.ev[i].e = "send" /\ O.ev[i].p.k = "disconnect" /\ O.ev[i].p.rc = 149, "C14",
            "oversize packet not answered with DISCONNECT Packet too large")
     \cup V(over /\ "PacketTooLarge" \notin Errs(O.ev), "C14", "oversize packet not reported")
     \cup V(Frame(O) /\ ~over /\ "PacketTooLarge" \in Errs(O.ev) /\ ~(\E k \in {"puback", "pubrec", "pubrel", "pubcomp", "connack", "pingresp", "disconnect"} :
              g0.mps > 0 /\ g0.mps < 10) /\ g2.mps = 0, "C14", "packet within the announced maximum rejected as too large")
     \cup V(c.k = "send" /\ "PacketTooLarge" \in Errs(O.ev) /\ (g0.mps = 0 \/ c.p.sz <= g0.mps) /\ ~(c.p.k = "publish" /\ c.p.t = "" /\ c.p.q > 0),
            "C14", "packet within the peer's maximum refused as too large")
     \cup V(Establishes(g0, O) /\ c.p.sp /\ ~Sei0(g0, O) /\ \E x \in big : In(x, O.st) \/ (x.id \in g0.used /\ x.id \notin RelIds(O.ev)),
            "C14", "oversize stored packet not dropped with its identifier released")

Interval(g) == IF g.ui >= 0 THEN g.ui ELSE IF g.ska >= 0 THEN g.ska ELSE g.ka
C15(g0, g2, O) ==
  LET c == O.c
      ls == LastSend(O.ev)
      cl == g2.isc /\ g2.st = "C" /\ ls > 0 /\ ~HasClose(O.ev)
      rearmed == \E i \in (ls + 1)..Len(O.ev) : O.ev[i].e = "treset" /\ O.ev[i].t = "ps" /\ O.ev[i].ms = Interval(g2)
      accepted == Parsed(O) /\ ~g2.isc /\ g2.st # "D" /\ c.ty \notin {13, 14} /\ Recvs(O.ev) # <<>>
      expired == c.k = "timer" /\ c.t \in {"pr", "pp"}
  IN V(g2.st = "D" /\ g2.tm # {}, "C15", "timer " \o ToString(g2.tm) \o " armed while disconnected")
     \cup V(cl /\ Interval(g2) > 0 /\ ~rearmed, "C15", "client did not re-arm the PINGREQ timer with " \o ToString(Interval(g2)))
     \cup V(cl /\ Interval(g2) = 0 /\ AnyReset(O.ev, "ps"), "C15", "PINGREQ timer armed although keep-alive is off")
     \cup V(accepted /\ g2.rt > 0 /\ ~HasReset(O.ev, "pr", g2.rt), "C15", "server did not re-arm the keep-alive timer with " \o ToString(g2.rt))
     \cup V((g2.isc \/ g2.rt = 0) /\ AnyReset(O.ev, "pr"), "C15", "keep-alive receive timer armed without keep-alive")
     \cup V(~g2.isc /\ AnyReset(O.ev, "ps"), "C15", "a server armed the PINGREQ timer")
     \cup V(HasSend(O.ev, "pingreq") /\ g2.rsp > 0 /\ ~HasReset(O.ev, "pp", g2.rsp), "C15", "PINGREQ sent without arming the response timer")
     \cup V(AnyReset(O.ev, "pp") /\ (g2.rsp = 0 \/ ~HasSend(O.ev, "pingreq")), "C15", "response timer armed without PINGREQ or configuration")
     \cup V(HasRecv(O.ev, "pingresp") /\ "pp" \in g2.tm, "C15", "PINGRESP did not cancel the response timer")
     \cup V(c.k = "timer" /\ c.t = "ps" /\ g0.st = "C" /\ ~HasSend(O.ev, "pingreq") /\ ~(g0.ver = 5 /\ g0.mps = 1), "C15", "expiry of the PINGREQ timer sent no PINGREQ")
     \cup V(expired /\ g0.st = "C" /\ ~HasClose(O.ev), "C15", "keep-alive expiry did not close")
     \cup V(expired /\ g0.st = "C" /\ g0.ver = 5 /\ (g0.mps = 0 \/ g0.mps >= 3)
              /\ ~\E i \in 1..Len(O.ev) : O.ev[i].e = "send" /\ O.ev[i].p.k = "disconnect" /\ O.ev[i].p.rc = 141, "C15",
            "keep-alive expiry sent no DISCONNECT Keep Alive timeout")
     \cup V(expired /\ g0.ver = 3 /\ Sends(O.ev) # <<>>, "C15", "v3.1.1 keep-alive expiry sent a packet")
     \cup V(c.k = "setint" /\ c.ms > 0 /\ g0.isc /\ g0.st = "C" /\ ~HasReset(O.ev, "ps", c.ms), "C15", "new interval not applied")
     \cup V(c.k = "setint" /\ c.ms = 0 /\ "ps" \in g2.tm, "C15", "interval 0 left the timer armed")

C17(g0, g2, O) ==
  LET c == O.c
      same == SameStore(g0.sto, O.st) /\ g0.h = { O.h[i] : i \in 1..Len(O.h) }
      gated == Gated(g0, O)
      again == Frame(O) /\ g0.st = "C" /\ c.ty \in {1, 2} /\ ~gated /\ ~Oversize(g0, O)
      first == Frame(O) /\ g0.ver = 0
      good == first /\ c.ty = 1 /\ c.lvl \in {4, 5}
  IN V(gated /\ (Recvs(O.ev) # <<>> \/ Errs(O.ev) = {} \/ ~same \/ g0.vac # O.vac
                 \/ \E i \in 1..Len(O.ev) : O.ev[i].e \in {"rel", "treset"} \/ (O.ev[i].e = "send" /\ O.ev[i].p.k # "disconnect")), "C17",
       "packet type " \o ToString(IF gated THEN c.ty ELSE 0) \o " must not be received by this role but was not just reported")
     \cup V(gated /\ ~Oversize(g0, O) /\ "ProtocolError" \notin Errs(O.ev), "C17", "packet type of the wrong direction not reported as a protocol error")
     \cup V(again /\ (Recvs(O.ev) # <<>> \/ "ProtocolError" \notin Errs(O.ev) \/ ~same \/ RelIds(O.ev) # {}
              \/ \E i \in 1..Len(O.ev) : O.ev[i].e = "send" /\ O.ev[i].p.k # "disconnect"), "C17",
            "CONNECT or CONNACK on an established connection was acted upon")
     \cup V(g0.ver # 0 /\ O.ver # g0.ver, "C17", "protocol version changed")
     \cup V(good /\ O.ver # (IF c.lvl = 4 THEN 3 ELSE 5) /\ (c.rl >= 7), "C17", "version not adopted from CONNECT")
     \cup V(g0.ver = 0 /\ ~good /\ (O.ver # 0 \/ Recvs(O.ev) # <<>>), "C17", "version adopted from something else than a CONNECT of level 4 or 5")
     \cup V(first /\ ~good /\ Errs(O.ev) = {}, "C17", "first packet that is no CONNECT of level 4 or 5 not reported")

C19(g0, g2, O) ==
  V(O.c.k = "timer" /\ O.c.t \in {"pr", "pp"} /\ g0.st = "C" /\ ~HasClose(O.ev), "C19", "keep-alive expiry without a close request")

C05(g0, g2, O) ==
  LET c == O.c IN
  V(O.panic # "", "C05", "panic: " \o O.panic)
  \cup V(c.k = "recv" /\ O.panic = "" /\ Recvs(O.ev) = <<>> /\ Errs(O.ev) = {}
           /\ ~(Parsed(O) /\ c.p.k = "publish" /\ c.p.q = 2 /\ c.p.id \in g0.nq2), "C05",
         "a received packet was neither delivered nor reported")
  \cup V(O.early # 0 \/ O.left # 0, "C05", "an incomplete packet produced events or bytes were left unread")
  \cup V(c.k = "send" /\ g0.st = "D" /\ c.p.k = "connect" /\ c.p.v = g0.ver /\ g0.role # "s" /\ O.panic = "" /\ g0.tm = {}
           /\ ~HasSend(O.ev, "connect"), "C05", "after a close a new connection is not accepted")
  \cup V(Parsed(O) /\ g0.st = "D" /\ c.p.k = "connect" /\ c.p.v = (IF g0.ver = 0 THEN c.p.v ELSE g0.ver) /\ g0.role # "c"
           /\ O.panic = "" /\ g0.lmps = 0 /\ ~HasRecv(O.ev, "connect"), "C05", "after a close a new connection is not accepted")

\* a PUBLISH that was too many, before the connection is up (so nothing is closed): whether its alias counts is not said
Refused(g0, O) == Parsed(O) /\ O.c.p.k = "publish" /\ O.c.p.a > 0 /\ g0.st # "C" /\ "ReceiveMaximumExceeded" \in Errs(O.ev)
Unasked(g0, O) == Refused(g0, O) \/ (O.c.k = "recv" /\ Establishes(g0, O) /\ ~(g0.st = "G" /\ g0.isc))
Mon(g0, O) ==
  IF g0.odd \/ Unasked(g0, O) THEN [g |-> [g0 EXCEPT !.odd = TRUE], v |-> V(O.panic # "", "C05", "panic: " \o O.panic)] ELSE
  LET r == Fold(Pre(g0, O), g0, O, 1, {})
      \* an accepted but only stored packet is an exchange too; a refused one is none
      g1 == IF O.c.k = "send" /\ O.c.p.k \in {"publish", "pubrel"} /\ Errs(O.ev) = {} /\ StoredAs(O.st, O.c.p.k, O.c.p.id)
            THEN SetOut(r.g, O.c.p.id, IF O.c.p.k = "pubrel" THEN 2 ELSE O.c.p.q, IF O.c.p.k = "pubrel" THEN "rel" ELSE "pub")
            \* the automatic answer to a PUBREC that came too early to be sent is kept as well
            ELSE IF Parsed(O) /\ O.c.p.k = "pubrec" /\ HasRecv(O.ev, "pubrec") /\ StoredAs(O.st, "pubrel", O.c.p.id)
            THEN SetOut(r.g, O.c.p.id, 2, "rel")
            ELSE r.g
      g2 == IF g1.ver = 0 THEN [g1 EXCEPT !.ver = O.ver] ELSE g1
      v == C05(g0, g2, O) \cup C06(g0, g2, O) \cup C07(g0, g2, O) \cup C08(g0, g2, O) \cup C11(g0, g2, O) \cup C12(g0, g2, O)
           \cup C13(g0, g2, O) \cup C14(g0, g2, O) \cup C15(g0, g2, O) \cup C17(g0, g2, O) \cup C19(g0, g2, O)
  IN [g |-> [g2 EXCEPT !.sto = O.st, !.h = { O.h[i] : i \in 1..Len(O.h) }, !.vac = O.vac], v |-> r.v \cup v]
=============================================================================
