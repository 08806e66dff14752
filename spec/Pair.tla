--------------------------------- MODULE Pair --------------------------------
(***************************************************************************)
(* Two endpoints (Conn.tla), the bytes in flight between them and the two  *)
(* applications.  A world w is a record:                                   *)
(*   s      the two endpoint states (1 client, 2 server)                   *)
(*   ch     packets in flight towards side i                               *)
(*   todo   answers the application of side i still has to give            *)
(*   link   the transport exists; closed[i]: side i was told it is gone    *)
(*   up[i]  side i is connected; seen: the client has seen CONNACK         *)
(*   sess   the server has a session; first: no CONNECT yet                *)
(*   al[i]  what the application knows about its topic aliases             *)
(*   g, bad the monitor PairMon and what it objected to; n: messages so far*)
(* A packet that is cut off in the middle has no effect on the receiver    *)
(* (Conn!Closed forgets it), so packets are the unit of delivery here; the *)
(* harness delivers bytes.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Conn, PairMon

(* cf: configuration record: v w pers clean1 ka apub amap arep rm tam mps (the last ones per side) *)
P0(cf, k, id, sz) == [k |-> k, v |-> cf.v, id |-> id, rc |-> -1, sz |-> sz, fp |-> ""]
Plus(n) == IF n > 0 THEN n ELSE -1
PkConnect(cf, first) ==
  [P0(cf, "connect", 0, 20) EXCEPT !.fp = "c"] @@
  [cl |-> IF first THEN cf.clean1 \/ ~cf.pers ELSE ~cf.pers, sp |-> FALSE, ka |-> cf.ka,
   tam |-> IF cf.v = 5 THEN Plus(cf.tam[1]) ELSE -1, rm |-> IF cf.v = 5 THEN Plus(cf.rm[1]) ELSE -1,
   mps |-> IF cf.v = 5 THEN Plus(cf.mps[1]) ELSE -1, sei |-> IF cf.v = 5 /\ cf.pers THEN 1000 ELSE -1, ska |-> -1]
PkConnack(cf, sp) ==
  [P0(cf, "connack", 0, 4) EXCEPT !.fp = "a", !.rc = 0] @@
  [cl |-> FALSE, sp |-> sp, ka |-> 0,
   tam |-> IF cf.v = 5 THEN Plus(cf.tam[2]) ELSE -1, rm |-> IF cf.v = 5 THEN Plus(cf.rm[2]) ELSE -1,
   mps |-> IF cf.v = 5 THEN Plus(cf.mps[2]) ELSE -1, sei |-> -1, ska |-> -1]
TL(t) == IF t = "" THEN 0 ELSE IF t = "a" THEN 1 ELSE 3
PkPublish(cf, id, q, t, a, n, it) ==
  LET p == [k |-> "publish", v |-> cf.v, id |-> id, rc |-> -1, sz |-> 0, fp |-> "p", q |-> q, d |-> FALSE, t |-> t, tl |-> TL(t),
            a |-> a, op |-> 0, pn |-> 2, xt |-> FALSE, n |-> n, pf |-> "m", it |-> it]
  IN [p EXCEPT !.sz = PubSize([ver |-> cf.v, w |-> cf.w], p, TL(t), a)]
TyOf(k) == CASE k = "connect" -> 1 [] k = "connack" -> 2 [] k = "publish" -> 3 [] k = "puback" -> 4 [] k = "pubrec" -> 5
             [] k = "pubrel" -> 6 [] k = "pubcomp" -> 7 [] k = "subscribe" -> 8 [] k = "suback" -> 9 [] k = "unsubscribe" -> 10
             [] k = "unsuback" -> 11 [] k = "pingreq" -> 12 [] k = "pingresp" -> 13 [] k = "disconnect" -> 14 [] OTHER -> 15
RecvCall(p) == [k |-> "recv", bad |-> FALSE, ty |-> TyOf(p.k), sz |-> p.sz, rl |-> 10, lvl |-> IF p.v = 3 THEN 4 ELSE 5, perr |-> "", p |-> p]

WNew(cf) ==
  [ s |-> [i \in 1..2 |-> [New(IF i = 1 THEN "c" ELSE "s", cf.v, cf.w) EXCEPT !.apub = cf.apub[i], !.aping = TRUE,
                             !.amap = cf.amap[i], !.arep = cf.arep[i]]],
    ch |-> <<<<>>, <<>>>>, todo |-> <<<<>>, <<>>>>, link |-> FALSE, closed |-> <<TRUE, TRUE>>, up |-> <<FALSE, FALSE>>, seen |-> FALSE,
    sess |-> FALSE, first |-> TRUE, al |-> <<<<>>, <<>>>>, n |-> 0,
    g |-> [GPair(cf.rm) EXCEPT !.v = cf.v], bad |-> {}, ids |-> <<{}, {}>> ]

Owe(w, i, p) == [w EXCEPT !.todo[i] = Append(@, p)]

RECURSIVE After(_, _, _, _), Call(_, _, _, _)
(* what happens to the events ev of side i *)
After(cf, w, i, ev) ==
  IF ev = <<>> THEN w
  ELSE LET e == Head(ev)
           auto == w.s[i].apub
           w2 ==
             CASE e.e = "send" ->
                    LET a == IF e.p.k = "publish" /\ e.p.t # "" /\ e.p.a > 0 THEN [w EXCEPT !.al[i] = Bind(@, e.p.a, e.p.t)] ELSE w
                        b == IF e.p.k = "connack" THEN [a EXCEPT !.up[i] = TRUE] ELSE a
                    IN IF w.link THEN [b EXCEPT !.ch[3 - i] = Append(@, e.p)]
                       ELSE IF e.rel # 0 THEN Call(cf, b, i, [k |-> "release", id |-> e.rel]) ELSE b
               [] e.e = "recv" ->
                    (CASE e.p.k = "connect" -> [Owe(w, i, PkConnack(cf, w.sess /\ ~e.p.cl)) EXCEPT !.sess = @ \/ cf.pers]
                       [] e.p.k = "connack" -> [w EXCEPT !.up[i] = TRUE, !.seen = TRUE]
                       [] e.p.k = "subscribe" -> Owe(w, i, P0(cf, "suback", e.p.id, 5))
                       [] e.p.k = "unsubscribe" -> Owe(w, i, P0(cf, "unsuback", e.p.id, 4))
                       [] e.p.k = "publish" /\ ~auto /\ e.p.q = 1 -> Owe(w, i, Ctl(w.s[i], "puback", e.p.id, -1))
                       [] e.p.k = "publish" /\ ~auto /\ e.p.q = 2 -> Owe(w, i, Ctl(w.s[i], "pubrec", e.p.id, -1))
                       [] e.p.k = "pubrec" /\ ~auto /\ e.p.rc < 128 -> Owe(w, i, Ctl(w.s[i], "pubrel", e.p.id, -1))
                       [] e.p.k = "pubrel" /\ ~auto -> Owe(w, i, Ctl(w.s[i], "pubcomp", e.p.id, -1))
                       [] OTHER -> w)
               [] e.e = "close" /\ w.link -> [w EXCEPT !.link = FALSE, !.ch = <<<<>>, <<>>>>, !.g = PCut(@)]
               [] OTHER -> w
       IN After(cf, w2, i, Tail(ev))
(* side i makes call c *)
Call(cf, w, i, c) ==
  LET r == Step(w.s[i], c)
      m == PMon(w.g, i, c, r.ev)
  IN After(cf, [w EXCEPT !.s[i] = r.s, !.g = m.g, !.bad = @ \cup m.v], i, r.ev)

(* ------------------------------ operations ------------------------------- *)
CanConnect(w) == ~w.link /\ w.closed[1] /\ w.closed[2]
DoConnect(cf, w) ==
  Call(cf, [w EXCEPT !.link = TRUE, !.seen = FALSE, !.closed = <<FALSE, FALSE>>, !.first = FALSE, !.al = <<<<>>, <<>>>>], 1,
       [k |-> "send", p |-> PkConnect(cf, w.first)])
CanPub(w, i) == w.up[i] /\ w.seen
(* t = "": alias a only *)
DoPub(cf, w, i, q, t, a) ==
  LET ac == IF q > 0 THEN Acquire(w.s[i]) ELSE R(w.s[i], <<>>)
      w1 == [w EXCEPT !.s[i] = ac.s, !.n = @ + 1, !.ids[i] = IF q > 0 THEN @ \cup {ac.id} ELSE @]
  IN Call(cf, w1, i, [k |-> "send", p |-> PkPublish(cf, ac.id, q, t, a, w1.n, IF t = "" THEN Lookup(w.al[i], a) ELSE t)])
DoSub(cf, w, k) ==
  LET ac == Acquire(w.s[1])
  IN Call(cf, [w EXCEPT !.s[1] = ac.s, !.ids[1] = @ \cup {ac.id}], 1, [k |-> "send", p |-> P0(cf, k, ac.id, 8)])
CanDeliver(w, i) == w.link /\ w.ch[i] # <<>>
DoDeliver(cf, w, i) == Call(cf, [w EXCEPT !.ch[i] = Tail(@)], i, RecvCall(Head(w.ch[i])))
(* PUBREL may be requested without a transport; other answers belong to the connection *)
CanApp(w, i) == w.todo[i] # <<>> /\ (~w.closed[i] \/ \E k \in 1..Len(w.todo[i]) : w.todo[i][k].k = "pubrel")
DoApp(cf, w, i) ==
  LET q == w.todo[i]
      k == IF ~w.closed[i] THEN 1 ELSE CHOOSE j \in 1..Len(q) : q[j].k = "pubrel" /\ \A x \in 1..(j - 1) : q[x].k # "pubrel"
  IN Call(cf, [w EXCEPT !.todo[i] = SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))], i, [k |-> "send", p |-> q[k]])
DoCut(w) == [w EXCEPT !.link = FALSE, !.ch = <<<<>>, <<>>>>, !.g = PCut(@)]
CanClosed(w, i) == ~w.link /\ ~w.closed[i]
DoClosed(cf, w, i) ==
  Call(cf, [w EXCEPT !.closed[i] = TRUE, !.up[i] = FALSE, !.todo[i] = SelectSeq(@, LAMBDA p : p.k = "pubrel")], i, [k |-> "closed"])

Settled(w) == w.link /\ w.up[1] /\ w.up[2] /\ w.ch = <<<<>>, <<>>>> /\ w.todo = <<<<>>, <<>>>>
SeqOfIds(S) == SetToSeq0(S)
EndOf(w) == [ quiet |-> TRUE, used |-> [i \in 1..2 |-> SeqOfIds(w.s[i].used)], vac |-> [i \in 1..2 |-> Vacancy(w.s[i])],
              st |-> [i \in 1..2 |-> Len(w.s[i].store)] ]
Good(w) == w.bad = {} /\ (Settled(w) => PEnd(w.g, EndOf(w)) = {})
=============================================================================
