------------------------------- MODULE PairMon -------------------------------
(***************************************************************************)
(* C01 as a monitor over what is observable at two endpoints that exchange *)
(* the bytes they request to send.  The same module judges the behaviours  *)
(* of the specification (MCPair) and the traces of two real connection     *)
(* objects (TracePair).                                                    *)
(*                                                                         *)
(* led: one record per accepted message: sender, QoS, topic, payload,      *)
(* number of times the other application was told about it.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

GPair(rm) == [ led |-> <<>>, lossy |-> FALSE, rm |-> rm, v |-> 3 ]

Find(led, n) == LET S == { i \in 1..Len(led) : led[i].n = n } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
HasErr(ev) == \E i \in 1..Len(ev) : ev[i].e = "err"

(* a call by the application of side sd that offers message p *)
Accept(g, sd, p, ev) ==
  IF HasErr(ev) THEN g
  ELSE [g EXCEPT !.led = Append(@, [n |-> p.n, sd |-> sd, q |-> p.q, t |-> p.it, pf |-> p.pf, cnt |-> 0])]

(* the application of side sd is told about message p *)
Told(g, sd, p) ==
  LET i == Find(g.led, p.n) IN
  IF i = 0 THEN [g |-> g, v |-> {"a message is notified that nobody published: " \o ToString(p)}]
  ELSE LET m == g.led[i]
           g2 == [g EXCEPT !.led[i].cnt = @ + 1]
       IN [g |-> g2,
           v |-> (IF m.sd = sd THEN {"a message is notified to its own sender"} ELSE {})
                 \cup (IF m.t # p.t \/ m.pf # p.pf \/ m.q # p.q
                       THEN {"a message arrives altered: sent " \o ToString(m) \o " notified " \o ToString(p)} ELSE {})
                 \cup (IF m.cnt >= 1 /\ (m.q # 1 \/ ~g.lossy)
                       THEN {"a QoS " \o ToString(m.q) \o " message is notified more than once: " \o ToString(m)} ELSE {})]

RECURSIVE ToldAll(_, _, _)
ToldAll(g, sd, ev) ==
  IF ev = <<>> THEN [g |-> g, v |-> {}]
  ELSE LET e == Head(ev)
           a == IF e.e = "recv" /\ e.p.k = "publish" THEN Told(g, sd, e.p) ELSE [g |-> g, v |-> {}]
           b == ToldAll(a.g, sd, Tail(ev))
       IN [g |-> b.g, v |-> a.v \cup b.v]

(* errors about the peer: anything reported while bytes, timers or the end of the transport are processed *)
Blames(k, ev) ==
  (IF k \in {"recv", "part", "timer", "closed"} /\ HasErr(ev) THEN {"an error is reported about the peer: " \o ToString(ev)} ELSE {})
  \cup (IF k \in {"recv", "part"} /\ \E i \in 1..Len(ev) : ev[i].e = "close" THEN {"the transport is to be closed: " \o ToString(ev)} ELSE {})
  \cup (IF \E i \in 1..Len(ev) : ev[i].e = "recv" /\ ev[i].p.k = "disconnect" THEN {"the peer disconnects: " \o ToString(ev)} ELSE {})

(* call c of side sd with events ev *)
PMon(g, sd, c, ev) ==
  LET a == IF c.k = "send" /\ c.p.k = "publish" THEN Accept(g, sd, c.p, ev) ELSE g
      b == ToldAll(a, sd, ev)
  IN [g |-> b.g, v |-> b.v \cup Blames(c.k, ev)]
PCut(g) == [g EXCEPT !.lossy = TRUE]

(* nothing is outstanding any more: o.used, o.vac, o.st per side *)
PEnd(g, o) ==
  LET due == { i \in 1..Len(g.led) : g.led[i].q > 0 /\ g.led[i].cnt = 0 }
  IN (IF ~o.quiet THEN {"the exchange does not end"} ELSE {})
     \cup { "a QoS " \o ToString(g.led[i].q) \o " message was never notified: " \o ToString(g.led[i]) : i \in due }
     \cup { "identifiers still in use at side " \o ToString(i) \o ": " \o ToString(o.used[i]) : i \in { j \in 1..2 : o.used[j] # <<>> } }
     \cup { "packets still stored at side " \o ToString(i) \o ": " \o ToString(o.st[i]) : i \in { j \in 1..2 : o.st[j] # 0 } }
     \cup { "vacancy " \o ToString(o.vac[i]) \o " at side " \o ToString(i) \o " although nothing is in flight (peer's maximum "
             \o ToString(g.rm[3 - i]) \o ")" : i \in { j \in 1..2 : g.v = 5 /\ g.rm[3 - j] > 0 /\ o.vac[j] # g.rm[3 - j] } }
=============================================================================
