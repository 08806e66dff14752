------------------------------ MODULE TracePair ------------------------------
(***************************************************************************)
(* Validates traces of two real connection objects (harness `pair`).  Each *)
(* line is one call at one side.  PairMon judges it; in addition both      *)
(* sides are run through Conn!Step: lines where the real side does not do  *)
(* what the specification does are counted (NOTE), not judged, because the *)
(* statement is about the outcome of the exchange only.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Conn, PairMon

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, g, div
vars == <<l, s, g, div>>

Rc(x) == IF x < 0 THEN 0 ELSE x
PEq(a, b) ==
  /\ a.k = b.k /\ a.id = b.id
  /\ CASE a.k = "publish" -> a.q = b.q /\ a.d = b.d /\ a.t = b.t /\ a.a = b.a /\ a.fp = b.fp
       [] a.k \in {"puback", "pubrec", "pubrel", "pubcomp", "disconnect"} -> Rc(a.rc) = Rc(b.rc)
       [] OTHER -> TRUE
EEq(a, b) ==
  /\ a.e = b.e
  /\ CASE a.e \in {"send", "recv"} -> PEq(a.p, b.p)
       [] a.e = "rel" -> a.id = b.id
       [] a.e = "err" -> a.x = b.x
       [] OTHER -> TRUE
Conforms(k, a, b) == Len(a) = Len(b) /\ (k = "closed" \/ \A i \in 1..Len(a) : EEq(a[i], b[i]))

Report(msg) == PrintT("VIOL|C01|" \o ToString(l) \o "|" \o msg)
Init == l = 1 /\ s = <<>> /\ g = GPair(<<0, 0>>) /\ div = 0

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET L == Trace[l] IN
     CASE L.k = "new" ->
            /\ s' = [i \in 1..2 |-> New(L.role[i], L.rver[i], L.w)]
            /\ g' = [GPair(L.rm) EXCEPT !.v = L.v]
            /\ UNCHANGED div
       [] L.k = "cut" -> g' = PCut(g) /\ UNCHANGED <<s, div>>
       [] L.k = "fail" -> Report(L.msg) /\ UNCHANGED <<s, g, div>>
       [] L.k = "end" ->
            /\ UNCHANGED <<s, g, div>>
            /\ IF L.dead THEN TRUE ELSE \A m \in PEnd(g, L) : Report(m)
       [] OTHER ->
            LET m == PMon(g, L.sd, L, L.ev)
                r == Step(s[L.sd], L)
            IN /\ g' = m.g
               /\ s' = [s EXCEPT ![L.sd] = r.s]
               /\ div' = IF Conforms(L.k, r.ev, L.ev) THEN div ELSE div + 1
               /\ \A x \in m.v : Report(x)
               /\ IF "panic" \in DOMAIN L THEN Report("panic: " \o L.panic) ELSE TRUE
               /\ IF div = 0 /\ div' = 1 THEN PrintT("NOTE|" \o ToString(l) \o "|" \o ToString(r.ev) \o " observed " \o ToString(L.ev)) ELSE TRUE

View == l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
Spec == Init /\ [][Next]_vars
=============================================================================
