-------------------------------- MODULE MCConn -------------------------------
(***************************************************************************)
(* Model checking of one endpoint: every sequence of the calls of a scene  *)
(* (a small alphabet of application calls and received packets, prepared   *)
(* by the harness so that sizes and contents are those of the real         *)
(* packets), judged by the monitors of Props.  The reachable state space   *)
(* of a scene is finite and is explored completely.  Each transition is    *)
(* printed; walks that take every transition are performed on the real     *)
(* object by the harness, and TraceConn judges what it does.               *)
(* IOEnv: ALPHA (alphabet file), EMIT ("1": print the transitions),        *)
(* PROP (the property to judge, or ALL)                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, Conn, Props

A == ndJsonDeserialize(IOEnv.ALPHA)
H0 == A[1]
Calls == SubSeq(A, 2, Len(A))
EMIT == IOEnv.EMIT = "1"
Pool == { H0.ids[i] : i \in 1..Len(H0.ids) }

VARIABLES s, g, mc, offer, res, bad
  \* mc: a close was requested; offer: the identifier to release on a send error; res: a crash, the session is to be resumed
vars == <<s, g, mc, offer, res, bad>>
Fp(a, b, c, d, e) == ToString(TLCFP(<<a, c, d, e>>)) \o "." \o ToString(TLCFP(<<b, a, d, c, e>>))

Init ==
  LET RECURSIVE Opts(_, _)
      Opts(z, i) == IF i > Len(H0.opts) THEN z ELSE Opts(Opt(z, H0.opts[i][1], H0.opts[i][2]).s, i + 1)
      RECURSIVE OptsG(_, _)
      OptsG(z, i) == IF i > Len(H0.opts) THEN z
                     ELSE OptsG(Mon(z, [c |-> [k |-> "opt", o |-> H0.opts[i][1], n |-> H0.opts[i][2]], ev |-> <<>>, ok |-> FALSE, id |-> 0,
                                        rp |-> <<>>, st |-> <<>>, h |-> <<>>, vac |-> -1, ver |-> H0.rver, pb |-> <<-1>>, panic |-> "",
                                        early |-> 0, left |-> 0]).g, i + 1)
  IN /\ s = Opts(New(H0.role, H0.rver, H0.w), 1)
     /\ g = OptsG(GNew(H0.role, H0.rver, H0.w, Pool), 1)
     /\ mc = FALSE /\ offer = 0 /\ res = 0 /\ bad = {} /\ (IF EMIT THEN PrintT("INIT|" \o Fp(s, g, mc, offer, res)) ELSE TRUE)

Busy == s.pa \cup s.pr \cup s.pc \cup s.pl \cup s.sub \cup s.uns \cup { s.store[i].id : i \in 1..Len(s.store) }
Armed(t) == CASE t = "ps" -> s.tps [] t = "pr" -> s.tpr [] OTHER -> s.tpp
IsCrash(c) == c.k = "closed" /\ c.crash
(* the contract of the application; everything else may happen at any time *)
Enabled0(c) ==
  CASE c.k = "send" /\ c.p.k \in {"publish", "subscribe", "unsubscribe"} -> c.p.id = 0 \/ c.p.id \notin Busy
    [] c.k = "send" /\ c.p.k = "pubrel" -> c.p.id \in s.pl \/ c.p.id \notin s.used
    [] c.k = "send" /\ c.p.k \in {"puback", "pubrec", "pubcomp"} -> s.st # "C" \/ c.p.id \in s.h \/ c.p.id \in s.prv \/ s.ver = 3
    [] c.k = "timer" -> Armed(c.t)
    [] c.k = "acquire" -> FreeId(s) \in Pool
    [] c.k = "release" -> c.id = offer \/ c.id \notin Busy
    [] c.k = "recv" -> s.st # "D" \/ c.ty = 1 \/ H0.wild
    [] c.k = "closed" -> IF c.crash THEN s.ns /\ s.st # "G" /\ s.pl = {} /\ s.used \subseteq Busy /\ s.sub = {} /\ s.uns = {} ELSE TRUE
    [] OTHER -> TRUE
(* after a crash the session is resumed *)
Resumes(c) ==
  IF res = 1 THEN c.k \in {"send", "recv"} /\ c.p.k = "connect" /\ ~c.p.cl /\ (c.p.v = 3 \/ c.p.sei > 0) /\ (s.role = "c") = (c.k = "send")
  ELSE c.k \in {"send", "recv"} /\ c.p.k = "connack" /\ c.p.rc = 0 /\ c.p.sp /\ c.p.sei # 0 /\ (s.role = "c") = (c.k = "recv")
Enabled(c) == IF mc THEN c.k = "closed" /\ ~c.crash ELSE IF res > 0 THEN Resumes(c) ELSE Enabled0(c)

(* C16 on the specification: what a new object makes of the export *)
Restored(z) ==
  LET e == [New(z.role, z.ver, z.w) EXCEPT !.apub = z.apub, !.aping = z.aping, !.amap = z.amap, !.arep = z.arep, !.off = z.off,
                                          !.rsp = z.rsp, !.ui = z.ui]
      r == RestoreAll(e, z.store)
  IN [r EXCEPT !.h = z.h]
Same(a, b) == a.used = b.used /\ a.pa = b.pa /\ a.pr = b.pr /\ a.pc = b.pc /\ a.pl = b.pl /\ a.store = b.store /\ a.h = b.h

ObsOf(c, r) ==
  [ c |-> c, ev |-> r.ev, ok |-> r.ok, id |-> r.id, rp |-> r.rp, st |-> r.s.store, h |-> SetToSeq0(r.s.h), vac |-> Vacancy(r.s),
    ver |-> r.s.ver, pb |-> SetToSeq0(r.s.used \cap Pool), panic |-> "", early |-> 0, left |-> 0 ]
RelOf(ev) == LET q == SelectSeq(ev, LAMBDA e : e.e = "send" /\ e.rel # 0) IN IF q = <<>> THEN 0 ELSE q[1].rel

Next ==
  \E i \in 1..Len(Calls) :
    LET c == IF H0.rver # 0 \/ Calls[i].k # "recv" \/ s.ver = 0 THEN Calls[i] ELSE IF s.ver = 3 THEN Calls[i].in3 ELSE Calls[i].in5
        r == Step(s, c)
        m == Mon(g, ObsOf(c, r))
    IN /\ Enabled(c)
       /\ s' = r.s
       /\ g' = m.g
       /\ mc' = (c.k # "closed" /\ (mc \/ HasClose(r.ev)))
       /\ offer' = RelOf(r.ev)
       /\ res' = IF IsCrash(c) THEN 1 ELSE IF res = 1 THEN 2 ELSE 0
       /\ bad' = bad \cup { x \in m.v : ~(x[1] \in {"C06", "C08"} /\ Sei0(g, ObsOf(c, r))) }
                     \cup (IF IsCrash(c) /\ ~Same(Restored(s), r.s) THEN {<<"C16", "the restored session differs">>} ELSE {})
       /\ IF EMIT THEN PrintT("EDGE|" \o Fp(s, g, mc, offer, res) \o "|" \o ToString(i) \o "|" \o Fp(s', g', mc', offer', res')) ELSE TRUE

Spec == Init /\ [][Next]_vars
Check == { x \in bad : IOEnv.PROP = "ALL" \/ x[1] = IOEnv.PROP } = {}
=============================================================================
