------------------------------ MODULE TraceConn -----------------------------
(***************************************************************************)
(* Validates a trace recorded from the real connection object: every line  *)
(* is one call with everything that was observable.  The line is judged    *)
(* three times: by the property monitors of Props, against the prediction  *)
(* of Conn!Step (a difference counts for the property whose subject it is, *)
(* and only up to the first line of a trace that differs at all), and, for *)
(* runs with a twin object, against what the twin did.                     *)
(* IOEnv: TRACE file, PROP property to report ("ALL": everything).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Conn, Props

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES l, s, g, div
vars == <<l, s, g, div>>

Has(L, f) == f \in DOMAIN L

(* -------------------------- comparing predictions ------------------------ *)
Rc(x) == IF x < 0 THEN 0 ELSE x
PEq(a, b) == \* a predicted, b observed
  /\ a.k = b.k /\ a.v = b.v /\ a.id = b.id
  /\ CASE a.k = "publish" -> a.q = b.q /\ a.d = b.d /\ a.t = b.t /\ a.a = b.a /\ a.op = b.op /\ a.pn = b.pn
                             /\ a.fp = b.fp /\ a.xt = b.xt
       [] a.k \in {"puback", "pubrec", "pubrel", "pubcomp", "disconnect", "auth"} ->
            (a.rc = -2 \/ Rc(a.rc) = Rc(b.rc)) /\ a.fp = b.fp
       [] a.k = "connack" -> a.rc = b.rc /\ a.sp = b.sp /\ (a.fp = "*" \/ a.fp = b.fp)
       [] OTHER -> a.fp = b.fp
EEq(a, b) ==
  /\ a.e = b.e
  /\ CASE a.e = "send" -> PEq(a.p, b.p) /\ a.rel = b.rel /\ (a.p.k = "publish" => a.p.sz = b.p.sz)
       [] a.e = "recv" -> PEq(a.p, b.p)   \* (the size of an alias-resolved PUBLISH is not compared)
       [] a.e = "rel" -> a.id = b.id
       [] a.e = "treset" -> a.t = b.t /\ a.ms = b.ms
       [] a.e = "tcancel" -> a.t = b.t
       [] a.e = "err" -> a.x = b.x
       [] OTHER -> TRUE
LEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : EEq(a[i], b[i])
IsRel(e) == e.e = "rel"
(* the releases announced by a close come in no particular order *)
EvsEq(k, a, b) ==
  IF k # "closed" THEN LEq(a, b)
  ELSE /\ RelIds(a) = RelIds(b) /\ Len(a) = Len(b)
       /\ LEq(SelectSeq(a, LAMBDA e : ~IsRel(e)), SelectSeq(b, LAMBDA e : ~IsRel(e)))
StEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : PEq(a[i], b[i])
SeqSet(q) == { q[i] : i \in 1..Len(q) }
IsTimer(e) == e.e \in {"treset", "tcancel"}
Kinds(ev) == [i \in 1..Len(ev) |-> IF ev[i].e \in {"send", "recv"} THEN ev[i].e \o ev[i].p.k ELSE ev[i].e]
NoTimers(ev) == SelectSeq(ev, LAMBDA e : ~IsTimer(e) /\ ~IsRel(e))
Timers(ev) == SelectSeq(ev, IsTimer)
PubSends(ev) == SelectSeq(ev, LAMBDA e : e.e = "send" /\ e.p.k = "publish")
PubRecvs(ev) == SelectSeq(ev, LAMBDA e : e.e = "recv" /\ e.p.k = "publish")
Resends(ev) == SelectSeq(ev, LAMBDA e : e.e = "send" /\ e.p.k \in {"publish", "pubrel"})

(* differences of the observation O from the prediction r that concern property P *)
Differs(P, r, O) ==
  LET c == O.c
      a == r.ev
      b == O.ev
      k == c.k
      refusal == k = "send" /\ Errs(b) # Errs(a)
      st == ~StEq(r.s.store, O.st)
      h == r.s.h # SeqSet(O.h)
      vac == Vacancy(r.s) # O.vac
      estab == HasSend(a, "connack") \/ HasRecv(a, "connack")
      ackin == k = "recv" /\ c.ty \in {4, 5, 7, 9, 11}
  IN CASE P = "C05" -> FALSE
       [] P = "C06" -> \/ st /\ ~(k = "send" /\ Errs(b) # {})
                       \/ estab /\ ~LEq(Resends(a), Resends(b))
                       \/ ackin /\ (Errs(a) = {}) # (Errs(b) = {})
       [] P = "C07" -> \/ h
                       \/ k = "recv" /\ c.ty = 3 /\ Parsed(O) /\ c.p.q = 2 /\ Errs(a) = Errs(b) /\ Kinds(NoTimers(a)) # Kinds(NoTimers(b))
       [] P = "C08" -> ~refusal /\ (RelIds(a) # RelIds(b) \/ (k \in {"acquire", "register"} /\ r.ok # O.ok)
                                    \/ (k = "acquire" /\ r.ok /\ O.ok /\ O.id \in s.used))
       [] P = "C11" -> k = "send" /\ Sends(a) = <<>> /\ Sends(b) # <<>> /\ Errs(a) \cap {"PacketNotAllowedToSend", "VersionMismatch"} # {}
                       /\ ~(c.p.k = "publish" /\ s.st = "C")
       [] P = "C12" -> vac \/ ("ReceiveMaximumExceeded" \in Errs(a)) # ("ReceiveMaximumExceeded" \in Errs(b))
       [] P = "C13" -> \/ Len(PubRecvs(a)) = Len(PubRecvs(b)) /\ Len(PubRecvs(a)) = 1
                          /\ (PubRecvs(a)[1].p.t # PubRecvs(b)[1].p.t \/ PubRecvs(a)[1].p.a # PubRecvs(b)[1].p.a)
                       \/ k = "recv" /\ ("TopicAliasInvalid" \in Errs(a)) # ("TopicAliasInvalid" \in Errs(b))
                       \/ k = "regulate" /\ (r.ok # O.ok \/ (r.ok /\ ~PEq(r.rp[1], O.rp[1])))
       [] P = "C14" -> k = "recv" /\ ("PacketTooLarge" \in Errs(a)) # ("PacketTooLarge" \in Errs(b))
       [] P = "C15" -> ~refusal /\ Kinds(NoTimers(a)) = Kinds(NoTimers(b)) /\ ~LEq(Timers(a), Timers(b))
       [] P = "C17" -> \/ k = "recv" /\ ~c.bad /\ s.ver # 0 /\ NeverReceives(s.role, s.ver, c.ty) /\ ~EvsEq(k, a, b)
                       \/ k = "recv" /\ r.s.ver # O.ver
       [] P = "ALL" -> ~EvsEq(k, a, b) \/ st \/ h \/ vac \/ (k \in {"acquire", "register", "regulate"} /\ r.ok # O.ok)
                       \/ (k = "acquire" /\ r.id # O.id)
                       \/ (k = "regulate" /\ r.ok /\ O.ok /\ ~PEq(r.rp[1], O.rp[1]))
                       \/ (O.pb # <<-1>> /\ SeqSet(O.pb) # r.s.used \cap g.smp)
                       \/ O.ver # r.s.ver
       [] OTHER -> FALSE

Diff(L, r, O) ==
  "spec predicts events " \o ToString(r.ev) \o " observed " \o ToString(O.ev) \o
  (IF StEq(r.s.store, O.st) THEN "" ELSE " ;; store " \o ToString(r.s.store) \o " observed " \o ToString(O.st)) \o
  (IF r.s.h = SeqSet(O.h) THEN "" ELSE " ;; handled " \o ToString(r.s.h) \o " observed " \o ToString(O.h)) \o
  (IF Vacancy(r.s) = O.vac THEN "" ELSE " ;; vacancy " \o ToString(Vacancy(r.s)) \o " observed " \o ToString(O.vac)) \o
  (IF O.pb = <<-1>> \/ SeqSet(O.pb) = r.s.used \cap g.smp THEN "" ELSE " ;; used " \o ToString(r.s.used) \o " observed " \o ToString(O.pb))

(* ------------------------------ the trace -------------------------------- *)
Obs(L) ==
  [ c |-> L, ev |-> L.ev,
    ok |-> IF Has(L, "ok") THEN L.ok ELSE FALSE, id |-> IF L.k = "acquire" THEN L.id ELSE 0,
    rp |-> IF Has(L, "rp") THEN <<L.rp>> ELSE <<>>,
    st |-> IF Has(L, "st") THEN L.st ELSE g.sto,
    h |-> IF Has(L, "h") THEN L.h ELSE SetToSeq0(g.h),
    vac |-> L.vac, ver |-> L.ver,
    pb |-> IF Has(L, "pb") THEN L.pb ELSE <<-1>>,
    panic |-> IF Has(L, "panic") THEN L.panic ELSE "",
    early |-> IF Has(L, "early") THEN L.early ELSE 0, left |-> IF Has(L, "left") THEN L.left ELSE 0 ]

Report(P, msg) == IF PROP = P \/ PROP = "ALL" THEN PrintT("VIOL|" \o P \o "|" \o ToString(l) \o "|" \o msg) ELSE TRUE
TwinDiffers(L) ==
  /\ Has(L, "tev")
  /\ \/ ~EvsEq(L.k, L.tev, L.ev)
     \/ Has(L, "tst") \/ Has(L, "th") \/ Has(L, "tvac") \/ Has(L, "tpb") \/ Has(L, "tres")

Init == l = 1 /\ s = New("c", 3, 2) /\ g = [GNew("c", 3, 2, {}) EXCEPT !.sto = <<>>] /\ div = "new"

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET L == Trace[l] IN
     IF L.k = "new"
     THEN /\ s' = New(L.role, L.rver, L.w)
          /\ g' = GNew(L.role, L.rver, L.w, SeqSet(L.ids))
          /\ div' = "" 
     ELSE IF L.k = "fail"
     THEN /\ UNCHANGED <<s, g, div>>
          /\ Report(L.prop, L.msg)
     ELSE LET O == Obs(L)
              r == Step(s, L)
              m == Mon(g, O)
              any == Differs("ALL", r, O)
          IN /\ s' = r.s
             /\ g' = m.g
             /\ div' = IF any \/ m.g.odd THEN "div" ELSE div
             /\ \A x \in { x \in m.v : PROP = x[1] \/ PROP = "ALL" } : Report(x[1], x[2])
             /\ IF div = "" /\ any /\ O.panic = "" /\ Differs(PROP, r, O) THEN Report(PROP, "conformance: " \o Diff(L, r, O)) ELSE TRUE
             /\ IF O.panic # "" /\ div = "" THEN Report(PROP, "panic: " \o O.panic) ELSE TRUE
             /\ IF TwinDiffers(L) /\ Has(L, "tp") THEN Report(L.tp, "twin: " \o L.k \o " events " \o ToString(L.ev) \o " twin " \o ToString(L.tev)
                    \o (IF Has(L, "tres") THEN L.tres ELSE "") \o (IF Has(L, "tst") THEN " store differs" ELSE "")
                    \o (IF Has(L, "th") THEN " handled ids differ" ELSE "") \o (IF Has(L, "tvac") THEN " vacancy differs" ELSE "")
                    \o (IF Has(L, "tpb") THEN " ids in use differ " \o ToString(L.pb) \o ToString(L.tpb) ELSE "")) ELSE TRUE

View == l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
Spec == Init /\ [][Next]_vars
=============================================================================
