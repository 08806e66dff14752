---------------------------- MODULE TraceFraming ----------------------------
(***************************************************************************)
(* Validates recorded feeds of a byte stream into a real connection.       *)
(*   stream  what is going to be fed: run-length coded bytes, and for each *)
(*           packet of it the events an identical connection produced when *)
(*           it was given that packet alone and whole                      *)
(*   feed    one call: bytes offered, bytes consumed, events               *)
(*   call    any other call, same on both: events of both                  *)
(***************************************************************************)
EXTENDS Framing, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, segs, w, j
vars == <<l, s, segs, w, j>>
Report(msg) == PrintT("VIOL|C09|" \o ToString(l) \o "|" \o msg)

Init == l = 1 /\ s = Start /\ segs = <<>> /\ w = <<>> /\ j = 0
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET L == Trace[l] IN
     CASE L.k = "new" -> s' = Start /\ segs' = <<>> /\ w' = <<>> /\ j' = 0
       [] L.k = "stream" -> segs' = L.segs /\ w' = L.w /\ j' = 1 /\ UNCHANGED s
       [] L.k = "call" ->
            /\ IF L.o = "closed" THEN s' = Start /\ segs' = <<>> ELSE UNCHANGED <<s, segs>>
            /\ UNCHANGED <<w, j>>
            /\ IF L.ev = L.wev /\ L.ob THEN TRUE ELSE Report("after the same packets " \o L.o \o " answers " \o ToString(L.ev) \o " instead of " \o ToString(L.wev)
                                                  \o (IF L.ob THEN "" ELSE " and the exported state differs"))
       [] L.k = "feed" ->
            LET r == Feed(s, segs, L.n, 0) IN
            /\ s' = r.s /\ segs' = r.segs /\ UNCHANGED w
            /\ j' = IF r.out = "none" THEN j ELSE j + 1
            /\ IF L.panic = "" THEN TRUE ELSE Report("panic: " \o L.panic)
            /\ IF r.used = L.used THEN TRUE
               ELSE Report("a call offered " \o ToString(L.n) \o " bytes consumed " \o ToString(L.used) \o " instead of " \o ToString(r.used))
            /\ IF r.out # "none" \/ L.ev = <<>> THEN TRUE ELSE Report("events " \o ToString(L.ev) \o " before a packet is complete")
            /\ IF r.out = "none" \/ L.used # r.used \/ j > Len(w) \/ L.ev = w[j] THEN TRUE
               ELSE Report("packet " \o ToString(j) \o " in pieces produced " \o ToString(L.ev) \o " whole " \o ToString(w[j]))
            /\ IF r.out # "err" \/ \E i \in 1..Len(L.ev) : L.ev[i].e = "err" THEN TRUE ELSE Report("over-long Remaining Length not reported")
            /\ IF r.out = "none" \/ j <= Len(w) THEN TRUE ELSE Assert(FALSE, <<"the harness and the specification disagree on the frames", l>>)
View == l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
Spec == Init /\ [][Next]_vars
=============================================================================
