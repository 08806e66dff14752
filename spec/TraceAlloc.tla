---------------------------- MODULE TraceAlloc -----------------------------
(* Validates recorded histories of the real ValueAllocator against Alloc.   *)
EXTENDS Alloc, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, w, used, pr
vars == <<l, w, used, pr>>

Viol(b, msg) == IF b THEN TRUE ELSE PrintT("VIOL|C20|" \o ToString(l) \o "|" \o msg)

Probed == UNION {p[1] .. p[2] : p \in {pr[i] : i \in DOMAIN pr}}
ToSet(s) == {s[i] : i \in DOMAIN s}
ObsOk(o, ww, u, pp) ==
    /\ Viol(o.n = Runs(ww, u), "interval_count is " \o ToString(o.n) \o ", the free set has "
                                \o ToString(Runs(ww, u)) \o " maximal runs")
    /\ Viol(o.fv = FirstFree(ww, u), "first_vacant " \o ToString(o.fv) \o " expected " \o ToString(FirstFree(ww, u)))
    /\ LET probed == UNION {pp[i][1] .. pp[i][2] : i \in DOMAIN pp}
           exp == {v \in probed : IsUsed(ww, u, v)} IN
       Viol(ToSet(o.u) = exp, "is_used answers " \o ToString(o.u) \o " expected " \o ToString(exp))

Init == l = 1 /\ w = 1 /\ used = {} /\ pr = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET t == Trace[l] IN
       CASE t.c = "new" -> /\ w' = t.w /\ used' = {} /\ pr' = t.pr
                           /\ ObsOk(t.obs, t.w, {}, t.pr)
         [] t.c = "panic" -> /\ Viol(FALSE, "panic in " \o t.in \o ": " \o t.msg)
                             /\ UNCHANGED <<w, used, pr>>
         [] OTHER -> LET o == Op(w, used, t.c, t.x) IN
                     /\ Viol(o.ret = t.ret, t.c \o "(" \o ToString(t.x) \o ") answered " \o ToString(t.ret)
                                            \o " expected " \o ToString(o.ret))
                     /\ used' = o.used /\ UNCHANGED <<w, pr>>
                     /\ ObsOk(t.obs, w, o.used, pr)
Spec == Init /\ [][Next]_vars
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
