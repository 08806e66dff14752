-------------------------------- MODULE MCPair -------------------------------
(***************************************************************************)
(* Model checking of Pair: every interleaving of the applications' calls,  *)
(* deliveries, transport losses and reconnections for small workloads.     *)
(* Each transition is printed as a schedule (EMIT = "1") that the harness  *)
(* replays on two real connection objects.                                 *)
(* IOEnv: CONF (JSON file with the configuration), EMIT                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Pair

CF == ndJsonDeserialize(IOEnv.CONF)[1]
EMIT == IOEnv.EMIT = "1"

VARIABLES w, todo, cuts, hist   \* todo[i]: the operations side i still wants to perform
vars == <<w, todo, cuts, hist>>

Init == w = WNew(CF) /\ todo = CF.ops /\ cuts = CF.cuts /\ hist = <<>>

Did(o) == /\ hist' = IF EMIT THEN Append(hist, o) ELSE hist
          /\ IF EMIT THEN PrintT("SCHED|" \o ToJson(Append(hist, o))) ELSE TRUE

(* an operation record: [o, q, t, a] *)
App(i) ==
  /\ todo[i] # <<>>
  /\ LET x == Head(todo[i]) IN
     /\ CASE x.o = "pub" -> CanPub(w, i) /\ (x.q > 0 => Vacancy(w.s[i]) # 0) /\ (x.t = "" => Lookup(w.al[i], x.a) # "")
          [] OTHER -> w.up[1] /\ w.seen
     /\ w' = (CASE x.o = "pub" -> DoPub(CF, w, i, x.q, x.t, x.a)
                [] x.o = "ping" -> Call(CF, w, 1, [k |-> "send", p |-> P0(CF, "pingreq", 0, 2)])
                [] OTHER -> DoSub(CF, w, x.o))
     /\ todo' = [todo EXCEPT ![i] = Tail(@)]
     /\ UNCHANGED cuts
     /\ Did([o |-> x.o, i |-> i, q |-> x.q, t |-> x.t, a |-> x.a])
Next ==
  \/ \E i \in 1..2 : App(i)
  \/ \E i \in 1..2 : CanDeliver(w, i) /\ w' = DoDeliver(CF, w, i) /\ Did([o |-> "dlv", i |-> i]) /\ UNCHANGED <<todo, cuts>>
  \/ \E i \in 1..2 : CanApp(w, i) /\ w' = DoApp(CF, w, i) /\ Did([o |-> "app", i |-> i]) /\ UNCHANGED <<todo, cuts>>
  \/ \E i \in 1..2 : CanClosed(w, i) /\ w' = DoClosed(CF, w, i) /\ Did([o |-> "closed", i |-> i]) /\ UNCHANGED <<todo, cuts>>
  \/ CanConnect(w) /\ w' = DoConnect(CF, w) /\ Did([o |-> "conn", i |-> 0]) /\ UNCHANGED <<todo, cuts>>
  \/ w.link /\ w.seen /\ cuts > 0 /\ w' = DoCut(w) /\ cuts' = cuts - 1 /\ Did([o |-> "cut", i |-> 0]) /\ UNCHANGED todo

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Check == Good(w)
(* the operations that can never be performed (a lost alias) do not count *)
Stuck(i) == todo[i] # <<>> /\ Head(todo[i]).o = "pub" /\ Head(todo[i]).t = "" /\ Lookup(w.al[i], Head(todo[i]).a) = ""
Finished == Settled(w) /\ \A i \in 1..2 : todo[i] = <<>> \/ Stuck(i)
Ends == <>Finished
View == <<w, todo, cuts>>
=============================================================================
