----------------------------- MODULE AllocRle ------------------------------
(* The allocator's run-length algorithm (value_allocator.rs), one action per *)
(* public call, checked to refine Alloc's set of free integers.              *)
EXTENDS Alloc, TLC, Json
CONSTANTS W, EMIT
VARIABLES pool,      \* set of <<lo,hi>> intervals
          ret        \* last result
vars == <<pool, ret>>

Lows == {iv[1] : iv \in pool}
First == CHOOSE iv \in pool : \A j \in pool : iv[1] <= j[1]
Contains(v) == {iv \in pool : iv[1] <= v /\ v <= iv[2]}

(* refinement mapping: the free set, as its complement *)
usedMap == {v \in 0 .. W-1 : Contains(v) = {}}

Init == pool = {<<0, W-1>>} /\ ret = <<>>

Allocate ==
    IF pool = {} THEN pool' = pool /\ ret' = <<>>
    ELSE LET iv == First IN
         /\ ret' = <<iv[1]>>
         /\ pool' = (pool \ {iv}) \cup (IF iv[1] < iv[2] THEN {<<iv[1]+1, iv[2]>>} ELSE {})

Reserve(v) ==
    IF Contains(v) = {} THEN pool' = pool /\ ret' = <<0>>
    ELSE LET iv == CHOOSE i \in Contains(v) : TRUE IN
         /\ ret' = <<1>>
         /\ pool' = (pool \ {iv}) \cup (IF iv[1] < v THEN {<<iv[1], v-1>>} ELSE {})
                                  \cup (IF v < iv[2] THEN {<<v+1, iv[2]>>} ELSE {})

Release(v) ==
    /\ ret' = <<>>
    /\ IF Contains(v) # {} THEN pool' = pool
       ELSE LET L == {iv \in pool : iv[2] + 1 = v}
                R == {iv \in pool : iv[1] = v + 1}
                lo == IF L = {} THEN v ELSE (CHOOSE i \in L : TRUE)[1]
                hi == IF R = {} THEN v ELSE (CHOOSE i \in R : TRUE)[2]
            IN pool' = (pool \ (L \cup R)) \cup {<<lo, hi>>}

Clear == pool' = {<<0, W-1>>} /\ ret' = <<>>

Emit(op, x) ==
    IF EMIT THEN
      LET o == Op(W, usedMap, op, x) IN
      PrintT(ToJson([w |-> W, used |-> usedMap, op |-> op, arg |-> x, ret |-> o.ret,
                     u2 |-> o.used, n |-> Runs(W, o.used), fv |-> FirstFree(W, o.used)]))
    ELSE TRUE

Next ==
    \/ Emit("alloc", 0) /\ Allocate
    \/ \E v \in 0 .. W-1 : Emit("use", v) /\ Reserve(v)
    \/ \E v \in 0 .. W-1 : Emit("free", v) /\ Release(v)
    \/ Emit("clear", 0) /\ Clear

Spec == Init /\ [][Next]_vars

(* run-length representation: non-empty, sorted/disjoint, maximally merged *)
WellFormed ==
    /\ \A iv \in pool : 0 <= iv[1] /\ iv[1] <= iv[2] /\ iv[2] <= W-1
    /\ \A i, j \in pool : i # j => (i[2] + 1 < j[1] \/ j[2] + 1 < i[1])
RunsAgree == Cardinality(pool) = Runs(W, usedMap)
FirstAgrees == FirstFree(W, usedMap) = IF pool = {} THEN <<>> ELSE <<First[1]>>

(* every concrete step is the abstract operation with the same answer *)
Refines ==
    [][ \/ (Op(W, usedMap, "alloc", 0).used = usedMap' /\ Op(W, usedMap, "alloc", 0).ret = ret')
        \/ \E v \in 0 .. W-1 : \E op \in {"use", "free"} :
              Op(W, usedMap, op, v).used = usedMap' /\ Op(W, usedMap, op, v).ret = ret'
        \/ (usedMap' = {} /\ ret' = <<>>) ]_vars
View == pool
=============================================================================
