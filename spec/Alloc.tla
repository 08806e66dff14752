------------------------------- MODULE Alloc -------------------------------
(* C20.  The value allocator as a plain set of free integers.               *)
(* The range is 0 .. w-1 (the implementation's range shifted to start at 0).*)
(* `used` is the complement of the free set inside the range, which stays   *)
(* small for the large ranges that real traces use.                         *)
EXTENDS Integers, FiniteSets, Sequences

InRange(w, v) == 0 <= v /\ v < w
IsFree(w, used, v) == InRange(w, v) /\ v \notin used
IsUsed(w, used, v) == InRange(w, v) /\ v \in used

Full(w, used) == Cardinality(used) = w
(* smallest free value: at most Cardinality(used) values lie below it *)
FirstFree(w, used) ==
    IF Full(w, used) THEN <<>>
    ELSE <<CHOOSE v \in 0 .. Cardinality(used) :
              v \notin used /\ \A x \in 0 .. (v-1) : x \in used>>

(* number of maximal runs of free values *)
Runs(w, used) ==
    (IF IsFree(w, used, 0) THEN 1 ELSE 0)
    + Cardinality({v \in used : IsFree(w, used, v + 1)})

(* one operation: [ret |-> .., used |-> ..] *)
Op(w, used, op, x) ==
    CASE op = "alloc" -> LET f == FirstFree(w, used) IN
                         [ret |-> f, used |-> IF f = <<>> THEN used ELSE used \cup {f[1]}]
      [] op = "use"   -> [ret |-> IF IsFree(w, used, x) THEN <<1>> ELSE <<0>>,
                          used |-> IF IsFree(w, used, x) THEN used \cup {x} ELSE used]
      [] op = "free"  -> [ret |-> <<>>, used |-> used \ {x}]
      [] op = "clear" -> [ret |-> <<>>, used |-> {}]
=============================================================================
