------------------------------ MODULE MCFraming -----------------------------
(***************************************************************************)
(* Every partition of every stream of a set into chunks.  Chunks are       *)
(* offered whole, then their unread rest again, as an application does.    *)
(* Independence: what has been recognised depends only on the bytes read,  *)
(* not on the partition (Ref computes it byte by byte).                    *)
(* With the constant Emit each complete partition is printed as a      *)
(* vector to be replayed on the real connection.                           *)
(***************************************************************************)
EXTENDS Framing, FiniteSets, TLC, Json

CONSTANTS Emit
F1 == <<208, 0>>                                    \* empty packet
F2 == <<64, 2, 0, 1>>                               \* two body bytes
F3 == <<48, 4, 0, 1, 97, 120>>                      \* PUBLISH
F4 == <<208, 128, 0>>                               \* empty packet, length in two bytes
F5 == <<64, 130, 128, 128, 0, 0, 1>>                \* length in four bytes
F6 == <<208, 255, 255, 255, 255>>                   \* too long
F7 == <<48, 128, 128, 128, 128>>
Streams == { F1 \o F1 \o F2, F2 \o F3, F3 \o F1 \o F1, F1 \o F4 \o F2, F5 \o F1, F6 \o F1 \o F2, F3 \o F7, F7 \o F3, F6 \o F6,
             F1 \o F6 \o F5, F4 \o F4 \o F4, F3 \o F3, F1 \o F3 \o F1 }
Rle(b) == [i \in 1..Len(b) |-> <<b[i], 1>>]

VARIABLES str, pos, chunk, s, got, hist
vars == <<str, pos, chunk, s, got, hist>>

RECURSIVE Ref(_, _, _)
Ref(st, b, i) == IF i > Len(b) THEN <<>>
  ELSE LET r == One(st, b[i]) IN (IF r.out = "none" THEN <<>> ELSE <<<<r.out, i>>>>) \o Ref(r.s, b, i + 1)

Init == str \in Streams /\ pos = 0 /\ chunk = 0 /\ s = Start /\ got = <<>> /\ hist = <<>>
(* a new chunk arrives when the previous one is used up *)
Arrive == /\ chunk = 0 /\ pos < Len(str)
          /\ \E n \in 1..(Len(str) - pos) : chunk' = n /\ hist' = Append(hist, n)
          /\ UNCHANGED <<str, pos, s, got>>
Call == /\ chunk > 0
        /\ LET r == Feed(s, Rle(SubSeq(str, pos + 1, Len(str))), chunk, 0)
           IN /\ s' = r.s /\ pos' = pos + r.used /\ chunk' = chunk - r.used
              /\ got' = IF r.out = "none" THEN got ELSE Append(got, <<r.out, pos + r.used>>)
        /\ UNCHANGED <<str, hist>>
Next == Arrive \/ Call
Spec == Init /\ [][Next]_vars

Independence == got = SelectSeq(Ref(Start, str, 1), LAMBDA x : x[2] <= pos)
Progress == chunk > 0 => Feed(s, Rle(SubSeq(str, pos + 1, Len(str))), chunk, 0).used > 0
Vectors == (Emit /\ pos = Len(str)) => PrintT(ToJson([s |-> str, c |-> hist]))
=============================================================================
