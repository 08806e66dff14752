------------------------------- MODULE Framing ------------------------------
(***************************************************************************)
(* MQTT stream framing: a byte-level automaton.  A packet is one header    *)
(* byte, a Remaining Length of one to four bytes (7 bits each, low first,  *)
(* high bit = more) and that many body bytes.  A fifth length byte would   *)
(* be needed: that is an error, and the next byte starts a new packet.     *)
(* Feed(s, segs, n) models one call to recv that is offered n bytes: it    *)
(* stops after the first packet (or error) it completes.                   *)
(* Streams are run-length coded: <<<<byte, count>>, ...>>.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Start == [ph |-> "H", hd |-> 0, n |-> 0, mul |-> 1, need |-> 0]

(* one byte: [s, out] with out in "none", "pkt", "err" *)
One(s, b) ==
  CASE s.ph = "H" -> [s |-> [Start EXCEPT !.ph = "L", !.hd = b], out |-> "none"]
    [] s.ph = "L" ->
         LET n == s.n + (b % 128) * s.mul
         IN IF b < 128 THEN IF n = 0 THEN [s |-> Start, out |-> "pkt"]
                            ELSE [s |-> [s EXCEPT !.ph = "B", !.n = n, !.need = n], out |-> "none"]
            ELSE IF s.mul = 128 * 128 * 128 THEN [s |-> Start, out |-> "err"]
            ELSE [s |-> [s EXCEPT !.n = n, !.mul = @ * 128], out |-> "none"]
    [] OTHER -> IF s.need = 1 THEN [s |-> Start, out |-> "pkt"] ELSE [s |-> [s EXCEPT !.need = @ - 1], out |-> "none"]

(* k body bytes at once *)
Skip(s, k) == IF k = s.need THEN [s |-> Start, out |-> "pkt"] ELSE [s |-> [s EXCEPT !.need = @ - k], out |-> "none"]

Min2(a, b) == IF a < b THEN a ELSE b
Drop(segs, k) == IF segs[1][2] = k THEN Tail(segs) ELSE <<<<segs[1][1], segs[1][2] - k>>>> \o Tail(segs)

RECURSIVE Feed(_, _, _, _)
Feed(s, segs, n, used) ==
  IF n = used \/ segs = <<>> THEN [s |-> s, segs |-> segs, used |-> used, out |-> "none"]
  ELSE LET k == IF s.ph = "B" THEN Min2(Min2(s.need, segs[1][2]), n - used) ELSE 1
           r == IF s.ph = "B" THEN Skip(s, k) ELSE One(s, segs[1][1])
       IN IF r.out # "none" THEN [s |-> r.s, segs |-> Drop(segs, k), used |-> used + k, out |-> r.out]
          ELSE Feed(r.s, Drop(segs, k), n, used + k)
=============================================================================
