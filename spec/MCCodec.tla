------------------------------ MODULE MCCodec ------------------------------
(***************************************************************************)
(* Enumerates packets at the boundaries of Codec: the property table       *)
(* (27 properties x 16 places x boundary and forbidden values x one or two *)
(* occurrences), every reason code, every subscription option byte, every  *)
(* string length around the length-encoding and inline-buffer thresholds,  *)
(* packet sizes around the steps of the variable byte integer, and the     *)
(* products of the optional fields. TLC checks on each of them that Decode *)
(* inverts Encode, and prints it as a vector for the real codec.           *)
(***************************************************************************)
EXTENDS Codec, TLC, Json, IOUtils
PART == IOEnv.PART
VARIABLE vec

S1 == <<<<97, 1>>>>
Rep(b, n) == IF n = 0 THEN <<>> ELSE <<<<b, n>>>>
Id1 == <<0, 1>>
V5K == {"connect", "connack", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "suback", "unsubscribe", "unsuback",
        "disconnect", "auth"}
(* a plain packet of each kind *)
Base(v, k) ==
  LET d0 == [Blank EXCEPT !.v = v, !.k = k, !.hp = (v = 5 /\ k \in V5K)] IN
  CASE k = "connect" -> [d0 EXCEPT !.clean = TRUE, !.cid = S1]
    [] k = "connack" -> [d0 EXCEPT !.rc = 0]
    [] k = "publish" -> [d0 EXCEPT !.topic = <<<<116, 1>>>>, !.payload = S1]
    [] k \in Acks -> [d0 EXCEPT !.id = Id1, !.rc = IF v = 5 THEN 0 ELSE -1]
    [] k = "subscribe" -> [d0 EXCEPT !.id = Id1, !.subs = <<<<<<<<116, 1>>>>, 1>>>>]
    [] k = "unsubscribe" -> [d0 EXCEPT !.id = Id1, !.topics = <<<<<<116, 1>>>>>>]
    [] k = "suback" -> [d0 EXCEPT !.id = Id1, !.rcs = <<0>>]
    [] k = "unsuback" -> [d0 EXCEPT !.id = Id1, !.rcs = IF v = 5 THEN <<0>> ELSE <<>>]
    [] k = "disconnect" -> [d0 EXCEPT !.rc = IF v = 5 THEN 0 ELSE -1]
    [] k = "auth" -> [d0 EXCEPT !.rc = 24]
    [] OTHER -> d0
Will0 == [topic |-> <<<<119, 1>>>>, payload |-> S1, qos |-> 0, retain |-> FALSE, props |-> <<>>]
P(i, n, a, b) == [i |-> i, n |-> n, a |-> a, b |-> b]
Meth == P(21, <<0, 0>>, <<<<109, 1>>>>, <<>>)
NeedsMeth(ps) == Has(ps, 22) /\ ~Has(ps, 21)
With(place, ps) ==
  LET qs == IF (place = "auth" /\ ~Has(ps, 21)) \/ NeedsMeth(ps) THEN <<Meth>> \o ps ELSE ps IN
  IF place = "will" THEN [Base(5, "connect") EXCEPT !.will = <<[Will0 EXCEPT !.props = qs]>>] ELSE [Base(5, place) EXCEPT !.props = qs]
AllPlaces == V5K \cup {"will"}
V(tag, w, d) == [m |-> "b", tag |-> tag, w |-> w, d |-> d]

(* ---- property values *)
Ns(i) == CASE Ty(i) = "byte" -> {<<0, x>> : x \in {0, 1, 2, 3, 127, 128, 255}}
           [] Ty(i) = "u16" -> {<<0, x>> : x \in {0, 1, 255, 256, 65535}}
           [] Ty(i) = "u32" -> {<<0, 0>>, <<0, 1>>, <<0, 65535>>, <<1, 0>>, <<258, 772>>, <<65535, 65535>>}
           [] Ty(i) = "vbi" -> {<<0, 0>>, <<0, 1>>, <<0, 127>>, <<0, 128>>, <<0, 16383>>, <<0, 16384>>, <<31, 65535>>, <<32, 0>>, <<4095, 65535>>}
           [] OTHER -> {<<0, 0>>}
Texts == {<<>>, S1, Lit(<<195, 169>>), Lit(<<226, 130, 172>>), Lit(<<240, 144, 141, 136>>), Rep(120, 65535)}
Bins == {<<>>, S1, Lit(<<0, 255, 128>>), Rep(0, 65535)}
As(i) == CASE Ty(i) \in {"str", "pair"} -> Texts [] Ty(i) = "bin" -> Bins [] OTHER -> {<<>>}
Bs(i) == IF Ty(i) = "pair" THEN {<<>>, S1, Rep(121, 300)} ELSE {<<>>}
Vals(i) == {P(i, n, a, b) : n \in Ns(i), a \in As(i), b \in Bs(i)}
One(i) == P(i, IF Ty(i) = "vbi" THEN <<0, 7>> ELSE IF Ty(i) \in {"str", "bin", "pair"} THEN <<0, 0>> ELSE <<0, 1>>,
            IF Ty(i) \in {"str", "bin", "pair"} THEN S1 ELSE <<>>, IF Ty(i) = "pair" THEN <<<<98, 1>>>> ELSE <<>>)
Two(i) == IF Ty(i) = "byte" THEN P(i, <<0, 0>>, <<>>, <<>>)
          ELSE IF Ty(i) \in {"str", "bin", "pair"} THEN P(i, <<0, 0>>, <<<<99, 2>>>>, IF Ty(i) = "pair" THEN <<<<100, 3>>>> ELSE <<>>)
          ELSE P(i, <<0, 2>>, <<>>, <<>>)
Table1 == {V("prop", 2, With(pl, <<x>>)) : pl \in AllPlaces, x \in UNION {Vals(i) : i \in PropIds}}
Table2 == UNION {{V("prop2", 2, With(pl, <<One(i), One(i)>>)), V("prop2", 2, With(pl, <<One(i), Two(i)>>)),
                  V("prop2", 2, With(pl, <<One(i), P(38, <<0, 0>>, S1, S1), Two(i)>>))} : pl \in AllPlaces, i \in PropIds}
Table3 == UNION {{V("prop2", 2, With(pl, <<One(i), One(j)>>)) : i, j \in {x \in PropIds : pl \in Places(x)}} : pl \in AllPlaces}
(* both sections of a CONNECT at once *)
Table4 == {V("prop2", 2, [With("connect", <<One(i)>>) EXCEPT !.will = With("will", <<One(j)>>).will]) : i, j \in PropIds}
(* 32-bit identifiers: the property section moves *)
Table5 == {V("prop", 4, With(pl, <<One(i)>>)) : pl \in {"publish", "subscribe", "suback", "unsubscribe", "unsuback"} \cup Acks, i \in PropIds}
(* every property allowed in a place, together *)
Sorted(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
Table6 == {V("prop", 2, With(pl, [j \in 1..Cardinality({x \in PropIds : pl \in Places(x)}) |-> One(Sorted({x \in PropIds : pl \in Places(x)})[j])]))
             : pl \in AllPlaces}

(* ---- reason codes *)
Rcs == {V("rc", w, [Base(v, k) EXCEPT !.rc = c, !.hp = (h > 0), !.props = CASE h = 2 -> <<One(38)>> [] h = 3 -> <<Meth>> [] OTHER -> <<>>])
          : w \in {2, 4}, v \in {5}, k \in {"puback", "pubrec", "pubrel", "pubcomp", "disconnect", "auth"}, c \in 0..255, h \in 0..3}
       \cup {V("rc", 2, [Base(v, "connack") EXCEPT !.rc = c, !.sp = s]) : v \in {3, 5}, c \in 0..255, s \in BOOLEAN}
       \cup {V("rc", w, [Base(v, k) EXCEPT !.rcs = q]) : w \in {2, 4}, v \in {3, 5}, k \in {"suback", "unsuback"},
                q \in {<<c>> : c \in 0..255} \cup {<<0, c>> : c \in 0..255} \cup {<<>>, <<0, 128, 0>>, <<128, 128>>}}
       \cup {V("rc", w, [Base(v, k) EXCEPT !.rc = -1, !.hp = FALSE]) : w \in {2, 4}, v \in {3, 5}, k \in Acks \cup {"disconnect", "auth"}}
(* ---- subscription options, filters *)
Filters == {<<>>, <<<<35, 1>>>>, <<<<43, 1>>>>, Lit(<<97, 47, 43, 47, 35>>), Rle(Share), Rle(Share \o <<103>>), Rle(Share \o <<103, 47>>),
            Rle(Share \o <<103, 47, 116>>), Rle(Share \o <<47, 116>>), Rle(Share \o <<43, 47, 116>>), Rle(Share \o <<35, 47, 116>>),
            Lit(<<36, 115, 104, 97, 114, 101>>), Lit(<<36, 83, 89, 83, 47, 97>>)}
Opts == {V("opt", w, [Base(v, "subscribe") EXCEPT !.subs = <<<<S1, o>>>>]) : w \in {2, 4}, v \in {3, 5}, o \in 0..255}
        \cup {V("opt", 2, [Base(v, "subscribe") EXCEPT !.subs = <<<<f, o>>>>]) : v \in {3, 5}, f \in Filters, o \in {0, 1, 2, 4, 8, 16, 32, 46}}
        \cup {V("opt", 2, [Base(v, "subscribe") EXCEPT !.subs = <<<<S1, 0>>, <<f, 2>>, <<S1, o>>>>]) : v \in {3, 5}, f \in Filters, o \in {1, 3}}
        \cup {V("opt", 2, [Base(v, "unsubscribe") EXCEPT !.topics = <<f>>]) : v \in {3, 5}, f \in Filters}
        \cup {V("opt", w, [Base(v, "unsubscribe") EXCEPT !.topics = <<S1, f, S1>>]) : w \in {2, 4}, v \in {3, 5}, f \in Filters}
        \cup {V("opt", 2, [Base(v, k) EXCEPT !.subs = <<>>, !.topics = <<>>]) : v \in {3, 5}, k \in {"subscribe", "unsubscribe"}}
(* ---- identifiers *)
Ids2 == {<<0, x>> : x \in {0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535}}
Ids4 == Ids2 \cup {<<1, 0>>, <<255, 65535>>, <<256, 0>>, <<258, 772>>, <<32768, 0>>, <<65535, 65535>>}
Idv == {V("id", w, [Base(v, k) EXCEPT !.id = x, !.qos = IF k = "publish" THEN q ELSE 0])
          : w \in {4}, v \in {3, 5}, k \in Acks \cup {"subscribe", "suback", "unsubscribe", "unsuback", "publish"}, x \in Ids4, q \in {1, 2}}
       \cup {V("id", 2, [Base(v, k) EXCEPT !.id = x, !.qos = IF k = "publish" THEN q ELSE 0])
          : v \in {3, 5}, k \in Acks \cup {"subscribe", "suback", "unsubscribe", "unsuback", "publish"}, x \in Ids2, q \in {1, 2}}
(* ---- products of the optional fields *)
Wills(v) == {<<>>} \cup {<<[topic |-> t, payload |-> y, qos |-> q, retain |-> r, props |-> ps]>> :
               t \in {S1, Rep(119, 200)}, y \in {<<>>, Rep(0, 300)}, q \in 0..2, r \in BOOLEAN,
               ps \in IF v = 5 THEN {<<>>, <<One(24), One(38)>>} ELSE {<<>>}}
Conn == UNION {{V("field", 2, [Base(v, "connect") EXCEPT !.clean = c, !.ka = a, !.cid = i, !.will = wl, !.user = u, !.pass = s, !.props = ps]) :
           c \in BOOLEAN, a \in {0, 258}, i \in {<<>>, Rep(99, 23)}, wl \in Wills(v),
           u \in {<<>>, <<<<>>>>, <<S1>>}, s \in {<<>>, <<<<>>>>, <<Rep(255, 3)>>}, ps \in IF v = 5 THEN {<<>>, <<One(33)>>} ELSE {<<>>}} : v \in {3, 5}}
Publ == UNION {{V("field", w, [Base(v, "publish") EXCEPT !.qos = q, !.dup = (q > 0 /\ du), !.retain = r, !.topic = t, !.id = IF q = 0 THEN <<0, 0>> ELSE x,
                     !.payload = y, !.props = ps]) :
           w \in {2, 4}, q \in 0..2, du \in BOOLEAN, r \in BOOLEAN, t \in {<<>>, S1, Lit(<<97, 47, 195, 169>>), <<<<35, 1>>>>, Lit(<<97, 43>>), Rep(116, 130)},
           x \in {<<0, 1>>, <<0, 258>>}, y \in {<<>>, S1, Rep(7, 300)}, ps \in IF v = 5 THEN {<<>>, <<One(35)>>, <<One(11), One(11), One(38)>>} ELSE {<<>>}} : v \in {3, 5}}
Rest == {V("field", 2, Base(v, k)) : v \in {3, 5}, k \in {"pingreq", "pingresp"}}

(* ---- string and binary lengths *)
Lens == (0..66) \cup (120..140) \cup (250..260) \cup (16376..16390) \cup (65525..65535)
Strs(n) == {V("len", 2, [Base(v, "connect") EXCEPT !.cid = Rep(120, n)]) : v \in {3, 5}}
  \cup {V("len", 2, [Base(v, "connect") EXCEPT !.will = <<[Will0 EXCEPT !.topic = Rep(120, n)]>>]) : v \in {3, 5}}
  \cup {V("len", 2, [Base(v, "connect") EXCEPT !.will = <<[Will0 EXCEPT !.payload = Rep(0, n)]>>]) : v \in {3, 5}}
  \cup {V("len", 2, [Base(v, "connect") EXCEPT !.user = <<Rep(120, n)>>, !.pass = <<Rep(255, n)>>]) : v \in {3, 5}}
  \cup {V("len", w, [Base(v, "publish") EXCEPT !.topic = Rep(120, n), !.qos = 1, !.id = Id1]) : w \in {2, 4}, v \in {3, 5}}
  \cup {V("len", 2, [Base(v, "subscribe") EXCEPT !.subs = <<<<Rep(120, n), 0>>, <<S1, 1>>>>]) : v \in {3, 5}}
  \cup {V("len", 2, [Base(v, "unsubscribe") EXCEPT !.topics = <<S1, Rep(120, n)>>]) : v \in {3, 5}}
  \cup {V("len", 2, With(CHOOSE pl \in Places(i) : TRUE, <<P(i, <<0, 0>>, Rep(120, n), IF Ty(i) = "pair" THEN Rep(121, 65535 - n) ELSE <<>>)>>)) : i \in {x \in PropIds : Ty(x) \in {"str", "bin", "pair"}}}
  \cup {V("len", 2, With(CHOOSE pl \in Places(38) : TRUE, <<P(38, <<0, 0>>, S1, Rep(121, n))>>))}
LenV == UNION {Strs(n) : n \in Lens}
(* ---- packet sizes: the last field stretched so that the body, or the property section, ends near a step of the length encoding *)
Steps == {127, 128, 16383, 16384, 2097151, 2097152}
Filled(n) == IF n <= 65535 THEN <<P(38, <<0, 0>>, <<>>, Rep(118, n))>>
             ELSE [j \in 1..(n \div 65540) |-> P(38, <<0, 0>>, <<>>, Rep(118, 65535))] \o <<P(38, <<0, 0>>, <<>>, Rep(118, n % 65540))>>
PropSize == {V("size", w, With(pl, Filled(t - 5 - o))) : w \in {2, 4}, pl \in AllPlaces, t \in Steps, o \in (-3)..30}
Payload == {V("size", w, [Base(v, "publish") EXCEPT !.qos = q, !.id = IF q = 0 THEN <<0, 0>> ELSE Id1, !.payload = Rep(112, t - o)])
              : w \in {2, 4}, v \in {3, 5}, q \in 0..2, t \in Steps, o \in 1..10}
Many == {V("size", w, [Base(v, k) EXCEPT !.rcs = [j \in 1..(t - o) |-> 0]]) : w \in {2, 4}, v \in {3, 5}, k \in {"suback", "unsuback"}, t \in {127, 128, 16383, 16384}, o \in 1..6}
     \cup {V("size", w, [Base(v, "subscribe") EXCEPT !.subs = [j \in 1..n |-> <<Rep(120, IF j = 1 THEN n ELSE 1), 1>>]]) : w \in {2, 4}, v \in {3, 5}, n \in 20..35}
     \cup {V("size", w, [Base(v, "unsubscribe") EXCEPT !.topics = [j \in 1..n |-> Rep(120, IF j = 1 THEN n ELSE 1)]]) : w \in {2, 4}, v \in {3, 5}, n \in 20..35}
     \cup {V("size", w, [Base(v, k) EXCEPT !.subs = [j \in 1..c |-> <<Rep(120, t), 1>>], !.topics = [j \in 1..c |-> Rep(120, t)]])
             : w \in {2, 4}, v \in {3, 5}, k \in {"subscribe", "unsubscribe"}, t \in (16368..16384), c \in {1, 128}}

(* unsuback of v3.1.1 has no payload; drop the vectors that would give it one *)
Sane(x) == ~(x.d.v = 3 /\ x.d.k = "auth") /\ ~(x.d.v = 3 /\ x.d.k = "unsuback" /\ x.d.rcs # <<>>) /\ (x.d.k # "subscribe" => x.d.subs = <<>>) /\ (x.d.k # "unsubscribe" => x.d.topics = <<>>)
Strip(x) == [x EXCEPT !.d.subs = IF x.d.k = "subscribe" THEN @ ELSE <<>>, !.d.topics = IF x.d.k = "unsubscribe" THEN @ ELSE <<>>]
Vectors ==
  CASE PART = "prop" -> Table1 \cup Table2 \cup Table3 \cup Table4 \cup Table5 \cup Table6
    [] PART = "rc" -> Rcs \cup Opts \cup Idv
    [] PART = "field" -> Conn \cup Publ \cup Rest
    [] PART = "len" -> LenV
    [] PART = "size" -> PropSize \cup Payload \cup Many
    [] OTHER -> {}
Init == vec \in {x \in {Strip(y) : y \in Vectors} : Sane(x)}
Next == FALSE /\ UNCHANGED vec
Spec == Init /\ [][Next]_vec
(* Decode inverts Encode wherever the packet obeys the rules *)
Small(d, w) == RLen(Body(d, w)) <= 300
DecodeInvertsEncode == (Small(vec.d, vec.w) /\ Rules(vec.d) /\ TextsOk(vec.d)) =>
  LET b == Expand(Body(vec.d, vec.w)) r == Decode(vec.d.v, Head1(vec.d), b, vec.w) IN
  r.ok /\ r.d = vec.d
(* a packet that breaks a rule is not what its bytes decode to *)
Strict == (Small(vec.d, vec.w) /\ ~Rules(vec.d)) => ~Decode(vec.d.v, Head1(vec.d), Expand(Body(vec.d, vec.w)), vec.w).ok
           \/ Decode(vec.d.v, Head1(vec.d), Expand(Body(vec.d, vec.w)), vec.w).d # vec.d
Emit == PrintT(ToJson(vec))
=============================================================================
