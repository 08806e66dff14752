------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* MQTT v3.1.1 / v5.0 control packets: abstract field values, the bytes    *)
(* the OASIS documents prescribe for them (Encode), the strict reading of  *)
(* bytes (Decode), and the rules a packet has to satisfy (Rules).          *)
(*                                                                         *)
(* A packet is a record with the fields of `Blank`. Byte strings and UTF-8 *)
(* strings are run-length coded: <<<<byte, count>>, ...>>, normalised      *)
(* (no empty run, neighbours differ). 16- and 32-bit values are pairs      *)
(* <<high 16 bits, low 16 bits>>, since TLC's integers have 32 bits.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Blank == [v |-> 5, k |-> "pingreq", id |-> <<0, 0>>, qos |-> 0, dup |-> FALSE, retain |-> FALSE, topic |-> <<>>, payload |-> <<>>,
          hp |-> FALSE, props |-> <<>>, rc |-> -1, sp |-> FALSE, clean |-> FALSE, ka |-> 0, cid |-> <<>>, will |-> <<>>,
          user |-> <<>>, pass |-> <<>>, subs |-> <<>>, topics |-> <<>>, rcs |-> <<>>]

Kinds == <<"connect", "connack", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "suback", "unsubscribe",
           "unsuback", "pingreq", "pingresp", "disconnect", "auth">>
TypeOf(k) == CHOOSE i \in 1..15 : Kinds[i] = k
Acks == {"puback", "pubrec", "pubrel", "pubcomp"}
WithId(d) == d.k \in Acks \cup {"subscribe", "suback", "unsubscribe", "unsuback"} \/ (d.k = "publish" /\ d.qos > 0)

---------------------------------------------------------------------------
(* run-length coded byte strings                                           *)
RLen(s) == FoldLeft(LAMBDA a, r : a + r[2], 0, s)
RAdd(a, r) == IF r[2] = 0 THEN a
              ELSE IF a # <<>> /\ Last(a)[1] = r[1] THEN [a EXCEPT ![Len(a)] = <<r[1], @[2] + r[2]>>]
              ELSE Append(a, r)
Norm(s) == FoldLeft(RAdd, <<>>, s)
Rle(bytes) == FoldLeft(LAMBDA a, b : RAdd(a, <<b, 1>>), <<>>, bytes)
Lit(bytes) == [i \in 1..Len(bytes) |-> <<bytes[i], 1>>]
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
(* the first n bytes, plain *)
RECURSIVE Take(_, _)
Take(s, n) == IF n = 0 \/ s = <<>> THEN <<>>
              ELSE IF s[1][2] = 1 THEN <<s[1][1]>> \o Take(Tail(s), n - 1)
              ELSE <<s[1][1]>> \o Take(<<<<s[1][1], s[1][2] - 1>>>> \o Tail(s), n - 1)
RHas(s, b) == \E i \in 1..Len(s) : s[i][1] = b

---------------------------------------------------------------------------
(* data representations, chapter 1.5                                       *)
RECURSIVE VbiB(_)
VbiB(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o VbiB(n \div 128)
U16(n) == Lit(<<n \div 256, n % 256>>)
U32(p) == U16(p[1]) \o U16(p[2])
Bin(s) == U16(RLen(s)) \o s
IdB(p, w) == IF w = 2 THEN U16(p[2]) ELSE U32(p)
Num(p) == p[1] * 65536 + p[2]   \* only where below 2^31
VbiMax == 268435455

---------------------------------------------------------------------------
(* the property table, v5.0 section 2.2.2.2                                *)
Ty(i) == CASE i \in {1, 23, 25, 36, 37, 40, 41, 42} -> "byte"
           [] i \in {19, 33, 34, 35} -> "u16"
           [] i \in {2, 17, 24, 39} -> "u32"
           [] i = 11 -> "vbi"
           [] i \in {3, 8, 18, 21, 26, 28, 31} -> "str"
           [] i \in {9, 22} -> "bin"
           [] i = 38 -> "pair"
           [] OTHER -> "none"
PropIds == {i \in 1..50 : Ty(i) # "none"}
Places(i) ==
  CASE i \in {1, 2, 3, 8, 9} -> {"publish", "will"}
    [] i = 11 -> {"publish", "subscribe"}
    [] i = 17 -> {"connect", "connack", "disconnect"}
    [] i \in {18, 19, 26, 36, 37, 40, 41, 42} -> {"connack"}
    [] i \in {21, 22} -> {"connect", "connack", "auth"}
    [] i \in {23, 25} -> {"connect"}
    [] i = 24 -> {"will"}
    [] i = 28 -> {"connack", "disconnect"}
    [] i = 31 -> {"connack", "suback", "unsuback", "disconnect", "auth"} \cup Acks
    [] i \in {33, 34, 39} -> {"connect", "connack"}
    [] i = 35 -> {"publish"}
    [] i = 38 -> {"connect", "connack", "publish", "will", "subscribe", "suback", "unsubscribe", "unsuback", "disconnect", "auth"} \cup Acks
    [] OTHER -> {}
Repeats(i, place) == i = 38 \/ (i = 11 /\ place = "publish")
Zero(p) == p.n = <<0, 0>>
ValueOk(p) ==
  CASE Ty(p.i) = "byte" -> p.n[1] = 0 /\ p.n[2] \in {0, 1}
    [] p.i \in {33, 35, 39} -> ~Zero(p)
    [] p.i = 11 -> ~Zero(p) /\ p.n[1] < 4096
    [] OTHER -> TRUE
PlaceOk(ps, place) == \A j \in 1..Len(ps) : place \in Places(ps[j].i)
MultOk(ps, place) == \A j, m \in 1..Len(ps) : (j < m /\ ps[j].i = ps[m].i) => Repeats(ps[j].i, place)
ValsOk(ps) == \A j \in 1..Len(ps) : ValueOk(ps[j])
TableOk(ps, place) == PlaceOk(ps, place) /\ MultOk(ps, place) /\ ValsOk(ps)
Has(ps, i) == \E j \in 1..Len(ps) : ps[j].i = i
(* Authentication Data needs an Authentication Method; AUTH needs the Method: rules between properties *)
Joint(ps) == Has(ps, 22) => Has(ps, 21)
PropB(p) ==
  <<<<p.i, 1>>>> \o
  (CASE Ty(p.i) = "byte" -> <<<<p.n[2], 1>>>>
     [] Ty(p.i) = "u16" -> U16(p.n[2])
     [] Ty(p.i) = "u32" -> U32(p.n)
     [] Ty(p.i) = "vbi" -> Lit(VbiB(Num(p.n)))
     [] Ty(p.i) \in {"str", "bin"} -> Bin(p.a)
     [] OTHER -> Bin(p.a) \o Bin(p.b))
PropsB(ps) == LET b == Flat([j \in 1..Len(ps) |-> PropB(ps[j])]) IN Lit(VbiB(RLen(b))) \o b

---------------------------------------------------------------------------
(* chapter 3: the body and the first byte                                  *)
BoolN(b, n) == IF b THEN n ELSE 0
P5(d) == IF d.v = 5 THEN PropsB(d.props) ELSE <<>>
Tail5(d) == IF d.rc < 0 THEN <<>> ELSE <<<<d.rc, 1>>>> \o (IF d.hp THEN PropsB(d.props) ELSE <<>>)
Body(d, w) ==
  CASE d.k = "connect" ->
        LET wl == IF d.will = <<>> THEN <<>> ELSE d.will[1]
            fl == BoolN(d.user # <<>>, 128) + BoolN(d.pass # <<>>, 64) + BoolN(d.clean, 2)
                  + (IF d.will = <<>> THEN 0 ELSE 4 + 8 * wl.qos + BoolN(wl.retain, 32)) IN
        Lit(<<0, 4, 77, 81, 84, 84, IF d.v = 5 THEN 5 ELSE 4, fl>>) \o U16(d.ka) \o P5(d) \o Bin(d.cid)
        \o (IF d.will = <<>> THEN <<>> ELSE (IF d.v = 5 THEN PropsB(wl.props) ELSE <<>>) \o Bin(wl.topic) \o Bin(wl.payload))
        \o (IF d.user = <<>> THEN <<>> ELSE Bin(d.user[1])) \o (IF d.pass = <<>> THEN <<>> ELSE Bin(d.pass[1]))
    [] d.k = "connack" -> Lit(<<BoolN(d.sp, 1), d.rc>>) \o P5(d)
    [] d.k = "publish" -> Bin(d.topic) \o (IF d.qos > 0 THEN IdB(d.id, w) ELSE <<>>) \o P5(d) \o d.payload
    [] d.k \in Acks -> IdB(d.id, w) \o Tail5(d)
    [] d.k = "subscribe" -> IdB(d.id, w) \o P5(d) \o Flat([i \in 1..Len(d.subs) |-> Bin(d.subs[i][1]) \o <<<<d.subs[i][2], 1>>>>])
    [] d.k = "unsubscribe" -> IdB(d.id, w) \o P5(d) \o Flat([i \in 1..Len(d.topics) |-> Bin(d.topics[i])])
    [] d.k \in {"suback", "unsuback"} -> IdB(d.id, w) \o P5(d) \o Lit(d.rcs)
    [] d.k \in {"disconnect", "auth"} -> Tail5(d)
    [] OTHER -> <<>>
Head1(d) == 16 * TypeOf(d.k)
            + (CASE d.k = "publish" -> BoolN(d.dup, 8) + 2 * d.qos + BoolN(d.retain, 1)
                 [] d.k \in {"pubrel", "subscribe", "unsubscribe"} -> 2
                 [] OTHER -> 0)
Encode(d, w) == LET b == Body(d, w) IN Norm(<<<<Head1(d), 1>>>> \o Lit(VbiB(RLen(b))) \o b)

---------------------------------------------------------------------------
(* reason codes, v5.0 section 2.4 and the per-packet tables                *)
Codes(v, k) ==
  CASE v = 3 /\ k = "connack" -> 0..5
    [] v = 3 /\ k = "suback" -> {0, 1, 2, 128}
    [] k = "connack" -> {0} \cup (128..138) \cup {140, 144, 149, 151} \cup (153..157) \cup {159}
    [] k \in {"puback", "pubrec"} -> {0, 16, 128, 131, 135, 144, 145, 151, 153}
    [] k \in {"pubrel", "pubcomp"} -> {0, 146}
    [] k = "suback" -> {0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162}
    [] k = "unsuback" -> {0, 17, 128, 131, 135, 143, 145}
    [] k = "disconnect" -> {0, 4, 128, 129, 130, 131, 135, 137, 139, 141, 142, 143, 144} \cup (147..162)
    [] k = "auth" -> {0, 24, 25}
    [] OTHER -> {}

---------------------------------------------------------------------------
(* text: well-formed UTF-8 without U+0000 (1.5.4), over plain bytes        *)
Cont(b, i) == i <= Len(b) /\ b[i] \in 128..191
RECURSIVE Utf8(_, _)
Utf8(b, i) ==
  IF i > Len(b) THEN TRUE
  ELSE CASE b[i] \in 1..127 -> Utf8(b, i + 1)
         [] b[i] \in 194..223 -> Cont(b, i + 1) /\ Utf8(b, i + 2)
         [] b[i] = 224 -> Cont(b, i + 1) /\ b[i + 1] >= 160 /\ Cont(b, i + 2) /\ Utf8(b, i + 3)
         [] b[i] \in 225..236 \cup {238, 239} -> Cont(b, i + 1) /\ Cont(b, i + 2) /\ Utf8(b, i + 3)
         [] b[i] = 237 -> Cont(b, i + 1) /\ b[i + 1] <= 159 /\ Cont(b, i + 2) /\ Utf8(b, i + 3)
         [] b[i] = 240 -> Cont(b, i + 1) /\ b[i + 1] >= 144 /\ Cont(b, i + 2) /\ Cont(b, i + 3) /\ Utf8(b, i + 4)
         [] b[i] \in 241..243 -> Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3) /\ Utf8(b, i + 4)
         [] b[i] = 244 -> Cont(b, i + 1) /\ b[i + 1] <= 143 /\ Cont(b, i + 2) /\ Cont(b, i + 3) /\ Utf8(b, i + 4)
         [] OTHER -> FALSE
Expand(s) == Flat([i \in 1..Len(s) |-> [j \in 1..s[i][2] |-> s[i][1]]])
(* long runs of one ASCII byte do not change well-formedness *)
Text(s) == Utf8(Expand([i \in 1..Len(s) |-> <<s[i][1], IF s[i][1] \in 1..127 /\ s[i][2] > 4 THEN 4 ELSE s[i][2]>>]), 1)
Short(s) == RLen(s) <= 65535
Topic(s) == ~RHas(s, 35) /\ ~RHas(s, 43)   \* no '#', no '+'
Share == <<36, 115, 104, 97, 114, 101, 47>>
(* v5.0 4.8.2: "$share/" ShareName "/" filter, ShareName non-empty without '/', '+', '#' *)
ShareOk(s) ==
  LET b == Expand(s) IN
  (Len(b) >= 7 /\ SubSeq(b, 1, 7) = Share) =>
     \E p \in 9..Len(b) : b[p] = 47 /\ \A q \in 8..p-1 : b[q] \notin {47, 43, 35}

PropText(p) == CASE Ty(p.i) = "str" -> Text(p.a) [] Ty(p.i) = "pair" -> Text(p.a) /\ Text(p.b) [] OTHER -> TRUE
TextsOk(d) ==
  /\ Text(d.topic) /\ Text(d.cid)
  /\ \A j \in 1..Len(d.props) : PropText(d.props[j])
  /\ (d.will # <<>> => Text(d.will[1].topic) /\ \A j \in 1..Len(d.will[1].props) : PropText(d.will[1].props[j]))
  /\ (d.user # <<>> => Text(d.user[1]))
  /\ \A i \in 1..Len(d.subs) : Text(d.subs[i][1])
  /\ \A i \in 1..Len(d.topics) : Text(d.topics[i])

PropsRule(d) == /\ (d.hp => TableOk(d.props, d.k))
                /\ (d.will # <<>> => TableOk(d.will[1].props, "will"))
OptOk(v, o) == o % 4 <= 2 /\ (o \div 16) % 4 <= 2 /\ o < 64
(* the structural rules of a control packet, as the name of the rule that is broken, "" when none is *)
Broken(d) ==
  CASE WithId(d) /\ d.id = <<0, 0>> -> "packet identifier 0"
    [] d.qos > 2 -> "QoS 3"
    [] d.will # <<>> /\ d.will[1].qos > 2 -> "will QoS 3"
    [] d.k = "publish" /\ ~Topic(d.topic) -> "wildcard in a topic name"
    [] d.k = "publish" /\ d.topic = <<>> /\ ~(d.v = 5 /\ Has(d.props, 35)) -> "no topic name and no topic alias"
    [] d.k \in {"subscribe"} /\ d.subs = <<>> -> "no subscription"
    [] d.k = "unsubscribe" /\ d.topics = <<>> -> "no topic filter"
    [] (d.k = "suback" \/ (d.k = "unsuback" /\ d.v = 5)) /\ d.rcs = <<>> -> "no reason code"
    [] d.k \in {"suback", "unsuback"} /\ \E i \in 1..Len(d.rcs) : d.rcs[i] \notin Codes(d.v, d.k) -> "undefined reason code in the payload"
    [] d.rc >= 0 /\ Codes(d.v, d.k) # {} /\ d.rc \notin Codes(d.v, d.k) -> "undefined reason code"
    [] d.k = "subscribe" /\ \E i \in 1..Len(d.subs) : ~OptOk(d.v, d.subs[i][2]) -> "bad subscription options"
    [] d.v = 5 /\ d.k = "subscribe" /\ \E i \in 1..Len(d.subs) : ~ShareOk(d.subs[i][1]) -> "bad share name"
    [] d.v = 5 /\ ~PropsRule(d) -> "a property that is not permitted here, repeated, or has a forbidden value"
    [] OTHER -> ""
Rules(d) == Broken(d) = ""
(* rules on which the documents leave room or which the library narrows; packets outside are not demanded to be accepted *)
Plain(d) ==
  /\ (d.pass # <<>> => d.user # <<>>)
  /\ TextsOk(d)
  /\ (d.hp => Joint(d.props))
  /\ (d.k = "auth" /\ d.rc >= 0 => d.hp /\ Has(d.props, 21))
  /\ (d.hp /\ d.k \in Acks \cup {"disconnect", "auth"} => d.rc >= 0)
  /\ (d.qos = 0 => ~d.dup /\ (d.k = "publish" => d.id = <<0, 0>>))
  /\ (d.v = 3 => (d.k \in Acks => d.rc < 0) /\ \A i \in 1..Len(d.subs) : d.subs[i][2] <= 2)
  /\ (d.k = "unsubscribe" /\ d.v = 5 => \A i \in 1..Len(d.topics) : ShareOk(d.topics[i]))
  /\ \A i \in 1..Len(d.subs) : d.subs[i][1] # <<>>
  /\ \A i \in 1..Len(d.topics) : d.topics[i] # <<>>
  /\ (d.will # <<>> => d.will[1].topic # <<>> /\ Topic(d.will[1].topic))
  /\ \A j \in 1..Len(d.props) : d.props[j].i = 8 => Topic(d.props[j].a) /\ d.props[j].a # <<>>
  /\ (d.k = "connack" /\ d.sp => d.rc = 0)
  \* No Local on a shared subscription is a protocol error
  /\ (d.k = "subscribe" => \A i \in 1..Len(d.subs) : ((d.subs[i][2] \div 4) % 2 = 1) => Take(d.subs[i][1], 7) # Share)

---------------------------------------------------------------------------
(* Decode: the strict reading of a packet body given as plain bytes.       *)
(* Readers return [p |-> next position, x |-> value]; p = 0 means failure. *)
Bad == [p |-> 0, x |-> 0]
RByte(b, p) == IF p = 0 \/ p > Len(b) THEN Bad ELSE [p |-> p + 1, x |-> b[p]]
RU16(b, p) == IF p = 0 \/ p + 1 > Len(b) THEN Bad ELSE [p |-> p + 2, x |-> b[p] * 256 + b[p + 1]]
RU32(b, p) == IF p = 0 \/ p + 3 > Len(b) THEN [p |-> 0, x |-> <<0, 0>>]
              ELSE [p |-> p + 4, x |-> <<b[p] * 256 + b[p + 1], b[p + 2] * 256 + b[p + 3]>>]
RId(b, p, w) == IF w = 4 THEN RU32(b, p) ELSE LET r == RU16(b, p) IN [p |-> r.p, x |-> <<0, r.x>>]
RBin(b, p) == LET r == RU16(b, p) IN
              IF r.p = 0 \/ r.p + r.x - 1 > Len(b) THEN [p |-> 0, x |-> <<>>]
              ELSE [p |-> r.p + r.x, x |-> Rle(SubSeq(b, r.p, r.p + r.x - 1))]
RStr(b, p) == LET r == RBin(b, p) IN IF r.p # 0 /\ Utf8(SubSeq(b, p + 2, r.p - 1), 1) THEN r ELSE [p |-> 0, x |-> <<>>]
RECURSIVE RVbiAt(_, _, _, _, _)
RVbiAt(b, p, n, m, v) ==
  IF p > Len(b) \/ n = 4 THEN Bad
  ELSE LET x == v + (b[p] % 128) * m IN
       IF b[p] >= 128 THEN (IF n = 3 THEN Bad ELSE RVbiAt(b, p + 1, n + 1, m * 128, x))
       ELSE IF n > 0 /\ b[p] = 0 THEN Bad   \* not the shortest form
       ELSE [p |-> p + 1, x |-> x]
RVbi(b, p) == IF p = 0 THEN Bad ELSE RVbiAt(b, p, 0, 1, 0)
Pr(i, n, a, bb) == [i |-> i, n |-> n, a |-> a, b |-> bb]
RProp(b, p) ==
  LET i == RByte(b, p) IN
  IF i.p = 0 THEN Bad
  ELSE CASE Ty(i.x) = "byte" -> LET r == RByte(b, i.p) IN [p |-> r.p, x |-> Pr(i.x, <<0, r.x>>, <<>>, <<>>)]
         [] Ty(i.x) = "u16" -> LET r == RU16(b, i.p) IN [p |-> r.p, x |-> Pr(i.x, <<0, r.x>>, <<>>, <<>>)]
         [] Ty(i.x) = "u32" -> LET r == RU32(b, i.p) IN [p |-> r.p, x |-> Pr(i.x, r.x, <<>>, <<>>)]
         [] Ty(i.x) = "vbi" -> LET r == RVbi(b, i.p) IN [p |-> r.p, x |-> Pr(i.x, <<r.x \div 65536, r.x % 65536>>, <<>>, <<>>)]
         [] Ty(i.x) = "str" -> LET r == RStr(b, i.p) IN [p |-> r.p, x |-> Pr(i.x, <<0, 0>>, r.x, <<>>)]
         [] Ty(i.x) = "bin" -> LET r == RBin(b, i.p) IN [p |-> r.p, x |-> Pr(i.x, <<0, 0>>, r.x, <<>>)]
         [] Ty(i.x) = "pair" -> LET r == RStr(b, i.p) q == RStr(b, r.p) IN
                                IF r.p = 0 THEN Bad ELSE [p |-> q.p, x |-> Pr(i.x, <<0, 0>>, r.x, q.x)]
         [] OTHER -> Bad
RECURSIVE RPropList(_, _, _)
RPropList(b, p, acc) ==   \* b ends where the properties end
  IF p = Len(b) + 1 THEN [p |-> p, x |-> acc]
  ELSE LET r == RProp(b, p) IN IF r.p = 0 THEN [p |-> 0, x |-> <<>>] ELSE RPropList(b, r.p, Append(acc, r.x))
RProps(b, p) ==
  LET n == RVbi(b, p) IN
  IF n.p = 0 \/ n.p + n.x - 1 > Len(b) THEN [p |-> 0, x |-> <<>>]
  ELSE RPropList(SubSeq(b, 1, n.p + n.x - 1), n.p, <<>>)
RProps5(v, b, p) == IF v = 5 THEN RProps(b, p) ELSE [p |-> p, x |-> <<>>]
RECURSIVE RSubs(_, _, _)
RSubs(b, p, acc) == IF p = Len(b) + 1 THEN [p |-> p, x |-> acc]
                    ELSE LET t == RStr(b, p) o == RByte(b, t.p) IN
                         IF o.p = 0 THEN [p |-> 0, x |-> <<>>] ELSE RSubs(b, o.p, Append(acc, <<t.x, o.x>>))
RECURSIVE RTopics(_, _, _)
RTopics(b, p, acc) == IF p = Len(b) + 1 THEN [p |-> p, x |-> acc]
                      ELSE LET t == RStr(b, p) IN
                           IF t.p = 0 THEN [p |-> 0, x |-> <<>>] ELSE RTopics(b, t.p, Append(acc, t.x))
No == [ok |-> FALSE, d |-> Blank]
Yes(ok, d) == [ok |-> ok, d |-> d]
(* optional reason code and properties at position p to the end *)
RTail(d, b, p) ==
  IF p = 0 THEN No
  ELSE IF p = Len(b) + 1 THEN Yes(TRUE, d)
  ELSE IF p = Len(b) THEN Yes(TRUE, [d EXCEPT !.rc = b[p]])
  ELSE LET r == RProps(b, p + 1) IN Yes(r.p = Len(b) + 1, [d EXCEPT !.rc = b[p], !.hp = TRUE, !.props = r.x])
RawDecode(v, h, b, w) ==
  LET t == h \div 16
      k == IF t = 0 THEN "none" ELSE Kinds[t]
      d0 == [Blank EXCEPT !.v = v, !.k = k] IN
  CASE k = "none" -> No
    [] k = "connect" ->
         IF Len(b) < 10 \/ SubSeq(b, 1, 6) # <<0, 4, 77, 81, 84, 84>> \/ b[7] # (IF v = 5 THEN 5 ELSE 4) THEN No
         ELSE LET f == b[8]
                  bit(n) == (f \div n) % 2 = 1
                  pr == RProps5(v, b, 11)
                  c == RStr(b, pr.p)
                  wp == IF bit(4) THEN RProps5(v, b, c.p) ELSE [p |-> c.p, x |-> <<>>]
                  wt == IF bit(4) THEN RStr(b, wp.p) ELSE [p |-> wp.p, x |-> <<>>]
                  wm == IF bit(4) THEN RBin(b, wt.p) ELSE [p |-> wt.p, x |-> <<>>]
                  u == IF bit(128) THEN RStr(b, wm.p) ELSE [p |-> wm.p, x |-> <<>>]
                  s == IF bit(64) THEN RBin(b, u.p) ELSE [p |-> u.p, x |-> <<>>] IN
              IF pr.p = 0 \/ c.p = 0 \/ wp.p = 0 \/ wt.p = 0 \/ wm.p = 0 \/ u.p = 0 \/ s.p # Len(b) + 1
                 \/ bit(1) \/ (~bit(4) /\ (bit(8) \/ bit(16) \/ bit(32))) \/ (bit(8) /\ bit(16))
              THEN No
              ELSE Yes(TRUE, [d0 EXCEPT !.clean = bit(2), !.ka = b[9] * 256 + b[10], !.hp = (v = 5), !.props = pr.x, !.cid = c.x,
                     !.will = IF bit(4) THEN <<[topic |-> wt.x, payload |-> wm.x, qos |-> (f \div 8) % 4, retain |-> bit(32), props |-> wp.x]>> ELSE <<>>,
                     !.user = IF bit(128) THEN <<u.x>> ELSE <<>>, !.pass = IF bit(64) THEN <<s.x>> ELSE <<>>])
    [] k = "connack" ->
         IF Len(b) < 2 \/ b[1] > 1 THEN No
         ELSE LET r == RProps5(v, b, 3) IN
              Yes(r.p = Len(b) + 1, [d0 EXCEPT !.sp = (b[1] = 1), !.rc = b[2], !.hp = (v = 5), !.props = r.x])
    [] k = "publish" ->
         LET q == (h \div 2) % 4
             t1 == RStr(b, 1)
             i1 == IF q > 0 THEN RId(b, t1.p, w) ELSE [p |-> t1.p, x |-> <<0, 0>>]
             r == RProps5(v, b, i1.p) IN
         IF q = 3 \/ t1.p = 0 \/ i1.p = 0 \/ r.p = 0 THEN No
         ELSE Yes(TRUE, [d0 EXCEPT !.qos = q, !.dup = (h \div 8) % 2 = 1, !.retain = h % 2 = 1, !.topic = t1.x, !.id = i1.x,
                                   !.hp = (v = 5), !.props = r.x, !.payload = Rle(SubSeq(b, r.p, Len(b)))])
    [] k \in Acks ->
         LET i1 == RId(b, 1, w) IN
         IF i1.p = 0 THEN No
         ELSE IF v = 3 THEN Yes(i1.p = Len(b) + 1, [d0 EXCEPT !.id = i1.x])
         ELSE RTail([d0 EXCEPT !.id = i1.x], b, i1.p)
    [] k \in {"subscribe", "unsubscribe", "suback", "unsuback"} ->
         LET i1 == RId(b, 1, w)
             r == RProps5(v, b, i1.p)
             d1 == [d0 EXCEPT !.id = i1.x, !.hp = (v = 5), !.props = r.x] IN
         IF i1.p = 0 \/ r.p = 0 THEN No
         ELSE CASE k = "subscribe" -> LET s == RSubs(b, r.p, <<>>) IN Yes(s.p # 0, [d1 EXCEPT !.subs = s.x])
                [] k = "unsubscribe" -> LET s == RTopics(b, r.p, <<>>) IN Yes(s.p # 0, [d1 EXCEPT !.topics = s.x])
                [] k = "unsuback" /\ v = 3 -> Yes(r.p = Len(b) + 1, d1)
                [] OTHER -> Yes(TRUE, [d1 EXCEPT !.rcs = SubSeq(b, r.p, Len(b))])
    [] k \in {"pingreq", "pingresp"} -> Yes(b = <<>>, d0)
    [] k = "disconnect" -> IF v = 3 THEN Yes(b = <<>>, d0) ELSE RTail(d0, b, 1)
    [] k = "auth" -> IF v = 3 THEN No ELSE RTail(d0, b, 1)
Decode(v, h, b, w) == LET r == RawDecode(v, h, b, w) IN IF r.ok /\ Rules(r.d) THEN r ELSE No
=============================================================================
