---------------------------- MODULE TraceCodec -----------------------------
(***************************************************************************)
(* Judges records of the real builders, serialisers, parsers and accessors *)
(* against Codec. PROP selects the property that is reported.              *)
(***************************************************************************)
EXTENDS Codec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
VARIABLE l
Report(p, msg) == IF p # PROP THEN TRUE ELSE PrintT("VIOL|" \o p \o "|" \o ToString(l) \o "|" \o msg)
Want(p, b, msg) == IF b THEN TRUE ELSE Report(p, msg)

What(d) == "v" \o (IF d.v = 3 THEN "3.1.1 " ELSE "5.0 ") \o d.k
Brief(d) == What(d) \o " " \o ToString([x \in {y \in DOMAIN d : y \notin {"v", "k"} /\ (d[y] # Blank[y])} |-> d[x]])
(* a description as the accessors return it: properties always present where they are mandatory *)
(* the AUTH builder adds the (empty) properties that go with a reason code: same meaning, the longer form *)
Forms(d) == {d} \cup (IF d.k = "auth" /\ d.rc >= 0 /\ ~d.hp THEN {[d EXCEPT !.hp = TRUE]} ELSE {})
Build(L) ==
  LET d == L.d
      ref == Encode(d, L.w)
      hd == Take(L.bytes, 5)
      rl == RVbi(hd, 2)
      table == d.v = 5 /\ PropsRule(d)
  IN
  /\ Want("C02", L.panic = "", "panic in " \o L.panic \o " for " \o Brief(d))
  /\ Want("C05", L.panic = "", "panic in " \o L.panic)
  /\ Assert(L.ref = ref, <<"the harness's reference encoder and Codec.tla disagree", l>>)
  /\ IF ~L.ok \/ L.panic # "" THEN TRUE
     ELSE
     /\ Want("C02", L.vec, What(d) \o ": the vectored serialisation differs from the contiguous one")
     /\ Want("C02", L.size = RLen(L.bytes), What(d) \o ": size() is " \o ToString(L.size) \o " but " \o ToString(RLen(L.bytes)) \o " bytes are produced")
     /\ Want("C02", rl.p # 0 /\ rl.x = RLen(L.bytes) - rl.p + 1, What(d) \o ": Remaining Length on the wire does not match the body: " \o ToString(hd))
     /\ Want("C02", L.pok, "a built packet does not parse (" \o L.perr \o "): " \o Brief(d))
     /\ IF ~L.pok THEN TRUE ELSE
        /\ Want("C02", L.peq, "parsing a built packet yields a different packet: " \o Brief(d))
        /\ Want("C02", rl.p = 0 \/ L.pused = rl.x, What(d) \o ": parsing consumed " \o ToString(L.pused) \o " bytes of the body, which has " \o ToString(rl.x))
        /\ Want("C03", L.pd \in Forms(d), "accessors return other values than were built: " \o Brief(d) \o " read back as " \o Brief(L.pd))
     /\ Want("C03", (d.v = 3 /\ ~Plain(d)) \/ (\E e \in Forms(d) : L.bytes = Encode(e, L.w)), "bytes differ from the specification's for " \o Brief(d) \o ": " \o ToString(L.bytes) \o " expected " \o ToString(ref))
     /\ Want("C18", d.v = 3 \/ table, "the builder accepts properties the table forbids: " \o Brief(d))
  /\ IF L.ok \/ L.panic # "" THEN TRUE
     ELSE Want("C18", ~(L.tag \in {"prop", "prop2", "rand"} /\ L.noise = 0 /\ d.v = 5 /\ Rules(d) /\ Plain(d)), "the builder refuses (" \o L.err \o ") what the table allows: " \o Brief(d))
  (* the parser on the reference encoding of the same values *)
  /\ Want("C18", ~(d.v = 5 /\ ~PropsRule(d) /\ L.rok), "the parser accepts properties the table forbids: " \o Brief(d))
  /\ Want("C18", ~(d.v = 5 /\ L.rok = FALSE /\ Rules(d) /\ Plain(d)), "the parser refuses (" \o L.rerr \o ") what the table allows: " \o Brief(d))
  /\ Want("C18", ~(L.tag \in {"prop", "prop2"} /\ L.rok # L.ok), "builder " \o (IF L.ok THEN "accepts" ELSE "refuses") \o " and parser "
                                           \o (IF L.rok THEN "accepts" ELSE "refuses") \o ": " \o Brief(d))
  /\ Want("C03", ~(~L.rok /\ (L.ok \/ (Rules(d) /\ Plain(d)))) \/ (d.v = 3 /\ ~Plain(d)), "a conformant encoding is refused (" \o L.rerr \o "): " \o Brief(d))

(* the modifiers of a PUBLISH *)
NoAlias(ps) == SelectSeq(ps, LAMBDA q : q.i # 35)
AliasProp(n) == [i |-> 35, n |-> <<0, n>>, a |-> <<>>, b |-> <<>>]
EditOk(L) == L.op \in {"ratat", "aet"} => L.d.topic = <<>> /\ Topic(L.t)
Edited(L) ==
  LET d == L.d IN
  CASE L.op = "dup" -> [d EXCEPT !.dup = (L.n = 1)]
    [] L.op = "ratat" -> [d EXCEPT !.topic = L.t, !.props = NoAlias(@)]
    [] L.op = "rta" -> [d EXCEPT !.props = NoAlias(@)]
    [] L.op = "aet" -> [d EXCEPT !.topic = L.t]
    [] L.op = "rtata" -> [d EXCEPT !.topic = <<>>, !.props = Append(NoAlias(@), AliasProp(L.n))]
    [] OTHER -> [d EXCEPT !.props = Append(NoAlias(@), AliasProp(L.n))]
Edit(L) ==
  LET d == Edited(L)
      name == "modifier " \o L.op \o " of " \o Brief(L.d)
      rl == RVbi(Take(L.bytes, 5), 2) IN
  /\ Want("C02", L.panic = "", "panic in " \o name \o ": " \o L.panic)
  /\ IF L.panic # "" THEN TRUE
     ELSE IF ~L.ok THEN Want("C03", ~EditOk(L), name \o " refused (" \o L.err \o ")")
     ELSE /\ Want("C03", EditOk(L), name \o " accepted")
          /\ Want("C02", L.vec, name \o ": the vectored serialisation differs from the contiguous one")
          /\ Want("C02", L.size = RLen(L.bytes), name \o ": size() is " \o ToString(L.size) \o " but " \o ToString(RLen(L.bytes)) \o " bytes are produced")
          /\ Want("C02", rl.p # 0 /\ rl.x = RLen(L.bytes) - rl.p + 1, name \o ": Remaining Length on the wire does not match the body")
          /\ Want("C02", L.store, name \o ": the stored form disagrees with the packet")
          /\ Want("C03", L.desc = d, name \o ": accessors give " \o Brief(L.desc))
          /\ Want("C03", L.bytes = Encode(d, L.w), name \o ": bytes are " \o ToString(L.bytes))
          /\ Want("C02", ~(Rules(d) /\ Plain(d)) \/ (L.pok /\ L.pd = L.desc /\ L.pused = rl.x), name \o ": the result does not parse back")
Parse(L) ==
  /\ Want("C04", L.panic = "", "panic in " \o L.panic \o " on v" \o ToString(L.v) \o " header " \o ToString(L.h) \o " body " \o ToString(L.body))
  /\ IF L.panic # "" \/ ~L.ok THEN TRUE
     ELSE LET d == L.d what == What(d) \o " (" \o ToString(L.w * 8) \o "-bit identifiers) from " \o ToString(L.body) IN
       /\ Want("C04", L.used <= L.len, "more consumed than given: " \o what)
       /\ Want("C04", L.size = RLen(L.ser) /\ L.vec, "size() is " \o ToString(L.size) \o " for " \o ToString(RLen(L.ser)) \o " serialised bytes: " \o what)
       /\ Want("C04", L.rok /\ L.req, "the serialisation of an accepted packet " \o (IF L.rok THEN "parses to a different packet: " ELSE "does not parse: ") \o what)
       /\ Want("C04", Rules(d), "accepted although it has " \o Broken(d) \o ": " \o what)
       /\ Want("C04", L.bok, "accepted but refused by the builder (" \o L.berr \o "): " \o what)
       /\ Want("C04", ~L.bok \/ L.beq \/ Cardinality(Forms(d)) > 1, "accepted but different from the packet built with the same values: " \o what)
       /\ Want("C18", d.v = 3 \/ PropsRule(d), "the parser accepts properties the table forbids: " \o what)
       /\ Want("C03", L.ser = Encode(d, L.w) \/ (d.v = 3 /\ ~Plain(d)), "bytes differ from the specification's for " \o Brief(d))
  /\ IF L.panic # "" \/ Len(L.raw) # L.len THEN TRUE
     ELSE LET D == Decode(L.v, L.h, L.raw, L.w) IN
       IF ~D.ok THEN TRUE
       ELSE /\ Want("C03", ~L.ok \/ L.d = D.d, "a conformant encoding of " \o Brief(D.d) \o " is read as " \o Brief(L.d))
            /\ Want("C03", L.ok \/ ~Plain(D.d), "a conformant encoding is refused (" \o L.err \o "): " \o Brief(D.d))
            /\ Want("C18", L.ok \/ ~Plain(D.d) \/ D.d.v = 3, "the parser refuses (" \o L.err \o ") what the table allows: " \o Brief(D.d))

(* every body prefix \o s \o suffix, s over the alphabet up to the length: what the strict reading takes, the parser takes, and writes back unchanged *)
Bodies(L) == UNION {{L.prefix \o s \o L.suffix : s \in [1..n -> ToSet(L.alpha)]} : n \in 0..L.len}
SetOf(L) ==
  LET same == ToSet(L.same) other == ToSet(L.other) IN
  /\ \A b \in ToSet(L.panics) : Report("C04", "panic on v" \o ToString(L.v) \o " header " \o ToString(L.h) \o " body " \o ToString(b))
  /\ \A b \in Bodies(L) :
       LET D == Decode(L.v, L.h, b, L.w) IN
       IF ~D.ok \/ b \in same THEN TRUE
       ELSE IF b \in other THEN Report("C03", "a conformant encoding of " \o Brief(D.d) \o " is written back differently: " \o ToString(b))
       ELSE IF Plain(D.d) THEN Want("C03", FALSE, "a conformant encoding is refused: " \o Brief(D.d))
                               /\ Want("C18", D.d.v = 3, "the parser refuses what the table allows: " \o Brief(D.d))
       ELSE TRUE
Piece(L) == Want("C04", FALSE, L.what \o " decoder on " \o ToString(L.raw) \o
                  (IF L.panic # "" THEN " panics: " \o L.panic
                   ELSE ": consumed " \o ToString(L.used) \o " size " \o ToString(L.size) \o " same bytes " \o ToString(L.same)))
(* the decoders below the packet level, each given the same bytes *)
NoNul(b) == [i \in 1..Len(b) |-> IF b[i] = 0 THEN 1 ELSE b[i]]
RStrN(b, p) == LET r == RBin(b, p) IN IF r.p # 0 /\ Utf8(NoNul(SubSeq(b, p + 2, r.p - 1)), 1) THEN r ELSE [p |-> 0, x |-> <<>>]
Dec(L) ==
  LET b == L.raw
      v == RVbi(b, 1)
      s == RStr(b, 1)
      sn == RStrN(b, 1)
      n == RBin(b, 1)
      p == RProp(b, 1)
      ps == RProps(b, 1)
      e == RByte(b, s.p)
      show == ToString(b) IN
  /\ Want("C03", L.int[1] = v.p - 1 \/ (v.p = 0 /\ L.int[1] = -1), "variable byte integer " \o show \o " decoded as " \o ToString(L.int))
  /\ Want("C03", v.p = 0 \/ L.int[1] < 0 \/ L.int[2] = v.x, "variable byte integer " \o show \o " decoded as " \o ToString(L.int))
  /\ Want("C04", L.int[1] < 0 \/ v.p # 0, "a variable byte integer that is not in the shortest form or too long is accepted: " \o show)
  /\ Want("C03", s.p = 0 \/ L.str = s.p - 1, "well-formed string refused or misread: " \o show \o " consumed " \o ToString(L.str))
  /\ Want("C04", L.str < 0 \/ sn.p = L.str + 1, "a string that is not UTF-8 or too short is accepted: " \o show)
  /\ Want("C03", L.bin = n.p - 1 \/ (n.p = 0 /\ L.bin = -1), "binary data " \o show \o " consumed " \o ToString(L.bin))
  /\ Want("C18", ~(p.p # 0 /\ ValueOk(p.x)) \/ L.prop = p.p - 1, "a permitted property is refused: " \o show)
  /\ Want("C18", ~(p.p # 0 /\ ~ValueOk(p.x)) \/ L.prop = -1, "a forbidden property value is accepted: " \o show)
  /\ Want("C03", ~(ps.p # 0 /\ ValsOk(ps.x)) \/ L.props = ps.p - 1, "a permitted property section is refused or misread: " \o show \o " consumed " \o ToString(L.props))
  /\ Want("C18", ~(ps.p # 0 /\ ~ValsOk(ps.x)) \/ L.props = -1, "a property section with a forbidden value is accepted: " \o show)
  /\ Want("C04", L.props < 0 \/ v.p # 0, "a property section with a malformed length is accepted: " \o show)
  /\ Want("C04", L.props < 0 \/ v.p = 0 \/ L.props = v.p - 1 + v.x, "a property section does not end where its length says: " \o show \o " consumed " \o ToString(L.props))
  /\ Want("C03", ~(e.p # 0 /\ OptOk(5, e.x)) \/ L.entry = e.p - 1 \/ s.x = <<>>, "a subscription entry is refused or misread: " \o show)
  /\ Want("C04", ~(e.p # 0 /\ ~OptOk(5, e.x)) \/ L.entry = -1, "a subscription entry with bad options is accepted: " \o show)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET L == Trace[l] IN
           CASE L.k = "build" -> Build(L)
             [] L.k = "edit" -> Edit(L)
             [] L.k = "parse" -> Parse(L)
             [] L.k = "piece" -> Piece(L)
             [] L.k = "dec" -> Dec(L)
             [] L.k = "set" -> SetOf(L)
             [] OTHER -> TRUE
Done == TLCGet("stats").diameter - 1 = Len(Trace)
Spec == Init /\ [][Next]_l
=============================================================================
