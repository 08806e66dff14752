-------------------------------- MODULE Conn --------------------------------
(***************************************************************************)
(* One endpoint of mqtt-protocol-core as an explicit state machine.        *)
(* The library is sequential and deterministic, so the specification is a  *)
(* function: Step(s, c) = [s |-> next state, ev |-> event list, ok, id, x, *)
(* rp] for every state s and call c.  The state record carries everything  *)
(* that may influence a later answer.  Packets are records (see harness    *)
(* conn.rs `pj`): k v id rc sz fp, PUBLISH also q d t tl a op pn xt,       *)
(* CONNECT/CONNACK also cl sp ka tam rm mps sei ska (-1 = absent).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoLimit == 2147483647
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

New(role, ver, w) ==
  [ role |-> role, ver |-> ver, w |-> w,
    used |-> {}, sub |-> {}, uns |-> {}, pa |-> {}, pr |-> {}, pc |-> {}, pl |-> {},
    ns |-> FALSE, store |-> <<>>, off |-> FALSE,
    apub |-> FALSE, aping |-> FALSE, amap |-> FALSE, arep |-> FALSE,
    trm |-> 0, tr |-> <<>>,              \* receive aliases: maximum, sequence of <<alias, topic>>
    tsm |-> 0, ts |-> <<>>, tb |-> <<>>, \* send aliases: maximum, LRU order, binding order
    sm |-> 0, sc |-> 0, rm |-> 0, prv |-> {},
    ms |-> NoLimit, mr |-> NoLimit, st |-> "D", isc |-> FALSE,
    ui |-> -1, ka |-> 0, ska |-> -1, rt |-> 0, rsp |-> 0,
    h |-> {}, tps |-> FALSE, tpr |-> FALSE, tpp |-> FALSE ]

(* ------------------------------ events --------------------------------- *)
ESend(p, rel) == [e |-> "send", p |-> p, rel |-> rel]
ERecv(p) == [e |-> "recv", p |-> p]
ERel(i) == [e |-> "rel", id |-> i]
EReset(t, ms) == [e |-> "treset", t |-> t, ms |-> ms]
ECancel(t) == [e |-> "tcancel", t |-> t]
EErr(x) == [e |-> "err", x |-> x]
EClose == [e |-> "close"]

R(s, ev) == [s |-> s, ev |-> ev, ok |-> FALSE, id |-> 0, x |-> "", rp |-> <<>>]
(* r, then the events ev in the state s2 *)
Then(r, r2) == [r2 EXCEPT !.ev = r.ev \o @]

(* --------------------------- packets made here -------------------------- *)
Ctl(s, k, id, rc) == [k |-> k, v |-> s.ver, id |-> id, rc |-> rc, fp |-> "",
                      sz |-> (IF k \in {"puback", "pubrec", "pubrel", "pubcomp"} THEN 2 + s.w ELSE 2)
                             + (IF rc >= 0 THEN 1 ELSE 0)]
RefusingConnack(s, rc) == [k |-> "connack", v |-> s.ver, id |-> 0, rc |-> rc, sp |-> FALSE, fp |-> "*",
                           sz |-> IF s.ver = 5 THEN 5 ELSE 4]

VbiLen(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE IF n < 2097152 THEN 3 ELSE 4
(* encoded size of PUBLISH p with topic length tl and alias a *)
PubSize(s, p, tl, a) ==
  LET pl == p.op + (IF a > 0 THEN 3 ELSE 0)
      rl == 2 + tl + (IF p.q > 0 THEN s.w ELSE 0) + (IF p.v = 5 THEN VbiLen(pl) + pl ELSE 0) + p.pn
  IN 1 + VbiLen(rl) + rl
(* p with topic t (length tl), alias a, dup d *)
Pub(s, p, t, tl, a, d) == [p EXCEPT !.t = t, !.tl = tl, !.a = a, !.d = d, !.sz = PubSize(s, p, tl, a)]

(* ------------------------------- aliases -------------------------------- *)
Bind(seq, a, t) == Append(SelectSeq(seq, LAMBDA x : x[1] # a), <<a, t>>)
Lookup(seq, a) == LET m == SelectSeq(seq, LAMBDA x : x[1] = a) IN IF m = <<>> THEN "" ELSE m[1][2]
FindTopic(seq, t) == LET m == SelectSeq(seq, LAMBDA x : x[2] = t) IN IF m = <<>> THEN 0 ELSE m[1][1]
TLen(seq, a) == LET m == SelectSeq(seq, LAMBDA x : x[1] = a) IN IF m = <<>> THEN 0 ELSE m[1][3]
SendBind(s, a, t, tl) ==
  [s EXCEPT !.ts = Append(SelectSeq(@, LAMBDA x : x[1] # a), <<a, t, tl>>),
            !.tb = Append(SelectSeq(@, LAMBDA x : x[1] # a), <<a, t, tl>>)]
Touch(s, a) ==
  LET m == SelectSeq(s.ts, LAMBDA x : x[1] = a)
  IN IF m = <<>> THEN s ELSE [s EXCEPT !.ts = Append(SelectSeq(@, LAMBDA x : x[1] # a), m[1])]
SendKnows(s, a) == a \in 1..s.tsm /\ Lookup(s.ts, a) # ""
LruAlias(s) ==
  LET taken == { s.ts[i][1] : i \in 1..Len(s.ts) }
  IN IF Cardinality(taken) < s.tsm
     THEN CHOOSE a \in 1..(Cardinality(taken) + 1) : a \notin taken /\ \A b \in 1..(a - 1) : b \in taken
     ELSE s.ts[1][1]

(* ------------------------------- helpers -------------------------------- *)
CancelTimers(s) ==
  R([s EXCEPT !.tps = FALSE, !.tpr = FALSE, !.tpp = FALSE],
    (IF s.tps THEN <<ECancel("ps")>> ELSE <<>>) \o (IF s.tpr THEN <<ECancel("pr")>> ELSE <<>>)
    \o (IF s.tpp THEN <<ECancel("pp")>> ELSE <<>>))

PingInterval(s) == IF s.ui >= 0 THEN s.ui ELSE IF s.ska >= 0 THEN s.ska ELSE s.ka
Post(s) == IF s.isc /\ PingInterval(s) > 0
           THEN R([s EXCEPT !.tps = TRUE], <<EReset("ps", PingInterval(s))>>)
           ELSE R(s, <<>>)
(* request p for sending, then re-arm *)
SendPost(s, p, rel) == Then(R(s, <<ESend(p, rel)>>), Post(s))

Refresh(s) == IF s.rt # 0 /\ s.st # "D" THEN R([s EXCEPT !.tpr = TRUE], <<EReset("pr", s.rt)>>) ELSE R(s, <<>>)
(* events of r, then refresh, then notify p *)
RefreshNotify(r, p) == LET f == Refresh(r.s) IN R(f.s, r.ev \o f.ev \o <<ERecv(p)>>)

RelIf(s, id) == IF id \in s.used THEN R([s EXCEPT !.used = @ \ {id}], <<ERel(id)>>) ELSE R(s, <<>>)
(* a released identifier no longer stands for a request that waits for its answer (a stored PUBLISH does) *)
Release(s, id) ==
  IF id \notin s.used THEN R(s, <<>>)
  ELSE RelIf([s EXCEPT !.sub = @ \ {id}, !.uns = @ \ {id}, !.pa = IF s.ns THEN @ ELSE @ \ {id},
                       !.pr = IF s.ns THEN @ ELSE @ \ {id}], id)
Refuse(s, x, id) == Then(R(s, <<EErr(x)>>), Release(s, id))
Err(s, x) == R(s, <<EErr(x)>>)

ClearStore(s) == [s EXCEPT !.used = {}, !.pa = {}, !.pr = {}, !.pc = {}, !.pl = {}, !.store = <<>>, !.h = {}]
Init0(s, isc) == [s EXCEPT !.sm = 0, !.rm = 0, !.sc = 0, !.tsm = 0, !.ts = <<>>, !.tb = <<>>, !.trm = 0, !.tr = <<>>,
                           !.prv = {}, !.ns = FALSE, !.sub = {}, !.uns = {}, !.isc = isc,
                           !.ka = 0, !.ska = -1, !.rt = 0]
HasStored(s, id) == \E i \in 1..Len(s.store) : s.store[i].id = id
IsStoredPublish(p) == p.k = "publish"
ErasePublish(s, id) == [s EXCEPT !.store = SelectSeq(@, LAMBDA p : ~(p.id = id /\ p.k = "publish"))]
EraseByAck(s, id, ack) ==
  [s EXCEPT !.store = SelectSeq(@, LAMBDA p :
      ~( p.id = id /\ \/ ack = "puback" /\ p.k = "publish" /\ p.q = 1
                      \/ ack = "pubrec" /\ p.k = "publish" /\ p.q = 2
                      \/ ack = "pubcomp" /\ p.k = "pubrel"))]
(* what is retransmitted when the session is present *)
SendStored(s) ==
  LET big == { i \in 1..Len(s.store) : s.store[i].sz > s.ms }
      bigids == { s.store[i].id : i \in big }
      keep == SelectSeq(s.store, LAMBDA p : p.sz <= s.ms)
      ev == [ i \in 1..Len(s.store) |->
                IF s.store[i].sz > s.ms
                THEN IF s.store[i].id \in s.used THEN <<ERel(s.store[i].id)>> ELSE <<>>
                ELSE <<ESend(s.store[i], 0)>> ]
      RECURSIVE Cat(_)
      Cat(i) == IF i > Len(ev) THEN <<>> ELSE ev[i] \o Cat(i + 1)
  IN R([s EXCEPT !.store = keep, !.pa = @ \ bigids, !.pr = @ \ bigids, !.pc = @ \ bigids, !.used = @ \ bigids,
                 !.sc = Min2(65535, Cardinality(s.pl) + Len(keep))], Cat(1))

(* ------------------------------ DISCONNECT ------------------------------ *)
SendDisconnect(s, p) ==
  IF s.ver = 5 /\ p.sz > s.ms THEN Err(s, "PacketTooLarge")
  ELSE IF s.st # "C" THEN Err(s, "PacketNotAllowedToSend")
  ELSE LET c == CancelTimers([s EXCEPT !.st = "D"]) IN R(c.s, c.ev \o <<ESend(p, 0), EClose>>)

ErrCode(x) ==
  CASE x = "MalformedPacket" -> 129 [] x = "ProtocolError" -> 130 [] x = "ReceiveMaximumExceeded" -> 147
    [] x = "TopicAliasInvalid" -> 148 [] x = "PacketTooLarge" -> 149 [] x = "TopicNameInvalid" -> 144
    [] x = "TopicFilterInvalid" -> 143 [] x = "KeepAliveTimeout" -> 141
    [] OTHER -> -2     \* reason code not prescribed here
HandleErr(s, x) ==
  IF s.ver = 3 THEN R(s, <<EClose, EErr(x)>>)
  ELSE LET d == SendDisconnect(s, Ctl(s, "disconnect", 0, IF ErrCode(x) = -2 THEN 128 ELSE ErrCode(x)))
           d2 == IF ErrCode(x) # -2 THEN d
                 ELSE [d EXCEPT !.ev = [i \in DOMAIN @ |-> IF @[i].e = "send" THEN [@[i] EXCEPT !.p.rc = -2] ELSE @[i]]]
       IN R(d2.s, d2.ev \o <<EErr(x)>>)

(* -------------------------------- CONNECT ------------------------------- *)
SendConnect(s, p) ==
  IF p.v = 5 /\ p.sz > s.ms THEN Err(s, "PacketTooLarge")
  ELSE IF s.st # "D" THEN Err(s, "PacketNotAllowedToSend")
  ELSE LET a == [Init0(s, TRUE) EXCEPT !.st = "G", !.ka = p.ka * 1000]
           b == IF p.cl THEN ClearStore(a) ELSE a
           c == IF p.v = 3 THEN [b EXCEPT !.ns = ~p.cl]
                ELSE [b EXCEPT !.trm = IF p.tam > 0 THEN p.tam ELSE 0,
                               !.rm = IF p.rm > 0 THEN p.rm ELSE 0,
                               !.mr = IF p.mps > 0 THEN p.mps ELSE @,
                               !.ns = p.sei > 0]
       IN SendPost(c, p, 0)

RecvConnect(s, c) ==
  IF s.st # "D" THEN HandleErr(s, "ProtocolError")
  ELSE IF c.perr # ""
  THEN LET rc == IF s.ver = 5
                 THEN (CASE c.perr = "ClientIdentifierNotValid" -> 133 [] c.perr = "BadUserNameOrPassword" -> 134
                         [] c.perr = "UnsupportedProtocolVersion" -> 132 [] OTHER -> 128)
                 ELSE (CASE c.perr = "ClientIdentifierNotValid" -> 2 [] c.perr = "BadUserNameOrPassword" -> 4
                         [] c.perr = "UnsupportedProtocolVersion" -> 1 [] OTHER -> 5)
           k == RefusingConnack(s, rc)
           t == CancelTimers([s EXCEPT !.st = "D"])
       IN IF s.ver = 5 /\ k.sz > s.ms THEN R([s EXCEPT !.st = "G"], <<EErr("PacketTooLarge"), EErr(c.perr)>>)
          ELSE R(t.s, <<ESend(k, 0)>> \o t.ev \o <<EClose, EErr(c.perr)>>)
  ELSE LET p == c.p
           a == [Init0(s, FALSE) EXCEPT !.st = "G", !.rt = p.ka * 1500]
           b == IF p.cl THEN ClearStore(a) ELSE a
           d == IF p.v = 3 THEN [b EXCEPT !.ns = ~p.cl]
                ELSE [b EXCEPT !.tsm = IF p.tam > 0 THEN p.tam ELSE 0,
                               !.sm = IF p.rm > 0 THEN p.rm ELSE 0,
                               !.ms = IF p.mps > 0 THEN p.mps ELSE @,
                               !.ns = p.sei > 0]
       IN RefreshNotify(R(d, <<>>), p)

(* -------------------------------- CONNACK ------------------------------- *)
SendConnack(s, p) ==
  IF p.v = 5 /\ p.sz > s.ms THEN Err(s, "PacketTooLarge")
  ELSE IF s.st # "G" THEN Err(s, "PacketNotAllowedToSend")
  ELSE IF p.rc # 0
  THEN LET t == CancelTimers([s EXCEPT !.st = "D"]) IN R(t.s, <<ESend(p, 0)>> \o t.ev \o <<EClose>>)
  ELSE LET a == IF p.v = 3 THEN R(s, <<>>)
                ELSE LET b == [s EXCEPT !.trm = IF p.tam > 0 THEN p.tam ELSE @,
                                        !.tr = IF p.tam > 0 THEN <<>> ELSE @,
                                        !.rm = IF p.rm > 0 THEN p.rm ELSE @,
                                        !.mr = IF p.mps > 0 THEN p.mps ELSE @]
                     IN IF p.ska < 0 THEN R(b, <<>>)
                        ELSE IF p.ska = 0
                        THEN R([b EXCEPT !.tpr = FALSE, !.rt = 0], IF b.tpr THEN <<ECancel("pr")>> ELSE <<>>)
                        ELSE R([b EXCEPT !.tpr = TRUE, !.rt = p.ska * 1500], <<EReset("pr", p.ska * 1500)>>)
           d == [a.s EXCEPT !.st = "C"]
           f == IF p.sp THEN SendStored(d) ELSE R(ClearStore(d), <<>>)
           g == Post(f.s)
       IN R(g.s, a.ev \o <<ESend(p, 0)>> \o f.ev \o g.ev)

RecvConnack(s, c) ==
  IF s.st = "C" THEN HandleErr(s, "ProtocolError")
  ELSE IF c.perr # "" THEN (IF s.ver = 3 THEN HandleErr(s, c.perr) ELSE Err(s, c.perr))
  ELSE IF c.p.rc # 0 THEN R(s, <<ERecv(c.p)>>)
  ELSE LET p == c.p
           a == [s EXCEPT !.st = "C"]
           b == IF p.v = 3 THEN R(a, <<>>)
                ELSE LET b0 == [a EXCEPT !.tsm = IF p.tam > 0 THEN p.tam ELSE @,
                                         !.ts = IF p.tam > 0 THEN <<>> ELSE @,
                                         !.tb = IF p.tam > 0 THEN <<>> ELSE @,
                                         !.sm = IF p.rm > 0 THEN p.rm ELSE @,
                                         !.ms = IF p.mps > 0 THEN p.mps ELSE @,
                                         !.ska = IF p.ska >= 0 THEN p.ska * 1000 ELSE @]
                         b1 == IF p.sei < 0 THEN b0 ELSE IF p.sei = 0 THEN ClearStore([b0 EXCEPT !.ns = FALSE])
                               ELSE [b0 EXCEPT !.ns = TRUE]
                     IN IF p.ska < 0 \/ s.ui >= 0 THEN R(b1, <<>>)
                        ELSE IF p.ska = 0 THEN R([b1 EXCEPT !.tps = FALSE], IF b1.tps THEN <<ECancel("ps")>> ELSE <<>>)
                        ELSE R([b1 EXCEPT !.tps = TRUE], <<EReset("ps", p.ska * 1000)>>)
           d == IF p.sp
                THEN LET f == SendStored(b.s) IN IF f.ev = <<>> THEN f ELSE Then(f, Post(f.s))
                ELSE R(ClearStore(b.s), <<>>)
       IN R(d.s, b.ev \o d.ev \o <<ERecv(p)>>)

(* -------------------------------- PUBLISH ------------------------------- *)
CanStore(s) == s.ns /\ (s.st # "D" \/ s.off)

(* second half: alias handling and the send request. s: state after bookkeeping, rel: id for a send error *)
PublishAlias(s, p, rel, validated) ==
  LET fail == LET e == Err(s, "PacketNotAllowedToSend")
              IN IF p.id # 0 /\ p.id \in s.used
                 THEN R([ErasePublish(s, p.id) EXCEPT !.used = @ \ {p.id}, !.pa = @ \ {p.id}, !.pr = @ \ {p.id}],
                        <<EErr("PacketNotAllowedToSend"), ERel(p.id)>>)
                 ELSE e
      go(z, pk) == IF z.st # "C" THEN R(z, <<>>)
                   ELSE SendPost(IF p.id # 0 /\ z.sm > 0 THEN [z EXCEPT !.sc = @ + 1] ELSE z, pk, rel)
      found == FindTopic(s.tb, p.t)
      short == Pub(s, p, "", 0, found, p.d)
      lru == LruAlias(s)
      long == Pub(s, p, p.t, p.tl, lru, p.d)
  IN IF p.v = 3 THEN go(s, p)
     ELSE IF p.t = ""
     THEN IF validated THEN go(s, p)
          ELSE IF SendKnows(s, p.a) THEN go(Touch(s, p.a), p) ELSE fail
     ELSE IF p.a > 0
     THEN IF p.a \in 1..s.tsm THEN go(IF s.st = "C" THEN SendBind(s, p.a, p.t, p.tl) ELSE s, p) ELSE fail
     ELSE IF s.st # "C" \/ s.tsm = 0 \/ ~(s.amap \/ s.arep) THEN go(s, p)
     ELSE IF found # 0 THEN go(s, IF short.sz <= s.ms THEN short ELSE p)
     ELSE IF s.amap /\ long.sz <= s.ms THEN go(SendBind(s, lru, p.t, p.tl), long)
     ELSE go(s, p)

SendPublish(s, p) ==
  IF p.v = 5 /\ p.sz > s.ms THEN Refuse(s, "PacketTooLarge", p.id)
  ELSE IF p.q = 0
  THEN (IF s.st # "C" THEN Err(s, "PacketNotAllowedToSend") ELSE PublishAlias(s, p, 0, FALSE))
  ELSE IF s.st # "C" /\ ~CanStore(s) THEN Refuse(s, "PacketNotAllowedToSend", p.id)
  ELSE IF p.id \notin s.used THEN Err(s, "PacketIdentifierInvalid")
  ELSE IF p.v = 5 /\ s.st = "C" /\ s.sm > 0 /\ s.sc >= s.sm THEN Refuse(s, "ReceiveMaximumExceeded", p.id)
  ELSE LET mark(z) == IF p.q = 2 THEN [z EXCEPT !.pr = @ \cup {p.id}] ELSE [z EXCEPT !.pa = @ \cup {p.id}]
       IN IF CanStore(s)
          THEN IF p.v = 5 /\ p.t = ""
               THEN IF ~SendKnows(s, p.a) THEN Refuse(s, "PacketNotAllowedToSend", p.id)
                    ELSE LET t == Lookup(s.ts, p.a)
                             z == Touch(s, p.a)
                             sp == Pub(s, p, t, TLen(s.ts, p.a), 0, TRUE)
                         IN IF sp.sz > s.ms THEN Refuse(z, "PacketTooLarge", p.id)   \* could not be retransmitted
                            ELSE PublishAlias(mark([z EXCEPT !.store = Append(@, sp)]), p, 0, TRUE)
               ELSE PublishAlias(mark([s EXCEPT !.store = Append(@, Pub(s, p, p.t, p.tl, 0, TRUE))]), p, 0, FALSE)
          ELSE PublishAlias(mark(s), p, p.id, FALSE)

RecvPublish3(s, c) ==
  IF c.perr # "" THEN HandleErr(s, c.perr)
  ELSE LET p == c.p
           auto == s.apub /\ s.st = "C"
       IN IF p.q = 0 THEN RefreshNotify(R(s, <<>>), p)
          ELSE IF p.q = 1 THEN RefreshNotify(IF auto THEN SendPost(s, Ctl(s, "puback", p.id, -1), 0) ELSE R(s, <<>>), p)
          ELSE LET dup == p.id \in s.h
                   z == [s EXCEPT !.h = @ \cup {p.id}]
                   a == IF s.st = "C" /\ (s.apub \/ dup) THEN SendPost(z, Ctl(s, "pubrec", p.id, -1), 0) ELSE R(z, <<>>)
               IN IF dup THEN Then(a, Refresh(a.s)) ELSE RefreshNotify(a, p)

(* automatic v5.0 response, dropped with an error when it exceeds the peer's maximum packet size *)
AutoAck(s, k, id, rc) ==
  LET p == Ctl(s, k, id, rc)
  IN IF s.ver = 5 /\ p.sz > s.ms THEN Err(s, "PacketTooLarge")
     ELSE SendPost(IF s.ver = 5 /\ k \in {"puback", "pubcomp"} THEN [s EXCEPT !.prv = @ \ {id}] ELSE s, p, 0)

RecvPublish5(s, c) ==
  IF c.perr # "" THEN (IF s.st = "C" THEN HandleErr(s, c.perr) ELSE Err(s, c.perr))
  ELSE LET p == c.p IN
    IF p.a # 0 /\ p.a \notin 1..s.trm THEN HandleErr(s, "TopicAliasInvalid")
    ELSE IF p.t = "" /\ (p.a = 0 \/ Lookup(s.tr, p.a) = "") THEN HandleErr(s, "TopicAliasInvalid")
    ELSE LET pp == IF p.t = "" THEN [p EXCEPT !.t = Lookup(s.tr, p.a), !.xt = TRUE] ELSE p
             z == IF p.t # "" /\ p.a # 0 THEN [s EXCEPT !.tr = Bind(@, p.a, p.t)] ELSE s
         IN IF p.q > 0 /\ s.rm > 0 /\ Cardinality(s.prv) >= s.rm /\ p.id \notin s.prv
            THEN HandleErr(z, "ReceiveMaximumExceeded")
            ELSE IF p.q = 0 THEN RefreshNotify(R(z, <<>>), pp)
            ELSE IF p.q = 1
            THEN LET y == [z EXCEPT !.prv = @ \cup {p.id}]
                 IN RefreshNotify(IF s.apub /\ s.st = "C" THEN AutoAck(y, "puback", p.id, -1) ELSE R(y, <<>>), pp)
            ELSE LET dup == p.id \in s.h
                     y == [z EXCEPT !.prv = @ \cup {p.id}, !.h = @ \cup {p.id}]
                     a == IF s.st = "C" /\ (s.apub \/ dup) THEN AutoAck(y, "pubrec", p.id, -1) ELSE R(y, <<>>)
                 IN IF dup THEN Then(a, Refresh(a.s)) ELSE RefreshNotify(a, pp)

(* ------------------------- acknowledgements: sending --------------------- *)
SendAck(s, p) == \* PUBACK PUBREC PUBCOMP
  IF p.v = 5 /\ p.sz > s.ms THEN Err(s, "PacketTooLarge")
  ELSE IF s.st # "C" THEN Err(s, "PacketNotAllowedToSend")
  ELSE IF p.v = 3 THEN SendPost(s, p, 0)
  ELSE IF p.k \in {"puback", "pubcomp"} THEN SendPost([s EXCEPT !.prv = @ \ {p.id}], p, 0)
  ELSE IF p.rc >= 128 THEN SendPost([s EXCEPT !.prv = @ \ {p.id}, !.h = @ \ {p.id}], p, 0)
  ELSE SendPost(s, p, 0)

SendPubrel(s, p) ==
  IF p.v = 5 /\ p.sz > s.ms THEN Err(s, "PacketTooLarge")
  ELSE IF s.st # "C" /\ ~s.ns THEN Err(s, "PacketNotAllowedToSend")
  ELSE IF p.id \notin s.used THEN Err(s, "PacketIdentifierInvalid")
  ELSE LET z == [s EXCEPT !.store = IF s.ns THEN Append(@, p) ELSE @, !.pl = @ \ {p.id}, !.pc = @ \cup {p.id}]
       IN IF s.st = "C" THEN SendPost(z, p, 0) ELSE R(z, <<>>)

(* ------------------------ acknowledgements: receiving -------------------- *)
DecCount(s) == IF s.ver = 5 /\ s.sm > 0 /\ s.sc > 0 THEN [s EXCEPT !.sc = @ - 1] ELSE s

RecvPuback(s, c) ==
  IF c.perr # "" THEN HandleErr(s, c.perr)
  ELSE IF c.p.id \notin s.pa THEN HandleErr(s, "ProtocolError")
  ELSE LET z == EraseByAck([s EXCEPT !.pa = @ \ {c.p.id}], c.p.id, "puback")
           r == RelIf(z, c.p.id)
       IN RefreshNotify(R(DecCount(r.s), r.ev), c.p)

RecvPubrec(s, c) ==
  IF c.perr # "" THEN HandleErr(s, c.perr)
  ELSE IF c.p.id \notin s.pr THEN HandleErr(s, "ProtocolError")
  ELSE LET z == EraseByAck([s EXCEPT !.pr = @ \ {c.p.id}], c.p.id, "pubrec")
       IN IF s.ver = 5 /\ c.p.rc >= 128
          THEN LET r == RelIf(z, c.p.id) IN RefreshNotify(R(DecCount(r.s), r.ev), c.p)
          ELSE LET y == [z EXCEPT !.pl = @ \cup {c.p.id}]
                   a == IF s.apub /\ (s.st = "C" \/ s.ns) THEN SendPubrel(y, Ctl(y, "pubrel", c.p.id, -1)) ELSE R(y, <<>>)
               IN RefreshNotify(a, c.p)

RecvPubrel(s, c) ==
  IF c.perr # "" THEN HandleErr(s, c.perr)
  ELSE LET z == [s EXCEPT !.h = @ \ {c.p.id}]
           a == IF s.apub /\ s.st = "C"
                THEN AutoAck(z, "pubcomp", c.p.id, IF s.ver = 5 /\ c.p.id \notin s.h THEN 146 ELSE -1)
                ELSE R(z, <<>>)
       IN RefreshNotify(a, c.p)

RecvPubcomp(s, c) ==
  IF c.perr # "" THEN HandleErr(s, c.perr)
  ELSE IF c.p.id \notin s.pc THEN HandleErr(s, "ProtocolError")
  ELSE LET z == EraseByAck([s EXCEPT !.pc = @ \ {c.p.id}], c.p.id, "pubcomp")
           r == RelIf(z, c.p.id)
       IN RefreshNotify(R(DecCount(r.s), r.ev), c.p)

(* ------------------------ (UN)SUBSCRIBE and their acks ------------------- *)
SendSub(s, p) ==
  IF p.v = 5 /\ p.sz > s.ms THEN Refuse(s, "PacketTooLarge", p.id)
  ELSE IF s.st # "C" THEN Refuse(s, "PacketNotAllowedToSend", p.id)
  ELSE IF p.id \notin s.used THEN Err(s, "PacketIdentifierInvalid")
  ELSE SendPost(IF p.k = "subscribe" THEN [s EXCEPT !.sub = @ \cup {p.id}] ELSE [s EXCEPT !.uns = @ \cup {p.id}], p, p.id)

RecvSuback(s, c) ==
  IF c.perr # "" THEN HandleErr(s, c.perr)
  ELSE IF c.p.id \notin (IF c.p.k = "suback" THEN s.sub ELSE s.uns) THEN HandleErr(s, "ProtocolError")
  ELSE LET z == IF c.p.k = "suback" THEN [s EXCEPT !.sub = @ \ {c.p.id}] ELSE [s EXCEPT !.uns = @ \ {c.p.id}]
       IN RefreshNotify(RelIf(z, c.p.id), c.p)

(* ------------------------------- the rest ------------------------------- *)
SendPlain(s, p) == \* SUBACK UNSUBACK PINGRESP
  IF p.v = 5 /\ p.sz > s.ms THEN Err(s, "PacketTooLarge")
  ELSE IF s.st # "C" THEN Err(s, "PacketNotAllowedToSend")
  ELSE SendPost(s, p, 0)
SendAuth(s, p) ==
  IF p.sz > s.ms THEN Err(s, "PacketTooLarge")
  ELSE IF s.st = "D" THEN Err(s, "PacketNotAllowedToSend")
  ELSE SendPost(s, p, 0)
SendPingreq(s, p) ==
  IF p.v = 5 /\ p.sz > s.ms THEN Err(s, "PacketTooLarge")
  ELSE IF s.st # "C" THEN Err(s, "PacketNotAllowedToSend")
  ELSE LET z == IF s.rsp # 0 THEN R([s EXCEPT !.tpp = TRUE], <<EReset("pp", s.rsp)>>) ELSE R(s, <<>>)
           q == Post(z.s)
       IN R(q.s, <<ESend(p, 0)>> \o z.ev \o q.ev)
RecvPlain(s, c) == IF c.perr # "" THEN HandleErr(s, c.perr) ELSE RefreshNotify(R(s, <<>>), c.p)
RecvPingreq(s, c) ==
  IF c.perr # "" THEN HandleErr(s, c.perr)
  ELSE LET p == Ctl(s, "pingresp", 0, -1)
           a == IF s.role # "c" /\ ~s.isc /\ s.aping /\ s.st = "C"
                THEN SendPlain(s, p) ELSE R(s, <<>>)
       IN RefreshNotify(a, c.p)
RecvPingresp(s, c) ==
  IF c.perr # "" THEN HandleErr(s, c.perr)
  ELSE R([s EXCEPT !.tpp = FALSE], (IF s.tpp THEN <<ECancel("pp")>> ELSE <<>>) \o <<ERecv(c.p)>>)
RecvDisconnect(s, c) ==
  IF c.perr # "" THEN HandleErr(s, c.perr)
  ELSE LET t == CancelTimers(s) IN R(t.s, t.ev \o <<ERecv(c.p)>>)

(* ------------------------------ send dispatch --------------------------- *)
RoleMaySend(role, v, k) ==
  \/ role = "a"
  \/ k \in {"publish", "puback", "pubrec", "pubrel", "pubcomp", "auth"}
  \/ k = "disconnect" /\ (v = 5 \/ role = "c")
  \/ role = "c" /\ k \in {"connect", "subscribe", "unsubscribe", "pingreq"}
  \/ role = "s" /\ k \in {"connack", "suback", "unsuback", "pingresp"}
OwnsId(k) == k \in {"publish", "subscribe", "unsubscribe"}
Send(s, p) ==
  IF p.v # s.ver THEN (IF OwnsId(p.k) /\ p.id # 0 THEN Refuse(s, "VersionMismatch", p.id) ELSE Err(s, "VersionMismatch"))
  ELSE IF ~RoleMaySend(s.role, p.v, p.k)
  THEN (IF OwnsId(p.k) THEN Refuse(s, "PacketNotAllowedToSend", p.id) ELSE Err(s, "PacketNotAllowedToSend"))
  ELSE CASE p.k = "connect" -> SendConnect(s, p)
         [] p.k = "connack" -> SendConnack(s, p)
         [] p.k = "publish" -> SendPublish(s, p)
         [] p.k \in {"puback", "pubrec", "pubcomp"} -> SendAck(s, p)
         [] p.k = "pubrel" -> SendPubrel(s, p)
         [] p.k \in {"subscribe", "unsubscribe"} -> SendSub(s, p)
         [] p.k \in {"suback", "unsuback", "pingresp"} -> SendPlain(s, p)
         [] p.k = "pingreq" -> SendPingreq(s, p)
         [] p.k = "disconnect" -> SendDisconnect(s, p)
         [] p.k = "auth" -> SendAuth(s, p)

(* ---------------------------- receive dispatch -------------------------- *)
(* packet types (numbers of the standard) a role never receives *)
NeverReceives(role, ver, ty) ==
  \/ role = "c" /\ (ty \in {1, 8, 10, 12} \/ (ver = 3 /\ ty \in {14, 15}))
  \/ role = "s" /\ (ty \in {2, 9, 11, 13} \/ (ver = 3 /\ ty = 15))

RecvTyped(s, c) ==
  CASE c.ty = 1 -> RecvConnect(s, c)
    [] c.ty = 2 -> RecvConnack(s, c)
    [] c.ty = 3 -> IF s.ver = 3 THEN RecvPublish3(s, c) ELSE RecvPublish5(s, c)
    [] c.ty = 4 -> RecvPuback(s, c)
    [] c.ty = 5 -> RecvPubrec(s, c)
    [] c.ty = 6 -> RecvPubrel(s, c)
    [] c.ty = 7 -> RecvPubcomp(s, c)
    [] c.ty \in {8, 10} -> RecvPlain(s, c)
    [] c.ty \in {9, 11} -> RecvSuback(s, c)
    [] c.ty = 12 -> RecvPingreq(s, c)
    [] c.ty = 13 -> RecvPingresp(s, c)
    [] c.ty = 14 -> RecvDisconnect(s, c)
    [] c.ty = 15 /\ s.ver = 5 -> RecvPlain(s, c)
    [] OTHER -> Err(s, "MalformedPacket")

Recv(s, c) ==
  IF c.bad THEN LET t == CancelTimers(s) IN R(t.s, t.ev \o <<EClose, EErr("MalformedPacket")>>)
  ELSE IF c.sz > s.mr
  THEN LET d == SendDisconnect(s, Ctl([s EXCEPT !.ver = 5], "disconnect", 0, 149)) IN R(d.s, d.ev \o <<EErr("PacketTooLarge")>>)
  ELSE IF NeverReceives(s.role, s.ver, c.ty) THEN Err(s, "ProtocolError")
  ELSE IF s.ver # 0 THEN RecvTyped(s, c)
  ELSE IF c.ty # 1 \/ c.rl < 7 THEN Err(s, "MalformedPacket")
  ELSE IF c.lvl \notin {4, 5} THEN Err(s, "UnsupportedProtocolVersion")
  ELSE RecvConnect([s EXCEPT !.ver = IF c.lvl = 4 THEN 3 ELSE 5], c)

(* ------------------------------- other calls ---------------------------- *)
Timer(s, t) ==
  IF t = "ps"
  THEN LET z == [s EXCEPT !.tps = FALSE]
       IN IF z.st = "C" THEN SendPingreq(z, Ctl(z, "pingreq", 0, -1)) ELSE R(z, <<>>)
  ELSE LET z == IF t = "pr" THEN [s EXCEPT !.tpr = FALSE] ELSE [s EXCEPT !.tpp = FALSE]
       IN IF z.ver = 3 THEN R(z, <<EClose>>)
          ELSE LET d == IF z.st = "C" THEN SendDisconnect(z, Ctl(z, "disconnect", 0, 141)) ELSE R(z, <<>>)
               IN IF d.s.st # "D" THEN R(d.s, d.ev \o <<EClose>>) ELSE d

SetToSeq0(S) == LET RECURSIVE F(_)
                    F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m})
                IN F(S)
(* The release announcements of a close come in no specified order: ascending here, compared as a set. *)
Closed(s) ==
  LET gone == (s.sub \cup s.uns \cup (IF s.ns THEN {} ELSE s.pa \cup s.pr \cup s.pc \cup s.pl)) \cap s.used
      q == SetToSeq0(gone)
      z == [s EXCEPT !.ms = NoLimit, !.mr = NoLimit, !.st = "D", !.tsm = 0, !.ts = <<>>, !.tb = <<>>,
                     !.trm = 0, !.tr = <<>>, !.sm = 0, !.rm = 0, !.sc = 0, !.prv = {}, !.ka = 0, !.ska = -1, !.rt = 0,
                     !.sub = {}, !.uns = {}, !.used = @ \ gone]
      y == IF s.ns THEN z ELSE [z EXCEPT !.h = {}, !.store = <<>>, !.pa = {}, !.pr = {}, !.pc = {}, !.pl = {}]
      t == CancelTimers(y)
  IN R(t.s, [i \in 1..Len(q) |-> ERel(q[i])] \o t.ev)

SetInt(s, ms) ==
  LET z == [s EXCEPT !.ui = ms]
  IN IF ms < 0 THEN R(z, <<>>)
     ELSE IF ms = 0 THEN R([z EXCEPT !.tps = FALSE], IF s.tps THEN <<ECancel("ps")>> ELSE <<>>)
     ELSE IF s.isc /\ s.st = "C" THEN R([z EXCEPT !.tps = TRUE], <<EReset("ps", ms)>>)
     ELSE R(z, <<>>)

Opt(s, o, n) ==
  LET b == n # 0
  IN R(CASE o = "auto_pub" -> [s EXCEPT !.apub = b]
         [] o = "auto_ping" -> [s EXCEPT !.aping = b]
         [] o = "auto_map" -> [s EXCEPT !.amap = b]
         [] o = "auto_replace" -> [s EXCEPT !.arep = b]
         [] o = "offline" -> [s EXCEPT !.off = b, !.ns = IF b THEN TRUE ELSE @]
         [] o = "resp_timeout" -> [s EXCEPT !.rsp = n], <<>>)

IdCount(s) == IF s.w = 2 THEN 65535 ELSE NoLimit
FreeId(s) == LET n == Cardinality(s.used) IN
             IF n = 0 THEN 1
             ELSE CHOOSE i \in 1..(n + 1) : i \notin s.used /\ \A j \in 1..(i - 1) : j \in s.used
Acquire(s) ==
  IF Cardinality(s.used) >= IdCount(s) THEN R(s, <<>>)
  ELSE LET i == FreeId(s) IN [R([s EXCEPT !.used = @ \cup {i}], <<>>) EXCEPT !.ok = TRUE, !.id = i]
Register(s, i) ==
  IF i = 0 \/ i \in s.used THEN R(s, <<>>) ELSE [R([s EXCEPT !.used = @ \cup {i}], <<>>) EXCEPT !.ok = TRUE]

Erase(s, i) ==
  IF \E n \in 1..Len(s.store) : s.store[n].id = i /\ s.store[n].k = "publish"
  THEN LET z == ErasePublish([s EXCEPT !.pa = @ \ {i}, !.pr = @ \ {i},
                                       !.sc = IF s.sm > 0 /\ @ > 0 THEN @ - 1 ELSE @], i)
       IN RelIf(z, i)
  ELSE R(s, <<>>)

RestoreOne(s, p) ==
  IF (p.k = "publish" /\ p.q = 0) \/ p.id \in s.used \/ p.id = 0 THEN s
  ELSE LET z == [s EXCEPT !.used = @ \cup {p.id}, !.store = IF HasStored(s, p.id) THEN @ ELSE Append(@, p)]
       IN IF p.k = "pubrel" THEN [z EXCEPT !.pc = @ \cup {p.id}]
          ELSE IF p.q = 2 THEN [z EXCEPT !.pr = @ \cup {p.id}] ELSE [z EXCEPT !.pa = @ \cup {p.id}]
RECURSIVE RestoreAll(_, _)
RestoreAll(s, ps) == IF ps = <<>> THEN s ELSE RestoreAll(RestoreOne(s, Head(ps)), Tail(ps))

Regulate(s, p) ==
  IF p.t # "" THEN [R(s, <<>>) EXCEPT !.ok = TRUE, !.rp = <<Pub(s, p, p.t, p.tl, 0, p.d)>>]
  ELSE IF SendKnows(s, p.a) THEN [R(s, <<>>) EXCEPT !.ok = TRUE, !.rp = <<Pub(s, p, Lookup(s.ts, p.a), TLen(s.ts, p.a), 0, p.d)>>]
  ELSE [R(s, <<>>) EXCEPT !.x = "PacketNotRegulated"]

Step(s, c) ==
  CASE c.k = "send" -> Send(s, c.p)
    [] c.k = "recv" -> Recv(s, c)
    [] c.k = "timer" -> Timer(s, c.t)
    [] c.k = "closed" -> Closed(s)
    [] c.k = "opt" -> Opt(s, c.o, c.n)
    [] c.k = "setint" -> SetInt(s, c.ms)
    [] c.k = "acquire" -> Acquire(s)
    [] c.k = "register" -> Register(s, c.id)
    [] c.k = "release" -> Release(s, c.id)
    [] c.k = "erase" -> Erase(s, c.id)
    [] c.k = "restore" -> R(RestoreAll(s, c.ps), <<>>)
    [] c.k = "restoreq2" -> R([s EXCEPT !.h = {c.ids[i] : i \in 1..Len(c.ids)}], <<>>)
    [] c.k = "regulate" -> Regulate(s, c.p)
    [] c.k = "part" -> R(s, <<>>)

Vacancy(s) == IF s.sm = 0 THEN -1 ELSE Max2(0, s.sm - s.sc)
=============================================================================
