----------------------------- MODULE IngressGen -----------------------------
(***************************************************************************)
(* Scripts for a client that receives anything: well-formed frames of all  *)
(* kinds, directed at the invoke IDs of its open requests and the ranges   *)
(* of its open Who-Is; the same cut off, corrupted, extended; and noise.   *)
(* Every script ends with requests that are answered properly.             *)
(*   Profile "mix": everything; "clean": no corruption                     *)
(***************************************************************************)
EXTENDS Rand
CONSTANTS Profile, N, MaxOps
VARIABLES now, script, nc, emitted
gvars == <<now, script, nc, emitted>>
Kinds == <<"rp", "rp", "rpm", "wp", "wpm">>
KindOf(c) == Kinds[1 + (c % 5)]

(* ------------------------------------------------------------- frames *)
Num(c) == U32(1000 + c)
VOf(x) == With(RWire(0), SmallOfC)
ObjFor(c, v) == [ty |-> 2, in |-> Num(c), props |-> <<[p |-> U32(85), ix |-> ArrayAll, pri |-> 0, v |-> v]>>]
AckOf(c, v) ==
  CASE KindOf(c) = "rp" -> ComplexAck(0, 12, RPAckWire(ObjFor(c, v)))
    [] KindOf(c) = "rpm" -> ComplexAck(0, 14, RPMAckWire(<<ObjFor(c, v)>>))
    [] KindOf(c) = "wp" -> SimpleAck(0, 15)
    [] OTHER -> SimpleAck(0, 16)
SvcOf(c) == CASE KindOf(c) = "rp" -> 12 [] KindOf(c) = "rpm" -> 14 [] KindOf(c) = "wp" -> 15 [] OTHER -> 16
IamInst == {0, 1, 5, 100, 101, 255, 256, 4194303}
IamFor(q) == [ty |-> 8, id |-> U32(R(IamInst)), max |-> R(Dev4), seg |-> U32(R(0..3)), vend |-> R4(0)]
\* APDU and the position of the invoke ID in it (0: none)
A(b, ip) == [b |-> b, ip |-> ip]
Apdu(c, v, q) ==
  LET ack == AckOf(c, v) IN
  CASE q \in 1..8 -> A(ack, 2)
    [] q \in 9..11 -> A(IF R(1..2) = 1 THEN ErrorPdu(0, SvcOf(c), R(0..9), IF R(1..2) = 1 THEN R({0, 2, 9, 31, 32, 33, 34, 136, 137, 138, 255, 256, 65535, 16777216}) ELSE R(0..140)) ELSE ErrorPduCtx(0, SvcOf(c), R({0, 2, 7, 8, 255, 256}), R(0..140)), 2)
    [] q = 12 -> A(RejectPdu(0, R(0..9)), 2)
    [] q = 13 -> A(AbortPdu(0, R(0..9)), 2)
    [] q = 14 -> A(SegAck(0), 2)
    [] q = 15 -> A(<<56, 0, 0, 4>> \o SubSeq(ack, 3, Len(ack)), 2)                \* a segment
    [] q = 16 -> A(<<60, 0, R(0..1), 4>> \o SubSeq(ack, 3, Len(ack)), 2)          \* more follow
    [] q \in 17..18 -> A(<<0, 5, 0>> \o SubSeq(ack, 3, Len(ack)), 3)                \* a confirmed request
    [] q = 19 -> A(<<2, R(0..5), 0>> \o SubSeq(ack, 3, Len(ack)), 3)
    [] q \in 20..26 -> A(UnconfReq(0, IAmBody(IamFor(0))), 0)
    [] q \in 27..28 -> A(UnconfReq(R(IF R(1..3) = 1 THEN {1, 2, 4, 8, 16, 32, 64, 128, 255} ELSE 1..12), IAmBody(IamFor(0))), 0)
    [] q = 29 -> A(UnconfReq(8, WhoIsBody(R(BOOLEAN), U32(R(0..10)), U32(R(0..4194303)))), 0)
    [] q = 30 -> A(UnconfReq(R({2, 4, 5, 9, 11, 60, 255}), RBytes(R(0..20))), 0)
    [] q = 31 -> A(ConfReq(0, R(0..30), IAmBody(IamFor(0))), 3)
    [] q = 32 -> A(ComplexAck(0, R({0, 6, 13, 26, 200}), SubSeq(ack, 4, Len(ack))), 2)
    [] q = 33 -> A(SimpleAck(0, R({5, 15, 16, 17, 12})), 2)
    [] q = 34 -> A(<<16 * R(8..15) + R(0..15)>> \o Tail(ack), 2)
    [] q = 35 -> A(RBytes(R(0..30)), 2)
    [] q = 36 -> A(<<16 * R(0..7)>> \o RBytes(R(0..12)), 2)
    [] OTHER -> A(<<>>, 0)
Net(n, i) == IF n = 0 THEN NoAddr ELSE [net |-> n, adr |-> RBytes(i)]
NpduOf(q) ==
  CASE q \in 1..10 -> PlainNPDU
    [] q = 11 -> [PlainNPDU EXCEPT !.dst = [net |-> 65535, adr |-> <<>>]]
    [] q = 12 -> [PlainNPDU EXCEPT !.src = Net(R({1, 7, 256, 65534}), R({1, 2, 6, 7})), !.dst = [net |-> 65535, adr |-> <<>>]]
    [] q \in 13..15 -> [PlainNPDU EXCEPT !.src = Net(R({1, 7, 256, 65534}), R({1, 1, 2, 6, 7}))]
    [] q = 16 -> [PlainNPDU EXCEPT !.der = TRUE, !.pri = R(0..3)]
    [] q = 17 -> [PlainNPDU EXCEPT !.net = TRUE, !.msg = R({0, 2, 3, 4, 5, 6, 7, 8, 9, 18, 20, 127})]
    [] q = 18 -> [PlainNPDU EXCEPT !.net = TRUE, !.msg = R({1, 19}), !.src = Net(R({0, 7}), 2)]
    [] q = 19 -> [PlainNPDU EXCEPT !.net = TRUE, !.msg = R(128..255), !.vend = R({0, 1, 65535})]
    \* unusual ones
    [] q = 20 -> [PlainNPDU EXCEPT !.ver = R({0, 2, 255})]
    [] q = 21 -> [PlainNPDU EXCEPT !.dst = Net(R({1, 300, 65534}), R({0, 1, 6}))]
    [] q = 22 -> [PlainNPDU EXCEPT !.src = Net(R({1, 65535}), R({0, 8, 20, 255}))]
    [] OTHER -> PlainNPDU
Tampered(h, q) == IF q = 1 THEN [h EXCEPT ![2] = R(Byte)] ELSE h
Link(q, body) ==
  CASE q \in 1..9 -> BVLC(Unicast, body) [] q \in 10..13 -> BVLC(Broadcast, body)
    [] q \in 14..16 -> Fwd(<<172, 16, 5, 9, 186, 200>>, body) [] q = 17 -> Fwd(<<10, 0, 0, 3, 186, 192>>, body)
    [] q = 18 -> BVLC(R({0, 1, 2, 3, 5, 6, 7, 8, 9, 12}), body)
    [] q = 19 -> BVLC(R({4, 13, 255, 74, 138, 139}), body)
    [] OTHER -> <<R({0, 1, 128, 130, 255})>> \o Tail(BVLC(R({4, 10, 11}), body))
\* [b, ip]
FrameOf(a, n, q) ==
  LET h == IF Profile = "clean" THEN NPDU(n) ELSE Tampered(NPDU(n), R(1..25))
  IN With(Link(q, h \o a.b), LAMBDA f : A(f, IF a.ip = 0 \/ Len(a.b) < a.ip THEN 0 ELSE Len(f) - Len(a.b) + a.ip))

(* ---------------------------------------------------------- corruption *)
FixLen(b) == IF Len(b) < 4 THEN b ELSE [b EXCEPT ![3] = Len(b) \div 256, ![4] = Len(b) % 256]
Noise(x) == IF R(1..3) = 1 THEN RBytes(R(0..40)) ELSE <<129, R({4, 10, 11})>> \o With(R(0..40), LAMBDA n : U16(n + 4) \o RBytes(n))

Srcs == {<<10, 0, 0, 2, 186, 192>>, <<10, 0, 0, 3, 186, 192>>, <<192, 168, 15, 255, 0, 1>>, <<255, 255, 255, 255, 255, 255>>}
Init == now = 0 /\ script = <<>> /\ nc = 0 /\ emitted = FALSE
Out(r) == script' = Append(script, r)
Target == IF nc = 0 THEN 0 ELSE IF R(1..8) = 1 THEN R(1..nc) ELSE R((IF nc > 4 THEN nc - 3 ELSE 1)..nc)
GRx == \E c \in {Target} : \E v \in {VOf(0)} : \E q \in {IF c = 0 THEN R(17..37) ELSE R(1..37)} : \E n \in {R(1..23)} : \E w \in {R(1..20)} :
       \E m \in {IF Profile = "clean" THEN 40 ELSE R(1..40)} : \E src \in {R(Srcs)} : \E noise \in {IF Profile = "clean" THEN 2 ELSE R(1..15)} :
       \E f \in {IF noise = 1 THEN A(Noise(0), 0) ELSE FrameOf(Apdu(c, v, q), NpduOf(n), w)} :
       \E b \in {IF m <= 21 THEN With(Mutate(f.b, m), LAMBDA x : IF R(1..4) # 1 THEN FixLen(x) ELSE x) ELSE f.b} :
  /\ Out([op |-> "rx", at |-> now, b |-> b, k |-> c, idp |-> IF c = 0 THEN 0 ELSE f.ip, src |-> src])
  /\ UNCHANGED <<now, nc, emitted>>
GCall == /\ Out([op |-> "call", at |-> now, c |-> nc + 1, kind |-> KindOf(nc + 1)]) /\ nc' = nc + 1 /\ UNCHANGED <<now, emitted>>
GWho == \E lo \in {R({0, 1, 100})} : \E hi \in {R({100, 255, 4194303})} :
        /\ Out([op |-> "whois", at |-> now, c |-> nc + 1, low |-> lo, high |-> hi]) /\ nc' = nc + 1 /\ UNCHANGED <<now, emitted>>
GSync == Out([op |-> "sync", at |-> now]) /\ UNCHANGED <<now, nc, emitted>>
GTick == \E t \in {R({1, 1, 5, 200, 400, 1000, 1900, 2500})} : now' = now + t /\ UNCHANGED <<script, nc, emitted>>
\* proper requests, properly answered
End ==
  LET t == now + 15000
      rp == nc + 1
      kind == KindOf(rp)
      v == [t |-> "uint", b |-> <<0, 0, 1, 2>>]
  IN <<[op |-> "call", at |-> t, c |-> rp, kind |-> kind],
       [op |-> "rx", at |-> t + 10, b |-> BVLC(Unicast, PlainHdr \o AckOf(rp, v)), k |-> rp, idp |-> 8, src |-> <<10, 0, 0, 2, 186, 192>>],
       [op |-> "whois", at |-> t + 20, c |-> rp + 1, low |-> 0, high |-> 4194303],
       [op |-> "rx", at |-> t + 900, b |-> BVLC(Broadcast, PlainHdr \o UnconfReq(0, IAmBody([ty |-> 8, id |-> U32(77), max |-> U32(480), seg |-> U32(3), vend |-> U32(5)]))),
        k |-> 0, idp |-> 0, src |-> <<10, 0, 0, 9, 186, 192>>]>>
Emit == ~emitted /\ emitted' = TRUE /\ PrintT("SCRIPT " \o ToJson([full |-> TRUE, ops |-> script \o End])) /\ UNCHANGED <<now, script, nc>>
Next ==
  IF Len(script) >= MaxOps THEN Emit
  ELSE \E p \in {R(1..100)} :
    IF nc = 0 THEN GCall
    ELSE IF p <= 12 /\ nc < N THEN GCall
    ELSE IF p <= 15 /\ nc < N THEN GWho
    ELSE IF p <= 18 THEN GSync
    ELSE IF p <= 70 THEN GRx
    ELSE GTick
GSpec == Init /\ [][Next]_gvars
=============================================================================
