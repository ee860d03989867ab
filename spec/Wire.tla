------------------------------- MODULE Wire -------------------------------
(***************************************************************************)
(* The BACnet/IP wire formats of ASHRAE 135 (clauses 6, 20, annex J) that  *)
(* the library sends and understands, as functions from abstract messages  *)
(* to byte sequences.  Nothing here is taken from the library's encoders.  *)
(*                                                                         *)
(* 32-bit quantities are sequences of 4 bytes, most significant first      *)
(* (TLC integers are signed 32-bit numbers).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Byte == 0..255

(* ------------------------------------------------------------ numbers *)
U16(n) == <<n \div 256, n % 256>>
U32(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
N4(b)  == ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4]       \* b[1] < 128

RECURSIVE StripZeros(_)
StripZeros(b) == IF Len(b) > 1 /\ b[1] = 0 THEN StripZeros(Tail(b)) ELSE b
\* shortest two's complement form
RECURSIVE StripSign(_)
StripSign(b) ==
  IF Len(b) > 1 /\ ((b[1] = 0 /\ b[2] < 128) \/ (b[1] = 255 /\ b[2] >= 128))
  THEN StripSign(Tail(b)) ELSE b
Pad(b, n) == [i \in 1..(n - Len(b)) |-> 0] \o b                  \* to n bytes, unsigned
PadSigned(b, n) == [i \in 1..(n - Len(b)) |-> IF b[1] >= 128 THEN 255 ELSE 0] \o b

RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

(* --------------------------------------------------------------- tags *)
LenExt(n) == IF n <= 4 THEN <<>>
             ELSE IF n <= 253 THEN <<n>>
             ELSE IF n <= 65535 THEN <<254>> \o U16(n)
             ELSE <<255>> \o U32(n)
TagByte(num, low) == IF num <= 14 THEN <<num * 16 + low>> ELSE <<240 + low, num>>
LVT(n) == IF n <= 4 THEN n ELSE 5
AppTag(num, n) == TagByte(num, LVT(n)) \o LenExt(n)
CtxTag(num, n) == TagByte(num, 8 + LVT(n)) \o LenExt(n)
Open(num)  == TagByte(num, 14)
Close(num) == TagByte(num, 15)
\* length written in a longer form than necessary: ext \in {1,3,5} bytes
LongTag(num, ctx, n, ext) ==
  TagByte(num, (IF ctx THEN 8 ELSE 0) + 5) \o
    (CASE ext = 1 -> <<n>> [] ext = 3 -> <<254>> \o U16(n) [] OTHER -> <<255>> \o U32(n))

CtxUnsigned(num, b4) == LET s == StripZeros(b4) IN CtxTag(num, Len(s)) \o s
ObjId(ty, in4) == <<ty \div 4, (ty % 4) * 64 + in4[2], in4[3], in4[4]>>
CtxObjId(num, ty, in4) == CtxTag(num, 4) \o ObjId(ty, in4)
ArrayAll == <<255, 255, 255, 255>>

(* --------------------------------------------------- application data *)
\* most significant bit first, zero padded
RECURSIVE PackBits(_)
PackBits(bits) ==
  IF bits = <<>> THEN <<>>
  ELSE LET n == IF Len(bits) < 8 THEN Len(bits) ELSE 8
           W == <<128, 64, 32, 16, 8, 4, 2, 1>>
           Sum[i \in 0..n] == IF i = 0 THEN 0 ELSE Sum[i-1] + bits[i] * W[i]
       IN <<Sum[n]>> \o PackBits(SubSeq(bits, n + 1, Len(bits)))
Unused(bits) == (8 - (Len(bits) % 8)) % 8

\* contents octets of a value
Contents(v) ==
  CASE v.t \in {"uint", "enum"} -> StripZeros(v.b)
    [] v.t = "int"    -> StripSign(v.b)
    [] v.t \in {"real", "double", "oct"} -> v.b
    [] v.t = "str"    -> <<0>> \o v.b
    [] v.t = "ucs2"   -> <<4>> \o v.b
    [] v.t = "bits"   -> <<Unused(v.v)>> \o PackBits(v.v)
    [] v.t = "date"   -> <<IF v.y = 255 THEN 255 ELSE v.y - 1900, v.m, v.d, v.w>>
    [] v.t = "time"   -> <<v.h, v.mi, v.s, v.cs>>
    [] v.t = "oid"    -> ObjId(v.ty, v.in)
TagNum(v) ==
  CASE v.t = "null" -> 0 [] v.t = "bool" -> 1 [] v.t = "uint" -> 2 [] v.t = "int" -> 3
    [] v.t = "real" -> 4 [] v.t = "double" -> 5 [] v.t = "oct" -> 6 [] v.t \in {"str", "ucs2"} -> 7
    [] v.t = "bits" -> 8 [] v.t = "enum" -> 9 [] v.t = "date" -> 10 [] v.t = "time" -> 11
    [] v.t = "oid" -> 12
AppValue(v) ==
  CASE v.t = "null" -> <<0>>
    [] v.t = "bool" -> IF v.v THEN <<17>> ELSE <<16>>
    [] OTHER -> LET c == Contents(v) IN AppTag(TagNum(v), Len(c)) \o c
\* a value list (the library's type for several values in one property)
AppValues(v) == IF v.t = "list" THEN FlatSeq(Map(AppValue, v.v)) ELSE AppValue(v)
IdFits(ty, in4) == ty <= 1023 /\ in4[1] = 0 /\ in4[2] <= 63
Encodable(v) == /\ v.t \in {"null", "bool", "uint", "int", "real", "double", "str", "enum", "oid"}
                /\ v.t = "oid" => IdFits(v.ty, v.in)

(* -------------------------------------------------------------- APDUs *)
ConfReq(id, svc, body) == <<0, 5, id, svc>> \o body
UnconfReq(svc, body)   == <<16, svc>> \o body
SimpleAck(id, svc)     == <<32, id, svc>>
ComplexAck(id, svc, body) == <<48, id, svc>> \o body
SegAck(id)             == <<64, id, 0, 1>>
ErrorPdu(id, svc, cls, code) == <<80, id, svc>> \o
      AppValue([t |-> "enum", b |-> U32(cls)]) \o AppValue([t |-> "enum", b |-> U32(code)])
\* errors of the services that report more than an error: class and code inside of context tag 0
ErrorPduCtx(id, svc, cls, code) == <<80, id, svc>> \o Open(0) \o
      AppValue([t |-> "enum", b |-> U32(cls)]) \o AppValue([t |-> "enum", b |-> U32(code)]) \o Close(0)
RejectPdu(id, r) == <<96, id, r>>
AbortPdu(id, r)  == <<113, id, r>>

SvcRP == 12  SvcRPM == 14  SvcWP == 15  SvcWPM == 16

PropRef(p, a, b) == CtxUnsigned(a, p.p) \o (IF p.ix = ArrayAll THEN <<>> ELSE CtxUnsigned(b, p.ix))
Prio(p, tag) == IF p.pri = 0 THEN <<>> ELSE CtxUnsigned(tag, U32(p.pri))
EnumForced(v) == IF v.t = "uint" THEN [v EXCEPT !.t = "enum"] ELSE v
\* binary output (4) and binary value (5) present values (85) are written as enumerated
BinaryPV(o) == o.ty \in {4, 5} /\ o.props[1].p = <<0, 0, 0, 85>>

RPBody(o)  == CtxObjId(0, o.ty, o.in) \o PropRef(o.props[1], 1, 2)
WPBody(o)  == LET p == o.props[1]
                  v == IF BinaryPV(o) THEN EnumForced(p.v) ELSE p.v
              IN RPBody(o) \o Open(3) \o AppValues(v) \o Close(3) \o Prio(p, 4)
RPMObj(o)  == CtxObjId(0, o.ty, o.in) \o Open(1) \o
              FlatSeq([i \in 1..Len(o.props) |-> PropRef(o.props[i], 0, 1)]) \o Close(1)
WPMObj(o)  == CtxObjId(0, o.ty, o.in) \o Open(1) \o
              FlatSeq([i \in 1..Len(o.props) |->
                 LET p == o.props[i] IN
                 PropRef(p, 0, 1) \o Open(2) \o AppValues(p.v) \o Close(2) \o Prio(p, 3)]) \o Close(1)
RPMBody(os) == FlatSeq(Map(RPMObj, os))
WPMBody(os) == FlatSeq(Map(WPMObj, os))
RPAckBody(o) == LET p == o.props[1]
                IN RPBody(o) \o Open(3) \o AppValues(p.v) \o Close(3)
RPMAckObj(o) == CtxObjId(0, o.ty, o.in) \o Open(1) \o
              FlatSeq([i \in 1..Len(o.props) |->
                 LET p == o.props[i] IN
                 PropRef(p, 2, 3) \o Open(4) \o AppValues(p.v) \o Close(4)]) \o Close(1)
RPMAckBody(os) == FlatSeq(Map(RPMAckObj, os))

WhoIsBody(all, low, high) == IF all THEN <<>> ELSE CtxUnsigned(0, low) \o CtxUnsigned(1, high)
IAmBody(m) == AppValue([t |-> "oid", ty |-> m.ty, in |-> m.id]) \o AppValue([t |-> "uint", b |-> m.max])
              \o AppValue([t |-> "enum", b |-> m.seg]) \o AppValue([t |-> "uint", b |-> m.vend])

(* --------------------------------------------------------------- NPDU *)
\* n: [ver, net (BOOLEAN), der (BOOLEAN), pri, dst, src, hop, msg, vend]; dst and src are
\* [net |-> n, adr |-> bytes] with net = 0 for "not present"
NPDU(n) ==
  <<n.ver, (IF n.net THEN 128 ELSE 0) + (IF n.dst.net # 0 THEN 32 ELSE 0)
           + (IF n.src.net # 0 THEN 8 ELSE 0) + (IF n.der THEN 4 ELSE 0) + n.pri>>
  \o (IF n.dst.net # 0 THEN U16(n.dst.net) \o <<Len(n.dst.adr)>> \o n.dst.adr ELSE <<>>)
  \o (IF n.src.net # 0 THEN U16(n.src.net) \o <<Len(n.src.adr)>> \o n.src.adr ELSE <<>>)
  \o (IF n.dst.net # 0 THEN <<n.hop>> ELSE <<>>)
  \o (IF n.net THEN <<n.msg>> \o (IF n.msg >= 128 THEN U16(n.vend) ELSE <<>>) ELSE <<>>)
NoAddr == [net |-> 0, adr |-> <<>>]
PlainNPDU == [ver |-> 1, net |-> FALSE, der |-> FALSE, pri |-> 0, dst |-> NoAddr, src |-> NoAddr,
              hop |-> 255, msg |-> 0, vend |-> 0]
NetMsg(msg) == [PlainNPDU EXCEPT !.net = TRUE, !.msg = msg]
\* the bytes before the APDU of a message received from a device on the local network
PlainHdr == NPDU(PlainNPDU)

(* --------------------------------------------------------------- BVLC *)
BVLC(func, body) == <<129, func>> \o U16(4 + Len(body)) \o body
Unicast == 10   Broadcast == 11   Forwarded == 4
Fwd(origin, body) == BVLC(Forwarded, origin \o body)
=============================================================================
