------------------------------ MODULE Decode ------------------------------
(***************************************************************************)
(* What a received value, property list or header denotes to the caller    *)
(* of the library: the other direction of Wire.                            *)
(***************************************************************************)
EXTENDS Wire

\* a code point of the basic multilingual plane in UTF-8
UTF8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
\* UCS-2 text: v.b are pairs of bytes
UnUCS2(b) == FlatSeq([i \in 1..(Len(b) \div 2) |-> UTF8(b[2*i - 1] * 256 + b[2*i])])

RECURSIVE Denotes(_)
\* the value the caller sees; enumerated values are numbers
Denotes(v) ==
  CASE v.t = "enum" -> [t |-> "uint", b |-> v.b]
    [] v.t = "ucs2" -> [t |-> "str", b |-> UnUCS2(v.b)]
    [] v.t = "date" -> [t |-> "date", y |-> v.y, m |-> v.m, d |-> v.d, w |-> v.w]
    [] v.t = "time" -> [t |-> "time", h |-> v.h, mi |-> v.mi, s |-> v.s, ms |-> 10 * v.cs]
    [] v.t = "dt"   -> [t |-> "dt", v |-> [i \in 1..2 |-> Denotes(v.v[i])]]
    [] v.t = "list" -> IF Len(v.v) = 1 THEN Denotes(v.v[1])
                       ELSE [t |-> "list", v |-> [i \in 1..Len(v.v) |-> Denotes(v.v[i])]]
    [] OTHER -> v
RECURSIVE SameVal(_, _)
SameVal(got, want) ==
  /\ got.t = (IF got.t = "enum" /\ want.t = "uint" THEN "enum" ELSE want.t)
  /\ CASE want.t \in {"list", "dt"} -> /\ Len(got.v) = Len(want.v)
                                       /\ \A i \in 1..Len(want.v) : SameVal(got.v[i], want.v[i])
       [] want.t \in {"uint", "str", "oct", "real", "double", "int"} -> got.b = want.b
       [] want.t \in {"bool", "bits"} -> got.v = want.v
       [] want.t \in {"null", "nil"} -> TRUE
       [] OTHER -> got = want
\* got is what v on the wire denotes; "any" is something that has no representation
Represents(got, v) == v.t = "any" \/ SameVal(got, Denotes(v))

\* contents of a property on the wire: application values, date-times, or constructed contents
WireItem(v) == CASE v.t = "dt"  -> Open(2) \o AppValue(v.v[1]) \o AppValue(v.v[2]) \o Close(2)
                 [] v.t = "any" -> v.b
                 [] OTHER -> AppValue(v)
WireItems(v) == IF v.t = "list" THEN FlatSeq(Map(WireItem, v.v)) ELSE WireItem(v)
RPAckWire(o)   == RPBody(o) \o Open(3) \o WireItems(o.props[1].v) \o Close(3)
RPMAckWire(os) == FlatSeq([k \in 1..Len(os) |->
   CtxObjId(0, os[k].ty, os[k].in) \o Open(1) \o
   FlatSeq([i \in 1..Len(os[k].props) |->
       LET p == os[k].props[i] IN PropRef(p, 2, 3) \o Open(4) \o WireItems(p.v) \o Close(4)]) \o Close(1)])
SameObjs(got, want) ==
  /\ Len(got) = Len(want)
  /\ \A k \in 1..Len(want) :
       /\ got[k].ty = want[k].ty /\ got[k].in = want[k].in
       /\ Len(got[k].props) = Len(want[k].props)
       /\ \A i \in 1..Len(want[k].props) :
            LET g == got[k].props[i]
                w == want[k].props[i]
            IN g.p = w.p /\ g.ix = w.ix /\ Represents(g.v, w.v)

(* ------------------------------------------------------------- headers *)
SegsCode(n) == CASE n <= 1 -> 0 [] n = 2 -> 1 [] n = 4 -> 2 [] n = 8 -> 3 [] n = 16 -> 4 [] n = 32 -> 5 [] n = 64 -> 6 [] OTHER -> 7
MaxCode(n)  == CASE n = 50 -> 0 [] n = 128 -> 1 [] n = 206 -> 2 [] n = 480 -> 3 [] n = 1024 -> 4 [] n = 1476 -> 5
Flag(b, x) == IF b THEN x ELSE 0
\* a: [ty, seg, more, sa, segs, max, inv, seq, win, svc, cls, code]
APDUHdr(a) ==
  CASE a.ty = 0  -> <<Flag(a.seg, 8) + Flag(a.more, 4) + Flag(a.sa, 2), 16 * SegsCode(a.segs) + MaxCode(a.max), a.inv>>
                    \o (IF a.seg THEN <<a.seq, a.win>> ELSE <<>>) \o <<a.svc>>
    [] a.ty = 16 -> <<16, a.svc>>
    [] a.ty = 32 -> <<32, a.inv, a.svc>>
    [] a.ty = 48 -> <<48 + Flag(a.seg, 8) + Flag(a.more, 4), a.inv>>
                    \o (IF a.seg THEN <<a.seq, a.win>> ELSE <<>>) \o <<a.svc>>
    [] a.ty = 80 -> ErrorPdu(a.inv, a.svc, a.cls, a.code)
=============================================================================
