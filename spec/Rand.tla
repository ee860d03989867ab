-------------------------------- MODULE Rand --------------------------------
(***************************************************************************)
(* Random numbers, texts, values, objects and addresses, with emphasis on  *)
(* the boundaries of their encodings.                                      *)
(***************************************************************************)
EXTENDS Decode, TLC, Json, SequencesExt
R(S) == RandomElement(S)
Pick(s) == s[R(1..Len(s))]
\* F of v, v drawn once (TLC would draw an argument or a LET definition anew at every use)
With(v, F(_)) == CHOOSE y \in {F(x) : x \in {v}} : TRUE

(* ------------------------------------------------------------- numbers *)
Edge4 == {<<0,0,0,0>>, <<0,0,0,1>>, <<0,0,0,9>>, <<0,0,0,127>>, <<0,0,0,128>>, <<0,0,0,129>>, <<0,0,0,254>>, <<0,0,0,255>>,
          <<0,0,1,0>>, <<0,0,1,1>>, <<0,0,127,255>>, <<0,0,128,0>>, <<0,0,128,1>>, <<0,0,254,255>>, <<0,0,255,255>>,
          <<0,1,0,0>>, <<0,1,0,1>>, <<0,127,255,255>>, <<0,128,0,0>>, <<0,128,0,1>>, <<0,255,255,255>>,
          <<1,0,0,0>>, <<1,0,0,1>>, <<127,255,255,255>>, <<128,0,0,0>>, <<128,0,0,1>>, <<254,255,255,255>>,
          <<255,127,255,255>>, <<255,128,0,0>>, <<255,128,0,1>>, <<255,255,127,255>>, <<255,255,128,0>>, <<255,255,128,1>>,
          <<255,255,255,127>>, <<255,255,255,128>>, <<255,255,255,129>>, <<255,255,255,254>>, <<255,255,255,255>>,
          <<18,52,86,120>>, <<0,154,188,222>>}
OddBytes == {0, 1, 2, 4, 5, 15, 16, 63, 64, 127, 128, 129, 192, 224, 240, 253, 254, 255}
RB(x) == IF R(1..3) = 1 THEN R(OddBytes) ELSE R(Byte)
RECURSIVE RBytesC(_)
RBytesC(n) == IF n = 0 THEN <<>> ELSE <<RB(0)>> \o RBytesC(n - 1)
RBytes(n) == With(n, RBytesC)
R4(x) == CASE R(1..5) = 1 -> R(Edge4) [] R(1..4) = 1 -> <<0, 0, 0, RB(0)>> [] R(1..3) = 1 -> <<0, 0>> \o RBytes(2)
           [] R(1..2) = 1 -> <<0>> \o RBytes(3) [] OTHER -> RBytes(4)
Instances == {<<0,0,0,0>>, <<0,0,0,1>>, <<0,0,0,255>>, <<0,0,1,0>>, <<0,0,255,255>>, <<0,1,0,0>>, <<0,63,255,254>>, <<0,63,255,255>>}
RIn(x) == IF R(1..2) = 1 THEN R(Instances) ELSE <<0, R(0..63), RB(0), RB(0)>>
Types == {0, 1, 2, 3, 4, 5, 8, 13, 14, 19, 63, 127, 128, 255, 256, 1022, 1023}
RTy(x) == IF R(1..2) = 1 THEN R(Types) ELSE R(0..1023)
Props == Instances \cup {<<0,0,0,85>>, <<0,0,0,87>>, <<0,0,0,77>>, <<0,0,0,28>>, <<0,0,0,75>>, <<0,0,0,130>>, <<0,0,0,132>>, <<0,0,2,0>>}
RProp(x) == IF R(1..3) # 1 THEN R(Props) ELSE <<0, R(0..63), RB(0), RB(0)>>
RIx(x) == IF R(1..2) = 1 THEN ArrayAll ELSE With(R4(0), LAMBDA q : IF q = ArrayAll THEN <<0,0,0,3>> ELSE q)

(* -------------------------------------------------------------- values *)
\* long texts are functions of their length: no random numbers
Text(n, k) == [j \in 1..n |-> 32 + ((j * 7 + k) % 95)]
RTextC(n) == IF n > 20 THEN Text(n, R(0..94))
            ELSE IF R(1..4) = 1 THEN FlatSeq([j \in 1..(n \div 3) |-> UTF8(8352 + j)]) ELSE Text(n, R(0..94))
Lens == {0, 1, 2, 3, 4, 5, 6, 7, 252, 253, 254, 255, 256, 257}
RText(n) == With(n, RTextC)
RLen(x) == IF R(1..2) = 1 THEN R(Lens) ELSE IF R(1..6) = 1 THEN R(200..700) ELSE R(0..30)
RECURSIVE RBitsC(_)
RBitsC(n) == IF n = 0 THEN <<>> ELSE <<R(0..1)>> \o RBitsC(n - 1)
RBits(n) == With(n, RBitsC)
Val4(t, b) == [t |-> t, b |-> b]
Real4 == Edge4 \cup {<<127,128,0,0>>, <<255,128,0,0>>, <<127,192,0,0>>, <<63,128,0,0>>, <<66,246,230,102>>}
DateOf(Y) == [t |-> "date", y |-> IF Y = 255 THEN 255 ELSE 1900 + Y, m |-> R({1, 2, 12, 13, 14, 255, R(1..12)}),
                d |-> R({1, 28, 31, 32, 33, 34, 255, R(1..31)}), w |-> R({1, 7, 255, R(1..7)})]
RDate(x) == With(R({0, 1, 70, 99, 100, 123, 254, 255, R(0..254)}), DateOf)
RTime(x) == [t |-> "time", h |-> R({0, 23, 255, R(0..23)}), mi |-> R({0, 59, 255, R(0..59)}), s |-> R({0, 59, 255, R(0..59)}),
             cs |-> R({0, 1, 50, 99, R(0..99)})]
BadInst == {<<0,64,0,0>>, <<0,64,0,1>>, <<0,127,255,255>>, <<0,128,0,0>>, <<1,0,0,0>>, <<1,0,0,5>>, <<255,255,255,255>>,
            <<0,64,0,85>>, <<0,128,0,85>>, <<2,0,0,85>>, <<4,0,0,4>>, <<8,0,0,85>>, <<16,0,0,77>>, <<32,0,0,85>>, <<64,0,0,75>>, <<128,0,0,1>>, <<128,0,0,85>>}
ROid(x) == [t |-> "oid", ty |-> RTy(0), in |-> RIn(0)]
BMP == {65, 127, 128, 233, 2047, 2048, 8364, 20013, 55295, 57344, 65533, 65279, 65534, 65535, 0, 10}
RECURSIVE RUcsC(_)
RUcsC(n) == IF n = 0 THEN <<>> ELSE U16(IF R(1..2) = 1 THEN R(BMP) ELSE IF R(1..2) = 1 THEN R(0..55295) ELSE R(57344..65000)) \o RUcsC(n - 1)
RUcs(n) == With(n, RUcsC)
EncTypes == <<"null", "bool", "uint", "uint", "int", "int", "real", "double", "str", "enum", "oid">>
WireTypes == <<"null", "bool", "uint", "uint", "int", "int", "real", "double", "oct", "str", "ucs2", "bits", "enum", "date", "time", "oid">>
ValOfC(t) == CASE t = "null" -> [t |-> "null"]
           [] t = "bool" -> [t |-> "bool", v |-> R(BOOLEAN)]
           [] t \in {"uint", "int", "enum"} -> Val4(t, R4(0))
           [] t = "real" -> Val4("real", IF R(1..2) = 1 THEN R(Real4) ELSE RBytes(4))
           [] t = "double" -> Val4("double", R(Edge4) \o RBytes(4))
           [] t = "str" -> Val4("str", RText(RLen(0)))
           [] t = "oct" -> Val4("oct", RBytes(R({0, 1, 2, 3, 4, 5, 6, 20, 253, R(0..60)})))
           [] t = "ucs2" -> Val4("ucs2", RUcs(R({0, 1, 2, 3, 10, 126, 127, R(1..40)})))
           [] t = "bits" -> [t |-> "bits", v |-> RBits(R({0, 1, 7, 8, 9, 15, 16, 17, 119, 120, R(1..120)}))]
           [] t = "date" -> RDate(0)
           [] t = "time" -> RTime(0)
           [] t = "oid" -> ROid(0)
           [] t = "badoid" -> IF R(1..2) = 1 THEN [t |-> "oid", ty |-> R({1024, 1025, 2047, 2048, 65535}), in |-> RIn(0)]
                              ELSE [t |-> "oid", ty |-> RTy(0), in |-> R(BadInst)]
           \* values the library has no encoding for
           [] OTHER -> [t |-> t]
ValOf(t) == With(t, ValOfC)
Bad == <<"nil", "goint", "uint8", "uint16", "uint64", "int64", "int16", "bytes", "ilist", "struct", "ptr", "date", "time", "badoid", "badoid">>
BadVal(x) == ValOf(Pick(Bad))
RTail(x) == RBytes(R({0, 0, 1, 2, 5}))
REnc(x) == ValOf(Pick(EncTypes))
RWire(x) == ValOf(Pick(WireTypes))
SmallOfC(v) == IF v.t \in {"str", "oct", "ucs2"} /\ Len(v.b) > 40 THEN [v EXCEPT !.b = SubSeq(v.b, 1, 2 * (Len(v.b) % 20))] ELSE v
SmallOf(v) == With(v, SmallOfC)

(* ------------------------------------------------ objects and messages *)
RefOf(v) == [p |-> RProp(0), ix |-> RIx(0), pri |-> 0, v |-> v]
Fit(o) == IF BinaryPV(o) /\ o.props[1].v.t \notin {"uint", "null"} THEN [o EXCEPT !.props[1].v = Val4("uint", R4(0))] ELSE o
RECURSIVE RPropsC(_, _), RObjsC(_, _, _)
RPropsC(n, pri) == IF n = 0 THEN <<>>
  ELSE <<[RefOf(SmallOf(REnc(0))) EXCEPT !.pri = IF pri THEN R({0, 0, 1, 8, 15, 16}) ELSE 0]>> \o RPropsC(n - 1, pri)
RProps(n, pri) == With(n, LAMBDA m : RPropsC(m, pri))
RObjsC(n, np, pri) == IF n = 0 THEN <<>>
  ELSE <<[ty |-> RTy(0), in |-> RIn(0), props |-> RProps(R(1..np), pri)]>> \o RObjsC(n - 1, np, pri)
RObjs(n, np, pri) == With(n, LAMBDA m : RObjsC(m, np, pri))
BinObj(x) == [ty |-> R(3..5), in |-> RIn(0), props |-> <<[p |-> <<0, 0, 0, R({84, 85, 85, 87})>>, ix |-> RIx(0), pri |-> R({0, 1, 16}),
                v |-> ValOf(Pick(<<"uint", "uint", "null", "enum", "bool">>))]>>]
RId(x) == R({0, 1, 2, 127, 128, 254, 255, R(0..255)})
Dev4 == {<<0,0,0,0>>, <<0,0,0,1>>, <<0,0,0,206>>, <<0,0,1,224>>, <<0,0,4,0>>, <<0,0,5,196>>, <<0,0,255,255>>, <<0,1,0,0>>}
RIamMsg(x) == [ty |-> 8, id |-> RIn(0), max |-> IF R(1..2) = 1 THEN R(Dev4) ELSE R4(0), seg |-> U32(R(0..3)), vend |-> R4(0)]
Limits == {-1, 0, 1, 2, 127, 128, 255, 256, 65535, 65536, 4194301, 4194302, 4194303, 4194304}
RLim(x) == IF R(1..2) = 1 THEN R(Limits) ELSE R(0..4194303)
Ref0(p, ix, v, pri) == [p |-> p, ix |-> ix, pri |-> pri, v |-> v]
One(t, n, p, ix, v, pri) == <<[ty |-> t, in |-> n, props |-> <<Ref0(p, ix, v, pri)>>]>>
U1 == Val4("uint", <<0,0,0,1>>)
(* ----------------------------------------------------------- addresses *)
RAdr(lo) == RBytes(R({1, 1, 2, 3, 6, 7, R(lo..10), 254, 255} \cup (IF lo = 0 THEN {0} ELSE {})))
RNet(x) == R({1, 2, 255, 256, 65534, 65535, R(1..65535)})
RNpdu(x) == [ver |-> R({1, 1, 1, 0, 255}), net |-> R(1..3) = 1, der |-> R(BOOLEAN), pri |-> R(0..3),
             dst |-> IF R(1..2) = 1 THEN NoAddr ELSE [net |-> RNet(0), adr |-> RAdr(0)],
             src |-> IF R(1..2) = 1 THEN NoAddr ELSE [net |-> RNet(0), adr |-> RAdr(1)],
             hop |-> RB(0), msg |-> R({0, 1, 2, 3, 17, 18, 19, 20, 126, 127, 128, 129, 255, R(0..255)}), vend |-> R({0, 1, 255, 256, 65535})]
(* ---------------------------------------------------------- corruption *)
Ins(b, p, x) == SubSeq(b, 1, p) \o x \o SubSeq(b, p + 1, Len(b))
Bomb == {<<254, 255, 255>>, <<255, 255, 255, 255, 255>>, <<255, 0, 255, 255, 255>>, <<254, 16, 0>>, <<255, 127, 255, 255, 255>>,
         <<253>>, <<255, 0, 0, 0, 1>>, <<254, 0, 4>>, <<4>>, <<255, 128, 0, 0, 0>>}
Hit(b) == IF Len(b) = 0 THEN 1 ELSE IF R(1..6) = 1 THEN R(1..Len(b)) ELSE IF Len(b) > 7 THEN R(7..Len(b)) ELSE R(1..Len(b))
Mutate(b, q) ==
  IF Len(b) = 0 THEN b ELSE
  CASE q \in 1..4 -> With(R(0..(Len(b) - 1)), LAMBDA n : (SubSeq(b, 1, n)))
    [] q \in 5..8 -> With(Hit(b), LAMBDA p : [b EXCEPT ![p] = RB(0)])
    [] q \in 9..10 -> With(Hit(b), LAMBDA p : With(Hit(b), LAMBDA r : [b EXCEPT ![p] = RB(0), ![r] = RB(0)]))
    [] q \in 11..12 -> With(Hit(b), LAMBDA p : (Ins(b, p, RBytes(R(1..3)))))
    [] q \in 13..14 -> With(Hit(b), LAMBDA p : (SubSeq(b, 1, p - 1) \o SubSeq(b, p + 1, Len(b))))
    [] q \in 15..17 -> With(Hit(b), LAMBDA p : (Ins([b EXCEPT ![p] = (@ \div 8) * 8 + 5], p, R(Bomb))))
    [] q = 18 -> (b \o RBytes(R(1..6)))
    [] q = 19 -> With(Hit(b), LAMBDA p : (b \o SubSeq(b, p, Len(b))))
    [] q = 20 -> With(Hit(b), LAMBDA p : [b EXCEPT ![p] = (@ \div 8) * 8 + R(0..7)])
    [] OTHER -> With(Hit(b), LAMBDA p : [b EXCEPT ![p] = 8 * R(0..31) + (@ % 8)])
=============================================================================
