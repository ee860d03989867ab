----------------------------- MODULE CodecGen -----------------------------
(***************************************************************************)
(* Cases for the codec driver: first those at the boundaries, enumerated,  *)
(* then random ones.  Profile names the family of cases.                   *)
(***************************************************************************)
EXTENDS Rand
CONSTANTS Profile, N
VARIABLES i, c
gvars == <<i, c>>
(* ------------------------------------------------- C11: app data encoding *)
Big == {65533, 65534, 65535, 65536, 65537, 70000}
EnumEnc == [n \in 1..1 |-> [k |-> "appenc", v |-> [t |-> "null"], tail |-> <<1, 2>>]]
   \o SetToSeq({[k |-> "appenc", v |-> Val4(t, b), tail |-> <<33, 1>>] : t \in {"uint", "int", "enum"}, b \in Edge4})
   \o SetToSeq({[k |-> "appenc", v |-> Val4("real", b), tail |-> <<>>] : b \in Real4})
   \o SetToSeq({[k |-> "appenc", v |-> Val4("double", b \o d), tail |-> <<7>>] : b \in Real4, d \in {<<0,0,0,0>>, <<0,0,0,1>>}})
   \o SetToSeq({[k |-> "appenc", v |-> [t |-> "oid", ty |-> y, in |-> n], tail |-> <<>>] : y \in Types, n \in Instances})
   \o SetToSeq({[k |-> "appenc", v |-> [t |-> "bool", v |-> b], tail |-> <<9>>] : b \in BOOLEAN})
   \o SetToSeq({[k |-> "appenc", v |-> Val4("str", Text(n, 3)), tail |-> <<0, 255>>] : n \in 0..20 \cup Lens \cup {600} \cup Big})
   \o <<[k |-> "appenc", v |-> [t |-> "date", y |-> 1999, m |-> 1, d |-> 1, w |-> 1], tail |-> <<>>],
        [k |-> "appenc", v |-> [t |-> "time", h |-> 1, mi |-> 1, s |-> 1, cs |-> 1], tail |-> <<>>]>>
   \o SetToSeq({[k |-> "appenc", v |-> [t |-> "oid", ty |-> y, in |-> n], tail |-> <<>>] : y \in {8, 1024, 65535}, n \in BadInst \cup {<<0,0,0,1>>}})
   \o [n \in 1..11 |-> [k |-> "appenc", v |-> [t |-> Bad[n]], tail |-> <<>>]]
RandEnc(x) == [k |-> "appenc", v |-> IF R(1..15) = 1 THEN BadVal(0) ELSE REnc(0), tail |-> RTail(0)]

(* ------------------------------------------------- C14: app data decoding *)
\* contents with leading octets that change nothing, length in a longer form
Long(v, n, ext) ==
  LET s == Contents(v)
      b == IF v.t \in {"uint", "enum"} THEN Pad(s, IF n < Len(s) THEN Len(s) ELSE n)
           ELSE IF v.t = "int" THEN PadSigned(s, IF n < Len(s) THEN Len(s) ELSE n) ELSE s
  IN IF v.t \in {"null", "bool"} THEN AppValue(v)
     ELSE (IF ext = 0 THEN AppTag(TagNum(v), Len(b))
           ELSE LongTag(TagNum(v), FALSE, Len(b), IF ext = 1 /\ Len(b) > 253 THEN 3 ELSE ext)) \o b
Dec(v, n, ext, tail) == [k |-> "appdec", v |-> v, n |-> n, ext |-> ext, tail |-> tail]
EnumDec == SetToSeq({Dec(Val4(t, b), n, 0, <<33, 1>>) : t \in {"uint", "int", "enum"}, b \in Edge4, n \in 1..4})
   \o SetToSeq({Dec(Val4("str", Text(n, 5)), 0, e, <<1>>) : n \in {0, 1, 3, 4, 252, 253, 254, 300}, e \in {0, 1, 3, 5}})
   \o SetToSeq({Dec(Val4("oct", Text(n, 5)), 0, e, <<>>) : n \in {0, 1, 4, 5, 253, 254, 300}, e \in {0, 1, 3, 5}})
   \o SetToSeq({Dec(Val4("str", Text(n, 5)), 0, e, <<1>>) : n \in Big, e \in {0, 5}})
   \o SetToSeq({Dec([t |-> "bits", v |-> [j \in 1..n |-> IF ((j * j) + (j \div 3)) % k = 0 THEN 1 ELSE 0]], 0, 0, <<8>>) :
                n \in 0..120, k \in {1, 2, 5}})
   \o SetToSeq({Dec([t |-> "date", y |-> IF y = 255 THEN 255 ELSE 1900 + y, m |-> 12, d |-> 31, w |-> 7], 0, 0, <<>>) : y \in 0..255})
   \o SetToSeq({Dec([t |-> "date", y |-> 1999, m |-> m, d |-> d, w |-> w], 0, 0, <<>>) :
                m \in {1, 12, 13, 14, 255}, d \in {1, 31, 32, 255}, w \in {1, 7, 255}})
   \o SetToSeq({Dec([t |-> "time", h |-> h, mi |-> m, s |-> s, cs |-> x], 0, 0, <<5>>) :
                h \in {0, 1, 23, 255}, m \in {0, 59}, s \in {0, 59}, x \in {0, 1, 50, 99}})
   \o SetToSeq({Dec([t |-> "oid", ty |-> y, in |-> n], 0, e, <<1, 1>>) : y \in Types, n \in Instances, e \in {0, 1}})
   \o SetToSeq({Dec(Val4("real", b), 0, e, <<1>>) : b \in Real4, e \in {0, 1}})
   \o SetToSeq({Dec(Val4("double", b \o <<0,1,2,3>>), 0, e, <<1>>) : b \in Real4, e \in {0, 3}})
   \o SetToSeq({Dec(Val4("ucs2", FlatSeq([j \in 1..n |-> U16(u)])), 0, 0, <<>>) : u \in BMP, n \in {0, 1, 2, 126, 127, 200}})
   \o <<Dec([t |-> "null"], 0, 0, <<1>>), Dec([t |-> "bool", v |-> TRUE], 0, 0, <<1>>), Dec([t |-> "bool", v |-> FALSE], 0, 0, <<1>>)>>
RandDec(x) == Dec(RWire(0), R(1..4), R({0, 0, 0, 1, 3, 5}), RTail(0))

(* ------------------------------------------------- C12: requests and acks *)
RandReq(x) ==
  CASE R(1..9) = 1 -> [k |-> "rp", id |-> RId(0), objs |-> RObjs(1, 1, FALSE)]
    [] R(1..8) = 1 -> [k |-> "wp", id |-> RId(0), objs |-> <<BinObj(0)>>]
    [] R(1..7) <= 2 -> [k |-> "wp", id |-> RId(0), objs |-> RObjs(1, 1, TRUE)]
    [] R(1..6) <= 2 -> [k |-> "wpm", id |-> RId(0), objs |-> RObjs(R(1..3), R(1..4), TRUE)]
    [] R(1..5) = 1 -> [k |-> "rpm", id |-> RId(0), objs |-> RObjs(R({1, 2, 3, 9}), R(1..6), FALSE)]
    [] R(1..4) = 1 -> [k |-> "rpack", id |-> RId(0), objs |-> RObjs(1, 1, FALSE)]
    [] R(1..3) = 1 -> [k |-> "rpmack", id |-> RId(0), objs |-> RObjs(R(1..3), R(1..4), FALSE)]
    [] R(1..2) = 1 -> [k |-> "whois", low |-> RLim(0), high |-> RLim(0)]
    [] OTHER -> [k |-> "iam", iam |-> RIamMsg(0)]
EnumReq == SetToSeq({[k |-> kk, id |-> 1, objs |-> One(t, n, p, ArrayAll, U1, 0)] :
                     kk \in {"rp", "rpm", "wp", "wpm", "rpack", "rpmack"}, t \in {0, 2, 4, 8, 255, 256, 1023},
                     n \in {<<0,0,0,0>>, <<0,0,1,0>>, <<0,63,255,255>>}, p \in {<<0,0,0,85>>, <<0,0,1,0>>, <<0,63,255,255>>}})
   \o SetToSeq({[k |-> kk, id |-> 200, objs |-> One(2, <<0,0,0,5>>, <<0,0,0,87>>, ix, U1, 0)] :
                     kk \in {"rp", "rpm", "wp", "wpm", "rpack", "rpmack"}, ix \in Edge4})
   \o SetToSeq({[k |-> kk, id |-> 254, objs |-> One(t, <<0,0,0,5>>, <<0,0,0,85>>, ArrayAll, v, pri)] :
                     kk \in {"wp", "wpm"}, t \in {1, 4}, v \in {U1, Val4("uint", <<0,0,0,0>>), [t |-> "null"]}, pri \in 0..16})
   \* long ones
   \o SetToSeq({[k |-> kk, id |-> 17, objs |-> [o \in 1..q[1] |-> [ty |-> o % 7, in |-> U32(o * 300), props |->
                     [u \in 1..q[2] |-> Ref0(<<0,0,0,86 + u>>, IF (u + o) % 2 = 0 THEN ArrayAll ELSE U32(u * 200), U1, 0)]]]] :
                     kk \in {"rpm", "wpm", "rpmack"}, q \in {<<1, 16>>, <<1, 17>>, <<1, 33>>, <<1, 100>>, <<16, 1>>, <<17, 2>>, <<33, 1>>, <<65, 1>>, <<20, 4>>}})
   \o SetToSeq({[k |-> "whois", low |-> l, high |-> h] : l \in Limits, h \in Limits})
   \o SetToSeq({[k |-> "iam", iam |-> [ty |-> 8, id |-> n, max |-> m, seg |-> U32(s), vend |-> v]] :
                     n \in Instances, m \in Dev4, s \in 0..3, v \in {<<0,0,0,0>>, <<0,0,1,0>>}})

(* ------------------------------------------------------------ C13: headers *)
SegVals == {0, 2, 4, 8, 16, 32, 64, 65}
MaxVals == {50, 128, 206, 480, 1024, 1476}
ApduOf(ty) ==
  [ty |-> ty, seg |-> R(BOOLEAN) /\ ty \in {0, 48}, more |-> R(BOOLEAN) /\ ty \in {0, 48}, sa |-> R(BOOLEAN) /\ ty = 0,
   segs |-> R(SegVals), max |-> R(MaxVals), inv |-> RB(0), seq |-> RB(0), win |-> RB(0), svc |-> RB(0),
   cls |-> R({0, 1, 2, 5, 7, 255, 256, 65535}), code |-> R({0, 1, 31, 32, 127, 128, 255, 256, 65535})]
RApdu(x) == With(Pick(<<0, 0, 16, 48, 48, 32, 80>>), ApduOf)
ApduCase(a, tail) == IF a.ty \in {32, 80} THEN [k |-> "apdudec", a |-> a, tail |-> tail] ELSE [k |-> "apdu", a |-> a, tail |-> tail]
A0 == [ty |-> 0, seg |-> FALSE, more |-> FALSE, sa |-> FALSE, segs |-> 0, max |-> 1476, inv |-> 1, seq |-> 7, win |-> 9, svc |-> 12,
       cls |-> 0, code |-> 0]
EnumHdr == SetToSeq({ApduCase([A0 EXCEPT !.seg = s, !.more = m, !.sa = q, !.segs = g, !.max = x], <<1, 2, 3>>) :
                     s \in BOOLEAN, m \in BOOLEAN, q \in BOOLEAN, g \in SegVals, x \in MaxVals})
   \o SetToSeq({ApduCase([A0 EXCEPT !.ty = t, !.svc = v, !.inv = n, !.seg = s /\ t = 48, !.more = s /\ t = 48], <<5>>) :
                     t \in {0, 16, 32, 48, 80}, v \in {0, 1, 8, 12, 14, 15, 16, 26, 29, 255}, n \in {0, 1, 128, 254, 255}, s \in BOOLEAN})
   \o SetToSeq({[k |-> "npdu", tail |-> <<1, 2, 3, 4>>,
                 n |-> [ver |-> 1, net |-> net, der |-> d, pri |-> p, dst |-> ds, src |-> sr, hop |-> 254, msg |-> g, vend |-> 513]] :
                     net \in BOOLEAN, d \in BOOLEAN, p \in 0..3, g \in {0, 3, 18, 127, 128, 255},
                     ds \in {NoAddr, [net |-> 1, adr |-> <<>>], [net |-> 65535, adr |-> <<>>], [net |-> 258, adr |-> <<7, 8, 9>>]},
                     sr \in {NoAddr, [net |-> 3, adr |-> <<1>>], [net |-> 769, adr |-> <<1, 2, 3, 4, 5, 6>>]}})
   \o SetToSeq({[k |-> "npdu", tail |-> <<16, 8>>,
                 n |-> [ver |-> 1, net |-> FALSE, der |-> TRUE, pri |-> 0, dst |-> [net |-> 5, adr |-> Text(a, 1)],
                        src |-> IF b = 0 THEN NoAddr ELSE [net |-> 6, adr |-> Text(b, 2)], hop |-> 255, msg |-> 0, vend |-> 0]] :
                     a \in {0, 1, 2, 5, 6, 7, 8, 18, 128, 255}, b \in {0, 1, 2, 6, 18, 127, 255}})
   \o SetToSeq({[k |-> "bvlc", func |-> f, b |-> Text(n, 3)] : f \in 0..12, n \in {0, 1, 2, 251, 252, 1476, 1493}})
RandHdr(x) == CASE R(1..3) = 1 -> With(RApdu(0), LAMBDA a : ApduCase(a, RTail(0)))
                [] R(1..8) = 1 -> [k |-> "bvlc", func |-> RB(0), b |-> RBytes(R(0..30))]
                [] OTHER -> [k |-> "npdu", n |-> RNpdu(0), tail |-> RTail(0)]

(* ------------------------------------------------- C16: acknowledgements *)
AppItem(x) == SmallOf(RWire(0))
RECURSIVE AppItemsC(_)
AppItemsC(n) == IF n = 0 THEN <<>> ELSE <<AppItem(0)>> \o AppItemsC(n - 1)
AppItems(n) == With(n, AppItemsC)
DT(x) == [t |-> "dt", v |-> <<RDate(0), RTime(0)>>]
RECURSIVE DTsC(_), NestedC(_, _)
DTsC(n) == IF n = 0 THEN <<>> ELSE <<DT(0)>> \o DTsC(n - 1)
DTs(n) == With(n, DTsC)
\* well-formed contents of any shape
PrimC(t, b) == CtxTag(t, Len(b)) \o b
NestedTag(t, q, depth) ==
  CASE q = 1 -> With(RBytes(R({1, 2, 3, 4, 5, R(0..7)})), LAMBDA b : PrimC(t, b))
    [] q <= 3 /\ depth > 0 -> Open(t) \o With(R(0..3), LAMBDA n : NestedC(n, depth - 1)) \o Close(t)
    [] OTHER -> With(AppItem(0), AppValue)
NestedC(n, depth) == IF n = 0 THEN <<>>
  ELSE With(R({0, 1, 2, 3, 4, 5, 7, 8, 14, 15, 30, R(0..20)}), LAMBDA t : With(R(1..4), LAMBDA q : NestedTag(t, q, depth)))
       \o NestedC(n - 1, depth)
Constructed(x) == [t |-> "any", b |-> With(R(1..4), LAMBDA n : NestedC(n, 3))]
\* properties whose contents the library has rules for
Ruled == {<<0,0,0,2>>, <<0,0,0,38>>, <<0,0,0,53>>, <<0,0,0,102>>, <<0,0,0,130>>, <<0,0,0,132>>, <<0,0,0,152>>, <<0,0,0,211>>, <<0,0,0,212>>, <<0,0,0,218>>,
          <<0,0,0,123>>, <<0,0,0,85>>}
\* a bare value is what is sent when there is one value
ListOf(s) == [t |-> "list", v |-> s]
RContent(x) == CASE R(1..8) <= 3 -> ListOf(AppItems(1))
                 [] R(1..5) <= 2 -> ListOf(AppItems(R({0, 0, 2, 3, 4, 20})))
                 [] R(1..3) = 1 -> ListOf(DTs(R(1..3)))
                 [] OTHER -> Constructed(0)
AckProp(x) == With(RContent(0), LAMBDA v :
   [p |-> IF v.t = "any" /\ R(1..3) # 1 THEN R(Ruled) ELSE RProp(0), ix |-> RIx(0), pri |-> 0, v |-> v])
RECURSIVE AckPropsC(_), AckObjsC(_)
AckPropsC(n) == IF n = 0 THEN <<>> ELSE <<AckProp(0)>> \o AckPropsC(n - 1)
AckProps(n) == With(n, AckPropsC)
AckObjsC(n) == IF n = 0 THEN <<>> ELSE <<[ty |-> RTy(0), in |-> RIn(0), props |-> AckProps(R({1, 1, 2, 3, 5}))]>> \o AckObjsC(n - 1)
AckObjs(n) == With(n, AckObjsC)
RandAck(x) ==
  IF R(1..4) = 1
  THEN [k |-> "rpackdec", objs |-> <<[ty |-> RTy(0), in |-> RIn(0), props |-> <<[p |-> RProp(0), ix |-> RIx(0), pri |-> 0,
                                      v |-> ListOf(AppItems(R({0, 1, 1, 1, 2, 3, 10, 40})))]>>]>>]
  ELSE [k |-> "rpmackdec", objs |-> AckObjs(R({1, 1, 2, 3, 6}))]
V(n) == CASE n = 1 -> U1 [] n = 2 -> [t |-> "bool", v |-> TRUE] [] n = 3 -> [t |-> "null"] [] n = 4 -> Val4("str", Text(5, 1))
          [] n = 5 -> [t |-> "bits", v |-> <<1, 0, 1, 1>>] [] n = 6 -> Val4("enum", <<0,0,0,3>>) [] n = 7 -> Val4("oct", <<1, 2, 3>>)
          [] n = 8 -> Val4("int", <<255,255,255,254>>) [] n = 9 -> [t |-> "bool", v |-> FALSE] [] n = 10 -> Val4("str", <<>>)
EnumAck == SetToSeq({[k |-> "rpackdec", objs |-> One(t, n, p, ix, ListOf([j \in 1..m |-> V(1 + ((j + m) % 10))]), 0)] :
                     t \in {0, 8, 1023}, n \in {<<0,0,0,0>>, <<0,63,255,255>>}, p \in {<<0,0,0,85>>, <<0,0,2,0>>, <<0,63,255,255>>},
                     ix \in {ArrayAll, <<0,0,0,0>>, <<0,0,0,16>>, <<0,0,1,0>>, <<255,255,255,254>>}, m \in {0, 1, 2, 3, 11}})
   \o SetToSeq({[k |-> "rpmackdec", objs |-> [o \in 1..no |-> [ty |-> o, in |-> U32(o * 300), props |->
                     [q \in 1..np |-> Ref0(<<0,0,0,80 + q>>, IF (q + o) % 2 = 0 THEN ArrayAll ELSE U32(q * 200),
                                           ListOf([j \in 1..((m + q) % 4) |-> V(1 + ((j + q + o) % 10))]), 0)]]]] :
                     no \in 1..5, np \in 1..5, m \in 0..3})
   \* long ones: what a growing or bounded list would lose
   \o SetToSeq({[k |-> "rpmackdec", objs |-> [o \in 1..q[1] |-> [ty |-> o % 7, in |-> U32(o * 300), props |->
                     [u \in 1..q[2] |-> Ref0(<<0,0,0,80 + u>>, IF (u + o) % 2 = 0 THEN ArrayAll ELSE U32(u * 200), ListOf(<<V(1 + ((u + o) % 10))>>), 0)]]]] :
                     q \in {<<1, 15>>, <<1, 16>>, <<1, 17>>, <<1, 33>>, <<1, 100>>, <<2, 20>>, <<16, 1>>, <<17, 2>>, <<33, 1>>, <<65, 1>>, <<20, 4>>}})
   \o SetToSeq({[k |-> "rpackdec", objs |-> One(8, <<0,0,0,1>>, <<0,0,0,76>>, ArrayAll, ListOf([j \in 1..m |-> V(1 + (j % 10))]), 0)] : m \in {16, 17, 64, 65, 128, 129, 255, 256, 257, 300}})
   \* every pair of kinds, and every triple
   \o [x \in 1..100 |-> [k |-> "rpackdec", objs |-> One(2, <<0,0,0,1>>, <<0,0,0,85>>, ArrayAll, ListOf(<<V(1 + (x % 10)), V(1 + ((x \div 10) % 10))>>), 0)]]
   \o [x \in 1..100 |-> [k |-> "rpmackdec", objs |-> One(2, <<0,0,0,1>>, <<0,0,0,85>>, ArrayAll, ListOf(<<V(1 + (x % 10)), V(1 + ((x \div 10) % 10))>>), 0)]]
   \o [x \in 1..1000 |-> [k |-> "rpmackdec", objs |-> One(2, <<0,0,0,1>>, <<0,0,0,87>>, ArrayAll,
                     ListOf(<<V(1 + (x % 10)), V(1 + ((x \div 10) % 10)), V(1 + ((x \div 100) % 10))>>), 0)]]
   \o SetToSeq({[k |-> "iamdec", iam |-> [ty |-> 8, id |-> n, max |-> m, seg |-> U32(s), vend |-> v]] :
                     n \in Instances, m \in Dev4, s \in 0..3, v \in {<<0,0,0,0>>, <<0,0,1,0>>, <<0,0,255,255>>}})

(* --------------------------------------------- C15: arbitrary bodies *)
Decoders == <<"rpack", "rpmack", "iam">>
BodyC(dec, x) == CASE dec = "rpack" -> RPAckWire(x[1]) [] dec = "rpmack" -> RPMAckWire(x) [] dec = "iam" -> IAmBody(x)
                   [] dec = "whois" -> WhoIsBody(FALSE, U32(x), U32(4194303))
                   [] dec = "app" -> AppValues(x) [] dec = "npdu" -> NPDU(x) \o <<16, 8>> [] dec = "apdu" -> APDUHdr(x) \o <<1, 2>>
                   [] dec = "bvlc" -> BVLC(x % 12, <<1, 0, 16, 8>>)
Body(dec) == With(CASE dec = "rpack" -> <<[ty |-> RTy(0), in |-> RIn(0), props |-> <<[p |-> RProp(0), ix |-> RIx(0), pri |-> 0,
                                          v |-> ListOf(AppItems(R({1, 1, 1, 2, 4})))]>>]>>
                    [] dec = "rpmack" -> AckObjs(R(1..2)) [] dec = "iam" -> RIamMsg(0) [] dec = "whois" -> R(0..4194303)
                    [] dec = "app" -> ListOf(AppItems(R({1, 1, 2}))) [] dec = "npdu" -> [RNpdu(0) EXCEPT !.msg = R({1, 19, @})]
                    [] dec = "apdu" -> RApdu(0) [] dec = "bvlc" -> R(0..255),
                  LAMBDA x : BodyC(dec, x))
Twice(b) == IF R(1..3) = 1 THEN With(Mutate(b, R(1..22)), LAMBDA m : Mutate(m, R(1..22))) ELSE Mutate(b, R(1..22))
RandAny(x) == With(Pick(Decoders), LAMBDA dec : [k |-> "any", dec |-> dec, b |-> With(Body(dec), LAMBDA b : With(R(1..12), LAMBDA q :
                   CASE q = 1 -> b [] q = 2 -> RBytes(R(0..40)) [] OTHER -> Twice(b)))])
Sweeps == <<"rpack", "rpack", "rpmack", "rpmack", "rpmack", "iam", "whois", "app", "app", "npdu", "apdu", "bvlc">>
Short(b) == IF Len(b) > 120 THEN SubSeq(b, 1, 120) ELSE b
RandSweep(x) == With(Pick(Sweeps), LAMBDA dec : [k |-> "sweep", dec |-> dec, per |-> 200, b |-> With(Body(dec), Short)])
EnumAny == [j \in 1..150 |-> [k |-> "none"]]

(* ---------------------------------------------------------------------- *)
Enum == CASE Profile = "C11" -> EnumEnc [] Profile = "C14" -> EnumDec [] Profile = "C12" -> EnumReq
          [] Profile = "C13" -> EnumHdr [] Profile = "C16" -> EnumAck [] Profile = "C15" -> EnumAny
NE == Len(Enum)
Draw(n) == IF n <= NE THEN (IF Profile = "C15" THEN RandSweep(0) ELSE Enum[n])
           ELSE CASE Profile = "C11" -> RandEnc(0) [] Profile = "C14" -> RandDec(0) [] Profile = "C12" -> RandReq(0)
                  [] Profile = "C13" -> RandHdr(0) [] Profile = "C16" -> RandAck(0) [] Profile = "C15" -> RandAny(0)
\* what the driver needs besides: the bytes
Finish(x) == CASE x.k = "appdec" -> [k |-> x.k, v |-> x.v, tail |-> x.tail, b |-> Long(x.v, x.n, x.ext)]
               [] x.k = "wp" -> [x EXCEPT !.objs[1] = Fit(@)]
               [] x.k = "rpackdec"  -> [k |-> x.k, objs |-> x.objs, b |-> RPAckWire(x.objs[1])]
               [] x.k = "rpmackdec" -> [k |-> x.k, objs |-> x.objs, b |-> RPMAckWire(x.objs)]
               [] x.k = "iamdec" -> [k |-> x.k, iam |-> x.iam, b |-> IAmBody(x.iam)]
               [] x.k = "apdudec" -> [k |-> x.k, a |-> x.a, tail |-> x.tail, b |-> APDUHdr(x.a)]
               [] OTHER -> x
GInit == i = 0 /\ c = [k |-> "none"]
GNext == i < N /\ i' = i + 1 /\ \E x \in {Draw(i + 1)} : c' = x
GSpec == GInit /\ [][GNext]_gvars
Emit == i = 0 \/ PrintT("SCRIPT " \o ToJson(Finish(c)))
=============================================================================
