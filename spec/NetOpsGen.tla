----------------------------- MODULE NetOpsGen -----------------------------
(***************************************************************************)
(* Devices, their failures, and calls for the real library.                *)
(* Profile: "scan", "points", "list", "disc".                              *)
(***************************************************************************)
EXTENDS Rand
CONSTANTS Profile, N
VARIABLES n
P == INSTANCE Peer
All == ArrayAll

(* -------------------------------------------------------------- tables *)
Pair(ty, in4, p4, e) == <<P!Key(ty, in4, p4), e>>
V(b) == [k |-> "v", b |-> b, w |-> FALSE]
VW(b) == [k |-> "v", b |-> b, w |-> TRUE]
Err(c, d) == [k |-> "e", c |-> c, d |-> d]
TabOf(ps) == [key \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = key][2]]
Str(b) == P!Text8(b)
Oid(ty, in4) == AppValue([t |-> "oid", ty |-> ty, in |-> in4])
NameText(i, l, k) == <<65 + (i \div 26), 97 + (i % 26)>> \o Text(l, k)
\* values of other types than the expected one
OddValue(x) == Pick(<<P!Uns(7), P!Enu(3), <<0>>, <<17>>, AppValue([t |-> "real", b |-> <<66, 40, 0, 0>>]), Oid(2, <<0, 0, 0, 9>>),
                      P!Uns(7) \o P!Uns(8), <<>>, Str(<<97>>) \o Str(<<98>>)>>)
DevProps(id, list, whole, nm) ==
  <<Pair(8, id, P!ObjList, [k |-> "a", l |-> list, whole |-> whole]), Pair(8, id, P!ObjName, VW(Str(nm)))>>

(* ------------------------------------------------------------- devices *)
Ip(a, b) == <<10, 0, a, b>>
Mac(x) == Ip(R(0..255), R(1..254)) \o Pick(<<<<186, 192>>, <<186, 192>>, <<186, 193>>, <<0, 1>>, <<255, 255>>, <<128, 0>>>>)
DevId(x) == Pick(<<<<0,0,0,1>>, <<0,0,0,0>>, <<0,0,1,0>>, <<0,1,226,64>>, <<0,63,255,254>>, <<0, R(0..62), RB(0), RB(0)>>>>)
FarNet(x) == R({1, 2, 255, 256, 65534, R(1..65534)})
\* where a device lives; devices of the package network have one byte behind a router
RWhere(long) == IF R(1..2) = 1 THEN [mac |-> Mac(0), net |-> 0, adr |-> <<>>]
                ELSE [mac |-> Mac(0), net |-> FarNet(0), adr |-> IF long THEN RBytes(R({1, 2, 3, 6, 7})) ELSE <<RB(0)>>]
IamFrame(w, id, a) ==
  LET apdu == UnconfReq(0, IAmBody([ty |-> 8, id |-> id, max |-> a.max, seg |-> a.seg, vend |-> a.vend]))
  IN BVLC(Pick(<<Unicast, Broadcast>>), (IF w.net = 0 THEN PlainHdr ELSE NPDU([PlainNPDU EXCEPT !.src = [net |-> w.net, adr |-> w.adr]])) \o apdu)
Announced(x) == [max |-> Pick(<<U32(1476), U32(480), U32(50), U32(206), U32(1024)>>), seg |-> U32(R(0..3)), vend |-> U32(R({0, 1, 255, 999}))]
MkDev(w, id, ann) == [id |-> id, mac |-> w.mac, net |-> w.net, adr |-> w.adr, max |-> 1476, seg |-> 3, made |-> Pick(<<"new", "store">>), iam |-> ann]
MkSim(w, id, tab, faults, ann, at) ==
  [mac |-> w.mac, net |-> w.net, adr |-> w.adr, tab |-> tab, faults |-> faults, delay |-> R({0, 1, 20, 300}),
   iam |-> IF ann = <<>> THEN <<>> ELSE <<[at |-> at, src |-> w.mac, b |-> IamFrame(w, id, ann[1])]>>]

ReadFaults == <<"drop", "error", "abort", "late", "lost", "twice">>
ScanFaults == <<"drop", "error", "abort", "late", "dropprop", "dropobj", "revobj", "swapid", "revprop", "dupprop", "dupobj", "extra", "empty", "none", "dropprop", "dupprop", "twice">>
RFaults(kinds, m) == IF R(1..2) = 1 THEN [j \in {"0"} |-> "drop"]
                     ELSE IF R(1..3) # 1 THEN [j \in {ToString(R(1..m))} |-> Pick(kinds)]
                     ELSE [j \in {ToString(R(1..m)), ToString(R(1..m))} |-> Pick(kinds)]

(* ------------------------------------------------------------- scanning *)
Sizes == {0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 23, 24, 25, 26}
RSize(x) == IF R(1..3) # 1 THEN R(Sizes) ELSE IF R(1..6) = 1 THEN R(60..110) ELSE R(0..40)
ScanOid(i, base) == [ty |-> With(R({0, 0, 0, 1, 2, 4, 6, 41, 42, 43, R(0..41), R(42..340)}), LAMBDA k : IF 3 * k + (i % 3) = 8 THEN 11 ELSE 3 * k + (i % 3)),
                     in |-> U32(base + (i \div 3))]
ScanOids(m) == With(R({0, 1, 250, 65530, 4194200}), LAMBDA base : [i \in 1..m |-> ScanOid(i, base)])
BreakIt(ps, oids, m) ==    \* something is missing or of the wrong type
  IF m = 0 \/ R(1..3) # 1 THEN ps
  ELSE With([j |-> R(1..m), how |-> R(1..5)], LAMBDA q :
    LET o == IF oids[q.j].ty = 128 THEN oids[1] ELSE oids[q.j]
        nk == P!Key(o.ty, o.in, IF R(1..2) = 1 THEN P!ObjName ELSE P!Descr)
    IN CASE q.how \in {1, 2} -> SelectSeq(ps, LAMBDA z : z[1] # nk)
         [] q.how = 3 -> [i \in 1..Len(ps) |-> IF ps[i][1] = nk THEN <<nk, V(OddValue(0))>> ELSE ps[i]]
         [] q.how = 4 -> [ps EXCEPT ![1][2].l[q.j] = Pick(<<P!Uns(5), <<>>, <<0>>>>)]
         [] OTHER -> [ps EXCEPT ![1][2] = Pick(<<Err(2, 32), V(P!Uns(3)), Err(1, 31)>>)])
ScanPairsC(id, oids) ==
  LET m == Len(oids) IN
  BreakIt(DevProps(id, [i \in 1..m |-> Oid(oids[i].ty, oids[i].in)], Pick(<<"ok", "abort">>), <<68>>) \o
    FlatSeq([i \in 1..m |-> IF oids[i].ty > 128 /\ R(1..2) = 1 THEN <<>> ELSE
       <<Pair(oids[i].ty, oids[i].in, P!ObjName, V(Str(NameText(i, R({0, 1, 8, 20, 50}), 3)))),
         Pair(oids[i].ty, oids[i].in, P!Descr, V(Str(IF R(1..8) = 1 THEN <<>> ELSE NameText(i, R({0, 5, 30, 60}), 50))))>>]), oids, m)
ScanDev(x) == With(<<RWhere(TRUE), DevId(0), ScanOids(RSize(0))>>, LAMBDA q :
  [dev |-> MkDev(q[1], q[2], <<>>), sim |-> MkSim(q[1], q[2], With(ScanPairsC(q[2], q[3]), TabOf), RFaults(ScanFaults, 12), <<>>, 0)])
ScanOp(x) == [op |-> "objects", d |-> 1, max |-> IF R(1..3) # 1 THEN R({50, 51, 59, 60, 61, 79, 80, 128, 206, 480, 1024, 1476}) ELSE R(50..1476)]

(* --------------------------------------------------------------- points *)
PTypes == <<0, 1, 2, 3, 4, 5, 13, 14, 19>>
VtOf(ty) == IF ty <= 2 THEN 4 ELSE IF ty <= 5 THEN 9 ELSE 2
ModeOf(ty) == IF ty <= 2 THEN "real" ELSE IF ty <= 5 THEN "bool" ELSE "ms"
RealB(x) == IF R(1..3) = 1 THEN Pick(<<<<0,0,0,0>>, <<128,0,0,0>>, <<63,128,0,0>>, <<127,128,0,0>>, <<255,128,0,0>>, <<127,192,0,0>>, <<0,0,0,1>>, <<127,127,255,255>>>>)
            ELSE <<R({63, 64, 65, 66, 192, 193, 0, 128, R(0..126)})>> \o RBytes(3)
NumB(ty) == IF ty <= 2 THEN RealB(0) ELSE IF ty <= 5 THEN U32(R({0, 1})) ELSE U32(R({0, 1, 2, 3, 255, 256, 65535, 65536, R(1..65535), R(65536..16777215)}))
PvB(ty) == CASE VtOf(ty) = 4 -> AppValue([t |-> "real", b |-> RealB(0)])
             [] VtOf(ty) = 9 -> P!Enu(R(0..1)) [] OTHER -> AppValue([t |-> "uint", b |-> NumB(ty)])
Insts == <<<<0,0,0,0>>, <<0,0,0,1>>, <<0,0,1,1>>, <<0,63,255,254>>>>
RPa(ty) == With(R({0, 0, 1, 3, 8}), LAMBDA k : [i \in 1..16 |-> IF R(1..16) <= 2 * k THEN PvB(ty) ELSE <<0>>])
PointPairs(ty, in4, i) ==
  (IF ty \in {0, 3, 13} THEN <<Pair(ty, in4, P!PV, V(PvB(ty)))>>
   ELSE <<Pair(ty, in4, P!PV, [k |-> "c", pa |-> RPa(ty), def |-> PvB(ty), vt |-> VtOf(ty)]),
          Pair(ty, in4, P!PA, [k |-> "r", of |-> P!Key(ty, in4, P!PV)])>>) \o
  (IF R(1..12) = 1 THEN <<>> ELSE <<Pair(ty, in4, P!ObjName, VW(Str(NameText(i, R({0, 3, 20}), 7))))>>) \o
  (IF R(1..12) = 1 THEN <<Pair(ty, in4, P!Descr, Err(2, 31))>> ELSE <<Pair(ty, in4, P!Descr, VW(Str(NameText(i, 4, 9))))>>) \o
  (IF R(1..6) = 1 THEN <<>> ELSE <<Pair(ty, in4, P!Units, V(P!Enu(R({0, 62, 64, 95, 255, 256}))))>>)
RECURSIVE PairsFor(_, _)
PairsFor(pts, i) == IF i > Len(pts) THEN <<>> ELSE PointPairs(pts[i].ty, pts[i].in, i) \o PairsFor(pts, i + 1)
RPts(m) == With(R(0..8), LAMBDA s : [i \in 1..m |-> [ty |-> PTypes[1 + ((i + s) % 9)], in |-> Insts[1 + ((i \div 9) % 4)]]])
Details(id, a) ==
  (IF R(1..6) = 1 THEN <<>> ELSE <<Pair(8, id, P!MaxAPDU, V(AppValue([t |-> "uint", b |-> a.max])))>>) \o
  (IF R(1..6) = 1 THEN <<>> ELSE <<Pair(8, id, P!SegSup, V(AppValue([t |-> "enum", b |-> a.seg])))>>) \o
  (IF R(1..6) = 1 THEN <<>> ELSE <<Pair(8, id, P!VendorName, V(Str(NameText(R(0..99), R({0, 9, 40}), 2))))>>)
PointDev(w, id, pts, dn) ==
  With(Announced(0), LAMBDA a :
    [dev |-> MkDev(w, id, <<a>>), pts |-> pts,
     sim |-> MkSim(w, id, With(DevProps(id, [i \in 1..Len(pts) |-> Oid(pts[i].ty, pts[i].in)], "ok", <<68, 48 + dn>>) \o Details(id, a) \o PairsFor(pts, 1), TabOf),
                   RFaults(ReadFaults, 14), <<a>>, R({1, 5, 100, 900}))])
\* two or three devices, some of them behind the same router or with the same MAC on different networks
Places(m) == With(<<RWhere(FALSE), FarNet(0), RB(0)>>, LAMBDA q :
  CASE m = 1 -> <<q[1]>>
    [] R(1..2) = 1 -> [i \in 1..m |-> [mac |-> q[1].mac, net |-> q[2], adr |-> <<(q[3] + i) % 256>>]]
    [] R(1..2) = 1 -> [i \in 1..m |-> [mac |-> q[1].mac, net |-> 1 + ((q[2] + i) % 65534), adr |-> <<q[3]>>]]
    [] OTHER -> [i \in 1..m |-> [mac |-> Ip(i, R(1..254)) \o <<186, 192>>, net |-> IF i = 1 THEN 0 ELSE q[2], adr |-> IF i = 1 THEN <<>> ELSE <<q[3]>>]])
LongPlaces(m) == With(Places(m), LAMBDA ws : [i \in 1..m |-> IF ws[i].net # 0 /\ R(1..2) = 1 THEN [ws[i] EXCEPT !.adr = @ \o RBytes(R({1, 2, 5}))] ELSE ws[i]])
IdsFor(m) == With(R({0, 1, 77, 65500, 4194000}), LAMBDA b : [i \in 1..m |-> U32(b + 3 * i)])
RECURSIVE MkPoint(_, _, _, _)
MkPoint(ws, ids, pts, i) == IF i > Len(ws) THEN <<>> ELSE <<PointDev(ws[i], ids[i], pts, i)>> \o MkPoint(ws, ids, pts, i + 1)
Word(x) == NameText(R(0..99), R({0, 1, 10, 40}), R(0..90))
RPri(x) == R({0, 0, 1, 2, 8, 15, 16, R(1..16)})
WpmVal(ty) == CASE R(1..4) = 1 -> [t |-> "null"] [] VtOf(ty) = 4 -> [t |-> "real", b |-> RealB(0)]
                [] VtOf(ty) = 9 -> [t |-> "enum", b |-> NumB(ty)] [] OTHER -> [t |-> "uint", b |-> NumB(ty)]
PointOpC(d, o, other) ==
  With(R(1..100), LAMBDA k :
   CASE k <= 22 -> [op |-> "pwr", d |-> d, ty |-> o.ty, in |-> o.in, m |-> ModeOf(o.ty), v |-> [t |-> "x", b |-> NumB(o.ty)], pri |-> RPri(0)]
     [] k <= 25 -> [op |-> "pwr", d |-> d, ty |-> o.ty, in |-> o.in, m |-> Pick(<<"real", "bool", "ms">>), v |-> [t |-> "x", b |-> NumB(13)], pri |-> RPri(0)]
     [] k <= 37 -> [op |-> "prel", d |-> d, ty |-> o.ty, in |-> o.in, pri |-> IF R(1..4) = 1 THEN R({0, 17, 18, 32, 255}) ELSE R(1..16)]
     [] k <= 52 -> [op |-> "prd", d |-> d, ty |-> o.ty, in |-> o.in, m |-> ModeOf(o.ty)]
     [] k <= 69 -> [op |-> "ppri", d |-> d, ty |-> o.ty, in |-> o.in]
     [] k <= 72 -> [op |-> "rname", d |-> d, ty |-> o.ty, in |-> o.in]
     [] k <= 75 -> [op |-> "wname", d |-> d, ty |-> o.ty, in |-> o.in, v |-> [t |-> "str", b |-> Word(0)]]
     [] k <= 77 -> [op |-> "rdname", d |-> d]
     [] k <= 79 -> [op |-> "wdname", d |-> d, v |-> [t |-> "str", b |-> Word(0)]]
     [] k <= 85 -> [op |-> "wgen", d |-> d, ty |-> o.ty, in |-> o.in, p |-> Pick(<<P!PV, P!PV, P!PV, P!ObjName, P!Descr, P!Units>>), null |-> R(1..5) = 1, pri |-> RPri(0),
                    v |-> Pick(<<[t |-> "uint", b |-> NumB(13)], [t |-> "uint", b |-> U32(1)], [t |-> "real", b |-> RealB(0)], [t |-> "double", b |-> <<64>> \o RBytes(7)],
                                 [t |-> "str", b |-> Word(0)], [t |-> "ilist"], [t |-> "struct"], [t |-> "nil"]>>)]
     [] k <= 89 -> [op |-> "rgen", d |-> d, ty |-> o.ty, in |-> o.in, p |-> Pick(<<P!PV, P!PA, P!PA, P!ObjName, P!Units, <<0, 0, 2, 1>>>>),
                    ix |-> Pick(<<All, All, U32(0), U32(1), U32(8), U32(16), U32(17), U32(256)>>)]
     [] k <= 91 -> [op |-> "rstr", d |-> d, ty |-> o.ty, in |-> o.in, p |-> Pick(<<P!ObjName, P!Descr, P!PV>>), ix |-> All]
     [] k <= 94 -> [op |-> "pdet", d |-> d, ty |-> o.ty, in |-> o.in]
     [] k <= 97 -> [op |-> "rpm", d |-> d, max |-> R({1476, 1476, 480, 50}), objs |->
                    <<[ty |-> o.ty, in |-> o.in, props |-> <<[p |-> P!PV, ix |-> All, pri |-> 0, v |-> U1], [p |-> P!PA, ix |-> U32(R(1..16)), pri |-> 0, v |-> U1]>>],
                      [ty |-> other.ty, in |-> other.in, props |-> <<[p |-> P!ObjName, ix |-> All, pri |-> 0, v |-> U1], [p |-> P!PV, ix |-> All, pri |-> 0, v |-> U1]>>]>>]
     [] OTHER -> [op |-> "wpm", d |-> d, max |-> R({1476, 1476, 480, 50}), objs |->
                    <<[ty |-> o.ty, in |-> o.in, props |-> <<[p |-> P!PV, ix |-> All, pri |-> RPri(0), v |-> WpmVal(o.ty)]>>],
                      [ty |-> other.ty, in |-> other.in, props |-> <<[p |-> P!PV, ix |-> All, pri |-> RPri(0), v |-> WpmVal(other.ty)]>>]>>])
PointOp(m, pts) == With(<<R(1..m), R(1..Len(pts)), R(1..Len(pts))>>, LAMBDA q : PointOpC(q[1], pts[q[2]], pts[q[3]]))
RECURSIVE PointOps(_, _, _)
PointOps(k, m, pts) == IF k = 0 THEN <<>> ELSE <<PointOp(m, pts)>> \o PointOps(k - 1, m, pts)
PointCase(x) == With(<<R({1, 2, 2, 3}), RPts(R({3, 9, 12}))>>, LAMBDA q :
  With(MkPoint(Places(q[1]), IdsFor(q[1]), q[2], 1), LAMBDA ds :
    [devs |-> [i \in 1..Len(ds) |-> ds[i].dev], sim |-> [devs |-> [i \in 1..Len(ds) |-> ds[i].sim]], ops |-> PointOps(R({12, 25}), Len(ds), q[2])]))

(* ----------------------------------------------------- object lists *)
ListOids(m) == With(R({0, 1, 65530, 4194303 - m}), LAMBDA base : [i \in 1..m |-> IF i = 1 /\ R(1..2) = 1 THEN [ty |-> 8, in |-> U32(1)]
                      ELSE [ty |-> R({0, 1, 2, 3, 4, 5, 13, 19, 127, 128, 1023, R(0..1023)}), in |-> U32(base + i)]])
RECURSIVE PtPairs(_, _)
PtPairs(oids, i) == IF i > Len(oids) THEN <<>> ELSE
   (IF R(1..6) = 1 THEN <<>> ELSE <<Pair(oids[i].ty, oids[i].in, P!ObjName, V(Str(NameText(i, R({0, 3, 20}), 7))))>>) \o
   (IF R(1..3) = 1 THEN <<>> ELSE <<Pair(oids[i].ty, oids[i].in, P!Units, V(P!Enu(R({0, 62, 95, 255, 256}))))>>) \o PtPairs(oids, i + 1)
BreakList(l) == IF l = <<>> \/ R(1..4) # 1 THEN l ELSE With(R(1..Len(l)), LAMBDA j : [l EXCEPT ![j] = Pick(<<<<>>, P!Uns(5), <<0>>>>)])
ListDev(x) == With(<<RWhere(FALSE), DevId(0), ListOids(CASE R(1..16) = 1 -> R({100, 128, 255, 256, 257, 290}) [] R(1..2) = 1 -> R({0, 1, 2}) [] OTHER -> R({3, 5, 8, 20, 40})), Announced(0)>>, LAMBDA q :
  LET l == [i \in 1..Len(q[3]) |-> Oid(q[3][i].ty, q[3][i].in)] IN
  [dev |-> MkDev(q[1], q[2], <<q[4]>>),
   sim |-> MkSim(q[1], q[2], With(DevProps(q[2], BreakList(l), Pick(<<"ok", "ok", "abort", "error", "drop">>), <<68>>) \o Details(q[2], q[4]) \o PtPairs(q[3], 1), TabOf),
                 RFaults(ReadFaults, 8), <<q[4]>>, R({1, 100}))])
ListOp(x) == Pick(<<[op |-> "devobjs", d |-> 1, chk |-> FALSE], [op |-> "devobjs", d |-> 1, chk |-> FALSE], [op |-> "devobjs", d |-> 1, chk |-> TRUE], [op |-> "devpts", d |-> 1],
                    [op |-> "ddet", d |-> 1]>>)
One1(q, ops) == [devs |-> <<q.dev>>, sim |-> [devs |-> <<q.sim>>], ops |-> ops]
ListCase(x) == With(ListDev(0), LAMBDA q : One1(q, <<ListOp(0), ListOp(0), ListOp(0)>>))
ScanCase(x) == With(ScanDev(0), LAMBDA q : One1(q, IF R(1..2) = 1 THEN <<ScanOp(0)>> ELSE <<ScanOp(0), ScanOp(0)>>))

(* ------------------------------------------------- details of objects *)
\* every unit number is worth asking for; the borders of the named ones, numbers of more than two octets, and what is no number
RUnit(x) == CASE R(1..10) <= 6 -> P!Enu(R(0..240)) [] R(1..3) = 1 -> P!Enu(R({95, 104, 105, 114, 115, 222, 223, 224, 236, 237, 255, 256, 511, 65534, 65535}))
              [] R(1..3) = 1 -> P!Uns(R(0..300)) [] R(1..3) = 1 -> P!Enu(R({65536, 65598, 131134, 16777278})) [] OTHER -> OddValue(0)
DetPairs(ty, in4, i) ==
  (IF R(1..6) = 1 THEN <<>> ELSE <<Pair(ty, in4, P!ObjName, VW(Str(NameText(i, R({0, 1, 3, 20, 60}), R(0..90)))))>>) \o
  (IF R(1..6) = 1 THEN <<>> ELSE <<Pair(ty, in4, P!Units, V(RUnit(0)))>>)
RECURSIVE DetAll(_, _)
DetAll(oids, i) == IF i > Len(oids) THEN <<>> ELSE DetPairs(oids[i].ty, oids[i].in, i) \o DetAll(oids, i + 1)
DetDev(w, id, oids, dn) == With(Announced(0), LAMBDA a :
  LET l == [i \in 1..Len(oids) |-> Oid(oids[i].ty, oids[i].in)] IN
  [dev |-> MkDev(w, id, <<a>>),
   sim |-> MkSim(w, id, With(DevProps(id, BreakList(l), Pick(<<"ok", "ok", "abort">>), <<68, 48 + dn>>) \o DetAll(oids, 1), TabOf), RFaults(ReadFaults, 14), <<a>>, R({1, 100}))])
RECURSIVE MkDet(_, _, _, _)
MkDet(ws, ids, oids, i) == IF i > Len(ws) THEN <<>> ELSE <<DetDev(ws[i], ids[i], oids, i)>> \o MkDet(ws, ids, oids, i + 1)
DetOids(m) == With(R({0, 1, 65530, 4194200}), LAMBDA base : [i \in 1..m |-> [ty |-> R({0, 1, 2, 3, 4, 5, 10, 13, 14, 15, 19, 20, 40, 8, R(0..60), 1023, R(0..1023)}),
                                                                         in |-> U32(base + (i + 1) \div R(1..2))]])
DetOp(m, oids) == With(<<R(1..m), R(1..Len(oids))>>, LAMBDA q :
  IF R(1..4) = 1 THEN [op |-> "devpts", d |-> q[1]] ELSE [op |-> "pdet", d |-> q[1], ty |-> oids[q[2]].ty, in |-> oids[q[2]].in])
DetOidsU(m) == With(DetOids(m), LAMBDA os : IF Cardinality({os[i] : i \in 1..m}) = m THEN os ELSE [i \in 1..m |-> [ty |-> os[i].ty, in |-> U32(7 + i)]])
RECURSIVE DetOps(_, _, _)
DetOps(k, m, oids) == IF k = 0 THEN <<>> ELSE <<DetOp(m, oids)>> \o DetOps(k - 1, m, oids)
DetailCase(x) == With(<<R({1, 1, 2, 3}), DetOidsU(R({1, 2, 6, 12}))>>, LAMBDA q :
  With(MkDet(Places(q[1]), IdsFor(q[1]), q[2], 1), LAMBDA ds :
    [devs |-> [i \in 1..Len(ds) |-> ds[i].dev], sim |-> [devs |-> [i \in 1..Len(ds) |-> ds[i].sim]], ops |-> DetOps(R({3, 8}), Len(ds), q[2])]))

(* ----------------------------------------------------------- discovery *)
DiscDev(w, id, i) == With(Announced(0), LAMBDA a : With(IF R(1..8) = 1 THEN <<>> ELSE <<a>>, LAMBDA ann :
  [dev |-> MkDev(w, id, ann),
   sim |-> MkSim(w, id, With((IF R(1..6) = 1 THEN <<>> ELSE <<Pair(8, id, P!ObjName, V(Str(NameText(i, R({0, 9}), 11))))>>) \o Details(id, a), TabOf),
                 (IF R(1..10) = 1 THEN [j \in {"*"} |-> "drop"] ELSE RFaults(ReadFaults, 8)), ann, R({0, 1, 5, 100, 900, 1500}))]))
RECURSIVE MkDisc(_, _, _)
MkDisc(ws, ids, i) == IF i > Len(ws) THEN <<>> ELSE <<DiscDev(ws[i], ids[i], i)>> \o MkDisc(ws, ids, i + 1)
RRange(ids) == With(<<R(1..Len(ids)), R(1..Len(ids))>>, LAMBDA q :
   LET a == N4(ids[q[1]])
       b == N4(ids[q[2]])
       lo == IF a < b THEN a ELSE b
       hi == IF a < b THEN b ELSE a
   IN Pick(<<[low |-> -1, high |-> -1], [low |-> 0, high |-> 4194303], [low |-> lo, high |-> hi], [low |-> lo, high |-> hi], [low |-> lo + 1, high |-> hi + 1]>>))
DiscOp(ids) == With(RRange(ids), LAMBDA q : [op |-> Pick(<<"ndisc", "ndisc", "ddisc", "ddisc", "nwhois", "dwhois">>), d |-> 1, low |-> q.low, high |-> q.high,
                                            gb |-> R(1..3) = 1, net |-> R({0, 0, 7})])
DiscCase(x) == With(R({1, 2, 3, 3, 5}), LAMBDA m : With(IdsFor(m), LAMBDA ids : With(MkDisc(LongPlaces(m), ids, 1), LAMBDA ds :
    [devs |-> [i \in 1..m |-> ds[i].dev], sim |-> [devs |-> [i \in 1..m |-> ds[i].sim]], ops |-> <<DiscOp(ids), DiscOp(ids)>>])))

Case(x) == CASE Profile = "scan" -> ScanCase(0) [] Profile = "points" -> PointCase(0) [] Profile = "list" -> ListCase(0)
             [] Profile = "details" -> DetailCase(0) [] OTHER -> DiscCase(0)
GInit == n = 0
GNext == n < N /\ n' = n + 1 /\ PrintT("SCRIPT " \o ToJson(Case(0)))
GSpec == GInit /\ [][GNext]_n
=============================================================================
