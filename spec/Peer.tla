-------------------------------- MODULE Peer --------------------------------
(***************************************************************************)
(* A BACnet device that the library talks to: a table of properties, with  *)
(* a 16-slot priority array behind each commandable present value, and     *)
(* what it answers to the four services.  Values are kept as they appear   *)
(* on the wire.  A table is a record whose fields are keys "type_instance_ *)
(* property".                                                              *)
(***************************************************************************)
EXTENDS Wire, TLC
Key(ty, in4, p4) == ToString(ty) \o "_" \o ToString(N4(in4)) \o "_" \o ToString(N4(p4))
PV == <<0, 0, 0, 85>>   PA == <<0, 0, 0, 87>>   ObjName == <<0, 0, 0, 77>>   Descr == <<0, 0, 0, 28>>
ObjList == <<0, 0, 0, 76>>   Units == <<0, 0, 0, 117>>   MaxAPDU == <<0, 0, 0, 62>>   SegSup == <<0, 0, 0, 107>>
VendorName == <<0, 0, 0, 121>>
NullB == <<0>>                       \* a null on the wire
Text8(b) == AppValue([t |-> "str", b |-> b])
Uns(n) == AppValue([t |-> "uint", b |-> U32(n)])
Enu(n) == AppValue([t |-> "enum", b |-> U32(n)])

\* the present value that takes effect
RECURSIVE FirstSet(_, _)
FirstSet(pa, def) == IF pa = <<>> THEN def ELSE IF Head(pa) # NullB THEN Head(pa) ELSE FirstSet(Tail(pa), def)
Current(e) == FirstSet(e.pa, e.def)
ValK(b) == [k |-> "v", b |-> b]
ErrK(c, d) == [k |-> "e", c |-> c, d |-> d]
ArrayRead(l, whole, ix4) ==
  IF ix4 = ArrayAll THEN (CASE whole = "ok" -> ValK(FlatSeq(l)) [] whole = "error" -> ErrK(2, 31) [] OTHER -> [k |-> whole])
  ELSE IF ix4 = <<0, 0, 0, 0>> THEN ValK(Uns(Len(l)))
  ELSE IF ix4[1] > 0 \/ N4(ix4) > Len(l) THEN ErrK(2, 42)
  ELSE IF l[N4(ix4)] = <<>> THEN ErrK(2, 32) ELSE ValK(l[N4(ix4)])
\* what the device says when property p4 of an object is read
ReadOf(tab, ty, in4, p4, ix4) ==
  LET key == Key(ty, in4, p4) IN
  IF key \notin DOMAIN tab THEN ErrK(2, 32)
  ELSE LET e == tab[key] IN
    CASE e.k = "e" -> ErrK(e.c, e.d)
      [] e.k = "a" -> ArrayRead(e.l, e.whole, ix4)
      [] e.k = "r" -> ArrayRead(tab[e.of].pa, "ok", ix4)
      [] ix4 # ArrayAll -> ErrK(2, 50)
      [] e.k = "c" -> ValK(Current(e))
      [] OTHER -> ValK(e.b)
Slot(pri) == IF pri = 0 THEN 16 ELSE pri
\* whether a present value takes what is written
Takes(e, raw) == raw = NullB \/ (raw # <<>> /\ raw[1] \div 16 = e.vt)
\* error of writing, <<0, 0>> for none
WriteErr(tab, ty, in4, p) ==
  LET key == Key(ty, in4, p.p) IN
  IF key \notin DOMAIN tab THEN <<2, 32>>
  ELSE IF p.ix # ArrayAll THEN <<2, 50>>
  ELSE LET e == tab[key] IN
    CASE e.k = "c" -> IF Takes(e, p.raw) THEN <<0, 0>> ELSE <<2, 9>>
      [] e.k = "v" -> IF e.w THEN <<0, 0>> ELSE <<2, 40>>
      [] OTHER -> <<2, 40>>
Written(tab, ty, in4, p) ==
  LET key == Key(ty, in4, p.p) IN
  IF WriteErr(tab, ty, in4, p) # <<0, 0>> THEN tab
  ELSE IF tab[key].k = "c" THEN [tab EXCEPT ![key].pa[Slot(p.pri)] = p.raw]
  ELSE [tab EXCEPT ![key].b = p.raw]

(* ---------------------------------------------------------- the services *)
PropList(os) == FlatSeq([j \in 1..Len(os) |-> [i \in 1..Len(os[j].props) |-> [ty |-> os[j].ty, in |-> os[j].in, p |-> os[j].props[i]]]])
\* a write-multiple is carried out up to its first error
RECURSIVE WriteAll(_, _)
WriteAll(tab, ps) ==
  IF ps = <<>> THEN [tab |-> tab, err |-> <<0, 0>>]
  ELSE LET q == Head(ps)
           e == WriteErr(tab, q.ty, q.in, q.p)
       IN IF e # <<0, 0>> THEN [tab |-> tab, err |-> e] ELSE WriteAll(Written(tab, q.ty, q.in, q.p), Tail(ps))
After(tab, svc, os) == IF svc \in {SvcWP, SvcWPM} THEN WriteAll(tab, PropList(os)).tab ELSE tab
Reads(tab, os) == [j \in 1..Len(os) |-> [i \in 1..Len(os[j].props) |-> ReadOf(tab, os[j].ty, os[j].in, os[j].props[i].p, os[j].props[i].ix)]]
ErrValue(e) == Open(5) \o Enu(e.c) \o Enu(e.d) \o Close(5)
\* the whole APDU, <<>> for no answer
Answer(tab, id, svc, os) ==
  CASE svc = SvcRP ->
         LET o == os[1]
             v == ReadOf(tab, o.ty, o.in, o.props[1].p, o.props[1].ix)
         IN CASE v.k = "v" -> ComplexAck(id, svc, RPBody(o) \o Open(3) \o v.b \o Close(3))
              [] v.k = "e" -> ErrorPdu(id, svc, v.c, v.d)
              [] v.k = "abort" -> AbortPdu(id, 4)
              [] OTHER -> <<>>
    [] svc = SvcRPM ->
         LET vs == Reads(tab, os)
             kinds == {vs[ji[1]][ji[2]].k : ji \in {x \in (1..Len(os)) \X (1..30) : x[2] <= Len(os[x[1]].props)}}
         IN IF kinds \subseteq {"v", "e"}
            THEN ComplexAck(id, svc, FlatSeq([j \in 1..Len(os) |->
                   CtxObjId(0, os[j].ty, os[j].in) \o Open(1) \o
                   FlatSeq([i \in 1..Len(os[j].props) |->
                      PropRef(os[j].props[i], 2, 3) \o (IF vs[j][i].k = "v" THEN Open(4) \o vs[j][i].b \o Close(4) ELSE ErrValue(vs[j][i]))])
                   \o Close(1)]))
            ELSE <<>>
    [] OTHER -> LET e == WriteAll(tab, PropList(os)).err
                IN IF e = <<0, 0>> THEN SimpleAck(id, svc) ELSE ErrorPdu(id, svc, e[1], e[2])

(* ------------------------------------------------ the requests, as frames *)
RawWP(o) == LET p == o.props[1] IN RPBody(o) \o Open(3) \o p.raw \o Close(3) \o Prio(p, 4)
RawWPM(os) == FlatSeq([j \in 1..Len(os) |-> CtxObjId(0, os[j].ty, os[j].in) \o Open(1) \o
              FlatSeq([i \in 1..Len(os[j].props) |-> LET p == os[j].props[i] IN
                 PropRef(p, 0, 1) \o Open(2) \o p.raw \o Close(2) \o Prio(p, 3)]) \o Close(1)])
ReqAPDU(id, svc, os) == ConfReq(id, svc, CASE svc = SvcRP -> RPBody(os[1]) [] svc = SvcRPM -> RPMBody(os)
                                           [] svc = SvcWP -> RawWP(os[1]) [] OTHER -> RawWPM(os))
ReqPacket(dev, id, svc, os) ==
  NPDU([PlainNPDU EXCEPT !.der = TRUE, !.dst = IF dev.net = 0 THEN NoAddr ELSE [net |-> dev.net, adr |-> dev.adr]]) \o ReqAPDU(id, svc, os)
=============================================================================
