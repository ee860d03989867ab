------------------------------- MODULE NetOps -------------------------------
(***************************************************************************)
(* C17, C24, C25, C26, C30.  Calls of the package network and              *)
(* scans, made one after another, against devices as specified in Peer:    *)
(* which requests a call may make of which device, and what it may return. *)
(* The devices may fail: a request or reply gets lost, a reply is an error *)
(* or lacks, repeats, swaps parts.  A call that met no failure returns     *)
(* exactly what the device holds; one that met a failure may return an     *)
(* error instead, but never anything wrong.                                *)
(***************************************************************************)
EXTENDS Peer, Sequences
UN == INSTANCE Units
VARIABLES devs,         \* the devices: [id, mac, net, adr, iam: <<>> or <<announcement>>]; never changes
          tabs,         \* their tables
          cur,          \* the call being made
          met,          \* it met a failure
          done          \* the writes the devices carried out for it
nvars == <<devs, tabs, cur, met, done>>
None == [op |-> "none"]
Harmless == {"", "twice"}

Tab(d) == tabs[d]
DevObj(d, p4) == ReadOf(Tab(d), 8, devs[d].id, p4, ArrayAll)
\* what is one string on the wire: its head, its length with the character set octet, its contents
StrHead(b) == IF b[1] % 8 # 5 THEN 2 ELSE IF b[2] = 254 THEN 5 ELSE 3
StrLen(b) == IF b[1] % 8 # 5 THEN b[1] % 8 ELSE IF b[2] = 254 THEN b[3] * 256 + b[4] ELSE b[2]
IsStr(v) == v.k = "v" /\ v.b # <<>> /\ v.b[1] \div 16 = 7 /\ Len(v.b) = StrHead(v.b) - 1 + StrLen(v.b)
StrOf(v) == SubSeq(v.b, StrHead(v.b) + 1, Len(v.b))
NameOr(v) == IF IsStr(v) THEN StrOf(v) ELSE <<>>
IsUns(v) == v.k = "v" /\ v.b # <<>> /\ v.b[1] \div 16 \in {2, 9} /\ Len(v.b) = 1 + (v.b[1] % 8)      \* exactly one number
UnsOf(v) == Pad(Tail(v.b), 4)
IsOid(b) == b # <<>> /\ b[1] = 196
OidOf(b) == [ty |-> b[2] * 4 + b[3] \div 64, in |-> <<0, b[3] % 64, b[4], b[5]>>]

(* ------------------------------------------------------------ scanning *)
Listed(d) == LET k == Key(8, devs[d].id, ObjList) IN IF k \in DOMAIN Tab(d) THEN Tab(d)[k] ELSE ErrK(2, 32)
Elements(d) == Listed(d).l
AllOids(d) == Listed(d).k = "a" /\ \A i \in 1..Len(Elements(d)) : IsOid(Elements(d)[i])
Ids(d) == [i \in 1..Len(Elements(d)) |-> OidOf(Elements(d)[i])]
Standard(ty) == ty <= 128     \* 128 is on the border; the generator gives such objects both properties
NameOf(d, o) == ReadOf(Tab(d), o.ty, o.in, ObjName, ArrayAll)
DescOf(d, o) == ReadOf(Tab(d), o.ty, o.in, Descr, ArrayAll)
Described(d, o) == IsStr(NameOf(d, o)) /\ IsStr(DescOf(d, o))
Complete(d) == AllOids(d) /\ \A i \in 1..Len(Elements(d)) : Standard(Ids(d)[i].ty) => Described(d, Ids(d)[i])
\* object g of the result is object o of the device
ScannedAs(d, g, o) == /\ g.ty = o.ty /\ g.in = o.in /\ g.mty = o.ty /\ g.min = o.in
                      /\ IF Standard(o.ty) THEN g.name = StrOf(NameOf(d, o)) /\ g.desc = StrOf(DescOf(d, o))
                         ELSE g.name \in {<<>>, NameOr(NameOf(d, o))} /\ g.desc \in {<<>>, NameOr(DescOf(d, o))}
ScanOk(d, list) == /\ Complete(d)
                   /\ Len(list) = Len(Ids(d))
                   /\ \A i \in 1..Len(Ids(d)) : \E j \in 1..Len(list) : ScannedAs(d, list[j], Ids(d)[i])

(* -------------------------------------------------------------- points *)
\* n < 2^24 as IEEE single
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Pow2(n) == IF n = 0 THEN 1 ELSE LET RECURSIVE P(_)
                                    P(i) == IF i = 0 THEN 1 ELSE 2 * P(i - 1) IN P(n)
F32(n) == IF n = 0 THEN <<0, 0, 0, 0>>
          ELSE LET e == Log2(n)
                   m == (n - Pow2(e)) * Pow2(23 - e)
                   x == 127 + e
               IN <<x \div 2, (x % 2) * 128 + m \div 65536, (m \div 256) % 256, m % 256>>
\* number denoted by a value on the wire, as single
AsFloat(b) == IF b[1] \div 16 = 4 THEN Tail(b) ELSE F32(N4(Pad(Tail(b), 4)))
SlotIs(got, b) == IF b = NullB THEN ~got.set ELSE got.set /\ got.b = AsFloat(b)
PaOf(d, c) == Tab(d)[Key(c.ty, c.in, PV)].pa
Highest(pa) == FirstSet(pa, NullB)

\* what the caller wants written: [p, raw, slot], and whether that can be expressed
Num(c) == IF c.m = "real" THEN AppValue([t |-> "real", b |-> c.v.b])
          ELSE AppValue([t |-> IF c.ty \in {4, 5} THEN "enum" ELSE "uint", b |-> c.v.b])
GenValue(c) == IF c.null THEN NullB
               ELSE AppValue(IF c.ty \in {4, 5} /\ c.p = PV THEN EnumForced(c.v) ELSE c.v)
Wanted(c) ==
  CASE c.op = "pwr"    -> [p |-> PV, raw |-> Num(c), slot |-> Slot(c.pri)]
    [] c.op = "prel"   -> [p |-> PV, raw |-> NullB, slot |-> c.pri]
    [] c.op \in {"wname", "wdname"} -> [p |-> ObjName, raw |-> Text8(c.v.b), slot |-> 16]
    [] c.op = "wgen"   -> [p |-> c.p, raw |-> GenValue(c), slot |-> Slot(c.pri)]
Expressible(c) ==
  CASE c.op = "pwr"  -> ~(c.ty \in {4, 5} /\ c.m = "real")
    [] c.op = "prel" -> c.pri \in 1..16
    [] c.op = "wgen" -> IF c.null THEN TRUE
                        ELSE c.v.t \in {"uint", "real", "double", "str"} /\ (c.ty \in {4, 5} /\ c.p = PV => c.v.t = "uint")
    [] OTHER -> TRUE
Writers == {"pwr", "prel", "wname", "wdname", "wgen"}
Ty(c) == IF c.op \in {"wdname", "rdname", "ddet", "devobjs", "devpts"} THEN 8 ELSE c.ty
In(c) == IF c.op \in {"wdname", "rdname", "ddet", "devobjs", "devpts"} THEN devs[c.d].id ELSE c.in
WantedProp(c) == LET w == Wanted(c) IN [p |-> w.p, ix |-> ArrayAll, pri |-> w.slot, raw |-> w.raw]
\* a multiple write in the form the device receives
WpmObjs(c) == [j \in 1..Len(c.objs) |-> [c.objs[j] EXCEPT !.props = [i \in 1..Len(c.objs[j].props) |->
                 LET p == c.objs[j].props[i] IN [p |-> p.p, ix |-> p.ix, pri |-> p.pri, raw |-> AppValues(p.v)]]]]
WpmProps(c) == PropList(WpmObjs(c))
\* the size of a request includes its network header
Fits(c, svc, os) == Len(ReqPacket(devs[c.d], 0, svc, os)) <= c.max
SameWrite(p, q) == p.p = q.p /\ p.ix = q.ix /\ p.raw = q.raw /\ Slot(p.pri) = Slot(q.pri)
\* the only writes a call may ask for
MayWrite(c, d, svc, os) ==
  CASE c.op \in Writers -> /\ svc = SvcWP /\ d = c.d /\ Expressible(c)
                           /\ os[1].ty = Ty(c) /\ os[1].in = In(c) /\ SameWrite(os[1].props[1], WantedProp(c))
    [] c.op = "wpm" -> /\ svc = SvcWPM /\ d = c.d
                       /\ LET a == PropList(os)
                              b == WpmProps(c)
                          IN Len(a) = Len(b) /\ \A i \in 1..Len(b) : a[i].ty = b[i].ty /\ a[i].in = b[i].in /\ SameWrite(a[i].p, b[i].p)
    [] OTHER -> FALSE

(* --------------------------------------------------------- values read *)
\* the bytes of a value the caller got; enumerated values are numbers to the caller
Norm(b) == IF b # <<>> /\ b[1] \div 16 = 9 THEN <<b[1] - 112>> \o Tail(b) ELSE b
Got(v) == IF v.t = "list" THEN FlatSeq([i \in 1..Len(v.v) |-> Norm(AppValue(v.v[i]))]) ELSE Norm(AppValue(v))
RECURSIVE Norms(_)
Norms(l) == IF l = <<>> THEN <<>> ELSE Norm(Head(l)) \o Norms(Tail(l))
Raw(d, ty, in4, p4, ix4) ==
  LET key == Key(ty, in4, p4)
      e == Tab(d)[key]
      v == ReadOf(Tab(d), ty, in4, p4, ix4)
  IN IF ix4 = ArrayAll /\ e.k = "a" THEN Norms(e.l) ELSE IF ix4 = ArrayAll /\ e.k = "r" THEN Norms(Tab(d)[e.of].pa) ELSE Norm(v.b)
ReadsAs(d, g, ty, in4, p4, ix4) == /\ g.p = p4 /\ g.ix = ix4
                                   /\ ReadOf(Tab(d), ty, in4, p4, ix4).k = "v" /\ Got(g.v) = Raw(d, ty, in4, p4, ix4)
RpmFails(d, os) == \E j \in 1..Len(os) : \E i \in 1..Len(os[j].props) :
                     ReadOf(Tab(d), os[j].ty, os[j].in, os[j].props[i].p, os[j].props[i].ix).k # "v"

(* ----------------------------------------------------------- discovery *)
\* a limit below 0 counts as 0; no upper limit means none at all
Lo(c) == IF c.low < 0 THEN 0 ELSE c.low
InRange(c, id4) == IF c.high <= 0 \/ c.high >= 4194303 \/ Lo(c) >= 4194303 THEN TRUE ELSE N4(id4) >= Lo(c) /\ N4(id4) <= c.high
Found(c) == {d \in 1..Len(devs) : devs[d].iam # <<>> /\ InRange(c, devs[d].id)}
\* detail b of a device: what it says, or what was known before
Detail(v, known) == IF IsUns(v) THEN UnsOf(v) ELSE known
AddrOf(d) == [net |-> devs[d].net, mac |-> devs[d].mac, adr |-> devs[d].adr]
DiscoveredAs(op, g, d) ==
  LET a == devs[d].iam[1]
      dev == devs[d]
      name == NameOr(DevObj(d, ObjName))
      vendor == NameOr(DevObj(d, VendorName))
      told == op # "nwhois" /\ op # "dwhois"
      same(x, y) == x = y \/ (met /\ x = <<>>)
      max == IF op = "ndisc" THEN Detail(DevObj(d, MaxAPDU), a.max) ELSE a.max
      seg == IF op = "ndisc" THEN Detail(DevObj(d, SegSup), a.seg) ELSE a.seg
  IN /\ g.id = dev.id
     /\ g.ip = SubSeq(dev.mac, 1, 4) /\ g.port = dev.mac[5] * 256 + dev.mac[6] /\ g.net = dev.net
     /\ op # "ddisc" => g.oid = dev.id /\ g.vend = a.vend /\ g.addr.mac = dev.mac /\ g.addr.net = dev.net
                        /\ (dev.net # 0 => g.addr.adr = dev.adr)
     /\ g.max = max \/ (met /\ g.max = a.max)
     /\ g.seg = seg \/ (met /\ g.seg = a.seg)
     /\ IF told THEN same(g.name, name) /\ same(g.vendor, vendor) ELSE g.name = <<>> /\ g.vendor = <<>>
Discovers == {"ndisc", "ddisc", "nwhois", "dwhois"}

(* --------------------------------------------------------- the results *)
PointName(d, o) == NameOr(ReadOf(Tab(d), o.ty, o.in, ObjName, ArrayAll))
UnitOf(d, o) == LET v == ReadOf(Tab(d), o.ty, o.in, Units, ArrayAll)     \* <<>> when it has none
                IN IF o.ty \notin {3, 4, 5} /\ IsUns(v) THEN <<UnsOf(v)>> ELSE <<>>
UnitAs(g, u) == IF u = <<>> THEN g.unit = <<0, 0, 0, 0>> /\ g.us = "" ELSE g.unit = u[1] /\ UN!UnitTextOk(u[1], g.us)
DetailsAs(d, g, o) == /\ g.ty = o.ty /\ g.in = o.in
                      /\ g.name = PointName(d, o) \/ (met /\ g.name = <<>>)
                      /\ UnitAs(g, UnitOf(d, o)) \/ (met /\ UnitAs(g, <<>>))
                      /\ UN!TypeTextOk(o.ty, g.pt)
NotDevices(s) == SelectSeq(s, LAMBDA o : o.ty # 8)

\* the object list as the device states it: elements it has no value for are missing from the whole
Stated(d) == IF Listed(d).whole = "ok" THEN SelectSeq(Elements(d), LAMBDA x : x # <<>>) ELSE Elements(d)
AllStated(d) == Listed(d).k = "a" /\ \A i \in 1..Len(Stated(d)) : IsOid(Stated(d)[i])
StatedIds(d) == [i \in 1..Len(Stated(d)) |-> OidOf(Stated(d)[i])]

\* the call can succeed when nothing gets in its way
CanSucceed(c) ==
  CASE c.op = "objects" -> Complete(c.d) /\ c.max >= 50
    [] c.op \in Writers -> Expressible(c) /\ WriteErr(Tab(c.d), Ty(c), In(c), WantedProp(c)) = <<0, 0>>
    [] c.op = "wpm" -> WriteAll(Tab(c.d), WpmProps(c)).err = <<0, 0>> /\ Fits(c, SvcWPM, WpmObjs(c))
    [] c.op = "prd" -> ReadOf(Tab(c.d), c.ty, c.in, PV, ArrayAll).k = "v"
    [] c.op = "ppri" -> ReadOf(Tab(c.d), c.ty, c.in, PA, ArrayAll).k = "v"
    [] c.op = "rname" -> ReadOf(Tab(c.d), c.ty, c.in, ObjName, ArrayAll).k = "v"
    [] c.op = "rdname" -> DevObj(c.d, ObjName).k = "v"
    [] c.op \in {"rgen", "rstr"} -> ReadOf(Tab(c.d), c.ty, c.in, c.p, c.ix).k = "v"
    [] c.op = "rpm" -> ~RpmFails(c.d, c.objs) /\ Fits(c, SvcRPM, c.objs)
    [] c.op \in {"devobjs", "devpts"} -> AllStated(c.d)
    [] OTHER -> TRUE
\* what a successful call returns
Right(c, r) ==
  CASE c.op = "objects" -> ScanOk(c.d, r.list)
    [] c.op \in Writers -> \E i \in 1..Len(done) : done[i].d = c.d   \* MayWrite says what was written
    [] c.op = "wpm" -> \E i \in 1..Len(done) : done[i].d = c.d
    [] c.op = "prd" -> LET v == ReadOf(Tab(c.d), c.ty, c.in, PV, ArrayAll)
                       IN v.k = "v" /\ r.v = (IF c.m = "real" THEN Tail(v.b) ELSE Pad(Tail(v.b), 4))
    [] c.op = "ppri" -> LET pa == PaOf(c.d, c) IN
                        /\ Len(r.pa) = 16 /\ \A i \in 1..16 : SlotIs(r.pa[i], pa[i])
                        /\ SlotIs(r.high, Highest(pa))
    [] c.op = "rname" -> r.s = NameOr(ReadOf(Tab(c.d), c.ty, c.in, ObjName, ArrayAll))
    [] c.op = "rdname" -> r.s = NameOr(DevObj(c.d, ObjName))
    [] c.op = "rstr" -> r.s = NameOr(ReadOf(Tab(c.d), c.ty, c.in, c.p, c.ix))
    [] c.op = "rgen" -> /\ Len(r.objs) = 1 /\ r.objs[1].ty = c.ty /\ r.objs[1].in = c.in /\ Len(r.objs[1].props) = 1
                        /\ ReadsAs(c.d, r.objs[1].props[1], c.ty, c.in, c.p, c.ix)
    [] c.op = "rpm" -> /\ Len(r.objs) = Len(c.objs)
                       /\ \A j \in 1..Len(c.objs) :
                            /\ r.objs[j].ty = c.objs[j].ty /\ r.objs[j].in = c.objs[j].in
                            /\ Len(r.objs[j].props) = Len(c.objs[j].props)
                            /\ \A i \in 1..Len(c.objs[j].props) :
                                 ReadsAs(c.d, r.objs[j].props[i], c.objs[j].ty, c.objs[j].in, c.objs[j].props[i].p, c.objs[j].props[i].ix)
    [] c.op = "pdet" -> DetailsAs(c.d, r.det, [ty |-> c.ty, in |-> c.in])
    [] c.op = "devobjs" -> r.list = StatedIds(c.d)
    [] c.op = "devpts" -> LET want == NotDevices(StatedIds(c.d)) IN
                          Len(r.list) = Len(want) /\ \A i \in 1..Len(want) : DetailsAs(c.d, r.list[i], want[i])
    [] c.op = "ddet" -> LET same(x, y, z) == x = y \/ (met /\ x = z)
                            zero == <<0, 0, 0, 0>> IN
                        /\ same(r.name, NameOr(DevObj(c.d, ObjName)), <<>>) /\ same(r.vendor, NameOr(DevObj(c.d, VendorName)), <<>>)
                        /\ same(r.max, Detail(DevObj(c.d, MaxAPDU), zero), zero) /\ same(r.seg, Detail(DevObj(c.d, SegSup), zero), zero)
    [] c.op \in Discovers -> /\ Len(r.devs) = Cardinality(Found(c))
                             /\ \A d \in Found(c) : \E j \in 1..Len(r.devs) : DiscoveredAs(c.op, r.devs[j], d)
Outcome(c, r) == IF r.ok THEN CanSucceed(c) /\ Right(c, r) ELSE met \/ ~CanSucceed(c)

(* ------------------------------------------------------------- the steps *)
NInit(ds, t) == devs = ds /\ tabs = t /\ cur = None /\ met = FALSE /\ done = <<>>
Call(c) == cur = None /\ cur' = c /\ met' = FALSE /\ done' = <<>> /\ UNCHANGED <<devs, tabs>>
SizeOk(c, svc, os) == c.op \in {"objects", "rpm", "wpm"} /\ svc \in {SvcRPM, SvcWPM} => Fits(c, svc, os)
Serve(d, svc, os, fault) ==
  /\ cur # None
  /\ cur.op \notin Discovers => d = cur.d
  /\ (svc \in {SvcWP, SvcWPM} => MayWrite(cur, d, svc, os)) = TRUE
  /\ SizeOk(cur, svc, os) = TRUE
  /\ met' = (met \/ fault \notin Harmless)
  /\ IF fault \in {"drop", "error", "abort"} \/ svc \notin {SvcWP, SvcWPM} THEN UNCHANGED <<tabs, done>>
     ELSE /\ tabs' = [tabs EXCEPT ![d] = After(tabs[d], svc, os)]
          /\ done' = IF WriteAll(tabs[d], PropList(os)).err = <<0, 0>> THEN Append(done, [d |-> d]) ELSE done
  /\ UNCHANGED <<devs, cur>>
Return(r) == cur # None /\ Outcome(cur, r) = TRUE /\ cur' = None /\ UNCHANGED <<devs, tabs, met, done>>
=============================================================================
