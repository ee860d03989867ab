---------------------------- MODULE CodecCheck ----------------------------
(***************************************************************************)
(* Every line of TRACE is a case and what the library made of it; a case   *)
(* whose result is right is reported as accepted.                          *)
(***************************************************************************)
EXTENDS Parse, TLC, Json, IOUtils
VARIABLE cs
Cases == ndJsonDeserialize(IOEnv.TRACE)
Init == cs \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED cs
Spec == Init /\ [][Next]_cs

AppEnc(c, o) ==
  IF ~Encodable(c.v) THEN ~o.ok
  ELSE /\ o.ok /\ o.b = AppValue(c.v)
       /\ o.dok /\ SameVal(o.v, Denotes(c.v)) /\ o.rest = c.tail
AppDec(c, o) == o.ok /\ SameVal(o.v, Denotes(c.v)) /\ o.rest = c.tail

WhoIsEnc(c, o) ==
  LET all == c.low < 0 \/ c.high < 0 \/ c.low >= 4194303 \/ c.high >= 4194303
  IN /\ o.ok
     /\ o.b = UnconfReq(8, WhoIsBody(all, U32(IF all THEN 0 ELSE c.low), U32(IF all THEN 0 ELSE c.high)))
     /\ o.dok
     /\ IF all THEN o.low = -1 /\ o.high = -1 ELSE o.low = c.low /\ o.high = c.high
IAmDec(c, o) == o.ok /\ o.ty = c.iam.ty /\ o.id = c.iam.id /\ o.max = c.iam.max /\ o.seg = c.iam.seg /\ o.vend = c.iam.vend

NpduOk(c, o) ==
  LET n == c.n
      d == n.dst.net # 0
      special == n.net /\ n.msg \in {1, 19}      \* the library reads the contents of these, too
  IN /\ o.ok /\ o.b = NPDU(n)
     /\ o.dok \/ special
     /\ (o.dok =>
         /\ o.n.ver = n.ver /\ o.n.net = n.net /\ o.n.der = n.der /\ o.n.pri = n.pri
         /\ o.n.dst.net = n.dst.net /\ o.n.dst.adr = n.dst.adr /\ (d => o.n.dst.len = Len(n.dst.adr))
         /\ o.n.hop = (IF d THEN n.hop ELSE 0)
         /\ (n.net => o.n.msg = n.msg /\ (n.msg >= 128 => o.n.vend = n.vend))
         /\ special \/ (/\ o.n.src.net = n.src.net /\ o.n.src.adr = n.src.adr
                        /\ (n.src.net # 0 => o.n.src.len = Len(n.src.adr))
                        /\ o.rest = c.tail))
BvlcOk(c, o) == /\ o.ok /\ o.b = BVLC(c.func, c.b)
                /\ o.dok /\ o.type = 129 /\ o.func = c.func /\ o.len = 4 + Len(c.b) /\ o.rest = c.b
ApduFields(a, o, tail) ==
  LET g == o.a IN
  /\ o.dok /\ g.ty = a.ty
  /\ CASE a.ty = 0  -> /\ g.seg = a.seg /\ g.more = a.more /\ g.sa = a.sa /\ g.inv = a.inv /\ g.svc = a.svc
                       /\ (g.segs = a.segs \/ (g.segs <= 1 /\ a.segs <= 1)) /\ g.max = a.max
                       /\ (a.seg => g.seq = a.seq /\ g.win = a.win)
                       /\ g.raw = tail /\ o.rest = <<>>
       [] a.ty = 16 -> g.usvc = a.svc /\ g.raw = tail /\ o.rest = <<>>
       [] a.ty = 32 -> g.inv = a.inv /\ g.svc = a.svc /\ o.rest = tail
       [] a.ty = 48 -> /\ g.seg = a.seg /\ g.more = a.more /\ g.inv = a.inv /\ g.svc = a.svc
                       /\ (a.seg => g.seq = a.seq /\ g.win = a.win) /\ o.rest = tail
       [] a.ty = 80 -> g.inv = a.inv /\ g.svc = a.svc /\ g.cls = a.cls /\ g.code = a.code /\ o.rest = tail

SameRead(got, want) ==
  /\ Len(got) = Len(want)
  /\ \A k \in 1..Len(want) :
       /\ got[k].ty = want[k].ty /\ got[k].in = want[k].in
       /\ Len(got[k].props) = Len(want[k].props)
       /\ \A j \in 1..Len(want[k].props) :
            LET g == got[k].props[j]
                w == want[k].props[j]
            IN g.p = w.p /\ g.ix = w.ix /\ g.v = w.v
\* whatever the bytes are: what they certainly denote, or an error when they certainly denote nothing
AnyDec(c, o) ==
  CASE c.dec = "iam" -> LET r == IAmRead(c.b) IN
         /\ (r.s = "ok" => o.ok) /\ (r.s = "bad" => ~o.ok)
         /\ (r.s = "ok" => o.ty = 8 /\ o.id = r.num /\ o.max = r.max /\ o.seg = r.seg /\ o.vend = r.vend)
    [] OTHER -> LET r == IF c.dec = "rpack" THEN RPAckRead(c.b) ELSE RPMAckRead(c.b) IN
         /\ (r.s = "ok" => o.ok)
         \* the reader of read-property acknowledgements reads requests as well
         /\ (r.s = "bad" => ~o.ok \/ (c.dec = "rpack" /\ o.objs[1].props[1].v.t = "nil"))
         /\ (r.s = "ok" => SameRead(NormObjs(o.objs), NormObjs(r.objs)))
\* memory in proportion to the length of the input
MemoryOk(n, alloc) == alloc <= 200 * n + 20000
Ok(c, o) ==
  CASE o.e # "res" -> FALSE
    [] c.k = "appenc" -> AppEnc(c, o)
    [] c.k = "any" -> AnyDec(c, o)
    [] c.k = "sweep" -> o.n > 100 /\ o.panics = 0 /\ MemoryOk(Len(o.worst), o.alloc)
    [] c.k = "appdec" -> AppDec(c, o)
    [] c.k = "rp"     -> o.ok /\ o.b = ConfReq(c.id, SvcRP, RPBody(c.objs[1]))
    [] c.k = "wp"     -> o.ok /\ o.b = ConfReq(c.id, SvcWP, WPBody(c.objs[1]))
    [] c.k = "rpm"    -> o.ok /\ o.b = ConfReq(c.id, SvcRPM, RPMBody(c.objs))
    [] c.k = "wpm"    -> o.ok /\ o.b = ConfReq(c.id, SvcWPM, WPMBody(c.objs))
    [] c.k = "rpack"  -> o.ok /\ o.b = ComplexAck(c.id, SvcRP, RPAckBody(c.objs[1]))
    [] c.k = "rpmack" -> o.ok /\ o.b = ComplexAck(c.id, SvcRPM, RPMAckBody(c.objs))
    [] c.k = "whois"  -> WhoIsEnc(c, o)
    [] c.k = "iam"    -> o.ok /\ o.b = UnconfReq(0, IAmBody(c.iam))
    [] c.k = "iamdec" -> IAmDec(c, o)
    [] c.k = "rpackdec"  -> o.ok /\ SameObjs(o.objs, c.objs)
    [] c.k = "rpmackdec" -> o.ok /\ SameObjs(o.objs, c.objs)
    [] c.k = "npdu" -> NpduOk(c, o)
    [] c.k = "bvlc" -> BvlcOk(c, o)
    [] c.k = "apdu" -> o.ok /\ o.b = APDUHdr(c.a) /\ ApduFields(c.a, o, c.tail)
    [] c.k = "apdudec" -> ApduFields(c.a, o, c.tail)
Accepted == Ok(Cases[cs].in, Cases[cs].out) => PrintT(<<"ACCEPT", cs>>)
=============================================================================
