--------------------------- MODULE DiscoveryTrace ---------------------------
(***************************************************************************)
(* Is a recorded execution of the client a behaviour of Discovery?  A case *)
(* is a line of TRACE: inv: call -> number of the event that starts it,    *)
(* ev: the events inv, tx, txe, rx, ret, sync, calls, end.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Wire, TLC, Json, IOUtils
VARIABLES now, coll, cs, l,
          txc      \* number of a transmission -> the collection it belongs to
Cases == ndJsonDeserialize(IOEnv.TRACE)
Dotted(b) == ToString(b[1]) \o "." \o ToString(b[2]) \o "." \o ToString(b[3]) \o "." \o ToString(b[4])
\* d: the entry returned, dev: what was announced
TrDescribes(dev, d) ==
  /\ d.id = dev.id /\ d.ty = 8 /\ d.did = dev.num
  /\ d.max = dev.max /\ d.seg = dev.seg /\ d.vend = dev.vend
  /\ d.ip = Dotted(dev.org) /\ d.port = dev.org[5] * 256 + dev.org[6]
  /\ d.net = dev.net /\ (Len(dev.adr) = 1 => d.mac = dev.adr[1]) /\ (dev.net = 0 => d.mac = 0)
  /\ d.addr.net = dev.net /\ d.addr.mac = dev.org /\ d.addr.adr = dev.adr
D == INSTANCE Discovery WITH Overall <- 10000, Quiet <- 2000, Describes <- TrDescribes
tvars == <<now, coll, cs, l, txc>>
Ev == Cases[cs].ev
More == l <= Len(Ev)
E == Ev[l]
Inv(c) == Ev[Cases[cs].inv[c]]

MaxInst == 4194303
Lo(e) == IF e.low <= 0 THEN 0 ELSE e.low
Hi(e) == IF e.high <= 0 THEN 4194304 ELSE e.high
\* the requests that are right for a call
DstNet(e) == IF e.gb THEN 65535 ELSE e.net
WhoIsNPDU(e) == NPDU([PlainNPDU EXCEPT !.dst = [net |-> DstNet(e), adr |-> <<>>]])
Bodies(e) == {<<>>} \cup (IF Lo(e) <= MaxInst
                          THEN {WhoIsBody(FALSE, U32(Lo(e)), U32(IF Hi(e) > MaxInst THEN MaxInst ELSE Hi(e)))} ELSE {})
Requests(e) ==
  CASE e.kind = "whois" -> {BVLC(Broadcast, WhoIsNPDU(e) \o UnconfReq(8, b)) : b \in Bodies(e)}
    [] e.kind = "router" -> {BVLC(Broadcast, NPDU(NetMsg(0)))}
    [] e.kind = "netnum" -> {BVLC(Broadcast, NPDU(NetMsg(18)))}
BcastMac == <<10, 0, 0, 255, 186, 192>>

TraceInit == cs \in 1..Len(Cases) /\ l = 1 /\ txc = <<>> /\ D!Init
IsEvent(e) == More /\ E.e = e /\ E.t = now /\ l' = l + 1 /\ UNCHANGED cs
EvInv == IsEvent("inv") /\ D!Start(E.k, E.kind, IF E.kind = "whois" THEN Lo(E) ELSE 1, IF E.kind = "whois" THEN Hi(E) ELSE 65534)
         /\ UNCHANGED txc
EvTx == IsEvent("tx") /\ E.dst.mac = BcastMac
        /\ \E c \in D!Colls : (E.b \in Requests(Inv(c))) = TRUE /\ D!Send(c)
              /\ txc' = [x \in DOMAIN txc \cup {E.n} |-> IF x = E.n THEN c ELSE txc[x]]
EvTxe == IsEvent("txe") /\ E.n \in DOMAIN txc /\ D!Sent(txc[E.n], E.ok) /\ UNCHANGED txc
EvRx == IsEvent("rx") /\ D!Arrive(l, E.f) /\ UNCHANGED txc
Res(e) == IF Inv(e.k).kind = "whois"
          THEN [ok |-> e.ok, nets |-> <<>>, devs |-> [i \in 1..Len(e.devs) |-> [num |-> N4(e.devs[i].id)] @@ e.devs[i]]]
          ELSE [ok |-> TRUE, devs |-> <<>>, nets |-> e.nets]
EvRet == IsEvent("ret") /\ E.k \in D!Colls /\ D!Finish(E.k, Res(E)) /\ UNCHANGED txc
EvSync == IsEvent("sync") /\ D!Settle /\ UNCHANGED txc
EvCalls == IsEvent("calls") /\ E.all /\ D!Colls = {} /\ UNCHANGED <<now, coll, txc>>
EvEnd == IsEvent("end") /\ E.leak = 0 /\ UNCHANGED <<now, coll, txc>>
EvTick == More /\ E.t > now /\ D!Tick(E.t) /\ UNCHANGED <<cs, l, txc>>
TraceNext == EvInv \/ EvTx \/ EvTxe \/ EvRx \/ EvRet \/ EvSync \/ EvCalls \/ EvEnd \/ EvTick
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == ~More => PrintT(<<"ACCEPT", cs>>)
Reached == PrintT(<<"AT", cs, l>>)
=============================================================================
