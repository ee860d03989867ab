---------------------------- MODULE IngressTrace ----------------------------
(***************************************************************************)
(* Is a recorded execution of the client, in which anything may be         *)
(* received, a behaviour of Confirmed and Discovery?  What a datagram does *)
(* is determined from its bytes and its sender, by Ingress.  Read requests *)
(* with number k are for the present value of analog value 1000+k.         *)
(***************************************************************************)
EXTENDS ConfirmedTrace, Ingress
VARIABLES coll, txc
Dotted(b) == ToString(b[1]) \o "." \o ToString(b[2]) \o "." \o ToString(b[3]) \o "." \o ToString(b[4])
InDescribes(dev, d) ==
  \/ "any" \in DOMAIN dev
  \/ /\ d.id = dev.id /\ d.ty = 8 /\ d.did = dev.num
     /\ d.max = dev.max /\ d.seg = dev.seg /\ d.vend = dev.vend
     /\ d.ip = Dotted(dev.org) /\ d.port = dev.org[5] * 256 + dev.org[6]
     /\ d.net = dev.net /\ (Len(dev.adr) = 1 => d.mac = dev.adr[1]) /\ (dev.net = 0 => d.mac = 0)
     /\ d.addr.net = dev.net /\ d.addr.mac = dev.org /\ d.addr.adr = dev.adr
D == INSTANCE Discovery WITH Overall <- 10000, Quiet <- 2000, Describes <- InDescribes
ivars == <<now, call, free, freeT, wire, cs, l, coll, txc>>
dstate == <<coll, txc>>

Lo(e) == IF e.low <= 0 THEN 0 ELSE e.low
Hi(e) == IF e.high <= 0 THEN 4194304 ELSE e.high
\* The contents of an acknowledgement are those that were asked for.  One with other contents may be
\* rejected; the library reports what it contains.
Wanted(f) ==
  \/ f.any
  \/ \E k \in 1..Len(Cases[cs].ids) :
       /\ Cases[cs].ids[k] = f.id
       /\ Len(f.v) = 1 /\ f.v[1].ty = 2 /\ f.v[1].in = U32(1000 + k)
       /\ Len(f.v[1].props) = 1 /\ f.v[1].props[1].p = U32(85) /\ f.v[1].props[1].ix = ArrayAll
Reply(f) ==
  IF f.eff \in {"cack", "sack", "err"}
  THEN [id |-> f.id, eff |-> f.eff, svc |-> f.svc, good |-> f.good, v |-> f.v,
        cls |-> f.cls, code |-> f.code]
  ELSE [id |-> -1, eff |-> "none", svc |-> 0, good |-> FALSE, v |-> <<>>, cls |-> 0, code |-> 0]
Announcement(f) ==
  IF f.eff \in {"iam", "routers", "netnum"}
  THEN [eff |-> f.eff, num |-> f.num, nets |-> f.nets, dev |-> IF f.any \/ f.eff # "iam" THEN [any |-> TRUE] ELSE f.dev]
  ELSE [eff |-> "none", num |-> 0, nets |-> <<>>, dev |-> [any |-> TRUE]]

InInit == TraceInit /\ coll = <<>> /\ txc = <<>>
Replies(f) == IF f.eff = "cack" /\ f.good /\ ~Wanted(f) THEN {Reply(f), [Reply(f) EXCEPT !.good = FALSE]} ELSE {Reply(f)}
\* effects that differ for this client, in this state
InRx == /\ IsEvent("rx")
        /\ \E p \in UNION {Replies(f) \X {Announcement(f)} : f \in Effects(E.b, E.src)} :
              Rx(l, p[1]) /\ D!Arrive(l, p[2])
        /\ UNCHANGED txc
IsWho(k) == k \in D!Colls
InInv == IF E.kind = "whois" THEN IsEvent("inv") /\ D!Start(E.k, "whois", Lo(E), Hi(E)) /\ UNCHANGED <<call, free, freeT, wire, txc>>
         ELSE EvInv /\ UNCHANGED dstate
InTx == IF E.k = 0
        THEN /\ IsEvent("tx") /\ UNCHANGED <<call, free, freeT, wire>>
             /\ \E c \in D!Colls : D!Send(c) /\ txc' = [x \in DOMAIN txc \cup {E.n} |-> IF x = E.n THEN c ELSE txc[x]]
        ELSE EvTx /\ UNCHANGED dstate
InTxe == IF E.k = 0 THEN IsEvent("txe") /\ E.n \in DOMAIN txc /\ D!Sent(txc[E.n], E.ok) /\ UNCHANGED <<call, free, freeT, wire, txc>>
         ELSE EvTxe /\ UNCHANGED dstate
Res(e) == [ok |-> e.ok, nets |-> <<>>, devs |-> [i \in 1..Len(e.devs) |-> [num |-> N4(e.devs[i].id)] @@ e.devs[i]]]
InRet == IF IsWho(E.k) THEN IsEvent("ret") /\ D!Finish(E.k, Res(E)) /\ UNCHANGED <<call, free, freeT, wire, txc>>
         ELSE EvRet /\ UNCHANGED dstate
InSync == IsEvent("sync") /\ D!Settle /\ UNCHANGED <<call, free, freeT, wire, txc>>
InNext ==
  \/ More /\ (CASE E.e = "rx" -> InRx [] E.e = "inv" -> InInv [] E.e = "tx" -> InTx [] E.e = "txe" -> InTxe
                [] E.e = "ret" -> InRet [] E.e = "sync" -> InSync
                [] E.e = "calls" -> EvCalls /\ D!Colls = {} /\ UNCHANGED dstate
                [] E.e = "end" -> EvEnd /\ UNCHANGED dstate
                [] OTHER -> FALSE)
  \/ Internal /\ UNCHANGED dstate
  \/ EvTick /\ D!Tick(now') /\ UNCHANGED txc
InSpec == InInit /\ [][InNext]_ivars
=============================================================================
