----------------------------- MODULE IngressMC ------------------------------
(***************************************************************************)
(* The meaning of received bytes (Ingress), model-checked: every frame the *)
(* specification of the wire format builds has exactly the effect it is    *)
(* meant to have; and the meaning of what becomes of these frames when     *)
(* bytes are replaced, removed, inserted, or cut off is defined, and has   *)
(* the properties below.                                                   *)
(***************************************************************************)
EXTENDS Ingress, TLC
CONSTANTS Steps, Values
VARIABLES b, n, k
vars == <<b, n, k>>

Obj(v) == [ty |-> 2, in |-> U32(1001), props |-> <<[p |-> U32(85), ix |-> ArrayAll, pri |-> 0, v |-> v]>>]
V1 == [t |-> "real", b |-> <<66, 246, 0, 0>>]
V2 == [t |-> "str", b |-> <<65, 66>>]
V3 == [t |-> "list", v |-> <<[t |-> "uint", b |-> U32(300)], [t |-> "null"]>>]
Iam == [ty |-> 8, id |-> U32(77), max |-> U32(480), seg |-> U32(3), vend |-> U32(5)]
Src == <<10, 0, 0, 2, 186, 192>>
Org == <<172, 16, 5, 9, 186, 200>>
Ack(v, r) == [None EXCEPT !.eff = "cack", !.id = 7, !.svc = IF r THEN 12 ELSE 14, !.good = TRUE, !.v = v]
Seen(v) == <<[ty |-> 2, in |-> U32(1001), props |-> <<[p |-> U32(85), ix |-> ArrayAll, v |-> v]>>]>>
\* [apdu, effect]
Apdus == <<
  [a |-> ComplexAck(7, 12, RPAckWire(Obj(V1))), f |-> Ack(Seen(V1), TRUE)],
  [a |-> ComplexAck(7, 12, RPAckWire(Obj(V3))), f |-> Ack(Seen([t |-> "list", l |-> V3.v]), TRUE)],
  [a |-> ComplexAck(7, 14, RPMAckWire(<<Obj(V2)>>)), f |-> Ack(Seen(V2), FALSE)],
  [a |-> SimpleAck(7, 15), f |-> [None EXCEPT !.eff = "sack", !.id = 7, !.svc = 15, !.good = TRUE]],
  [a |-> ErrorPdu(7, 12, 2, 42), f |-> [None EXCEPT !.eff = "err", !.id = 7, !.svc = 12, !.good = TRUE, !.cls = 2, !.code = 42]],
  [a |-> UnconfReq(0, IAmBody(Iam)), f |-> [None EXCEPT !.eff = "iam", !.num = 77]],
  [a |-> UnconfReq(8, WhoIsBody(FALSE, U32(1), U32(99))), f |-> None],
  [a |-> RejectPdu(7, 3), f |-> None],
  [a |-> AbortPdu(7, 3), f |-> None],
  [a |-> <<0, 5, 7>> \o SubSeq(SimpleAck(7, 12), 3, 3) \o RPBody(Obj(V1)), f |-> None]>>
Nets == <<PlainNPDU, [PlainNPDU EXCEPT !.src = [net |-> 7, adr |-> <<9>>]], [PlainNPDU EXCEPT !.dst = [net |-> 65535, adr |-> <<>>]],
          [PlainNPDU EXCEPT !.net = TRUE, !.msg = 3], [PlainNPDU EXCEPT !.net = TRUE, !.msg = 1]>>
Links == <<"unicast", "broadcast", "forwarded">>
Frame(a, p, w) == LET body == NPDU(p) \o a IN
  CASE w = "unicast" -> BVLC(Unicast, body) [] w = "broadcast" -> BVLC(Broadcast, body) [] OTHER -> Fwd(Org, body)
Keys == {[a |-> a, p |-> p, w |-> w] : a \in 1..Len(Apdus), p \in 1..Len(Nets), w \in 1..Len(Links)}
BytesOf(x) == Frame(Apdus[x.a].a, Nets[x.p], Links[x.w])

Init == n = 0 /\ k \in Keys /\ b = BytesOf(k)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
With1(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Refit(s) == IF Len(s) < 4 THEN s ELSE [s EXCEPT ![3] = 0, ![4] = Len(s)]
Tamper == \E i \in 1..Len(b) :
  \/ \E x \in Values : b' = [b EXCEPT ![i] = x]
  \/ b' = Without(b, i) \/ b' = Refit(Without(b, i))
  \/ \E x \in Values : b' = Refit(With1(b, i, x))
  \/ b' = SubSeq(b, 1, i - 1) \/ b' = Refit(SubSeq(b, 1, i - 1))
Next == n < Steps /\ n' = n + 1 /\ k' = k /\ Tamper
Spec == Init /\ [][Next]_vars

Kinds == {"none", "cack", "sack", "err", "iam", "routers", "netnum"}
E == Effects(b, Src)
Exact ==
  n = 0 =>
    LET p == Nets[k.p]
        f == Apdus[k.a].f
    IN IF p.net THEN (p.msg = 3 => E = {None}) /\ \A g \in E : g.eff \in {"none", "routers"}
       ELSE /\ Cardinality(E) = 1
            /\ \A g \in E : /\ g.eff = f.eff /\ g.id = f.id /\ g.svc = f.svc /\ g.good = f.good /\ g.v = f.v
                            /\ g.cls = f.cls /\ g.code = f.code /\ g.num = f.num
                            /\ (g.eff = "iam" => /\ g.dev.id = U32(77) /\ g.dev.max = U32(480) /\ g.dev.vend = U32(5)
                                                 /\ g.dev.org = (IF Links[k.w] = "forwarded" THEN Org ELSE Src)
                                                 /\ g.dev.net = p.src.net /\ g.dev.adr = p.src.adr)
Total == E # {} /\ \A g \in E : g.eff \in Kinds
\* what is no BACnet/IP datagram, or one of another function, has no effect
LinkOnly == (Len(b) < 4 \/ b[1] # 129 \/ b[2] \notin {4, 10, 11}) => E = {None}
\* relayed and direct datagrams mean the same, from the device that sent them
Relay == (Len(b) >= 4 /\ b[1] = 129 /\ b[2] = 10 /\ b[3] = 0 /\ b[4] = Len(b)) =>
         Effects(Fwd(Org, SubSeq(b, 5, Len(b))), Src) = Effects(b, Org)
\* network messages carry no replies and no announcements of devices
NetOnly == (Len(b) >= 6 /\ b[1] = 129 /\ b[2] \in {10, 11} /\ b[6] >= 128) => \A g \in E : g.eff \in {"none", "routers", "netnum"}
\* replies concern the invoke ID that they name
SameId == \A g \in E : g.eff \in {"cack", "sack", "err"} /\ g.good => (\E i \in 1..Len(b) : b[i] = g.id)
=============================================================================
