---------------------------- MODULE RequestsGen ----------------------------
(***************************************************************************)
(* Scripts of calls for the real client.  Profile: "size", "addr", "bad".  *)
(***************************************************************************)
EXTENDS Rand
CONSTANTS Profile, N, Calls
VARIABLES n, k, script
gvars == <<n, k, script>>
Q == INSTANCE Requests WITH cur <- [kind |-> "none"], sent <- 0, id <- 0, acked <- FALSE

(* ------------------------------------------------------------ addresses *)
RMac(x) == RBytes(6)
Far(x) == [net |-> R({1, 2, 255, 256, 65534, R(1..65534)}), adr |-> RBytes(R({1, 2, 3, 6, 7, 18, R({254, 255}), R(1..8), R(1..12)})), mac |-> RMac(0)]
Near(x) == [net |-> 0, adr |-> IF R(1..2) = 1 THEN <<>> ELSE <<RB(0)>>, mac |-> RMac(0)]
\* the length fields may be unset or left over from something else
Lengths(a) == CASE R(1..5) <= 2 -> [len |-> IF R(1..3) = 1 THEN RB(0) ELSE R(0..8)] @@ a
                [] R(1..4) = 1 /\ a.adr # <<>> -> [maclen |-> 0] @@ a
                [] OTHER -> a
RAddr(x) == With(IF R(1..5) <= 3 THEN Far(0) ELSE Near(0), Lengths)

(* ------------------------------------------------------------- requests *)
SetProp(o, j, p) == [o EXCEPT !.props[j] = p]
\* something in request os that can't be expressed
Spoil(kind, os, j, w) ==
  LET o == os[j]
      m == 1 + (w % Len(o.props))
      p == o.props[m]
      q == w \div 10
      put(x) == [os EXCEPT ![j] = x]
      bad == CASE q = 0 -> put([o EXCEPT !.ty = R({1024, 1025, 2047, 2048, 32768, 65535})])
               [] q = 1 -> put([o EXCEPT !.in = R(BadInst)])
               [] q = 2 -> put([o EXCEPT !.props[m].p = R(BadInst)])
               [] q = 3 -> put([o EXCEPT !.props = <<>>])
               [] q = 4 -> <<>>
               [] q = 5 /\ kind \in {"wp", "wpm"} -> put([o EXCEPT !.props[m].v = BadVal(0)])
               [] q = 6 /\ kind = "wp" -> <<[ty |-> R(4..5), in |-> o.in, props |-> <<[p EXCEPT !.p = <<0,0,0,85>>,
                     !.v = ValOf(Pick(<<"bool", "real", "int", "str", "double", "oid", "badoid", "uint16", "ilist">>))]>>]>>
               [] OTHER -> put([o EXCEPT !.in = <<0,64,0,0>>])
  IN bad
Req(kind) == CASE kind = "rp" -> RObjs(1, 1, FALSE)
               [] kind = "wp" -> <<With(IF R(1..3) = 1 THEN BinObj(0) ELSE RObjs(1, 1, TRUE)[1], Fit)>>
               [] kind = "rpm" -> RObjs(R({1, 2, 3, 5, 20}), R({1, 2, 4, 9}), FALSE)
               [] kind = "wpm" -> RObjs(R({1, 2, 3, 8}), R({1, 2, 4}), TRUE)
Spoiled(kind, os) == IF os = <<>> \/ R(1..100) > (IF Profile = "bad" THEN 60 ELSE 5) THEN os
                     ELSE \* an element of a set is drawn once
                          CHOOSE y \in {Spoil(kind, os, j, w) : j \in {R(1..Len(os))}, w \in {R(0..79)}} : TRUE
SizedC(c, len) == [c EXCEPT !.dev.max = R({len, len, len - 1, len - 1, len + 1, len - 7, len + 7, 0, 1, 50, 206, 480, 1024, 1476})]
Sized(c) == IF c.kind \in {"rpm", "wpm"}
            THEN (IF Profile = "size" \/ R(1..6) = 1 THEN With(IF Q!Expressible(c) THEN Len(Q!Packet(c, 0)) ELSE 60, LAMBDA z : SizedC(c, z))
                  ELSE [c EXCEPT !.dev.max = 20000])
            ELSE [c EXCEPT !.dev.max = R({0, 1, 50, 1476})]
RConf(kind) == With(With(With(Req(kind), LAMBDA os : Spoiled(kind, os)),
                         LAMBDA os : [op |-> "call", kind |-> kind, objs |-> os, dev |-> [addr |-> RAddr(0), max |-> 0, id |-> <<0,0,0,1>>, seg |-> R(0..3), vend |-> R({0, 5, 65535})]]), Sized)
RLow(x) == R({-1, 0, 1, 255, 4194302, 4194303, R(0..4194303)})
RWho(x) == With(RLow(0), LAMBDA l : [op |-> "whois", kind |-> "whois", low |-> l, high |-> R({-1, 0, 4194303, 4194304, l, l + 1, R(l..4194304)}),
                                     gb |-> R(1..3) = 1, net |-> R({0, 0, 1, 255, 256, 65534, 65535})])
RIamDev(x) == With(R(1..4), LAMBDA q :
   CASE q = 1 -> [addr |-> [net |-> 0, adr |-> <<>>, mac |-> RMac(0), maclen |-> 0], max |-> 0, id |-> <<0,0,0,0>>, all |-> TRUE]
     [] q = 2 -> [addr |-> [net |-> R({1, 256, 65535}), adr |-> <<>>, mac |-> RMac(0)], max |-> 0, id |-> <<0,0,0,0>>, all |-> FALSE]
     [] OTHER -> [addr |-> RAddr(0), max |-> 0, id |-> <<0,0,0,0>>, all |-> FALSE])
RIam(x) == [op |-> "iam", kind |-> "iam", dev |-> RIamDev(0), iam |-> [id |-> IF R(1..8) = 1 THEN R(BadInst) ELSE RIn(0),
             max |-> IF R(1..2) = 1 THEN R(Dev4) ELSE R4(0), seg |-> U32(R(0..3)), vend |-> R4(0)]]
KindMix == CASE Profile = "size" -> <<"rpm", "wpm", "rpm", "wpm", "rp", "wp">>
             [] Profile = "bad"  -> <<"rp", "wp", "wp", "rpm", "wpm", "wpm", "iam">>
             [] OTHER -> <<"rp", "wp", "rpm", "wpm", "whois", "whois", "iam", "iam", "router", "netnum">>
CallOf(kind) == CASE kind \in Q!Confirmed -> RConf(kind) [] kind = "whois" -> RWho(0) [] kind = "iam" -> RIam(0)
                  [] OTHER -> [op |-> kind, kind |-> kind]
RCall(x) == With(Pick(KindMix), CallOf)
Probe == [op |-> "call", kind |-> "rp", objs |-> One(2, <<0,0,0,7>>, <<0,0,0,85>>, ArrayAll, U1, 0),
          dev |-> [addr |-> [net |-> 0, adr |-> <<>>, mac |-> <<10, 0, 0, 2, 186, 192>>], max |-> 1476, id |-> <<0,0,0,1>>]]

(* --------------------------------------------------------------- replies *)
Ack(c) == CASE c.kind = "rp" -> ComplexAck(0, 12, RPAckBody(c.objs[1])) [] c.kind = "rpm" -> ComplexAck(0, 14, RPMAckBody(c.objs))
            [] c.kind = "wp" -> SimpleAck(0, 15) [] c.kind = "wpm" -> SimpleAck(0, 16)
ReplyTo(c) == LET h == IF c.dev.addr.net = 0 THEN PlainHdr
                       ELSE NPDU([PlainNPDU EXCEPT !.src = [net |-> c.dev.addr.net, adr |-> c.dev.addr.adr]])
              IN [b |-> BVLC(Unicast, h \o Ack(c)), idp |-> 4 + Len(h) + (IF c.kind \in {"rp", "rpm"} THEN 2 ELSE 2)]
Ops(c, m, d) ==
  LET t == m * 15000
      r == ReplyTo(c)
  IN <<[at |-> t, c |-> m] @@ c>> \o
     (IF /\ c.kind \in Q!Confirmed /\ Q!Sendable(c) /\ d # 0
         \* no link carries more
         /\ Len(r.b) <= 1497
      THEN <<[at |-> t + (IF d = 2 /\ c.kind \in {"wp", "rpm", "wpm"} THEN 5100 ELSE 100), op |-> "rx", k |-> -1, b |-> r.b, idp |-> r.idp]>>
      ELSE <<>>)
GInit == n = 0 /\ k = 0 /\ script = <<>>
GNext == /\ n < N
         /\ IF k < Calls
            THEN /\ \E c \in {RCall(0)} : \E d \in {R({0, 1, 1, 1, 1, 2})} : script' = script \o Ops(c, k + 1, d)
                 /\ k' = k + 1 /\ n' = n
            ELSE /\ PrintT("SCRIPT " \o ToJson([full |-> TRUE, ops |-> script \o Ops(Probe, k + 1, 1)]))
                 /\ k' = 0 /\ n' = n + 1 /\ script' = <<>>
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
