----------------------------- MODULE RequestsMC -----------------------------
EXTENDS Requests, TLC
Addrs == {[net |-> n, adr |-> a, mac |-> <<10, 0, 0, 2, 186, 192>>] : n \in {0, 5, 65534}, a \in {<<>>, <<7>>, <<1, 2, 3, 4, 5, 6>>}}
V == {[t |-> "uint", b |-> <<0,0,1,0>>], [t |-> "goint"], [t |-> "null"], [t |-> "oid", ty |-> 1024, in |-> <<0,0,0,1>>]}
Obj(ty, in, p, v) == [ty |-> ty, in |-> in, props |-> <<[p |-> p, ix |-> ArrayAll, pri |-> 0, v |-> v]>>]
Os == {<<Obj(ty, <<0,k,0,1>>, <<0,k,0,85>>, v)>> : ty \in {4, 1024}, k \in {0, 64}, v \in V} \cup
      {<<>>, <<[ty |-> 2, in |-> <<0,0,0,1>>, props |-> <<>>]>>,
       <<Obj(2, <<0,0,0,1>>, <<0,0,0,85>>, [t |-> "null"]), Obj(2, <<0,64,0,1>>, <<0,0,0,85>>, [t |-> "null"])>>}
Conf == [kind : Confirmed, objs : Os, dev : [addr : Addrs, max : {0, 20, 21, 22, 1476}]]
Disc == [kind : {"whois"}, low : {-1, 0, 300, 4194303}, high : {-1, 0, 300, 4194303}, gb : BOOLEAN, net : {0, 9}]
Other == {[kind |-> "router"], [kind |-> "netnum"]}
Iams == [kind : {"iam"}, iam : [id : {<<0,0,0,5>>, <<0,64,0,5>>}, max : {<<0,0,1,224>>}, seg : {<<0,0,0,3>>}, vend : {<<0,0,0,5>>}],
         dev : [addr : Addrs, max : {0}, all : BOOLEAN]]
Next == (\E c \in Conf \cup Disc \cup Other \cup Iams : Call(c)) \/ Transmit(IF sent = 0 THEN 3 ELSE id) \/ Reply \/ Return
Spec == Init /\ [][Next]_rvars /\ WF_rvars(Return) /\ WF_rvars(Transmit(IF sent = 0 THEN 3 ELSE id))
=============================================================================
