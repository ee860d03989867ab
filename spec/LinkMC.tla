------------------------------- MODULE LinkMC -------------------------------
(* All histories of a few links, clients and peers on two ports. *)
EXTENDS Link, TLC
CONSTANTS NL, NP, NS
VARIABLES ns, sentTo
mvars == <<links, peers, mail, ns, sentTo>>
Args == {[via |-> v, adr |-> a, pre |-> p, port |-> q] :
           v \in {"udp", "supplied"}, a \in {<<127, 0, 0, 1>>, <<>>}, p \in {8, 33}, q \in {7, 0}} \cup
        {[via |-> "udp", adr |-> <<127, 0, 0, 1>>, pre |-> 8, port |-> 65536]}
Ips == {<<127, 0, 0, 1>>, <<127, 255, 255, 255>>}
MCInit == Init /\ ns = 0 /\ sentTo = <<>>
L1 == 1..NL
Q == {7, DefaultPort}
MCNext ==
  \/ /\ UNCHANGED <<ns, sentTo>>
     /\ \/ \E k \in L1 : (\A j \in 1..(k - 1) : j \in DOMAIN links) /\ \E a \in Args, c \in BOOLEAN :
              (a.via = "supplied" => c) /\ Open(k, a, c) /\ Opens(a)
        \/ \E k \in L1 : Close(k) \/ Down(k)
        \/ \E p \in 1..NP, ip \in Ips, q \in Q : PeerOpens(ip, q) /\ PeerOpen(p, ip, q)
        \/ \E p \in 1..NP : PeerClose(p)
        \/ \E m \in mail : \E q \in Q : Got(IF m.to[1] = "late" THEN <<"p", 1>> ELSE m.to, IF m.from = <<>> THEN <<127, 0, 0, 1>> ELSE m.from, q, m.b)
  \/ /\ ns < NS /\ ns' = ns + 1
     /\ \E ip \in Ips, q \in Q :
          \/ \E k \in L1 : k \in DOMAIN links /\ ~links[k].cli /\ Send(k, Mac(ip, q), <<ns>>) /\ sentTo' = <<ip, q>>
          \/ \E p \in 1..NP : PeerSend(p, ip, q, <<ns>>) /\ sentTo' = <<ip, q>>
          \/ \E k \in L1 : Who(k) /\ sentTo' = <<Bcast127, DefaultPort>>
MCSpec == MCInit /\ [][MCNext]_mvars
\* no more than one socket has what is sent to one address; and only a socket that is there
OneOwner == \A ip \in Ips, q \in Q : Cardinality(Receivers(ip, q)) <= 1
Released == \A k \in DOMAIN links : links[k].st # "open" => k \notin Owner(links[k].port)
Excl == \A p \in Q : Cardinality(Owner(p)) <= 1 /\ (Owner(p) # {} => PeersOn(p) = {})
\* a client with a supplied link has no port
Supplied == \A k \in DOMAIN links : ~IsUdp(k) => k \notin Owner(links[k].port)
ASSUME BroadcastOf(<<192, 168, 15, 10>>, 24) = <<192, 168, 15, 255>> /\ BroadcastOf(<<10, 1, 2, 3>>, 0) = <<255, 255, 255, 255>>
         /\ BroadcastOf(<<10, 1, 2, 3>>, 32) = <<10, 1, 2, 3>> /\ BroadcastOf(<<172, 16, 5, 9>>, 20) = <<172, 16, 15, 255>>
         /\ BroadcastOf(<<10, 1, 2, 4>>, 31) = <<10, 1, 2, 5>> /\ BroadcastOf(<<127, 0, 0, 1>>, 1) = <<127, 255, 255, 255>>
=============================================================================
