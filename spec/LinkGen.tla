------------------------------ MODULE LinkGen -------------------------------
(***************************************************************************)
(* Random behaviours of Link, as scripts.  Ports 1..4 stand for free ports *)
(* that the driver finds; profile "std" uses the standard port as well.    *)
(***************************************************************************)
EXTENDS Link, TLC, Json
CONSTANTS Profile, MaxOps
VARIABLES script, nl, np, due, emitted
gvars == <<links, peers, mail, script, nl, np, due, emitted>>
R(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
With(v, F(_)) == F(v)
RBytes(n) == [j \in 1..n |-> RandomElement(0..255)]
Sizes == <<0, 1, 2, 4, 12, 30, 60, 200, 1024, 1497>>
GInit == Init /\ script = <<>> /\ nl = 0 /\ np = 0 /\ due = 0 /\ emitted = FALSE
Keep == UNCHANGED <<due, emitted>>
Out(r) == script' = Append(script, r)
Plain == <<"ip", "ip", "ip", "cidr", "iface">>
Cli == <<"c.ip", "c.cidr", "c.iface", "c.link", "c.link", "c.udp", "n.ip", "n.iface">>
Std == Profile = "std"
GoodPorts == IF Std THEN <<0, 0, 47808, 47808, 1>> ELSE <<1, 2, 2, 3, 3>>
BadPorts == <<-1, 65536, 70000, 131072 + 5>>
BadAddrs == <<"", "localhost", "::1", "256.1.1.1", "1.2.3", "fe80::1", "127.0.0.1.1", "::ffff:127.0.0">>
Iface(h) == h \in {"iface", "c.iface", "n.iface"}
\* an address anywhere; those that are used to send are local
RAdr(far) == IF far THEN <<R({10, 172, 192, 1, 223}), R(0..255), R(0..255), R(0..255)>> ELSE <<127, R({0, 0, 1, 255}), R({0, 0, 5}), R(1..4)>>
GOpen == \E h \in {IF R(1..2) = 1 THEN Pick(Plain) ELSE Pick(Cli)} : \E bad \in {R(1..12)} :
  LET ifc == Iface(h) sup == h = "c.link" IN
  \E adr \in {IF ifc THEN (IF bad = 1 THEN <<>> ELSE <<127, 0, 0, 1>>) ELSE IF bad = 1 THEN <<>> ELSE RAdr(R(1..4) = 1)} :
  \E pre \in {IF ifc THEN 8 ELSE IF bad = 2 THEN R({-1, 33, 64, 255}) ELSE R({8, 8, 8, 16, 24, 24, 30, 31, 32, R(0..32)})} :
  \E port \in {IF bad = 3 THEN Pick(BadPorts) ELSE Pick(GoodPorts)} : \E text \in {IF ifc THEN "nosuch0" ELSE Pick(BadAddrs)} :
  LET cli == h \notin {"ip", "cidr", "iface"}
      a == [via |-> IF sup THEN "supplied" ELSE "udp", adr |-> adr, pre |-> pre, port |-> port]
  IN /\ Open(nl + 1, a, cli) /\ nl' = nl + 1
     /\ Out([op |-> "open", l |-> nl + 1, how |-> h, via |-> a.via, cli |-> cli, adr |-> adr, pre |-> pre, port |-> port, text |-> text])
     /\ UNCHANGED np /\ Keep
Sync == [op |-> "sync", n |-> due]
OpenLs == {k \in DOMAIN links : links[k].st = "open"}
GClose == \E k \in {R(IF OpenLs = {} \/ R(1..10) = 1 THEN DOMAIN links ELSE OpenLs)} : \E mode \in {R(0..2)} :
  /\ links' = [links EXCEPT ![k].st = "down"] /\ UNCHANGED <<peers, mail>>
  /\ script' = script \o <<Sync, [op |-> "close", l |-> k, mode |-> mode]>>
  /\ UNCHANGED <<nl, np>> /\ Keep
GPOpen == \E q \in {IF R(1..8) = 1 /\ Std THEN 47808 ELSE RealPort(Pick(GoodPorts))} : \E w \in {R(1..4)} :
  \* where a client broadcasts to, perhaps
  \E ip \in {IF Std /\ w = 1 /\ OpenLs # {} THEN With(R(OpenLs), LAMBDA k : IF Len(links[k].adr) = 4 /\ BroadcastOf(links[k].adr, links[k].pre)[1] = 127
                                                   THEN BroadcastOf(links[k].adr, links[k].pre) ELSE <<127, 0, 0, 1>>)
             ELSE <<127, 0, 0, R(1..4)>>} :
  /\ PeerOpen(np + 1, ip, q) /\ np' = np + 1 /\ Out([op |-> "popen", p |-> np + 1, ip |-> ip, port |-> q])
  /\ UNCHANGED nl /\ Keep
GPClose == \E p \in {R(DOMAIN peers)} :
  /\ PeerClose(p) /\ script' = script \o <<Sync, [op |-> "pclose", p |-> p]>> /\ UNCHANGED <<nl, np>> /\ Keep
\* an address that somebody has, or nobody
Dests == {<<peers[p].ip, peers[p].port>> : p \in DOMAIN peers}
    \cup {<<<<127, 0, 0, j>>, links[k].port>> : j \in {1, 3}, k \in {x \in OpenLs : IsUdp(x)}}
    \cup {<<Bcast127, links[k].port>> : k \in {x \in OpenLs : IsUdp(x)}}
RDest(x) == IF Dests # {} /\ R(1..8) > 1 THEN R(Dests) ELSE <<<<127, 0, 0, R(1..4)>>, RealPort(Pick(GoodPorts))>>
GSend == \E k \in {R({x \in DOMAIN links : ~links[x].cli})} : \E d \in {RDest(0)} : \E b \in {RBytes(Pick(Sizes))} : \E bad \in {R(1..15)} :
  \E mac \in {IF bad = 1 THEN RBytes(R({0, 1, 5, 7})) ELSE Mac(d[1], d[2])} :
  /\ Send(k, mac, b) /\ Out([op |-> "send", l |-> k, mac |-> mac, b |-> b]) /\ UNCHANGED <<nl, np>> /\ Keep
GPSend == \E p \in {R(DOMAIN peers)} : \E d \in {RDest(0)} : \E b \in {RBytes(Pick(Sizes))} :
  LET ip == IF d[1] = Bcast127 THEN <<127, 0, 0, 2>> ELSE d[1] IN     \* (sockets of peers do not broadcast)
  /\ PeerSend(p, ip, d[2], b) /\ Out([op |-> "psend", p |-> p, ip |-> ip, port |-> d[2], b |-> b]) /\ UNCHANGED <<nl, np>> /\ Keep
Clis == {x \in DOMAIN links : links[x].cli}
\* a socket that listens at a broadcast address does not answer from there
Askable == {p \in DOMAIN peers : peers[p].ip # Bcast127 /\ peers[p].ip[4] \in 1..4}
GAsk == \E k \in {R(Clis)} : \E p \in {IF Askable = {} THEN 0 ELSE R(Askable)} :
  IF IsUdp(k) /\ p = 0 THEN UNCHANGED gvars
  ELSE /\ Out([op |-> "ask", l |-> k, p |-> p, ip |-> IF p = 0 THEN <<127, 0, 0, 1>> ELSE peers[p].ip, port |-> IF p = 0 THEN 1 ELSE peers[p].port,
               tok |-> <<63, 128 + nl, Len(script), p>>])
       /\ UNCHANGED <<links, peers, mail, nl, np>> /\ Keep
GWho == \E k \in {R(Clis)} :
  IF links[k].st # "open" \/ (IsUdp(k) /\ BroadcastOf(links[k].adr, links[k].pre)[1] # 127) THEN UNCHANGED gvars
  ELSE Who(k) /\ Out([op |-> "who", l |-> k]) /\ UNCHANGED <<nl, np>> /\ Keep
GFlush == due' = due + Cardinality({m \in mail : m.to[1] # "late"}) /\ mail' = {} /\ UNCHANGED <<links, peers, script, nl, np, emitted>>
GSync == Out(Sync) /\ UNCHANGED <<links, peers, mail, nl, np>> /\ Keep
Emit == /\ ~emitted /\ emitted' = TRUE /\ PrintT("SCRIPT " \o ToJson([ops |-> Append(script, Sync)]))
        /\ UNCHANGED <<links, peers, mail, script, nl, np, due>>
GNext ==
  IF mail # {} THEN GFlush
  ELSE IF Len(script) >= MaxOps THEN Emit
  ELSE \E q \in {R(1..100)} :
    IF nl = 0 THEN GOpen
    ELSE IF q <= 22 THEN GOpen
    ELSE IF q <= 38 THEN (IF DOMAIN links = {} THEN GOpen ELSE GClose)
    ELSE IF q <= 52 THEN GPOpen
    ELSE IF q <= 58 THEN (IF DOMAIN peers = {} THEN GPOpen ELSE GPClose)
    ELSE IF q <= 72 THEN (IF \E x \in DOMAIN links : ~links[x].cli THEN GSend ELSE GOpen)
    ELSE IF q <= 82 THEN (IF DOMAIN peers = {} THEN GPOpen ELSE GPSend)
    ELSE IF q <= 93 THEN (IF Clis = {} THEN GOpen ELSE GAsk)
    ELSE IF q <= 97 THEN (IF Clis = {} THEN GOpen ELSE GWho)
    ELSE GSync
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
