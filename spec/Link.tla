-------------------------------- MODULE Link --------------------------------
(***************************************************************************)
(* Data links, the clients on top of them, and the sockets around them.    *)
(*                                                                         *)
(* A link over UDP is opened on an address with a prefix length and a      *)
(* port; it owns the port on all addresses of the host, so that no other   *)
(* socket can have it until the link is closed.  A client has exactly one  *)
(* link: the one it was given, or one that it opens as it is told to.      *)
(* Peers are sockets on one address.                                       *)
(*                                                                         *)
(* What is sent to an address arrives, once, at the socket that owns it,   *)
(* unchanged, with the sender's address.  (All addresses that anything is  *)
(* sent to are in 127.0.0.0/8, where nothing is lost.)                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES links,   \* id -> [st, via, cli, port, adr, pre]; st: open, closing, down
          peers,   \* id -> [ip, port]
          mail     \* set of what is under way: [n, to, from, fport, any, b]
lvars == <<links, peers, mail>>

DefaultPort == 47808
Ports == 1..65535
Ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
P16(n) == <<n \div 256, n % 256>>
Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128 [] OTHER -> 256
\* the directed broadcast address of the subnet: all bits of the host part are set
HostBits(i, pre) == LET n == 8 * i - pre IN IF n < 0 THEN 0 ELSE IF n > 8 THEN 8 ELSE n
BroadcastOf(adr, pre) == [i \in 1..4 |-> LET h == Pow2(HostBits(i, pre)) IN (adr[i] \div h) * h + h - 1]
Mac(ip, port) == ip \o P16(port)
Bcast127 == <<127, 255, 255, 255>>

IsUdp(l) == links[l].via = "udp"
Owner(port) == {l \in DOMAIN links : links[l].st = "open" /\ IsUdp(l) /\ links[l].port = port}
PeersOn(port) == {p \in DOMAIN peers : peers[p].port = port}
PortFree(port) == Owner(port) = {} /\ PeersOn(port) = {}
RealPort(port) == IF port = 0 THEN DefaultPort ELSE port

\* a: [via, adr (empty: none that is an IPv4 address), pre, port]
Opens(a) == a.via = "supplied" \/ (Len(a.adr) = 4 /\ a.pre \in 0..32 /\ RealPort(a.port) \in Ports /\ PortFree(RealPort(a.port)))
Open(l, a, cli) ==
  /\ l \notin DOMAIN links
  /\ IF Opens(a)
     THEN links' = Ext(links, l, [st |-> "open", via |-> a.via, cli |-> cli, port |-> RealPort(a.port), adr |-> a.adr, pre |-> a.pre])
     ELSE links' = links
  /\ UNCHANGED <<peers, mail>>
MyMac(l) == Mac(links'[l].adr, links'[l].port)
BcMac(l) == Mac(BroadcastOf(links'[l].adr, links'[l].pre), DefaultPort)

Close(l) ==
  /\ l \in DOMAIN links
  /\ links' = [links EXCEPT ![l].st = IF @ = "open" THEN "closing" ELSE @]
  /\ UNCHANGED <<peers, mail>>
\* its receive loop ends
Down(l) ==
  /\ l \in DOMAIN links /\ links[l].st = "closing"
  /\ links' = [links EXCEPT ![l].st = "down"]
  /\ UNCHANGED <<peers, mail>>

PeerOpens(ip, port) == Owner(port) = {} /\ \A q \in PeersOn(port) : peers[q].ip # ip
PeerOpen(p, ip, port) ==
  /\ p \notin DOMAIN peers
  /\ peers' = IF PeerOpens(ip, port) THEN Ext(peers, p, [ip |-> ip, port |-> port]) ELSE peers
  /\ UNCHANGED <<links, mail>>
PeerClose(p) == p \in DOMAIN peers /\ peers' = Del(peers, p) /\ UNCHANGED <<links, mail>>

\* who gets what is sent to ip and port: links that belong to clients keep it to themselves
Receivers(ip, port) ==
  {<<"l", l>> : l \in {x \in Owner(port) : ~links[x].cli}} \cup
  {<<"p", p>> : p \in {x \in PeersOn(port) : peers[x].ip = ip}}
Fresh == CHOOSE n \in 1..(Cardinality(mail) + 1) : \A m \in mail : m.n # n
Post(from, fport, ip, port, any, b) ==
  mail' = mail \cup {[n |-> Fresh, to |-> r, from |-> from, fport |-> fport, any |-> any, b |-> b] : r \in Receivers(ip, port)}
Sends(l, mac) == l \in DOMAIN links /\ links[l].st = "open" /\ Len(mac) = 6
PortOf(mac) == mac[5] * 256 + mac[6]
IpOf(mac) == SubSeq(mac, 1, 4)
\* a link sends from its port, on the host's choice of addresses
Send(l, mac, b) ==
  /\ IF Sends(l, mac) /\ IsUdp(l) THEN Post(<<>>, links[l].port, IpOf(mac), PortOf(mac), FALSE, b) ELSE mail' = mail
  /\ UNCHANGED <<links, peers>>
PeerSend(p, ip, port, b) ==
  /\ p \in DOMAIN peers
  \* (from a broadcast address nothing is sent)
  /\ Post(IF peers[p].ip = Bcast127 THEN <<>> ELSE peers[p].ip, peers[p].port, ip, port, FALSE, b)
  /\ UNCHANGED <<links, peers>>
\* a broadcast of the client that has link l
Who(l) ==
  /\ l \in DOMAIN links /\ links[l].cli
  /\ IF links[l].st # "open" THEN mail' = mail
     ELSE IF IsUdp(l)
     THEN LET bc == BroadcastOf(links[l].adr, links[l].pre) IN
          IF Receivers(bc, DefaultPort) # {} THEN Post(<<>>, links[l].port, bc, DefaultPort, TRUE, <<>>)
          \* the client takes its time: a socket that comes soon may have it
          ELSE mail' = mail \cup {[n |-> Fresh, to |-> <<"late", bc>>, from |-> <<>>, fport |-> links[l].port, any |-> TRUE, b |-> <<>>]}
     ELSE mail' = mail \cup {[n |-> Fresh, to |-> <<"s", l>>, from |-> <<>>, fport |-> 0, any |-> TRUE, b |-> <<>>]}
  /\ UNCHANGED <<links, peers>>
Got(to, ip, port, b) ==
  /\ \E m \in mail : /\ m.to = to \/ (m.to[1] = "late" /\ to[1] = "p" /\ to[2] \in DOMAIN peers /\ m.to[2] = peers[to[2]].ip
                                       /\ peers[to[2]].port = DefaultPort)
                     /\ (m.any \/ m.b = b)
                     /\ (to[1] = "s" \/ (m.fport = port /\ IF m.from = <<>> THEN ip[1] = 127 ELSE m.from = ip))
                     /\ mail' = mail \ {m}
  /\ UNCHANGED <<links, peers>>
\* a client reads a property from peer p; the answer comes to its link
Asks(l, p) == l \in DOMAIN links /\ links[l].st = "open" /\ (IsUdp(l) => p \in DOMAIN peers)
\* nothing is under way any more
Settled == (\A m \in mail : m.to[1] = "late") /\ \A l \in DOMAIN links : links[l].st # "closing"

Init == links = <<>> /\ peers = <<>> /\ mail = {}
\* what always holds
Exclusive == \A p \in Ports : Cardinality(Owner(p)) <= 1 /\ (Owner(p) # {} => PeersOn(p) = {})
=============================================================================
