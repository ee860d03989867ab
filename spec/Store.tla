------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* C27.  Stores of networks and devices.  st[s] maps the ids stored in s   *)
(* to instances; an instance is a record that says what it is and how it   *)
(* was made.  hnd: the networks the caller has got hold of.  Networks hold *)
(* their port as long as anybody has them; of one that was overwritten     *)
(* before anybody got hold of it nothing is said.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES st, hnd, open, rep      \* rep: what the last operation reports
svars == <<st, hnd, open, rep>>
Empty == [x \in {} |-> 0]
Init == st = <<Empty, Empty>> /\ hnd = <<>> /\ open = {} /\ rep = [ok |-> TRUE]
With(f, id, v) == [x \in DOMAIN f \cup {id} |-> IF x = id THEN v ELSE f[x]]
Fail == rep' = [ok |-> FALSE]
NetRep(n) == [ok |-> TRUE, port |-> n.port, ip |-> n.ip, sub |-> n.sub, iface |-> n.iface, sid |-> n.sid, store |-> n.store]
Net(s, id, port, byIf) == [kind |-> "net", port |-> port, store |-> s, sid |-> id,
   ip |-> IF byIf THEN "" ELSE "127.0.0.1", sub |-> IF byIf THEN 0 ELSE 8, iface |-> IF byIf THEN "127.0.0.1/8" ELSE ""]
NetPorts(f) == {f[x].port : x \in {y \in DOMAIN f : f[y].kind = "net"}}
Held == {hnd[i].port : i \in 1..Len(hnd)} \cup UNION {NetPorts(st[s]) : s \in 1..Len(st)}
\* a network is made: nothing is stored when its port is taken
NewNetwork(s, id, port, byIf) ==
  \/ port \in open /\ Fail /\ UNCHANGED <<st, hnd, open>>
  \/ /\ port \notin Held
     /\ st' = [st EXCEPT ![s] = With(@, id, Net(s, id, port, byIf))]
     /\ open' = open \cup {port} /\ rep' = [ok |-> TRUE] /\ UNCHANGED hnd
\* made by the caller; without a store it gets one of its own
New(s, id, port) ==
  \/ port \in open /\ Fail /\ UNCHANGED <<st, hnd, open>>
  \/ port \notin Held /\
     LET k == IF s = 0 THEN Len(st) + 1 ELSE s
         n == Net(k, id, port, FALSE)
     IN   /\ st' = (IF s = 0 THEN Append(st, With(Empty, id, n)) ELSE [st EXCEPT ![s] = With(@, id, n)])
          /\ hnd' = Append(hnd, n) /\ open' = open \cup {port} /\ rep' = NetRep(n)
GetNetwork(s, id) ==
  /\ IF id \in DOMAIN st[s] /\ st[s][id].kind = "net"
     THEN hnd' = Append(hnd, st[s][id]) /\ rep' = NetRep(st[s][id])
     ELSE UNCHANGED hnd /\ Fail
  /\ UNCHANGED <<st, open>>
Dev(n, d) == [kind |-> "dev", of |-> n.port, d |-> d]
NewDevice(h, id, d) == /\ st' = [st EXCEPT ![hnd[h].store] = With(@, id, Dev(hnd[h], d))]
                       /\ rep' = [ok |-> TRUE] /\ UNCHANGED <<hnd, open>>
UpdateDevice(s, id, h, d) == /\ st' = [st EXCEPT ![s] = With(@, id, Dev(hnd[h], d))]
                             /\ rep' = [ok |-> TRUE] /\ UNCHANGED <<hnd, open>>
\* a device is looked up and read: the request leaves through its network and reaches its address
DevRep(x) == [ok |-> TRUE, at |-> x.d.at, net |-> x.d.net, mac |-> x.d.mac, dev |-> x.d.dev, max |-> x.d.max, seg |-> x.d.seg,
              who |-> x.d.at, wnet |-> x.d.net, wadr |-> IF x.d.net = 0 THEN <<>> ELSE <<x.d.mac>>, wsrc |-> x.of]
GetDevice(s, id) ==
  /\ IF id \in DOMAIN st[s] /\ st[s][id].kind = "dev" THEN rep' = DevRep(st[s][id]) ELSE Fail
  /\ UNCHANGED <<st, hnd, open>>
TypeOK == \A s \in 1..Len(st) : \A id \in DOMAIN st[s] : st[s][id].kind \in {"net", "dev"}
OwnPort == \A i, j \in 1..Len(hnd) : hnd[i].port = hnd[j].port => hnd[i] = hnd[j]
=============================================================================
