----------------------------- MODULE StoreTrace -----------------------------
EXTENDS Store, TLC, Json, IOUtils
VARIABLES cs, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ops == Cases[cs].ops
Obs == Cases[cs].obs
TInit == cs \in 1..Len(Cases) /\ l = 1 /\ Init
Do(o) == CASE o.op = "net" -> NewNetwork(o.s, o.id, o.port, FALSE) [] o.op = "netif" -> NewNetwork(o.s, o.id, o.port, TRUE)
           [] o.op = "netnew" -> New(o.s, o.id, o.port)
           [] o.op = "getnet" -> GetNetwork(o.s, o.id) [] o.op = "getdev" -> GetDevice(o.s, o.id)
           [] o.op = "dev" -> NewDevice(o.n, o.id, o.d) [] o.op = "upd" -> UpdateDevice(o.s, o.id, o.n, o.d)
TNext == /\ l <= Len(Ops) /\ l <= Len(Obs) /\ Do(Ops[l]) /\ (Obs[l] = rep') = TRUE /\ l' = l + 1 /\ UNCHANGED cs
TSpec == TInit /\ [][TNext]_<<st, hnd, open, rep, cs, l>>
Accepted == l > Len(Ops) => PrintT(<<"ACCEPT", cs>>)
Reached == PrintT(<<"AT", cs, l>>)
=============================================================================
