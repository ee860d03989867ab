------------------------------ MODULE StoreMC ------------------------------
EXTENDS Store
Ids == {"a", "b"}
D == [at : {1}, net : {0}, mac : {0}, dev : {1}, max : {50}, seg : {3}]
Step == \/ \E s \in 1..2, id \in Ids, p \in 1..2 : NewNetwork(s, id, p, FALSE)
        \/ \E s \in 0..1, id \in Ids, p \in 1..2 : Len(st) < 3 /\ Len(hnd) < 2 /\ New(s, id, p)
        \/ \E s \in 1..Len(st), id \in Ids : (Len(hnd) < 2 /\ GetNetwork(s, id)) \/ GetDevice(s, id)
        \/ \E h \in 1..Len(hnd), id \in Ids, d \in D : NewDevice(h, id, d) \/ \E s \in 1..Len(st) : UpdateDevice(s, id, h, d)
MCSpec == Init /\ [][Step]_svars
\* storing under one id changes no other id in no store
OneId == [][\A s, t \in 1..Len(st) : \A x \in DOMAIN st[s] : \A y \in DOMAIN st[t] :
            (st[s][x] # st'[s][x] /\ st[t][y] # st'[t][y]) => s = t /\ x = y]_svars
Kept == [][\A s \in 1..Len(st) : DOMAIN st[s] \subseteq DOMAIN st'[s] /\ Cardinality(DOMAIN st'[s] \ DOMAIN st[s]) <= 1]_svars
=============================================================================
