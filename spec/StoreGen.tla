------------------------------ MODULE StoreGen ------------------------------
EXTENDS Store, TLC, Json
CONSTANTS N, MaxOps
VARIABLES script, made
gvars == <<st, hnd, open, rep, script, made>>
R(S) == RandomElement(S)
Ids == {"a", "b", "c", "d", "net one", "", "A", "a "}
GInit == Init /\ script = <<>> /\ made = 0
Out(r) == script' = Append(script, r) /\ UNCHANGED made
RDev(x) == [at |-> R(1..3), net |-> R({0, 0, 1, 5, 256, 65534}), mac |-> R({0, 1, 127, 254, 255}), dev |-> R({0, 1, 99, 4194302}),
            max |-> R({50, 206, 480, 1476}), seg |-> R(0..3)]
\* never a port of a network that was dropped
SomePort(x) == R((1..6 \cup {10 + Cardinality(open)}) \ (open \ Held))
GNet == \E s \in {R(1..2)} : \E id \in {R(Ids)} : \E p \in {SomePort(0)} : \E b \in {R(BOOLEAN)} :
        NewNetwork(s, id, p, b) /\ Out([op |-> IF b THEN "netif" ELSE "net", s |-> s, id |-> id, port |-> p])
GNew == \E s \in {R(0..Len(st))} : \E id \in {R(Ids)} : \E p \in {SomePort(0)} :
        New(s, id, p) /\ Out([op |-> "netnew", s |-> s, id |-> id, port |-> p])
\* mostly ids that are there
SomeId(s) == IF DOMAIN st[s] # {} /\ R(1..4) # 1 THEN R(DOMAIN st[s]) ELSE R(Ids)
GGetN == \E s \in {R(1..Len(st))} : \E id \in {SomeId(s)} : GetNetwork(s, id) /\ Out([op |-> "getnet", s |-> s, id |-> id])
GGetD == \E s \in {R(1..Len(st))} : \E id \in {SomeId(s)} : GetDevice(s, id) /\ Out([op |-> "getdev", s |-> s, id |-> id])
GDev == \E h \in {R(1..Len(hnd))} : \E id \in {R(Ids)} : \E d \in {RDev(0)} : NewDevice(h, id, d) /\ Out([op |-> "dev", n |-> h, id |-> id, d |-> d])
GUpd == \E h \in {R(1..Len(hnd))} : \E s \in {R(1..Len(st))} : \E id \in {SomeId(s)} : \E d \in {RDev(0)} :
        UpdateDevice(s, id, h, d) /\ Out([op |-> "upd", n |-> h, s |-> s, id |-> id, d |-> d])
GStep == \E p \in {R(1..12)} :
  CASE Len(script) < 3 \/ p = 1 -> (IF p <= 6 THEN GNet ELSE GNew)
    [] p = 2 -> GNew
    [] p \in {3, 4} -> GGetN
    [] p \in {5, 6, 7} /\ hnd # <<>> -> GDev
    [] p = 8 /\ hnd # <<>> -> GUpd
    [] OTHER -> GGetD
\* at the end everything is looked up, as either kind
RECURSIVE Looks(_)
Looks(q) == IF q = {} THEN <<>> ELSE LET x == CHOOSE y \in q : TRUE IN
   <<[op |-> "getnet", s |-> x[1], id |-> x[2]], [op |-> "getdev", s |-> x[1], id |-> x[2]]>> \o Looks(q \ {x})
GEmit == /\ PrintT("SCRIPT " \o ToJson([ops |-> script \o Looks({<<s, id>> : s \in 1..Len(st), id \in Ids})]))
         /\ made' = made + 1 /\ script' = <<>> /\ st' = <<Empty, Empty>> /\ hnd' = <<>> /\ open' = {} /\ rep' = [ok |-> TRUE]
GNext == made < N /\ IF Len(script) >= MaxOps THEN GEmit ELSE GStep
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
