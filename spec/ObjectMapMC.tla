---------------------------- MODULE ObjectMapMC ----------------------------
EXTENDS ObjectMap
Es == [ty : {0, 8, 600}, in : {0, 1}, name : {"a", "b"}]
Next == (\E e \in Es : Put(e)) \/ (\E e \in Es : Del(e.ty, e.in)) \/ RoundTrip
MCSpec == Init /\ [][Next]_om
\* storing under one key leaves the others alone
Others == [][\E k \in {0, 8, 600} \X {0, 1} : {x \in om : Key(x) # k} = {x \in om' : Key(x) # k}]_om
=============================================================================
