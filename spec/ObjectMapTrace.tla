--------------------------- MODULE ObjectMapTrace ---------------------------
EXTENDS ObjectMap, TLC, Json, IOUtils
VARIABLES cs, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ops == Cases[cs].ops
Obs == Cases[cs].obs
TInit == cs \in 1..Len(Cases) /\ l = 1 /\ Init
Do(o) == CASE o.op = "put" -> Put(o.o) [] o.op = "del" -> Del(o.o.ty, o.o.in) [] o.op \in {"round", "roundp"} -> RoundTrip
Ran(s) == {s[i] : i \in 1..Len(s)}
TNext == /\ l <= Len(Ops) /\ l <= Len(Obs) /\ Do(Ops[l]) /\ (Obs[l].n = Cardinality(om') /\ Len(Obs[l].om) = Obs[l].n /\ Ran(Obs[l].om) = om') = TRUE
         /\ l' = l + 1 /\ UNCHANGED cs
TSpec == TInit /\ [][TNext]_<<om, cs, l>>
Accepted == l > Len(Ops) => PrintT(<<"ACCEPT", cs>>)
Reached == PrintT(<<"AT", cs, l>>)
=============================================================================
