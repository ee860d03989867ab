--------------------------- MODULE BitStringTrace ---------------------------
(* A line of TRACE: ops, and what was observed after each of them. *)
EXTENDS BitString, TLC, Json, IOUtils
VARIABLES cs, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ops == Cases[cs].ops
Obs == Cases[cs].obs
Init1 == cap = 0 /\ on = {} /\ used = 0 /\ last = "none"
TInit == cs \in 1..Len(Cases) /\ l = 1 /\ Init1
Do(o) == CASE o.op = "new" -> New(o.n) [] o.op = "recv" -> Receive(o.bits) [] o.op = "bit" -> SetBit(o.i, o.v)
           [] o.op = "byte" -> SetByte(o.i, o.n) [] o.op = "used" -> SetUsed(o.i, o.n)
Ran(s) == {s[i] : i \in 1..Len(s)}
IsNew == Ops[1].op = "new"
\* the observation of the state, taken from the primed variables
Shown(b) ==
  /\ b.used = used' /\ b.bytes = (used' + 7) \div 8
  /\ b.list = [i \in 1..used' |-> (i - 1) \in on'] /\ b.str = b.list
  \* every position that can be asked for
  /\ {i \in Ran(b.on) : i < 8 * cap' \/ IsNew} = on'
  /\ \A k \in 1..Len(b.oct) : (k <= cap' \/ IsNew) => b.oct[k] = (IF k <= cap' THEN Octet(k - 1)' ELSE 0)
  /\ (IsNew => b.cap = 8 * cap')
  /\ b.ok = last'
TNext == /\ l <= Len(Ops) /\ l <= Len(Obs) /\ Do(Ops[l]) /\ Shown(Obs[l]) = TRUE /\ l' = l + 1 /\ UNCHANGED cs
TSpec == TInit /\ [][TNext]_<<cap, on, used, last, cs, l>>
Accepted == l > Len(Ops) => PrintT(<<"ACCEPT", cs>>)
Reached == PrintT(<<"AT", cs, l>>)
=============================================================================
