--------------------------- MODULE RequestsTrace ---------------------------
EXTENDS Requests, Json, IOUtils
VARIABLES cs, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[cs].ev
E == Ev[l]
TInit == cs \in 1..Len(Cases) /\ l = 1 /\ Init
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED cs
TNext == \/ Is("inv") /\ Call(E.call)
         \/ /\ Is("tx") /\ Transmit(IF cur.kind \in Confirmed THEN E.id ELSE id)
            /\ cur.kind \in Confirmed => E.id \in 0..255
            /\ E.b = Frame(cur, E.id) /\ E.dst.mac = Target(cur)
         \/ Is("rx") /\ Reply
         \/ Is("ret") /\ (E.ok = Outcome) /\ Return
         \/ Is("calls") /\ E.all /\ cur = None /\ UNCHANGED rvars
         \/ Is("end") /\ E.leak = 0 /\ UNCHANGED rvars
TSpec == TInit /\ [][TNext]_<<cur, sent, id, acked, cs, l>>
Accepted == l > Len(Ev) => PrintT(<<"ACCEPT", cs>>)
Reached == PrintT(<<"AT", cs, l>>)
=============================================================================
