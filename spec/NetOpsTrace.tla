---------------------------- MODULE NetOpsTrace ----------------------------
EXTENDS NetOps, Json, IOUtils
VARIABLES cs, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[cs].ev
E == Ev[l]
TInit == cs \in 1..Len(Cases) /\ l = 1 /\ NInit(Cases[cs].devs, [i \in 1..Len(Cases[cs].devs) |-> Cases[cs].tabs[i]])
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED cs
\* the harness' devices do what Peer says
Simulated == /\ E.b = BVLC(Unicast, ReqPacket(devs[E.d], E.id, E.svc, E.objs))
             /\ E.fault \in Harmless \cup {"late", "lost"} => E.rep = Answer(tabs[E.d], E.id, E.svc, E.objs)
TNext == \/ Is("inv") /\ Call(E.c)
         \/ Is("srv") /\ Simulated /\ Serve(E.d, E.svc, E.objs, E.fault)
         \/ Is("who") /\ cur # None /\ (cur.op \in Discovers \cup {"devpts"} \/ (cur.op = "devobjs" /\ cur.chk)) /\ UNCHANGED nvars
         \/ Is("ret") /\ Return(E.r)
         \/ Is("end") /\ E.leak = 0 /\ UNCHANGED nvars
TSpec == TInit /\ [][TNext]_<<nvars, cs, l>>
Accepted == l > Len(Ev) => PrintT(<<"ACCEPT", cs>>)
Reached == PrintT(<<"AT", cs, l>>)
=============================================================================
