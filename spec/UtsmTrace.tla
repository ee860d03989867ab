----------------------------- MODULE UtsmTrace -----------------------------
(***************************************************************************)
(* Is a recorded execution of the manager a behaviour of Utsm?  A case is  *)
(* a line of TRACE: res: subscription -> what it returned (publication     *)
(* numbers), ev: events sub (with the timeouts T that hold for it), pub,   *)
(* pubret, subret, end.  The internal steps are guided by res, so there is *)
(* one way to explain a case, or none.                                     *)
(***************************************************************************)
EXTENDS Utsm, TLC, Json, IOUtils
VARIABLES cs, l
tvars == <<now, sub, pub, cs, l>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[cs].ev
More == l <= Len(Ev)
E == Ev[l]
TraceInit == cs \in 1..Len(Cases) /\ l = 1 /\ Init
IsEvent(e) == More /\ E.e = e /\ E.t = now /\ l' = l + 1 /\ UNCHANGED cs

EvSub == IsEvent("sub") /\ Subscribe(E.s, E.lo, E.hi, E.T)
EvPub == IsEvent("pub") /\ Publish(E.p, E.id)
EvPubRet == IsEvent("pubret") /\ E.p \in Pubs /\ PubReturn(E.p)
EvSubRet == IsEvent("subret") /\ E.s \in Subs /\ SubReturn(E.s) /\ E.got = sub[E.s].got
\* all quiet: what was started has registered and looked
EvSync == IsEvent("sync") /\ Quiescent /\ UNCHANGED uvars
EvEnd == IsEvent("end") /\ E.leak = 0 /\ Subs = {} /\ Pubs = {} /\ UNCHANGED uvars

L(s) == Cases[cs].res[s]
In(p, s) == \E i \in 1..Len(L(s)) : L(s)[i] = p
\* p may look around now: who wants it is there, who is there wants it (or is about to leave)
MayLook(p) == pub[p].st = "new" /\
  /\ \A s \in 1..Len(Cases[cs].res) : In(p, s) => s \in Subs
  /\ \A s \in Subs : InRange(p, s) => (In(p, s) => sub[s].st = "on")
                                 /\ (sub[s].st = "on" /\ ~In(p, s) => now >= Deadline(s))
MayHand(p, s) ==
  IF s \in Subs /\ sub[s].st = "on"
  THEN Len(sub[s].got) < Len(L(s)) /\ L(s)[Len(sub[s].got) + 1] = p
  ELSE TRUE
MayExpire(s) == sub[s].st = "on" /\ now >= Deadline(s) /\ Len(sub[s].got) = Len(L(s))
\* a publication that is yet to begin at this instant does not reach s, so s registers after it
RECURSIVE Missed(_, _)
Missed(s, i) ==
  IF i > Len(Ev) \/ Ev[i].t > now \/ (Ev[i].e = "subret" /\ Ev[i].s = s) THEN FALSE
  ELSE \/ (Ev[i].e = "pub" /\ sub[s].lo <= Ev[i].id /\ Ev[i].id <= sub[s].hi /\ ~In(Ev[i].p, s)
           /\ sub[s].T[1] > 0 /\ sub[s].T[2] > 0)
       \/ Missed(s, i + 1)
Looks == {p \in Pubs : MayLook(p)}
Hands == UNION {{<<p, s>> : s \in {x \in pub[p].to : MayHand(p, x)}} : p \in {q \in Pubs : pub[q].st = "on"}}
\* a publication that does not reach s looked around before s registered
Wanted == {s \in Subs : /\ sub[s].st = "new"
                        /\ (E.t > now \/ E.e = "sync" \/ \E p \in Pubs : pub[p].st = "new" /\ In(p, s))
                        /\ \A p \in Pubs : (pub[p].st = "new" /\ InRange(p, s)) => In(p, s)
                        /\ ~Missed(s, l)}
Leaves == {s \in Subs : MayExpire(s)}
Internal ==
  /\ More
  /\ IF Looks # {} THEN Look(CHOOSE p \in Looks : TRUE)
     ELSE IF Wanted # {} THEN Register(CHOOSE s \in Wanted : TRUE)
     ELSE IF Hands # {} THEN LET h == CHOOSE x \in Hands : TRUE IN Hand(h[1], h[2])
     ELSE Leaves # {} /\ Expire(CHOOSE s \in Leaves : TRUE)
  /\ UNCHANGED <<cs, l>>
Idle == Looks = {} /\ Wanted = {} /\ Hands = {} /\ Leaves = {}
EvTick == More /\ E.t > now /\ Idle
          /\ LET ds == {Deadline(s) : s \in Subs} \cup {E.t}
                 d == CHOOSE x \in ds : \A y \in ds : x <= y
             IN Tick(d)
          /\ UNCHANGED <<cs, l>>
TraceNext == IF More /\ ~Idle /\ E.e \notin {"sub", "pub"} THEN Internal
             ELSE IF More /\ ~Idle /\ E.t > now THEN Internal
             ELSE EvSub \/ EvPub \/ EvPubRet \/ EvSubRet \/ EvSync \/ EvEnd \/ EvTick
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == ~More => PrintT(<<"ACCEPT", cs>>)
Reached == PrintT(<<"AT", cs, l>>)
=============================================================================
