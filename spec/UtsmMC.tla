------------------------------- MODULE UtsmMC -------------------------------
(* Exhaustive model of Utsm: NS subscriptions with all ranges over Ids, NP publications. *)
EXTENDS Utsm, TLC
CONSTANTS NS, NP, Ids, TimeoutSet
VARIABLES ns, np, hist     \* hist: p -> [id, at, must (subscribed throughout), done]
mvars == <<now, sub, pub, ns, np, hist>>
T42 == {<<4, 2>>}
T32 == {<<3, 2>>}
TBoth == {<<4, 2>>, <<3, 3>>}
MCInit == Init /\ ns = 0 /\ np = 0 /\ hist = <<>>
MCSub == ns < NS /\ ns' = ns + 1 /\ (\E lo, hi \in Ids : \E T \in TimeoutSet : Subscribe(ns + 1, lo, hi, T)) /\ UNCHANGED <<np, hist>>
MCPub == np < NP /\ np' = np + 1 /\ UNCHANGED ns
         /\ \E id \in Ids : /\ Publish(np + 1, id)
                            /\ hist' = Append(hist, [id |-> id, at |-> now, done |-> FALSE,
                                  must |-> {s \in Subs : sub[s].st = "on" /\ sub[s].lo <= id /\ id <= sub[s].hi}])
MCInt == /\ \/ \E s \in Subs : Register(s)
            \/ \E p \in Pubs : Look(p) \/ \E s \in pub[p].to : Hand(p, s)
         /\ UNCHANGED <<ns, np, hist>>
\* who leaves while a publication is under way need not get it
MCExpire == \E s \in Subs : Expire(s) /\ UNCHANGED <<ns, np>>
              /\ hist' = [i \in 1..Len(hist) |-> IF hist[i].done THEN hist[i] ELSE [hist[i] EXCEPT !.must = @ \ {s}]]
MCSubRet == \E s \in Subs : SubReturn(s) /\ UNCHANGED <<ns, np, hist>>
MCPubRet == \E p \in Pubs : PubReturn(p) /\ UNCHANGED <<ns, np>> /\ hist' = [hist EXCEPT ![p].done = TRUE]
MCTick == (Subs # {} \/ np < NP) /\ now < 8 /\ Tick(now + 1) /\ UNCHANGED <<ns, np, hist>>
MCNext == MCSub \/ MCPub \/ MCInt \/ MCExpire \/ MCSubRet \/ MCPubRet \/ MCTick
MCSpec == MCInit /\ [][MCNext]_mvars
Fair == MCSpec /\ WF_mvars(MCInt) /\ WF_mvars(MCExpire) /\ WF_mvars(MCSubRet) /\ WF_mvars(MCPubRet) /\ WF_mvars(MCTick)

Got(s) == {sub[s].got[i] : i \in 1..Len(sub[s].got)}
\* nothing foreign, nothing missed, in order
Foreign == \A s \in Subs : \A p \in Got(s) : sub[s].lo <= hist[p].id /\ hist[p].id <= sub[s].hi /\ hist[p].at >= sub[s].t0
Missed == \A p \in 1..Len(hist) : hist[p].done => \A s \in Subs \cap hist[p].must : p \in Got(s)
Ordered == \A s \in Subs : \A i, j \in 1..Len(sub[s].got) : i < j => hist[sub[s].got[i]].at <= hist[sub[s].got[j]].at
Ends == \A s \in 1..NS : s \in Subs ~> (s \notin Subs \/ now = 8)
PubEnds == \A p \in 1..NP : p \in Pubs ~> p \notin Pubs
=============================================================================
