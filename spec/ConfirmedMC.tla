---------------------------- MODULE ConfirmedMC ----------------------------
(***************************************************************************)
(* Exhaustive model of Confirmed with small constants: N calls of chosen   *)
(* kinds, at most F received frames, bounded time.  `got' records which    *)
(* frame completed which call.                                             *)
(***************************************************************************)
EXTENDS Confirmed, TLC
CONSTANTS N, F, TMax, MCKinds, MCBad
VARIABLES nrx, got, started
mcvars == <<now, call, free, freeT, wire, nrx, got, started>>

\* frames: an ack of a kind, an error, something that is never a reply
MCFrames(i) ==
  {[id |-> i, eff |-> AckEff(k), svc |-> AckSvc(k), good |-> TRUE, v |-> nrx + 1, cls |-> 0, code |-> 0] : k \in MCKinds}
  \cup {[id |-> i, eff |-> "err", svc |-> 0, good |-> TRUE, v |-> nrx + 1, cls |-> 1, code |-> nrx + 1],
        [id |-> i, eff |-> "err", svc |-> 0, good |-> FALSE, v |-> nrx + 1, cls |-> 0, code |-> 0],
        [id |-> i, eff |-> "none", svc |-> 0, good |-> TRUE, v |-> nrx + 1, cls |-> 0, code |-> 0]}

MCInit == Init /\ nrx = 0 /\ got = {} /\ started = 0
MCRx == /\ nrx < F
        /\ \E i \in 1..MaxId : \E f \in MCFrames(i) : Rx(nrx + 1, f)
        /\ nrx' = nrx + 1 /\ UNCHANGED <<got, started>>
\* calls are interchangeable before they start
MCInvoke == /\ started < N /\ started' = started + 1
            /\ \E k \in MCKinds : \E bad \in MCBad : InvokeAs(started + 1, k, bad)
            /\ UNCHANGED <<nrx, got>>
MCInternal ==
  /\ \/ \E c \in Calls : \/ \E i \in 1..MaxId : Acquire(c, i)
                         \/ \E i \in 0..MaxId : Refuse(c, i)
                         \/ SlotTimeout(c) \/ Transmit(c)
                         \/ Transmitted(c, TRUE) \/ Transmitted(c, FALSE)
                         \/ RecvTimeout(c) \/ Return(c)
     \/ \E m \in wire : Dispatch(m) \/ Drop(m)
  /\ UNCHANGED <<nrx, got, started>>
MCDeliver == \E m \in wire : Deliver(m) /\ got' = got \cup {[n |-> m.n, c |-> m.to, id |-> m.f.id]} /\ UNCHANGED <<nrx, started>>
MCTick == now < TMax /\ NextDeadline # {} /\ Tick(now + 1) /\ UNCHANGED <<nrx, got, started>>
MCNext == MCRx \/ MCInvoke \/ MCInternal \/ MCDeliver \/ MCTick

MCSpec == MCInit /\ [][MCNext]_mcvars
\* every internal step is taken eventually and the clock goes on: requests terminate
MCFair == MCSpec /\ WF_mcvars(MCInternal) /\ WF_mcvars(MCDeliver) /\ WF_mcvars(MCTick)

\* only differences of times matter
View == <<[c \in Calls |-> [call[c] EXCEPT !.dl = IF call[c].st \in {"slot", "recv"} THEN @ - now ELSE 0]],
          free, freeT = now, wire, nrx, got, started>>

OnceOnly == \A g, h \in got : g.n = h.n => g = h
OwnReply == \A g \in got : g.c \in Calls => call[g.c].id = g.id
\* success only with the data of a frame that was delivered to this very call
OkJustified == \A c \in Calls :
   (call[c].st = "fin" /\ call[c].out.r = "ok") =>
       \E g \in got : g.c = c /\ g.n = call[c].out.v
\* no transmission after the request is over: the number of tries never changes again
Settled == [][\A c \in Calls : (call[c].st = "fin" /\ c \in DOMAIN call') =>
                call'[c].tries = call[c].tries /\ call'[c].out = call[c].out]_mcvars
\* an ID is reused only when all IDs that became free earlier have been taken
Fifo == [][\A c \in Calls \cap DOMAIN call' : (call[c].st = "slot" /\ call'[c].st = "ready") => call'[c].id \in free[1]]_mcvars
Terminates == \A c \in 1..N : (c \in Calls) ~> (c \notin Calls \/ now >= TMax)
\* everything comes back (full capacity again)
\* a refused request never transmits
RefusedSilent == \A c \in Calls : call[c].bad => call[c].tries = 0 /\ call[c].st \in {"slot", "fin"}
Idle == Calls = {} => FreeIds = 1..MaxId
=============================================================================
