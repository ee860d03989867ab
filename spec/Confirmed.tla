----------------------------- MODULE Confirmed -----------------------------
(***************************************************************************)
(* Confirmed requests of one client: read-property (rp), read-property-    *)
(* multiple (rpm), write-property (wp), write-property-multiple (wpm).     *)
(*                                                                         *)
(* A request waits for one of Cap slots and takes the invoke ID that has   *)
(* been free for longest, transmits, waits RecvT for a reply, transmits    *)
(* again as often as its kind allows, and gives ID and slot back when it   *)
(* finishes.  Received frames are handled concurrently, each is looked up  *)
(* by its invoke ID and handed to the request that owns the ID when that   *)
(* request is (or next starts) waiting.                                    *)
(*                                                                         *)
(* Time is discrete (milliseconds).  The clock only advances when no       *)
(* internal step is possible (maximal progress), which is what virtual     *)
(* time does to the implementation.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cap,      \* requests outstanding at the same time
          MaxId,    \* invoke IDs are 1..MaxId
          RecvT,    \* time to wait for a reply to one transmission
          ShortT,   \* time to wait for a slot: rp, wp, wpm
          LongT     \* time to wait for a slot: rpm

VARIABLES now,      \* the clock
          call,     \* open call -> state of the request
          free,     \* free invoke IDs: sequence of sets, first set longest free;
                    \* IDs that were released at the same instant are in one set
          freeT,    \* when the IDs of the last set were released
          wire      \* frames received and not yet disposed of
vars == <<now, call, free, freeT, wire>>

Kinds == {"rp", "rpm", "wp", "wpm"}
SlotT(k) == IF k = "rpm" THEN LongT ELSE ShortT
Tries(k) == IF k = "rp" THEN 1 ELSE 2
\* what acknowledges a request: type of PDU and service choice
AckEff(k) == IF k \in {"rp", "rpm"} THEN "cack" ELSE "sack"
AckSvc(k) == CASE k = "rp" -> 12 [] k = "rpm" -> 14 [] k = "wp" -> 15 [] k = "wpm" -> 16

(***************************************************************************)
(* Frames: [id, eff, svc, good, v, cls, code].  eff is what kind of frame  *)
(* it is: "cack" complex ack, "sack" simple ack, "err" Error PDU, "none"   *)
(* anything that is no reply a client understands (requests of peers,      *)
(* network messages, reject, abort, other link functions, garbage).  good: *)
(* the data of a complex ack are well-formed data of service svc, an Error *)
(* PDU has its class and code.                                             *)
(***************************************************************************)
IsAck(k, f) == f.eff = AckEff(k) /\ f.svc = AckSvc(k) /\ f.good

\* bad: the request cannot be made (its arguments are invalid, it is too large for the device)
NewCall(k, bad) == [st |-> "slot", kind |-> k, id |-> 0, tries |-> 0, dl |-> now + SlotT(k), out |-> [r |-> "none"], bad |-> bad]

Calls == DOMAIN call
InUse == {c \in Calls : call[c].st \in {"ready", "sending", "recv"}}
Owner(i) == {c \in InUse : call[c].id = i}
FreeIds == UNION {free[j] : j \in DOMAIN free}

Init ==
  /\ now = 0
  /\ call = <<>>
  /\ free = [i \in 1..MaxId |-> {i}]
  /\ freeT = -1
  /\ wire = {}

InvokeAs(c, k, bad) ==
  /\ c \notin Calls
  /\ call' = [d \in Calls \cup {c} |-> IF d = c THEN NewCall(k, bad) ELSE call[d]]
  /\ UNCHANGED <<now, free, freeT, wire>>
Invoke(c, k) == InvokeAs(c, k, FALSE)

\* An invalid request is refused: nothing is transmitted.  It may be noticed before the request has
\* a slot and an invoke ID (i = 0), or after that; then the ID goes to the end of the queue.
Refuse(c, i) ==
  /\ call[c].st = "slot" /\ call[c].bad
  /\ call' = [call EXCEPT ![c].st = "fin", ![c].out = [r |-> "refused"]]
  /\ IF i = 0 THEN UNCHANGED <<free, freeT>>
     ELSE LET rest == IF free[1] = {i} THEN Tail(free) ELSE [free EXCEPT ![1] = @ \ {i}]
          IN /\ Cardinality(InUse) < Cap /\ free # <<>> /\ i \in free[1]
             /\ free' = IF freeT = now /\ rest # <<>> THEN [rest EXCEPT ![Len(rest)] = @ \cup {i}] ELSE Append(rest, {i})
             /\ freeT' = now
  /\ UNCHANGED <<now, wire>>

Acquire(c, i) ==
  /\ call[c].st = "slot" /\ ~call[c].bad
  /\ Cardinality(InUse) < Cap
  /\ free # <<>> /\ i \in free[1]
  /\ free' = IF free[1] = {i} THEN Tail(free) ELSE [free EXCEPT ![1] = @ \ {i}]
  /\ call' = [call EXCEPT ![c].st = "ready", ![c].id = i]
  /\ UNCHANGED <<now, freeT, wire>>

SlotTimeout(c) ==
  /\ call[c].st = "slot" /\ now >= call[c].dl
  /\ call' = [call EXCEPT ![c].st = "fin", ![c].out = [r |-> "slot"]]
  /\ UNCHANGED <<now, free, freeT, wire>>

\* The request is over: the result is known, invoke ID and slot are free again.
Finish(c, out) ==
  /\ call' = [call EXCEPT ![c].st = "fin", ![c].out = out]
  /\ free' = IF freeT = now /\ free # <<>>
             THEN [free EXCEPT ![Len(free)] = @ \cup {call[c].id}]
             ELSE Append(free, {call[c].id})
  /\ freeT' = now

\* one transmission did not lead to a result
Attempted(c, out) ==
  IF call[c].tries < Tries(call[c].kind)
  THEN /\ call' = [call EXCEPT ![c].st = "ready", ![c].out = out]
       /\ UNCHANGED <<free, freeT>>
  ELSE Finish(c, out)

Transmit(c) ==
  /\ call[c].st = "ready"
  /\ call' = [call EXCEPT ![c].st = "sending", ![c].tries = @ + 1]
  /\ UNCHANGED <<now, free, freeT, wire>>

\* the link is done with the frame
Transmitted(c, ok) ==
  /\ call[c].st = "sending"
  /\ IF ok THEN /\ call' = [call EXCEPT ![c].st = "recv", ![c].dl = now + RecvT]
                /\ UNCHANGED <<free, freeT>>
     ELSE Attempted(c, [r |-> "send"])
  /\ UNCHANGED <<now, wire>>

RecvTimeout(c) ==
  /\ call[c].st = "recv" /\ now >= call[c].dl
  /\ Attempted(c, [r |-> "timeout"])
  /\ UNCHANGED <<now, wire>>

Rx(n, f) ==
  /\ wire' = wire \cup {[n |-> n, to |-> 0, f |-> f]}
  /\ UNCHANGED <<now, call, free, freeT>>

\* A frame is looked up by its invoke ID, once.
Dispatch(m) ==
  /\ m \in wire /\ m.to = 0
  /\ wire' = (wire \ {m}) \cup
               (IF m.f.eff = "none" THEN {}
                ELSE {[m EXCEPT !.to = c] : c \in Owner(m.f.id)})
  /\ UNCHANGED <<now, call, free, freeT>>

Result(c, f) ==
  LET k == call[c].kind IN
  CASE f.eff = "err" /\ f.good -> [r |-> "err", cls |-> f.cls, code |-> f.code]
    [] IsAck(k, f)   -> [r |-> "ok", v |-> f.v]
    [] OTHER         -> [r |-> "bad"]

\* request c gets frame m
DeliverTo(m, c) ==
  /\ m \in wire
  /\ LET out == Result(c, m.f)
     IN /\ c \in Calls /\ call[c].st = "recv"
        /\ \E final \in (IF out.r = "ok" \/ (out.r = "err" /\ call[c].kind \in {"rp", "wp"}) THEN {TRUE}
                         \* an Error PDU without class and code is an error, or garbage
                         ELSE IF m.f.eff = "err" /\ out.r = "bad" THEN BOOLEAN
                         ELSE {FALSE}) :
              IF final THEN Finish(c, out) ELSE Attempted(c, out)
  /\ wire' = wire \ {m}
  /\ UNCHANGED now
Deliver(m) == m.to # 0 /\ DeliverTo(m, m.to)

\* Replies to a request that is over are dropped; one that is no answer to the request may be.
Drop(m) ==
  /\ m \in wire /\ m.to # 0
  /\ \/ m.to \notin InUse
     \/ m.to \in Calls /\ call[m.to].st = "recv" /\ Result(m.to, m.f).r = "bad"
  /\ wire' = wire \ {m}
  /\ UNCHANGED <<now, call, free, freeT>>

Return(c) ==
  /\ call[c].st = "fin"
  /\ call' = [d \in Calls \ {c} |-> call[d]]
  /\ UNCHANGED <<now, free, freeT, wire>>

(* ---------------------------------------------------------------- time *)
SlotFree == Cardinality(InUse) < Cap /\ free # <<>>
Quiescent ==
  /\ \A c \in Calls :
       /\ call[c].st \in {"slot", "sending", "recv"}
       /\ call[c].st = "slot" => ~SlotFree /\ now < call[c].dl
       /\ call[c].st = "recv" => now < call[c].dl
  /\ \A m \in wire : m.to # 0 /\ m.to \in InUse /\ call[m.to].st # "recv"

\* the clock does not skip a deadline
NextDeadline == {call[c].dl : c \in {d \in Calls : call[d].st \in {"slot", "recv"}}}
Tick(t) ==
  /\ t > now
  /\ Quiescent
  /\ \A d \in NextDeadline : t <= d
  /\ now' = t
  /\ UNCHANGED <<call, free, freeT, wire>>

(* ---------------------------------------------------------- properties *)
TypeOK ==
  /\ \A c \in Calls : call[c].st \in {"slot", "ready", "sending", "recv", "fin"}
  /\ \A m \in wire : m.to \in Nat
\* C02: IDs in use are distinct and in range, there are at most Cap; nothing is lost or duplicated
IdsUnique == \A c, d \in InUse : c # d => call[c].id # call[d].id
IdsConserved ==
  /\ {call[c].id : c \in InUse} \cap FreeIds = {}
  /\ {call[c].id : c \in InUse} \cup FreeIds = 1..MaxId
  /\ \A i, j \in DOMAIN free : i # j => free[i] \cap free[j] = {}
Bounded == Cardinality(InUse) <= Cap
\* C04
TriesBounded == \A c \in Calls : call[c].tries <= Tries(call[c].kind)
\* C03: a request that is over holds nothing (the definition of InUse makes this IdsConserved)
\* C01, C06: a frame in flight to a request carries the ID of that request
BoundRight == \A m \in wire : m.to \in InUse => call[m.to].id = m.f.id
=============================================================================
