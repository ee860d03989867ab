------------------------------- MODULE Utsm -------------------------------
(***************************************************************************)
(* The publish/subscribe manager that discovery is built on.  Subscriber s *)
(* subscribes to the IDs lo..hi, publication p carries an ID and its own   *)
(* number as value.  A subscription ends Quiet after the last publication  *)
(* in its range, and at the latest Overall after it began; it returns what *)
(* was handed to it.                                                       *)
(*                                                                         *)
(* A publication first finds out who is subscribed, then hands its value   *)
(* to each of them.  It waits for no one: a subscriber takes the value or  *)
(* has left.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES now,
          sub,   \* open subscription -> [st, lo, hi, T, t0, last, got]; st: new, on, off;
                 \* T = <<overall, quiet>>: the manager's, or its own (the subscription's options)
          pub    \* publication under way -> [st, id, to]; st: new, on
uvars == <<now, sub, pub>>

Subs == DOMAIN sub
Pubs == DOMAIN pub
Extend(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Remove(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Min(a, b) == IF a < b THEN a ELSE b
Deadline(s) == LET T == sub[s].T IN Min(sub[s].t0 + T[1], sub[s].last + T[2])

Init == now = 0 /\ sub = <<>> /\ pub = <<>>

Subscribe(s, lo, hi, T) ==
  /\ s \notin Subs
  /\ sub' = Extend(sub, s, [st |-> "new", lo |-> lo, hi |-> hi, T |-> T, t0 |-> now, last |-> now, got |-> <<>>])
  /\ UNCHANGED <<now, pub>>
Register(s) ==
  /\ sub[s].st = "new"
  /\ sub' = [sub EXCEPT ![s].st = "on"]
  /\ UNCHANGED <<now, pub>>
Expire(s) ==
  /\ sub[s].st = "on" /\ now >= Deadline(s)
  /\ sub' = [sub EXCEPT ![s].st = "off"]
  /\ UNCHANGED <<now, pub>>
SubReturn(s) ==
  /\ sub[s].st = "off"
  /\ sub' = Remove(sub, s)
  /\ UNCHANGED <<now, pub>>

Publish(p, id) ==
  /\ p \notin Pubs
  /\ pub' = Extend(pub, p, [st |-> "new", id |-> id, to |-> {}])
  /\ UNCHANGED <<now, sub>>
InRange(p, s) == sub[s].lo <= pub[p].id /\ pub[p].id <= sub[s].hi
Look(p) ==
  /\ pub[p].st = "new"
  /\ pub' = [pub EXCEPT ![p].st = "on", ![p].to = {s \in Subs : sub[s].st = "on" /\ InRange(p, s)}]
  /\ UNCHANGED <<now, sub>>
\* the value reaches the subscriber, if it is still there
Hand(p, s) ==
  /\ pub[p].st = "on" /\ s \in pub[p].to
  /\ sub' = IF s \in Subs /\ sub[s].st = "on"
            THEN [sub EXCEPT ![s].got = Append(@, p), ![s].last = now]
            ELSE sub
  /\ pub' = [pub EXCEPT ![p].to = @ \ {s}]
  /\ UNCHANGED now
PubReturn(p) ==
  /\ pub[p].st = "on" /\ pub[p].to = {}
  /\ pub' = Remove(pub, p)
  /\ UNCHANGED <<now, sub>>

\* nothing can happen without time going on
Quiescent == /\ Pubs = {}
             /\ \A s \in Subs : sub[s].st = "on" /\ now < Deadline(s)
Tick(t) == /\ t > now /\ Quiescent
           /\ \A s \in Subs : t <= Deadline(s)
           /\ now' = t /\ UNCHANGED <<sub, pub>>

(* ---------------------------------------------------------- properties *)
\* C07: only what is in range, each once
OnlyInRange == \A s \in Subs : \A i, j \in 1..Len(sub[s].got) : i # j => sub[s].got[i] # sub[s].got[j]
\* C08: a subscription lives as long as its timeouts say
Schedule == \A s \in Subs : now <= Deadline(s) /\ now <= sub[s].t0 + sub[s].T[1] /\ now <= sub[s].last + sub[s].T[2]
=============================================================================
