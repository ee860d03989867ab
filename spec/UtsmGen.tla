------------------------------ MODULE UtsmGen ------------------------------
(* Random behaviours of Utsm, as scripts for the real manager. *)
EXTENDS Utsm, TLC, Json
CONSTANTS MaxSub, MaxPub, MaxOps
VARIABLES tmo, script, ns, np, emitted
gvars == <<now, sub, pub, tmo, script, ns, np, emitted>>
R(S) == RandomElement(S)
Overalls == {50, 100, 300, 1000}
Quiets == {10, 20, 50, 100, 500, 2000}
\* IDs at the ends of the ranges, in between, and far out
Ids == {-1, 0, 1, 2, 3, 4, 7, 8, 4194302, 4194303, 4194304, 2147483647}
Bounds == {-5, 0, 0, 1, 2, 3, 4, 8, 4194303, 4194304}
\* (drawn in the first step: there is only one initial state per run of TLC)
GPick == \E a \in {R(Overalls)} : \E q \in {R(Quiets)} : tmo' = <<a, q>> /\ UNCHANGED <<now, sub, pub, script, ns, np, emitted>>
GInit == Init /\ tmo = <<>>
         /\ script = <<>> /\ ns = 0 /\ np = 0 /\ emitted = FALSE
Out(r) == script' = Append(script, r)
GSub == \E x \in {R(Bounds)} : \E y \in {R(Bounds)} : \E z \in {R(1..4)} :
        \* often the very range of another subscription; sometimes timeouts of its own
        \E w \in {IF Subs = {} THEN 0 ELSE R(Subs \cup {0})} : \E u \in {R(1..10)} :
        \E a \in {R(Overalls)} : \E q \in {R(Quiets)} :
        LET lo == IF w > 0 THEN sub[w].lo ELSE IF z = 1 THEN y ELSE IF x < y THEN x ELSE y
            hi == IF w > 0 THEN sub[w].hi ELSE IF z = 1 THEN x ELSE IF x < y THEN y ELSE x
            a1 == IF u \in {1, 2} THEN a ELSE tmo[1]
            q1 == IF u \in {2, 3} THEN q ELSE tmo[2]
        IN /\ Subscribe(ns + 1, lo, hi, <<a1, q1>>) /\ ns' = ns + 1
           /\ Out([op |-> "sub", at |-> now, s |-> ns + 1, lo |-> lo, hi |-> hi,
                   own |-> <<IF u \in {1, 2} THEN a ELSE -1, IF u \in {2, 3} THEN q ELSE -1>>])
           /\ UNCHANGED <<np, tmo, emitted>>
GPub == \E z \in {R(1..10)} : \E q \in {R(Ids)} :
        \E s \in {IF Subs = {} THEN 0 ELSE R(Subs)} : \E w \in {R(1..5)} :
        LET id == IF z <= 7 /\ s # 0 THEN (CASE w = 1 -> sub[s].lo [] w = 2 -> sub[s].hi [] w = 3 -> sub[s].lo - 1
                                             [] w = 4 -> (IF sub[s].hi < 5000000 THEN sub[s].hi + 1 ELSE 0) [] OTHER -> sub[s].lo)
                  ELSE q
        IN /\ Publish(np + 1, id) /\ np' = np + 1
           /\ Out([op |-> "pub", at |-> now, p |-> np + 1, id |-> id])
           /\ UNCHANGED <<ns, tmo, emitted>>
GSync == Out([op |-> "sync", at |-> now]) /\ UNCHANGED <<uvars, ns, np, tmo, emitted>>
Steps == {<<"reg", s>> : s \in {x \in Subs : sub[x].st = "new"}}
    \cup {<<"look", p>> : p \in {x \in Pubs : pub[x].st = "new"}}
    \cup {<<"ret", p>> : p \in {x \in Pubs : pub[x].st = "on" /\ pub[x].to = {}}}
    \cup UNION {{<<"hand", p, s>> : s \in pub[p].to} : p \in {x \in Pubs : pub[x].st = "on"}}
    \cup {<<"exp", s>> : s \in {x \in Subs : sub[x].st = "on" /\ now >= Deadline(x)}}
    \cup {<<"sret", s>> : s \in {x \in Subs : sub[x].st = "off"}}
GInt == \E u \in {R(Steps)} :
          /\ CASE u[1] = "reg" -> Register(u[2]) [] u[1] = "look" -> Look(u[2]) [] u[1] = "ret" -> PubReturn(u[2])
               [] u[1] = "hand" -> Hand(u[2], u[3]) [] u[1] = "exp" -> Expire(u[2]) [] u[1] = "sret" -> SubReturn(u[2])
          /\ UNCHANGED <<tmo, script, ns, np, emitted>>
Dl == {Deadline(s) : s \in Subs}
MinD == IF Dl = {} THEN now + 20 ELSE CHOOSE d \in Dl : \A e \in Dl : d <= e
GTick == \E p \in {R(1..6)} :
  LET t0 == CASE p \in {1, 2} -> MinD [] p = 3 -> MinD - 1 [] p = 4 -> now + 1 [] p = 5 -> now + ((MinD - now) \div 2)
              [] OTHER -> now + 3
      t == IF t0 <= now THEN now + 1 ELSE IF t0 > MinD THEN MinD ELSE t0
  IN Tick(t) /\ UNCHANGED <<tmo, script, ns, np, emitted>>
Over == Len(script) >= MaxOps \/ (ns = MaxSub /\ Subs = {} /\ Pubs = {})
Emit == Over /\ ~emitted /\ emitted' = TRUE /\ PrintT("SCRIPT " \o ToJson([T |-> tmo, ops |-> script]))
        /\ UNCHANGED <<now, sub, pub, tmo, script, ns, np>>
GEnv == \E p \in {R(1..100)} :
  IF ns < MaxSub /\ p <= (IF Subs = {} THEN 60 ELSE 12) THEN GSub
  ELSE IF np < MaxPub /\ p <= 62 THEN GPub
  ELSE IF p <= 67 THEN GSync
  ELSE IF Steps # {} THEN GInt ELSE GTick
GNext == ~emitted /\ IF tmo = <<>> THEN GPick ELSE IF Over THEN Emit
         ELSE \E q \in {R(1..3)} : IF Steps # {} /\ q > 1 THEN GInt ELSE GEnv
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
