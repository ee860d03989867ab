----------------------------- MODULE Discovery -----------------------------
(***************************************************************************)
(* Who-Is, Who-Is-Router-To-Network and What-Is-Network-Number.  Each      *)
(* broadcasts one request and then collects announcements: for Quiet after *)
(* the last one in its range, for at most Overall.                         *)
(*                                                                         *)
(* What a caller may see is described by bounds.  `must' are the           *)
(* announcements a collection has to take, `may' those it can take: they   *)
(* differ by announcements that arrive at the instant at which it begins   *)
(* or may end.  Announcements of another kind (a network number that is in *)
(* the range of a Who-Is, say) may prolong a collection, they need not.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Overall, Quiet, Describes(_, _)
VARIABLES now,
          coll     \* open collection -> [kind, lo, hi, t0, reg, sent, send (end of transmission), lastMin, lastMax, must, may]
dvars == <<now, coll>>

Colls == DOMAIN coll
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
DMin(c) == Min(coll[c].t0 + Overall, coll[c].lastMin + Quiet)
DMax(c) == Min(coll[c].t0 + Overall, coll[c].lastMax + Quiet)

(***************************************************************************)
(* Announcements: [eff, num, dev, nets].  eff: "iam" (num: the instance,   *)
(* dev: its description), "routers" (nets: the networks), "netnum" (nets:  *)
(* the one network), "none".                                               *)
(***************************************************************************)
Kind(eff) == CASE eff = "iam" -> "whois" [] eff = "routers" -> "router" [] eff = "netnum" -> "netnum" [] OTHER -> "none"
Nums(f) == IF f.eff = "iam" THEN {f.num} ELSE {f.nets[i] : i \in 1..Len(f.nets)} \cup (IF f.eff = "routers" THEN {0} ELSE {})
Own(c, f) == /\ Kind(f.eff) = coll[c].kind
             /\ f.eff # "iam" => f.nets # <<>>
             /\ f.eff = "iam" => coll[c].lo <= f.num /\ f.num <= coll[c].hi
\* may an announcement of another kind be taken for one in the range?
Cross(c, f) == f.eff # "none" /\ \E x \in Nums(f) : coll[c].lo <= x /\ x <= coll[c].hi

Init == now = 0 /\ coll = <<>>

Start(c, kind, lo, hi) ==
  /\ c \notin Colls
  /\ coll' = [d \in Colls \cup {c} |-> IF d = c
       THEN [kind |-> kind, lo |-> lo, hi |-> hi, t0 |-> now, reg |-> FALSE, sent |-> "no", send |-> now,
             lastMin |-> now, lastMax |-> now, must |-> {}, may |-> {}]
       ELSE coll[d]]
  /\ UNCHANGED now
\* certainly collecting by now
Settle == coll' = [c \in Colls |-> [coll[c] EXCEPT !.reg = TRUE]] /\ UNCHANGED now

Send(c) == /\ coll[c].sent = "no" /\ coll' = [coll EXCEPT ![c].sent = "busy"] /\ UNCHANGED now
Sent(c, ok) == /\ coll[c].sent = "busy"
               /\ coll' = [coll EXCEPT ![c].sent = IF ok THEN "ok" ELSE "fail", ![c].send = now] /\ UNCHANGED now

Arrived(c, n, f) ==
  LET m == [n |-> n, at |-> now, f |-> f]
      s == coll[c]
      may == now <= DMax(c)
      must == s.reg /\ now < DMin(c)
  IN IF Own(c, f) /\ may
     THEN [s EXCEPT !.may = @ \cup {m}, !.must = IF must THEN @ \cup {m} ELSE @,
                    !.lastMax = now, !.lastMin = IF must THEN now ELSE @]
     ELSE IF Cross(c, f) /\ may THEN [s EXCEPT !.lastMax = now] ELSE s
Arrive(n, f) == coll' = [c \in Colls |-> Arrived(c, n, f)] /\ UNCHANGED now

(* ------------------------------------------------------------- results *)
DevicesOk(c, devs) ==
  LET s == coll[c] IN
  /\ \A m \in s.must : \E i \in 1..Len(devs) : devs[i].num = m.f.num
  /\ \A i \in 1..Len(devs) : \E m \in s.may :
        /\ m.f.num = devs[i].num /\ Describes(m.f.dev, devs[i])
        /\ ~\E x \in s.must : x.f.num = m.f.num /\ x.at < m.at
  /\ \A i, j \in 1..Len(devs) : i # j => devs[i].num # devs[j].num
NetsOk(c, nets) ==
  LET s == coll[c]
      Has(m, x) == \E i \in 1..Len(m.f.nets) : m.f.nets[i] = x
  IN /\ \A m \in s.must : \A i \in 1..Len(m.f.nets) : \E j \in 1..Len(nets) : nets[j] = m.f.nets[i]
     /\ \A i \in 1..Len(nets) :
          Cardinality({j \in 1..Len(nets) : nets[j] = nets[i]}) <= Cardinality({m \in s.may : Has(m, nets[i])})
\* r: [ok, devs, nets]
ResultOk(c, r) ==
  IF coll[c].kind = "whois" THEN IF coll[c].sent = "fail" THEN ~r.ok ELSE r.ok /\ DevicesOk(c, r.devs)
  ELSE coll[c].sent = "fail" \/ NetsOk(c, r.nets)
Finish(c, r) ==
  /\ coll[c].sent \in {"ok", "fail"}
  /\ now >= DMin(c) /\ now <= Max(DMax(c), coll[c].send)
  /\ ResultOk(c, r) = TRUE      \* (a value for TLC: not to be taken apart)
  /\ coll' = [d \in Colls \ {c} |-> coll[d]] /\ UNCHANGED now

Tick(t) ==
  /\ t > now
  /\ \A c \in Colls : coll[c].sent # "no" /\ (t > DMax(c) => coll[c].sent = "busy")
  /\ now' = t
  /\ coll' = [c \in Colls |-> [coll[c] EXCEPT !.reg = TRUE]]
=============================================================================
