---------------------------- MODULE DiscoveryMC ----------------------------
(***************************************************************************)
(* A collector built on publish/subscribe, as the client has it, against   *)
(* the bounds of Discovery: whatever it returns is allowed, and nothing    *)
(* but that is.                                                            *)
(***************************************************************************)
EXTENDS Discovery, TLC
CONSTANTS NC, NM, TMax
VARIABLES im, nc, nm, bad
mvars == <<now, coll, im, nc, nm, bad>>
\* im: collection -> [on, last, got (sequence of announcements)]
MCDescribes(a, b) == a = b.dev
Nets == {<<>>, <<1>>, <<2, 1>>}
Anns(n) == {[eff |-> "iam", num |-> i, dev |-> n, nets |-> <<>>] : i \in {1, 2}}
        \cup {[eff |-> "routers", num |-> 0, dev |-> 0, nets |-> x] : x \in Nets}
        \cup {[eff |-> "netnum", num |-> 0, dev |-> 0, nets |-> <<1>>]}
PubId(f) == IF f.eff = "iam" THEN f.num ELSE IF f.nets = <<>> THEN 0 ELSE f.nets[1]
MCInit == Init /\ im = <<>> /\ nc = 0 /\ nm = 0 /\ bad = FALSE
Ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
MCStart == /\ nc < NC /\ nc' = nc + 1 /\ UNCHANGED <<nm, bad>>
           /\ \E k \in {"whois", "router", "netnum"} : \E lo \in {0, 2} :
                Start(nc + 1, k, IF k = "whois" THEN lo ELSE 1, IF k = "whois" THEN 2 ELSE 100)
           /\ im' = Ext(im, nc + 1, [on |-> FALSE, last |-> now, got |-> <<>>])
MCSend == \E c \in Colls : (Send(c) \/ Sent(c, TRUE)) /\ UNCHANGED <<im, nc, nm, bad>>
MCReg == \E c \in Colls : ~im[c].on /\ im' = [im EXCEPT ![c].on = TRUE] /\ UNCHANGED <<now, coll, nc, nm, bad>>
Dl(c) == Min(coll[c].t0 + Overall, im[c].last + Quiet)
\* published at once to all who listen; who is about to leave may or may not take it
MCArrive == /\ nm < NM /\ nm' = nm + 1
            /\ \E f \in Anns(nm + 1) : Arrive(nm + 1, f)
                 /\ \E leave \in SUBSET {c \in Colls : now >= Dl(c)} :
                      im' = [c \in Colls |-> IF im[c].on /\ c \notin leave /\ coll[c].lo <= PubId(f) /\ PubId(f) <= coll[c].hi
                                             THEN [im[c] EXCEPT !.last = now, !.got = Append(@, f)] ELSE im[c]]
            /\ UNCHANGED <<nc, bad>>
RECURSIVE Firsts(_)
Firsts(g) == IF g = <<>> THEN <<>>
             ELSE LET r == Firsts(SubSeq(g, 1, Len(g) - 1)) f == g[Len(g)] IN
                  IF \E i \in 1..Len(r) : r[i].num = f.num THEN r ELSE Append(r, [num |-> f.num, dev |-> f.dev])
RECURSIVE Concat(_)
Concat(g) == IF g = <<>> THEN <<>> ELSE Head(g).nets \o Concat(Tail(g))
Result(c) == LET own == SelectSeq(im[c].got, LAMBDA f : Kind(f.eff) = coll[c].kind) IN
             [ok |-> TRUE, devs |-> IF coll[c].kind = "whois" THEN Firsts(own) ELSE <<>>,
              nets |-> IF coll[c].kind = "whois" THEN <<>> ELSE Concat(own)]
MCFinish == \E c \in Colls : /\ im[c].on /\ now >= Dl(c) /\ coll[c].sent = "ok"
                             /\ IF ENABLED Finish(c, Result(c)) THEN Finish(c, Result(c)) /\ UNCHANGED bad
                                ELSE bad' = TRUE /\ UNCHANGED <<now, coll>>
                             /\ im' = [d \in (IF bad' THEN Colls ELSE Colls \ {c}) |-> im[d]]
                             /\ UNCHANGED <<nc, nm>>
MCTick == /\ now < TMax
          /\ \A c \in Colls : im[c].on /\ now < Dl(c) /\ coll[c].sent = "ok"
          /\ Tick(now + 1)
          /\ UNCHANGED <<im, nc, nm, bad>>
MCNext == ~bad /\ (MCStart \/ MCSend \/ MCReg \/ MCArrive \/ MCFinish \/ MCTick)
MCSpec == MCInit /\ [][MCNext]_mvars
\* every result of the collector is one that Discovery allows
Conforms == ~bad
\* and the bounds say something: what must be taken is what was taken
MustTaken == \A c \in Colls : \A m \in coll[c].must : \E i \in 1..Len(im[c].got) : im[c].got[i] = m.f
TakenMay == \A c \in Colls : \A i \in 1..Len(im[c].got) : Kind(im[c].got[i].eff) = coll[c].kind =>
              \E m \in coll[c].may : m.f = im[c].got[i]
TimesRight == \A c \in Colls : coll[c].lastMin <= im[c].last /\ im[c].last <= coll[c].lastMax
=============================================================================
