----------------------------- MODULE EchoCheck -----------------------------
(***************************************************************************)
(* One client, shared by many goroutines that call it at the same time,    *)
(* and a device that answers every request with data that follow from it,  *)
(* in any order.  Every line of TRACE is one call: what was asked (objs),  *)
(* what was sent for it, and what it returned; or what is left in the end. *)
(* Whatever the other calls do, a call sends its own request, under an     *)
(* identifier that no other outstanding request has, and returns the    *)
(* device's answer to that very request.                                   *)
(***************************************************************************)
EXTENDS Parse, TLC, Json, IOUtils
CONSTANTS Cap, MaxId
VARIABLE cs
Cases == ndJsonDeserialize(IOEnv.TRACE)
Init == cs \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED cs
Spec == Init /\ [][Next]_cs

\* the device: an octet string that depends on the object and the property ...
Answer(in, p, m) == [i \in 1..(1 + ((in + (31 * p)) % m)) |->
   ((in % 65521) + ((in \div 65536) * 5) + (3 * p) + (i * (1 + (in % 7)))) % 256]
Answered(o, m) == [o EXCEPT !.props = [j \in 1..Len(@) |->
                     [p |-> @[j].p, ix |-> @[j].ix, v |-> [t |-> "oct", b |-> Answer(N4(o.in), N4(@[j].p), m)]]]]
\* ... or an error, for every sixteenth object
Errs(o) == N4(o.in) % 16 = 0
Failing(os) == {k \in 1..Len(os) : Errs(os[k])}

Body(c) == CASE c.kind = "rp" -> RPBody(c.objs[1]) [] c.kind = "rpm" -> RPMBody(c.objs)
             [] c.kind = "wp" -> WPBody(c.objs[1]) [] c.kind = "wpm" -> WPMBody(c.objs)
Svc(c) == CASE c.kind = "rp" -> SvcRP [] c.kind = "rpm" -> SvcRPM [] c.kind = "wp" -> SvcWP [] c.kind = "wpm" -> SvcWPM
OwnRequest(c) ==
  \* an answer ends it; all but read-property ask again after an error
  /\ Len(c.sent) \in 1..(IF c.kind = "rp" \/ Failing(c.objs) = {} THEN 1 ELSE 2)
  /\ \A k \in 1..Len(c.sent) :
       LET s == c.sent[k] IN /\ s.id \in 1..MaxId /\ ~s.clash /\ s.id = c.sent[1].id
                             /\ s.b = ConfReq(s.id, Svc(c), Body(c))
SameRead(got, want) ==
  /\ Len(got) = Len(want)
  /\ \A k \in 1..Len(want) :
       /\ got[k].ty = want[k].ty /\ got[k].in = want[k].in
       /\ Len(got[k].props) = Len(want[k].props)
       /\ \A j \in 1..Len(want[k].props) :
            LET g == got[k].props[j]
                w == want[k].props[j]
            IN g.p = w.p /\ g.ix = w.ix /\ g.v = w.v
OwnAnswer(c) ==
  IF Failing(c.objs) # {}
  THEN LET f == CHOOSE k \in Failing(c.objs) : \A j \in Failing(c.objs) : k <= j
           n == N4(c.objs[f].in)
       IN ~c.ok /\ c.cls = 1 + ((n \div 16) % 6) /\ c.code = (n \div 128) % 50
  ELSE /\ c.ok
       /\ (c.kind \in {"rp", "rpm"} =>
             SameRead(c.got, [k \in 1..Len(c.objs) |-> Answered(c.objs[k], IF c.kind = "rp" THEN 900 ELSE 40)]))
Ok(c) == CASE c.e = "echo" -> OwnRequest(c) /\ OwnAnswer(c)
           [] c.e = "end" -> c.leak = 0 /\ c.max <= Cap
           [] OTHER -> FALSE
Accepted == Ok(Cases[cs]) => PrintT(<<"ACCEPT", cs>>)
=============================================================================
