-------------------------- MODULE ConfirmedTrace --------------------------
(***************************************************************************)
(* Is a recorded execution of the client a behaviour of Confirmed?         *)
(* TRACE names a file with one case per line:                              *)
(*   n: number of calls, ids: the invoke ID each call transmits with (0:   *)
(*   it never transmits), first: index of the event with its first         *)
(*   transmission, ev: the events                                          *)
(* A case is accepted when all of its events can be explained; this is     *)
(* reported by printing <<"ACCEPT", case>>.                                *)
(***************************************************************************)
EXTENDS Confirmed, TLC, Json, IOUtils
VARIABLES cs, l
tvars == <<now, call, free, freeT, wire, cs, l>>

Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[cs].ev
More == l <= Len(Ev)
E == Ev[l]

TraceInit == /\ cs \in 1..Len(Cases) /\ l = 1
             /\ Init

IsEvent(e) == More /\ E.e = e /\ E.t = now /\ l' = l + 1 /\ UNCHANGED cs

EvInv == IsEvent("inv") /\ InvokeAs(E.k, E.kind, E.bad)
EvTx  == IsEvent("tx") /\ E.k \in Calls /\ Transmit(E.k)
         /\ E.id = call[E.k].id /\ E.b = Ev[Cases[cs].first[E.k]].b
EvTxe == IsEvent("txe") /\ E.k \in Calls /\ Transmitted(E.k, E.ok)
EvRx  == IsEvent("rx") /\ Rx(l, [id |-> E.id, eff |-> E.f.eff, svc |-> E.f.svc, good |-> E.f.good,
                                 v |-> E.f.v, cls |-> E.f.cls, code |-> E.f.code])
\* the result that the caller saw is the outcome o of its request
Fits(e, o, k) ==
  CASE o.r = "ok"  -> e.ok /\ (AckEff(k) = "cack" => o.v = <<>> \/ e.objs = o.v)    \* (<<>>: not determined)
    [] o.r = "err" -> ~e.ok /\ e.cls = o.cls /\ e.code = o.code
    [] OTHER       -> ~e.ok
EvRet == IsEvent("ret") /\ E.k \in Calls /\ Return(E.k) /\ Fits(E, call[E.k].out, call[E.k].kind)
EvCalls == IsEvent("calls") /\ E.all /\ Calls = {} /\ UNCHANGED vars
EvEnd == IsEvent("end") /\ E.leak = 0 /\ UNCHANGED vars

(***************************************************************************)
(* Internal steps are taken as late as possible: those of call c when the  *)
(* next event is a transmission or the return of c.  Steps of different    *)
(* calls commute, except that a request which waits for a slot (or for an  *)
(* ID to reach the head of the queue) may need those of another call that  *)
(* finishes or acquires at the same instant.                               *)
(***************************************************************************)
Soon == {j \in l..Len(Ev) : \A i \in l..j : Ev[i].t = now}
Later(d, e) == {j \in Soon : Ev[j].e = e /\ Ev[j].k = d}
\* Something happens to request d, which leads to its next event j.  Of several frames with the
\* same meaning the first is taken.
Frames(d) == {m \in wire : m.to = d \/ (m.to = 0 /\ m.f.id = call[d].id /\ m.f.eff # "none")}
Same(f, g, d) == LET o == Result(d, f) q == Result(d, g) IN o = q /\ f.eff = g.eff
Step(d, j) ==
  /\ call[d].st = "recv"
  /\ \/ RecvTimeout(d)
     \/ \E m \in Frames(d) :
          /\ \A x \in Frames(d) : Same(m.f, x.f, d) => m.n <= x.n
          \* looked up and handed over
          /\ DeliverTo(m, d)
  /\ IF Ev[j].e = "ret" THEN call'[d].st = "fin" /\ Fits(Ev[j], call'[d].out, call[d].kind)
     ELSE call'[d].st = "ready"
CanStep(d) == call[d].st = "recv" /\ (now >= call[d].dl \/ Frames(d) # {})
Id(k) == Cases[cs].ids[k]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Help ==
  LET acq == {d \in Calls : call[d].st = "slot" /\ free # <<>> /\ Id(d) \in free[1] /\ Later(d, "tx") # {}}
      fin == {d \in Calls : CanStep(d) /\ Later(d, "ret") # {} /\ Later(d, "tx") = {}}
      rets == {MinOf(Later(d, "ret")) : d \in fin}
  IN IF SlotFree THEN acq # {} /\ Acquire(MinOf(acq), Id(MinOf(acq)))
     ELSE rets # {} /\ Step(Ev[MinOf(rets)].k, MinOf(rets))
\* A request is refused, having taken an ID or not: after that, the order of the free IDs is not
\* known any more.  (More than Refuse allows: the traces would have too many explanations.)
Refused(c) == /\ call' = [call EXCEPT ![c].st = "fin", ![c].out = [r |-> "refused"]]
              /\ free' = (IF FreeIds = {} THEN <<>> ELSE <<FreeIds>>) /\ freeT' = now
              /\ UNCHANGED <<now, wire>>
Focus(k) ==
  CASE call[k].st = "slot" ->
         \/ E.e = "ret" /\ ~call[k].bad /\ SlotTimeout(k)
         \/ E.e = "ret" /\ call[k].bad /\ Refused(k)
         \/ E.e = "tx" /\ Id(k) # 0 /\
              \/ Acquire(k, Id(k))
              \/ SlotFree /\ Id(k) \in free[1] /\ \E m \in wire : m.to = 0 /\ m.f.id = Id(k) /\ Dispatch(m)
              \/ ~(SlotFree /\ Id(k) \in free[1]) /\ Help
    [] call[k].st = "recv" -> Step(k, l)
    [] OTHER -> FALSE
\* frames that led to nothing
Clean == wire # {} /\
  LET open == {m \in wire : m.to = 0 \/ m.to \notin InUse \/ call[m.to].st = "recv"}
  IN open # {} /\ LET m == CHOOSE x \in open : \A y \in open : x.n <= y.n IN Dispatch(m) \/ Drop(m)
Internal ==
  /\ More
  /\ IF E.t > now THEN Clean ELSE E.e \in {"tx", "ret"} /\ E.k \in Calls /\ Focus(E.k)
  /\ UNCHANGED <<cs, l>>
EvTick == More /\ E.t > now
          /\ (IF NextDeadline = {} THEN Tick(E.t)
              ELSE LET d == CHOOSE x \in NextDeadline : \A y \in NextDeadline : x <= y
                   IN IF d < E.t /\ d > now THEN Tick(d) ELSE Tick(E.t))
          /\ UNCHANGED <<cs, l>>

TraceNext == EvInv \/ EvTx \/ EvTxe \/ EvRx \/ EvRet \/ EvCalls \/ EvEnd \/ Internal \/ EvTick
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Accepted == ~More => PrintT(<<"ACCEPT", cs>>)
Reached == PrintT(<<"AT", cs, l>>)            \* diagnosis of a rejected case
\* the invariants of Confirmed in every state of every execution
TraceInv == IdsUnique /\ IdsConserved /\ Bounded /\ TriesBounded /\ BoundRight
=============================================================================
