--------------------------- MODULE ConfirmedGen ---------------------------
(***************************************************************************)
(* Random behaviours of Confirmed, as scripts for the real client: which   *)
(* calls are made, which frames arrive and what the link does, and when.   *)
(* Run with tlc -simulate; every behaviour ends by printing its script.    *)
(*                                                                         *)
(* Profile  "mixed": few calls, all kinds of frames and faults             *)
(*          "sat":   more calls than slots                                 *)
(*          "long":  more calls than invoke IDs                            *)
(*          "burst": calls at the same instant, replies permuted and       *)
(*                   repeated, often at the same instant                   *)
(***************************************************************************)
EXTENDS Confirmed, Wire, TLC, Json
CONSTANTS Profile, N, MaxOps
VARIABLES script, started, snd, nf, emitted, txd
gvars == <<now, call, free, freeT, wire, script, started, snd, nf, emitted, txd>>

R(S) == RandomElement(S)
KindOrder == <<"rp", "rpm", "wp", "wpm">>

GenInit == Init /\ script = <<>> /\ started = 0 /\ snd = [c \in 1..N |-> <<>>] /\ nf = 0 /\ emitted = FALSE
           /\ txd = <<>>

(* ------------------------------------------------------------- frames *)
Read(n, obj) == <<[ty |-> 2, in |-> U32(obj), props |-> <<[p |-> U32(85), ix |-> ArrayAll,
                     v |-> [t |-> "uint", b |-> U32(n)]]>>]>>
\* error codes: common ones, those around the ends of the standard's table, long ones
Codes == {0, 1, 2, 9, 25, 27, 31, 32, 33, 34, 35, 37, 40, 42, 50, 135, 136, 137, 138, 255, 256, 300, 65535, 65536, 16777216}
Class(x) == IF x % 10 = 8 THEN x % 700 ELSE x % 8
\* what an error of write-property-multiple adds: the first reference that failed
FirstFailed(obj) == Open(1) \o CtxObjId(0, 2, U32(obj)) \o CtxUnsigned(1, U32(85)) \o Close(1)
NoV == <<>>
Others == <<26, 28, 30, 31, 0, 17, 13, 11, 4, 8, 44, 76, 140, 255, 79, 143, 80, 144, 46, 142>>
\* the reply (type f) to call c with invoke ID id: effect, bytes of the APDU
Frame(c, n, f, x) ==
  LET k == txd[c].kind
      obj == 1000 + c
      v == Read(n, obj)
      svc == AckSvc(k)
      D(eff, s, good, val, a, b, pdu) == [eff |-> eff, svc |-> s, good |-> good, v |-> val, cls |-> a, code |-> b, pdu |-> pdu]
      ackrp == D("cack", 12, TRUE, v, 0, 0, ComplexAck(0, 12, RPAckBody(v[1])))
      ackrpm == D("cack", 14, TRUE, v, 0, 0, ComplexAck(0, 14, RPMAckBody(v)))
      ackwp == D("sack", 15, TRUE, NoV, 0, 0, SimpleAck(0, 15))
      ackwpm == D("sack", 16, TRUE, NoV, 0, 0, SimpleAck(0, 16))
  IN CASE f = "ack" -> (CASE k = "rp" -> ackrp [] k = "rpm" -> ackrpm [] k = "wp" -> ackwp [] k = "wpm" -> ackwpm)
       [] f = "err" -> (
                       CASE x % 4 \in {0, 2} -> D("err", svc, TRUE, NoV, Class(x), x, ErrorPdu(0, svc, Class(x), x))
                         [] x % 4 = 1 -> D("err", svc, TRUE, NoV, Class(x), x, ErrorPduCtx(0, svc, Class(x), x))
                         [] x % 4 = 3 -> D("err", svc, TRUE, NoV, Class(x), x, ErrorPduCtx(0, svc, Class(x), x) \o FirstFailed(obj)))
       [] f = "wrong" -> (CASE x % 4 = 0 -> ackrp [] x % 4 = 1 -> ackrpm [] x % 4 = 2 -> ackwp [] x % 4 = 3 -> ackwpm)
       \* the right content for the call under a service that is not its own
       [] f = "othersvc" -> LET o == Others[1 + (x % Len(Others))] IN
                            IF k = "rp" THEN D("cack", o, TRUE, NoV, 0, 0, ComplexAck(0, o, RPAckBody(v[1])))
                            ELSE IF k = "rpm" THEN D("cack", o, TRUE, NoV, 0, 0, ComplexAck(0, o, RPMAckBody(v)))
                            ELSE D("sack", o, TRUE, NoV, 0, 0, SimpleAck(0, o))
       [] f = "empty" -> D("cack", IF k = "rp" THEN 12 ELSE 14, FALSE, NoV, 0, 0, ComplexAck(0, IF k = "rp" THEN 12 ELSE 14, <<12, 0>>))
       [] f = "cut" -> D("cack", IF k = "rp" THEN 12 ELSE 14, FALSE, NoV, 0, 0,
                          LET b == IF k = "rp" THEN ComplexAck(0, 12, RPAckBody(v[1])) ELSE ComplexAck(0, 14, RPMAckBody(v))
                          IN SubSeq(b, 1, Len(b) - 3))
       \* a segment, or the first of several, is no complete reply
       [] f = "seg" -> D("cack", IF k = "rp" THEN 12 ELSE 14, FALSE, NoV, 0, 0,
                          LET b == IF k = "rp" THEN ackrp.pdu ELSE ackrpm.pdu
                          IN <<IF x % 2 = 0 THEN 56 ELSE 60, 0, IF x % 3 = 0 THEN 1 ELSE 0, 4>> \o SubSeq(b, 3, Len(b)))
       [] f = "reject" -> D("none", 0, TRUE, NoV, 0, 0, RejectPdu(0, x % 10))
       [] f = "abort" -> D("none", 0, TRUE, NoV, 0, 0, AbortPdu(0, x % 10))
       [] f = "segack" -> D("none", 0, TRUE, NoV, 0, 0, SegAck(0))
       [] f = "req" -> D("none", 0, TRUE, NoV, 0, 0, ConfReq(0, svc, RPBody(v[1])))
       [] f = "unconf" -> D("none", 0, TRUE, NoV, 0, 0, UnconfReq(0, RPBody(v[1])))
       [] f = "errcut" -> D("err", svc, FALSE, NoV, 0, 0, SubSeq(ErrorPdu(0, svc, 1, 1), 1, 3))

\* how it is wrapped: plain unicast, broadcast, forwarded, from a remote network, in a network
\* message (that is: no reply), in a link function or type that carries no NPDU
Wrap(w, pdu) ==
  CASE w \in {"uni"}     -> BVLC(Unicast, PlainHdr \o pdu)
    [] w = "bcast"   -> BVLC(Broadcast, PlainHdr \o pdu)
    [] w = "fwd"     -> Fwd(<<10, 1, 1, 7, 186, 192>>, PlainHdr \o pdu)
    [] w = "routed"  -> BVLC(Unicast, NPDU([PlainNPDU EXCEPT !.src = [net |-> 7, adr |-> <<5>>]]) \o pdu)
    [] w = "routed6" -> BVLC(Unicast, NPDU([PlainNPDU EXCEPT !.src = [net |-> 65000, adr |-> <<1, 2, 3, 4, 5, 6>>],
                                            !.dst = [net |-> 65535, adr |-> <<>>]]) \o pdu)
    [] w = "netmsg"  -> BVLC(Unicast, NPDU(NetMsg(3)) \o pdu)
    [] w = "bvlcres" -> BVLC(0, PlainHdr \o pdu)
    [] w = "secure"  -> BVLC(12, PlainHdr \o pdu)
    [] w = "type"    -> <<130>> \o Tail(BVLC(Unicast, PlainHdr \o pdu))
Dead == {"netmsg", "bvlcres", "secure", "type"}

FrameMix == IF Profile = "mixed"
            THEN <<"ack", "ack", "ack", "ack", "ack", "err", "err", "err", "wrong", "wrong", "othersvc", "empty", "cut", "seg", "seg",
                   "reject", "abort", "segack", "req", "req", "unconf", "errcut">>
            ELSE <<"ack", "ack", "ack", "ack", "ack", "ack", "ack", "ack", "ack", "err", "wrong", "req">>
WrapMix == IF Profile = "long" THEN <<"uni">>
           ELSE <<"uni", "uni", "uni", "uni", "uni", "uni", "bcast", "fwd", "routed", "routed6", "netmsg", "bvlcres", "secure", "type">>

RxOp(c, n, f, w, x, id) ==
  LET d == Frame(c, n, f, x)
      b == Wrap(w, d.pdu)
      eff == IF w \in Dead THEN "none" ELSE d.eff
      \* the invoke ID is the second octet of a reply, the third of a request
      idp == Len(b) - Len(d.pdu) + (IF f = "req" THEN 3 ELSE 2)
      fr == [eff |-> eff, svc |-> d.svc, good |-> d.good, v |-> d.v, cls |-> d.cls, code |-> d.code]
  IN /\ script' = Append(script, [at |-> now, op |-> "rx", k |-> (IF id = 0 THEN c ELSE 0), idp |-> idp,
                                  b |-> (IF id = 0 THEN b ELSE [b EXCEPT ![idp] = id]), f |-> fr])
     /\ Rx(n, [id |-> IF id = 0 THEN txd[c].id ELSE id, eff |-> fr.eff, svc |-> fr.svc, good |-> fr.good, v |-> fr.v,
               cls |-> fr.cls, code |-> fr.code])
     /\ nf' = n
     /\ UNCHANGED <<started, snd, emitted, txd>>

GenRx ==
  LET open == {c \in Calls : call[c].st = "recv"}
      old == {c \in DOMAIN txd : c > started - 25 /\ (c \in Calls => call[c].st # "recv")}
      any == DOMAIN txd
  IN \E p \in {R(1..100)} :
     \E pool \in {IF open # {} /\ p <= (IF Profile = "long" THEN 96 ELSE 75) THEN open ELSE IF old # {} THEN old ELSE any} :
     \E c \in {R(pool)} :
     \E f \in {FrameMix[R(1..Len(FrameMix))]} :
     \E w \in {WrapMix[R(1..Len(WrapMix))]} :
     \E q \in {R(1..100)} :
     \E x \in {IF q % 3 = 0 THEN R(Codes) ELSE R(0..140)} :
     \E id \in {IF q <= 4 THEN R(1..255) ELSE 0} :
       RxOp(c, nf + 1, f, w, x, id)

(* -------------------------------------------------------------- calls *)
SndMix == IF Profile = "mixed"
          THEN <<[ok |-> TRUE, dur |-> 0], [ok |-> TRUE, dur |-> 0], [ok |-> TRUE, dur |-> 0], [ok |-> TRUE, dur |-> 0],
                 [ok |-> FALSE, dur |-> 0], [ok |-> TRUE, dur |-> 4], [ok |-> FALSE, dur |-> 6], [ok |-> TRUE, dur |-> 40]>>
          ELSE [i \in 1..24 |-> [ok |-> i # 24, dur |-> IF i = 23 THEN 4 ELSE 0]]
\* requests that cannot be made, by kind: [objs, max (of the device)]
O(ty, in, props) == [ty |-> ty, in |-> in, props |-> props]
P(p, v) == [p |-> p, ix |-> ArrayAll, pri |-> 0, v |-> v]
PN(p) == [p |-> p, ix |-> ArrayAll, pri |-> 0]
One == [t |-> "uint", b |-> U32(1)]
Odd(t) == [t |-> t]
Rd(objs, max) == [objs |-> objs, max |-> max]
Bad(k) ==
  CASE k = "rp" -> <<Rd(<<O(2, U32(1), <<>>)>>, 1476), Rd(<<O(1024, U32(1), <<PN(U32(85))>>)>>, 1476),
                     Rd(<<O(2, <<0, 64, 0, 0>>, <<PN(U32(85))>>)>>, 1476), Rd(<<O(2, U32(1), <<PN(<<0, 64, 0, 0>>)>>)>>, 1476)>>
    [] k = "rpm" -> <<Rd(<<O(2, U32(1), <<PN(U32(85))>>)>>, 0), Rd(<<O(2, U32(1), <<PN(U32(85))>>)>>, 5),
                      Rd([i \in 1..8 |-> O(2, U32(i), <<PN(U32(85)), PN(U32(77))>>)], 50),
                      Rd(<<O(1024, U32(1), <<PN(U32(85))>>)>>, 1476), Rd(<<O(2, <<1, 0, 0, 0>>, <<PN(U32(85))>>)>>, 1476)>>
    [] k = "wp" -> <<Rd(<<O(2, U32(1), <<>>)>>, 1476), Rd(<<O(2, U32(1), <<P(U32(85), Odd("goint"))>>)>>, 1476),
                     Rd(<<O(2, U32(1), <<P(U32(85), Odd("nil"))>>)>>, 1476), Rd(<<O(5, U32(1), <<P(U32(85), Odd("bytes"))>>)>>, 1476),
                     Rd(<<O(1024, U32(1), <<P(U32(85), One)>>)>>, 1476), Rd(<<O(2, <<0, 64, 0, 0>>, <<P(U32(85), One)>>)>>, 1476)>>
    [] k = "wpm" -> <<Rd([i \in 1..8 |-> O(2, U32(i), <<P(U32(85), One)>>)], 50), Rd(<<O(2, U32(1), <<P(U32(85), One)>>)>>, 5),
                      Rd(<<O(2, U32(1), <<P(U32(85), One), P(U32(28), Odd("uint64"))>>)>>, 1476),
                      Rd(<<O(2, U32(1), <<P(U32(85), One)>>), O(2000, U32(1), <<P(U32(85), One)>>)>>, 1476)>>
GenInvokeBad ==
  \E c \in {started + 1} : \E k \in {KindOrder[R(1..4)]} : \E i \in {R(1..Len(Bad(k)))} :
    /\ InvokeAs(c, k, TRUE)
    /\ script' = script \o <<[at |-> now, op |-> "sync"],
          [at |-> now, op |-> "call", c |-> c, kind |-> k, bad |-> TRUE, objs |-> Bad(k)[i].objs,
           dev |-> [addr |-> [net |-> 0, mac |-> <<10, 0, 0, 2>> \o U16(10000 + c), adr |-> <<>>], max |-> Bad(k)[i].max, id |-> U32(c)]],
          [at |-> now, op |-> "sync"]>>
    /\ started' = c
    /\ UNCHANGED <<nf, emitted, txd, snd>>
BadPossible == Cardinality({c \in Calls : call[c].st # "fin"}) < Cap - 2 /\ (\A c \in Calls : call[c].st # "slot")
WantBad == IF Profile = "refuse" THEN 85 ELSE IF Profile = "mixed" THEN 4 ELSE 0
GenInvokeGood ==
  \E c \in {started + 1} : \E k \in {KindOrder[R(1..4)]} :
  \E a \in {SndMix[R(1..Len(SndMix))]} : \E b \in {SndMix[R(1..Len(SndMix))]} :
    /\ Invoke(c, k)
    /\ script' = Append(script, [at |-> now, op |-> "call", c |-> c, kind |-> k, snd |-> <<a, b>>])
    /\ snd' = [snd EXCEPT ![c] = <<a, b>>]
    /\ started' = c
    /\ UNCHANGED <<nf, emitted, txd>>
GenInvoke == \E p \in {R(1..100)} : IF p <= WantBad /\ BadPossible THEN GenInvokeBad ELSE GenInvokeGood

(* -------------------------------------------- what the client does *)
\* in a random order, but one step at a time
Urgent ==
  LET use == InUse  slotfree == SlotFree IN
  {<<"bind", m>> : m \in {x \in wire : x.to = 0}}
  \cup {<<"deliver", m>> : m \in {x \in wire : x.to \in Calls /\ call[x.to].st = "recv"}}
  \cup {<<"drop", m>> : m \in {x \in wire : x.to # 0 /\ x.to \notin use}}
  \cup {<<"acquire", c>> : c \in {x \in Calls : call[x].st = "slot" /\ ~call[x].bad /\ slotfree}}
  \cup {<<"refuse", c>> : c \in {x \in Calls : call[x].st = "slot" /\ call[x].bad}}
  \cup {<<"slotto", c>> : c \in {x \in Calls : call[x].st = "slot" /\ ~slotfree /\ now >= call[x].dl}}
  \cup {<<"tx", c>> : c \in {x \in Calls : call[x].st = "ready"}}
  \cup {<<"txe", c>> : c \in {x \in Calls : call[x].st = "sending" /\ snd[x][call[x].tries].dur = 0}}
  \cup {<<"txl", c>> : c \in {x \in Calls : call[x].st = "sending" /\ now >= call[x].dl /\ snd[x][call[x].tries].dur # 0}}
  \cup {<<"recvto", c>> : c \in {x \in Calls : call[x].st = "recv" /\ now >= call[x].dl}}
  \cup {<<"ret", c>> : c \in {x \in Calls : call[x].st = "fin"}}
GenInternal ==
  \E u \in {R(Urgent)} :
    /\ CASE u[1] = "bind" -> Dispatch(u[2])
         [] u[1] = "deliver" -> Deliver(u[2])
         [] u[1] = "drop" -> Drop(u[2])
         [] u[1] = "acquire" -> \E i \in {R(free[1])} : Acquire(u[2], i)
         [] u[1] = "refuse" -> Refuse(u[2], IF SlotFree THEN R(free[1]) ELSE 0)
         [] u[1] = "slotto" -> SlotTimeout(u[2])
         [] u[1] = "tx" -> \* dl: when the link is done
              /\ call[u[2]].st = "ready"
              /\ call' = [call EXCEPT ![u[2]].st = "sending", ![u[2]].tries = @ + 1,
                                      ![u[2]].dl = now + snd[u[2]][call[u[2]].tries + 1].dur]
              /\ UNCHANGED <<now, free, freeT, wire>>
         [] u[1] \in {"txe", "txl"} -> Transmitted(u[2], snd[u[2]][call[u[2]].tries].ok)
         [] u[1] = "recvto" -> RecvTimeout(u[2])
         [] u[1] = "ret" -> Return(u[2])
    /\ txd' = IF u[1] = "tx" THEN [c \in DOMAIN txd \cup {u[2]} |-> IF c = u[2] THEN [kind |-> call[c].kind, id |-> call[c].id] ELSE txd[c]] ELSE txd
    /\ UNCHANGED <<script, started, snd, nf, emitted>>

(* --------------------------------------------------------------- time *)
Deadlines == {call[c].dl : c \in {d \in Calls : call[d].st \in {"slot", "recv", "sending"}}}
MinD == IF Deadlines = {} THEN now + 100 ELSE CHOOSE d \in Deadlines : \A e \in Deadlines : d <= e
GenTick ==
  \E p \in {R(1..100)} :
  LET big == p > (IF Profile = "long" THEN 99 ELSE IF Profile = "sat" THEN 92 ELSE 75)
      t0 == IF ~big THEN now + 1
            ELSE IF p % 3 = 0 THEN MinD ELSE IF p % 3 = 1 THEN MinD - 1 ELSE now + ((MinD - now) \div 2)
      t == IF t0 <= now THEN now + 1 ELSE IF t0 > MinD THEN MinD ELSE t0
  IN /\ Tick(t)
     /\ UNCHANGED <<script, started, snd, nf, emitted, txd>>

\* what the environment may do now: calls at even times, frames at odd times, except for a few
CanCall == started < N
CanRx == txd # <<>>
GenEnv ==
  \E p \in {R(1..100)} :
  LET even == now % 2 = 0
      open == Cardinality({c \in Calls : call[c].st \in {"slot", "ready", "sending", "recv"}})
      wantCall == CASE Profile = "mixed" -> p <= 35
                    [] Profile = "refuse" -> open < 4 /\ p <= 80
                    [] Profile = "sat"   -> p <= (IF open < 24 THEN 90 ELSE 15)
                    [] Profile = "long"  -> open < 4 /\ p <= 90
                    [] Profile = "burst" -> p <= (IF open = 0 \/ open < 10 THEN 85 ELSE 20)
      wantRx == CASE Profile = "mixed" -> p <= 45 [] Profile = "refuse" -> p <= 80 [] Profile = "sat" -> p <= (IF open < 22 THEN 8 ELSE 60)
                  [] Profile = "long" -> p <= 92 [] Profile = "burst" -> p <= 70
  IN IF CanCall /\ wantCall /\ (even \/ p = 3 \/ Profile = "burst") THEN GenInvoke
     ELSE IF CanRx /\ wantRx /\ (~even \/ p = 7 \/ Profile = "burst") THEN GenRx
     ELSE GenTick

Over == Len(script) >= MaxOps \/ (started = N /\ Calls = {})
Emit == /\ Over /\ ~emitted /\ emitted' = TRUE
        /\ PrintT("SCRIPT " \o ToJson([ops |-> script]))
        /\ UNCHANGED <<now, call, free, freeT, wire, script, started, snd, nf, txd>>

GenNext == /\ ~emitted
           /\ IF Over THEN Emit ELSE IF Urgent # {} THEN GenInternal ELSE GenEnv
GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
