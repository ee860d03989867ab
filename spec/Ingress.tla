------------------------------ MODULE Ingress ------------------------------
(***************************************************************************)
(* What a received datagram may do to a client.  Effects(b, src) is the    *)
(* set of possible effects; it has one element when the bytes are exactly  *)
(* what the standard describes, and also when they cannot be anything that *)
(* concerns a client.                                                      *)
(*                                                                         *)
(* An effect is a frame as Confirmed and Discovery know it:                *)
(*   eff "cack", "sack", "err"  a reply to the request with invoke ID id   *)
(*   eff "iam"                  the announcement of device num             *)
(*   eff "routers", "netnum"    network numbers                            *)
(*   eff "none"                                                            *)
(* any: the content is not determined.                                     *)
(***************************************************************************)
EXTENDS Parse

None == [eff |-> "none", id |-> -1, svc |-> 0, good |-> FALSE, v |-> <<>>, cls |-> 0, code |-> 0,
         num |-> 0, dev |-> [any |-> TRUE], nets |-> <<>>, any |-> FALSE]
Maybe(s, f) == IF s = "bad" THEN {None} ELSE IF s = "odd" THEN {None, f} ELSE {f}

\* the network numbers of a network message (superfluous bytes do not matter)
Pairs(b) == [i \in 1..(Len(b) \div 2) |-> b[2*i - 1] * 256 + b[2*i]]

\* an acknowledgement that carries data: good or not, with which contents
AckEffects(id, svc, r) ==
  LET f == [None EXCEPT !.eff = "cack", !.id = id, !.svc = svc]
      good == [f EXCEPT !.good = TRUE, !.v = NormObjs(r.objs)]
  IN CASE r.s = "ok" -> {good} [] r.s = "bad" -> {f}
       [] OTHER -> {f, [good EXCEPT !.any = TRUE, !.v = <<>>]}

ApduEffects(a, h) ==
  IF a = <<>> THEN {None} ELSE
  LET ty == a[1] \div 16
      low == a[1] % 16
      n == Len(a)
      Rest(k) == SubSeq(a, k, n)
      s0 == IF low # 0 THEN "odd" ELSE "ok"
  IN CASE ty = 1 ->
            IF n < 2 \/ a[2] # 0 THEN {None}
            ELSE LET m == IAmRead(Rest(3))
                     num == IF m.num = <<>> THEN 0 ELSE N4(m.num)
                     f == [None EXCEPT !.eff = "iam", !.num = num]
                     ok == [f EXCEPT !.dev = [num |-> num, id |-> m.num, max |-> m.max, seg |-> m.seg, vend |-> m.vend,
                                              org |-> h.org, net |-> h.snet, adr |-> h.sadr]]
                     odd == [f EXCEPT !.any = TRUE]
                     s == Worse(Worse(m.s, s0), h.s)
                 IN IF s = "ok" THEN {ok} ELSE IF s = "bad" \/ m.num = <<>> THEN {None} ELSE {None, odd}
       [] ty = 2 ->
            IF n < 3 THEN {None}
            ELSE LET f == [None EXCEPT !.eff = "sack", !.id = a[2], !.svc = a[3], !.good = TRUE]
                     s == Worse(h.s, IF n > 3 THEN "odd" ELSE s0)
                 IN Maybe(s, f) \cup (IF s = "ok" THEN {} ELSE {[f EXCEPT !.good = FALSE]})
       [] ty = 3 ->
            LET seg == low >= 8
                sv == IF seg THEN 5 ELSE 3
                f == [None EXCEPT !.eff = "cack", !.id = IF n >= 2 THEN a[2] ELSE -1]
            IN IF n < 3 THEN {None}
               \* the client asks for replies in one piece: a segment is none
               ELSE IF seg THEN {None, [f EXCEPT !.svc = IF n >= sv THEN a[sv] ELSE 0]}
               ELSE (IF Worse(h.s, s0) = "ok" THEN {} ELSE {None}) \cup
                    (CASE a[3] = 12 -> LET r == RPAckRead(Rest(4)) IN AckEffects(a[2], 12, IF s0 = "ok" THEN r ELSE [r EXCEPT !.s = Worse(r.s, "odd")])
                       [] a[3] = 14 -> LET r == RPMAckRead(Rest(4)) IN AckEffects(a[2], 14, IF s0 = "ok" THEN r ELSE [r EXCEPT !.s = Worse(r.s, "odd")])
                       [] OTHER -> {[f EXCEPT !.svc = a[3]]})
       [] ty = 5 ->
            IF n < 2 THEN {None}
            ELSE LET f == [None EXCEPT !.eff = "err", !.id = a[2], !.svc = IF n >= 3 THEN a[3] ELSE 0]
                     r == ErrorRead(Rest(4))
                 IN IF n >= 4 /\ r.s = "ok" THEN Maybe(Worse(h.s, s0), [f EXCEPT !.good = TRUE, !.cls = r.cls, !.code = r.code])
                    ELSE {None, f}
       \* requests of peers, segment-ack, reject, abort, unknown types
       [] OTHER -> {None}

Effects(b, src) ==
  LET h == HeadOf(b, src) IN
  IF h.s = "bad" THEN {None}
  ELSE IF h.net THEN
    LET rest == SubSeq(b, h.next, Len(b))
        nets == Pairs(rest)
    IN CASE h.msg = 1 -> Maybe(h.s, [None EXCEPT !.eff = "routers", !.nets = nets])
         [] h.msg = 19 /\ nets # <<>> -> Maybe(h.s, [None EXCEPT !.eff = "netnum", !.nets = <<nets[1]>>])
         [] OTHER -> {None}
  ELSE ApduEffects(SubSeq(b, h.next, Len(b)), h)
       \* the length that the datagram claims to have may be taken seriously, too
       \cup (LET n == b[3] * 256 + b[4] IN
             IF n < Len(b) /\ n >= h.next THEN ApduEffects(SubSeq(b, h.next, n), h) ELSE {})
=============================================================================
