------------------------------- MODULE Parse -------------------------------
(***************************************************************************)
(* Received bytes as a recipient has to read them: the inverse of Wire for *)
(* arbitrary byte strings.  The result of reading is                       *)
(*   "ok"    the bytes are exactly an encoding the standard describes      *)
(*   "bad"   they end too early, or are something else                     *)
(*   "odd"   a lenient recipient may make something of them: superfluous   *)
(*           bytes, lengths in a longer form than necessary, reserved bits,*)
(*           constructed contents, values the library has no type for ...  *)
(* b is a byte sequence, i a position in it.                               *)
(***************************************************************************)
EXTENDS Decode

Worse(s, t) == IF s = "bad" \/ t = "bad" THEN "bad" ELSE IF s = "odd" \/ t = "odd" THEN "odd" ELSE "ok"
Sub(b, i, n) == SubSeq(b, i, i + n - 1)
Has(b, i, n) == i + n - 1 <= Len(b)

(* --------------------------------------------------------------- tags *)
\* [s, num, ctx, kind \in {"len", "open", "close"}, n (length, or value of a boolean), next]
NoTag == [s |-> "bad", num |-> 0, ctx |-> FALSE, kind |-> "len", n |-> 0, next |-> 0]
TagAt(b, i) ==
  IF ~Has(b, i, 1) THEN NoTag
  ELSE LET hi == b[i] \div 16
           ctx == (b[i] \div 8) % 2 = 1
           lvt == b[i] % 8
           ext == hi = 15
           j == IF ext THEN i + 2 ELSE i + 1
           num == IF ext THEN (IF Has(b, i, 2) THEN b[i + 1] ELSE 0) ELSE hi
           s0 == IF ext /\ ~Has(b, i, 2) THEN "bad" ELSE IF ext /\ (num <= 14 \/ num = 255) THEN "odd" ELSE "ok"
           T(s, kind, n, next) == [s |-> Worse(s0, s), num |-> num, ctx |-> ctx, kind |-> kind, n |-> n, next |-> next]
       IN CASE lvt >= 6 /\ ctx -> T("ok", IF lvt = 6 THEN "open" ELSE "close", 0, j)
            [] lvt >= 6 -> T("odd", "len", 0, j)
            [] lvt < 5 -> T("ok", "len", lvt, j)
            [] ~Has(b, j, 1) -> NoTag
            [] b[j] < 254 -> T(IF b[j] < 5 THEN "odd" ELSE "ok", "len", b[j], j + 1)
            [] b[j] = 254 -> IF ~Has(b, j, 3) THEN NoTag
                             ELSE LET n == b[j+1] * 256 + b[j+2] IN T(IF n < 254 THEN "odd" ELSE "ok", "len", n, j + 3)
            [] OTHER -> IF ~Has(b, j, 5) THEN NoTag
                        \* more than any datagram holds
                        ELSE IF b[j+1] # 0 \/ b[j+2] # 0 THEN T("odd", "len", 99999, j + 5)
                        ELSE T("odd", "len", b[j+3] * 256 + b[j+4], j + 5)

(* ------------------------------------------------- application values *)
Bit(byte, k) == (byte \div (CASE k = 0 -> 128 [] k = 1 -> 64 [] k = 2 -> 32 [] k = 3 -> 16 [] k = 4 -> 8 [] k = 5 -> 4 [] k = 6 -> 2 [] k = 7 -> 1)) % 2
Bits(o, unused) == [k \in 1..(8 * Len(o) - unused) |-> Bit(o[(k - 1) \div 8 + 1], (k - 1) % 8)]
Minimal(c) == Len(c) = 1 \/ c[1] # 0
MinimalS(c) == Len(c) = 1 \/ ~((c[1] = 0 /\ c[2] < 128) \/ (c[1] = 255 /\ c[2] >= 128))
Wild(n) == n = 255
\* what contents octets c with application tag num denote
ValueOf(num, c) ==
  LET n == Len(c)
      V(ok, v) == [s |-> IF ok THEN "ok" ELSE "odd", v |-> v]
      Odd == [s |-> "odd", v |-> [t |-> "nil"]]
  IN CASE num \in {2, 9} -> IF n \in 1..4 THEN V(Minimal(c), [t |-> "uint", b |-> Pad(c, 4)]) ELSE Odd
       [] num = 3 -> IF n \in 1..4 THEN V(MinimalS(c), [t |-> "int", b |-> PadSigned(c, 4)]) ELSE Odd
       [] num = 4 -> IF n = 4 THEN V(TRUE, [t |-> "real", b |-> c]) ELSE Odd
       [] num = 5 -> IF n = 8 THEN V(TRUE, [t |-> "double", b |-> c]) ELSE Odd
       [] num = 6 -> V(TRUE, [t |-> "oct", b |-> c])
       [] num = 7 -> IF n >= 1 /\ c[1] = 0 /\ \A k \in 2..n : c[k] < 128 THEN V(TRUE, [t |-> "str", b |-> Tail(c)]) ELSE Odd
       [] num = 8 -> IF n >= 1 /\ n <= 16 /\ c[1] <= 7 /\ (n > 1 \/ c[1] = 0) THEN V(TRUE, [t |-> "bits", v |-> Bits(Tail(c), c[1])]) ELSE Odd
       [] num = 10 -> IF n = 4 /\ c[2] \in 1..14 \cup {255} /\ c[3] \in 1..34 \cup {255} /\ c[4] \in 1..7 \cup {255}
                      THEN V(TRUE, [t |-> "date", y |-> IF Wild(c[1]) THEN 255 ELSE 1900 + c[1], m |-> c[2], d |-> c[3], w |-> c[4]]) ELSE Odd
       [] num = 11 -> IF n = 4 /\ c[1] \in 0..23 \cup {255} /\ c[2] \in 0..59 \cup {255} /\ c[3] \in 0..59 \cup {255} /\ c[4] \in 0..99
                      THEN V(TRUE, [t |-> "time", h |-> c[1], mi |-> c[2], s |-> c[3], ms |-> 10 * c[4]]) ELSE Odd
       [] num = 12 -> IF n = 4 THEN V(TRUE, [t |-> "oid", ty |-> c[1] * 4 + c[2] \div 64, in |-> <<0, c[2] % 64, c[3], c[4]>>]) ELSE Odd
       [] OTHER -> Odd
FixedLen(num) == IF num = 5 THEN 8 ELSE 4
\* a value at i: [s, v, next]
ValueAt(b, i) ==
  LET t == TagAt(b, i)
      R(s, v, next) == [s |-> Worse(t.s, s), v |-> v, next |-> next]
      Nil == [t |-> "nil"]
  IN CASE t.s = "bad" -> R("bad", Nil, 0)
       \* something constructed, or reserved
       [] t.ctx \/ b[i] % 8 >= 6 -> R("odd", Nil, 0)
       [] t.num = 0 -> IF t.n = 0 THEN R("ok", [t |-> "null"], t.next) ELSE R("odd", Nil, 0)
       [] t.num = 1 -> IF t.n <= 1 THEN R("ok", [t |-> "bool", v |-> t.n = 1], t.next) ELSE R("odd", Nil, 0)
       \* a length that its type does not have: the type tells it, too
       [] t.num \in {4, 5, 10, 11, 12} /\ t.n # FixedLen(t.num) ->
            IF ~Has(b, t.next, FixedLen(t.num)) THEN R(IF Has(b, t.next, t.n) THEN "odd" ELSE "bad", Nil, 0)
            ELSE R("odd", ValueOf(t.num, Sub(b, t.next, FixedLen(t.num))).v, 0)
       [] ~Has(b, t.next, t.n) -> R("bad", Nil, 0)
       [] OTHER -> LET v == ValueOf(t.num, Sub(b, t.next, t.n)) IN R(v.s, v.v, t.next + t.n)

(* --------------------------------------------- fields of a message body *)
\* a context tag num with an unsigned number of at most 4 bytes: [s, b, next]
CtxUAt(b, i, num) ==
  LET t == TagAt(b, i)
      R(s, v, next) == [s |-> Worse(t.s, s), b |-> v, next |-> next]
  IN CASE t.s = "bad" -> R("bad", <<>>, 0)
       [] ~t.ctx \/ t.num # num \/ t.kind # "len" -> R(IF t.s = "odd" \/ t.num = num THEN "odd" ELSE "bad", <<>>, 0)
       [] ~Has(b, t.next, t.n) -> R("bad", <<>>, 0)
       [] t.n \in 1..4 -> LET c == Sub(b, t.next, t.n) IN R(IF Minimal(c) THEN "ok" ELSE "odd", Pad(c, 4), t.next + t.n)
       [] OTHER -> R("odd", <<0, 0, 0, 0>>, t.next + t.n)
CtxIdAt(b, i, num) ==
  LET t == TagAt(b, i)
      R(s, ty, v, next) == [s |-> Worse(t.s, s), ty |-> ty, in |-> v, next |-> next]
  IN CASE t.s = "bad" -> R("bad", 0, <<>>, 0)
       [] ~t.ctx \/ t.num # num \/ t.kind # "len" -> R(IF t.num = num THEN "odd" ELSE "bad", 0, <<>>, 0)
       [] t.n # 4 -> R("odd", 0, <<>>, 0)
       [] ~Has(b, t.next, 4) -> R("bad", 0, <<>>, 0)
       [] OTHER -> LET c == Sub(b, t.next, 4) IN R("ok", c[1] * 4 + c[2] \div 64, <<0, c[2] % 64, c[3], c[4]>>, t.next + 4)
IsTag(b, i, num, kind) == LET t == TagAt(b, i) IN t.s # "bad" /\ t.ctx /\ t.num = num /\ t.kind = kind
\* the index, when there is one: [s, b, next]
IndexAt(b, i, num) == IF IsTag(b, i, num, "len") THEN CtxUAt(b, i, num) ELSE [s |-> "ok", b |-> ArrayAll, next |-> i]
\* application values up to the closing tag num: [s, vs, next]
RECURSIVE ValuesAt(_, _, _)
ValuesAt(b, i, num) ==
  IF IsTag(b, i, num, "close") THEN [s |-> "ok", vs |-> <<>>, next |-> TagAt(b, i).next]
  ELSE LET v == ValueAt(b, i) IN
       IF v.next = 0 THEN [s |-> v.s, vs |-> <<>>, next |-> 0]
       ELSE LET r == ValuesAt(b, v.next, num) IN [s |-> Worse(v.s, r.s), vs |-> <<v.v>> \o r.vs, next |-> r.next]
Listed(vs) == IF Len(vs) = 1 THEN vs[1] ELSE [t |-> "list", v |-> vs]

(* ---------------------------------------------------- acknowledgements *)
\* [s, objs]
Nothing(s) == [s |-> s, objs |-> <<>>]
RPAckRead(b) ==
  LET id == CtxIdAt(b, 1, 0) IN
  IF id.next = 0 THEN Nothing(id.s) ELSE
  LET p == CtxUAt(b, id.next, 1) IN
  IF p.next = 0 THEN Nothing(Worse(id.s, p.s)) ELSE
  LET x == IndexAt(b, p.next, 2) IN
  IF x.next = 0 THEN Nothing(Worse(p.s, x.s)) ELSE
  IF ~IsTag(b, x.next, 3, "open") THEN Nothing(IF x.next > Len(b) THEN "bad" ELSE Worse("odd", x.s)) ELSE
  LET vs == ValuesAt(b, TagAt(b, x.next).next, 3)
      s == Worse(Worse(id.s, p.s), Worse(x.s, vs.s))
  IN IF vs.next = 0 THEN Nothing(s)
     ELSE [s |-> IF vs.next # Len(b) + 1 \/ vs.vs = <<>> THEN Worse(s, "odd") ELSE s,
           objs |-> <<[ty |-> id.ty, in |-> id.in, props |-> <<[p |-> p.b, ix |-> x.b, v |-> Listed(vs.vs)]>>]>>]
\* properties of an object up to the closing tag 1: [s, ps, next]
RECURSIVE RPMPropsAt(_, _)
RPMPropsAt(b, i) ==
  IF IsTag(b, i, 1, "close") THEN [s |-> "ok", ps |-> <<>>, next |-> TagAt(b, i).next]
  ELSE IF Has(b, i, 1) /\ TagAt(b, i).s = "odd" THEN [s |-> "odd", ps |-> <<>>, next |-> 0]
  ELSE LET F(s) == [s |-> s, ps |-> <<>>, next |-> 0]
           p == CtxUAt(b, i, 2) IN
       IF p.next = 0 THEN F(p.s) ELSE
       LET x == IndexAt(b, p.next, 3) IN
       IF x.next = 0 THEN F(Worse(p.s, x.s)) ELSE
       \* an access error, or something else
       IF ~IsTag(b, x.next, 4, "open") THEN F(IF x.next > Len(b) THEN "bad" ELSE "odd") ELSE
       LET vs == ValuesAt(b, TagAt(b, x.next).next, 4) IN
       IF vs.next = 0 THEN F(vs.s) ELSE
       LET r == RPMPropsAt(b, vs.next) IN
       [s |-> Worse(Worse(p.s, x.s), Worse(IF vs.vs = <<>> THEN "odd" ELSE vs.s, r.s)),
        ps |-> <<[p |-> p.b, ix |-> x.b, v |-> Listed(vs.vs)]>> \o r.ps, next |-> r.next]
RECURSIVE RPMObjsAt(_, _)
RPMObjsAt(b, i) ==
  IF i = Len(b) + 1 THEN Nothing("ok")
  ELSE LET id == CtxIdAt(b, i, 0) IN
       IF id.next = 0 THEN Nothing(IF i > 1 THEN Worse("odd", id.s) ELSE id.s) ELSE
       IF ~IsTag(b, id.next, 1, "open") THEN Nothing(IF id.next > Len(b) THEN "bad" ELSE "odd") ELSE
       LET ps == RPMPropsAt(b, TagAt(b, id.next).next) IN
       IF ps.next = 0 THEN Nothing(Worse(id.s, ps.s)) ELSE
       LET r == RPMObjsAt(b, ps.next) IN
       [s |-> Worse(IF ps.ps = <<>> THEN "odd" ELSE "ok", Worse(Worse(id.s, ps.s), r.s)),
        objs |-> <<[ty |-> id.ty, in |-> id.in, props |-> ps.ps]>> \o r.objs]
RPMAckRead(b) == IF b = <<>> THEN Nothing("odd") ELSE RPMObjsAt(b, 1)

(* --------------------------------------------------------------- errors *)
\* class and code, inside of context tag 0 for the services that say more: [s, cls, code]
ErrorRead(b) ==
  LET ctx == IsTag(b, 1, 0, "open")
      Num(i) == LET t == TagAt(b, i) IN
                CASE t.s = "bad" -> [s |-> "bad", n |-> 0, next |-> 0]
                  [] t.ctx \/ t.num # 9 -> [s |-> "odd", n |-> 0, next |-> 0]
                  [] ~Has(b, t.next, t.n) -> [s |-> "bad", n |-> 0, next |-> 0]
                  [] t.n = 1 -> [s |-> t.s, n |-> b[t.next], next |-> t.next + 1]
                  [] OTHER -> [s |-> "odd", n |-> 0, next |-> 0]
      c == Num(IF ctx THEN TagAt(b, 1).next ELSE 1)
      d == IF c.next = 0 THEN c ELSE Num(c.next)
      end == IF ctx THEN (IF d.next # 0 /\ IsTag(b, d.next, 0, "close") THEN TagAt(b, d.next).next ELSE 0) ELSE d.next
      s == Worse(c.s, d.s)
  IN [s |-> IF d.next = 0 THEN s ELSE IF end = 0 \/ end # Len(b) + 1 \/ c.n > 7 THEN Worse(s, "odd") ELSE s, cls |-> c.n, code |-> d.n]

(* ------------------------------------------------------------------ I-Am *)
\* [s, num (the instance, when the body begins with an object identifier), max, seg, vend]
IAmRead(b) ==
  LET Bad(s, num) == [s |-> s, num |-> num, max |-> <<>>, seg |-> <<>>, vend |-> <<>>]
      Field(i, num) == LET t == TagAt(b, i) v == ValueAt(b, i) IN
                       IF t.s = "bad" THEN [s |-> "bad", v |-> v.v, next |-> 0]
                       \* both kinds of numbers are unsigned
                       ELSE IF t.num # num /\ {t.num, num} # {2, 9} THEN [s |-> "bad", v |-> v.v, next |-> 0]
                       ELSE IF t.num # num \/ t.ctx THEN [s |-> "odd", v |-> v.v, next |-> 0]
                       ELSE v
      id == Field(1, 12) IN
  \* with an odd tag, the four bytes after it may be taken for the identifier
  IF id.s # "bad" /\ id.v.t # "oid" THEN Bad("odd", IF Has(b, 2, 4) THEN <<0, b[3] % 64, b[4], b[5]>> ELSE <<>>) ELSE
  IF id.next = 0 THEN Bad(id.s, IF id.s = "odd" THEN id.v.in ELSE <<>>) ELSE
  LET max == Field(id.next, 2) IN
  IF max.next = 0 THEN Bad(Worse(id.s, max.s), id.v.in) ELSE
  LET seg == Field(max.next, 9) IN
  IF seg.next = 0 THEN Bad(Worse(max.s, seg.s), id.v.in) ELSE
  LET vend == Field(seg.next, 2)
      s == Worse(Worse(id.s, max.s), Worse(seg.s, vend.s))
  IN IF vend.next = 0 THEN Bad(s, id.v.in) ELSE
     IF s # "ok" THEN Bad(s, id.v.in) ELSE
     [s |-> IF vend.next # Len(b) + 1 \/ id.v.ty # 8 \/ seg.v.b[4] > 3 \/ (\E k \in 1..3 : seg.v.b[k] # 0) THEN "odd" ELSE "ok",
      num |-> id.v.in, max |-> max.v.b, seg |-> seg.v.b, vend |-> vend.v.b]

(* --------------------------------------------------------- BVLL and NPDU *)
\* Where the APDU of a datagram begins: [s, next, net (a network message), msg, org, snet, sadr];
\* s = "bad": it carries none
Head0 == [s |-> "bad", next |-> 0, net |-> FALSE, msg |-> 0, org |-> <<>>, snet |-> 0, sadr |-> <<>>]
NpduAt(b, i, org) ==
  IF ~Has(b, i, 2) THEN Head0 ELSE
  LET ctl == b[i + 1]
      F(m) == (ctl \div m) % 2 = 1
      hasd == F(32)
      hass == F(8)
      d == i + 2
      dn == IF hasd /\ Has(b, d, 3) THEN 3 + b[d + 2] ELSE IF hasd THEN 99999 ELSE 0
      sp == d + dn
      sn == IF hass /\ Has(b, sp, 3) THEN 3 + b[sp + 2] ELSE IF hass THEN 99999 ELSE 0
      hop == sp + sn
      m == hop + (IF hasd THEN 1 ELSE 0)
      a == m + (IF F(128) THEN 1 ELSE 0)
  IN IF a - 1 > Len(b) THEN Head0 ELSE
     LET v == IF F(128) /\ b[m] >= 128 THEN 2 ELSE 0
         snet == IF hass THEN b[sp] * 256 + b[sp + 1] ELSE 0
         dnet == IF hasd THEN b[d] * 256 + b[d + 1] ELSE 65535
         odd == \/ b[i] # 1 \/ F(64) \/ F(16)
                \* not for a device that is no router
                \/ dnet # 65535 \/ (hasd /\ b[d + 2] # 0)
                \/ (hass /\ (snet = 0 \/ snet = 65535 \/ b[sp + 2] = 0 \/ b[sp + 2] > 7))
     IN IF a + v - 1 > Len(b) THEN Head0
        ELSE [s |-> IF odd THEN "odd" ELSE "ok", next |-> a + v, net |-> F(128), msg |-> IF F(128) THEN b[m] ELSE 0,
              org |-> org, snet |-> snet, sadr |-> IF hass THEN Sub(b, sp + 3, b[sp + 2]) ELSE <<>>]
HeadOf(b, src) ==
  IF Len(b) < 4 \/ b[1] # 129 \/ b[2] \notin {4, 10, 11} THEN Head0
  ELSE LET h == IF b[2] = 4 THEN (IF Has(b, 5, 6) THEN NpduAt(b, 11, Sub(b, 5, 6)) ELSE Head0) ELSE NpduAt(b, 5, src)
       IN IF h.s # "bad" /\ b[3] * 256 + b[4] # Len(b) THEN [h EXCEPT !.s = "odd"] ELSE h
\* values that TLC can compare with each other, whatever their types
RECURSIVE Norm(_)
Norm(v) == CASE v.t = "bool" -> [t |-> "bool", v |-> <<IF v.v THEN 1 ELSE 0>>]
             [] v.t \in {"list", "dt"} -> [t |-> v.t, l |-> [i \in 1..Len(v.v) |-> Norm(v.v[i])]]
             [] OTHER -> v
NormObjs(os) == [k \in 1..Len(os) |-> [os[k] EXCEPT !.props = [i \in 1..Len(@) |-> [@[i] EXCEPT !.v = Norm(@)]]]]
=============================================================================
