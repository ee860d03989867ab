----------------------------- MODULE BitString -----------------------------
(***************************************************************************)
(* C29.  A bit string: a buffer of cap octets and the number of bits used. *)
(* Bit i is bit (i % 8), least significant first, of octet i \div 8.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT MaxCap                   \* octets a bit string can have
VARIABLES cap, on, used, last     \* on: the bits that are set; last: what the last operation reported
bvars == <<cap, on, used, last>>
Size == 8 * cap
Min2(a, b) == IF a < b THEN a ELSE b
New(n) == cap' = Min2(n, MaxCap) /\ on' = {} /\ used' = 0 /\ last' = "none"
\* received: b is the list of bits, first bit first
Receive(b) == /\ cap' = (Len(b) + 7) \div 8 /\ used' = Len(b)
              /\ on' = {i - 1 : i \in {j \in 1..Len(b) : b[j] = 1}} /\ last' = "none"
SetBit(i, v) ==
  /\ IF i < Size THEN /\ on' = (IF v THEN on \cup {i} ELSE on \ {i})
                      /\ used' = (IF used < i + 1 THEN i + 1 ELSE used)
                 ELSE UNCHANGED <<on, used>>
  /\ last' = "none" /\ UNCHANGED cap
BitsOf(k, v) == {8 * k + j : j \in {m \in 0..7 : (v \div (2 ^ m)) % 2 = 1}}
SetByte(k, v) ==
  /\ IF k < cap THEN on' = (on \ (8 * k .. 8 * k + 7)) \cup BitsOf(k, v) /\ last' = "yes"
                ELSE UNCHANGED on /\ last' = "no"
  /\ UNCHANGED <<cap, used>>
SetUsed(n, unused) == /\ used' = (IF n = 0 THEN 0 ELSE 8 * n - unused) /\ last' = "yes" /\ UNCHANGED <<cap, on>>
RECURSIVE Sum(_)
Sum(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN 2 ^ x + Sum(s \ {x})
Octet(k) == Sum({i - 8 * k : i \in {j \in on : j \div 8 = k}})
\* what is reported
Bits == [i \in 1..used |-> (i - 1) \in on]
BytesUsed == (used + 7) \div 8
Init == \E n \in 0..(MaxCap + 2) : cap = Min2(n, MaxCap) /\ on = {} /\ used = 0 /\ last = "none"
TypeOK == on \subseteq 0..(Size - 1) /\ used \in 0..Size
=============================================================================
