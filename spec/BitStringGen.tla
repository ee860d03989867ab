---------------------------- MODULE BitStringGen ----------------------------
EXTENDS BitString, TLC, Json
CONSTANTS N, MaxOps
VARIABLES script, made
gvars == <<cap, on, used, last, script, made>>
R(S) == RandomElement(S)
GInit == cap = 0 /\ on = {} /\ used = 0 /\ last = "none" /\ script = <<>> /\ made = 0
Out(r) == script' = Append(script, r) /\ UNCHANGED made
GNew == \E n \in {R({0, 1, 2, 3, 5, 14, 15, 16, 17, 32, 33, 255, R(0..15)})} : New(n) /\ Out([op |-> "new", n |-> n])
\* lengths at octet boundaries, too
GRecv == \E n \in {R({1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 112, 113, 119, 120, R(1..120)})} :
         \E b \in {[i \in 1..n |-> R({0, 1})]} : Receive(b) /\ Out([op |-> "recv", bits |-> b])
Pos == {0, 1, 7, 8, Size - 1, Size, Size + 1, Size + 8, 127, 128, 255, used, used - 1, R(0..255), R(0..(Size + 1)), R(0..(Size + 1))}
\* what lies beyond the contents of a received string is the implementation's choice
Top == IF script[1].op = "new" THEN 255 ELSE Size - 1
GBit == \E i \in {R({x \in Pos : x \in 0..Top} \cup (IF Top < 0 THEN {300} ELSE {0}))} : \E v \in {R(BOOLEAN)} :
        IF i = 300 THEN UNCHANGED gvars ELSE SetBit(i, v) /\ Out([op |-> "bit", i |-> i, v |-> v])
GByte == \E k \in {R({0, 1, cap - 1, cap, cap + 1, 31, R(0..16)} \cap 0..255)} : \E v \in {R({0, 1, 127, 128, 255, R(0..255)})} :
        IF k >= cap /\ script[1].op # "new" THEN UNCHANGED gvars ELSE SetByte(k, v) /\ Out([op |-> "byte", i |-> k, n |-> v])
GUsed == \E n \in {R(0..cap)} : \E u \in {R({0, 1, 7, R(0..7)})} : SetUsed(n, u) /\ Out([op |-> "used", i |-> n, n |-> u])
GStep == \E p \in {R(1..12)} : CASE p <= 8 -> GBit [] p <= 10 -> GByte [] OTHER -> GUsed
Done == Len(script) >= MaxOps
GEmit == /\ PrintT("SCRIPT " \o ToJson([ops |-> script])) /\ made' = made + 1
         /\ cap' = 0 /\ on' = {} /\ used' = 0 /\ last' = "none" /\ script' = <<>>
GNext == made < N /\ IF script = <<>> THEN \E p \in {R(1..3)} : IF p = 1 THEN GRecv ELSE GNew
         ELSE IF Done THEN GEmit ELSE GStep
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
