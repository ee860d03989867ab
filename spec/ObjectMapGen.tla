---------------------------- MODULE ObjectMapGen ----------------------------
EXTENDS ObjectMap, TLC, Json
CONSTANTS N, MaxOps
VARIABLES script, made
gvars == <<om, script, made>>
R(S) == RandomElement(S)
Pick(s) == s[R(1..Len(s))]
U32(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
\* named types, their neighbours, and all the others
Types == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 19, 20, 21, 39, 40, 41, 64, 127, 128, 255, 256, 513, 1023, 1024, 65535}
RTy(x) == IF R(1..3) # 1 THEN R(Types) ELSE R(0..1023)
Ins == {U32(0), U32(1), U32(8), U32(10), U32(255), U32(256), <<0, 63, 255, 255>>, <<255, 255, 255, 255>>}
RIn(x) == IF R(1..2) = 1 THEN R(Ins) ELSE <<0, R(0..63), R(0..255), R(0..255)>>
\* texts: plain, quotes and escapes, control characters, accents, an emoji, look-alikes of keys
Texts == << <<>>, <<65>>, <<34, 92, 47>>, <<10, 9, 13, 0, 31, 127>>, <<60, 38, 62, 39>>, <<195, 169, 226, 130, 172>>, <<240, 159, 148, 165>>,
            <<226, 128, 168>>, <<68, 101, 118, 105, 99, 101>>, <<85, 110, 107, 110, 111, 119, 110, 32, 40, 53, 41>>, <<32, 32>>, <<239, 191, 189>>,
            <<123, 34, 97, 34, 58, 49, 125>>, <<110, 117, 108, 108>>, <<49, 50>> >>
RText(x) == IF R(1..3) = 1 THEN [i \in 1..R({1, 5, 40, 300}) |-> R(32..126)] ELSE Pick(Texts)
RVal(x) == CASE R(1..4) = 1 -> [t |-> "nil", b |-> <<>>] [] R(1..3) = 1 -> [t |-> "bool", b |-> <<R({0, 1})>>]
             [] R(1..2) = 1 -> [t |-> "str", b |-> RText(0)] [] OTHER -> [t |-> "num", b |-> <<R(0..255), R(0..255), R(0..255), R(0..255)>>]
RECURSIVE RProps(_)
RProps(n) == IF n = 0 THEN <<>> ELSE <<[p |-> RIn(0), ix |-> IF R(1..2) = 1 THEN <<255, 255, 255, 255>> ELSE RIn(0), pri |-> R(0..16), v |-> RVal(0)]>> \o RProps(n - 1)
Obj(ty, in) == [ty |-> ty, in |-> in, idty |-> IF R(1..4) = 1 THEN RTy(0) ELSE ty, idin |-> IF R(1..4) = 1 THEN RIn(0) ELSE in,
          name |-> RText(0), desc |-> RText(0), props |-> LET n == R({0, 0, 1, 2, 3}) IN RProps(n)]
Out(r) == script' = Append(script, r) /\ UNCHANGED made
GInit == Init /\ script = <<>> /\ made = 0
\* mostly new entries, some that replace an entry or differ from one in the type or the instance alone
GPut == \E p \in {R(1..6)} : \E k \in {IF om = {} THEN <<0, U32(0)>> ELSE Key(R(om))} : \E t \in {RTy(0)} : \E n \in {RIn(0)} :
        \E o \in {Obj(IF p \in {1, 2} /\ om # {} THEN k[1] ELSE t, IF p \in {1, 3} /\ om # {} THEN k[2] ELSE n)} :
        Put(o) /\ Out([op |-> "put", o |-> o])
GDel == \E e \in {R(om)} : Del(e.ty, e.in) /\ Out([op |-> "del", o |-> [ty |-> e.ty, in |-> e.in]])
GRound == RoundTrip /\ Out([op |-> R({"round", "roundp"})])
GStep == \E p \in {R(1..10)} : CASE p <= 6 -> GPut [] p = 7 /\ om # {} -> GDel [] OTHER -> GRound
GEmit == PrintT("SCRIPT " \o ToJson([ops |-> Append(script, [op |-> "round"])])) /\ made' = made + 1 /\ om' = {} /\ script' = <<>>
GNext == made < N /\ IF Len(script) >= MaxOps THEN GEmit ELSE GStep
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
