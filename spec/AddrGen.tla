------------------------------- MODULE AddrGen ------------------------------
(* Addresses: every value of every byte, ports at the boundaries, and random ones. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES i, c
gvars == <<i, c>>
R(S) == RandomElement(S)
Edge == <<0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 1024, 32767, 32768, 47807, 47808, 47809, 47823, 49152, 65280, 65534, 65535>>
RPort(x) == IF R(1..3) = 1 THEN Edge[R(1..Len(Edge))] ELSE R(0..65535)
RIp(x) == [j \in 1..4 |-> R(0..255)]
Draw(n) == IF n <= 1024 THEN [ip |-> [RIp(0) EXCEPT ![(n - 1) \div 256 + 1] = (n - 1) % 256], port |-> RPort(0)]
           ELSE IF n <= 1536 THEN [ip |-> RIp(0), port |-> IF n <= 1280 THEN (n - 1025) * 256 + R(0..255) ELSE R(0..255) * 256 + (n - 1281)]
           ELSE [ip |-> IF R(1..10) = 1 THEN [j \in 1..4 |-> R({0, 255})] ELSE RIp(0), port |-> RPort(0)]
GInit == i = 0 /\ c = [port |-> 0]
GNext == i < N /\ i' = i + 1 /\ \E x \in {Draw(i + 1)} : c' = x
GSpec == GInit /\ [][GNext]_gvars
Emit == i = 0 \/ PrintT("SCRIPT " \o ToJson(c))
=============================================================================
