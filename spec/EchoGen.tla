------------------------------ MODULE EchoGen ------------------------------
(* Workloads for a client that many goroutines share: few and many of them, *)
(* answers at once, later, in bursts; all services and single ones.         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT N, Total
VARIABLE n
R(S) == RandomElement(S)
Kinds == <<<<"rp">>, <<"rpm">>, <<"wp">>, <<"rp", "rpm", "wp", "wpm">>, <<"rp", "rpm">>, <<"wp", "wpm">>, <<"rp", "rp", "rp", "wp">>>>
Init == n = 0
Next == n < N /\ n' = n + 1 /\
        \E w \in {R({2, 5, 12, 19, 20, 21, 32, 60})} : \E p \in {R({0, 0, 30, 70, 100})} : \E k \in {R(1..7)} : \E s \in {R(1..1000000)} :
          PrintT("SCRIPT " \o ToJson([workers |-> w, calls |-> Total \div w, prompt |-> p, kinds |-> Kinds[k], seed |-> s]))
Spec == Init /\ [][Next]_n
=============================================================================
