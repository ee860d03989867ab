---------------------------- MODULE BitStringMC ----------------------------
EXTENDS BitString
\* h: position -> the value last written with SetBit, for positions written; checked against what is reported
VARIABLES h
Next == \E i \in 0..(8 * MaxCap + 2), v \in BOOLEAN :
          SetBit(i, v) /\ h' = IF i < Size THEN [x \in DOMAIN h \cup {i} |-> IF x = i THEN v ELSE h[x]] ELSE h
MCSpec == Init /\ h = [x \in {} |-> TRUE] /\ [][Next]_<<cap, on, used, last, h>>
LastWritten == /\ \A i \in DOMAIN h : (i \in on) = h[i]
               /\ \A i \in on : i \in DOMAIN h
               /\ used = (IF DOMAIN h = {} THEN 0 ELSE 1 + CHOOSE i \in DOMAIN h : \A j \in DOMAIN h : j <= i)
               /\ \A k \in 0..(cap - 1) : BitsOf(k, Octet(k)) = {i \in on : i \div 8 = k}
=============================================================================
