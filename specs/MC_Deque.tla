------------------------------- MODULE MC_Deque -------------------------------
EXTENDS Deque
CONSTANTS Caps, MaxOps
VARIABLES d, n, hist
vars == <<d, n, hist>>
Init == \E k \in Caps : d = NewDeque /\ n = 0 /\ hist = ToString(k) \o ";"
Step(op, d2) == d' = d2 /\ n' = n + 1 /\ hist' = hist \o op \o " "
Next == /\ n < MaxOps
        /\ \/ Step("p", Push(d, Cardinality(d.pushed) + 1))
           \/ Step("o", IF d.q = <<>> THEN d ELSE Pop(d))
           \/ Step("s", IF d.q = <<>> THEN d ELSE Steal(d))
Spec == Init /\ [][Next]_vars
Inv == DequeInv(d)
NoHist == <<d, n>>
Emit == PrintT(<<"SCRIPT", hist'>>)
==============================================================================
