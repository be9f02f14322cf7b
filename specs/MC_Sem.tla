------------------------------- MODULE MC_Sem -------------------------------
(* Every sequence of operations on one semaphore, each run to its end; and what *)
(* may be asked about order: whoever waits has nobody served who came later.    *)
EXTENDS Sem
CONSTANTS Ks, MaxOps, MaxPost
VARIABLES s, n, hist
vars == <<s, n, hist>>
Init == s = NewSem /\ n = 0 /\ hist = ToString(Cardinality(Ks)) \o ";"
Settled(t) == [t EXCEPT !.st = [ x \in DOMAIN @ |-> IF @[x] \in {"granted", "rejected"} /\ x \notin t.gone THEN "done" ELSE @[x] ]]
Step(op, t) == s' = Settled(t) /\ n' = n + 1 /\ hist' = hist \o op \o " "
Live == { x \in DOMAIN s.st : x \notin s.gone /\ s.st[x] = "queued" }
Next == /\ n < MaxOps
        /\ \/ \E k \in Ks : ~s.closed /\ Step("w" \o ToString(k) \o "." \o ToString(n + 1), Wait(s, n + 1, k))
           \/ \E c \in 0..MaxPost : Step("p" \o ToString(c), Post(s, c))
           \/ ~s.closed /\ Step("c0", Close(s))
           \/ \E x \in Live : Step("d" \o ToString(s.on[x]) \o "." \o ToString(x), Drop(s, x))
Spec == Init /\ [][Next]_vars
Order == \A x, y \in DOMAIN s.st : x < y /\ s.st[x] = "queued" => s.st[y] = "queued"
Inv == SemInv(s) /\ Quiet(s) /\ Order
NoHist == <<s, n>>
Emit == PrintT(<<"SCRIPT", hist'>>)
=============================================================================
