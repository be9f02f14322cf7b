------------------------------- MODULE MC_Pair -------------------------------
(* Every sequence of operations on async pairs, one after the other.  Which type *)
(* and value an operation delivers is the driver's choice.                        *)
EXTENDS Pair
CONSTANTS MaxX, MaxD, MaxOps
VARIABLES s, kind, gone, n, nd, hist
vars == <<s, kind, gone, n, nd, hist>>
Init == s = NewPairs /\ kind = <<>> /\ gone = {} /\ n = 0 /\ nd = <<>> /\ hist = ""
S(k) == ToString(k)
Step(op) == n' = n + 1 /\ hist' = hist \o op \o " "
Live == Xs(s) \ gone
Next == /\ n < MaxOps
        /\ \/ LET x == Cardinality(Xs(s)) + 1 IN x <= MaxX /\ \E k \in {0, 1, 2} :
                Step("n" \o S(k)) /\ s' = (IF k = 2 THEN Complete(New(s, x), x, "v") ELSE New(s, x)) /\ kind' = Put(kind, x, k) /\ UNCHANGED <<gone, nd>>
           \/ \E x \in Xs(s) : kind[x] = 1 /\ Step("d" \o S(x)) /\ s' = Complete(s, x, Delivered(s, x, "v")) /\ kind' = [kind EXCEPT ![x] = 0] /\ UNCHANGED <<gone, nd>>
           \/ \E x \in Live : Step("r" \o S(x)) /\ s' = Complete(s, x, "r") /\ UNCHANGED <<kind, gone, nd>>
           \/ \E x \in Live : ~s.p[x].canc /\ Step("x" \o S(x)) /\ s' = Cancel(s, x) /\ UNCHANGED <<kind, gone, nd>>
           \/ \E x \in Live : Step((IF s.p[x].cod THEN "o" ELSE "O") \o S(x)) /\ s' = SetCod(s, x, ~s.p[x].cod) /\ UNCHANGED <<kind, gone, nd>>
           \/ \E x \in Live : Len(nd) < MaxD /\ Step("w" \o S(x)) /\ s' = Want(s, x, Len(nd) + 1) /\ nd' = Append(nd, x) /\ UNCHANGED <<kind, gone>>
           \/ \E d \in 1..Len(nd) : nd[d] # 0 /\ Step("u" \o S(d)) /\ s' = (IF Unwanted(s, nd[d], d) THEN Discard(Unwant(s, nd[d], d), nd[d]) ELSE Unwant(s, nd[d], d)) /\ nd' = [nd EXCEPT ![d] = 0] /\ UNCHANGED <<kind, gone>>
           \/ \E x \in Live : Step("k" \o S(x)) /\ gone' = gone \cup {x} /\ UNCHANGED <<s, kind, nd>>
Spec == Init /\ [][Next]_vars
Inv == \A x \in Xs(s) : s.p[x].dec = Cancelled => s.p[x].canc
Final == [][\A x \in Xs(s) : (s.p[x].dec # "" => s'.p[x].dec = s.p[x].dec) /\ (s.p[x].canc => s'.p[x].canc)]_vars
NoHist == <<s, kind, gone, n, nd>>
Emit == PrintT(<<"SCRIPT", hist'>>)
==============================================================================
