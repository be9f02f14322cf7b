------------------------------ MODULE MC_Result ------------------------------
(* Every sequence of creating, awaiting, completing and cancelling, each run to *)
(* its end.                                                                     *)
EXTENDS Result
CONSTANTS MaxR, NP, NC, Ks, MaxOps
VARIABLES s, n, hist
vars == <<s, n, hist>>
Init == s = NewResults /\ n = 0 /\ hist = ToString(Cardinality(Ks)) \o ";"
S(k) == ToString(k)
Verdict(t, r) == IF t.r[r].p \in t.pd /\ ~(t.r[r].c \in t.cd) THEN P(t, t.r[r].p) ELSE Cancelled
Settled(t) == [t EXCEPT !.r = [ x \in DOMAIN @ |-> LET d == IF @[x].dec = "" /\ Must(t, x) THEN Verdict(t, x) ELSE @[x].dec
                                                    IN [@[x] EXCEPT !.dec = d, !.called = (d # "")] ]]
Step(op, t) == s' = Settled(t) /\ n' = n + 1 /\ hist' = hist \o op \o " "
Next == /\ n < MaxOps
        /\ \/ LET r == Cardinality(Rs(s)) + 1 IN r <= MaxR /\ \E k \in Ks, c \in 0..NC : Step("n" \o S(k) \o "." \o S(c), New(s, r, k, c))
           \/ \E r \in Rs(s), k \in Ks, p \in 1..NP : s.r[r].p = 0 /\ Step("a" \o S(r) \o "." \o S(k) \o "." \o S(p), Awaited(Await(s, r, p), r))
           \/ \E p \in 1..NP, o \in {"i", "E:x"} : P(s, p) = "P" /\ Step((IF o = "i" THEN "c" ELSE "e") \o S(p), Completed(Complete(s, p, o \o S(p)), p))
           \/ \E r \in Rs(s) : Step("d" \o S(r), s)
           \/ \E c \in 1..NC : c \notin s.cs /\ Step("x" \o S(c), CancelDone(Cancel(s, c), c))
Spec == Init /\ [][Next]_vars
Inv == ResultInv(s) /\ AllDecided(s) /\ Quiet(s)
Once == [][\A r \in Rs(s) : s.r[r].called => s'.r[r] = s.r[r]]_vars
NoHist == <<s, n>>
Emit == PrintT(<<"SCRIPT", hist'>>)
==============================================================================
