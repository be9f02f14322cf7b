------------------------------- MODULE MC_Fd -------------------------------
(* Every sequence of wrapping, sharing, copying, stealing and releasing.        *)
EXTENDS Fd
CONSTANTS MaxF, MaxB, MaxOps
VARIABLES s, nk, n, hist
vars == <<s, nk, n, hist>>
Init == s = NewFds /\ nk = 0 /\ n = 0 /\ hist = ""
S(k) == ToString(k)
NF == Cardinality(DOMAIN s.f)
NB == Cardinality(DOMAIN s.b)
Step(op) == n' = n + 1 /\ hist' = hist \o op \o " "
Keep == UNCHANGED nk
(* what is stolen is closed at once; boxes are never freed here before the end, so that their numbers stay *)
Closed(t) == [t EXCEPT !.raw = <<>>]
Next == /\ n < MaxOps
        /\ \/ NB < MaxB /\ s' = Box(s, NB + 1, nk + 1) /\ nk' = nk + 1 /\ Step("b0")
           \/ NF < MaxF /\ s' = Take(s, NF + 1, nk + 1) /\ nk' = nk + 1 /\ Step("t0")
           \/ NF < MaxF /\ s' = Promise(s, NF + 1) /\ Keep /\ Step("p0")
           \/ \E f \in s.live :
                \/ /\ (s.f[f] = P \/ nk > 0) /\ f \notin DOMAIN s.from
                   /\ s' = Resolve(s, f, nk + 1) /\ nk' = nk + 1 /\ s.f[f] = P /\ Step("r" \o S(f))
                \/ NF < MaxF /\ s' = Derive(s, NF + 1, f) /\ Keep /\ Step("d" \o S(f))
                \/ s' = Closed(StealF(s, f)) /\ Keep /\ Step("a" \o S(f))
                \/ NB < MaxB /\ s' = Box(s, NB + 1, Holds(s, f)) /\ Keep /\ Step("c" \o S(f))
                \/ s' = Drop(s, f) /\ Keep /\ Step("x" \o S(f))
           \/ \E b \in DOMAIN s.b :
                \/ NB < MaxB /\ s' = Box(s, NB + 1, s.b[b]) /\ Keep /\ Step("D" \o S(b))
                \/ s' = Closed(StealB(s, b)) /\ Keep /\ Step("s" \o S(b))
Spec == Init /\ [][Next]_vars
(* nothing but its owners keeps a descriptor open *)
Inv == \A g \in DOMAIN s.from : s.f[s.from[g]] # P => s.f[g] # P
Final == [][\A k \in 1..nk : Most(s, k) = 0 => Most(s', k) = 0]_vars
NoHist == <<s, nk, n>>
Emit == PrintT(<<"SCRIPT", hist'>>)
==============================================================================
