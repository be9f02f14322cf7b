------------------------------ MODULE MC_Signal ------------------------------
(* Every sequence of creating, cancelling, raising and releasing, each step run  *)
(* to its end.  A future with a behaviour releases, when its dependent hears of   *)
(* it, all the others of the same source.                                         *)
EXTENDS Signal
CONSTANTS MaxF, Srcs, MaxOps
VARIABLES s, beh, n, hist
vars == <<s, beh, n, hist>>
Init == s = NewSignals /\ beh = {} /\ n = 0 /\ hist = ""
S(k) == ToString(k)
Due(t) == { x \in Live(t) : t.f[x].dec = "" /\ (t.f[x].src \in t.cs \/ t.f[x].must) }
Heard(t) == { x \in Live(t) : ~t.f[x].told /\ (t.f[x].dec # "" \/ x \in Due(t)) }
(* everybody is decided and told; the behaviours act *)
Run(t) == LET d == Due(t)
              h == Heard(t)
              u == [t EXCEPT !.f = [x \in DOMAIN @ |-> LET e == IF x \in d THEN [@[x] EXCEPT !.dec = IF IsSig(t.f[x].src) THEN t.f[x].val ELSE Cancelled] ELSE @[x]
                                                        IN [e EXCEPT !.told = @ \/ x \in h,
                                                                     !.gone = @ \/ \E y \in h \cap beh : y # x /\ t.f[y].src = t.f[x].src]]]
          IN Quiet(u)
Step(op, t) == s' = Run(t) /\ n' = n + 1 /\ hist' = hist \o op \o " "
Next == /\ n < MaxOps
        /\ \/ LET x == Cardinality(Fs(s)) + 1 IN
              x <= MaxF /\ \E c \in Srcs, b \in {0, 1} :
                 /\ (b = 1 => \A y \in beh : s.f[y].src # c \/ s.f[y].gone)
                 /\ beh' = (IF b = 1 THEN beh \cup {x} ELSE beh)
                 /\ LET t == New(s, x, c, "v") IN
                    s' = (IF b = 1 /\ t.f[x].dec # "" THEN [Run(t) EXCEPT !.f = [y \in DOMAIN @ |-> IF y # x /\ @[y].src = c THEN [@[y] EXCEPT !.gone = TRUE] ELSE @[y]]] ELSE Run(t))
                 /\ n' = n + 1 /\ hist' = hist \o "n" \o S(c) \o "." \o S(b) \o " "
           \/ UNCHANGED beh /\ \E c \in Srcs : IF IsSig(c) THEN Step("r" \o S(c), Raise(s, c)) ELSE Step("x" \o S(c), CancelDone(Cancel(s, c), c))
           \/ UNCHANGED beh /\ \E x \in Live(s) : IF IsSig(s.f[x].src) THEN FALSE ELSE Step("d" \o S(x), Self(s, x))
           \/ UNCHANGED beh /\ \E x \in Live(s) : Step("k" \o S(x), Drop(s, x))
Spec == Init /\ [][Next]_vars
Inv == SignalInv(s) /\ Settled(s) /\ QuietOk(s, <<>>)
(* an outcome never changes, and nothing is decided that was not fired *)
Final == [][\A x \in Fs(s) : /\ (s.f[x].dec # "" => s'.f[x].dec = s.f[x].dec)
                             /\ (s.f[x].dec = "" /\ s'.f[x].dec # "" => s'.f[x].src \in s'.cs \/ IsSig(s.f[x].src) \/ s'.f[x].dec = Cancelled)]_vars
NoHist == <<s, beh, n>>
Emit == PrintT(<<"SCRIPT", hist'>>)
==============================================================================
