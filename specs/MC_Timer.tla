----------------------------- MODULE MC_Timer -----------------------------
(* A few timers, postponed, awaited, given up, while time passes; the loop      *)
(* comes to rest after every step.  early: a timer has fired before its time.    *)
EXTENDS Timer
CONSTANTS MaxT, MaxOps, Ds
VARIABLES s, n, hist, early
vars == <<s, n, hist, early>>
Init == s = NewTimers(0) /\ n = 0 /\ hist = "1;" /\ early = FALSE
Settled(t) == [t EXCEPT !.tm = [ x \in DOMAIN @ |-> IF MustFire(t, x) THEN [@[x] EXCEPT !.st = "fired", !.maybe = FALSE] ELSE [@[x] EXCEPT !.maybe = FALSE] ]]
Step(op, t) == /\ s' = Settled(t) /\ n' = n + 1 /\ hist' = hist \o op \o " "
               /\ early' = (early \/ \E x \in DOMAIN s'.tm : s'.tm[x].st = "fired" /\ (IF x \in Ids(s) THEN s.tm[x].st # "fired" /\ s'.now < s'.tm[x].dl ELSE s'.now < s'.tm[x].dl))
S(k) == ToString(k)
Next == /\ n < MaxOps
        /\ \/ LET x == Cardinality(Ids(s)) + 1 IN x <= MaxT /\ \E d \in Ds : Step("n" \o S(x) \o "." \o S(d), New(s, x, s.now + d))
           \/ \E d \in Ds \ {0} : Step("a" \o S(d) \o ".0", Tick(s, s.now + d))
           \/ \E x \in Ids(s), d \in Ds : s.tm[x].st # "off" /\ Step("p" \o S(x) \o "." \o S(d), Postpone(s, x, s.now + d))
           \/ \E x \in Ids(s), d \in 1..2 : d \notin s.tm[x].deps /\ s.tm[x].st # "off" /\ Step("d" \o S(x) \o "." \o S(d), Dep(s, x, d))
           \/ \E x \in Ids(s), d \in 1..2 : d \in s.tm[x].deps /\ Step("u" \o S(x) \o "." \o S(d), Undep(s, x, d))
Spec == Init /\ [][Next]_vars
(* whatever is awaited completes as soon as it is due, whatever nobody wants any more never does *)
Inv == /\ TimerInv(s) /\ ~early
       /\ \A x \in Ids(s) : Armed(s, x) => ~Due(s, x)
       /\ \A x \in Ids(s) : s.tm[x].st = "off" => s.tm[x].deps = {}
Final == [][\A x \in Ids(s) : s.tm[x].st # "armed" => s'.tm[x].st = s.tm[x].st]_vars
NoHist == <<s, n, early>>
Emit == PrintT(<<"SCRIPT", hist'>>)
===========================================================================
