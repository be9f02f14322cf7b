------------------------------- MODULE Timer -------------------------------
(* Timeouts.  now: the clock;  tm: timer ->                                    *)
(*   st     "armed", "fired", "off" (disarmed, pending for ever)               *)
(*   dl     its deadline         deps   its dependents                          *)
(*   home   the thread whose loop it is on (0: the main one)                    *)
(*   maybe  it was due when it was postponed or disarmed, and may fire still,    *)
(*          until its loop has come to rest                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NewTimers(n) == [ now |-> n, tm |-> <<>> ]
Put(f, x, v) == (x :> v) @@ f
Ids(s) == DOMAIN s.tm
Due(s, x) == s.tm[x].dl <= s.now
Armed(s, x) == s.tm[x].st = "armed"
NewOn(s, x, dl, h) == [s EXCEPT !.tm = Put(@, x, [st |-> "armed", dl |-> dl, deps |-> {}, maybe |-> FALSE, home |-> h])]
New(s, x, dl) == NewOn(s, x, dl, 0)
Tick(s, n) == [s EXCEPT !.now = n]
Postpone(s, x, dl) == IF Armed(s, x) THEN [s EXCEPT !.tm[x].dl = dl, !.tm[x].maybe = @ \/ Due(s, x)] ELSE s
Dep(s, x, d) == [s EXCEPT !.tm[x].deps = @ \cup {d}]
(* the last one loses interest: the timer is disarmed *)
Undep(s, x, d) ==
  LET t == [s EXCEPT !.tm[x].deps = @ \ {d}] IN
  IF d \in s.tm[x].deps /\ t.tm[x].deps = {} /\ Armed(s, x) THEN [t EXCEPT !.tm[x].st = "off", !.tm[x].maybe = @ \/ Due(s, x)] ELSE t
CanFire(s, x) == IF s.tm[x].st = "armed" THEN Due(s, x) \/ s.tm[x].maybe ELSE s.tm[x].st = "off" /\ s.tm[x].maybe
Fire(s, x) == [s EXCEPT !.tm[x].st = "fired", !.tm[x].maybe = FALSE]
View(s, x) == IF s.tm[x].st = "fired" THEN "E:TIMED_OUT" ELSE "P"
(* at rest: whatever is due has fired *)
MustFire(s, x) == Armed(s, x) /\ Due(s, x)
Rest(s) == [s EXCEPT !.tm = [ x \in DOMAIN @ |-> [@[x] EXCEPT !.maybe = FALSE] ]]
(* the time at which some loop has to wake up *)
Wakes(s) == { s.tm[x].dl : x \in { y \in Ids(s) : Armed(s, y) } }
Next1(s) == CHOOSE n \in Wakes(s) : \A m \in Wakes(s) : n <= m
NextOk(s, n) == IF Wakes(s) = {} THEN n = -1 ELSE n >= Next1(s) /\ n < Next1(s) + 1000   \* the kernel counts in milliseconds
TimerInv(s) == \A x \in Ids(s) : s.tm[x].st = "fired" => ~s.tm[x].maybe
=============================================================================
