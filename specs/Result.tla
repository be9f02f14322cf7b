------------------------------- MODULE Result -------------------------------
(* Async results: r -> [ on: thread whose context made it, p: the future it     *)
(* awaits (0: none yet), c: its cancellable (0: none), ret: the call of await    *)
(* has returned, dec: the outcome it has got, "" while there is none, called,    *)
(*        seen: its future has been had (1), and was decided (2) ]                *)
(*   ps  future -> outcome ("P": pending)     cs  cancelled cancellables         *)
(*   pd, cd  futures and cancellables for which that has come to an end          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Cancelled == "E:CANCELLED"
NewResults == [ r |-> <<>>, ps |-> <<>>, cs |-> {}, pd |-> {}, cd |-> {} ]
Put(f, x, v) == (x :> v) @@ f
Rs(s) == DOMAIN s.r
P(s, p) == IF p \in DOMAIN s.ps THEN s.ps[p] ELSE "P"
New(s, r, k, c) == [s EXCEPT !.r = Put(@, r, [on |-> k, p |-> 0, c |-> c, ret |-> FALSE, dec |-> "", called |-> FALSE, seen |-> 0])]
Complete(s, p, o) == IF P(s, p) = "P" THEN [s EXCEPT !.ps = Put(@, p, o)] ELSE s
Cancel(s, c) == [s EXCEPT !.cs = @ \cup {c}]
Completed(s, p) == [s EXCEPT !.pd = @ \cup {p}]
CancelDone(s, c) == [s EXCEPT !.cd = @ \cup {c}]
(* a future that is complete when await looks at it wins *)
Await(s, r, p) == [s EXCEPT !.r[r].p = p, !.r[r].dec = IF P(s, p) # "P" THEN P(s, p) ELSE ""]
Awaited(s, r) == [s EXCEPT !.r[r].ret = TRUE, !.r[r].seen = IF @ = 0 THEN 1 ELSE @]
Open1(s, r) == s.r[r].p # 0 /\ s.r[r].dec = ""
(* what it can be decided by *)
Verdicts(s, r) == (IF P(s, s.r[r].p) # "P" THEN {P(s, s.r[r].p)} ELSE {}) \cup (IF s.r[r].c \in s.cs THEN {Cancelled} ELSE {})
Decide(s, r, o) == [s EXCEPT !.r[r].dec = o]
Must(s, r) == s.r[r].ret /\ (s.r[r].p \in s.pd \/ s.r[r].c \in s.cd)
AllDecided(s) == \A r \in Rs(s) : Must(s, r) => s.r[r].dec # ""
CanCall(s, r, t, o) == r \in Rs(s) /\ s.r[r].dec = o /\ ~s.r[r].called /\ s.r[r].on = t
Call(s, r) == [s EXCEPT !.r[r].called = TRUE]
(* its future can be asked for until the callback has run; while the call of     *)
(* await is still on its way it may not be there yet, but it does not go again;  *)
(* it may look pending until all that decides it has come to an end              *)
Sure(s, r) == s.r[r].ret /\ (IF s.r[r].dec = Cancelled THEN s.r[r].c \in s.cd ELSE s.r[r].p \in s.pd)
Dup(s, r) == (IF s.r[r].seen = 0 \/ s.r[r].called THEN {"none"} ELSE {}) \cup
             (IF s.r[r].p = 0 THEN {} ELSE IF s.r[r].dec = "" THEN {"P"}
              ELSE {s.r[r].dec} \cup (IF Sure(s, r) \/ s.r[r].called \/ s.r[r].seen = 2 THEN {} ELSE {"P"}))
Dupped(s, r, o) == [s EXCEPT !.r[r].seen = IF o = "none" THEN @ ELSE IF o = "P" THEN 1 ELSE 2]
Quiet(s) == \A r \in Rs(s) : s.r[r].dec # "" => s.r[r].called
ResultInv(s) == \A r \in Rs(s) : /\ (s.r[r].called => s.r[r].dec # "") /\ (s.r[r].dec # "" => s.r[r].p # 0)
                                 /\ (s.r[r].dec = Cancelled => s.r[r].c \in s.cs)
                                 /\ (s.r[r].dec \notin {"", Cancelled} => s.r[r].dec = P(s, s.r[r].p))
=============================================================================
