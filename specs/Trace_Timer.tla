--------------------------- MODULE Trace_Timer ---------------------------
(* Explains recorded runs of real timeouts on a virtual clock.  Times are in   *)
(* microseconds since the start.                                               *)
EXTENDS Timer, TraceBase
VARIABLES s, pend
vars == <<tid, i, s, pend>>
Init == tid \in 1..Len(Traces) /\ i = 2 /\ s = NewTimers(0) /\ pend = <<>>
Call == Is("call") /\ Ev.id \notin DOMAIN pend /\ pend' = Put(pend, Ev.id, [ev |-> Ev, done |-> FALSE, v |-> ""]) /\ UNCHANGED s /\ Consume
Effect(id) ==
  LET e == pend[id].ev IN
  /\ ~pend[id].done /\ pend' = [pend EXCEPT ![id].done = TRUE, ![id].v = IF e.op = "see" THEN View(s, e.x) ELSE ""]
  /\ s' = CASE e.op = "new" -> NewOn(s, e.x, IF e.abs THEN e.d ELSE s.now + e.d, e.home)
            [] e.op = "tick" -> Tick(s, e.d)
            [] e.op = "post" -> Postpone(s, e.x, e.d)
            [] e.op = "dep" -> Dep(s, e.x, e.d)
            [] e.op = "undep" -> Undep(s, e.x, e.d)
            [] OTHER -> s
Need == Is("ret") /\ ~pend[Ev.id].done
Lin == Need /\ (\E id \in DOMAIN pend : Effect(id)) /\ Stay
Bang == /\ Need /\ pend[Ev.id].ev.op = "see" /\ Ev.o # "P"
        /\ LET x == pend[Ev.id].ev.x IN CanFire(s, x) /\ s' = Fire(s, x) /\ UNCHANGED pend /\ Stay
Ret == Is("ret") /\ pend[Ev.id].done /\ Ev.o = pend[Ev.id].v /\ pend' = [x \in DOMAIN pend \ {Ev.id} |-> pend[x]] /\ UNCHANGED s /\ Consume
(* a dependent is told by the loop of the timeout *)
Unsure(x) == \E id \in DOMAIN pend : pend[id].ev.op = "new" /\ pend[id].ev.x = x /\ ~pend[id].done
Told == Is("told") /\ ~Unsure(Ev.x) /\ Ev.x \in Ids(s) /\ Ev.t = s.tm[Ev.x].home /\ UNCHANGED <<s, pend>> /\ Consume
Seen(x) == \E k \in 1..Len(Ev.r) : Ev.r[k][1] = x /\ Ev.r[k][2] = "E:TIMED_OUT"
Quiet == /\ Is("quiet") /\ DOMAIN pend = {}
         /\ \A k \in 1..Len(Ev.r) : LET x == Ev.r[k][1] o == Ev.r[k][2] IN
              IF o = "P" THEN s.tm[x].st # "fired" /\ ~MustFire(s, x) ELSE o = "E:TIMED_OUT" /\ (s.tm[x].st = "fired" \/ CanFire(s, x))
         /\ LET t == Rest([s EXCEPT !.tm = [ x \in DOMAIN @ |-> IF @[x].st # "fired" /\ (Seen(x) \/ MustFire(s, x)) THEN [@[x] EXCEPT !.st = "fired"] ELSE @[x] ]])
            IN s' = t /\ NextOk(t, Ev.next)
         /\ UNCHANGED pend /\ Consume
End == Is("end") /\ Ev.leak = 0 /\ UNCHANGED <<s, pend>> /\ Consume
Next == Call \/ Told \/ Ret \/ Quiet \/ End \/ Lin \/ Bang
Spec == Init /\ [][Next]_vars
Inv == TimerInv(s)
==========================================================================
