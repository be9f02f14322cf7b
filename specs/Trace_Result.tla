---------------------------- MODULE Trace_Result ----------------------------
(* Explains recorded runs of real async results.                               *)
EXTENDS Result, TraceBase
VARIABLES s, pend
vars == <<tid, i, s, pend>>
Init == tid \in 1..Len(Traces) /\ i = 2 /\ s = NewResults /\ pend = <<>>
Made == Is("new") /\ s' = New(s, Ev.r, Ev.t, Ev.c) /\ UNCHANGED pend /\ Consume
Begin == Is("call") /\ Ev.id \notin DOMAIN pend /\ pend' = Put(pend, Ev.id, [ev |-> Ev, done |-> FALSE, o |-> ""]) /\ UNCHANGED s /\ Consume
Effect(id) ==
  LET e == pend[id].ev IN
  /\ ~pend[id].done
  /\ \E o \in (IF e.op = "dup" THEN Dup(s, e.r) ELSE {""}) :
     /\ pend' = [pend EXCEPT ![id].done = TRUE, ![id].o = o]
     /\ s' = CASE e.op = "await" -> Await(s, e.r, e.p)
               [] e.op = "complete" -> Complete(s, e.p, e.o)
               [] e.op = "cancel" -> Cancel(s, e.c)
               [] e.op = "dup" -> Dupped(s, e.r, o)
After == LET e == pend[Ev.id].ev IN CASE e.op = "await" -> Awaited(s, e.r) [] e.op = "complete" -> Completed(s, e.p) [] e.op = "cancel" -> CancelDone(s, e.c) [] e.op = "dup" -> s
Need == \/ Is("ret") /\ (~pend[Ev.id].done \/ ~AllDecided(After))
        \/ Is("cb") /\ s.r[Ev.r].dec # Ev.o
(* an event which narrows what can be seen lets those go first who have looked *)
Narrows == Is("cb") \/ (Is("ret") /\ Ev.id \in DOMAIN pend /\ pend[Ev.id].ev.op # "dup")
Lin == /\ \/ Need /\ \E id \in DOMAIN pend : Effect(id)
          \/ Narrows /\ ~Need /\ \E id \in DOMAIN pend : pend[id].ev.op = "dup" /\ Effect(id)
       /\ Stay
Judge == /\ Need /\ (\E r \in Rs(s) : Open1(s, r) /\ (Is("cb") => r = Ev.r) /\ \E o \in Verdicts(s, r) : s' = Decide(s, r, o)) /\ UNCHANGED pend /\ Stay
Ret == Is("ret") /\ pend[Ev.id].done /\ pend[Ev.id].o = Ev.o /\ s' = After /\ AllDecided(s') /\ pend' = [x \in DOMAIN pend \ {Ev.id} |-> pend[x]] /\ Consume
(* never from within the call that awaits *)
Inside == \E id \in DOMAIN pend : pend[id].ev.op = "await" /\ pend[id].ev.r = Ev.r /\ pend[id].ev.t = Ev.t
Cb == Is("cb") /\ CanCall(s, Ev.r, Ev.t, Ev.o) /\ ~Inside /\ s' = Call(s, Ev.r) /\ UNCHANGED pend /\ Consume
Still == Is("quiet") /\ DOMAIN pend = {} /\ Quiet(s) /\ UNCHANGED <<s, pend>> /\ Consume
End == Is("end") /\ Ev.leak = 0 /\ UNCHANGED <<s, pend>> /\ Consume
Next == Made \/ Begin \/ Ret \/ Cb \/ Still \/ End \/ Judge \/ Lin
Spec == Init /\ [][Next]_vars
Inv == ResultInv(s)
=============================================================================
