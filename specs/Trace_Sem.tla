----------------------------- MODULE Trace_Sem -----------------------------
(* Explains recorded runs of the real DexSemaphore.  A post, wait or close takes *)
(* effect at one point between its call and its return.                          *)
EXTENDS Sem, TraceBase
VARIABLES s, pend    \* pend: operation -> [ev, st]
vars == <<tid, i, s, pend>>
Init == tid \in 1..Len(Traces) /\ i = 2 /\ s = NewSem /\ pend = <<>>
Call == /\ Is("call") /\ Ev.id \notin DOMAIN pend
        /\ pend' = Put(pend, Ev.id, [ev |-> Ev, done |-> FALSE]) /\ UNCHANGED s /\ Consume
Effect(id) ==
  LET e == pend[id].ev IN
  /\ ~pend[id].done /\ pend' = [pend EXCEPT ![id].done = TRUE]
  /\ \/ e.op = "wait" /\ s' = Wait(s, id, e.t)
     \/ e.op = "wait" /\ s.closed /\ s' = WaitClosed(s, id, e.t)
     \/ e.op = "post" /\ s' = Post(s, e.n)
     \/ e.op \in {"close", "free"} /\ s' = Close(s)
     \/ e.op = "drop" /\ s' = Drop(s, e.n)
Need == Is("ret") \/ (Is("done") /\ Ev.id \in DOMAIN s.st /\ s.st[Ev.id] = "queued")
(* what a call returns is decided by its effect, so effects are put off until something needs them *)
Lin == /\ Need /\ (Is("ret") => ~pend[Ev.id].done)
       /\ \E id \in DOMAIN pend : Effect(id)
       /\ Stay
Ret == /\ Is("ret") /\ pend[Ev.id].done
       /\ (pend[Ev.id].ev.op = "wait" => IF Ev.o = "P" THEN TRUE
                                         ELSE s.st[Ev.id] = IF Ev.o = "true" THEN "granted" ELSE "rejected")
       /\ pend' = [x \in DOMAIN pend \ {Ev.id} |-> pend[x]] /\ UNCHANGED s /\ Consume
Seen == Is("done") /\ CanDone(s, Ev.id, Ev.t, Ev.o) /\ s' = Done(s, Ev.id) /\ UNCHANGED pend /\ Consume
Still == Is("quiet") /\ DOMAIN pend = {} /\ Quiet(s) /\ UNCHANGED <<s, pend>> /\ Consume
End == Is("end") /\ Ev.leak = 0 /\ s.queue = <<>> /\ UNCHANGED <<s, pend>> /\ Consume
Next == Call \/ Ret \/ Seen \/ Still \/ End \/ Lin
Spec == Init /\ [][Next]_vars
Inv == SemInv(s)
============================================================================
