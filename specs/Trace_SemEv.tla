---------------------------- MODULE Trace_SemEv ----------------------------
(* Explains recorded runs of the semaphore with io_uring.  What a wait yields is *)
(* whatever a read of an eventfd yields, eight bytes; where there is no io_uring *)
(* it is TRUE.                                                                   *)
EXTENDS SemEv, TraceBase
VARIABLES s
vars == <<tid, i, s>>
Init == tid \in 1..Len(Traces) /\ i = 2 /\ s = NewSem
Call == /\ Is("call")
        /\ CASE Ev.op = "wait" -> s' = Wait(s, Ev.id, Ev.t)
             [] Ev.op = "post" -> s' = Post(s, Ev.n)
             [] Ev.op = "drop" -> Ev.n \in s.done /\ s' = s
             [] Ev.op = "free" -> s.done = DOMAIN s.on /\ s' = s
        /\ Consume
Ret == Is("ret") /\ s' = s /\ Consume
Seen == Is("done") /\ Ev.o \in {"l8", "true"} /\ CanDone(s, Ev.id, Ev.t) /\ s' = Done(s, Ev.id) /\ Consume
Still == Is("quiet") /\ Quiet(s) /\ s' = s /\ Consume
End == Is("end") /\ Ev.leak = 0 /\ s' = s /\ Consume
Next == Call \/ Ret \/ Seen \/ Still \/ End
Spec == Init /\ [][Next]_vars
Inv == SemInv(s)
=============================================================================
