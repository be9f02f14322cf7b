----------------------------- MODULE Trace_Deque -----------------------------
(* Explains runs of the real work stealing queue.  A theft may fail while items *)
(* are left, but only if something else was taken in the mean time, or the push  *)
(* has not become visible yet (lazy: runs with store buffers).                   *)
EXTENDS Deque, TraceBase
VARIABLES d, pend
vars == <<tid, i, d, pend>>
None == [st |-> "none"]
Init == tid \in 1..Len(Traces) /\ i = 3 /\ Traces[tid][2].e = "cfg" /\ d = NewDeque /\ pend = [t \in 1..4 |-> None]
Call == /\ Is("call") /\ pend[Ev.t].st = "none"
        /\ pend' = [pend EXCEPT ![Ev.t] = [st |-> "called", op |-> Ev.op, id |-> Ev.id, v |-> 0, at |-> d.takes]]
        /\ UNCHANGED d /\ Consume
Fin(t, v) == pend' = [pend EXCEPT ![t].st = "done", ![t].v = v]
Effect(t) ==
  LET p == pend[t] IN
  CASE p.op = "push" -> d' = Push(d, p.id) /\ Fin(t, 0)
    [] p.op = "pop" -> IF d.q = <<>> THEN d' = d /\ Fin(t, 0) ELSE d' = Pop(d) /\ Fin(t, Last(d.q))
    [] p.op = "steal" -> \/ d.q # <<>> /\ d' = Steal(d) /\ Fin(t, Head(d.q))
                         \/ (d.q = <<>> \/ d.takes > p.at \/ Traces[tid][2].lazy) /\ d' = d /\ Fin(t, 0)
Settled == pend[Ev.t].st = "done" /\ pend[Ev.t].v = Ev.v
Lin == /\ Is("ret") /\ ~Settled
       /\ \E t \in 1..4 : pend[t].st = "called" /\ Effect(t)
       /\ Stay
Ret == Is("ret") /\ Settled /\ pend' = [pend EXCEPT ![Ev.t] = None] /\ UNCHANGED d /\ Consume
Quiet == \A t \in 1..4 : pend[t].st = "none"
Size == Is("size") /\ Quiet /\ Ev.v = Len(d.q) /\ Ev.empty = (d.q = <<>>) /\ UNCHANGED <<d, pend>> /\ Consume
End == Is("end") /\ Quiet /\ d.q = <<>> /\ UNCHANGED <<d, pend>> /\ Consume
Next == Call \/ Lin \/ Ret \/ Size \/ End
Spec == Init /\ [][Next]_vars
Inv == DequeInv(d)
==============================================================================
