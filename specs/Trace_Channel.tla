---------------------------- MODULE Trace_Channel ----------------------------
(* Explains recorded runs of the real DexChannel.  Each call takes effect at    *)
(* one point between its call and ret events (receive_all may take two).        *)
EXTENDS Channel, TraceBase
VARIABLES c, pend   \* pend: thread -> the operation in progress
vars == <<tid, i, c, pend>>
None == [st |-> "none"]
Init == /\ tid \in 1..Len(Traces) /\ i = 3
        /\ Traces[tid][1].e = "run" /\ Traces[tid][2].e = "cfg"
        /\ c = NewChannel(Traces[tid][2].cap)
        /\ pend = [t \in {} |-> None]
Pend(t) == IF t \in DOMAIN pend THEN pend[t] ELSE None
Call == /\ Is("call") /\ Pend(Ev.t).st = "none"
        /\ pend' = Put(pend, Ev.t, [st |-> "called", ev |-> Ev, v |-> FALSE])
        /\ c' = (IF Ev.op = "send" /\ Ev.ready THEN IF Ev.bad THEN Spoil(c, Ev.id) ELSE Fulfil(c, Ev.id) ELSE c)
        /\ Consume
Done(t) == pend' = Put(pend, t, [pend[t] EXCEPT !.st = "done"])
(* An operation takes effect.  It is enough to let operations take effect at the *)
(* last moment, just before one of them returns.                                 *)
Effect(t) ==
  LET e == pend[t].ev IN
  CASE e.op = "send" -> c' = Send(c, e.id) /\ Done(t)
    [] e.op = "recv" -> c' = Receive(c, e.id, FALSE) /\ Done(t)
    [] e.op = "all" ->
         IF pend[t].st = "retry" THEN c' = Receive(c, e.id, TRUE) /\ Done(t)
         ELSE IF ~c.cr \/ c.queue # <<>> THEN c' = RecvAllNow(c, e.id) /\ Done(t)
         ELSE c' = c /\ pend' = Put(pend, t, [pend[t] EXCEPT !.st = "retry"])
    [] e.op = "closesend" -> c' = CloseSend(c) /\ Done(t)
    [] e.op = "closerecv" -> c' = CloseReceive(c) /\ Done(t)
    [] e.op = "free" -> c' = Free(c) /\ Done(t)
    [] e.op = "fulfil" -> c' = Fulfil(c, e.arg) /\ Done(t)
    [] e.op = "spoil" -> c' = Spoil(c, e.arg) /\ Done(t)
    [] e.op = "drop" -> c' = c /\ Done(t)
    [] e.op = "query" -> c' = c /\ pend' = Put(pend, t, [pend[t] EXCEPT !.st = "seen", !.v = <<c.cs, c.cr>>])
Settled == Pend(Ev.t).st \in {"done", "seen"} /\ (Ev.o # "P" => Ev.o \in View(c, Ev.id))
Lin == /\ Is("ret") /\ ~Settled
       /\ \E t \in DOMAIN pend : pend[t].st \in {"called", "retry"} /\ Effect(t)
       /\ Stay
Ret == /\ Is("ret")
       /\ LET p == Pend(Ev.t) IN p.st = "done" \/ (p.st = "seen" /\ Ev.v = p.v[Ev.which + 1])
       /\ Settled
       /\ pend' = Put(pend, Ev.t, None) /\ UNCHANGED c /\ Consume
(* everything is quiet: the futures show exactly what the specification says *)
Snap == /\ Is("snap") /\ \A t \in DOMAIN pend : pend[t].st = "none"
        /\ \A k \in 1..Len(Ev.r) : Ev.r[k][1] \in Known(c) /\ Ev.r[k][2] \in View(c, Ev.r[k][1])
        /\ UNCHANGED <<c, pend>> /\ Consume
End == Is("end") /\ Ev.leak = 0 /\ UNCHANGED <<c, pend>> /\ Consume
Next == Call \/ Lin \/ Ret \/ Snap \/ End
Spec == Init /\ [][Next]_vars
Inv == ChannelInv(c)
==============================================================================
