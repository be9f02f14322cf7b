----------------------------- MODULE Trace_Loop -----------------------------
(* Explains runs of real main schedulers: every event must be a step of Loop.    *)
EXTENDS Loop, TraceBase
VARIABLES l
vars == <<tid, i, l>>
Init == tid \in 1..Len(Traces) /\ i = 3 /\ Traces[tid][2].e = "cfg" /\ l = NewLoops(Traces[tid][2].loops)
Next == \/ Is("push") /\ CanPush(l, Ev.id, Ev.k) /\ l' = Push(l, Ev.id, Ev.k) /\ Consume
        \/ Is("pushed") /\ CanPushed(l, Ev.id) /\ l' = Pushed(l, Ev.id) /\ Consume
        \/ Is("run") /\ CanRun(l, Ev.id, Ev.t) /\ l' = Run(l, Ev.id) /\ Consume
        \/ Is("done") /\ CanDone(l, Ev.id, Ev.t) /\ l' = Done(l, Ev.id) /\ Consume
        \/ Is("stop") /\ l' = l /\ Consume
        \/ Is("quiet") /\ AllDone(l) /\ l' = l /\ Consume
        \/ Is("end") /\ Ev.leak = 0 /\ l' = l /\ Consume
Spec == Init /\ [][Next]_vars
Inv == LoopInv(l)
=============================================================================
