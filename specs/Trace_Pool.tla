----------------------------- MODULE Trace_Pool -----------------------------
(* Explains runs of the real thread pool: every event must be a step of Pool.   *)
EXTENDS Pool, TraceBase
(* ps: the pools; a thread that works for one of them is a stranger to the rest *)
VARIABLES ps
vars == <<tid, i, ps>>
Init == tid \in 1..Len(Traces) /\ i = 3 /\ Traces[tid][2].e = "cfg" /\ ps = [q \in 1..Traces[tid][2].pools |-> NewPool(Traces[tid][2].workers)]
p == ps[Ev.q]
Set(v) == ps' = [ps EXCEPT ![Ev.q] = v]
Ran(v) == ps' = [q \in DOMAIN ps |-> IF q = Ev.q THEN v ELSE Other(ps[q], Ev.t)]
New(id) == \A q \in DOMAIN ps : id \notin DOMAIN ps[q].items
Next == \/ Is("other") /\ ps' = [q \in DOMAIN ps |-> Other(ps[q], Ev.t)] /\ Consume
        \/ Is("push") /\ New(Ev.id) /\ CanPush(p, Ev.id, Ev.t, Ev.k) /\ Set(Push(p, Ev.id, Ev.t, Ev.k)) /\ Consume
        \/ Is("pushed") /\ CanPushed(p, Ev.id) /\ Set(Pushed(p, Ev.id)) /\ Consume
        \/ Is("run") /\ CanRun(p, Ev.id, Ev.t) /\ Ran(Run(p, Ev.id, Ev.t)) /\ Consume
        \/ Is("done") /\ CanDone(p, Ev.id, Ev.t) /\ Set(Done(p, Ev.id, Ev.t)) /\ Consume
        \/ Is("susp") /\ CanSusp(p, Ev.id, Ev.t) /\ Set(Susp(p, Ev.id, Ev.t)) /\ Consume
        \/ Is("cont") /\ CanCont(p, Ev.id, Ev.t) /\ Set(Cont(p, Ev.id, Ev.t)) /\ Consume
        \/ Is("quiet") /\ (\A q \in DOMAIN ps : AllDone(ps[q])) /\ ps' = ps /\ Consume
        \/ Is("release") /\ Len(ps) = 1 /\ ps' = [ps EXCEPT ![1] = Release(@)] /\ Consume
        \/ Is("released") /\ CanReleased(ps[1], Ev.threads) /\ ps' = [ps EXCEPT ![1] = Released(@)] /\ Consume
        \* known: the threads are never told to stop, whatever is there still runs
        \/ Is("released") /\ Ev.threads = ps[1].n /\ ps' = [ps EXCEPT ![1].rel = "threads remain"] /\ Consume
        \/ Is("end") /\ (\A q \in DOMAIN ps : ps[q].rel # "threads remain") /\ Ev.leak = 0 /\ ps' = ps /\ Consume
        \/ Is("end") /\ ps[1].rel = "threads remain" /\ AllDone(ps[1]) /\ Ev.others = 0 /\ Finding("pool-threads") /\ ps' = ps /\ Consume
Spec == Init /\ [][Next]_vars
Inv == \A q \in DOMAIN ps : PoolInv(ps[q])
=============================================================================
