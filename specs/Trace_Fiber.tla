---------------------------- MODULE Trace_Fiber ----------------------------
(* Explains runs of real fibers.                                               *)
EXTENDS Fiber, Stack, Integers, TraceBase
VARIABLES s, st, ask     \* ask: thread -> was it complete when asked for outside a fiber
vars == <<tid, i, s, st, ask>>
Init == tid \in 1..Len(Traces) /\ i = 3 /\ Traces[tid][2].e = "cfg" /\ s = NewFibers(Traces[tid][2].loops) /\ ask = <<>> /\ st = NewStacks
Sched == Cardinality({k \in DOMAIN s.loops : s.loops[k] > 0}) + (IF \E f \in DOMAIN s.fibers : s.fibers[f].k = 0 THEN 8 ELSE 0)
Inner(f) == IF CanStep(s, f) THEN s' = Step(s, f) ELSE CanEnd(s, f) /\ EndOk(s, f) /\ s' = Ended(s, f)
Settle(x) == \/ CanGive(s, x) /\ s.futs[x].kind = "promise" /\ s' = Give(s, x, s.futs[x].going)
             \/ \E t \in s.futs[x].adding : s' = DepLin(s, x, t)
             \/ \E t \in s.futs[x].dropping, c \in {FALSE, TRUE} : s' = DropLin(s, x, t, c)
Next1 == \/ Is("fut") /\ s' = NewFut(s, Ev.id) /\ Consume
         \/ Is("spawn") /\ s' = Spawn(s, Ev.id, Ev.k) /\ Consume
         \/ Is("spawned") /\ s' = s /\ Consume
         \/ Is("await") /\ Running(s, Ev.id, Ev.t) /\ s' = Await(s, Ev.id, Ev.x, "await") /\ Consume
         \/ Is("awaited") /\ CanAwaited(s, Ev.id, Ev.t, Ev.o) /\ s' = Awaited(s, Ev.id, Ev.t) /\ Consume
         \/ Is("return") /\ Running(s, Ev.id, Ev.t) /\ s' = (IF Ev.x = 0 THEN Return(s, Ev.id, Ev.o) ELSE Await(s, Ev.id, Ev.x, "ret")) /\ Consume
         \/ Is("complete") /\ s' = Complete(s, Ev.id, Ev.o) /\ Consume
         \/ Is("completed") /\ Done(s, Ev.id) /\ s' = s /\ Consume
         \/ Is("dep") /\ s' = Dep(s, Ev.id, Ev.t) /\ Consume
         \/ Is("depd") /\ Ev.t \notin s.futs[Ev.id].adding /\ s' = s /\ Consume
         \/ Is("drop") /\ s' = Drop(s, Ev.id, Ev.t) /\ Consume
         \/ Is("dropped") /\ Ev.t \notin s.futs[Ev.id].dropping /\ s' = s /\ Consume
         \/ Is("push") /\ s' = Push(s, Ev.id, Ev.k) /\ Consume
         \/ Is("pushed") /\ s' = Pushed(s, Ev.id) /\ Consume
         \/ Is("item") /\ CanItem(s, Ev.id, Ev.t) /\ s' = Item(s, Ev.id) /\ Consume
         \/ Is("quiet") /\ Quiet(s) /\ DOMAIN s.futs = 1..Len(Ev.o) /\ (\A x \in DOMAIN s.futs : Ev.o[x] = s.futs[x].o) /\ Moderate(st, Ev.stacks, Sched) /\ s' = s /\ Consume
         \/ Is("still") /\ DOMAIN s.futs = 1..Len(Ev.o) /\ (\A x \in DOMAIN s.futs : Ev.o[x] = s.futs[x].o) /\ Moderate(st, Ev.stacks, Sched) /\ s' = s /\ Consume
         \/ Is("end") /\ Ev.leak = 0 /\ Ev.stacks = 0 /\ (\A f \in DOMAIN s.fibers : s.fibers[f].st = "gone") /\ s' = s /\ Consume
         \/ More /\ Stay /\ \E f \in DOMAIN s.fibers : Inner(f)
         \/ More /\ Stay /\ \E x \in DOMAIN s.futs : Settle(x)
Next ==  \/ Next1 /\ UNCHANGED <<ask, st>>
         \/ Is("start") /\ CanStart(s, Ev.id, Ev.t) /\ CanTake(st, Ev.stk, Ev.want, Ev.room, Ev.guard)
            /\ s' = Start(s, Ev.id, Ev.t) /\ st' = Take(st, Ev.id, Ev.stk) /\ UNCHANGED ask /\ Consume
         \/ Is("destroy") /\ CanDestroy(s, Ev.id, Ev.t) /\ s' = Destroy(s, Ev.id, Ev.t) /\ st' = Leave(st, Ev.id) /\ UNCHANGED ask /\ Consume
         \/ Is("nofiber") /\ UNCHANGED st /\ ask' = Put(ask, Ev.t, Done(s, Ev.x)) /\ s' = s /\ Consume
         \/ Is("nofibered") /\ (IF Ev.o = "E:NO_FIBER" THEN ~ask[Ev.t] ELSE Done(s, Ev.x) /\ Ev.o = s.futs[Ev.x].o) /\ s' = s /\ Consume /\ UNCHANGED <<ask, st>>
Spec == Init /\ [][Next]_vars
Inv == FiberInv(s) /\ StackInv(st)
=============================================================================
