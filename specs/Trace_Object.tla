---------------------------- MODULE Trace_Object ----------------------------
(* Explains recorded runs.  Setting and clearing a weak reference may hold the  *)
(* old target for the duration of the call.                                     *)
EXTENDS Object, TraceBase
VARIABLES h, pend
vars == <<tid, i, h, pend>>
Put(f, k, v) == (k :> v) @@ f
None == [st |-> "none"]
Init == /\ tid \in 1..Len(Traces) /\ i = 3
        /\ h = NewHeap(1..Traces[tid][2].objs, 1..Traces[tid][2].weaks)
        /\ pend = [t \in {} |-> None]
Pend(t) == IF t \in DOMAIN pend THEN pend[t] ELSE None
Call == /\ Is("call") /\ Pend(Ev.t).st = "none"
        /\ pend' = Put(pend, Ev.t, [st |-> "called", ev |-> Ev, held |-> 0, v |-> 0])
        /\ UNCHANGED h /\ Consume
To(t, p) == pend' = Put(pend, t, p)
Drop(hh, o) == IF o = 0 THEN hh ELSE Unref(hh, o)
Effect(t) ==
  LET p == pend[t]  e == p.ev IN
  CASE e.op = "ref" -> h' = Ref(h, e.o) /\ To(t, [p EXCEPT !.st = "done"])
    [] e.op = "unref" -> h' = Unref(h, e.o) /\ To(t, [p EXCEPT !.st = "done"])
    [] e.op = "get" -> h' = Get(h, e.w) /\ To(t, [p EXCEPT !.st = "done", !.v = Got(h, e.w)])
    [] e.op \in {"set", "clear"} ->
         LET old == Got(h, e.w) IN
         \/ p.st = "called" /\ h' = Get(h, e.w) /\ To(t, [p EXCEPT !.st = "held", !.held = old])
         \/ p.st = "held" /\ h' = Point(h, e.w, e.o) /\ To(t, [p EXCEPT !.st = "moved"])
         \/ p.st = "moved" /\ h' = Drop(h, p.held) /\ To(t, [p EXCEPT !.st = "done"])
Settled == Pend(Ev.t).st = "done" /\ Ev.v = pend[Ev.t].v
(* operations take effect as late as possible: before a return or a finalization *)
Lin == /\ (Is("ret") /\ ~Settled) \/ (Is("fin") /\ ~MayFinalize(h, Ev.o))
       /\ \E t \in DOMAIN pend : pend[t].st \in {"called", "held", "moved"} /\ Effect(t)
       /\ Stay
Ret == Is("ret") /\ Settled /\ pend' = Put(pend, Ev.t, None) /\ UNCHANGED h /\ Consume
Fin == Is("fin") /\ MayFinalize(h, Ev.o) /\ h' = Finalize(h, Ev.o) /\ UNCHANGED pend /\ Consume
Snap == /\ Is("snap") /\ \A t \in DOMAIN pend : pend[t].st = "none"
        /\ h.fin = h.dead
        /\ \A k \in 1..Len(Ev.w) : h.tgt[k] = Ev.w[k]
        /\ UNCHANGED <<h, pend>> /\ Consume
End == Is("end") /\ Ev.leak = 0 /\ h.fin = DOMAIN h.cnt /\ UNCHANGED <<h, pend>> /\ Consume
Next == Call \/ Lin \/ Ret \/ Fin \/ Snap \/ End
Spec == Init /\ [][Next]_vars
Inv == HeapInv(h)
=============================================================================
