------------------------------ MODULE MC_Fiber ------------------------------
(* Fibers on a few loops, promises completed and dependents dropped from        *)
(* outside, every order of everything.  Own: each fiber has a loop of its own.   *)
(*   due   fiber -> it asked for something pending after it was discarded        *)
EXTENDS Fiber
CONSTANTS Own, Acts, MaxP, MaxF, MaxOps
VARIABLES s, due, hist, nops
vars == <<s, due, hist, nops>>
Init == s = NewFibers(IF Own THEN [k \in 1..MaxF |-> k] ELSE <<1>>) /\ due = {} /\ hist = (IF Own THEN ToString(MaxF) ELSE "1") \o ";" /\ nops = 0
New == Cardinality(DOMAIN s.futs) + 1
Fibers == DOMAIN s.fibers
Promises == DOMAIN s.futs \ Fibers
T(f) == s.loops[s.fibers[f].k]
(* the outside is one thread, which is called 0 *)
Busy == \E x \in DOMAIN s.futs : 0 \in s.futs[x].adding \cup s.futs[x].dropping \/ (x \in Promises /\ s.futs[x].going # "")
Op(h) == nops < MaxOps /\ nops' = nops + 1 /\ hist' = hist \o h \o " "
Env(h) == Op(h) /\ ~Busy /\ UNCHANGED due
NewPromise == Cardinality(Promises) < MaxP /\ Env("p") /\ s' = NewFut(s, New)
NewFiber == Cardinality(Fibers) < MaxF /\ LET k == IF Own THEN Cardinality(Fibers) + 1 ELSE 1 IN Env("f" \o ToString(k)) /\ s' = Spawn(s, New, k)
Resolve(x) == ~Done(s, x) /\ Env("c" \o ToString(x)) /\ s' = Complete(s, x, "i" \o ToString(x))
Reject(x) == "two" \in Acts /\ ~Done(s, x) /\ Env("C" \o ToString(x)) /\ s' = Complete(s, x, "E:x" \o ToString(x))
AddDep(f) == "dep" \in Acts /\ s.futs[f].deps < 2 /\ Env("d" \o ToString(f)) /\ s' = Dep(s, f, 0)
DropDep(f) == s.futs[f].deps > 0 /\ Env("u" \o ToString(f)) /\ s' = Drop(s, f, 0)
Ask(f, x, how) == /\ x # f /\ x \in DOMAIN s.futs /\ (x \in Fibers => x > f) /\ Running(s, f, T(f)) /\ s.futs[f].going = ""
                  /\ Op((IF how = "await" THEN "a" ELSE "r") \o ToString(f) \o "." \o ToString(x)) /\ s' = Await(s, f, x, how)
                  /\ due' = IF s.futs[f].canc THEN due \cup {f} ELSE due
Leave(f, h) == /\ Running(s, f, T(f)) /\ s.futs[f].going = "" /\ Op("R" \o ToString(f) \o "." \o ToString(h)) /\ UNCHANGED due
               /\ s' = Return(s, f, IF h = 0 THEN "E:FIBER_EXITED" ELSE IF h = 1 THEN "E:x" \o ToString(f) ELSE "i" \o ToString(f))
Inner == \/ \E f \in Fibers : \/ CanStart(s, f, T(f)) /\ s' = Start(s, f, T(f)) /\ UNCHANGED due
                              \/ CanStep(s, f) /\ s' = Step(s, f) /\ UNCHANGED due
                              \/ CanEnd(s, f) /\ EndOk(s, f) /\ s' = Ended(s, f) /\ due' = due \ {f}
                              \/ CanAwaited(s, f, T(f), Got(s, f)) /\ s' = Awaited(s, f, T(f)) /\ due' = due \ {f}
                              \/ CanDestroy(s, f, T(f)) /\ s' = Destroy(s, f, T(f)) /\ UNCHANGED due
         \/ \E x \in Promises : CanGive(s, x) /\ s' = Give(s, x, s.futs[x].going) /\ UNCHANGED due
         \/ \E x \in Fibers : UNCHANGED due /\ IF 0 \in s.futs[x].adding THEN s' = DepLin(s, x, 0) ELSE 0 \in s.futs[x].dropping /\ s' = DropLin(s, x, 0, FALSE)
Next == \/ NewPromise \/ NewFiber
        \/ \E x \in Promises : Resolve(x) \/ Reject(x)
        \/ \E f \in Fibers : \/ AddDep(f) \/ DropDep(f)
                             \/ \E x \in DOMAIN s.futs : Ask(f, x, "await") \/ Ask(f, x, "ret")
                             \/ \E h \in (IF "two" \in Acts THEN 0..2 ELSE {2}) : Leave(f, h)
        \/ Inner /\ UNCHANGED <<hist, nops>>
Spec == Init /\ [][Next]_vars
(* if nothing can move by itself then nobody waits in vain; with one loop the  *)
(* fiber that is running may keep the others from it                           *)
Still == ~Busy /\ \A f \in Fibers : ~CanStep(s, f) /\ ~(CanEnd(s, f) /\ EndOk(s, f)) /\ ~CanAwaited(s, f, T(f), Got(s, f)) /\ ~CanStart(s, f, T(f)) /\ ~CanDestroy(s, f, T(f))
Kept(f) == \E g \in Fibers \ {f} : s.fibers[g].st = "run" /\ T(g) = T(f)
NoneForgotten == Still => \A f \in Fibers : \/ s.fibers[f].st \in {"gone", "run"} \/ Kept(f)
                                            \/ Awaiting(s, f) /\ s.fibers[f].ph = "wait" /\ ~Done(s, s.fibers[f].x)
Cancelled == \A f \in Fibers : (s.fibers[f].ph = "canc" => s.futs[f].canc) /\ (f \in due => s.fibers[f].ph # "wait")
OneAtATime == \A f, g \in Fibers : f # g /\ s.fibers[f].st = "run" /\ s.fibers[g].st = "run" => T(f) # T(g)
Inv == FiberInv(s) /\ NoneForgotten /\ Cancelled /\ OneAtATime
NoHist == <<s, due, nops>>
Emit == PrintT(<<"SCRIPT", hist'>>)
=============================================================================
