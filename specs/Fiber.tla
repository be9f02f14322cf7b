------------------------------- MODULE Fiber -------------------------------
(* Fibers, the futures they await, and the loops they run on.                   *)
(*   loops   loop -> its thread                                                 *)
(*   futs    id -> [ kind, o: outcome or "P", going: what it is being completed  *)
(*                   with or "", ws: fibers waiting, deps: other dependents,     *)
(*                   canc: a fiber that was discarded, dropping and adding:      *)
(*                   threads which drop, add a dependent just now ]              *)
(*   fibers  id -> [ k: loop (0: the pool), t: thread, st, x: what it awaits, ph ]*)
(*     st  "new" "run" "await" "ret" (returned a future that is awaited) "end"   *)
(*         (completed) "gone" (its closure is freed)                            *)
(*     ph  how far an await is: "check" the status, "seen" pending, "look" not   *)
(*         cancelled, then "now" (complete: goes on at once), "wait", "canc"     *)
(*   cur     thread -> the fiber that runs there, 0 if none                      *)
(*   items   id -> [ k, st, n: fiber -> times it got the thread ]                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NewFibers(tids) == [ loops |-> tids, futs |-> <<>>, fibers |-> <<>>, cur |-> <<>>, items |-> <<>> ]
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f
Fut(kind) == [kind |-> kind, o |-> "P", going |-> "", ws |-> {}, deps |-> 0, canc |-> FALSE, dropping |-> {}, adding |-> {}]
Cur(s, t) == At(s.cur, t, 0)
Suspended(s, f) == s.fibers[f].ph \in {"wait", "canc"}
(* somebody else may run on t: nobody is in the middle of something *)
Free(s, t) == Cur(s, t) # 0 => Suspended(s, Cur(s, t))
(* a fiber runs on the thread of its loop, on the pool always on the same one *)
Home(s, f, t) == IF s.fibers[f].k = 0 THEN s.fibers[f].t \in {-1, t} /\ \A k \in DOMAIN s.loops : s.loops[k] # t
                 ELSE s.loops[s.fibers[f].k] = t
(* a fiber gets the thread: work that waits there must not wait for ever *)
CanSwitch(s, f, t) == Home(s, f, t) /\ (Cur(s, t) # f => Free(s, t))
                      /\ \A it \in DOMAIN s.items : s.items[it].k = s.fibers[f].k /\ s.items[it].st = "pushed" => At(s.items[it].n, f, 0) < 3
Switch(s, f, t) == [s EXCEPT !.cur = Put(@, t, f), !.fibers[f].t = t,
                             !.items = [it \in DOMAIN @ |-> IF @[it].k = s.fibers[f].k /\ @[it].st = "pushed" THEN [@[it] EXCEPT !.n = Put(@, f, At(@, f, 0) + 1)] ELSE @[it]]]

NewFut(s, id) == [s EXCEPT !.futs = Put(@, id, Fut("promise"))]
Spawn(s, id, k) == [s EXCEPT !.futs = Put(@, id, Fut("fiber")), !.fibers = Put(@, id, [k |-> k, t |-> -1, st |-> "new", x |-> 0, ph |-> ""])]
CanStart(s, f, t) == f \in DOMAIN s.fibers /\ s.fibers[f].st = "new" /\ CanSwitch(s, f, t)
Start(s, f, t) == [Switch(s, f, t) EXCEPT !.fibers[f].st = "run"]

Running(s, f, t) == f \in DOMAIN s.fibers /\ s.fibers[f].st = "run" /\ Cur(s, t) = f /\ Home(s, f, t)
Await(s, f, x, how) == [s EXCEPT !.fibers[f].st = how, !.fibers[f].x = x, !.fibers[f].ph = "check"]
Awaiting(s, f) == s.fibers[f].st \in {"await", "ret"}
Done(s, x) == s.futs[x].o # "P"
(* the three steps of an await *)
CanStep(s, f) == Awaiting(s, f) /\ s.fibers[f].ph \in {"check", "seen", "look"}
Step(s, f) == LET fb == s.fibers[f] IN
  CASE fb.ph = "check" -> [s EXCEPT !.fibers[f].ph = IF Done(s, fb.x) THEN "now" ELSE "seen"]
    [] fb.ph = "seen"  -> [s EXCEPT !.fibers[f].ph = IF s.futs[f].canc THEN "canc" ELSE "look"]
    [] fb.ph = "look"  -> [s EXCEPT !.fibers[f].ph = "wait", !.futs[fb.x].ws = IF Done(s, fb.x) THEN @ ELSE @ \cup {f}]
(* what an await is going to give, "P" if nothing yet *)
Got(s, f) == IF s.fibers[f].ph = "canc" THEN "E:FIBER_CANCELLED" ELSE IF s.fibers[f].ph \in {"now", "wait"} THEN s.futs[s.fibers[f].x].o ELSE "P"
CanAwaited(s, f, t, o) == /\ f \in DOMAIN s.fibers /\ s.fibers[f].st = "await" /\ Got(s, f) # "P" /\ o = Got(s, f)
                          /\ IF s.fibers[f].ph = "now" THEN Cur(s, t) = f /\ Home(s, f, t) ELSE CanSwitch(s, f, t)
Awaited(s, f, t) == LET r == [s EXCEPT !.fibers[f].st = "run", !.fibers[f].x = 0, !.fibers[f].ph = ""]
                    IN IF s.fibers[f].ph = "now" THEN r ELSE [Switch(s, f, t) EXCEPT !.fibers = r.fibers]
(* completion: of a promise by whoever has it, of a fiber by its end *)
Give(s, x, o) == [s EXCEPT !.futs[x].o = o, !.futs[x].ws = {}, !.futs[x].going = ""]
Complete(s, x, o) == [s EXCEPT !.futs[x].going = o]
CanGive(s, x) == s.futs[x].going # "" /\ ~Done(s, x)
Return(s, f, o) == [s EXCEPT !.futs[f].going = o]
CanEnd(s, f) == f \in DOMAIN s.fibers /\ IF s.fibers[f].st = "run" THEN CanGive(s, f) ELSE s.fibers[f].st = "ret" /\ Got(s, f) # "P"
End(s, f) == LET t == s.fibers[f].t
                 o == IF s.fibers[f].st = "ret" THEN Got(s, f) ELSE s.futs[f].going
                 r == [Give(s, f, o) EXCEPT !.fibers[f].st = "end", !.fibers[f].ph = "", !.fibers[f].x = 0]
             IN r
EndOk(s, f) == s.fibers[f].st = "ret" /\ s.fibers[f].ph # "now" => CanSwitch(s, f, s.fibers[f].t)
Ended(s, f) == IF s.fibers[f].st = "ret" /\ s.fibers[f].ph # "now" THEN LET u == Switch(s, f, s.fibers[f].t) IN [End(s, f) EXCEPT !.cur = u.cur, !.items = u.items]
               ELSE End(s, f)
CanDestroy(s, f, t) == f \in DOMAIN s.fibers /\ s.fibers[f].st = "end" /\ Cur(s, t) = f /\ s.fibers[f].t = t
Destroy(s, f, t) == [s EXCEPT !.fibers[f].st = "gone", !.cur[t] = 0]
(* dependents from outside: the last one to go takes the fiber's purpose along *)
Dep(s, x, t) == [s EXCEPT !.futs[x].adding = @ \cup {t}]
DepLin(s, x, t) == [s EXCEPT !.futs[x].deps = @ + 1, !.futs[x].adding = @ \ {t}]
Drop(s, x, t) == [s EXCEPT !.futs[x].dropping = @ \cup {t}]
CanDropLin(s, x, t) == t \in s.futs[x].dropping
Useless(s, x) == ~Done(s, x) /\ s.futs[x].ws = {} /\ s.futs[x].deps <= Cardinality(s.futs[x].dropping)
(* a dependent that is itself on the way out may not count any more: c *)
DropLin(s, x, t, c) == [s EXCEPT !.futs[x].dropping = @ \ {t}, !.futs[x].deps = @ - 1,
                                 !.futs[x].canc = @ \/ (Useless(s, x) /\ (c \/ s.futs[x].deps = 1))]
Push(s, it, k) == [s EXCEPT !.items = Put(@, it, [k |-> k, st |-> "pushing", n |-> <<>>])]
Pushed(s, it) == [s EXCEPT !.items[it].st = IF @ = "pushing" THEN "pushed" ELSE @]
CanItem(s, it, t) == it \in DOMAIN s.items /\ s.items[it].st \in {"pushing", "pushed"} /\ s.loops[s.items[it].k] = t /\ Free(s, t)
Item(s, it) == [s EXCEPT !.items[it].st = "run"]
(* nothing moves any more: who still waits, waits for something pending *)
Quiet(s) == /\ \A x \in DOMAIN s.futs : s.futs[x].going = "" /\ s.futs[x].dropping = {} /\ s.futs[x].adding = {}
            /\ \A it \in DOMAIN s.items : s.items[it].st = "run"
            /\ \A f \in DOMAIN s.fibers : \/ s.fibers[f].st = "gone"
                                          \/ Awaiting(s, f) /\ s.fibers[f].ph = "wait" /\ ~Done(s, s.fibers[f].x)
FiberInv(s) == /\ \A t \in DOMAIN s.cur : s.cur[t] # 0 => s.fibers[s.cur[t]].st # "gone"
               /\ \A f \in DOMAIN s.fibers : /\ s.fibers[f].st \in {"end", "gone"} <=> Done(s, f)
                                             /\ s.fibers[f].ph = "now" => Done(s, s.fibers[f].x)
               /\ \A x \in DOMAIN s.futs : \A f \in s.futs[x].ws : s.fibers[f].x = x /\ s.fibers[f].ph = "wait" /\ ~Done(s, x)
=============================================================================
