-------------------------------- MODULE Loop --------------------------------
(* Main schedulers as their users see them: every loop belongs to a thread and  *)
(* runs what was pushed to it, in the order of the pushes.                      *)
(*   owner   loop -> its thread      cur  loop -> the item it runs, 0: none      *)
(*   items   id -> [ k: loop, st: state, pred: queued on that loop for certain     *)
(*                   when the push of id began ]                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
NewLoops(owners) == [ owner |-> owners, items |-> <<>>, cur |-> [k \in DOMAIN owners |-> 0] ]
CanPush(l, id, k) == id \notin DOMAIN l.items /\ k \in DOMAIN l.owner
Push(l, id, k) == [l EXCEPT !.items = @ @@ (id :> [k |-> k, st |-> "pushing", ret |-> FALSE,
                            pred |-> { x \in DOMAIN l.items : l.items[x].k = k /\ l.items[x].st = "queued" }])]
CanPushed(l, id) == id \in DOMAIN l.items /\ ~l.items[id].ret
Pushed(l, id) == [l EXCEPT !.items[id].ret = TRUE, !.items[id].st = IF @ = "pushing" THEN "queued" ELSE @]
CanRun(l, id, t) ==
  /\ id \in DOMAIN l.items /\ l.items[id].st \in {"pushing", "queued"}     \* exactly once
  /\ l.owner[l.items[id].k] = t                                              \* on its own thread
  /\ l.cur[l.items[id].k] = 0                                                \* one after the other
  /\ \A x \in l.items[id].pred : l.items[x].st # "queued"                      \* in order
Run(l, id) == [l EXCEPT !.items[id].st = "running", !.items[id].pred = {}, !.cur[l.items[id].k] = id]
CanDone(l, id, t) == id \in DOMAIN l.items /\ l.items[id].st = "running" /\ l.cur[l.items[id].k] = id /\ l.owner[l.items[id].k] = t
Done(l, id) == [l EXCEPT !.items[id].st = "done", !.cur[l.items[id].k] = 0]
AllDone(l) == \A x \in DOMAIN l.items : l.items[x].st = "done"
LoopInv(l) == \A k \in DOMAIN l.cur : l.cur[k] # 0 => l.items[l.cur[k]].st = "running" /\ l.items[l.cur[k]].k = k
=============================================================================
