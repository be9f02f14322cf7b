-------------------------------- MODULE Pool --------------------------------
(* A thread pool scheduler as its users see it.                                *)
(*   n         number of worker threads      others  threads which are not      *)
(*   ws        worker threads seen so far                                      *)
(*   items     id -> [ k: how it was pushed, by: the pusher, st: state,         *)
(*                     on: worker, ret: the push has ended, pred: in the global *)
(*                     queue for certain when the push began ]                   *)
(*   cur       worker -> the items it runs, innermost last                       *)
(*   over      id -> the workers that can have taken it from the global queue    *)
(*             (a later item has run, they have done nothing else since)         *)
(*   rel       "no", "releasing", "released"                                    *)
(* k: "global" (from outside), "local" (from a worker), "here" (a callback that *)
(* belongs to the worker it was made on), "fiber"                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
NewPool(n) == [ n |-> n, others |-> {}, ws |-> {}, items |-> <<>>, cur |-> <<>>, over |-> <<>>, rel |-> "no" ]
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Other(p, t) == [p EXCEPT !.others = @ \cup {t}]
(* workers come and go with the pool, the number of a thread may be used again *)
CanPush(p, id, t, k) == id \notin DOMAIN p.items /\ (k \in {"local", "here"} => t \notin p.others)
Push(p, id, t, k) == [p EXCEPT !.items = @ @@ (id :> [k |-> k, by |-> t, st |-> "pushing", ret |-> FALSE, on |-> 0,
                               pred |-> IF k # "global" THEN {} ELSE { x \in DOMAIN p.items : p.items[x].k = k /\ p.items[x].st = "queued" }])]
CanPushed(p, id) == id \in DOMAIN p.items /\ ~p.items[id].ret
Pushed(p, id) == [p EXCEPT !.items[id].ret = TRUE, !.items[id].st = IF @ = "pushing" THEN "queued" ELSE @]

IsWorker(p, t) == t \notin p.others /\ (t \in p.ws \/ Cardinality(p.ws) < p.n)
Stack(p, t) == At(p.cur, t, <<>>)
Idle(p, t) == Stack(p, t) = <<>>
(* a worker that does something has taken nothing before it *)
Settled(p, t, s) == [p EXCEPT !.ws = @ \cup {t}, !.cur = (t :> s) @@ @, !.over = [x \in DOMAIN @ |-> @[x] \ {t}]]
Begin(p, t, id) == Settled(p, t, Append(Stack(p, t), id))
End(p, t) == Settled(p, t, SubSeq(Stack(p, t), 1, Len(Stack(p, t)) - 1))
Sleepers(p, t) == { w \in p.ws : w # t /\ Idle(p, w) }
(* The global queue is first in, first out: an earlier item which has not begun *)
(* must have been taken by a worker that does nothing else.        *)
Over2(p, id, t) == LET new == { x \in p.items[id].pred : p.items[x].st = "queued" }
                   IN [ x \in (DOMAIN p.over \ {id}) \cup new |-> IF x \in DOMAIN p.over THEN p.over[x] ELSE Sleepers(p, t) ]
CanRun(p, id, t) ==
  /\ id \in DOMAIN p.items /\ p.items[id].st \in {"pushing", "queued"}          \* exactly once
  /\ p.rel # "released" /\ IsWorker(p, t)
  \* a callback may run while it is being attached, when its future is complete
  /\ IF p.items[id].k = "here" THEN t = p.items[id].by /\ (Idle(p, t) \/ p.items[id].st = "pushing") ELSE Idle(p, t)
  /\ (id \in DOMAIN p.over => t \notin p.ws \/ t \in p.over[id])
  /\ Cardinality(DOMAIN Over2(p, id, t)) <= p.n - 1 - Cardinality({ w \in p.ws : w # t /\ ~Idle(p, w) })
Run(p, id, t) == Begin([p EXCEPT !.items[id].st = "running", !.items[id].on = t, !.items[id].pred = {}, !.over = Over2(p, id, t)], t, id)
CanDone(p, id, t) == ~Idle(p, t) /\ Stack(p, t)[Len(Stack(p, t))] = id /\ p.items[id].st = "running"
Done(p, id, t) == End([p EXCEPT !.items[id].st = "done"], t)
(* a fiber which awaits lets its thread do something else *)
CanSusp(p, id, t) == CanDone(p, id, t) /\ p.items[id].k = "fiber"
Susp(p, id, t) == End([p EXCEPT !.items[id].st = "susp"], t)
CanCont(p, id, t) == id \in DOMAIN p.items /\ p.items[id].st = "susp" /\ p.items[id].on = t /\ Idle(p, t) /\ p.rel # "released"
Cont(p, id, t) == Begin([p EXCEPT !.items[id].st = "running"], t, id)

AllDone(p) == \A x \in DOMAIN p.items : p.items[x].st = "done"
Release(p) == [p EXCEPT !.rel = "releasing"]
(* released: no thread is left, so nothing is half done *)
CanReleased(p, threads) == threads = 0 /\ \A x \in DOMAIN p.items : p.items[x].st # "running"
Released(p) == [p EXCEPT !.rel = "released"]
PoolInv(p) == /\ Cardinality(p.ws) <= p.n /\ p.ws \cap p.others = {}
              /\ \A w \in DOMAIN p.cur : \A x \in { p.cur[w][j] : j \in 1..Len(p.cur[w]) } : p.items[x].st = "running" /\ p.items[x].on = w
=============================================================================
