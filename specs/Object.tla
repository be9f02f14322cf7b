------------------------------- MODULE Object -------------------------------
(* Reference counted objects and weak references.                             *)
(*   cnt   object -> number of strong references                              *)
(*   dead  objects whose last reference is gone                               *)
(*   fin   objects that have been finalized                                   *)
(*   tgt   weak reference -> object or 0                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
NewHeap(objs, weaks) == [ cnt |-> [o \in objs |-> 1], dead |-> {}, fin |-> {}, tgt |-> [w \in weaks |-> 0] ]
Alive(h, o) == o # 0 /\ o \notin h.dead
Ref(h, o) == [h EXCEPT !.cnt[o] = @ + 1]
(* the last reference goes: no weak reference ever yields the object again *)
Unref(h, o) ==
  IF h.cnt[o] > 1 THEN [h EXCEPT !.cnt[o] = @ - 1]
  ELSE [h EXCEPT !.cnt[o] = 0, !.dead = @ \cup {o}, !.tgt = [w \in DOMAIN @ |-> IF @[w] = o THEN 0 ELSE @[w]]]
Got(h, w) == h.tgt[w]
Get(h, w) == IF Got(h, w) = 0 THEN h ELSE Ref(h, Got(h, w))
Point(h, w, o) == [h EXCEPT !.tgt[w] = o]
Finalize(h, o) == [h EXCEPT !.fin = @ \cup {o}]
MayFinalize(h, o) == o \in h.dead /\ o \notin h.fin
HeapInv(h) ==
  /\ \A o \in DOMAIN h.cnt : h.cnt[o] = 0 <=> o \in h.dead
  /\ h.fin \subseteq h.dead
  /\ \A w \in DOMAIN h.tgt : h.tgt[w] \notin h.dead
=============================================================================
