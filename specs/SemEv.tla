------------------------------- MODULE SemEv -------------------------------
(* The semaphore where an eventfd counts: the same promises as Sem, but for the *)
(* order, which is up to the kernel.  A post may wake waits as soon as it has    *)
(* begun.                                                                        *)
(*   posts  made so far       on  wait -> its scheduler    done  waits completed *)
EXTENDS Integers, FiniteSets, TLC
NewSem == [ posts |-> 0, on |-> <<>>, done |-> {} ]
Wait(s, id, k) == [s EXCEPT !.on = (id :> k) @@ @]
Post(s, n) == [s EXCEPT !.posts = @ + n]
CanDone(s, id, t) == id \in DOMAIN s.on /\ id \notin s.done /\ s.on[id] = t /\ Cardinality(s.done) < s.posts
Done(s, id) == [s EXCEPT !.done = @ \cup {id}]
Served(s) == LET w == Cardinality(DOMAIN s.on) IN IF s.posts < w THEN s.posts ELSE w
Quiet(s) == Cardinality(s.done) = Served(s)
SemInv(s) == s.done \subseteq DOMAIN s.on /\ Cardinality(s.done) <= s.posts
=============================================================================
