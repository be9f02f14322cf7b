------------------------------ MODULE MC_SemEv ------------------------------
(* The algorithm: a counter, reads which wait for it, each of which takes one    *)
(* and completes on the ring of its scheduler, which reports it in its own time. *)
EXTENDS SemEv
CONSTANTS Ks, MaxOps, MaxPost
VARIABLES s, n, counter, reads, rings
vars == <<s, n, counter, reads, rings>>
Init == s = NewSem /\ n = 0 /\ counter = 0 /\ reads = {} /\ rings = [k \in Ks |-> {}]
DoWait == \E k \in Ks : /\ n < MaxOps /\ n' = n + 1 /\ s' = Wait(s, n + 1, k)
                        /\ reads' = reads \cup {n + 1} /\ UNCHANGED <<counter, rings>>
DoPost == \E c \in 1..MaxPost : /\ n < MaxOps /\ n' = n + 1 /\ s' = Post(s, c)
                               /\ counter' = counter + c /\ UNCHANGED <<reads, rings>>
Take == \E r \in reads : /\ counter > 0 /\ counter' = counter - 1 /\ reads' = reads \ {r}
                         /\ rings' = [rings EXCEPT ![s.on[r]] = @ \cup {r}] /\ UNCHANGED <<s, n>>
Tell == \E k \in Ks : \E r \in rings[k] :
          /\ CanDone(s, r, k) /\ s' = Done(s, r)
          /\ rings' = [rings EXCEPT ![k] = @ \ {r}] /\ UNCHANGED <<n, counter, reads>>
Next == DoWait \/ DoPost \/ Take \/ Tell
Spec == Init /\ [][Next]_vars
(* nothing left to do within: everybody is served who can be, and every completion was allowed *)
Idle == (counter = 0 \/ reads = {}) /\ \A k \in Ks : rings[k] = {}
Inv == /\ SemInv(s) /\ (Idle => Quiet(s))
       /\ \A k \in Ks : \A r \in rings[k] : CanDone(s, r, k)
=============================================================================
