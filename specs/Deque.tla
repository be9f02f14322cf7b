-------------------------------- MODULE Deque --------------------------------
(* The work stealing queue as its users see it: the owner pushes and pops at    *)
(* the bottom, thieves take from the top.  Every item comes out exactly once.   *)
(*   q     items, top first       in    pushed, in order                        *)
(*   out   taken items            takes how many have been taken                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
NewDeque == [ q |-> <<>>, pushed |-> {}, out |-> {}, takes |-> 0 ]
Push(d, x) == [d EXCEPT !.q = Append(@, x), !.pushed = @ \cup {x}]
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Pop(d) == [d EXCEPT !.q = Front(@), !.out = @ \cup {Last(d.q)}, !.takes = @ + 1]
Steal(d) == [d EXCEPT !.q = Tail(@), !.out = @ \cup {Head(d.q)}, !.takes = @ + 1]
Elems(s) == { s[n] : n \in 1..Len(s) }
DequeInv(d) == /\ Cardinality(d.out) = d.takes                  \* nothing twice
               /\ d.pushed = d.out \cup Elems(d.q)              \* nothing lost or invented
               /\ d.out \cap Elems(d.q) = {}
==============================================================================
