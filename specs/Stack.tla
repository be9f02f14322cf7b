------------------------------- MODULE Stack -------------------------------
(* The stacks of fibers, as their users see them: who is on which.              *)
(*   on    fiber -> the stack it runs on (0: not known)                          *)
EXTENDS Integers, FiniteSets, TLC
NewStacks == [on |-> <<>>]
(* a fiber starts on a stack which nobody uses, as large as it asked for, with   *)
(* something below that stops it                                                 *)
CanTake(st, k, want, room, guard) == (k # 0 => \A f \in DOMAIN st.on : st.on[f] # k) /\ room >= want /\ guard = 1
Take(st, f, k) == [st EXCEPT !.on = (f :> k) @@ @]
Leave(st, f) == [st EXCEPT !.on = [g \in DOMAIN @ \ {f} |-> @[g]]]
(* how many may be mapped: those in use and a few spare ones per scheduler       *)
Spare == 17
Moderate(st, mapped, scheds) == mapped <= Cardinality(DOMAIN st.on) + Spare * scheds
StackInv(st) == \A f, g \in DOMAIN st.on : f # g /\ st.on[f] # 0 => st.on[f] # st.on[g]
=============================================================================
