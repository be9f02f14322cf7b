----------------------------- MODULE Trace_Pair -----------------------------
(* Explains recorded runs of real async pairs.  A delivery first looks whether   *)
(* the operation was cancelled and then completes; letting go first decides that *)
(* nobody awaits the pair and then cancels it.                                   *)
EXTENDS Pair, TraceBase
VARIABLES s, pend    \* pend: operation -> [ev, st: steps done, o: what it has found out]
vars == <<tid, i, s, pend>>
Init == tid \in 1..Len(Traces) /\ i = 2 /\ s = NewPairs /\ pend = <<>>
Steps(op) == IF op \in {"deliver", "unwant"} THEN 2 ELSE 1
Begin == Is("call") /\ Ev.id \notin DOMAIN pend /\ pend' = Put(pend, Ev.id, [ev |-> Ev, st |-> 0, o |-> ""]) /\ UNCHANGED s /\ Consume
Done(id) == pend[id].st = Steps(pend[id].ev.op)
Effect(id) ==
  LET e == pend[id].ev  p == pend[id] IN
  /\ ~Done(id) /\ (e.op # "new" => e.x \in Xs(s))
  /\ s' = CASE e.op = "new" -> New(s, e.x)
            [] e.op = "cancel" -> Cancel(s, e.x)
            [] e.op = "cod" -> SetCod(s, e.x, e.b = 1)
            [] e.op = "return" -> Complete(s, e.x, e.o)
            [] e.op = "want" -> Want(s, e.x, e.d)
            [] e.op = "deliver" -> IF p.st = 0 THEN s ELSE Complete(s, e.x, p.o)
            [] e.op = "unwant" -> IF p.st = 0 THEN Unwant(s, e.x, e.d) ELSE IF p.o = "1" THEN Discard(s, e.x) ELSE s
            [] OTHER -> s
  /\ LET o == CASE e.op = "deliver" /\ p.st = 0 -> Delivered(s, e.x, e.o)
                [] e.op = "unwant" /\ p.st = 0 -> IF Unwanted(s, e.x, e.d) THEN "1" ELSE "0"
                [] e.op = "see" -> See(s, e.x)
                [] e.op = "look" -> Look(s, e.x)
                [] OTHER -> p.o
     IN pend' = [pend EXCEPT ![id].st = @ + 1, ![id].o = o]
Need == Is("ret") /\ ~Done(Ev.id)
Lin == Need /\ (\E id \in DOMAIN pend : Effect(id)) /\ Stay
Ret == /\ Is("ret") /\ Done(Ev.id) /\ (pend[Ev.id].ev.op \in {"see", "look"} => Ev.o = pend[Ev.id].o)
       /\ pend' = [x \in DOMAIN pend \ {Ev.id} |-> pend[x]] /\ UNCHANGED s /\ Consume
End == Is("end") /\ Ev.leak = 0 /\ DOMAIN pend = {} /\ UNCHANGED <<s, pend>> /\ Consume
Next == Begin \/ Ret \/ End \/ Lin
Spec == Init /\ [][Next]_vars
Inv == \A x \in Xs(s) : s.p[x].dec = Cancelled => s.p[x].canc
=============================================================================
