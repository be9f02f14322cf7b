------------------------------ MODULE Trace_Gio ------------------------------
(* Explains recorded runs of the real wrappers.                                   *)
EXTENDS Gio, TraceBase
VARIABLES s, pend, out    \* pend: operation -> [ev, st: the steps done, o: what it has found out]; out: those which were delivered
vars == <<tid, i, s, pend, out>>
Init == tid \in 1..Len(Traces) /\ i = 2 /\ s = NewGio /\ pend = <<>> /\ out = {}
Begin == Is("call") /\ Ev.id \notin DOMAIN pend /\ pend' = Put(pend, Ev.id, [ev |-> Ev, st |-> {}, o |-> ""])
         /\ out' = (IF Ev.op = "deliver" THEN out \cup {Ev.x} ELSE out) /\ UNCHANGED s /\ Consume
(* the operation is started with the arguments of the wrapper, once, and can be cancelled *)
Invoke == /\ Is("invoke") /\ Ev.can = 1
          /\ \E id \in DOMAIN pend : LET e == pend[id].ev IN
               /\ e.op = "new" /\ e.x = Ev.x /\ pend[id].st = {} /\ Passed(e.fn, e.args, Ev.fn, Ev.args)
               /\ s' = New(s, e.x, e.fn) /\ pend' = [pend EXCEPT ![id].st = {"f"}]
          /\ UNCHANGED out /\ Consume
Steps(e) == CASE e.op = "deliver" -> Parts(s, e.x) [] e.op \in {"unwant", "drop"} -> {"a", "f"} [] OTHER -> {"f"}
Done(id) == pend[id].st = (IF pend[id].ev.op = "new" THEN {"f"} ELSE Steps(pend[id].ev))
Effect(id, part) ==
  LET e == pend[id].ev  p == pend[id] IN
  /\ e.op # "new" /\ e.x \in Xs(s) /\ part \in Steps(e) \ p.st
  /\ (e.op \in {"unwant", "drop"} /\ part = "f") => "a" \in p.st
  /\ e.op = "deliver" => Ready(s, e.x, part)
  /\ s' = CASE e.op = "want" -> Want(s, e.x, e.d)
            [] e.op = "deliver" -> Deliver(s, e.x, part, e.err = 1, e.o, e.fds)
            [] e.op = "unwant" /\ part = "a" -> Unwant(s, e.x, e.d)
            [] e.op = "drop" /\ part = "a" -> Drop(s, e.x)
            [] e.op \in {"unwant", "drop"} -> IF p.o = "1" THEN Stop(s, e.x) ELSE s
            [] OTHER -> s
  /\ LET o == CASE e.op = "unwant" /\ part = "a" -> IF Unwanted(s, e.x, e.d) /\ Undecided(s, e.x) THEN "1" ELSE "0"
                [] e.op = "drop" /\ part = "a" -> IF Released(s, e.x) /\ Undecided(s, e.x) THEN "1" ELSE "0"
                [] e.op = "see" -> See(s, e.x, e.m)
                [] e.op = "look" -> Look(s, e.x)
                [] OTHER -> p.o
     IN pend' = [pend EXCEPT ![id].st = @ \cup {part}, ![id].o = o]
  /\ UNCHANGED out
(* a set which is just being told of its first member lives until that is done:   *)
(* its second one may be discarded then, or not at all                             *)
Late(id) == LET e == pend[id].ev IN e.op \in {"unwant", "drop"} /\ pend[id].st = {"a"} /\ pend[id].o = "1" /\ IsSet(s, e.x) /\ e.x \in out
Skip(id) == Late(id) /\ pend' = [pend EXCEPT ![id].o = "0"] /\ UNCHANGED <<s, out>>
Orphan(x) == IsSet(s, x) /\ ~s.p[x].held /\ s.p[x].deps = {} /\ x \in out /\ ~s.p[x].canc /\ s' = Stop(s, x) /\ UNCHANGED <<pend, out>>
Need == Is("ret") /\ ~Done(Ev.id)
Lin == Need /\ ((\E id \in DOMAIN pend : \/ \E part \in {"1", "2", "a", "f"} : Effect(id, part)
                                         \/ Skip(id))
                \/ \E x \in Xs(s) : Orphan(x)) /\ Stay
Ret == /\ Is("ret") /\ Done(Ev.id) /\ (pend[Ev.id].ev.op \in {"see", "look"} => Ev.o = pend[Ev.id].o)
       /\ pend' = [x \in DOMAIN pend \ {Ev.id} |-> pend[x]] /\ UNCHANGED <<s, out>> /\ Consume
End == Is("end") /\ Ev.leak = 0 /\ DOMAIN pend = {} /\ UNCHANGED <<s, pend, out>> /\ Consume
Next == Begin \/ Invoke \/ Ret \/ End \/ Lin
Spec == Init /\ [][Next]_vars
Inv == \A x \in Xs(s) : s.p[x].fn \in DOMAIN Wrappers
=============================================================================
