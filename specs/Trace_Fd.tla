------------------------------ MODULE Trace_Fd ------------------------------
(* Explains recorded runs: which descriptors were open when the real boxes,     *)
(* promises and futures were copied, awaited, stolen from and released.          *)
EXTENDS Fd, TraceBase
VARIABLES s, pend
vars == <<tid, i, s, pend>>
Init == tid \in 1..Len(Traces) /\ i = 2 /\ s = NewFds /\ pend = <<>>
Begin == Is("call") /\ Ev.id \notin DOMAIN pend /\ pend' = Put(pend, Ev.id, [ev |-> Ev, done |-> FALSE, k |-> 0, won |-> FALSE]) /\ UNCHANGED s /\ Consume
OnF == {"resolve", "derive", "await", "copy", "peek", "drop"}
Effect(id) ==
  LET e == pend[id].ev IN
  /\ ~pend[id].done /\ (e.op \in OnF => e.f \in DOMAIN s.f)
  /\ s' = CASE e.op = "box" -> Box(s, e.x, e.f)
            [] e.op = "take" -> Take(s, e.f, e.x)
            [] e.op = "promise" -> Promise(s, e.f)
            [] e.op = "open" -> AddRaw(s, e.x)
            [] e.op = "resolve" -> Decide(s, e.f, e.x)
            [] e.op = "derive" -> Derive(s, e.x, e.f)
            [] e.op = "await" -> StealF(s, e.f)
            [] e.op = "copy" -> Box(s, e.x, Holds(s, e.f))
            [] e.op = "peek" -> s
            [] e.op = "drop" -> Drop(s, e.f)
            [] e.op = "dup" -> Box(s, e.f, s.b[e.x])
            [] e.op = "steal" -> StealB(s, e.x)
            [] e.op = "free" -> Free(s, e.x)
  /\ pend' = [pend EXCEPT ![id].done = TRUE, ![id].won = (e.op = "resolve" /\ s.f[e.f] = P), ![id].k = CASE e.op \in {"await", "copy", "peek"} -> Holds(s, e.f)
                                                        [] e.op \in {"dup", "steal"} -> s.b[e.x]
                                                        [] OTHER -> 0]
(* who resolves also tells those that wait *)
Untold(id) == IF pend[id].won THEN Behind(s) \cap Alive(s) \cap Heirs(s, {pend[id].ev.f}) ELSE {}
Need == Is("ret") /\ (~pend[Ev.id].done \/ Untold(Ev.id) # {})
Tell == \E g \in Behind(s) : s' = Pass(s, g) /\ UNCHANGED pend
Lin == Need /\ ((\E id \in DOMAIN pend : Effect(id)) \/ Tell) /\ Stay
Ret == /\ Is("ret") /\ pend[Ev.id].done /\ Untold(Ev.id) = {} /\ Ev.k = pend[Ev.id].k
       /\ pend' = [x \in DOMAIN pend \ {Ev.id} |-> pend[x]] /\ UNCHANGED s /\ Consume
Close == Is("close") /\ s' = CloseRaw(s, Ev.k) /\ UNCHANGED pend /\ Consume
Count == Is("count") /\ DOMAIN pend = {} /\ (\A k \in DOMAIN Ev.n : Least(s, k) <= Ev.n[k] /\ Ev.n[k] <= Most(s, k)) /\ UNCHANGED <<s, pend>> /\ Consume
End == Is("end") /\ Ev.leak = 0 /\ DOMAIN pend = {} /\ UNCHANGED <<s, pend>> /\ Consume
Next == Begin \/ Ret \/ Close \/ Count \/ End \/ Lin
Spec == Init /\ [][Next]_vars
Inv == \A k \in DOMAIN s.raw : s.raw[k] >= 0
=============================================================================
