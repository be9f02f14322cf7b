----------------------------- MODULE Trace_Value -----------------------------
(* Explains recorded runs: what real typed futures were given and gave back.     *)
EXTENDS Value, TraceBase
VARIABLES s, pend
vars == <<tid, i, s, pend>>
Init == tid \in 1..Len(Traces) /\ i = 2 /\ s = NewValues /\ pend = <<>>
Begin == Is("call") /\ Ev.id \notin DOMAIN pend /\ pend' = Put(pend, Ev.id, [ev |-> Ev, done |-> FALSE, o |-> <<>>]) /\ UNCHANGED s /\ Consume
Effect(id) ==
  LET e == pend[id].ev IN
  /\ ~pend[id].done
  /\ (e.op \in {"resolve", "await"} => e.f \in Fs(s))
  /\ (e.op = "await" => (e.fiber = 1 => s.f[e.f].st # "P"))
  /\ pend' = [pend EXCEPT ![id].done = TRUE, ![id].o = IF e.op # "await" THEN <<>> ELSE IF s.f[e.f].st = "P" THEN Unready(e.k) ELSE Yields(s, e.f, e.k)]
  /\ s' = CASE e.op = "new" -> New(s, e.f, e.ty, e.c)
            [] e.op = "promise" -> Promise(s, e.f)
            [] e.op = "resolve" -> Resolve(s, e.f, e.ty, e.c)
            [] e.op = "await" -> s
Need == Is("ret") /\ ~pend[Ev.id].done
(* only what concerns the same future; an await of another thread only if it may have come too early *)
Early(id) == LET e == pend[id].ev IN e.op = "await" => (e.fiber = 0 /\ IF e.f \in Fs(s) THEN s.f[e.f].st = "P" ELSE FALSE)
Lin == Need /\ (\E id \in DOMAIN pend : pend[id].ev.f = pend[Ev.id].ev.f /\ (id # Ev.id => Early(id)) /\ Effect(id)) /\ Stay
Ret == /\ Is("ret") /\ pend[Ev.id].done
       /\ (pend[Ev.id].ev.op = "await" => Ev.r = pend[Ev.id].o.r /\ Ev.err = pend[Ev.id].o.e)
       /\ pend' = [x \in DOMAIN pend \ {Ev.id} |-> pend[x]] /\ UNCHANGED s /\ Consume
End == Is("end") /\ Ev.leak = 0 /\ DOMAIN pend = {} /\ UNCHANGED <<s, pend>> /\ Consume
Next == Begin \/ Ret \/ End \/ Lin
Spec == Init /\ [][Next]_vars
Inv == \A f \in Fs(s) : s.f[f].st = "E" <=> s.f[f].ty = "error"
==============================================================================
