---------------------------- MODULE Trace_Signal ----------------------------
(* Explains recorded runs of real cancellables and unix signals.               *)
EXTENDS Signal, TraceBase
VARIABLES s, pend, main
vars == <<tid, i, s, pend, main>>
Init == tid \in 1..Len(Traces) /\ i = 2 /\ s = NewSignals /\ pend = <<>> /\ main = 0
Cfg == Is("cfg") /\ main' = Ev.main /\ UNCHANGED <<s, pend>> /\ Consume
Begin == Is("call") /\ Ev.id \notin DOMAIN pend /\ pend' = Put(pend, Ev.id, [ev |-> Ev, done |-> FALSE, o |-> ""]) /\ UNCHANGED <<s, main>> /\ Consume
Effect(id) ==
  LET e == pend[id].ev IN
  /\ ~pend[id].done /\ (e.op \in {"self", "see", "drop"} => e.x \in Fs(s)) /\ pend' = [pend EXCEPT ![id].done = TRUE, ![id].o = IF e.op = "see" THEN s.f[e.x].dec ELSE ""]
  /\ s' = CASE e.op = "new" -> New(s, e.x, e.s, e.o)
            [] e.op = "cancel" -> Cancel(s, e.s)
            [] e.op = "raise" -> Raise(s, e.s)
            [] e.op = "self" -> Self(s, e.x)
            [] e.op = "drop" -> Drop(s, e.x)
            [] e.op = "see" -> s
(* of several calls that cancel the same, it is not known which does the work *)
Ret1 == LET e == pend[Ev.id].ev IN
        IF e.op = "cancel" /\ ~\E id \in DOMAIN pend \ {Ev.id} : pend[id].ev.op = "cancel" /\ pend[id].ev.s = e.s THEN CancelDone(s, e.s) ELSE s
Need == \/ Is("ret") /\ (~pend[Ev.id].done \/ ~Settled(Ret1))
        \/ Is("told") /\ (Ev.x \in Fs(s) => s.f[Ev.x].dec = "")
Useful(x) == Is("ret") => \/ (pend[Ev.id].ev.op = "cancel" /\ s.f[x].src = pend[Ev.id].ev.s)
                         \/ \E id \in DOMAIN pend : ~pend[id].done /\ pend[id].ev.op = "see" /\ pend[id].ev.x = x
Lin == Need /\ (\E id \in DOMAIN pend : Effect(id)) /\ UNCHANGED main /\ Stay
Judge == Need /\ (\E x \in Fs(s) : CanDecide(s, x) /\ (Is("told") => x = Ev.x) /\ Useful(x) /\ s' = Decide(s, x)) /\ UNCHANGED <<pend, main>> /\ Stay
Seen(o) == IF o = "" THEN "P" ELSE o
Ret == /\ Is("ret") /\ pend[Ev.id].done /\ s' = Ret1 /\ Settled(s')
       /\ (pend[Ev.id].ev.op = "see" => Ev.o = Seen(pend[Ev.id].o))
       /\ pend' = [x \in DOMAIN pend \ {Ev.id} |-> pend[x]] /\ UNCHANGED main /\ Consume
(* in whose call, or on which loop, it is told *)
Where(x) == \/ IsSig(s.f[x].src) /\ Ev.t = main
            \/ \E id \in DOMAIN pend : LET e == pend[id].ev IN
                 /\ e.t = Ev.t
                 /\ CASE e.op = "new" -> e.x = x
                      [] e.op = "self" -> e.x = x
                      [] e.op = "cancel" -> e.s = s.f[x].src
                      [] OTHER -> FALSE
Told == /\ Is("told") /\ Ev.x \in Fs(s) /\ s.f[Ev.x].dec = Ev.o /\ ~s.f[Ev.x].told /\ Where(Ev.x)
        /\ s' = Tell(s, Ev.x) /\ UNCHANGED <<pend, main>> /\ Consume
Still == /\ Is("quiet") /\ DOMAIN pend = {} /\ UNCHANGED <<pend, main>>
         /\ LET t == [s EXCEPT !.f = [x \in DOMAIN @ |-> IF @[x].dec = "" /\ @[x].must /\ ~@[x].gone THEN @[x] ELSE @[x]]] IN QuietOk(t, Ev.hs) /\ s' = Quiet(t)
         /\ Consume
End == Is("end") /\ Ev.leak = 0 /\ Ev.watched = 0 /\ UNCHANGED <<s, pend, main>> /\ Consume
Next == Cfg \/ Begin \/ Ret \/ Told \/ Still \/ End \/ Judge \/ Lin
Spec == Init /\ [][Next]_vars
Inv == SignalInv(s)
=============================================================================
