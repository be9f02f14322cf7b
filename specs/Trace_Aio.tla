----------------------------- MODULE Trace_Aio -----------------------------
(* Explains recorded runs: what asynchronous reads and writes gave, and what the *)
(* files held at rest.  When a request was carried out is inferred.              *)
EXTENDS Aio, TraceBase
VARIABLES s, may
vars == <<tid, i, s, may>>
(* A read at an offset changes nothing: instead of inferring when it was carried *)
(* out, all that it may have given since it was asked for is kept in may.        *)
Look(z, id) == LET q == z.req[id] IN q.op = "r" /\ q.off >= 0 /\ z.fd[q.f].k = "file"
Looks(z) == { id \in Asked(z) : Look(z, id) }
Now(z, id) == Call(z, z.req[id], z.req[id].n).out
May(z) == [id \in Looks(z) |-> (IF id \in DOMAIN may THEN may[id] ELSE {}) \cup {Now(z, id)}]
To(z) == s' = z /\ may' = IF z.data = s.data /\ Looks(z) = Looks(s) THEN may ELSE May(z)
Init == tid \in 1..Len(Traces) /\ i = 2 /\ s = NewAio(<<>>, <<>>) /\ may = <<>>
Cfg == Is("cfg") /\ To(NewAio(Ev.fd, Ev.data)) /\ Consume
Q == [op |-> Ev.op, f |-> Ev.f, off |-> Ev.off, n |-> Ev.n, v |-> Ev.v]
Made == Is("call") /\ Ev.id \notin DOMAIN s.req /\ To(Ask(s, Ev.id, Q)) /\ Consume
(* a fault of the system: of which request it is to be found out *)
Fault == /\ Is("fault")
         /\ \E id \in Asked(s) : LET q == s.req[id] IN
              /\ q.op = Ev.op /\ q.f = Ev.f /\ q.off = Ev.off /\ q.n = Ev.n /\ (q.op = "w" /\ q.n > 0 => q.v = Ev.v)
              /\ IF Ev.err # 0 THEN To(Refuse(s, id, Ev.err)) ELSE CanRun(s, q) /\ To(Short(s, id, Ev.m))
         /\ Consume
Acts(z) == Ready(z) \ Looks(z)
Touch(id) == IF Idle(s, s.req[id]) THEN {id} ELSE Near(s, id) \cap Acts(s)
(* those of one file after the other, and only when something depends on it *)
Due == IF Is("done") THEN IF Ev.id \in Asked(s) THEN Touch(Ev.id) ELSE {}
       ELSE IF Is("quiet") /\ Acts(s) # {} THEN LET l == CHOOSE a \in Acts(s) : \A b \in Acts(s) : a <= b IN Touch(l)
       ELSE IF Is("shut") THEN { id \in Acts(s) : s.fd[s.req[id].f].x = Ev.x }
       ELSE IF Is("fault") THEN { id \in Acts(s) : \E j \in Asked(s) : s.req[j].f = Ev.f /\ s.fd[s.req[id].f].x = s.fd[s.req[j].f].x }
       ELSE {}
Lin == (\E id \in Due : To(Run(s, id))) /\ Stay
Out == [res |-> Ev.res, err |-> Ev.err, got |-> Ev.got]
Done == /\ Is("done") /\ Ev.id \in DOMAIN s.req
        /\ IF Ev.id \in Looks(s) THEN Out \in may[Ev.id] ELSE s.req[Ev.id].st = "ran" /\ s.req[Ev.id].out = Out
        /\ To(Forget(s, Ev.id)) /\ Consume
Left == Is("drop") /\ To(Drop(s, Ev.id)) /\ Consume
(* the writing end of a pipe is closed *)
Closed == Is("shut") /\ To(Shut(s, Ev.x)) /\ Consume
(* at rest only reads of an empty pipe are left, and all else was carried out and reported *)
Rest == /\ Is("quiet") /\ Acts(s) = {} /\ \A id \in DOMAIN s.req : (s.req[id].st = "asked" /\ id \notin Looks(s)) \/ s.req[id].gone
        /\ \A x \in DOMAIN Ev.data : Ev.data[x] = s.data[x]
        /\ UNCHANGED <<s, may>> /\ Consume
End == Is("end") /\ Ev.leak = 0 /\ Acts(s) = {} /\ UNCHANGED <<s, may>> /\ Consume
Next == Cfg \/ Made \/ Fault \/ Lin \/ Done \/ Left \/ Closed \/ Rest \/ End
Spec == Init /\ [][Next]_vars
Inv == \A f \in DOMAIN s.pos : s.pos[f] >= 0
=============================================================================
