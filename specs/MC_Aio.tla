------------------------------- MODULE MC_Aio -------------------------------
(* Every small set of requests, in every order in which they can be carried out.*)
EXTENDS Aio
CONSTANTS Fs, Offs, Ns, MaxReq, MaxOps
VARIABLES s, n, hist, inp, outp
vars == <<s, n, hist, inp, outp>>
D(k, x, r, w, a) == [k |-> k, x |-> x, r |-> r, w |-> w, a |-> a, nb |-> FALSE]
Fds == << D("file", 1, TRUE, TRUE, FALSE), D("file", 1, TRUE, TRUE, TRUE), D("file", 1, TRUE, FALSE, FALSE), D("pipe", 2, TRUE, FALSE, FALSE), D("pipe", 2, FALSE, TRUE, FALSE), D("bad", 3, FALSE, FALSE, FALSE) >>
Init == s = NewAio(Fds, << <<101, 102, 103>>, <<>>, <<>> >>) /\ n = 0 /\ hist = "" /\ inp = <<>> /\ outp = <<>>
S(k) == ToString(k)
Step(op) == n' = n + 1 /\ hist' = hist \o op \o " "
NR == Cardinality(DOMAIN s.req)
Same == UNCHANGED <<inp, outp>>
Piped(t, id) == LET q == t.req[id] IN
  IF t.fd[q.f].k # "pipe" \/ q.out.err # 0 THEN Same
  ELSE IF q.op = "r" THEN outp' = outp \o q.out.got /\ UNCHANGED inp
  ELSE inp' = inp \o [k \in 1..q.out.res |-> q.v] /\ UNCHANGED outp
Next == \/ /\ n < MaxOps
           /\ \/ /\ NR < MaxReq /\ Same
                 /\ \E op \in {"r", "w"}, f \in Fs, o \in Offs, m \in Ns :
                      s' = Ask(s, NR + 1, [op |-> op, f |-> f, off |-> IF o = 9 THEN -1 ELSE o, n |-> m, v |-> NR + 1])
                      /\ Step(op \o S(f) \o "." \o S(o) \o "." \o S(m))
              \/ \E id \in DOMAIN s.req : ~s.req[id].gone /\ s.req[id].st = "asked" /\ Same /\ s' = Drop(s, id) /\ Step("x" \o S(id))
              \/ Ready(s) = {} /\ DOMAIN s.req # {} /\ Same /\ UNCHANGED s /\ Step("s")
        \/ \E id \in Ready(s) : s' = Run(s, id) /\ Piped(s', id) /\ UNCHANGED <<n, hist>>
Spec == Init /\ [][Next]_vars
Ok(id) == s.req[id].st = "ran" /\ s.req[id].out.err = 0
Inv == /\ \A id \in DOMAIN s.req : LET q == s.req[id] IN
            q.st = "ran" => q.out.res <= q.n /\ (q.out.res = -1 <=> q.out.err # 0) /\ (q.op = "r" /\ Ok(id) => Len(q.out.got) = q.out.res)
       (* nothing is in a file that was not there or written *)
       /\ \A k \in DOMAIN s.data[1] : LET b == s.data[1][k] IN b \in {0, 101, 102, 103} \/ \E id \in DOMAIN s.req : Ok(id) /\ s.req[id].op = "w" /\ b = id
       (* what is read from a pipe is what was written, in order *)
       /\ outp \o s.data[2] = inp
Final == [][\A id \in DOMAIN s.req : s.req[id].st = "ran" => s'.req[id].out = s.req[id].out]_vars
(* at rest only readers of an empty pipe wait *)
AtRest == Ready(s) = {} => \A id \in Asked(s) : s.req[id].op = "r" /\ s.data[2] = <<>>
NoHist == <<s, n, inp, outp>>
Emit == hist' # hist => PrintT(<<"SCRIPT", hist'>>)
=============================================================================
