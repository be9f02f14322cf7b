-------------------------------- MODULE Aio --------------------------------
(* What a descriptor reads from and writes to, and what one read or write gives *)
(* there.  A request is carried out once, at some point after it was made.       *)
(*   fd    f -> [k: "file" | "pipe" | "dir" | "full" | "bad", x: file or pipe,   *)
(*              r, w: may read, write   a: appends   nb: does not wait]          *)
(*   data  x -> what it holds      pos  f -> current position                    *)
(*   open  pipes whose writing end is open                                       *)
(*   req   id -> [op: "r" | "w", f, off (-1: at the position), n, v: what it     *)
(*                writes, st: "asked" | "ran", out: [res, err, got], gone: nobody waits *)
EXTENDS Integers, Sequences, FiniteSets, TLC
EBADF == 9  EAGAIN == 11  EISDIR == 21  ENOSPC == 28  ESPIPE == 29
Put(g, x, v) == (x :> v) @@ g
Min(a, b) == IF a < b THEN a ELSE b
NewAio(fd, data) == [ fd |-> fd, data |-> data, pos |-> [f \in DOMAIN fd |-> 0], req |-> <<>>,
                      open |-> { fd[f].x : f \in { g \in DOMAIN fd : fd[g].k = "pipe" } } ]
Ask(s, id, q) == [s EXCEPT !.req = Put(@, id, q @@ [st |-> "asked", gone |-> FALSE, out |-> [res |-> -1, err |-> 0, got |-> <<>>]])]
Fail(s, e) == [s |-> s, out |-> [res |-> -1, err |-> e, got |-> <<>>]]
Gives(s, got, n) == [s |-> s, out |-> [res |-> n, err |-> 0, got |-> got]]
Zeros(n) == [k \in 1..n |-> 0]
Over(d, o, b) == LET l == IF Len(d) < o + Len(b) THEN d \o Zeros(o + Len(b) - Len(d)) ELSE d
                 IN IF b = <<>> THEN d ELSE [k \in 1..Len(l) |-> IF k > o /\ k <= o + Len(b) THEN b[k - o] ELSE l[k]]
At(s, q) == IF q.off >= 0 THEN q.off ELSE s.pos[q.f]
Moved(s, q, to) == IF q.off >= 0 THEN s ELSE [s EXCEPT !.pos[q.f] = to]
(* a system call on n bytes at most *)
Call(s, q, n) ==
  LET d == s.fd[q.f]  c == s.data[d.x] IN
  CASE d.k = "bad" -> Fail(s, EBADF)
    [] d.k = "pipe" /\ q.off >= 0 -> Fail(s, ESPIPE)
    [] ~(IF q.op = "r" THEN d.r ELSE d.w) -> Fail(s, EBADF)
    [] d.k = "dir" -> Fail(s, EISDIR)
    [] d.k = "full" -> Fail(s, ENOSPC)
    [] d.k = "pipe" /\ q.op = "r" -> IF c = <<>> /\ n > 0 /\ d.x \in s.open /\ d.nb THEN Fail(s, EAGAIN)
                                     ELSE LET m == Min(n, Len(c)) IN Gives([s EXCEPT !.data[d.x] = SubSeq(c, m + 1, Len(c))], SubSeq(c, 1, m), m)
    [] d.k = "pipe" -> Gives([s EXCEPT !.data[d.x] = c \o [k \in 1..n |-> q.v]], <<>>, n)
    [] q.op = "r" -> LET o == At(s, q)  m == IF o >= Len(c) THEN 0 ELSE Min(n, Len(c) - o) IN Gives(Moved(s, q, o + m), SubSeq(c, o + 1, o + m), m)
    [] OTHER -> LET o == IF d.a THEN Len(c) ELSE At(s, q) IN
                IF n = 0 THEN Gives(s, <<>>, 0)
                ELSE Gives(Moved([s EXCEPT !.data[d.x] = Over(c, o, [k \in 1..n |-> q.v])], q, o + n), <<>>, n)
(* reading from an empty pipe waits *)
CanRun(s, q) == LET d == s.fd[q.f] IN
  q.op = "r" /\ d.k = "pipe" /\ d.r /\ q.off < 0 /\ q.n > 0 /\ ~d.nb => s.data[d.x] # <<>> \/ d.x \notin s.open
Ran(s, id, out) == [s EXCEPT !.req[id].st = "ran", !.req[id].out = out]
Carry(s, id, n) == LET z == Call(s, s.req[id], n) IN Ran(z.s, id, z.out)
Run(s, id) == Carry(s, id, s.req[id].n)
(* cut short, or refused, by the system *)
Short(s, id, n) == Carry(s, id, n)
Refuse(s, id, e) == Ran(s, id, Fail(s, e).out)
Asked(s) == { id \in DOMAIN s.req : s.req[id].st = "asked" }
Ready(s) == { id \in Asked(s) : CanRun(s, s.req[id]) }
(* what neither changes anything nor depends on anything *)
Idle(s, q) == LET d == s.fd[q.f] IN d.k \in {"bad", "dir", "full"} \/ (d.k = "file" /\ (q.n = 0 \/ ~(IF q.op = "r" THEN d.r ELSE d.w)))
(* those that can touch what id touches *)
Near(s, id) == { j \in Asked(s) : s.fd[s.req[j].f].x = s.fd[s.req[id].f].x /\ ~Idle(s, s.req[j]) }
Drop(s, id) == [s EXCEPT !.req[id].gone = TRUE]
(* the writing ends of a pipe are closed *)
Shut(s, x) == [s EXCEPT !.open = @ \ {x}, !.fd = [f \in DOMAIN @ |-> IF @[f].x = x /\ @[f].w THEN [@[f] EXCEPT !.k = "bad"] ELSE @[f]]]
Forget(s, id) == [s EXCEPT !.req = [j \in DOMAIN @ \ {id} |-> @[j]]]
=============================================================================
