-------------------------------- MODULE Pair --------------------------------
(* Async pairs: x -> [ dec: outcome ("": none yet), canc: its cancellable was    *)
(* cancelled, cod: cancel on discard, deps: those who await it ]                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Cancelled == "E:CANCELLED"
NewPairs == [ p |-> <<>> ]
Put(f, x, v) == (x :> v) @@ f
Xs(s) == DOMAIN s.p
New(s, x) == [s EXCEPT !.p = Put(@, x, [dec |-> "", canc |-> FALSE, cod |-> TRUE, deps |-> {}])]
Cancel(s, x) == [s EXCEPT !.p[x].canc = TRUE]
SetCod(s, x, b) == [s EXCEPT !.p[x].cod = b]
Complete(s, x, o) == IF s.p[x].dec = "" THEN [s EXCEPT !.p[x].dec = o] ELSE s
(* what an operation delivers, if it is looked at now *)
Delivered(s, x, o) == IF s.p[x].canc THEN Cancelled ELSE o
Want(s, x, d) == IF s.p[x].dec = "" THEN [s EXCEPT !.p[x].deps = @ \cup {d}] ELSE s
Unwanted(s, x, d) == s.p[x].dec = "" /\ s.p[x].deps = {d}
Unwant(s, x, d) == [s EXCEPT !.p[x].deps = @ \ {d}]
Discard(s, x) == IF s.p[x].cod THEN Cancel(s, x) ELSE s
See(s, x) == IF s.p[x].dec = "" THEN "P" ELSE s.p[x].dec
Look(s, x) == IF s.p[x].canc THEN "1" ELSE "0"
=============================================================================
