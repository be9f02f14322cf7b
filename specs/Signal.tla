------------------------------- MODULE Signal -------------------------------
(* Futures of outside events: x -> [ src: 1..10 a cancellable, 11.. a signal,   *)
(* val: what the signal resolves it to, dec: its outcome ("": none yet),        *)
(* must: its signal was raised after it was made, told: its dependent has heard, *)
(* gone: released ]                                                              *)
(*   cs   cancelled cancellables    cd  those for which cancelling has returned  *)
(*   armed  signals which were raised and may not have been delivered yet        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Cancelled == "E:CANCELLED"
NewSignals == [ f |-> <<>>, cs |-> {}, cd |-> {}, armed |-> {} ]
Put(f, x, v) == (x :> v) @@ f
Fs(s) == DOMAIN s.f
IsSig(c) == c > 10
New(s, x, c, o) == [s EXCEPT !.f = Put(@, x, [src |-> c, val |-> o, dec |-> IF c \in s.cs THEN Cancelled ELSE "", must |-> FALSE, told |-> FALSE, gone |-> FALSE])]
Cancel(s, c) == [s EXCEPT !.cs = @ \cup {c}]
CancelDone(s, c) == [s EXCEPT !.cd = @ \cup {c}]
Raise(s, c) == [s EXCEPT !.armed = @ \cup {c}, !.f = [x \in DOMAIN @ |-> IF @[x].src = c THEN [@[x] EXCEPT !.must = TRUE] ELSE @[x]]]
CanDecide(s, x) == s.f[x].dec = "" /\ (s.f[x].src \in s.cs \/ s.f[x].src \in s.armed)
Decide(s, x) == [s EXCEPT !.f[x].dec = IF IsSig(s.f[x].src) THEN s.f[x].val ELSE Cancelled]
Self(s, x) == IF s.f[x].dec = "" THEN [s EXCEPT !.f[x].dec = Cancelled] ELSE s
Drop(s, x) == [s EXCEPT !.f[x].gone = TRUE]
Tell(s, x) == [s EXCEPT !.f[x].told = TRUE]
Live(s) == { x \in Fs(s) : ~s.f[x].gone }
(* cancelling returns only after everything made from it is rejected *)
Settled(s) == \A x \in Live(s) : s.f[x].src \in s.cd => s.f[x].dec # ""
QuietOk(s, hs) == /\ Settled(s)
                  /\ \A x \in Live(s) : (s.f[x].must => s.f[x].dec # "") /\ (s.f[x].dec # "" => s.f[x].told)
                  /\ \A c \in DOMAIN hs : hs[c] <= Cardinality({ x \in Live(s) : s.f[x].src = c })
Quiet(s) == [s EXCEPT !.armed = {}]
SignalInv(s) == \A x \in Fs(s) : /\ (s.f[x].dec # "" /\ IsSig(s.f[x].src) => s.f[x].dec = s.f[x].val)
                                  /\ (s.f[x].told => s.f[x].dec # "")
=============================================================================
