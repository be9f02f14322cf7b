--------------------------------- MODULE Fd ---------------------------------
(* Who owns which descriptor.  k names what was opened, 0 is no descriptor.      *)
(*   f    future -> "P" (promise, pending) or the k that its value owns          *)
(*   live futures that are referenced     b  box -> k     raw  plain descriptors *)
(*   from future -> the one whose outcome it takes                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
P == 99
NewFds == [ f |-> <<>>, from |-> <<>>, live |-> {}, b |-> <<>>, raw |-> <<>> ]
Put(g, x, v) == (x :> v) @@ g
Raw(s, k) == IF k \in DOMAIN s.raw THEN s.raw[k] ELSE 0
AddRaw(s, k) == IF k = 0 THEN s ELSE [s EXCEPT !.raw = Put(@, k, Raw(s, k) + 1)]
CloseRaw(s, k) == [s EXCEPT !.raw[k] = @ - 1]
Box(s, b, k) == [s EXCEPT !.b = Put(@, b, k)]
Take(s, f, k) == [s EXCEPT !.f = Put(@, f, k), !.live = @ \cup {f}]
Promise(s, f) == [s EXCEPT !.f = Put(@, f, P), !.live = @ \cup {f}]
(* those that take f's outcome, and that of each other *)
RECURSIVE Heirs(_, _)
Heirs(s, fs) == LET n == fs \cup { g \in DOMAIN s.from : s.from[g] \in fs } IN IF n = fs THEN fs ELSE Heirs(s, n)
(* each has a descriptor of its own then, a duplicate *)
Resolve(s, f, k) == IF s.f[f] # P THEN s ELSE [s EXCEPT !.f = [g \in DOMAIN @ |-> IF @[g] = P /\ g \in Heirs(s, {f}) THEN k ELSE @[g]]]
(* the same, one step after the other: each copies what its source has by then *)
Decide(s, f, k) == IF s.f[f] # P THEN s ELSE [s EXCEPT !.f[f] = k]
Behind(s) == { g \in DOMAIN s.from : s.f[g] = P /\ s.f[s.from[g]] # P }
Pass(s, g) == [s EXCEPT !.f[g] = s.f[s.from[g]]]
Derive(s, g, f) == [s EXCEPT !.f = Put(@, g, s.f[f]), !.live = @ \cup {g}, !.from = Put(@, g, f)]
Drop(s, f) == [s EXCEPT !.live = @ \ {f}]
(* one that takes the outcome of another may keep that one alive *)
Alive(s) == { f \in DOMAIN s.f : Heirs(s, {f}) \cap s.live # {} }
Holds(s, f) == IF s.f[f] = P THEN 0 ELSE s.f[f]
StealF(s, f) == AddRaw([s EXCEPT !.f[f] = IF @ = P THEN P ELSE 0], Holds(s, f))
StealB(s, b) == AddRaw([s EXCEPT !.b[b] = 0], s.b[b])
Free(s, b) == [s EXCEPT !.b = [x \in DOMAIN @ \ {b} |-> @[x]]]
Others(s, k) == Cardinality({ b \in DOMAIN s.b : s.b[b] = k }) + Raw(s, k)
Least(s, k) == Cardinality({ f \in s.live : s.f[f] = k }) + Others(s, k)
Most(s, k) == Cardinality({ f \in Alive(s) : s.f[f] = k }) + Others(s, k)
=============================================================================
