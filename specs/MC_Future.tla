------------------------------ MODULE MC_Future ------------------------------
(* Bounded exploration: one thread builds a graph, completes, discards,        *)
(* releases; every internal step in every order.                                *)
EXTENDS Future
CONSTANTS MaxOps, MaxNodes, Kinds, Acts, Behs, MaxMem
VARIABLES F, n, hist, beh, inv
vars == <<F, n, hist, beh, inv>>
Init == F = NewFutures /\ n = 0 /\ hist = "0;" /\ beh = Empty /\ inv = Empty
S(x) == ToString(x)
Id == n + 1
Code(k) == CASE k = "promise" -> "p" [] k = "cpromise" -> "P" [] k = "cancel" -> "c" [] k = "infinite" -> "i"
             [] k = "then" -> "T" [] k = "catch" -> "C" [] k = "finally" -> "F"
             [] k = "thenloop" -> "t" [] k = "catchloop" -> "k" [] k = "finallyloop" -> "f"
             [] k = "all" -> "A" [] k = "any" -> "Y" [] k = "first" -> "1" [] k = "race" -> "R"
             [] k = "delayed" -> "D" [] k = "disown" -> "d" [] k = "static" -> "v" [] k = "bad" -> "e"
Op(s, F2) == F' = F2 /\ n' = n + 1 /\ hist' = hist \o s \o " "
Same == UNCHANGED <<beh, inv>>
Usable == { m \in Nodes(F) : F.uref[m] > 0 }
Err(x) == "E:T." \o S(x)
Val(x) == "i" \o S(x)
Create ==
  /\ Cardinality(Nodes(F)) < MaxNodes
  /\ \/ \E k \in Kinds \cap {"promise", "cpromise", "cancel", "infinite"} : Op(Code(k) \o S(Id), NewPlain(F, Id, k)) /\ Same
     \/ "static" \in Kinds /\ Op("v" \o S(Id), NewStatic(F, Id, Val(Id))) /\ Same
     \/ "bad" \in Kinds /\ Op("e" \o S(Id), NewStatic(F, Id, Err(Id))) /\ Same
     \/ \E k \in Kinds \cap Blocks, u \in Usable, b0 \in Behs, w \in {0} \cup Usable :
          /\ (w # 0) <=> (b0 = "M")
          /\ LET b == IF w = 0 THEN b0 ELSE S(w) IN
             /\ Op(Code(k) \o S(Id) \o "." \o S(u) \o ":" \o b, NewBlock(F, Id, k, u, 0, {w} \ {0}))
             /\ beh' = Set1(beh, Id, b) /\ inv' = Set1(inv, Id, 0)
     \/ \E k \in Kinds \cap SetKinds :
          \/ \E u \in Usable : Op(Code(k) \o S(Id) \o "." \o S(u), NewSet(F, Id, k, <<u>>)) /\ Same
          \/ MaxMem > 1 /\ \E u, v \in Usable : u <= v /\ Op(Code(k) \o S(Id) \o "." \o S(u) \o "." \o S(v), NewSet(F, Id, k, <<u, v>>)) /\ Same
          \/ MaxMem > 2 /\ \E u, v, w \in Usable : u < v /\ v < w /\ Op(Code(k) \o S(Id) \o "." \o S(u) \o "." \o S(v) \o "." \o S(w), NewSet(F, Id, k, <<u, v, w>>)) /\ Same
     \/ "delayed" \in Kinds /\ \E u \in Usable : Op("D" \o S(Id) \o "." \o S(u), NewDelayed(F, Id, u)) /\ Same
     \/ "disown" \in Kinds /\ \E u \in Usable : Op("d" \o S(Id) \o "." \o S(u), NewDisown(F, Id, u)) /\ Same
Act ==
  /\ Same
  /\ \/ "resolve" \in Acts /\ \E u \in Usable : F.kind[u] \in {"promise", "cpromise"} /\ Op("r" \o S(Id) \o "." \o S(u), Complete(F, u, Val(Id)))
     \/ "reject" \in Acts /\ \E u \in Usable : F.kind[u] \in {"promise", "cpromise"} /\ Op("x" \o S(Id) \o "." \o S(u), Complete(F, u, Err(Id)))
     \/ "cancel" \in Acts /\ \E u \in Usable : F.kind[u] = "cancel" /\ Op("z" \o S(Id) \o "." \o S(u), Complete(F, u, "E:CANCELLED"))
     \/ "release" \in Acts /\ \E u \in Usable : F.kind[u] = "delayed" /\ Op("o" \o S(Id) \o "." \o S(u), Release(F, u))
     \/ "dup" \in Acts /\ \E u \in Usable : F.kind[u] = "delayed" /\ Op("y" \o S(Id) \o "." \o S(u), F)
     \/ "drop" \in Acts /\ \E u \in Usable : Op("u" \o S(Id) \o "." \o S(u), Drop(F, u))
(* the callbacks do what was decided when their block was created: a sequence of
   N (nothing), V (a value), E (an error) or a future of the program, one per call,
   and N from then on *)
Beh(b) == LET s == beh[b]  k == inv[b] + 1 IN IF k <= Len(s) THEN SubSeq(s, k, k) ELSE "N"
Hidden ==
  /\ UNCHANGED <<n, hist, beh>>
  /\ \/ \E r \in Due(F) : F' = Deliver(F, r) /\ UNCHANGED inv
     \/ \E g \in Garbage(F) : F' = Finalize(F, g) /\ UNCHANGED inv
     \/ \E d \in F.disc : F' = DoDiscard(F, d) /\ UNCHANGED inv
     \/ \E b \in Nodes(F) : F.cb[b] = "torun" /\ F' = CbStart(F, b) /\ UNCHANGED inv
     \/ \E b \in Nodes(F) : F.cb[b] = "running" /\ inv' = [inv EXCEPT ![b] = @ + 1]
          /\ LET x == b * 100 + inv[b] IN
             F' = CASE Beh(b) = "N" -> CbNothing(F, b) [] Beh(b) = "V" -> CbStatic(F, b, Val(x)) [] Beh(b) = "E" -> CbStatic(F, b, Err(x))
                    [] OTHER -> CbNode(F, b, CHOOSE m \in Nodes(F) : S(m) = Beh(b))
     \/ \E b \in Nodes(F) : MayWipe(F, b) /\ F' = Wipe(F, b) /\ UNCHANGED inv
AtRest == Quiet(F) /\ \A b \in Nodes(F) : ~MayWipe(F, b)
Next == (AtRest /\ n < MaxOps /\ (Create \/ Act)) \/ Hidden
Spec == Init /\ [][Next]_vars
Inv == FutureInv(F)
(* C01: an outcome never changes *)
Stable == [][\A m \in Nodes(F) : Done(F, m) => F'.out[m] = F.out[m]]_vars
(* C05: whoever is told to stop is not awaited by anyone *)
Wanted == [][\A m \in F'.told \ F.told : \A r \in F'.regs : r.up = m => r.val # "P" \/ r.down \in F'.gone]_vars
NoHist == <<F, n, beh, inv>>
Emit == IF hist' # hist THEN PrintT(<<"SCRIPT", hist'>>) ELSE TRUE
=============================================================================
