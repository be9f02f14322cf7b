------------------------------ MODULE MC_Object ------------------------------
(* One actor, every history of ref, unref, weak set, get and clear.            *)
EXTENDS Object
CONSTANTS Objs, Weaks, MaxOps, MaxCnt
VARIABLES h, n, hist
vars == <<h, n, hist>>
Init == h = NewHeap(Objs, Weaks) /\ n = 0 /\ hist = ToString(Cardinality(Objs)) \o ";"
Fin(x) == [x EXCEPT !.fin = x.dead]     \* alone, finalization is immediate
Step(s, h2) == h' = Fin(h2) /\ n' = n + 1 /\ hist' = hist \o s \o " "
S(x) == ToString(x)
Next == n < MaxOps /\
  \/ \E o \in Objs : Alive(h, o) /\ h.cnt[o] < MaxCnt /\ Step("R" \o S(o), Ref(h, o))
  \/ \E o \in Objs : Alive(h, o) /\ Step("U" \o S(o), Unref(h, o))
  \/ \E w \in Weaks : (Got(h, w) # 0 => h.cnt[Got(h, w)] < MaxCnt) /\ Step("G" \o S(w), Get(h, w))
  \/ \E w \in Weaks : \E o \in Objs \cup {0} : (o # 0 => Alive(h, o)) /\ o # h.tgt[w] /\ Step("S" \o S(w) \o "." \o S(o), Point(h, w, o))
  \/ \E w \in Weaks : h.tgt[w] # 0 /\ Step("C" \o S(w), Point(h, w, 0))
Spec == Init /\ [][Next]_vars
Inv == HeapInv(h)
NoHist == <<h, n>>
Emit == PrintT(<<"SCRIPT", hist'>>)
=============================================================================
