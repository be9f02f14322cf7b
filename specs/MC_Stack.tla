------------------------------ MODULE MC_Stack ------------------------------
(* How the schedulers of fibers hand out stacks: one of the usual size comes     *)
(* from the spare ones of that scheduler if there is one, any other is mapped;   *)
(* one of the usual size goes back to the spare ones unless there are too many.  *)
(*   st      who is on which stack                                               *)
(*   size    stack -> its size (those mapped)                                    *)
(*   spare   scheduler -> its spare stacks                                       *)
(*   fib     fiber -> [ k, want, x: promise it waits for or 0, stat ]            *)
EXTENDS Stack, Sequences
CONSTANTS MaxF, MaxK, MaxOps, Sizes, Max
VARIABLES st, size, spare, fib, done, hist, nops
vars == <<st, size, spare, fib, done, hist, nops>>
(* index in the driver's table -> [asked for, what it becomes]; the usual size is 32 pages *)
Table == [z \in {0, 3, 4, 6, 7, 8, 9, 12} |-> CASE z = 0 -> <<0, 32>> [] z = 3 -> <<16, 16>> [] z = 4 -> <<32, 32>> [] z = 6 -> <<17, 17>>
           [] z = 7 -> <<1, 32>> [] z = 8 -> <<22, 22>> [] z = 9 -> <<33, 33>> [] z = 12 -> <<32, 32>>]
Usual == 32
FromSpare(z) == z \in {0, 4}        \* asked for exactly the usual size
Init == st = NewStacks /\ size = <<>> /\ spare = [k \in 1..MaxK |-> <<>>] /\ fib = <<>> /\ done = FALSE /\ hist = ToString(MaxK) \o ";p " /\ nops = 0
Op(h) == nops < MaxOps /\ nops' = nops + 1 /\ hist' = hist \o h \o " "
(* futures are numbered: 1 is the promise, fibers follow *)
New == Cardinality(DOMAIN fib) + 2
Fresh == CHOOSE n \in 1..(Cardinality(DOMAIN size) + 1) : n \notin DOMAIN size
Spawn(k, z) ==
  /\ Cardinality(DOMAIN fib) < MaxF
  /\ Op("s" \o ToString(k) \o "." \o ToString(z))
  /\ LET pooled == FromSpare(z) /\ spare[k] # <<>>
         stk == IF pooled THEN Head(spare[k]) ELSE Fresh
         sz == IF pooled THEN size[stk] ELSE Table[z][2]
     IN /\ Assert(CanTake(st, stk, Table[z][1], sz, 1), "wrong stack")
        /\ st' = Take(st, New, stk)
        /\ size' = (stk :> sz) @@ size
        /\ spare' = IF pooled THEN [spare EXCEPT ![k] = Tail(@)] ELSE spare
        /\ fib' = (New :> [k |-> k, z |-> z, stat |-> "run"]) @@ fib
        /\ UNCHANGED done
(* a loop has one thread: only if none runs there can another begin or go on *)
Idle(k) == \A f \in DOMAIN fib : fib[f].k = k => fib[f].stat # "run"
Wait(f) == fib[f].stat = "run" /\ ~done /\ Op("a" \o ToString(f) \o ".1") /\ fib' = [fib EXCEPT ![f].stat = "wait"] /\ UNCHANGED <<st, size, spare, done>>
End(f) ==
  /\ fib[f].stat = "run" /\ Op("R" \o ToString(f) \o ".2")
  /\ fib' = [fib EXCEPT ![f].stat = "gone"]
  /\ st' = Leave(st, f) /\ UNCHANGED done
  /\ LET stk == st.on[f]
         k == fib[f].k
     IN IF size[stk] = Usual /\ Len(spare[k]) <= Max
        THEN spare' = [spare EXCEPT ![k] = <<stk>> \o @] /\ UNCHANGED size
        ELSE spare' = spare /\ size' = [x \in DOMAIN size \ {stk} |-> size[x]]
Complete == /\ ~done /\ (\E f \in DOMAIN fib : fib[f].stat = "wait") /\ Op("c1") /\ done' = TRUE
            /\ fib' = [f \in DOMAIN fib |-> IF fib[f].stat = "wait" THEN [fib[f] EXCEPT !.stat = "run"] ELSE fib[f]]
            /\ UNCHANGED <<st, size, spare>>
Next == \/ \E k \in 1..MaxK, z \in Sizes : Idle(k) /\ Spawn(k, z)
        \/ \E f \in DOMAIN fib : Wait(f) \/ End(f)
        \/ Complete
Spec == Init /\ [][Next]_vars
Range(f) == {f[x] : x \in DOMAIN f}
Spares == UNION {Range(spare[k]) : k \in DOMAIN spare}
Inv == /\ StackInv(st)
       /\ Range(st.on) \cap Spares = {}
       /\ Range(st.on) \cup Spares = DOMAIN size          \* none is forgotten
       /\ \A k, l \in DOMAIN spare : k # l => Range(spare[k]) \cap Range(spare[l]) = {}
       /\ \A k \in DOMAIN spare : Cardinality(Range(spare[k])) = Len(spare[k]) /\ \A x \in Range(spare[k]) : size[x] = Usual
       /\ \A f \in DOMAIN st.on : size[st.on[f]] >= Table[fib[f].z][1]
       /\ Moderate(st, Cardinality(DOMAIN size), MaxK)
NoHist == <<st, size, spare, fib, done, nops>>
Emit == PrintT(<<"SCRIPT", hist'>>)
=============================================================================
