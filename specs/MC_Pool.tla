------------------------------- MODULE MC_Pool -------------------------------
(* How the thread pool works inside: a global queue with a semaphore whose       *)
(* waiters belong to workers, a queue per worker, theft.  Checked: whatever the  *)
(* workers do is allowed by Pool, and when everybody sleeps nothing is left.     *)
(*   gq, counter, waiters   the global queue, posts not taken, waiting workers   *)
(*   wake     completed waits which the worker has not seen yet                  *)
(*   loc      the workers' own queues      kids   items each item still pushes   *)
(*   loop     worker runs an item of the global queue and will wait afterwards   *)
(*   mpc      the outside thread: 0, or the item it has queued but not posted    *)
EXTENDS Pool
CONSTANTS Ws, MaxItems, MaxKids, MaxOps
VARIABLES p, gq, counter, waiters, wake, loc, kids, loop, mpc, hist, nops
vars == <<p, gq, counter, waiters, wake, loc, kids, loop, mpc, hist, nops>>
W == 1..p.n
Init == \E n \in Ws : /\ p = Other(NewPool(n), 0) /\ gq = <<>> /\ counter = 0 /\ waiters = [j \in 1..n |-> j]
                      /\ wake = [w \in 1..n |-> 0] /\ loc = [w \in 1..n |-> <<>>] /\ kids = <<>>
                      /\ loop = [w \in 1..n |-> FALSE] /\ mpc = 0 /\ hist = ToString(n) \o ";" /\ nops = 0
New == Cardinality(DOMAIN p.items) + 1
Room == New <= MaxItems
Quiescent == /\ mpc = 0 /\ \A w \in W : Idle(p, w) /\ wake[w] = 0 /\ ~loop[w] /\ loc[w] = <<>>

Outside(k) == /\ mpc = 0 /\ Room /\ nops < MaxOps /\ nops' = nops + 1
              /\ p' = Push(p, New, 0, "global") /\ gq' = Append(gq, New) /\ kids' = kids @@ (New :> k) /\ mpc' = New
              /\ hist' = hist \o "g" \o ToString(k) \o " "
              /\ UNCHANGED <<counter, waiters, wake, loc, loop>>
Post == /\ mpc # 0 /\ p' = Pushed(p, mpc) /\ mpc' = 0
        /\ IF waiters # <<>> THEN /\ wake' = [wake EXCEPT ![Head(waiters)] = @ + 1] /\ waiters' = Tail(waiters) /\ UNCHANGED counter
           ELSE counter' = counter + 1 /\ UNCHANGED <<wake, waiters>>
        /\ UNCHANGED <<gq, loc, kids, loop, hist, nops>>
Settle == /\ Quiescent /\ nops < MaxOps /\ nops > 0 /\ nops' = nops + 1 /\ hist' = hist \o "q "
          /\ UNCHANGED <<p, gq, counter, waiters, wake, loc, kids, loop, mpc>>
Woken(w) == /\ Idle(p, w) /\ ~loop[w] /\ wake[w] > 0
            /\ wake' = [wake EXCEPT ![w] = @ - 1] /\ loop' = [loop EXCEPT ![w] = TRUE]
            /\ IF gq = <<>> THEN UNCHANGED <<p, gq>> ELSE gq' = Tail(gq) /\ p' = Run(p, Head(gq), w)
            /\ UNCHANGED <<counter, waiters, loc, kids, mpc, hist, nops>>
Wait(w) == /\ Idle(p, w) /\ loop[w] /\ loop' = [loop EXCEPT ![w] = FALSE]
           /\ IF counter > 0 THEN counter' = counter - 1 /\ wake' = [wake EXCEPT ![w] = @ + 1] /\ UNCHANGED waiters
              ELSE waiters' = Append(waiters, w) /\ UNCHANGED <<counter, wake>>
           /\ UNCHANGED <<p, gq, loc, kids, mpc, hist, nops>>
Take(w, v, x, rest) == /\ Idle(p, w) /\ ~loop[w] /\ loc' = [loc EXCEPT ![v] = rest] /\ p' = Run(p, x, w)
                       /\ UNCHANGED <<gq, counter, waiters, wake, kids, loop, mpc, hist, nops>>
Own(w) == loc[w] # <<>> /\ Take(w, w, loc[w][Len(loc[w])], SubSeq(loc[w], 1, Len(loc[w]) - 1))
Steal(w, v) == v # w /\ loc[v] # <<>> /\ Take(w, v, Head(loc[v]), Tail(loc[v]))
Top(w) == Stack(p, w)[Len(Stack(p, w))]
Kid(w) == /\ ~Idle(p, w) /\ kids[Top(w)] > 0 /\ Room
          /\ kids' = (New :> 0) @@ [kids EXCEPT ![Top(w)] = @ - 1]
          /\ p' = Pushed(Push(p, New, w, "local"), New) /\ loc' = [loc EXCEPT ![w] = Append(@, New)]
          /\ UNCHANGED <<gq, counter, waiters, wake, loop, mpc, hist, nops>>
End0(w) == /\ ~Idle(p, w) /\ (kids[Top(w)] = 0 \/ ~Room) /\ p' = Done(p, Top(w), w)
           /\ UNCHANGED <<gq, counter, waiters, wake, loc, kids, loop, mpc, hist, nops>>
Next == \/ \E k \in 0..MaxKids : Outside(k)
        \/ Post \/ Settle
        \/ \E w \in W : Woken(w) \/ Wait(w) \/ Own(w) \/ Kid(w) \/ End0(w) \/ \E v \in W : Steal(w, v)
Spec == Init /\ [][Next]_vars
(* every step is one Pool allows *)
Allowed == [][\A w \in W : \A x \in DOMAIN p.items :
                (p'.items[x].st = "running" /\ p.items[x].st # "running" => CanRun(p, x, w) \/ p'.items[x].on # w)
                /\ (p'.items[x].st = "done" /\ p.items[x].st # "done" => p.items[x].st = "running")]_vars
NothingLeft == Quiescent => AllDone(p) /\ gq = <<>> /\ Len(waiters) = p.n /\ counter = 0
LoopAlive == \A w \in W : Cardinality({ j \in 1..Len(waiters) : waiters[j] = w }) + wake[w] + (IF loop[w] THEN 1 ELSE 0) = 1
Inv == PoolInv(p) /\ NothingLeft /\ LoopAlive
NoHist == <<p, gq, counter, waiters, wake, loc, kids, loop, mpc, nops>>
Emit == PrintT(<<"SCRIPT", hist'>>)
==============================================================================
