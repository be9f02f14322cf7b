------------------------------- MODULE MC_Loop -------------------------------
(* How a main scheduler works inside: push appends and wakes the loop up, the   *)
(* loop looks at the queue, sleeps, takes the whole queue and runs it.  Checked: *)
(* only what Loop allows happens, and a sleeping loop has nothing to do.         *)
(*   q      loop -> items       batch  loop -> taken, still to run               *)
(*   flag   loop -> somebody called for it      ph  "look", "sleep", "go"        *)
(*   pend   items whose pusher has not yet called (from outside: item or 0)      *)
EXTENDS Loop
CONSTANTS Loops, MaxItems, MaxKids, MaxOps
VARIABLES l, q, batch, flag, ph, pend, kids, hist, nops
vars == <<l, q, batch, flag, ph, pend, kids, hist, nops>>
K == DOMAIN l.owner
Init == \E n \in Loops : /\ l = NewLoops([k \in 1..n |-> k]) /\ q = [k \in 1..n |-> <<>>] /\ batch = [k \in 1..n |-> <<>>]
                         /\ flag = [k \in 1..n |-> FALSE] /\ ph = [k \in 1..n |-> "look"] /\ pend = 0 /\ kids = <<>>
                         /\ hist = ToString(n) \o ";" /\ nops = 0
New == Cardinality(DOMAIN l.items) + 1
Room == New <= MaxItems
Idle(k) == ph[k] = "sleep" /\ ~flag[k]
Quiescent == pend = 0 /\ \A k \in K : Idle(k)
Outside(k, c) == /\ pend = 0 /\ Room /\ nops < MaxOps /\ nops' = nops + 1
                 /\ l' = Push(l, New, k) /\ q' = [q EXCEPT ![k] = Append(@, New)] /\ pend' = New /\ kids' = kids @@ (New :> c)
                 /\ hist' = hist \o "p" \o ToString(k) \o ToString(c) \o " " /\ UNCHANGED <<batch, flag, ph>>
Wakeup == /\ pend # 0 /\ l' = Pushed(l, pend) /\ flag' = [flag EXCEPT ![l.items[pend].k] = TRUE] /\ pend' = 0
          /\ UNCHANGED <<q, batch, ph, kids, hist, nops>>
Settle == Quiescent /\ 0 < nops /\ nops < MaxOps /\ nops' = nops + 1 /\ hist' = hist \o "q " /\ UNCHANGED <<l, q, batch, flag, ph, pend, kids>>
Look(k) == ph[k] = "look" /\ ph' = [ph EXCEPT ![k] = IF q[k] # <<>> THEN "go" ELSE "sleep"] /\ UNCHANGED <<l, q, batch, flag, pend, kids, hist, nops>>
Wake(k) == ph[k] = "sleep" /\ flag[k] /\ flag' = [flag EXCEPT ![k] = FALSE] /\ ph' = [ph EXCEPT ![k] = IF q[k] # <<>> THEN "go" ELSE "look"]
           /\ UNCHANGED <<l, q, batch, pend, kids, hist, nops>>
TakeAll(k) == ph[k] = "go" /\ batch[k] = <<>> /\ l.cur[k] = 0 /\ q[k] # <<>> /\ batch' = [batch EXCEPT ![k] = q[k]] /\ q' = [q EXCEPT ![k] = <<>>]
              /\ ph' = [ph EXCEPT ![k] = "run"] /\ UNCHANGED <<l, flag, pend, kids, hist, nops>>
Start(k) == /\ ph[k] = "run" /\ l.cur[k] = 0 /\ batch[k] # <<>> /\ l' = Run(l, Head(batch[k])) /\ batch' = [batch EXCEPT ![k] = Tail(@)]
            /\ UNCHANGED <<q, flag, ph, pend, kids, hist, nops>>
Kid(k) == /\ l.cur[k] # 0 /\ kids[l.cur[k]] > 0 /\ Room /\ kids' = (New :> 0) @@ [kids EXCEPT ![l.cur[k]] = @ - 1]
          /\ l' = Pushed(Push(l, New, k), New) /\ q' = [q EXCEPT ![k] = Append(@, New)]        \* its own loop: nobody to wake
          /\ UNCHANGED <<batch, flag, ph, pend, hist, nops>>
Finish(k) == /\ l.cur[k] # 0 /\ (kids[l.cur[k]] = 0 \/ ~Room) /\ l' = Done(l, l.cur[k])
             /\ ph' = [ph EXCEPT ![k] = IF batch[k] = <<>> THEN "look" ELSE "run"] /\ UNCHANGED <<q, batch, flag, pend, kids, hist, nops>>
Next == \/ \E k \in K, c \in 0..MaxKids : Outside(k, c)
        \/ Wakeup \/ Settle \/ \E k \in K : Look(k) \/ Wake(k) \/ TakeAll(k) \/ Start(k) \/ Kid(k) \/ Finish(k)
Spec == Init /\ [][Next]_vars
Allowed == [][\A x \in DOMAIN l.items : l.items[x].st # "running" /\ l'.items[x].st = "running" => CanRun(l, x, l.owner[l.items[x].k])]_vars
Inv == LoopInv(l) /\ (Quiescent => AllDone(l))
NoHist == <<l, q, batch, flag, ph, pend, kids, nops>>
Emit == PrintT(<<"SCRIPT", hist'>>)
==============================================================================
