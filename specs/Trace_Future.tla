---------------------------- MODULE Trace_Future ----------------------------
(* Explains recorded runs of real graphs of futures.  A call takes effect at    *)
(* one point between its call and its ret; notifications, finalizations and     *)
(* discards are not visible and happen as needed; callbacks and the destruction *)
(* of their data are.                                                           *)
EXTENDS Integers, Future, TraceBase
VARIABLES F, pend
vars == <<tid, i, F, pend>>
None == [st |-> "none"]
Init == /\ tid \in 1..Len(Traces) /\ i = 3
        /\ F = NewFutures /\ pend = [t \in {} |-> None]
Pend(t) == IF t \in DOMAIN pend THEN pend[t] ELSE None
Call == /\ Is("call") /\ Pend(Ev.t).st = "none"
        /\ pend' = Set1(pend, Ev.t, [st |-> "called", ev |-> Ev, o |-> "P", v |-> 0])
        /\ UNCHANGED F /\ Consume
After(e) ==
  LET k == e.op IN
  CASE k \in {"promise", "cpromise", "cancel", "infinite"} -> NewPlain(F, e.id, k)
    [] k = "static" -> NewStatic(F, e.id, e.val)
    [] k \in Blocks -> NewBlock(F, e.id, k, e.mem[1], e.home, Elems(e.data))
    [] k \in SetKinds -> NewSet(F, e.id, k, e.mem)
    [] k = "delayed" -> NewDelayed(F, e.id, e.mem[1])
    [] k = "disown" -> NewDisown(F, e.id, e.mem[1])
    [] k = "resolve" -> Complete(F, e.n, "i" \o ToString(e.id))
    [] k = "reject" -> Complete(F, e.n, "E:T." \o ToString(e.id))
    [] k = "cancel1" -> Complete(F, e.n, "E:CANCELLED")
    [] k = "release" -> Release(F, e.n)
    [] k = "drop" -> Drop(F, e.n)
    [] k = "ref" -> TakeRef(F, e.n)
    [] k \in {"read", "dup"} -> F
    [] k = "cbret" -> CASE e.ret = 0 -> CbNothing(F, e.n) [] e.ret = -1 -> CbStatic(F, e.n, e.o) [] OTHER -> CbNode(F, e.n, e.ret)
Effect(t) ==
  LET p == pend[t]  e == p.ev IN
  /\ F' = After(e)
  /\ pend' = IF e.op = "cbret" THEN Set1(pend, t, None)
             ELSE Set1(pend, t, [p EXCEPT !.st = "done", !.o = IF e.op = "read" THEN F.out[e.n] ELSE "P",
                                          !.v = IF e.op = "dup" THEN Delays(F, e.n) ELSE 0])
(* being told is for ever: the last picture bounds it *)
LastSnap == Traces[tid][Len(Traces[tid]) - 1]
ToldOk == LastSnap.e = "snap" => \A n \in F'.told : F.kind[n] = "cpromise" => \E k \in 1..Len(LastSnap.told) : LastSnap.told[k] = n
Visible == More /\ Ev.e # "call"
Settled == Pend(Ev.t).st = "done"
(* runs of one thread: all that follows from a call follows before it returns, *)
(* and says who has been told                                                   *)
Alone == Traces[tid][2].seq
ToldNow == { n \in F.told : F.kind[n] = "cpromise" }
Steps == \/ \E r \in Due(F) : F' = Deliver(F, r)
         \/ \E g \in Garbage(F) : F' = Finalize(F, g)
         \/ \E d \in F.disc : F' = DoDiscard(F, d) /\ ToldOk
Runs(r) == IsBlock(F, r.down) /\ F.cb[r.down] # "spent" /\ (F.kind[r.down] \in Loops \/ r.down \notin F.used) /\ Handles(F.kind[r.down], r.val)
AtRest == (\A t \in DOMAIN pend : pend[t].st # "called") /\ (\A r \in Due(F) : Runs(r)) /\ Garbage(F) = {} /\ F.disc = {}
Ready == CASE Ev.e = "ret" -> Settled /\ (Alone => AtRest)
           [] Ev.e = "cb" -> Ev.n \in Nodes(F) /\ F.cb[Ev.n] = "torun"
           [] Ev.e = "destroy" -> Ev.n \in Nodes(F) /\ MayWipe(F, Ev.n)
           [] Ev.e = "snap" -> Quiet(F) /\ \A t \in DOMAIN pend : pend[t].st = "none"
           [] OTHER -> TRUE
(* Which invisible steps can matter for the event that comes next.  Everything  *)
(* else is left for later: it commutes with the steps taken now.                *)
(*   Sens: futures on which a discard and another step do not commute           *)
Tellable(n) == F.kind[n] \in {"cpromise", "delayed"}
Sens == { r.up : r \in { q \in F.regs : q.val = "P" /\ q.up # 0 /\ Tellable(q.up) /\ F.kind[q.down] \in SetKinds \cup {"delayed"} } }
Touched(e) == CASE e.op \in {"resolve", "reject", "cancel1", "release"} -> {e.n}
                [] e.op \in Blocks \cup SetKinds \cup {"delayed", "disown"} -> Elems(e.mem)
                [] e.op = "cbret" -> {e.ret}
                [] OTHER -> {}
Sensitive == \E t \in DOMAIN pend : pend[t].st = "called" /\ Touched(pend[t].ev) \cap Sens # {}
RECURSIVE Above(_, _)
Above(S, k) == LET S2 == S \cup (UNION { Elems(F.mem[n]) : n \in S }) \cup ({ r.up : r \in { q \in F.regs : q.down \in S } } \ {0})
               IN IF S2 = S \/ k = 0 THEN S ELSE Above(S2, k - 1)
Towards(n) == \E r \in { q \in Due(F) : q.down \in Above({n}, 100) } : F' = Deliver(F, r) /\ UNCHANGED pend
Effects == \E t \in DOMAIN pend : pend[t].st = "called" /\ Effect(t)
Other == Steps /\ UNCHANGED pend
(* at rest nothing else comes: steps that commute with all others go first      *)
Plain(r) == IF IsSet(F, r.down) THEN Done(F, r.down) ELSE ~Runs(r) /\ ~Tellable(r.down)
SafeDue == { r \in Due(F) : Plain(r) }
SafeFin == { g \in Garbage(F) : \A r \in F.regs : r.down = g /\ r.val = "P" /\ r.up # 0 => ~Tellable(r.up) }
SafeDisc == { d \in F.disc : ~Tellable(d[1]) \/ ~\E r \in F.regs : r.up = d[1] /\ r.down = d[2] /\ r.val = "P" }
Settle ==
  /\ UNCHANGED pend
  /\ IF SafeDue # {} THEN F' = Deliver(F, CHOOSE r \in SafeDue : TRUE)
     ELSE IF SafeFin # {} THEN F' = Finalize(F, CHOOSE g \in SafeFin : TRUE)
     ELSE IF SafeDisc # {} THEN F' = DoDiscard(F, CHOOSE d \in SafeDisc : TRUE) /\ ToldOk
     ELSE \/ \E r \in Due(F) : ~Runs(r) /\ F' = Deliver(F, r)
          \/ \E g \in Garbage(F) : F' = Finalize(F, g)
          \/ \E d \in F.disc : F' = DoDiscard(F, d) /\ ToldOk
AnyPending == \E t \in DOMAIN pend : pend[t].st = "called"
Reading == Ev.e = "ret" /\ Pend(Ev.t).st = "called" /\ Pend(Ev.t).ev.op = "read"
Hidden ==
  /\ Visible /\ ~Ready /\ Stay
  /\ CASE Alone /\ Ev.e = "ret" -> IF AnyPending THEN Effects ELSE Settle
       [] Alone /\ Ev.e = "cb" -> IF AnyPending THEN Effects ELSE IF Ev.n \in Nodes(F) /\ SafeDue = {} THEN Towards(Ev.n) \/ Settle ELSE Settle
       [] Alone /\ Ev.e = "destroy" -> IF AnyPending THEN Effects ELSE Settle
       [] Reading ->
            LET n == Pend(Ev.t).ev.n IN
            IF n \in Nodes(F) /\ F.out[n] = Ev.o THEN Effect(Ev.t)
            ELSE /\ n \in Nodes(F) => F.out[n] = "P"
                 /\ \/ n \in Nodes(F) /\ Towards(n)
                    \/ \E t \in DOMAIN pend : t # Ev.t /\ pend[t].st = "called" /\ Effect(t)
                    \/ Sensitive /\ Other
       [] Ev.e = "ret" /\ ~Reading ->
            Effect(Ev.t) \/ Effects \/ ((Pend(Ev.t).ev.op = "dup" \/ Sensitive) /\ Other)
       [] Ev.e = "cb" -> Effects \/ (Ev.n \in Nodes(F) /\ Towards(Ev.n)) \/ (Sensitive /\ Other)
       [] Ev.e = "snap" -> IF AnyPending THEN Effects \/ Other ELSE Settle
       [] OTHER -> Effects \/ Other
Ret == Is("ret") /\ Settled /\ Ev.o = pend[Ev.t].o /\ Ev.v = pend[Ev.t].v
       /\ (Alone => AtRest /\ Elems(Ev.told) = ToldNow /\ \A k \in 1..Len(Ev.now) : F.out[Ev.now[k][1]] = Ev.now[k][2])
       /\ pend' = Set1(pend, Ev.t, None) /\ UNCHANGED F /\ Consume
Cb == /\ Is("cb") /\ Ready
      /\ Ev.t = F.home[Ev.n] /\ Ev.see = F.see[Ev.n] /\ Ev.src = F.src[Ev.n]
      /\ F' = CbStart(F, Ev.n) /\ UNCHANGED pend /\ Consume
CbRet == /\ Is("cbret") /\ F.cb[Ev.n] = "running"
         /\ pend' = Set1(pend, 1000 + Ev.n, [st |-> "called", ev |-> [op |-> "cbret", n |-> Ev.n, ret |-> Ev.ret, o |-> Ev.o], o |-> "P", v |-> 0])
         /\ UNCHANGED F /\ Consume
Destroy == Is("destroy") /\ Ready /\ F' = Wipe(F, Ev.n) /\ UNCHANGED pend /\ Consume
Snap == /\ Is("snap") /\ Ready
        /\ \A k \in 1..Len(Ev.r) : F.out[Ev.r[k][1]] = Ev.r[k][2]
        /\ \A k \in 1..Len(Ev.mem) : F.mem[Ev.mem[k][1]] = Ev.mem[k][2]
        /\ Elems(Ev.alive) = { n \in Nodes(F) \ F.gone : F.kind[n] # "disown" }
        /\ Elems(Ev.told) = { n \in F.told : F.kind[n] = "cpromise" }
        /\ \A n \in Nodes(F) : ~MayWipe(F, n)
        /\ UNCHANGED <<F, pend>> /\ Consume
(* a chain of blocks of any length: each runs once, the value comes through *)
Deep == Is("deep") /\ Ev.ran = Ev.n /\ Ev.o = Ev.val /\ UNCHANGED <<F, pend>> /\ Consume
End == Is("end") /\ (Nodes(F) = F.gone => Ev.leak = 0) /\ UNCHANGED <<F, pend>> /\ Consume
Next == Call \/ Hidden \/ Ret \/ Cb \/ CbRet \/ Destroy \/ Snap \/ Deep \/ End
Spec == Init /\ [][Next]_vars
Inv == FutureInv(F)
=============================================================================
