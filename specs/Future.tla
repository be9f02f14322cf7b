------------------------------- MODULE Future -------------------------------
(* Futures, the graph of dependencies between them, and what flows through it. *)
(* One record F describes every future of a program:                           *)
(*   kind    what it is: promise, cpromise (with a cancellable), cancel,       *)
(*           infinite, static, then.. finallyloop, all, any, first, race,      *)
(*           delayed                                                           *)
(*   mem     its inputs, in order                                              *)
(*   out     "P" (pending), a value "i7", or an error "E:..."                  *)
(*   regs    registrations [up, down, ix, val]: down wants to hear of up;      *)
(*           val = "P" while armed, the outcome once the notification is due   *)
(*   cb      blocks: idle, torun, running, waiting (for a returned future),    *)
(*           spent (the callback returned nothing)                             *)
(*   see     blocks: the outcome the callback is to see                        *)
(*   home    blocks: the thread whose scheduler runs the callback              *)
(*   cnt     sets: members heard of, <<resolved, rejected>>                    *)
(*   disc    discards still to be done: <<member, set>>                        *)
(*   data    blocks: futures the callback data keeps alive                     *)
(*   uref    references held by the program                                    *)
(*   told    futures that have been told to stop                               *)
(*   open    delayed futures that have been released                           *)
(*   gone    finalized; wiped: callback data destroyed                         *)
(* Every operator below is one atomic step; the notifications, finalizations   *)
(* and discards it causes are separate steps, taken in any order.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
NewFutures == [ kind |-> Empty, mem |-> Empty, out |-> Empty, regs |-> {}, cb |-> Empty, see |-> Empty, home |-> Empty,
                cnt |-> Empty, disc |-> {}, uref |-> Empty, told |-> {}, open |-> {}, gone |-> {}, wiped |-> {}, src |-> Empty, data |-> Empty, used |-> {} ]
Set1(f, k, v) == (k :> v) @@ f
Elems(s) == { s[n] : n \in 1..Len(s) }
IsErr(o) == Len(o) >= 2 /\ SubSeq(o, 1, 2) = "E:"
Done(F, n) == F.out[n] # "P"
Nodes(F) == DOMAIN F.kind
Blocks == {"then", "catch", "finally", "thenloop", "catchloop", "finallyloop"}
Loops == {"thenloop", "catchloop", "finallyloop"}
SetKinds == {"all", "any", "first", "race"}
IsBlock(F, n) == F.kind[n] \in Blocks
IsSet(F, n) == F.kind[n] \in SetKinds
Handles(k, o) == CASE k \in {"then", "thenloop"} -> ~IsErr(o)
                   [] k \in {"catch", "catchloop"} -> IsErr(o)
                   [] OTHER -> TRUE
DepFailed == "E:DEPENDENCY_FAILED"

(* completion: the first one wins, everybody registered is to be notified *)
Complete(F, n, o) ==
  IF Done(F, n) \/ n \in F.gone THEN F
  ELSE [F EXCEPT !.out[n] = o,
                 !.regs = { IF r.up = n THEN [r EXCEPT !.val = o] ELSE r : r \in @ }]
Reg(F, up, down, ix) ==
  [F EXCEPT !.regs = @ \cup {[up |-> up, down |-> down, ix |-> ix, val |-> F.out[up]]}]

New(F, n, k, ms, o) ==
  [F EXCEPT !.kind = Set1(@, n, k), !.mem = Set1(@, n, ms), !.out = Set1(@, n, o), !.uref = Set1(@, n, 1),
            !.cb = Set1(@, n, "idle"), !.see = Set1(@, n, ""), !.home = Set1(@, n, 0), !.cnt = Set1(@, n, <<0, 0>>), !.src = Set1(@, n, 0), !.data = Set1(@, n, {})]
NewPlain(F, n, k) == New(F, n, k, <<>>, "P")
NewStatic(F, n, o) == New(F, n, "static", <<>>, o)
NewBlock(F, n, k, up, home, data) == [Reg(New(F, n, k, <<up>>, "P"), up, n, 1) EXCEPT !.home[n] = home, !.data[n] = data]
RECURSIVE RegAll(_, _, _)
RegAll(F, n, ix) == IF ix > Len(F.mem[n]) THEN F ELSE RegAll(Reg(F, F.mem[n][ix], n, ix), n, ix + 1)
NewSet(F, n, k, ms) == RegAll(New(F, n, k, ms, "P"), n, 1)
NewDisown(F, n, up) == [Reg(New(F, n, "disown", <<up>>, "P"), up, n, 1) EXCEPT !.uref[n] = 0]
NewDelayed(F, n, up) == Reg(New(F, n, "delayed", <<up>>, "P"), up, n, 1)

(* who keeps whom alive *)
Holds(F, m) ==
  CASE IsBlock(F, m) -> { r.up : r \in { q \in F.regs : q.down = m } } \cup (IF F.cb[m] \in {"torun", "running"} THEN {F.src[m]} ELSE {})
    [] IsSet(F, m) -> Elems(F.mem[m])
    [] F.kind[m] = "disown" -> { r.up : r \in { q \in F.regs : q.down = m } }
    [] F.kind[m] = "delayed" -> IF Done(F, m) \/ m \in F.told THEN {} ELSE Elems(F.mem[m])
    [] OTHER -> {}
Referenced(F, n) == \/ F.uref[n] > 0
                    \/ F.cb[n] \in {"torun", "running"}
                    \/ F.kind[n] = "disown" /\ ~Done(F, n)
                    \/ \E d \in F.disc : d[1] = n
                    \/ \E m \in Nodes(F) \ F.gone : m # n /\ n \in Holds(F, m)
                    \/ \E m \in Nodes(F) \ F.wiped : n \in F.data[m]
Garbage(F) == { n \in Nodes(F) \ F.gone : ~Referenced(F, n) }

(* does anybody else await m? *)
Awaited(F, m) == \E r \in F.regs : r.up = m /\ r.val = "P" /\ r.down \notin F.gone
RECURSIVE Discard(_, _, _)
Tell(F, m) ==
  LET F1 == [F EXCEPT !.told = @ \cup {m}] IN
  IF F.kind[m] = "delayed" /\ ~Done(F, m) /\ m \notin F.told THEN Discard(F1, F.mem[m][1], m) ELSE F1
Discard(F, m, s) ==
  LET mine == { r \in F.regs : r.up = m /\ r.down = s /\ r.val = "P" }
      F1 == [F EXCEPT !.regs = @ \ mine]
  IN IF mine = {} THEN F ELSE IF Awaited(F1, m) THEN F1 ELSE Tell(F1, m)
AllDiscards(F, n) == { <<m, n>> : m \in Elems(F.mem[n]) }

(* a set hears of one more member *)
SetHears(F, n, o) ==
  LET c == IF IsErr(o) THEN <<F.cnt[n][1], F.cnt[n][2] + 1>> ELSE <<F.cnt[n][1] + 1, F.cnt[n][2]>>
      last == c[1] + c[2] = Len(F.mem[n])
      k == F.kind[n]
      early == (k \in {"any", "first"} /\ ~IsErr(o)) \/ (k \in {"race", "first"} /\ IsErr(o))
      res == IF early THEN o
             ELSE IF IsErr(o) THEN DepFailed        \* all, any: the last one failed
             ELSE "true"                            \* all, race: the last one succeeded
      F1 == [F EXCEPT !.cnt[n] = c]
  IN IF Done(F, n) THEN F
     ELSE IF early \/ last THEN [Complete(F1, n, res) EXCEPT !.disc = @ \cup AllDiscards(F, n)] ELSE F1

(* one notification arrives *)
Deliver(F, r) ==
  LET n == r.down  F1 == [F EXCEPT !.regs = @ \ {r}] IN
  CASE IsSet(F, n) -> SetHears(F1, n, r.val)
    [] F.kind[n] = "delayed" -> IF n \in F.open /\ n \notin F.told THEN Complete(F1, n, r.val) ELSE F1
    [] F.kind[n] = "disown" -> Complete(F1, n, r.val)
    [] IsBlock(F, n) ->
         IF F.cb[n] # "spent" /\ (F.kind[n] \in Loops \/ n \notin F.used) /\ Handles(F.kind[n], r.val)
         THEN [F1 EXCEPT !.cb[n] = "torun", !.see[n] = r.val, !.src[n] = r.up, !.used = @ \cup {n}]
         ELSE [Complete(F1, n, r.val) EXCEPT !.used = @ \cup {n}]
Due(F) == { r \in F.regs : r.val # "P" /\ r.down \notin F.gone }

(* a set that is released discards its members before it lets go of them *)
Finalize(F, n) ==
  LET F1 == [F EXCEPT !.gone = @ \cup {n}, !.regs = { r \in @ : r.up # n \/ r.val # "P" }] IN
  IF IsSet(F, n) THEN [F1 EXCEPT !.disc = @ \cup AllDiscards(F, n)]
  ELSE [F1 EXCEPT !.regs = { r \in @ : r.down # n }]
DoDiscard(F, d) ==
  LET F1 == Discard([F EXCEPT !.disc = @ \ {d}], d[1], d[2]) IN
  IF d[2] \in F.gone THEN [F1 EXCEPT !.regs = { r \in @ : r.up # d[1] \/ r.down # d[2] }] ELSE F1

(* callbacks *)
CbStart(F, n) == [F EXCEPT !.cb[n] = "running"]
CbNothing(F, n) ==
  [F EXCEPT !.cb[n] = "spent", !.regs = @ \cup {[up |-> 0, down |-> n, ix |-> 0, val |-> F.see[n]]}]
CbStatic(F, n, o) ==
  [F EXCEPT !.cb[n] = "waiting", !.regs = @ \cup {[up |-> 0, down |-> n, ix |-> 0, val |-> o]}]
CbNode(F, n, m) == Reg([F EXCEPT !.cb[n] = "waiting"], m, n, 0)
MayWipe(F, n) == n \notin F.wiped /\ IsBlock(F, n) /\ (F.cb[n] = "spent" \/ n \in F.gone)
Wipe(F, n) == [F EXCEPT !.wiped = @ \cup {n}]

Release(F, n) ==
  IF n \in F.told THEN [F EXCEPT !.open = @ \cup {n}]
  ELSE IF Done(F, F.mem[n][1]) THEN Complete([F EXCEPT !.open = @ \cup {n}], n, F.out[F.mem[n][1]])
  ELSE [F EXCEPT !.open = @ \cup {n}]
(* what a delayed future still stands for *)
Delays(F, n) == IF n \in F.open \/ n \in F.told THEN 0 ELSE F.mem[n][1]
TakeRef(F, n) == [F EXCEPT !.uref[n] = @ + 1]
Drop(F, n) == [F EXCEPT !.uref[n] = @ - 1]

Quiet(F) == Due(F) = {} /\ Garbage(F) = {} /\ F.disc = {} /\ \A n \in Nodes(F) : F.cb[n] \notin {"torun", "running"}

-----------------------------------------------------------------------------
(* The properties, at rest. *)
Count(F, n, P(_)) == Cardinality({ ix \in 1..Len(F.mem[n]) : P(F.out[F.mem[n][ix]]) })
(* C04: a set has an outcome exactly when its members force one *)
SetForced(F, n) ==
  LET ok == Count(F, n, LAMBDA o : o # "P" /\ ~IsErr(o))  bad == Count(F, n, LAMBDA o : IsErr(o))
      k == F.kind[n] IN
  \/ ok + bad = Len(F.mem[n])
  \/ k \in {"any", "first"} /\ ok > 0
  \/ k \in {"race", "first"} /\ bad > 0
SetOutcomeOk(F, n) ==
  LET os == { F.out[m] : m \in Elems(F.mem[n]) }  o == F.out[n]  k == F.kind[n] IN
  CASE k = "all" -> (o = "true" /\ \E x \in os : ~IsErr(x)) \/ (o = DepFailed /\ \E x \in os : IsErr(x))
    [] k = "any" -> (~IsErr(o) /\ o \in os) \/ (o = DepFailed /\ \A x \in os : IsErr(x))
    [] k = "race" -> (IsErr(o) /\ o \in os) \/ (o = "true" /\ \A x \in os : ~IsErr(x))
    [] k = "first" -> o \in os
C04(F) == \A n \in Nodes(F) \ F.gone : IsSet(F, n) =>
            /\ (Quiet(F) => (Done(F, n) <=> SetForced(F, n)))
            /\ (Done(F, n) => SetOutcomeOk(F, n))
(* C02: nobody is left waiting for something that has happened *)
C02(F) == Quiet(F) => \A n \in Nodes(F) \ F.gone :
            (IsBlock(F, n) /\ Done(F, F.mem[n][1])) => (n \in F.used \/ Done(F, n)) /\ (Done(F, n) \/ F.cb[n] = "waiting")
(* C03: a callback runs at most once (unless it loops) and only for what it handles *)
C03(F) == \A n \in Nodes(F) : IsBlock(F, n) =>
            /\ (F.cb[n] # "idle" => Handles(F.kind[n], F.see[n]))
            /\ (F.cb[n] \in {"torun", "running"} => ~Done(F, n) /\ n \notin F.gone)
            /\ (n \in F.wiped => F.cb[n] \notin {"torun", "running"})
(* C06 *)
C06(F) == \A n \in Nodes(F) \ F.gone : F.kind[n] = "delayed" =>
            /\ (Done(F, n) => n \in F.open /\ F.out[n] = F.out[F.mem[n][1]])
            /\ (Quiet(F) /\ n \in F.open /\ n \notin F.told => F.out[n] = F.out[F.mem[n][1]])
FutureInv(F) == C02(F) /\ C03(F) /\ C04(F) /\ C06(F)
=============================================================================
