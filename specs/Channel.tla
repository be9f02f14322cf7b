------------------------------- MODULE Channel -------------------------------
(* DexChannel: a bounded FIFO between senders and receivers.                  *)
(* The state of one channel is the record built by NewChannel; every critical *)
(* section of dex-channel.c is one operator from state to state.              *)
(*   queue  items accepted within the capacity, oldest first                  *)
(*   sendq  items whose sender waits for room                                 *)
(*   recvq  receivers waiting for an item                                     *)
(*   sres   what each send() future reports: "P", "u<n>" or an error          *)
(*   rres   what each receive()/receive_all() future is bound to              *)
(* Histories, used only to state the properties:                              *)
(*   acc    items accepted, in order                                          *)
(*   out    items handed to receivers, in order                               *)
(*   reg    receivers registered in order ; srv receivers served in order     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Closed == "E:CHANNEL_CLOSED"
Unlimited == 1000000

NewChannel(c) ==
  [ cap |-> IF c = 0 THEN Unlimited ELSE c,
    queue |-> <<>>, sendq |-> <<>>, recvq |-> <<>>,
    cs |-> TRUE, cr |-> TRUE,
    sres |-> [x \in {} |-> ""], rres |-> [x \in {} |-> [k |-> "w", items |-> <<>>, all |-> FALSE]],
    ready |-> {}, bad |-> {}, lost |-> {},
    acc |-> <<>>, out |-> <<>>, reg |-> <<>>, srv |-> <<>> ]

Put(f, k, v) == (k :> v) @@ f
QLen(n) == "u" \o ToString(n)

(* A receiver and an item meet; then the oldest waiting sender moves up. *)
Pair(c) ==
  IF c.queue = <<>> \/ c.recvq = <<>> THEN c
  ELSE LET r == Head(c.recvq)
           i == Head(c.queue)
           c1 == [c EXCEPT !.recvq = Tail(@), !.queue = Tail(@),
                           !.rres = Put(@, r, [c.rres[r] EXCEPT !.k = "i", !.items = <<i>>]),
                           !.out = Append(@, i), !.srv = Append(@, r)]
       IN IF c1.sendq # <<>> /\ Len(c1.queue) < c1.cap
          THEN [c1 EXCEPT !.queue = Append(@, Head(c1.sendq)), !.sendq = Tail(@),
                          !.sres = Put(@, Head(c1.sendq), QLen(Len(c1.queue) + 1))]
          ELSE c1

Send(c, id) ==
  IF ~c.cs \/ ~c.cr THEN [c EXCEPT !.sres = Put(@, id, Closed)]
  ELSE IF c.sendq = <<>> /\ Len(c.queue) < c.cap
  THEN Pair([c EXCEPT !.queue = Append(@, id), !.acc = Append(@, id),
                      !.sres = Put(@, id, QLen(Len(c.queue) + 1))])
  ELSE [c EXCEPT !.sendq = Append(@, id), !.acc = Append(@, id), !.sres = Put(@, id, "P")]

Receive(c, id, all) ==
  IF ~c.cr \/ (~c.cs /\ Len(c.queue) + Len(c.sendq) <= Len(c.recvq))
  THEN [c EXCEPT !.rres = Put(@, id, [k |-> "c", items |-> <<>>, all |-> all])]
  ELSE Pair([c EXCEPT !.recvq = Append(@, id), !.reg = Append(@, id),
                      !.rres = Put(@, id, [k |-> "w", items |-> <<>>, all |-> all])])

(* Room was made: waiting senders move up while the capacity allows. *)
RECURSIVE Refill(_)
Refill(c) ==
  IF c.sendq # <<>> /\ Len(c.queue) < c.cap
  THEN Refill([c EXCEPT !.queue = Append(@, Head(c.sendq)), !.sendq = Tail(@),
                        !.sres = Put(@, Head(c.sendq), QLen(Len(c.queue) + 1))])
  ELSE c

(* receive_all() takes the whole queue at once, or waits like receive(). *)
RecvAllTakes(c) == c.cr /\ c.queue # <<>>
RecvAllNow(c, id) ==
  IF ~c.cr THEN [c EXCEPT !.rres = Put(@, id, [k |-> "c", items |-> <<>>, all |-> FALSE])]
  ELSE Refill([c EXCEPT !.queue = <<>>, !.out = @ \o c.queue,
                        !.rres = Put(@, id, [k |-> "i", items |-> c.queue, all |-> TRUE])])
RecvAll(c, id) == IF ~c.cr \/ c.queue # <<>> THEN RecvAllNow(c, id) ELSE Receive(c, id, TRUE)

RejectR(f, rs) == [r \in DOMAIN f |-> IF r \in rs THEN [f[r] EXCEPT !.k = "c"] ELSE f[r]]
RejectS(f, ss) == [s \in DOMAIN f |-> IF s \in ss THEN Closed ELSE f[s]]
Elems(s) == { s[n] : n \in 1..Len(s) }

CloseSend(c) ==
  LET pending == Len(c.queue) + Len(c.sendq)
      keep == IF Len(c.recvq) > pending THEN SubSeq(c.recvq, 1, pending) ELSE c.recvq
      cut == Elems(c.recvq) \ Elems(keep)
  IN [c EXCEPT !.cs = FALSE, !.recvq = keep, !.rres = RejectR(@, cut)]

CloseReceive(c) ==
  [c EXCEPT !.cr = FALSE, !.queue = <<>>, !.sendq = <<>>, !.recvq = <<>>,
            !.rres = RejectR(@, Elems(c.recvq)), !.sres = RejectS(@, Elems(c.sendq)),
            !.lost = @ \cup Elems(c.queue) \cup Elems(c.sendq)]

Fulfil(c, item) == [c EXCEPT !.ready = @ \cup {item}]
(* an item may turn out to be an error, which is delivered like any other value *)
Spoil(c, item) == [c EXCEPT !.ready = @ \cup {item}, !.bad = @ \cup {item}]
Free(c) == CloseReceive(CloseSend(c))

(* What an observer of the returned futures sees. *)
ItemText(c, i) == IF i \in c.bad THEN "E:g-io-error-quark." \o ToString(1000 + i) ELSE "i" \o ToString(i)
RECURSIVE Join(_, _)
Join(c, s) == IF s = <<>> THEN "" ELSE ":" \o ItemText(c, Head(s)) \o Join(c, Tail(s))
Failed == "E:DEPENDENCY_FAILED"
(* all of them: fails when all fail, or when the last to complete does *)
RView(c, id) ==
  LET r == c.rres[id]  bad == Elems(r.items) \cap c.bad  a == "A" \o Join(c, r.items) IN
  CASE r.k = "c" -> {IF r.all THEN Failed ELSE Closed}
    [] r.k = "w" -> {"P"}
    [] r.k = "i" -> IF ~(Elems(r.items) \subseteq c.ready) THEN {"P"}
                    ELSE IF ~r.all THEN {ItemText(c, Head(r.items))}
                    ELSE IF bad = {} THEN {a} ELSE IF bad = Elems(r.items) THEN {Failed} ELSE {a, Failed}
View(c, id) == IF id \in DOMAIN c.sres THEN {c.sres[id]} ELSE RView(c, id)
Known(c) == DOMAIN c.sres \cup DOMAIN c.rres

------------------------------------------------------------------------------
(* The properties. *)
(* C07: what was handed out, and then what is queued, is what was accepted, in  *)
(* the order of acceptance: nothing lost, duplicated, invented or overtaken.    *)
Fifo(c) == IF c.cr THEN c.out \o c.queue \o c.sendq = c.acc
           ELSE c.out = SubSeq(c.acc, 1, Len(c.out))
ReceiversInOrder(c) ==
  /\ \A a, b \in 1..Len(c.srv) : a # b => c.srv[a] # c.srv[b]
  /\ c.srv = SubSeq(c.reg, 1, Len(c.srv))
(* C08: never more than the capacity is accepted; a sender waits exactly while  *)
(* the queue is full; nobody waits for what is there.                           *)
Capacity(c) == /\ Len(c.queue) <= c.cap
               /\ c.sendq # <<>> => Len(c.queue) = c.cap
               /\ \A s \in DOMAIN c.sres : c.sres[s] = "P" <=> s \in Elems(c.sendq)
NoIdleMatch(c) == c.recvq # <<>> => c.queue = <<>> /\ c.sendq = <<>>
(* C09: closing settles everything it must and nothing else. *)
CloseSettles(c) ==
  /\ ~c.cs /\ c.queue = <<>> => c.recvq = <<>>
  /\ ~c.cr => c.queue = <<>> /\ c.sendq = <<>> /\ c.recvq = <<>>
  /\ \A r \in DOMAIN c.rres : c.rres[r].k = "w" <=> r \in Elems(c.recvq)
ChannelInv(c) == Fifo(c) /\ ReceiversInOrder(c) /\ Capacity(c) /\ NoIdleMatch(c) /\ CloseSettles(c)
==============================================================================
