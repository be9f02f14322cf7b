-------------------------------- MODULE Sem --------------------------------
(* The semaphore of the work queues.                                          *)
(*   count   posts nobody has used            queue  waits, in order of asking *)
(*   st      wait -> "queued", "granted", "rejected", "done" (its asker has    *)
(*           seen it complete)                on     wait -> scheduler          *)
(*   closed  it has been closed               used, posted  totals              *)
(*   gone    waits which their asker has dropped                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NewSem == [ count |-> 0, queue |-> <<>>, st |-> <<>>, on |-> <<>>, closed |-> FALSE, used |-> 0, posted |-> 0, gone |-> {} ]
Put(f, x, v) == (x :> v) @@ f
Elems(q) == { q[k] : k \in 1..Len(q) }
(* A wait uses up a post, or queues.  What a wait does after the close is not   *)
(* promised: it may be rejected as well.                                        *)
Wait(s, id, k) ==
  LET t == [s EXCEPT !.on = Put(@, id, k)] IN
  IF s.count > 0 THEN [t EXCEPT !.count = @ - 1, !.used = @ + 1, !.st = Put(@, id, "granted")]
  ELSE [t EXCEPT !.queue = Append(@, id), !.st = Put(@, id, "queued")]
WaitClosed(s, id, k) == [s EXCEPT !.on = Put(@, id, k), !.st = Put(@, id, "rejected")]
Post(s, n) ==
  LET m == IF s.count + n < Len(s.queue) THEN s.count + n ELSE Len(s.queue)
      served == { s.queue[k] : k \in 1..m }
  IN [s EXCEPT !.count = @ + n - m, !.posted = @ + n, !.used = @ + m, !.queue = SubSeq(@, m + 1, Len(@)),
               !.st = [ x \in DOMAIN @ |-> IF x \in served THEN "granted" ELSE @[x] ]]
Close(s) == [s EXCEPT !.closed = TRUE, !.queue = <<>>, !.st = [ x \in DOMAIN @ |-> IF x \in Elems(s.queue) THEN "rejected" ELSE @[x] ]]
Drop(s, id) == [s EXCEPT !.gone = @ \cup {id}]
(* how the wait shows to its asker once it is complete *)
CanDone(s, id, t, o) == id \in DOMAIN s.st /\ id \notin s.gone /\ s.on[id] = t
                        /\ CASE s.st[id] = "granted" -> o = "true" [] s.st[id] = "rejected" -> o = "E:SEMAPHORE_CLOSED" [] OTHER -> FALSE
Done(s, id) == [s EXCEPT !.st[id] = "done"]
(* nobody is left waiting who has been served *)
Quiet(s) == \A x \in DOMAIN s.st : s.st[x] \in {"queued", "done"} \/ x \in s.gone
SemInv(s) == /\ s.count >= 0 /\ (s.count > 0 => s.queue = <<>>)
             /\ s.posted = s.count + s.used
             /\ \A j, k \in 1..Len(s.queue) : j < k => s.queue[j] # s.queue[k]
             /\ \A x \in DOMAIN s.st : s.st[x] = "queued" <=> x \in Elems(s.queue)
=============================================================================
