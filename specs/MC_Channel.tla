------------------------------ MODULE MC_Channel ------------------------------
(* Bounded exhaustive exploration of one channel, every operation at every     *)
(* point, and the transition cover that is replayed on the real code.           *)
EXTENDS Channel, Json, TLCExt
CONSTANTS Caps, MaxOps, Ops
VARIABLES c, n, hist
vars == <<c, n, hist>>
Init == \E k \in Caps : c = NewChannel(k) /\ n = 0 /\ hist = ToString(k) \o ";"
Step(op, c2) == c' = c2 /\ n' = n + 1 /\ hist' = hist \o op \o " "
Id == n + 1
T == ToString(Id)
Later == { i \in Elems(c.acc) : i \notin c.ready }
Next ==
  /\ n < MaxOps
  /\ \/ "send" \in Ops /\ Step("s" \o T, Fulfil(Send(c, Id), Id))
     \/ "later" \in Ops /\ Cardinality(Later) < 2 /\ Step("l" \o T, Send(c, Id))
     \/ "bad" \in Ops /\ c.bad = {} /\ Step("x" \o T, Spoil(Send(c, Id), Id))
     \/ "bad" \in Ops /\ c.bad = {} /\ \E i \in Later : Step("g" \o T \o "." \o ToString(i), Spoil(c, i))
     \/ "recv" \in Ops /\ Step("r" \o T, Receive(c, Id, FALSE))
     \/ "all" \in Ops /\ Step("a" \o T, RecvAll(c, Id))
     \/ "close" \in Ops /\ c.cs /\ Step("C" \o T, CloseSend(c))
     \/ "close" \in Ops /\ c.cr /\ Step("D" \o T, CloseReceive(c))
     \/ \E i \in Later : Step("f" \o T \o "." \o ToString(i), Fulfil(c, i))
Spec == Init /\ [][Next]_vars
Inv == ChannelInv(c)
NoHist == <<c, n>>
Emit == PrintT(<<"SCRIPT", hist'>>)
==============================================================================
