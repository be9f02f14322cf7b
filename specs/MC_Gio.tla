-------------------------------- MODULE MC_Gio --------------------------------
(* Every sequence of operations on the futures of wrapped operations, one after   *)
(* the other.  Arguments and results are the driver's choice.                      *)
EXTENDS Gio
CONSTANTS Fns, MaxX, MaxD, MaxOps
VARIABLES s, busy, n, nd, hist
vars == <<s, busy, n, nd, hist>>
(* in the order of the driver *)
Order == <<"input_stream_read_bytes", "input_stream_read", "input_stream_skip", "input_stream_close", "output_stream_write_bytes", "output_stream_write", "output_stream_close", "output_stream_splice",
  "file_read", "file_replace", "file_query_info", "file_make_directory", "file_enumerate_children", "file_copy", "file_load_contents", "file_query_exists",
  "file_enumerator_next_files", "socket_listener_accept", "socket_client_connect", "io_stream_close", "resolver_lookup_by_name",
  "dbus_connection_send_message_with_reply", "dbus_connection_call", "dbus_connection_call_with_unix_fd_list", "bus_get", "subprocess_wait_check">>
ASSUME {Order[k] : k \in 1..Len(Order)} = DOMAIN Wrappers
Init == s = NewGio /\ busy = {} /\ n = 0 /\ nd = <<>> /\ hist = ""
S(k) == ToString(k)
Step(op) == n' = n + 1 /\ hist' = hist \o op \o " "
Held == {x \in Xs(s) : s.p[x].held}
All(x, err) == LET o == IF err THEN "E:x" ELSE "r" IN
               LET a == IF IsSet(s, x) THEN Deliver(Deliver(s, x, "2", err, o, "l"), x, "1", err, o, "l") ELSE s IN Deliver(a, x, "f", err, o, "l")
Let(a, x, out) == IF out /\ Undecided(s, x) THEN Stop(a, x) ELSE a
Next == /\ n < MaxOps
        /\ \/ LET x == Cardinality(Xs(s)) + 1 IN x <= MaxX /\ \E k \in Fns :
                Step("n" \o S(k)) /\ s' = New(s, x, Order[k + 1]) /\ busy' = busy \cup {x} /\ UNCHANGED nd
           \/ \E x \in busy : \E err \in BOOLEAN : Step((IF err THEN "e" ELSE "d") \o S(x)) /\ s' = All(x, err) /\ busy' = busy \ {x} /\ UNCHANGED nd
           \/ \E x \in Held : Len(nd) < MaxD /\ Step("w" \o S(x)) /\ s' = Want(s, x, Len(nd) + 1) /\ nd' = Append(nd, x) /\ UNCHANGED busy
           \/ \E d \in 1..Len(nd) : nd[d] # 0 /\ Step("u" \o S(d)) /\ s' = Let(Unwant(s, nd[d], d), nd[d], Unwanted(s, nd[d], d)) /\ nd' = [nd EXCEPT ![d] = 0] /\ UNCHANGED busy
           \/ \E x \in Held : Step("k" \o S(x)) /\ s' = Let(Drop(s, x), x, Released(s, x)) /\ UNCHANGED <<busy, nd>>
Spec == Init /\ [][Next]_vars
(* one whose result is out was delivered; one whom nobody discarded runs on *)
Inv == \A x \in Xs(s) : /\ (s.p[x].dec = "") = (x \in busy)
                        /\ s.p[x].canc => (IsSet(s, x) => ~s.p[x].held)
Final == [][\A x \in Xs(s) : (s.p[x].dec # "" => s'.p[x].dec = s.p[x].dec /\ s'.p[x].canc = s.p[x].canc) /\ (s.p[x].canc => s'.p[x].canc)]_vars
NoHist == <<s, busy, n, nd>>
Emit == PrintT(<<"SCRIPT", hist'>>)
================================================================================
