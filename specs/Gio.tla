--------------------------------- MODULE Gio ---------------------------------
(* Wrappers of GIO operations.                                                   *)
(* x -> [ fn: the wrapper, dec: outcome ("": none yet), canc: the operation was   *)
(*   told to stop, held: its owner has it, deps: those who await it,              *)
(*   m: outcomes of its members (a call with descriptors is a set of two) ]       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
(* wrapper -> the operation it starts, and what its future resolves to, given the *)
(* text of the result of the operation                                            *)
Wrappers ==
  ("input_stream_read_bytes" :> <<"g_input_stream_read_bytes_async", "bytes:">>) @@
  ("input_stream_read" :> <<"g_input_stream_read_async", "int64:">>) @@
  ("input_stream_skip" :> <<"g_input_stream_skip_async", "int64:">>) @@
  ("input_stream_close" :> <<"g_input_stream_close_async", "boolean:1">>) @@
  ("output_stream_write_bytes" :> <<"g_output_stream_write_bytes_async", "int64:">>) @@
  ("output_stream_write" :> <<"g_output_stream_write_async", "int64:">>) @@
  ("output_stream_close" :> <<"g_output_stream_close_async", "boolean:1">>) @@
  ("output_stream_splice" :> <<"g_output_stream_splice_async", "int64:">>) @@
  ("file_read" :> <<"g_file_read_async", "object:">>) @@
  ("file_replace" :> <<"g_file_replace_async", "object:">>) @@
  ("file_query_info" :> <<"g_file_query_info_async", "object:">>) @@
  ("file_make_directory" :> <<"g_file_make_directory_async", "boolean:1">>) @@
  ("file_enumerate_children" :> <<"g_file_enumerate_children_async", "object:">>) @@
  ("file_copy" :> <<"g_file_copy_async", "boolean:1">>) @@
  ("file_load_contents" :> <<"g_file_load_contents_async", "bytes:">>) @@
  ("file_query_exists" :> <<"g_file_query_info_async", "boolean:1">>) @@
  ("file_enumerator_next_files" :> <<"g_file_enumerator_next_files_async", "infos:">>) @@
  ("socket_listener_accept" :> <<"g_socket_listener_accept_async", "object:">>) @@
  ("socket_client_connect" :> <<"g_socket_client_connect_async", "object:">>) @@
  ("io_stream_close" :> <<"g_io_stream_close_async", "boolean:1">>) @@
  ("resolver_lookup_by_name" :> <<"g_resolver_lookup_by_name_async", "addresses:">>) @@
  ("dbus_connection_send_message_with_reply" :> <<"g_dbus_connection_send_message_with_reply", "object:">>) @@
  ("dbus_connection_call" :> <<"g_dbus_connection_call", "variant:">>) @@
  ("dbus_connection_call_with_unix_fd_list" :> <<"g_dbus_connection_call_with_unix_fd_list", "variant:">>) @@
  ("bus_get" :> <<"g_bus_get", "object:">>) @@
  ("subprocess_wait_check" :> <<"g_subprocess_wait_check_async", "boolean:1">>)
(* the order of the driver *)
WithFds == "dbus_connection_call_with_unix_fd_list"
Valueless == "boolean:1"
NewGio == [ p |-> <<>> ]
Put(f, x, v) == (x :> v) @@ f
Xs(s) == DOMAIN s.p
(* the arguments of the operation are those of the wrapper; which attributes tell *)
(* that a file exists is left open                                                 *)
Passed(fn, args, op, opargs) ==
  /\ op = Wrappers[fn][1]
  /\ IF fn = "file_query_exists" THEN opargs[1] = args[1] ELSE opargs = args
Reported(fn, err, o) == IF err THEN o ELSE IF Wrappers[fn][2] = Valueless THEN Valueless ELSE Wrappers[fn][2] \o o
New(s, x, fn) == [s EXCEPT !.p = Put(@, x, [fn |-> fn, dec |-> "", canc |-> FALSE, held |-> TRUE, deps |-> {}, m |-> <<"", "">>])]
IsSet(s, x) == s.p[x].fn = WithFds
(* a delivery consists of these parts *)
Parts(s, x) == IF IsSet(s, x) THEN {"1", "2", "f"} ELSE {"f"}
Ready(s, x, part) == part = "f" /\ IsSet(s, x) => \A k \in 1..2 : s.p[x].m[k] # ""
Deliver(s, x, part, err, o, fds) ==
  CASE part = "f" -> IF s.p[x].dec = "" THEN [s EXCEPT !.p[x].dec = Reported(s.p[x].fn, err, o)] ELSE s
    [] part = "1" -> [s EXCEPT !.p[x].m[1] = Reported(s.p[x].fn, err, o)]
    [] part = "2" -> [s EXCEPT !.p[x].m[2] = IF err THEN o ELSE "object:" \o fds]
Want(s, x, d) == IF IsSet(s, x) \/ s.p[x].dec = "" THEN [s EXCEPT !.p[x].deps = @ \cup {d}] ELSE s
Unwant(s, x, d) == [s EXCEPT !.p[x].deps = @ \ {d}]
Drop(s, x) == [s EXCEPT !.p[x].held = FALSE]
(* Discarded: a future is, when the last one who awaits it goes; a set discards   *)
(* its members when its last owner goes                                            *)
Unwanted(s, x, d) == IF IsSet(s, x) THEN ~s.p[x].held /\ s.p[x].deps \subseteq {d} ELSE s.p[x].dec = "" /\ s.p[x].deps = {d}
Released(s, x) == IsSet(s, x) /\ s.p[x].deps = {}
Undecided(s, x) == IF IsSet(s, x) THEN s.p[x].m[1] = "" ELSE s.p[x].dec = ""
Stop(s, x) == [s EXCEPT !.p[x].canc = TRUE]
See(s, x, m) == LET o == IF m = 0 THEN s.p[x].dec ELSE s.p[x].m[m] IN IF o = "" THEN "P" ELSE o
Look(s, x) == IF s.p[x].canc THEN "1" ELSE "0"
==============================================================================
