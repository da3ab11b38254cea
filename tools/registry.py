"""What each check explores: entries of the harness, bounds, assumptions."""
# entry -> (tiers, time limit quick, time limit thorough, bound text)
Q, T = "quick", "thorough"
P = {}
def prop(pid, entries, bounds, assumptions=()):
    P[pid] = dict(entries=entries, bounds=bounds, assumptions=list(assumptions))
# entries: (name, seconds in quick or 0 when thorough only, seconds in thorough[, extra symx options])
prop("C01", [("h_label_ops", 20, 60), ("h_label_ops_big", 40, 60), ("h_label_formula", 30, 60), ("h_label_formula_two", 20, 60),
             ("h_label_names", 20, 60), ("h_label_utf8", 20, 60), ("h_label_ops_deep", 0, 300), ("h_label_formula_deep", 0, 300)],
     "expression trees up to depth 2 (7 nodes) over one-byte names and depth 1 over two-byte names, labels of up to 2 arbitrary names; edit sequences of up to 4 operations from an empty label and 2 from one of 8 elements (spilling its inline storage); "
     "names of every length 0..26 (inline and heap representation) with an arbitrary last byte; all UTF-8 strings of up to 2 bytes")
prop("C02", [("h_msg_bytes", 60, 120), ("h_msg_attach", 60, 120), ("h_msg_long", 60, 120), ("h_msg_limits", 60, 120), ("h_msg_selector", 60, 120), ("h_msg_lengths", 90, 200)],
     "one to two messages between two endpoints: type numbers and payload bytes arbitrary, payloads of 0..300 bytes and around every length encoding boundary up to the largest packet, 0..3 objects and 0..3 memory regions of arbitrary content in every order, "
     "up to 253 descriptors and beyond, every kind of selector the message can carry")
ROUTE = "buses of up to 5 endpoints with labels of arbitrary one-byte names (sets of up to 2), selectors of depth up to 2, histories of 3 (thorough: 4 and, in so far as the time suffices, 5) joins, departures, receivers dropped, and sends with and without a time to live, in every order"
prop("C03", [("h_uni", 60, 120), ("h_uni_two", 60, 120), ("h_uni_four", 60, 120), ("h_uni_five", 60, 120), ("h_uni_deep", 60, 120), ("h_uni_sets", 60, 120), ("h_uni_history", 90, 200), ("h_uni_history_four", 0, 200), ("h_uni_history_long", 0, 600)], ROUTE)
prop("C04", [("h_multi", 60, 120), ("h_multi_two", 60, 120), ("h_multi_four", 60, 120), ("h_multi_five", 60, 120), ("h_multi_deep", 60, 120), ("h_multi_sets", 60, 120), ("h_multi_history", 90, 200), ("h_multi_history_four", 0, 200), ("h_multi_history_long", 0, 600)], ROUTE)
prop("C05", [("h_ttl_uni", 60, 120), ("h_ttl_multi", 60, 120), ("h_ttl_routed", 60, 120), ("h_ttl_order", 90, 200), ("h_ttl_steps", 90, 200), ("h_ttl_steps_deep", 0, 600)],
     "one to three messages with an arbitrary time to live (all 64-bit seconds and 32-bit nanoseconds), a destination joining after an arbitrary time up to the horizon, messages of both modes and destinations in every order")
prop("C06", [("h_token_join", 60, 120), ("h_token_text", 60, 120), ("h_token_raw", 60, 120), ("h_token_request", 60, 120), ("h_token_request_deep", 90, 300)],
     "tokens of any content up to 4 bytes on both sides, prefixes of each other, non-ASCII, and of lengths around each encoding boundary; requests to join of up to 6 (deep: 8) arbitrary bytes; a bus with two valid endpoints")
prop("C07", [("h_version_peer", 60, 120), ("h_version_message", 60, 120), ("h_version_controller", 60, 120), ("h_version_self", 60, 120)],
     "all 2^24 version numbers on the joining side, on the controller's side and in frames, on a bus with two valid endpoints")
prop("C11", [("h_fifo_sched", 60, 120), ("h_fifo_mixed", 60, 120), ("h_fifo_ttl", 60, 120), ("h_fifo_join", 60, 120), ("h_fifo_sched_deep", 60, 200), ("h_fifo_mixed_deep", 0, 600)],
     "up to 4 messages from each of up to 2 senders, every combination of unicast, multicast and buffered messages, receivers reading in every pattern, schedules with up to 1 (deep: 2) preemptions at any system call")

prop("C08", [("h_mal_bytes", 60, 120), ("h_mal_headed", 60, 120), ("h_mal_sizes", 60, 120), ("h_mal_selector", 60, 120), ("h_mal_uuid", 60, 120), ("h_mal_connect", 60, 120), ("h_mal_regions", 60, 120),
             ("h_mal_nested", 60, 120), ("h_mal_payload", 60, 120), ("h_mal_client", 60, 120), ("h_mal_client_regions", 60, 120), ("h_mal_reply", 60, 120), ("h_mal_bytes_deep", 0, 600), ("h_mal_headed_deep", 0, 600)],
     "frames of up to 12 (thorough: 14) arbitrary bytes, and of up to 8 (11) arbitrary bytes after a valid header, with and without descriptors; arbitrary length fields, type numbers, region counts and descriptor counts; selectors nested up to 5000 levels; "
     "sent by an unadmitted or an admitted peer to the controller, by the controller to an endpoint, and as the reply to a request to join",
     ["an object which is truncated after it was validated (SIGBUS) is outside"])
PEER = "a bus of four endpoints, failing peers in every combination of departure, connection loss and a receive queue left full, failing between any two operations or inside one at any system call (thorough: with one preemption)"
prop("C09", [("h_peer_fails", 60, 120), ("h_peer_midop", 60, 120), ("h_peer_raw", 60, 120), ("h_peer_midop_deep", 60, 120), ("h_peer_fails_deep", 0, 600)], PEER)
prop("C10", [("h_ctl_dies", 60, 120), ("h_ctl_midop", 60, 120), ("h_ctl_attach", 60, 120), ("h_ctl_users", 60, 120), ("h_ctl_sched", 60, 120), ("h_ctl_users_deep", 60, 120), ("h_ctl_absent", 60, 60), ("h_ctl_absent_deep", 60, 60), ("h_ctl_sched_deep", 90, 120)],
     "a controller process which dies between operations or at any system call, up to two survivors which may or may not become controller, up to two concurrent senders and a receiver for each, schedules with up to 2 preemptions at any system call; survivors which may not become controller and wait for one which appears after a while",
     ["messages in flight when the controller dies may be lost"])
prop("C21", [("h_half_rx", 60, 120), ("h_half_tx", 60, 120), ("h_half_rx_deep", 60, 120), ("h_half_rejoin", 60, 60), ("h_half_rejoin_deep", 60, 60)],
     "an endpoint on the controller or on a client which drops its receiver or (a clone of) its sender, before or after messages queued, with up to 1 (deep: 2) preemptions, and the controller's death afterwards")

prop("C12", [("h_rc_ops", 60, 60), ("h_rc_ops_deep", 60, 60), ("h_rc_ops_deeper", 100, 120), ("h_rc_unread", 60, 60), ("h_rc_retry", 60, 60), ("h_rc_race", 60, 60), ("h_rc_race_deep", 60, 60), ("h_rc_fails", 60, 60), ("h_rc_fails_deep", 60, 60)],
     "up to 4 operations, each of clone, drop, re-attach, send (unicast, multicast, to nobody, buffered, failing), receive (keeping or dropping the handles), expiry and collection, with up to 2 copies attached, handles in three processes, sender on the controller or not; endpoints dropped with unread messages; a send repeated after the controller died; handles cloned and dropped by concurrent threads and processes with up to 2 preemptions at any system call or atomic access; operations during which up to 1 (2) system calls fail",
     ["a process which is killed never drops its handles: the counts it held stay elevated", "counts are read when no operation is under way"])
REG = "up to 4 operations (thorough: 5, in so far as the time suffices) of allocation, drop, clone, maintenance, an arbitrary pause, sending a handle to another process and receiving it, after a first allocation; up to 3 tags and 3 sizes; two allocations of any sizes up to 300; sizes no system can provide; system calls which fail"
prop("C13", [("h_reg_ops", 60, 60), ("h_reg_ops_four", 100, 120), ("h_reg_sizes", 60, 60), ("h_reg_tags", 60, 60), ("h_reg_bus", 150, 200), ("h_reg_any", 60, 60), ("h_reg_huge", 60, 60), ("h_reg_fails", 60, 60), ("h_reg_fails_deep", 0, 200), ("h_reg_ops_five", 0, 600)], REG)
prop("C14", [("h_cb_ops", 60, 60), ("h_cb_ops_four", 100, 120), ("h_cb_sizes", 60, 60), ("h_cb_tags", 60, 60), ("h_cb_bus", 150, 200), ("h_cb_any", 60, 60), ("h_cb_huge", 60, 60), ("h_cb_fails", 60, 60), ("h_cb_fails_deep", 0, 300), ("h_cb_ops_five", 0, 600)], REG + "; a callback registered or not with each allocation")
prop("C15", [("h_map", 60, 60), ("h_map_twice", 120, 120), ("h_map_any", 60, 60), ("h_map_pages", 60, 60), ("h_map_size", 60, 60), ("h_map_any_two", 0, 600)],
     "ranges with any start and end (64 bit; included, excluded, unbounded) in every combination, regions of any size up to 8300 and every position in regions of up to 5 bytes, up to two mappings through two handles in two processes; starts and lengths around the page boundaries; any size up to 5000 or from 2^40 for creation")
prop("C16", [("h_time_quiet", 100, 100), ("h_time_eintr", 100, 100), ("h_time_zero", 60, 60), ("h_time_dead", 60, 100), ("h_time_other_eintr", 100, 150), ("h_time_any", 100, 100), ("h_time_late", 60, 60), ("h_time_forever", 60, 60), ("h_time_join", 100, 100), ("h_time_bound", 60, 60), ("h_time_stalled", 60, 60), ("h_time_other", 0, 500), ("h_time_join_long", 0, 600)],
     "receive timeouts of any duration against a message after any multiple of 1/8 s below 8 s, timeouts of such multiples against a message after any duration below 900000 s, no timeout, timeouts below 100 s (any nanoseconds) with nothing arriving, up to 2 (quick: 1) messages of another type in the meantime, up to 2 interruptions of any wait by a signal; "
     "joining with any timeout, without a controller or one appearing after any time below 5 (thorough: 20) s; receiving with timeouts below 7 s after the controller's death; joining with timeouts below 35 ms while the address is bound by a process which does not listen, and below 7 s with a controller which does not accept, with 0 or 31..33 connections waiting for it",
     ["the clock of the model advances only in waits", "joining may report its timeout up to 100 ms late, and up to 4.1 s late with a controller which does not accept or answer"])
prop("C17", [("h_ident_short", 60, 60), ("h_ident_utf8", 60, 60), ("h_ident_long", 60, 60), ("h_ident_mid", 60, 60), ("h_ident_over", 60, 60), ("h_ident_any", 60, 60), ("h_ident_order", 60, 60), ("h_ident_race", 60, 60), ("h_ident_race_gone", 60, 60),
             ("h_ident_race_three", 60, 60), ("h_ident_race_deep", 60, 60), ("h_ident_race_crash", 60, 60), ("h_ident_race_crash_deep", 60, 60), ("h_ident_race_deeper", 0, 200)],
     "two buses with identifiers of up to 2 arbitrary characters (ASCII with nul, one- and two-byte UTF-8) and of every length 3..106 with arbitrary last two bytes, up to 4096 bytes for one; every combination of permission to become controller; up to 4 endpoints of two buses joining in every order; up to 3 endpoints joining at the same time with up to 2 preemptions at any system call, after a controller died, and with one of them dying at any system call")
prop("C18", [("h_fd_ops", 150, 200), ("h_fd_limit", 60, 60), ("h_fd_rejoin", 60, 60), ("h_fd_rejoin_deep", 60, 100), ("h_fd_local", 60, 60), ("h_fd_local_any", 60, 60), ("h_fd_local_deep", 60, 60), ("h_fd_local_deeper", 0, 300), ("h_fd_joins", 60, 60), ("h_fd_joins_deep", 60, 60), ("h_fd_ops_deep", 0, 800), ("h_fd_ops_four", 0, 400)],
     "up to 2 (thorough: 3 and 4, in so far as the time suffices) operations on a bus of three (two) endpoints: messages with 0..2 objects and 0..1 regions to one, all, nobody and later ones, messages which are too large, receiving and keeping or dropping, endpoints leaving in every order of their halves, killed or joining again, refused and malformed requests with 0..2 descriptors; processes at their limit of descriptors; rejoining after the controller died with threads sending and receiving and up to 2 preemptions; up to 3 (thorough: 4) operations on memory regions and a registry, of sizes the system provides or not (any size from 2^40 for one), any of their system calls failing; joins during which up to 2 system calls fail")
prop("C19", [("h_type_one", 60, 60), ("h_type_long", 100, 100), ("h_type_single", 60, 60), ("h_type_variants", 60, 60), ("h_type_attached", 60, 60), ("h_type_two", 100, 150), ("h_type_two_deep", 0, 500), ("h_type_three", 0, 500)],
     "one message of any type identity (128 bits) with a payload of up to 4 arbitrary bytes (declared types: 8), two with payloads of 0 or 2 bytes from 0..3 and 250..255 (thorough: up to 3 bytes, and three messages, in so far as the time suffices); receivers of one and of four types on the controller's endpoint and on another, every kind of timeout; derived types on both sides with arbitrary field values; attachments of skipped and undecodable messages")
prop("C20", [("h_c_labels", 60, 60), ("h_c_labels_deep", 100, 100), ("h_c_mode", 60, 60), ("h_c_messages", 60, 60), ("h_c_messages_three", 60, 60), ("h_c_timeouts", 100, 100), ("h_c_forever", 60, 60), ("h_c_join", 150, 150), ("h_c_errors", 60, 60), ("h_c_ttl", 60, 60), ("h_c_map", 60, 60), ("h_c_map_bytes", 60, 60), ("h_c_registry", 60, 60), ("h_c_handles", 60, 60)],
     "every call of ipmb_ffi.h: expressions up to depth 2 of one-character labels, up to 2 labels, any format and payload of up to 4 bytes, up to 3 objects and 3 regions with any index, any receive timeout below 4 s or above 9000 s against a message after up to 32 s, any time to live, mappings with any offset and size, every way joining can end with every combination of wanted handles, payloads which do not decode",
     ["the calls are made through declarations of the harness which repeat those of ipmb_ffi.h; the header itself is used by C22"])
prop("C22", [("h_x_moves", 60, 60), ("h_x_moves_deep", 100, 100), ("h_x_exprs", 60, 60), ("h_x_exprs_deep", 100, 100), ("h_x_options", 60, 60), ("h_x_codes", 60, 60), ("h_x_values", 60, 60), ("h_x_bus", 60, 60), ("h_x_registry", 60, 60), ("h_x_header", 100, 100)],
     "every class of ipmb.h: up to 4 (5) operations of construction, move, assignment (also to itself), swap, copy where it compiles, destruction over two objects, against a C interface which tracks every handle; expressions up to depth 2, labels of up to 2 characters, up to 3 labels; every 32-bit code from every fallible call; every argument and result of every method (64 bit); end to end over the library: messages with up to 3 bytes, 2 objects and 2 regions, registries with callbacks, any time to live",
     ["the C++ code is compiled by clang 18 as C++17 without exceptions and RTTI", "a moved-from object is only assigned to and destroyed, as of any standard class", "an empty std::function is not given as a callback"])
JS = "one Node environment with the binding, whose Node-API is a model in harness/src/node.rs (values, classes, promises, exceptions, references, thread-safe functions, the event loop, clean-up hooks); the code the napi crates generate is part of what is executed"
prop("C23", [("h_j_history", 60, 60), ("h_j_history_deep", 100, 150), ("h_j_steady", 60, 60), ("h_j_sched", 60, 60), ("h_j_sched_deep", 60, 60), ("h_j_sched_atomics", 90, 120), ("h_j_refused", 60, 60), ("h_j_undecodable", 90, 120), ("h_j_two", 60, 60), ("h_j_two_deep", 60, 100), ("h_j_history_deeper", 0, 400)],
     "histories of 4 (thorough: 5, in so far as the time suffices) operations out of receiving without and with a timeout, arrivals, pauses, turns of the event loop and closing, either process being the controller's; 40 messages in a steady stream; 6 plans against 2 arrivals with up to 3 preemptions at system calls, or 2 at system calls and atomic accesses; up to 3 messages decodable or not; two receivers with 4 operations; refusal by the next controller for its token or version",
     [JS, "callbacks of the event loop run one after another and are not interrupted by JavaScript"])
prop("C24", [("h_j_route", 60, 120), ("h_j_bytes", 60, 60), ("h_j_received", 90, 120), ("h_j_sent", 60, 60), ("h_j_throws", 60, 60), ("h_j_route_deep", 0, 400)],
     "every format (16 bit) and time to live (32 bit), payloads of up to 3 bytes and up to 2 buffers or regions of up to 4 bytes of arbitrary content, up to 1 object, expressions of depth 1 (thorough: 2) over arbitrary one-letter names, mappings of every offset in range and sizes inside and beyond; 5 values of another type at every argument and property; joining refused, stalled or without a controller",
     [JS])
prop("C25", [("h_stray_message", 60, 60), ("h_stray_join", 60, 60), ("h_stray_forward", 60, 60)],
     "payloads of 0..5 bytes, label names of 0..4 bytes, tokens of 0..4 bytes, three shapes of expressions, 0..1 objects and regions, all four paths, packets of any length modulo 4 forwarded at once or after waiting, refusals for token and version",
     ["a byte counts as written when it was stored to, also with a value derived from an unwritten one"])
