macro_rules! harness { ($($m:ident :: $f:ident),* $(,)?) => { pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($f), $m::$f as extern "C" fn())),*]; } }
pub mod admit;
pub mod cabi;
pub mod cxx;
pub mod fds;
pub mod fifo;
pub mod ident;
pub mod js;
pub mod label;
pub mod mal;
pub mod msg;
pub mod peer;
pub mod region;
pub mod route;
pub mod smoke;
pub mod stray;
pub mod time;
pub mod ttl;
pub mod types;
harness!(
  admit::h_token_join, admit::h_token_text, admit::h_token_raw, admit::h_token_request, admit::h_token_request_deep, admit::h_version_peer, admit::h_version_message, admit::h_version_controller, admit::h_version_self,
  cabi::h_c_labels, cabi::h_c_labels_deep, cabi::h_c_mode, cabi::h_c_messages, cabi::h_c_messages_three, cabi::h_c_timeouts, cabi::h_c_forever, cabi::h_c_join, cabi::h_c_errors, cabi::h_c_ttl, cabi::h_c_map, cabi::h_c_map_bytes, cabi::h_c_registry, cabi::h_c_handles,
  cxx::h_x_moves, cxx::h_x_moves_deep, cxx::h_x_exprs, cxx::h_x_exprs_deep, cxx::h_x_options, cxx::h_x_codes, cxx::h_x_values, cxx::h_x_bus, cxx::h_x_registry, cxx::h_x_header,
  fds::h_fd_ops, fds::h_fd_ops_deep, fds::h_fd_ops_four, fds::h_fd_limit, fds::h_fd_rejoin, fds::h_fd_rejoin_deep, fds::h_fd_local, fds::h_fd_local_any, fds::h_fd_local_deep, fds::h_fd_local_deeper, fds::h_fd_joins, fds::h_fd_joins_deep,
  fifo::h_fifo_sched, fifo::h_fifo_sched_deep, fifo::h_fifo_mixed, fifo::h_fifo_mixed_deep, fifo::h_fifo_ttl, fifo::h_fifo_join,
  ident::h_ident_short, ident::h_ident_utf8, ident::h_ident_long, ident::h_ident_mid, ident::h_ident_over, ident::h_ident_any, ident::h_ident_race, ident::h_ident_race_gone, ident::h_ident_race_three, ident::h_ident_race_deep, ident::h_ident_race_deeper, ident::h_ident_race_crash, ident::h_ident_race_crash_deep, ident::h_ident_order,
  js::h_j_history, js::h_j_history_deep, js::h_j_history_deeper, js::h_j_steady, js::h_j_route, js::h_j_route_deep, js::h_j_bytes, js::h_j_received, js::h_j_sent, js::h_j_refused, js::h_j_undecodable, js::h_j_two, js::h_j_two_deep, js::h_j_throws, js::h_j_sched, js::h_j_sched_deep, js::h_j_sched_atomics,
  label::h_label_ops, label::h_label_ops_big, label::h_label_ops_deep, label::h_label_formula, label::h_label_formula_two, label::h_label_formula_deep, label::h_label_names, label::h_label_utf8,
  mal::h_mal_bytes, mal::h_mal_bytes_deep, mal::h_mal_headed, mal::h_mal_headed_deep, mal::h_mal_sizes, mal::h_mal_selector, mal::h_mal_uuid, mal::h_mal_connect, mal::h_mal_regions, mal::h_mal_nested, mal::h_mal_payload, mal::h_mal_client, mal::h_mal_client_regions, mal::h_mal_reply,
  msg::h_msg_bytes, msg::h_msg_attach, msg::h_msg_long, msg::h_msg_limits, msg::h_msg_selector, msg::h_msg_lengths,
  peer::h_peer_fails, peer::h_peer_fails_deep, peer::h_peer_midop, peer::h_peer_midop_deep, peer::h_peer_raw, peer::h_ctl_dies, peer::h_ctl_sched, peer::h_ctl_sched_deep, peer::h_ctl_users, peer::h_ctl_users_deep, peer::h_ctl_midop, peer::h_ctl_attach, peer::h_half_rx, peer::h_half_rx_deep, peer::h_half_tx, peer::h_half_rejoin, peer::h_half_rejoin_deep, peer::h_ctl_absent, peer::h_ctl_absent_deep,
  region::h_rc_ops, region::h_rc_ops_deep, region::h_rc_ops_deeper, region::h_rc_unread, region::h_rc_retry, region::h_map, region::h_map_twice, region::h_map_any, region::h_map_any_two, region::h_map_pages, region::h_map_size, region::h_reg_ops, region::h_cb_ops, region::h_reg_ops_four, region::h_cb_ops_four, region::h_reg_ops_five, region::h_cb_ops_five, region::h_reg_sizes, region::h_cb_sizes, region::h_reg_tags, region::h_cb_tags, region::h_reg_bus, region::h_cb_bus, region::h_reg_fails, region::h_cb_fails, region::h_reg_fails_deep, region::h_cb_fails_deep, region::h_reg_any, region::h_cb_any, region::h_reg_huge, region::h_cb_huge, region::h_rc_race, region::h_rc_race_deep, region::h_rc_fails, region::h_rc_fails_deep,
  route::h_uni, route::h_multi, route::h_uni_two, route::h_multi_two, route::h_uni_four, route::h_multi_four, route::h_uni_five, route::h_multi_five, route::h_uni_deep, route::h_multi_deep, route::h_uni_sets, route::h_multi_sets, route::h_uni_history, route::h_multi_history, route::h_uni_history_long, route::h_multi_history_long, route::h_uni_history_four, route::h_multi_history_four,
  smoke::h_smoke, smoke::h_bus,
  stray::h_stray_message, stray::h_stray_join, stray::h_stray_forward,
  time::h_time_quiet, time::h_time_eintr, time::h_time_other, time::h_time_other_eintr, time::h_time_any, time::h_time_late, time::h_time_forever, time::h_time_zero, time::h_time_join, time::h_time_join_long, time::h_time_dead, time::h_time_bound, time::h_time_stalled,
  ttl::h_ttl_uni, ttl::h_ttl_multi, ttl::h_ttl_routed, ttl::h_ttl_order, ttl::h_ttl_steps, ttl::h_ttl_steps_deep,
  types::h_type_one, types::h_type_long, types::h_type_two, types::h_type_two_deep, types::h_type_three, types::h_type_single, types::h_type_variants, types::h_type_attached,
);
