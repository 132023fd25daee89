## C14, C15, C17, C19
@fn qw::block::Info::v_try_from_u8(value)
@ensures
[C15] match block_at($value@) { Some(b) => r is Ok && r->Ok_0.body_size == b.body && (r->Ok_0.hidden_message == crate::qw::prot::HiddenMessage::Demoinfo <==> b.kind == 3) && r->Ok_0.number == b.number, None => r is Err }
[C01] r is Ok ==> r->Ok_0.body_size <= 0xffff_ffff
@end
@fn ktxstats::ktxstats_string(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C15] match ktx_text($data@) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err }
@local offset: usize
@local content: std::vec::Vec<u8>
@loop 0
@inv
[C01] $offset <= $data@.len()
[C15] rfind_sub($data@, n_version()) is Some && rfind_sub($data@, n_version())->Some_0 >= 18
[C15] $content@ + ktx_rest($data@, $offset as int) =~= ktx_rest($data@, rfind_sub($data@, n_version())->Some_0 - 18)
@ldecreases $data@.len() - $offset
@end
@fn ktxstats::ktxstats_v3(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C15] match ktx($data@) { Some(k) => r is Ok && r->Ok_0 == k, None => r is Err }
[C01] r is Ok ==> r->Ok_0.players@.len() <= max_data()
@end
@fn server::Server::v_from_KtxstatsV3(stats)
@ensures
[C19] r.hostname@ == $stats.hostname@ && r.ip@ == $stats.ip@ && r.port == $stats.port
[C19] r.address@ =~= $stats.ip@ + ":"@ + int_text($stats.port as int)
@end
@fn server::server(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C19] match ktx($data@) { Some(k) => r is Ok && r->Ok_0.hostname@ == k.hostname@ && r->Ok_0.ip@ == k.ip@ && r->Ok_0.port == k.port && r->Ok_0.address@ =~= k.ip@ + ":"@ + int_text(k.port as int), None => r is Err }
@end
@fn duration::countdown_duration(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C14] match countdown_ms($data@) { Some(n) => r is Ok && r->Ok_0.nanos as int == n * 1_000_000, None => r is Err }
@end
@fn duration::demo_duration(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C14] r is Ok && r->Ok_0.nanos as int == demo_ms($data@) * 1_000_000
@end
@fn duration::match_duration_from_seeking(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C14] r is Ok && r->Ok_0.nanos as int == seek_ms($data@) * 1_000_000
@end
@fn duration::match_duration_from_ktxstats(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C19] nanos_ok(r, ktx_nanos($data@))
@entry
proof { lemma_dur_text($data@); }
@end
@fn duration::match_duration(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C19] is_hoony($data@) ==> r is Ok && r->Ok_0.nanos as int == seek_ms($data@) * 1_000_000
[C19] !is_hoony($data@) && ktx_nanos($data@) is Some ==> r is Ok && r->Ok_0.nanos as int == ktx_nanos($data@)->Some_0
[C19] !is_hoony($data@) && ktx_nanos($data@) is None ==> r is Ok && r->Ok_0.nanos as int == seek_ms($data@) * 1_000_000
@end
@fn matchdate::matchdate_string(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C17] match date_text($data@) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err }
@end
@fn matchdate::replace_tz_abbr_with_offset(timestamp)
@ensures
[C17] match date_fixed($timestamp@) { Some(t) => r is Ok && r->Ok_0@ =~= t, None => r is Err }
@end
@fn matchdate::matchdate(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C17] match date_of($data@) { Some(t) => r is Ok && r->Ok_0 == t, None => r is Err }
@end
@fn timezone::utc_offset(value)
@ensures
[C17] match tz_of($value@) { Some(t) => r is Some && r->Some_0@ == t, None => r is None }
@end
@fn timezone::utc_offset_by_abbr(abbr)
@ensures
[C17] match tz_by_name($abbr@, 0) { Some(t) => r is Some && r->Some_0@ == t, None => r is None }
@local __acc0: std::option::Option<std::string::String>
@loop 0
@inv
[C17] __s0@ =~= tz_table()@
[C17] $__acc0 is None
[C17] tz_by_name($abbr@, 0) == tz_by_name($abbr@, __k0 as int)
@end
@fn timezone::utc_offset_by_offset(offset)
@ensures
[C17] match tz_by_number($offset@) { Some(t) => r is Some && r->Some_0@ =~= t, None => r is None }
@entry
proof { lemma_ascii_number(tz_digits($offset@)); lemma_boff1($offset@); reveal_strlit(""); reveal_strlit(":"); assert(""@ =~= Seq::<char>::empty()); assert(":"@ =~= seq![':']); }
@end
@fn timestamp::timestamp_from_epoch(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C19] match epoch_of($data@) { Some(t) => r is Ok && r->Ok_0 == t, None => r is Err }
@end
@fn timestamp::timestamp(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C19] match epoch_of($data@) { Some(t) => r is Ok && r->Ok_0 == t, None => match date_of($data@) { Some(t) => r is Ok && r->Ok_0 == t, None => r is Err } }
@end
