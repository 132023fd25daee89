## C08
@fn qw::flagevent::FlagEvent::v_try_from_str(value)
@ensures
[C08] match flag_event($value@) { Some(e) => r is Ok && flv(r->Ok_0) == e, None => r is Err }
@local print_types: std::vec::Vec<(usize, std::vec::Vec<&str>)>
@local __acc1: std::option::Option<usize>
@loop 0
@before
assert(__s0@.len() == 7 && forall|k: int| 0 <= k < 7 ==> (#[trigger] __s0@[k]).0 == k + 1 && __s0@[k].1@ =~= flag_table(k + 1));
@inv
[C08] __s0@.len() == 7 && forall|k: int| 0 <= k < 7 ==> (#[trigger] __s0@[k]).0 == k + 1 && __s0@[k].1@ =~= flag_table(k + 1)
[C08] flag_event($value@) == flag_from($value@, __k0 + 1)
@loop 1
@inv
[C08] $__acc1 is None
[C08] before($value@, flag_table(__k0 as int), 0) == before($value@, flag_table(__k0 as int), __k1 as int)
@end
@fn flags::is_message_suffix(print)
@ensures
[C08] r == is_suffix($print@)
@local __acc0: bool
@loop 0
@before
assert(__s0@.len() == 3 && __s0@[0]@.len() == 2 && __s0@[1]@.len() == 2 && __s0@[2]@.len() == 2);
assert(suffix_phrase(__s0@[0]@[0]@) && suffix_phrase(__s0@[0]@[1]@) && suffix_phrase(__s0@[1]@[0]@) && suffix_phrase(__s0@[1]@[1]@) && suffix_phrase(__s0@[2]@[0]@) && suffix_phrase(__s0@[2]@[1]@));
@body
assert(forall|j: int| 0 <= j < 2 ==> suffix_phrase((#[trigger] __s0@[__k0 as int]@[j])@));
@after
assert(forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 2 ==> suffix_phrase((#[trigger] __s0@[i]@[j])@)) by {
    assert(suffix_phrase(__s0@[0]@[0]@) && suffix_phrase(__s0@[0]@[1]@) && suffix_phrase(__s0@[1]@[0]@) && suffix_phrase(__s0@[1]@[1]@) && suffix_phrase(__s0@[2]@[0]@) && suffix_phrase(__s0@[2]@[1]@));
}
assert(forall|p: Seq<char>| suffix_phrase(p) ==> (exists|i: int, j: int| 0 <= i < 3 && 0 <= j < 2 && (#[trigger] __s0@[i]@[j])@ == p)) by {
    assert(forall|p: Seq<char>| suffix_phrase(p) ==> p == __s0@[0]@[0]@ || p == __s0@[0]@[1]@ || p == __s0@[1]@[0]@ || p == __s0@[1]@[1]@ || p == __s0@[2]@[0]@ || p == __s0@[2]@[1]@);
}
assert(suffix_phrase(captured()[0]@) && suffix_phrase(captured()[1]@) && suffix_phrase(picked_up()[0]@) && suffix_phrase(picked_up()[1]@) && suffix_phrase(returned()[0]@) && suffix_phrase(returned()[1]@));
assert(!$__acc0 ==> (forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 2 ==> !ends_with(uni($print@), (#[trigger] __s0@[i]@[j])@)));
assert(!$__acc0 ==> (forall|p: Seq<char>| suffix_phrase(p) ==> !ends_with(uni($print@), p)));
assert(!$__acc0 ==> !is_suffix($print@));
assert($__acc0 ==> is_suffix($print@));
@inv
[C08] !$__acc0 && forall|i: int, j: int| 0 <= i < __k0 && 0 <= j < __s0@[i]@.len() ==> !ends_with(uni($print@), (#[trigger] __s0@[i]@[j])@)
@loop 1
@inv
[C08] !$__acc0 && forall|j: int| 0 <= j < __k1 ==> !ends_with(uni($print@), (#[trigger] __s1@[j])@)
@end
@fn flags::flag_events_per_player_name(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C08] forall|n: Seq<char>| #[trigger] r@.dom().contains(n) <==> listed(announcements($data@, 0), n)
[C08] forall|n: Seq<char>, k: int| r@.dom().contains(n) && 1 <= k <= 7 ==> #[trigger] num(r@[n], k) == events_of(announcements($data@, 0), n, k)
@local index: usize
@local prints: std::vec::Vec<std::vec::Vec<u8>>
@local current_print: std::vec::Vec<u8>
@local body: std::io::Cursor<&[u8]>
@local frame_info: qw::frame::Info
@local player_flag_events: std::collections::HashMap<std::string::String, flags::PlayerFlagEvents>
@loop 0
@inv
[C01] $index <= $data@.len()
[C08] vv($prints@) + announcements($data@, $index as int) =~= announcements($data@, 0)
@ldecreases $data@.len() - $index
@loop 1
@inv
[C08] $body.rd() == body_at($data@, $index as int, frame_at($data@, $index as int)->Some_0) && 0 <= $body.rp() <= $body.rd().len()
[C08] vv($prints@) + join($current_print@, high_prints($body.rd(), $body.rp())) + announcements($data@, $index + $frame_info.size) =~= announcements($data@, 0)
@ldecreases $body.rd().len() - $body.rp()
@body
proof {
    if let Some((pr, q)) = print_at($body.rd(), $body.rp()) {
        lemma_join_step($current_print@, pr.content, high_prints($body.rd(), q));
        assert(Seq::<Seq<u8>>::empty() + high_prints($body.rd(), q) =~= high_prints($body.rd(), q));
    }
}
@loop 2
@inv
[C08] vv(__s2@) =~= announcements($data@, 0)
[C08] counted($player_flag_events@, vv(__s2@).subrange(0, __k2 as int))
@before
proof { lemma_ann_len($data@, 0); }
@body
proof {
    assert(vv(__s2@).subrange(0, __k2 + 1) =~= vv(__s2@).subrange(0, __k2 as int).push(__s2@[__k2 as int]@));
    lemma_counted($player_flag_events@, vv(__s2@).subrange(0, __k2 as int), __s2@[__k2 as int]@);
}
@after
proof {
    assert(vv(__s2@).subrange(0, __s2@.len() as int) =~= announcements($data@, 0));
    assert forall|n: Seq<char>| #[trigger] $player_flag_events@.dom().contains(n) <==> listed(announcements($data@, 0), n) by { assert(counted_for($player_flag_events@, announcements($data@, 0), n)); }
    assert forall|n: Seq<char>, k: int| $player_flag_events@.dom().contains(n) && 1 <= k <= 7 implies #[trigger] num($player_flag_events@[n], k) == events_of(announcements($data@, 0), n, k) by { assert(counted_for($player_flag_events@, announcements($data@, 0), n)); }
}
@end
