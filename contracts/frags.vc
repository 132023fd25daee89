## C05, C06, C07
@fn qw::fragevent::pattern_match(value, pattern)
@ensures
[C06] match two_names($value@, $pattern@) { Some((x, y)) => r is Some && r->Some_0.0@ == x && r->Some_0.1@ == y, None => r is None }
@end
@fn qw::fragevent::FragEvent::v_try_from_str(value)
@ensures
[C06] match classify($value@) { Some(e) => r is Ok && fev(r->Ok_0) == e, None => r is Err }
@local __acc0: std::option::Option<usize>
@local __acc1: std::option::Option<usize>
@local __acc2: std::option::Option<usize>
@local __acc3: std::option::Option<usize>
@entry
assert(crate::qw::fragprint::X_FRAG_Y@ =~= killer_first());
proof { lemma_phrases_apart(); }
@loop 0
@before
assert(__s0@ =~= deaths());
@inv
[C06] __acc0 is None && before($value@, deaths(), 0) == before($value@, deaths(), __k0 as int)
@loop 1
@before
assert(__s1@ =~= own_weapon());
@inv
[C06] __acc1 is None && before($value@, own_weapon(), 0) == before($value@, own_weapon(), __k1 as int)
@loop 2
@before
assert(__s2@ =~= mate_kills());
@inv
[C06] __acc2 is None && before($value@, mate_kills(), 0) == before($value@, mate_kills(), __k2 as int)
@loop 3
@before
assert(__s3@ =~= killed_by_mate());
@inv
[C06] __acc3 is None && before($value@, killed_by_mate(), 0) == before($value@, killed_by_mate(), __k3 as int)
@loop 4
@inv
[C06] __s4@ =~= killer_first() + victim_first()
[C06] kill_in($value@, 0) == kill_in($value@, __k4 as int)
@body
assert(__k4 < 3 ==> killer_first()[__k4 as int] == __s4@[__k4 as int]);
assert(__k4 >= 3 ==> victim_first()[__k4 - 3] == __s4@[__k4 as int]);
@end
@fn frags::frags_per_player_name(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C05] forall|n: Seq<char>| #[trigger] r@.dom().contains(n) <==> tally($data@, n) is Some
[C05] forall|n: Seq<char>| r@.dom().contains(n) ==> #[trigger] r@[n] as int == tally($data@, n)->Some_0
@local index: usize
@local print_frames: std::vec::Vec<(qw::message::print::Print, qw::frame::Info)>
@local frags: std::collections::HashMap<std::string::String, i32>
@loop 0
@inv
[C01] $index <= $data@.len()
[C05] obs($print_frames@) + obits($data@, $index as int) =~= obits($data@, 0)
[C05] from_frames($data@, $print_frames@)
@ldecreases $data@.len() - $index
@loop 1
@inv
[C05] obs(__s1@) =~= obits($data@, 0) && from_frames($data@, __s1@)
[C05] tallied($frags@, $data@, obs(__s1@).subrange(0, __k1 as int))
@before
proof { lemma_obits_len($data@, 0); }
@body
proof {
    let o = Obit { text: obit_text(__s1@[__k1 as int].0.content@), at: __s1@[__k1 as int].1.index as int };
    assert(obs(__s1@).subrange(0, __k1 + 1) =~= obs(__s1@).subrange(0, __k1 as int).push(o));
    lemma_tallied($frags@, $data@, obs(__s1@).subrange(0, __k1 as int), o);
    assert(obit_frame($data@, __s1@[__k1 as int].1.index as int));
}
@after
proof {
    assert(obs(__s1@).subrange(0, __s1@.len() as int) =~= obits($data@, 0));
    assert forall|n: Seq<char>| #[trigger] $frags@.dom().contains(n) <==> tally($data@, n) is Some by { let t = tally_of($data@, obits($data@, 0), n); }
    assert forall|n: Seq<char>| $frags@.dom().contains(n) implies #[trigger] $frags@[n] as int == tally($data@, n)->Some_0 by { let t = tally_of($data@, obits($data@, 0), n); }
}
@end
@fn frags::find_team_killer(data, index, victim_name)
@requires
[C01] $data@.len() <= max_data()
[C07] obit_frame($data@, $index as int)
@ensures
[C07] match team_killer($data@, $index as int, $victim_name@) { Some(k) => r is Ok && r->Ok_0@ == k, None => r is Err }
@local index: usize
@local frame_count: usize
@local frag_update_player_numbers: std::vec::Vec<u8>
@local clients: std::vec::Vec<client::Client>
@local victim_client: &client::Client
@local __acc1: std::option::Option<&client::Client>
@local __acc2: std::option::Option<&client::Client>
@local __acc3: std::option::Option<&client::Client>
@entry
let ghost i0 = $index as int;
proof { lemma_obit_end(body_at($data@, i0, frame_at($data@, i0)->Some_0)); }
@loop 0
@inv
[C01] $index <= $data@.len()
[C07] 1 <= $frame_count <= 4
[C07] $frame_count == 1 ==> $index == i0
[C07] $frag_update_player_numbers@ + updates($data@, $index as int, $frame_count as int) =~= updates($data@, i0, 1)
@ldecreases $data@.len() - $index
@loop 1
@inv
[C07] $__acc1 is None
[C07] named(cvs($clients@), $victim_name@, 0) == named(cvs($clients@), $victim_name@, __k1 as int)
@body
assert(cvs($clients@)[__k1 as int] == cv($clients@[__k1 as int]));
@loop 2
@inv
[C07] $__acc2 is None
[C07] mate_of(cvs($clients@), cv(*$victim_client), $frag_update_player_numbers@, 0) == mate_of(cvs($clients@), cv(*$victim_client), $frag_update_player_numbers@, __k2 as int)
@loop 3
@inv
[C07] $__acc3 is None
[C07] numbered(cvs($clients@), __s2@[__k2 - 1], 0) == numbered(cvs($clients@), __s2@[__k2 - 1], __k3 as int)
@body
assert(cvs($clients@)[__k3 as int] == cv($clients@[__k3 as int]));
@end
