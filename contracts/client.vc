## C10, C11
@fn clientinfo::clientinfo_strings(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C10] match ci_strs($data@) { Some(v) => r is Ok && strs(r->Ok_0@) =~= v, None => r is Err }
@local offset: usize
@local max_offset: usize
@local result: std::vec::Vec<std::string::String>
@local from: usize
@local to: usize
@loop 0
@inv
[C01] $offset <= $data@.len()
[C10] find_sub($data@, n_spawn()) is Some && $max_offset == find_sub($data@, n_spawn())->Some_0 + 24 * 512
[C10] strs($result@) + ci_rest($data@, $offset as int, $max_offset as int) =~= ci_strs($data@)->Some_0
@ldecreases $data@.len() - $offset
@body
proof {
    if let Some(o) = find_sub($data@.subrange($offset as int, min($data@.len() as int, $offset + 512)), n_name()) {
    if let Some(z) = rfind_sub($data@.subrange(0, $offset + o), seq![0u8]) {
    if let Some(t) = find_sub($data@.subrange(z + 1, $data@.len() as int), seq![0u8]) {
        lemma_ci_step($data@, $offset as int, o, z, t);
    } } }
}
@end
@fn clientinfo::clientinfo(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C10] match ci_strs($data@) { Some(v) => r is Ok && r->Ok_0@.map_values(|c: Clientinfo| civ(c)) =~= v.map_values(|s: Seq<char>| ci_of(s)), None => r is Err }
@local __acc0: std::vec::Vec<quake_clientinfo::Clientinfo>
@loop 0
@inv
[C10] strs(__s0@) =~= ci_strs($data@)->Some_0
[C10] ci_strs($data@) is Some
[C10] $__acc0@.map_values(|c: Clientinfo| civ(c)) =~= ci_strs($data@)->Some_0.map_values(|s: Seq<char>| ci_of(s)).subrange(0, __k0 as int)
@end
@fn client::Client::v_from_Clientinfo(value)
@ensures
[C10] cv(r) == client_of(civ(*$value), 0)
@end
@fn clients::clients(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C10] match clients_s($data@) { Some(v) => r is Ok && cvs(r->Ok_0@) =~= v, None => r is Err }
@local __acc0: std::vec::Vec<client::Client>
@loop 0
@inv
[C10] ci_strs($data@) is Some && __s0@.map_values(|c: Clientinfo| civ(c)) =~= ci_strs($data@)->Some_0.map_values(|s: Seq<char>| ci_of(s))
[C10] cvs($__acc0@) =~= clients_s($data@)->Some_0.subrange(0, __k0 as int)
@body
assert(civ(__s0@[__k0 as int]) == __s0@.map_values(|c: Clientinfo| civ(c))[__k0 as int]);
@end
@fn clients::player_clients(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C11] match player_clients_s($data@) { Some(v) => r is Ok && cvs(r->Ok_0@) =~= v, None => r is Err }
@local __acc0: std::vec::Vec<client::Client>
@loop 0
@inv
[C11] clients_s($data@) is Some && cvs(__s0@) =~= clients_s($data@)->Some_0
[C11] cvs($__acc0@) =~= keep_spec(cvs(__s0@).subrange(0, __k0 as int), false)
@body
assert(cvs(__s0@).subrange(0, __k0 + 1) =~= cvs(__s0@).subrange(0, __k0 as int).push(cvs(__s0@)[__k0 as int]));
@after
assert(cvs(__s0@).subrange(0, __k0 as int) =~= cvs(__s0@));
@end
@fn clients::spectator_clients(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C11] match spectators_s($data@) { Some(v) => r is Ok && cvs(r->Ok_0@) =~= v, None => r is Err }
@local __acc0: std::vec::Vec<client::Client>
@loop 0
@inv
[C11] clients_s($data@) is Some && cvs(__s0@) =~= clients_s($data@)->Some_0
[C11] cvs($__acc0@) =~= keep_spec(cvs(__s0@).subrange(0, __k0 as int), true)
@body
assert(cvs(__s0@).subrange(0, __k0 + 1) =~= cvs(__s0@).subrange(0, __k0 as int).push(cvs(__s0@)[__k0 as int]));
@after
assert(cvs(__s0@).subrange(0, __k0 as int) =~= cvs(__s0@));
@end
@fn clients::player_names(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C11] match player_clients_s($data@) { Some(v) => r is Ok && strs(r->Ok_0@) == uni_sort(names_of(v)), None => r is Err }
@local __acc0: std::vec::Vec<std::string::String>
@loop 0
@inv
[C11] player_clients_s($data@) is Some && cvs(__s0@) == player_clients_s($data@)->Some_0
[C11] strs($__acc0@) =~= names_of(cvs(__s0@)).subrange(0, __k0 as int)
@after
proof { assert(strs($__acc0@) =~= names_of(player_clients_s($data@)->Some_0)); }
@end
@fn clients::spectator_names(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C11] match spectators_s($data@) { Some(v) => r is Ok && strs(r->Ok_0@) == uni_sort(names_of(v)), None => r is Err }
@local __acc0: std::vec::Vec<std::string::String>
@loop 0
@inv
[C11] spectators_s($data@) is Some && cvs(__s0@) =~= spectators_s($data@)->Some_0
[C11] strs($__acc0@) =~= names_of(cvs(__s0@)).subrange(0, __k0 as int)
@after
proof { assert(strs($__acc0@) =~= names_of(spectators_s($data@)->Some_0)); }
@end
@fn clients::team_names(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C11] match player_clients_s($data@) { Some(v) => r is Ok && strs(r->Ok_0@) == uni_sort(teams_of(v)), None => r is Err }
@local names: std::vec::Vec<std::string::String>
@loop 0
@inv
[C11] player_clients_s($data@) is Some && cvs(__s0@) == player_clients_s($data@)->Some_0
[C11] strs($names@) =~= teams_of(cvs(__s0@).subrange(0, __k0 as int))
@body
proof {
    assert(cvs(__s0@).subrange(0, __k0 + 1) =~= cvs(__s0@).subrange(0, __k0 as int).push(cvs(__s0@)[__k0 as int]));
    assert forall|i: int| 0 <= i < $names@.len() implies $names@[i]@ == #[trigger] strs($names@)[i] by {}
}
@after
proof { assert(cvs(__s0@).subrange(0, __k0 as int) =~= cvs(__s0@)); assert(strs($names@) =~= teams_of(player_clients_s($data@)->Some_0)); }
@end
@fn clients::has_bot_players(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C11] match player_clients_s($data@) { Some(v) => r is Ok && r->Ok_0 == (has_bot(v) || has($data@, n_bot())), None => r is Err }
@local __acc0: bool
@loop 0
@inv
[C11] player_clients_s($data@) is Some && cvs(__s0@) == player_clients_s($data@)->Some_0
[C11] !$__acc0 ==> forall|i: int| 0 <= i < __k0 ==> !(#[trigger] cvs(__s0@)[i]).bot
[C11] $__acc0 ==> has_bot(cvs(__s0@))
@body
assert(cvs(__s0@)[__k0 as int].bot == __s0@[__k0 as int].is_bot);
@end
@fn clients::has_human_players(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C11] match player_clients_s($data@) { Some(v) => r is Ok && r->Ok_0 == has_human(v), None => r is Err }
@local __acc0: bool
@loop 0
@inv
[C11] player_clients_s($data@) is Some && cvs(__s0@) == player_clients_s($data@)->Some_0
[C11] !$__acc0 ==> forall|i: int| 0 <= i < __k0 ==> (#[trigger] cvs(__s0@)[i]).bot
[C11] $__acc0 ==> has_human(cvs(__s0@))
@body
assert(cvs(__s0@)[__k0 as int].bot == __s0@[__k0 as int].is_bot);
@end
