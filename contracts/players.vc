## C12
@fn player::Player::v_from_Player(player)
@ensures
[C12] plv(r) == of_stats(*$player)
@end
@fn players::players(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C01] r is Ok ==> r->Ok_0@.len() <= u32::MAX
[C12] few($data@) || ktx($data@) is Some ==> match players_s($data@) { Some(v) => r is Ok && plvs(r->Ok_0@) == v, None => r is Err }
@end
@fn players::players_from_ktxstats(stats)
@ensures
[C01] r is Ok ==> r->Ok_0@.len() == $stats.players@.len()
[C12] r is Ok && plvs(r->Ok_0@) == stats_players(*$stats)
@local __acc0: std::vec::Vec<player::Player>
@cmp 0 cmp_player C12
@loop 0
@inv
[C12] $__acc0@.len() == __k0 && __s0@ == $stats.players@
[C12] forall|i: int| 0 <= i < __k0 ==> plv(#[trigger] $__acc0@[i]) == of_stats($stats.players@[i])
@after
proof { assert(plvs($__acc0@) =~= Seq::new($stats.players@.len(), |i: int| of_stats($stats.players@[i]))); }
@end
@fn players::players_from_parsing(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C01] r is Ok ==> r->Ok_0@.len() <= 256
[C12] few($data@) ==> match parsed_players($data@) { Some(v) => r is Ok && plvs(r->Ok_0@) == v, None => r is Err }
@local clients: std::vec::Vec<client::Client>
@local pmap: std::collections::BTreeMap<u8, player::Player>
@local __acc1: std::vec::Vec<player::Player>
@cmp 0 cmp_player C12
@loop 0
@inv
[C12] clients_s($data@) is Some && cvs($clients@) =~= clients_s($data@)->Some_0 && has_pings($data@)
[C12] few($data@) ==> forall|n: u8| #[trigger] $pmap@.dom().contains(n) <==> n < __k0 && !cvs($clients@)[n as int].spec
[C12] few($data@) ==> forall|n: u8| $pmap@.dom().contains(n) ==> plv(#[trigger] $pmap@[n]) == of_client($data@, cvs($clients@)[n as int])
@body
assert(cv($clients@[__k0 as int]) == cvs($clients@)[__k0 as int]);
@loop 1
@inv
[C01] $__acc1@.len() == __k1
[C12] few($data@) ==> plvs($__acc1@) =~= keep_spec(cvs($clients@), false).map_values(|c: ClientS| of_client($data@, c)).subrange(0, __k1 as int)
@before
let ghost cs = cvs($clients@);
proof { lemma_few_keys(asc_keys::<u8, crate::player::Player>($pmap@)); if few($data@) {
    lemma_kept(cs, cs.len() as int);
    assert(cs.subrange(0, cs.len() as int) =~= cs);
    let ks = asc_keys::<u8, crate::player::Player>($pmap@);
    assert forall|n: u8| ks.contains(n) <==> kept(cs, cs.len() as int).contains(n) by {
        if ks.contains(n) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == n; assert($pmap@.dom().contains(ks[i])); }
        assert($pmap@.dom().contains(n) <==> n < cs.len() && !cs[n as int].spec);
    }
    lemma_asc_unique::<u8>(asc_keys::<u8, crate::player::Player>($pmap@), kept(cs, cs.len() as int));
} }
@after
assert(few($data@) ==> plvs($__acc1@) =~= keep_spec(cvs($clients@), false).map_values(|c: ClientS| of_client($data@, c)));
@end
