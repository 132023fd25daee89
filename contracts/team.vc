## C13
@fn team::majority_color(colors)
@ensures
[C13] $colors@.len() == 0 ==> r is None
[C13] $colors@.len() > 0 ==> r is Some && colour(r->Some_0) == vote(colours($colors@))
@local color_count: std::collections::HashMap<[u8; 2], usize>
@local max_color: std::option::Option<[u8; 2]>
@local max_count: usize
@loop 0
@inv
[C13] forall|c: Seq<u8>| #[trigger] worn(colours($colors@).subrange(0, __k0 as int), c) == (if $color_count@.dom().contains(c) { $color_count@[c] as nat } else { 0nat })
@body
assert(colours($colors@).subrange(0, __k0 + 1) =~= colours($colors@).subrange(0, __k0 as int).push(colour($colors@[__k0 as int])));
assert(colour($colors@[__k0 as int]) =~= $colors@[__k0 as int]@);
proof { lemma_worn_some(colours($colors@).subrange(0, __k0 as int), colour($colors@[__k0 as int])); }
@after
assert(colours($colors@).subrange(0, $colors@.len() as int) =~= colours($colors@));
@loop 1
@inv
[C13] forall|j: int| 0 <= j < __k1 ==> worn(colours($colors@), colours($colors@)[j]) <= $max_count
[C13] __k1 == 0 ==> $max_count == 0
[C13] __k1 > 0 ==> $max_color is Some && exists|i: int| 0 <= i < __k1 && colour($max_color->Some_0) == #[trigger] colours($colors@)[i] && worn(colours($colors@), colours($colors@)[i]) == $max_count && (forall|j: int| 0 <= j < i ==> worn(colours($colors@), #[trigger] colours($colors@)[j]) < $max_count)
@body
assert(colour($colors@[__k1 as int]) =~= $colors@[__k1 as int]@);
assert(colours($colors@)[__k1 as int] == colour($colors@[__k1 as int]));
assert(colours($colors@).contains(colour($colors@[__k1 as int])));
@after
proof {
    let i = choose|i: int| 0 <= i < __k1 && colour($max_color->Some_0) == #[trigger] colours($colors@)[i] && worn(colours($colors@), colours($colors@)[i]) == $max_count && (forall|j: int| 0 <= j < i ==> worn(colours($colors@), #[trigger] colours($colors@)[j]) < $max_count);
    assert(elected(colours($colors@), i));
}
@end
@fn team::Team::v_from_Player(players)
@requires
[C01] $players@.len() <= u32::MAX
@ensures
[C13] tv(r) == team_of(plvs($players@))
@local team: team::Team
@local total_frags: i64
@local total_ping: u64
@local player_count: u64
@local __acc1: std::vec::Vec<[u8; 2]>
@loop 0
@inv
[C13] plvs($team.players@) =~= plvs($players@).subrange(0, __k0 as int)
[C13] $team.name@ == $players@[0].team@
[C13] $total_frags as int == frag_sum(plvs($players@).subrange(0, __k0 as int))
[C13] $total_ping as int == ping_sum(plvs($players@).subrange(0, __k0 as int))
@body
assert(plvs($players@).subrange(0, __k0 + 1) =~= plvs($players@).subrange(0, __k0 as int).push(plv($players@[__k0 as int])));
proof { lemma_sum_range(plvs($players@).subrange(0, __k0 as int)); lemma_sum_range(plvs($players@).subrange(0, __k0 + 1)); }
@after
proof {
    assert(plvs($players@).subrange(0, $players@.len() as int) =~= plvs($players@));
    lemma_sum_range(plvs($players@));
    lemma_rounded(ping_sum(plvs($players@)), $players@.len() as int);
}
@loop 1
@inv
[C13] $__acc1@.len() == __k1
[C13] forall|i: int| 0 <= i < __k1 ==> #[trigger] $__acc1@[i] == __s1@[i].color
@after
proof { assert(colours($__acc1@) =~= shirts(plvs($players@))); }
@end
@fn team::teams_from_players(players)
@requires
[C01] $players@.len() <= u32::MAX
@ensures
[C13] tvs(r@) == teams_of_players(plvs($players@))
@local tmap: std::collections::BTreeMap<std::string::String, std::vec::Vec<player::Player>>
@local teams: std::vec::Vec<team::Team>
@cmp 0 cmp_team C13
@loop 0
@inv
[C13] grouped($tmap@, plvs($players@).subrange(0, __k0 as int))
@body
proof {
    let p = $players@[__k0 as int];
    let m = $tmap@;
    assert(plvs($players@).subrange(0, __k0 + 1) =~= plvs($players@).subrange(0, __k0 as int).push(plv(p)));
    assert forall|w: Map<Seq<char>, Vec<crate::player::Player>>| w.dom() =~= m.dom().insert(p.team@)
        && w[p.team@]@ =~= (if m.dom().contains(p.team@) { m[p.team@]@ } else { Seq::empty() }).push(p)
        && (forall|t: Seq<char>| t != p.team@ && m.dom().contains(t) ==> w[t] == m[t])
        implies #[trigger] grouped(w, plvs($players@).subrange(0, __k0 + 1)) by { lemma_grouped(m, w, plvs($players@).subrange(0, __k0 as int), p); }
}
@loop 1
@inv
[C13] tvs($teams@) =~= team_keys(plvs($players@)).map_values(|t: Seq<char>| team_of(group(plvs($players@), t))).subrange(0, __k1 as int)
@before
proof {
    let ks = asc_keys::<String, Vec<crate::player::Player>>($tmap@);
    let s = plvs($players@);
    assert(s.subrange(0, s.len() as int) =~= s);
    assert forall|t: Seq<char>| #[trigger] ks.contains(t) <==> group(s, t).len() > 0 by {
        assert($tmap@.dom().contains(t) <==> group(s, t).len() > 0);
        if ks.contains(t) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == t; assert($tmap@.dom().contains(ks[i])); }
    }
    assert(lists_teams(ks, s));
}
@body
proof {
    let t = asc_keys::<String, Vec<crate::player::Player>>($tmap@)[__k1 as int];
    assert($tmap@.dom().contains(t));
    lemma_group_ok(plvs($players@), t);
    assert(plvs($tmap@[t]@) == group(plvs($players@), t));
}
@after
assert(tvs($teams@) =~= team_keys(plvs($players@)).map_values(|t: Seq<char>| team_of(group(plvs($players@), t))));
@end
@fn teams::teams(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C13] few($data@) || ktx($data@) is Some ==> match players_s($data@) { Some(v) => r is Ok && tvs(r->Ok_0@) == teams_of_players(v), None => r is Err }
@end
@fn teams::teams_from_ktxstats(stats)
@requires
[C01] $stats.players@.len() <= u32::MAX
@ensures
[C13] r is Ok && tvs(r->Ok_0@) == teams_of_players(stats_players(*$stats))
@end
