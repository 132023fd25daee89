## C09
@fn ping::ping_per_player_number(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C09] r is Ok <==> has_pings($data@)
[C09] r is Ok ==> forall|n: u8| #[trigger] r->Ok_0@.dom().contains(n) <==> ping_of($data@, n) is Some
[C09] r is Ok ==> forall|n: u8| r->Ok_0@.dom().contains(n) ==> #[trigger] r->Ok_0@[n] as int == ping_of($data@, n)->Some_0
@local index: usize
@local sample_count: usize
@local max_samples: usize
@local total_pings: std::collections::HashMap<u8, std::vec::Vec<u16>>
@local average_ping: std::collections::HashMap<u8, u32>
@local info: qw::frame::Info
@local body: std::io::Cursor<&[u8]>
@local did_ping_update: bool
@local pings_sum: u64
@local avg_ping: u64
@local pings: &std::vec::Vec<u16>
@local __acc3: u64
@entry
let ghost total = ping_samples($data@, 0, 8);
@loop 0
@inv
[C01] $index <= $data@.len()
[C09] total == ping_samples($data@, 0, 8)
[C09] $max_samples == 8 && $sample_count < 8
[C09] collected($total_pings@, ping_samples($data@, $index as int, 8 - $sample_count), total)
@ldecreases $data@.len() - $index
@body
let ghost after = ping_samples($data@, $index + $info.size, if ping_run(body_at($data@, $index as int, frame_at($data@, $index as int)->Some_0), 0).len() > 0 { 7 - $sample_count } else { 8 - $sample_count });
assert(ping_samples($data@, $index as int, 8 - $sample_count) =~= ping_run(body_at($data@, $index as int, frame_at($data@, $index as int)->Some_0), 0) + after);
assert($info.body_size == 0 ==> ping_run(body_at($data@, $index as int, frame_at($data@, $index as int)->Some_0), 0) =~= Seq::empty());
assert(Seq::<(u8, u16)>::empty() + after =~= after);
@after
assert(collected($total_pings@, Seq::empty(), total));
proof {
    if total.len() > 0 { lemma_vals_some(total); assert(got($total_pings@, total[0].0) =~= vals(total, total[0].0)); }
    else { assert forall|n: u8| !$total_pings@.dom().contains(n) by { assert(got($total_pings@, n) =~= vals(total, n)); } assert($total_pings@ =~= Map::empty()); }
    assert forall|n: u8| $total_pings@.dom().contains(n) implies #[trigger] $total_pings@[n]@ == vals(total, n) by { assert(got($total_pings@, n) =~= vals(total, n)); }
    assert forall|n: u8| #[trigger] $total_pings@.dom().contains(n) <==> vals(total, n).len() > 0 by { assert(got($total_pings@, n) =~= vals(total, n)); }
    lemma_ping_samples_len($data@, 0, 8);
    assert forall|n: u8| (#[trigger] vals(total, n)).len() <= max_data() by { lemma_vals_len(total, n); }
}
@loop 1
@inv
[C09] $body.rd() == body_at($data@, $index as int, frame_at($data@, $index as int)->Some_0) && 0 <= $body.rp()
[C09] collected($total_pings@, ping_run($body.rd(), $body.rp()) + after, total)
[C09] $did_ping_update || ping_run($body.rd(), $body.rp()) == ping_run($body.rd(), 0)
[C09] $did_ping_update ==> ping_run($body.rd(), 0).len() > 0
@ldecreases if $body.rp() <= $body.rd().len() { $body.rd().len() - $body.rp() } else { 0 }
@body
let ghost p1 = $body.rp();
let ghost m0 = $total_pings@;
proof {
    if p1 + 4 <= $body.rd().len() {
        let x = ($body.rd()[p1], le2($body.rd().subrange(p1 + 1, p1 + 3)) as u16);
        let rest = ping_run($body.rd(), p1 + 6) + after;
        assert(ping_run($body.rd(), p1 - 1) + after =~= seq![x] + rest);
        assert forall|w: Map<u8, Vec<u16>>| w.dom() =~= m0.dom().insert(x.0) && w[x.0]@ =~= got(m0, x.0).push(x.1)
            && (forall|n: u8| n != x.0 && m0.dom().contains(n) ==> w[n] == m0[n]) implies #[trigger] collected(w, rest, total) by { lemma_collect(m0, w, x, rest, total); }
    }
}
@after
proof {
    assert($did_ping_update && $sample_count >= 7 ==> after =~= Seq::empty());
    assert(collected($total_pings@, after, total));
}
@loop 2
@inv
[C09] forall|n: u8| #[trigger] $average_ping@.dom().contains(n) <==> exists|j: int| 0 <= j < __k2 && *(#[trigger] __s2@[j]).0 == n
[C09] forall|n: u8| $average_ping@.dom().contains(n) ==> #[trigger] $average_ping@[n] as int == avg_of(vals(total, n))
@body
proof { lemma_avg(vals(total, *__s2@[__k2 as int].0)); }
assert(__s2@[__k2 as int].1@ == vals(total, *__s2@[__k2 as int].0));
@loop 3
@inv
[C09] $__acc3 as int == usum(__s3@.subrange(0, __k3 as int))
@body
proof { lemma_usum_step(__s3@, __k3 as int); }
@after
proof { assert(__s3@.subrange(0, __s3@.len() as int) =~= __s3@); }
@end
