## C14, C04: walks over the frame chain
@fn duration::duration_until_offset(data, target_offset)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C14] r.nanos as int == dur_sum($data@, 0, $target_offset as int) * 1_000_000
@local index: usize
@local total_ms: u64
@loop 0
@inv
[C01] $index <= $data@.len()
[C14] $total_ms + dur_sum($data@, $index as int, $target_offset as int) == dur_sum($data@, 0, $target_offset as int)
[C01] $total_ms <= 255 * $index
@ldecreases $data@.len() - $index
@end

@fn prints::prints(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C04] pvs(r@) =~= dedup(all_prints($data@, 0))
@local index: usize
@local prints: std::vec::Vec<qw::message::print::Print>
@local info: qw::frame::Info
@local body: std::io::Cursor<&[u8]>
@loop 0
@inv
[C01] $index <= $data@.len()
[C04] pvs($prints@) + all_prints($data@, $index as int) =~= all_prints($data@, 0)
@ldecreases $data@.len() - $index
@loop 1
@inv
[C04] $body.rd() == body_at($data@, $index as int, frame_at($data@, $index as int)->Some_0)
[C04] 0 <= $body.rp() <= $body.rd().len()
[C04] pvs($prints@) + leading_prints($body.rd(), $body.rp()) + all_prints($data@, $index + $info.size) =~= all_prints($data@, 0)
@ldecreases $body.rd().len() - $body.rp()
@end
