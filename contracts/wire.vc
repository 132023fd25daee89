## C02 / C03: readers, code tables, frame header
@fn qw::primitives::ReadPrimitives::read_byte()
@requires
[C01] 0 <= old(self).rp()
@ensures
[C03] final(self).rd() == old(self).rd()
[C03] r is Ok <==> old(self).rp() < old(self).rd().len()
[C03] r is Ok ==> r->Ok_0 == old(self).rd()[old(self).rp()] && final(self).rp() == old(self).rp() + 1
[C03] r is Err ==> final(self).rp() == old(self).rd().len()
@end

@fn qw::primitives::ReadPrimitives::read_u16()
@requires
[C01] 0 <= old(self).rp()
@ensures
[C03] final(self).rd() == old(self).rd()
[C03] r is Ok <==> old(self).rp() + 2 <= old(self).rd().len()
[C03] r is Ok ==> r->Ok_0 as int == le2(old(self).rd().subrange(old(self).rp(), old(self).rp() + 2)) && final(self).rp() == old(self).rp() + 2
[C03] r is Err ==> final(self).rp() == old(self).rd().len()
@end

@fn qw::primitives::ReadPrimitives::read_u32()
@requires
[C01] 0 <= old(self).rp()
@ensures
[C03] final(self).rd() == old(self).rd()
[C03] r is Ok <==> old(self).rp() + 4 <= old(self).rd().len()
[C03] r is Ok ==> r->Ok_0 as int == le4(old(self).rd().subrange(old(self).rp(), old(self).rp() + 4)) && final(self).rp() == old(self).rp() + 4
[C03] r is Err ==> final(self).rp() == old(self).rd().len()
@end

@fn qw::primitives::ReadPrimitives::read_bstring()
@requires
[C01] 0 <= old(self).rp()
@ensures
[C03] final(self).rd() == old(self).rd()
[C03] match zero_at(old(self).rd(), old(self).rp()) { Some(z) => r is Ok && r->Ok_0@ == old(self).rd().subrange(old(self).rp(), z) && final(self).rp() == z + 1, None => r is Err && final(self).rp() == old(self).rd().len() }
@local result: std::vec::Vec<u8>
@loop 0
@inv
[C03] self.rd() == old(self).rd()
[C03] old(self).rp() <= self.rp() && (self.rp() <= self.rd().len() || $result@.len() == 0)
[C03] self.rp() == old(self).rp() + $result@.len()
[C03] $result@.len() > 0 ==> $result@ == old(self).rd().subrange(old(self).rp(), self.rp())
[C03] zero_at(old(self).rd(), old(self).rp()) == zero_at(old(self).rd(), self.rp())
@ldecreases self.rd().len() - self.rp()
@end

@fn qw::message::message_type::ReadMessageType::read_message_type()
@requires
[C01] 0 <= old(self).rp()
@ensures
[C03] final(self).rd() == old(self).rd()
[C03] r is Ok <==> old(self).rp() < old(self).rd().len()
[C03] r is Ok ==> mt_ok(r->Ok_0, old(self).rd()[old(self).rp()]) && final(self).rp() == old(self).rp() + 1
[C03] r is Err ==> final(self).rp() == old(self).rd().len()
@end

@fn qw::message::print::ReadPrint::read_print()
@requires
[C01] 0 <= old(self).rp()
@ensures
[C03] final(self).rd() == old(self).rd()
[C03] match print_at(old(self).rd(), old(self).rp()) { Some((p, q)) => r is Ok && pv(r->Ok_0) == p && final(self).rp() == q, None => r is Err && final(self).rp() == old(self).rd().len() }
@end

@fn qw::message::update_frags::ReadUpdateFrags::read_update_frags()
@requires
[C01] 0 <= old(self).rp()
@ensures
[C03] final(self).rd() == old(self).rd()
[C03] r is Ok <==> old(self).rp() + 3 <= old(self).rd().len()
[C03] r is Ok ==> r->Ok_0.player_number == old(self).rd()[old(self).rp()] && r->Ok_0.frags as int == le2(old(self).rd().subrange(old(self).rp() + 1, old(self).rp() + 3)) && final(self).rp() == old(self).rp() + 3
[C03] r is Err ==> final(self).rp() == old(self).rd().len()
@end

@fn qw::message::update_ping::ReadUpdatePing::read_update_ping()
@requires
[C01] 0 <= old(self).rp()
@ensures
[C03] final(self).rd() == old(self).rd()
[C03] r is Ok <==> old(self).rp() + 4 <= old(self).rd().len()
[C03] r is Ok ==> r->Ok_0.player_number == old(self).rd()[old(self).rp()] && r->Ok_0.ping as int == le2(old(self).rd().subrange(old(self).rp() + 1, old(self).rp() + 3)) && final(self).rp() == old(self).rp() + 4
[C03] r is Err ==> final(self).rp() == old(self).rd().len()
@end

@fn qw::message::print::Print::byte_size()
@requires
[C01] self.content@.len() <= max_data()
@ensures
[C03] r == self.content@.len() + 2
@end

@fn qw::message::print::Print::v_try_from_u8(value)
@ensures
[C03] match print_at($value@, 0) { Some((p, q)) => r is Ok && pv(r->Ok_0) == p, None => r is Err }
@end
@fn qw::message::update_frags::UpdateFrags::v_try_from_u8(value)
@ensures
[C03] r is Ok <==> 3 <= $value@.len()
[C03] r is Ok ==> r->Ok_0.player_number == $value@[0] && r->Ok_0.frags as int == le2($value@.subrange(1, 3))
@end
@fn qw::message::update_ping::UpdatePing::v_try_from_u8(value)
@ensures
[C03] r is Ok <==> 4 <= $value@.len()
[C03] r is Ok ==> r->Ok_0.player_number == $value@[0] && r->Ok_0.ping as int == le2($value@.subrange(1, 3))
@end

@fn qw::prot::MessageType::v_from_u8(value)
@ensures
[C03] mt_ok(r, *$value)
@end
@fn qw::prot::PrintId::v_from_u8(value)
@ensures
[C03] pid_int(r) == pid_of(*$value)
@end
@fn qw::prot::HiddenMessage::v_from_u16(value)
@ensures
[C15] r == crate::qw::prot::HiddenMessage::Demoinfo <==> *$value == 3
@end
@fn qw::prot::Target::v_from_u8(value)
@ensures
[C02] r == crate::qw::prot::Target::Multiple <==> (*$value & 7u8) == 3
@end
@fn qw::prot::Command::v_from_u8(value)
@ensures
[C02] r == crate::qw::prot::Command::Read <==> ((*$value & 7u8) == 1 || (3 <= (*$value & 7u8) && (*$value & 7u8) <= 6))
[C02] r == crate::qw::prot::Command::Set <==> (*$value & 7u8) == 2
@end

@fn qw::frame::Info::from_data_and_index(data, index)
@requires
[C01] $data@.len() <= max_data()
[C01] $index <= $data@.len()
@ensures
[C02] r is Ok <==> frame_at($data@, $index as int) is Some
[C02] r is Ok ==> ({ let f = frame_at($data@, $index as int)->Some_0; let i = r->Ok_0; i.index == $index && i.duration as int == f.dur && i.header_size as int == f.hdr && i.body_size as int == f.body && i.size as int == f.hdr + f.body && i.body_range.start as int == $index + f.hdr && i.body_range.end as int == next_at($index as int, f) && i.header_range.start == $index && i.header_range.end as int == $index + f.hdr })
[C01] r is Ok ==> $index + r->Ok_0.size <= $data@.len() && r->Ok_0.size >= 2 && r->Ok_0.body_range.start <= r->Ok_0.body_range.end
@tail
assert(forall|a: int, b: int| 0 <= a <= b <= $data@.len() - $index ==> #[trigger] $data@.subrange($index as int, $data@.len() as int).subrange(a, b) =~= $data@.subrange($index + a, $index + b));
@end
