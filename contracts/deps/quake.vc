## the contracts assumed of these crates in contracts/shim.rs, here as obligations on their sources
@fn quake_text::bytestr::to_unicode(bytes)
@ensures
[C00] r@ =~= uni($bytes@)
@local __acc0: std::string::String
@loop 0
@inv
[C00] $__acc0@ =~= uni($bytes@).subrange(0, __k0 as int)
@end
@fn quake_text::bytestr::to_utf8(bytes)
@ensures
[C00] r@ =~= qtext($bytes@)
@end
@fn quake_text::unicode::to_utf8(ustr)
@ensures
[C00] r@ =~= qtext(low_bytes($ustr@))
@local __acc0: std::string::String
@loop 0
@inv
[C00] $__acc0@ =~= qtext(low_bytes($ustr@)).subrange(0, __k0 as int)
@end
@fn quake_text::unicode::to_bytestr(value)
@ensures
[C00] r@ =~= low_bytes($value@)
@local __acc0: std::vec::Vec<u8>
@loop 0
@inv
[C00] $__acc0@ =~= low_bytes($value@).subrange(0, __k0 as int)
@end
@fn quake_text::unicode::sort(values)
@ensures
[C00] strs(r@) == uni_sort(strs($values@))
@cmp 0 cmp_text C00
@end
@fn quake_infostring::util::clean(serverinfo)
@ensures
[C00] r@ == info_clean($serverinfo@)
@entry
proof { reveal_strlit("\\\\"); }
@end
@fn quake_infostring::to_hashmap(info)
@ensures
[C00] text_map(r@) =~= info_map($info@)
@local __acc0: std::vec::Vec<std::string::String>
@local iter: std::iter::Map<std::str::Split<char>, {closure}>
@local result: std::collections::HashMap<std::string::String, std::string::String>
@loop 0
@inv
[C00] strs($__acc0@) =~= info_parts($info@).subrange(0, __k0 as int) && sviews(__s0@) =~= info_parts($info@)
@after
assert(strs($__acc0@) =~= info_parts($info@));
@loop 1
@before
assert(text_map($result@) =~= Map::<Seq<char>, Seq<char>>::empty());
@inv
[C00] info_pairs(text_map($result@), strs($iter@)) == info_map($info@)
@ldecreases $iter@.len()
@end
@fn quake_clientinfo::map_get_string(map, key)
@ensures
[C00] osv(r) == info_text(text_map($map@), $key@)
@end
@fn quake_clientinfo::map_get_int(map, key)
@ensures
[C00] r == info_int(text_map($map@), $key@)
@end
@fn quake_clientinfo::Clientinfo::d_from_String(value)
@ensures
[C00] civ(r) == ci_from(text_map($value@))
@end
@fn quake_clientinfo::Clientinfo::d_from_str(value)
@ensures
[C00] civ(r) == ci_of($value@)
@entry
proof { reveal(ci_of); }
@end
@fn quake_serverinfo::map_get_string(map, key)
@ensures
[C00] osv(r) == info_text(text_map($map@), $key@)
@end
@fn quake_serverinfo::map_get_int(map, key)
@ensures
[C00] r == info_int(text_map($map@), $key@)
@end
@fn quake_serverinfo::Settings::d_from_String(value)
@ensures
[C00] siv(r) == si_from(text_map($value@))
@end
@fn quake_serverinfo::Settings::d_from_str(value)
@ensures
[C00] siv(r) == si_of($value@)
@entry
proof { reveal(si_of); }
@end
@fn quake_serverinfo::Settings::d_from_u8(bytes)
@ensures
[C00] siv(r) == si_of(uni($bytes@))
@end
