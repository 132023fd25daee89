## C16, C18
@fn bytesextra::offsets_between(data, a, b)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C16] match between($data@, $a@, $b@) { Some((f, t)) => r is Some && r->Some_0.0 == f && r->Some_0.1 == t, None => r is None }
@end
@fn serverinfo::serverinfo_string(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C16] match si_text($data@) { Some(t) => r is Ok && r->Ok_0@ =~= t, None => r is Err }
@end
@fn serverinfo::serverinfo(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C16] match si($data@) { Some(s) => r is Ok && siv(r->Ok_0) == s, None => r is Err }
@end
@fn filename::filename(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C16] match si($data@) { Some(s) => (r is Ok <==> s.serverdemo is Some) && (r is Ok ==> r->Ok_0@ == s.serverdemo->Some_0), None => r is Err }
@end
@fn validate::has_end_of_demo_print(data)
@ensures
[C18] r ==> ends($data@, n_end())
[C18] $data@.len() > 12 ==> r == ends($data@, n_end())
@end
@fn validate::has_clients(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C18] r == (match ci_strs($data@) { Some(v) => v.len() > 0, None => false })
@end
@fn validate::is_valid(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C18] r == ($data@.len() >= 1024 && ends($data@, n_end()) && si_text($data@) is Some && (match ci_strs($data@) { Some(v) => v.len() > 0, None => false }))
@end
@fn aborted::is_aborted(data)
@ensures
[C18] r == has($data@, n_abort())
@end
@fn paused::is_paused(data)
@requires
[C01] $data@.len() <= max_data()
@ensures
[C18] r == (!ends($data@, n_end()) && (has($data@, n_paused1()) || has($data@, n_paused2())))
@end
