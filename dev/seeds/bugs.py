BUGS = []
def bug(id, property, needs, what, edits, main):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, main=main))

bug('frame-multi-empty', 'C02', 'a multi-recipient frame that is not a plain read frame (a setup or empty frame) in the middle of a recording',
    'the four recipient bytes are only counted for frames with a payload length, so the chain goes on inside such a frame',
    [('src/qw/frame.rs', '            Target::Multiple => numsize::LONG, // skip multi target bytes [0,0,0,0]', '            Target::Multiple if command == Command::Read && duration < 255 => numsize::LONG, // skip multi target bytes [0,0,0,0]')],
'''fn main() {
    // the longest frame time, then a print
    let mut d = vec![255, 3, 0, 0, 0, 0, 2, 0, 0, 0, 1, 1];
    d.extend(frame(1, &print(2, b"hello\\n")));
    assert_eq!(prints(&d).len(), 1);
    assert_eq!(demo_duration(&d).unwrap().as_millis(), 256);
}
''')
bug('print-dedup-content', 'C04', 'two directly consecutive prints with the same text and different severities',
    'only the text is compared when repeats are merged',
    [('src/prints.rs', '    prints.dedup();', '    prints.dedup_by(|a, b| a.content == b.content);')],
'''fn main() {
    let d = cat(&[frame(1, &print(2, b"same\\n")), frame(1, &print(3, b"same\\n")), frame(1, &print(3, b"same\\n"))]);
    assert_eq!(prints(&d).len(), 2);
}
''')
bug('print-id-nul', 'C03', 'a print whose severity byte is above 127',
    'the severity byte is masked before it is mapped, so that unknown severities are taken for known ones',
    [('src/qw/prot.rs', '''            0 => PrintId::Low,
            1 => PrintId::Medium,
            2 => PrintId::High,
            3 => PrintId::Chat,
            _ => PrintId::Unknown,''', '''            0 => PrintId::Low,
            1 => PrintId::Medium,
            2 | 0x82 => PrintId::High,
            3 => PrintId::Chat,
            _ => PrintId::Unknown,''')],
'''fn main() {
    let d = frame(1, &print(0x82, b"x\\n"));
    let p = prints(&d);
    assert_eq!(format!("{:?}", p[0].id), "Unknown");
}
''')
bug('frags-zero-sum', 'C05', 'a player whose kills and deaths cancel out exactly',
    'a name whose effects add up to zero disappears from the score table',
    [('src/frags.rs', '''    frags
}

fn find_team_killer''', '''    frags.retain(|_, score| *score != 0);
    frags
}

fn find_team_killer''')],
'''fn main() {
    let d = cat(&[frame(1, &print(1, b"a was nailed by b\\n")), frame(1, &print(1, b"b died\\n"))]);
    let f = frags_per_player_name(&d);
    assert_eq!(f.get("b"), Some(&0));
}
''')
bug('killer-name-trim', 'C06', "a killer whose name begins with a character that decodes to Unicode white space (a space or one of two coloured glyphs)",
    'white space at the start of the second name of a two-player obituary is dropped',
    [('src/qw/fragevent.rs', '    Some((x.to_string(), y.to_string()))', '    Some((x.to_string(), y.trim_start().to_string()))')],
'''fn main() {
    let f = frags_per_player_name(&frame(1, &print(1, b"bob was railed by  eve\\n")));
    assert_eq!(f.get(" eve"), Some(&1), "{f:?}");
}
''')
bug('suicide-name-space', 'C06', 'a suicide by a player whose name ends with a space',
    'spaces at the end of the name are removed',
    [('src/qw/fragevent.rs', 'player: value.trim_end_matches(X_SUICIDE).to_string(),', 'player: value.trim_end_matches(X_SUICIDE.trim_start()).trim_end().to_string(),')],
'''fn main() {
    let f = frags_per_player_name(&frame(1, &print(1, b"eve  suicides\\n")));
    assert_eq!(f.get("eve "), Some(&-2), "{f:?}");
}
''')
bug('teamkill-team-case', 'C07', 'candidates whose team names differ from the victim\'s only in case',
    'team membership is compared ignoring case, so a player of another team is charged',
    [('src/frags.rs', '.find(|c| c.team == victim_client.team && c.name != victim_client.name)', '.find(|c| c.team.eq_ignore_ascii_case(&victim_client.team) && c.name != victim_client.name)')],
'''fn main() {
    let c = frame(0, &clients_body(&["\\\\name\\\\vic\\\\team\\\\red", "\\\\name\\\\foe\\\\team\\\\RED", "\\\\name\\\\mate\\\\team\\\\red"]));
    let mut body = print(1, b"vic was telefragged by his teammate\\n");
    body.extend(frags_update(0, 0));
    let d = cat(&[c, frame(1, &body), frame(1, &frags_update(1, 3)), frame(1, &frags_update(2, 3))]);
    let f = frags_per_player_name(&d);
    assert_eq!(f.get("mate"), Some(&-1));
    assert_eq!(f.get("foe"), None);
}
''')
bug('teamkill-window', 'C07', 'an empty frame between the obituary and the score updates',
    'empty frames count towards the window in which score updates are looked for',
    [('src/frags.rs', '''        } else if info.body_size == 0 {
            index += info.size;
            continue;
        }

        let mut body = Cursor::new(&data[info.body_range.clone()]);

        if frame_count == 1 {''', '''        } else if info.body_size == 0 {
            index += info.size;
            frame_count += 1;
            continue;
        }

        let mut body = Cursor::new(&data[info.body_range.clone()]);

        if frame_count == 1 {''')],
'''fn main() {
    let c = frame(0, &clients_body(&["\\\\name\\\\vic\\\\team\\\\red", "\\\\name\\\\foe\\\\team\\\\blue", "\\\\name\\\\mate\\\\team\\\\red"]));
    let d = cat(&[c, frame(1, &print(1, b"vic was telefragged by his teammate\\n")), frame(1, b""), frame(1, &frags_update(1, 3)), frame(1, b""), frame(1, &frags_update(2, 3))]);
    let f = frags_per_player_name(&d);
    assert_eq!(f.get("mate"), Some(&-1));
}
''')
bug('flag-suffix-middle', 'C08', 'a flag announcement in two prints where the second has the phrase but does not end with it',
    'a print is joined to the one before it when it contains a phrase, not only when it ends with one',
    [('src/flags.rs', '    .any(|n| quake_text::bytestr::to_unicode(print).ends_with(n))', '    .any(|n| quake_text::bytestr::to_unicode(print).contains(n))')],
'''fn main() {
    let got = b" \\xe7\\xef\\xf4 the \\xd2\\xc5\\xc4 flag!\\n";
    let mut second = b"bob".to_vec();
    second.extend_from_slice(got);
    second.extend_from_slice(b"again");
    let mut body = print(2, b"alice ");
    body.extend(print(2, &second));
    let f = flag_events_per_player_name(&frame(1, &body));
    assert!(f.contains_key("bob"), "{f:?}");
    assert_eq!(f.len(), 1);
}
''')
bug('ping-zero-sample', 'C09', 'a frame whose ping updates are all zero among the first eight',
    'frames that only report zero pings do not count as one of the eight samples',
    [('src/ping.rs', '                    did_ping_update = true;', '                    did_ping_update |= u.ping > 0;')],
'''fn main() {
    let mut d = vec![];
    for k in 0..9u16 {
        d.extend(frame(1, &ping_update(0, if k == 0 { 0 } else { 80 * k })));
    }
    let p = ping_per_player_number(&d).unwrap();
    assert_eq!(p.get(&0), Some(&(80 * 28 / 8)));
}
''')
bug('client-length-bound', 'C10', 'a client string of exactly 256 bytes',
    'the longest admissible client string is rejected and the list ends there',
    [('src/clientinfo.rs', 'if !(MIN_LEN..=MAX_LEN).contains(&(to - from)) {', 'if !(MIN_LEN..MAX_LEN).contains(&(to - from)) {')],
'''fn main() {
    let mut long = "\\\\name\\\\".to_string();
    while long.len() < 256 { long.push('x'); }
    let d = frame(0, &clients_body(&[&long, "\\\\name\\\\b"]));
    assert_eq!(clients(&d).unwrap().len(), 2);
}
''')
bug('spectator-value', 'C10', 'a client whose spectator key holds a value other than 0 and 1',
    'only the value 1 marks a spectator',
    [('src/client.rs', 'is_spectator: value.spectator.is_some_and(|v| v != 0),', 'is_spectator: value.spectator.is_some_and(|v| v == 1),')],
'''fn main() {
    let d = frame(0, &clients_body(&["\\\\name\\\\a\\\\*spectator\\\\2", "\\\\name\\\\b"]));
    let c = clients(&d).unwrap();
    assert!(c[0].is_spectator);
}
''')
bug('human-question', 'C11', 'a recording whose only human is a spectator',
    'spectators are asked too',
    [('src/clients.rs', '    Ok(player_clients(data)?.iter().any(|c| !c.is_bot))', '    Ok(clients(data)?.iter().any(|c| !c.is_bot))')],
'''fn main() {
    let d = frame(0, &clients_body(&["\\\\name\\\\bot\\\\*bot\\\\1", "\\\\name\\\\watcher\\\\*spectator\\\\1"]));
    assert!(!has_human_players(&d).unwrap());
}
''')
bug('player-name-order', 'C12', 'two players with equal scores whose names order differently with and without case',
    'players with the same score are ordered ignoring case',
    [('src/player.rs', '.then(b.name.cmp(&a.name))', '.then(b.name.to_lowercase().cmp(&a.name.to_lowercase()))')],
'''fn main() {
    let d = cat(&[frame(0, &clients_body(&["\\\\name\\\\a", "\\\\name\\\\B"])), frame(1, &ping_update(0, 10))]);
    let p = players(&d).unwrap();
    assert_eq!(p.iter().map(|p| p.name.as_str()).collect::<Vec<_>>(), ["B", "a"]);
}
''')
bug('stats-negative-colour', 'C12', 'a listed player with the login of whitespace only',
    'a login that consists of spaces is dropped',
    [('src/player.rs', 'match !player.login.is_empty() {', 'match !player.login.trim().is_empty() {')],
'''fn main() {
    let text = br#"{"version": 3, "date": "2024-01-01 00:00:00 +0000", "map": "dm3", "hostname": "h", "ip": "1.1.1.1", "port": 1, "mode": "1on1", "tl": 1, "dmm": 1, "tp": 0, "duration": 10, "demo": "x.mvd", "teams": [], "players": []}"#;
    let d = stats_blocks(text, &[text.len()]);
    let mut stats = ktxstats_v3(&d).unwrap();
    stats.players.push(Default::default());
    stats.players[0].login = " ".into();
    let p = players_from_ktxstats(&stats).unwrap();
    assert_eq!(p[0].auth_username.as_deref(), Some(" "));
}
''')
bug('team-name-case', 'C13', 'team names with letters outside ASCII that differ in case',
    'team names are ordered with ASCII case folding only',
    [('src/team.rs', 'teams.sort_by(|a, b| a.name.to_lowercase().cmp(&b.name.to_lowercase()));', 'teams.sort_by(|a, b| a.name.to_ascii_lowercase().cmp(&b.name.to_ascii_lowercase()));')],
'''fn main() {
    let t = teams_from_players(&[player("a", "\\u{c4}z", 1, 1, [0, 0]), player("b", "\\u{e4}a", 1, 1, [0, 0])]);
    assert_eq!(t.iter().map(|t| t.name.as_str()).collect::<Vec<_>>(), ["\\u{e4}a", "\\u{c4}z"]);
}
''')
bug('team-colour-three', 'C13', 'a team of exactly three players where the last two share a colour',
    'the vote is not held for three players',
    [('src/team.rs', '        1 | 2 => return Some(colors[0]),', '        1..=3 => return Some(colors[0]),')],
'''fn main() {
    let t = teams_from_players(&[player("a", "t", 1, 1, [1, 1]), player("b", "t", 1, 1, [2, 2]), player("c", "t", 1, 1, [2, 2])]);
    assert_eq!(t[0].color, [2, 2]);
}
''')
bug('duration-marker-frame', 'C14', 'an end marker that lies at the very start of a frame\'s bytes, so that the frame starts at the marker',
    'a frame that starts exactly at the marker is counted although it does not start before it',
    [('src/duration.rs', '        if index >= target_offset {', '        if index > target_offset {')],
'''fn main() {
    // the marker's first two bytes "Th" are a frame header: time 'T', an empty kind ('h' & 7 == 0)
    let mut d = frame(5, &print(2, b"x"));
    d.extend_from_slice(b"The match is over");
    assert_eq!(demo_duration(&d).unwrap().as_millis(), 5);
}
''')
bug('duration-first-standby', 'C14', 'a recording without an end-of-match marker and with two standby markers',
    'the first instead of the last standby marker ends the demo',
    [('src/duration.rs', 'data.rfind(NEEDLE_STANDBY).unwrap_or(data.len())', 'data.find(NEEDLE_STANDBY).unwrap_or(data.len())')],
'''fn main() {
    let s = b"\\x344status\\0Standby\\0";
    let d = cat(&[frame(5, b"a"), frame(7, s), frame(11, b"b"), frame(13, s), frame(17, b"c")]);
    assert_eq!(demo_duration(&d).unwrap().as_millis(), 36);
}
''')
bug('stats-block-order', 'C15', 'statistics split into blocks with an empty block in the middle',
    'a block without payload ends the statistics',
    [('src/ktxstats.rs', '        if info.number == 0 {', '        if info.number == 0 || info.body_size == 0 {')],
'''fn main() {
    let text = br#"{"version": 3, "rest": 1}"#;
    let d = stats_blocks(text, &[14, 0, text.len() - 14]);
    assert_eq!(ktxstats_string(&d).unwrap().as_bytes(), text);
}
''')
bug('settings-text', 'C16', 'a settings string whose closing quote is the last byte of the window',
    'the window in which the settings have to lie is one byte shorter',
    [('src/serverinfo.rs', '    const MAX_SIZE: usize = 1024;', '    const MAX_SIZE: usize = 1023;')],
'''fn main() {
    let mut d = vec![b'x'; 1280 - 16 - 3 - 1];
    d.extend_from_slice(b"fullserverinfo \\"a\\\\b\\"");
    assert_eq!(d.len(), 1280);
    d.extend_from_slice(&[0; 50]);
    assert_eq!(serverinfo_string(&d).unwrap(), "a\\\\b");
}
''')
bug('zone-offset-limit', 'C17', 'a numeric zone offset of exactly twelve hours',
    'the largest admissible numeric offset is rejected',
    [('src/timezone.rs', 'Ok(number) if (0..=1200).contains(&number)', 'Ok(number) if (0..1200).contains(&number)')],
'''fn main() {
    let d = frame(1, &print(2, b"matchdate: 2024-05-06 07:08:09 +12\\n"));
    assert_eq!(matchdate(&d).unwrap().to_rfc3339(), "2024-05-05T19:08:09+00:00");
}
''')
bug('paused-tail', 'C18', 'a pause text within the first bytes of the data',
    'the pause text is not looked for in the first frame header',
    [('src/paused.rs', 'data.rfind(IS_PAUSED_NEEDLE).is_some()', 'data.rfind(IS_PAUSED_NEEDLE).is_some_and(|pos| pos > 0)')],
'''fn main() {
    assert!(mvdparser::is_paused(b"Server is paused and more text"));
}
''')
bug('valid-size', 'C18', 'a recording of exactly 1024 bytes',
    'the smallest admissible size is rejected',
    [('src/validate.rs', '(data.len() >= MIN_SIZE)', '(data.len() > MIN_SIZE)')],
'''fn main() {
    let mut d = cat(&[frame(0, &serverinfo_body("\\\\a\\\\b")), frame(0, &clients_body(&["\\\\name\\\\a"]))]);
    let n = 1024 - d.len() - 6 - 14;
    d.extend(frame(0, &vec![1; n - 6 + 2]));
    d.extend(frame(0, b"\\x08\\x00\\x02EndOfDemo\\0"));
    let e = d.len();
    assert!(e >= 1020 && e <= 1028, "{e}");
    // trim the filler so that the data has exactly 1024 bytes
    let mut m = vec![1u8; 1024 - 12 - 200];
    let head = cat(&[frame(0, &serverinfo_body("\\\\a\\\\b")), frame(0, &clients_body(&["\\\\name\\\\a"]))]);
    m.resize(1024 - 12 - head.len(), 1);
    let d = cat(&[head, m, b"\\0\\x02EndOfDemo\\0".to_vec()]);
    assert_eq!(d.len(), 1024);
    assert!(is_valid(&d));
}
''')
bug('timestamp-epoch-zero', 'C19', 'an epoch of zero next to a match date',
    'an epoch of zero is treated as absent although it is a usable time',
    [('src/timestamp.rs', '        LocalResult::Single(ts) => Ok(ts),', '        LocalResult::Single(ts) if epoch != 0 => Ok(ts),')],
'''fn main() {
    let d = cat(&[frame(0, &serverinfo_body("\\\\epoch\\\\0")), frame(1, &print(2, b"matchdate: 2024-05-06 07:08:09 UTC\\n"))]);
    assert_eq!(timestamp(&d).unwrap().timestamp(), 0);
}
''')
bug('cache-by-length', 'C20', 'two different recordings of equal length asked about one after the other',
    'the client list of an earlier call is returned for other data of the same length',
    [('src/clients.rs', '''    let clients: Vec<Client> = clientinfo::clientinfo(data)?
        .iter()''', '''    thread_local! {
        static LAST: std::cell::RefCell<(usize, Vec<Client>)> = const { std::cell::RefCell::new((0, vec![])) };
    }
    let len = LAST.with(|l| l.borrow().0);
    if len == data.len() && data.len() < 1024 {
        return Ok(LAST.with(|l| l.borrow().1.clone()));
    }
    let clients: Vec<Client> = clientinfo::clientinfo(data)?
        .iter()'''),
     ('src/clients.rs', '''        .collect();
    Ok(clients)
}

pub fn has_bot_players''', '''        .collect();
    LAST.with(|l| *l.borrow_mut() = (data.len(), clients.clone()));
    Ok(clients)
}

pub fn has_bot_players''')],
'''fn main() {
    let a = frame(0, &clients_body(&["\\\\name\\\\aaa"]));
    let b = frame(0, &clients_body(&["\\\\name\\\\bbb"]));
    assert_eq!(clients(&a).unwrap()[0].name, "aaa");
    assert_eq!(clients(&b).unwrap()[0].name, "bbb");
}
''')
bug('frame-size-wrap', 'C01', 'a frame header whose declared payload length is close to the largest 32-bit value',
    'the size of a frame is computed in 32 bits, so a hostile length wraps around and the chain never advances or reads outside the data',
    [('src/qw/frame.rs', '        let size = header_size + body_size;', '        let size = (header_size as u32).wrapping_add(body_size as u32) as usize;')],
'''fn main() {
    // 6 + 0xFFFFFFFA wraps to zero
    let d = [1u8, 6, 0xFA, 0xFF, 0xFF, 0xFF, 8, 2, b'x', 0];
    let t = std::thread::spawn(move || prints(&d).len());
    for _ in 0..50 {
        std::thread::sleep(std::time::Duration::from_millis(100));
        if t.is_finished() { assert_eq!(t.join().unwrap(), 0); return; }
    }
    eprintln!("does not end");
    std::process::exit(1);
}
''')
# ------------------------------------------------------------------ second batch
bug('setup-frame-body', 'C02', 'a setup frame (kind 2), whose eight payload bytes open with a complete print',
    'setup frames count as frames without a payload, so what they hold is not read although the chain goes on correctly',
    [('src/qw/frame.rs', '            body_size,\n            body_range: index + header_size..index + size,', '            body_range: index + size - if body_size == 8 && data[index + 1] & 7 == 2 { 0 } else { body_size }..index + size,\n            body_size,')],
'''fn main() {
    let mut d = vec![1, 2, 8, 2, b'a', b'b', b'c', b'd', b'e', 0];
    d.extend(frame(1, &print(2, b"x")));
    assert_eq!(prints(&d).len(), 2);
}
''')
bug('string-limit', 'C03', 'a print of more than 2048 bytes',
    'strings are cut after 2048 bytes and the rest is read as further messages',
    [('src/qw/primitives.rs', '            if buf == [0] {\n                break;', '            if buf == [0] || result.len() == 2048 {\n                break;')],
'''fn main() {
    let d = frame(1, &print(2, &[b'y'; 2100]));
    assert_eq!(prints(&d)[0].content.len(), 2100);
}
''')
bug('print-run-empty', 'C04', 'an empty print of low severity between two other prints of the same frame',
    'an empty print ends the run of prints of its frame',
    [('src/prints.rs', '''                    if !print.content.is_empty() {
                        prints.push(print);
                    }''', '''                    if print.content.is_empty() && print.id == crate::qw::prot::PrintId::Low {
                        break;
                    }
                    if !print.content.is_empty() {
                        prints.push(print);
                    }''')],
'''fn main() {
    let d = frame(1, &cat(&[print(2, b"a"), print(0, b""), print(2, b"b")]));
    assert_eq!(prints(&d).len(), 2);
}
''')
bug('obituary-repeat', 'C05', 'two identical obituaries in directly consecutive frames, the second after no time at all',
    'an obituary that repeats the previous one without time passing is taken for a duplicate',
    [('src/frags.rs', '''                if !p.content.is_empty() && PrintId::Medium == p.id {
                    print_frames''', '''                let repeated = frame_info.duration == 0
                    && print_frames.last().is_some_and(|(last, _)| last.content == p.content);
                if !p.content.is_empty() && PrintId::Medium == p.id && !repeated {
                    print_frames''')],
'''fn main() {
    let d = cat(&[frame(1, &print(1, b"a died\\n")), frame(0, &print(1, b"a died\\n")), frame(1, &print(1, b"a died\\n"))]);
    assert_eq!(frags_per_player_name(&d).get("a"), Some(&-3));
}
''')
bug('name-double-space', 'C06', 'a player name with two spaces in a row',
    'runs of white space in an obituary are collapsed before names are taken from it',
    [('src/frags.rs', "        let content_u = quake_text::bytestr::to_unicode(&print.content);\n\n        match FragEvent", """        let text = quake_text::bytestr::to_unicode(&print.content);
        let words: Vec<&str> = text.split(' ').enumerate().filter(|(i, w)| *i == 0 || !w.is_empty()).map(|(_, w)| w).collect();
        let content_u = words.join(" ");

        match FragEvent""")],
'''fn main() {
    let d = frame(1, &print(1, b"a  b died\\n"));
    assert_eq!(frags_per_player_name(&d).get("a  b"), Some(&-1));
}
''')
bug('teamkill-victim-last', 'C07', 'two clients of the same name in different teams, one of them the victim of an unnamed team kill',
    'the victim is looked up from the end of the client list',
    [('src/frags.rs', 'let Some(victim_client) = clients.iter().find(|c| c.name == *victim_name) else {', 'let Some(victim_client) = clients.iter().rev().find(|c| c.name == *victim_name) else {')],
'''fn main() {
    let c = frame(0, &clients_body(&["\\\\name\\\\v\\\\team\\\\red", "\\\\name\\\\k\\\\team\\\\red", "\\\\name\\\\v\\\\team\\\\blue"]));
    let d = cat(&[c, frame(1, &cat(&[print(1, b"v was telefragged by his teammate\\n"), frags_update(1, 3)]))]);
    assert_eq!(frags_per_player_name(&d).get("k"), Some(&-1));
}
''')
bug('flag-late-mention', 'C08', 'a frame of more than 1024 bytes in which the first mention of a flag comes late',
    'only the first kilobyte of a frame is searched for a mention of a flag',
    [('src/flags.rs', '''        if frame_info.body_size == 0 || data[frame_info.clone().body_range].find(b"flag").is_none()
''', '''        if frame_info.body_size == 0
            || data[frame_info.body_range.start..frame_info.body_range.end.min(frame_info.body_range.start + 1024)].find(b"flag").is_none()
''')],
'''fn main() {
    let mut b = vec![1u8; 1500];
    b.extend(print(2, b"a defends the \\xD2\\xC5\\xC4 flag\\n"));
    let f = flag_events_per_player_name(&frame(1, &b));
    assert_eq!(f.len(), 1);
}
''')
bug('ping-running-average', 'C09', 'three or more samples whose intermediate averages are not whole numbers',
    'the average is updated sample by sample in whole numbers, so that rounding errors add up',
    [('src/ping.rs', '''    for (pnum, pings) in total_pings.iter() {
        let pings_sum: u64 = pings.iter().map(|p| u64::from(*p)).sum();
        let avg_ping = pings_sum / pings.len() as u64;
        average_ping.insert(*pnum, avg_ping as u32);''', '''    for (pnum, samples) in total_pings.iter() {
        let mut avg_ping: u64 = 0;
        for (i, p) in samples.iter().enumerate() {
            avg_ping = (avg_ping * i as u64 + u64::from(*p)) / (i as u64 + 1);
        }
        average_ping.insert(*pnum, avg_ping as u32);''')],
'''fn main() {
    let d = cat(&[frame(1, &ping_update(0, 1)), frame(1, &ping_update(0, 2)), frame(1, &ping_update(0, 3))]);
    assert_eq!(ping_per_player_number(&d).unwrap()[&0], 2);
}
''')
bug('client-repeat', 'C10', 'two directly consecutive client strings that are identical',
    'a client string that equals the one before it is skipped',
    [('src/clientinfo.rs', '        result.push(quake_text::bytestr::to_unicode(&data[from..to]));', '        let text = quake_text::bytestr::to_unicode(&data[from..to]);\n        if result.last() != Some(&text) {\n            result.push(text);\n        }')],
'''fn main() {
    let d = frame(0, &clients_body(&["\\\\name\\\\bot", "\\\\name\\\\bot", "\\\\name\\\\x"]));
    assert_eq!(clients(&d).unwrap().len(), 3);
}
''')
bug('client-limit-last', 'C10', 'client strings that reach beyond 24 times 512 bytes after the spawn marker',
    'the client string that crosses the limit is dropped',
    [('src/clientinfo.rs', '''        result.push(quake_text::bytestr::to_unicode(&data[from..to]));
        offset = to;

        if offset >= max_offset {
            break;
        }''', '''        offset = to;

        if offset >= max_offset {
            break;
        }
        result.push(quake_text::bytestr::to_unicode(&data[from..to]));''')],
'''fn main() {
    let long: Vec<String> = (0..60).map(|i| format!("\\\\name\\\\p{i}\\\\x\\\\{}", "y".repeat(230))).collect();
    let s: Vec<&str> = long.iter().map(|s| s.as_str()).collect();
    let d = frame(0, &clients_body(&s));
    // strings are taken until one ends at or after 24 * 512 bytes from the marker
    let at = d.windows(10).position(|w| w == b"\\x09cmd spawn").unwrap();
    let mut n = 0;
    let mut p = at;
    loop {
        let name = p + d[p..].windows(6).position(|w| w == b"\\\\name\\\\").unwrap();
        let end = name + d[name..].iter().position(|b| *b == 0).unwrap();
        n += 1;
        p = end;
        if p >= at + 24 * 512 { break; }
    }
    assert_eq!(clients(&d).unwrap().len(), n);
}
''')
bug('player-ping-position', 'C12', 'a spectator listed before a player in the client strings',
    "a player's ping is looked up by its position among the players and not by its client number",
    [('src/players.rs', '    for c in clients.iter().filter(|c| !c.is_spectator) {', '    for (pos, c) in clients.iter().filter(|c| !c.is_spectator).enumerate() {'),
     ('src/players.rs', '            ping: *pings.get(&c.number).unwrap_or(&0),', '            ping: *pings.get(&(pos as u8)).unwrap_or(&0),')],
'''fn main() {
    let c = frame(0, &clients_body(&["\\\\name\\\\s\\\\*spectator\\\\1", "\\\\name\\\\a"]));
    let d = cat(&[c, frame(1, &cat(&[ping_update(0, 7), ping_update(1, 33)]))]);
    assert_eq!(players(&d).unwrap()[0].ping, 33);
}
''')
bug('countdown-last-date', 'C14', 'a recording with two match date prints',
    'the countdown ends at the last match date print',
    [('src/duration.rs', '    let Some(offset) = data.find(matchdate::MATCHDATE_NEEDLE) else {', '    let Some(offset) = data.rfind(matchdate::MATCHDATE_NEEDLE) else {')],
'''fn main() {
    let m = print(2, b"matchdate: 2024-05-06 07:08:09 UTC\\n");
    let d = cat(&[frame(10, b"x"), frame(20, &m), frame(30, b"y"), frame(40, &m)]);
    assert_eq!(countdown_duration(&d).unwrap().as_millis(), 30);
}
''')
bug('stats-empty-block', 'C15', 'a statistics block without text between two blocks with text',
    'an empty statistics block ends the statistics',
    [('src/ktxstats.rs', '''        content.extend_from_slice(body);

        if info.number == 0 {''', '''        content.extend_from_slice(body);

        if info.number == 0 || body.is_empty() {''')],
'''fn main() {
    let t = b"{\\"version\\": 3, \\"x\\": 1}";
    let d = stats_blocks(t, &[14, 0, t.len() - 14]);
    assert_eq!(ktxstats_string(&d).unwrap().as_bytes(), t);
}
''')
bug('settings-boundary', 'C16', 'server settings whose closing quote is byte 1281 of the data',
    'the window searched for the settings is one byte too large',
    [('src/serverinfo.rs', 'const MAX_SIZE: usize = 1024;', 'const MAX_SIZE: usize = 1025;')],
'''fn main() {
    let mut d = b"fullserverinfo \\"".to_vec();
    d.resize(1280, b'x');
    d.push(b'"');
    d.extend([1, 2, 3]);
    assert!(serverinfo_string(&d).is_err());
}
''')
bug('zone-three-digits', 'C17', 'a numeric time zone of three digits, as in +530',
    'a three-digit zone is completed on the left',
    [('src/timezone.rs', '''    let offset = format!("{:0<4}", offset[1..].replace(':', ""));
''', '''    let digits = offset[1..].replace(':', "");
    let offset = match digits.len() {
        3 => format!("0{}", digits),
        _ => format!("{:0<4}", digits),
    };
''')],
'''fn main() {
    let d = frame(1, &print(2, b"matchdate: 2024-05-06 07:08:09 +053\\n"));
    // 053 means 0530
    assert_eq!(matchdate(&d).unwrap().to_rfc3339(), "2024-05-06T01:38:09+00:00");
}
''')
bug('end-marker-zeros', 'C18', 'zero bytes after the end-of-demo print',
    'zero bytes at the end of the data are ignored when the end-of-demo print is looked for',
    [('src/validate.rs', '    data.len() > NEEDLE_LEN && data[data.len() - NEEDLE_LEN..] == NEEDLE', '    let end = data.iter().rposition(|b| *b != 0).map_or(0, |p| (p + 2).min(data.len()));\n    end > NEEDLE_LEN && data[end - NEEDLE_LEN..end] == NEEDLE')],
'''fn main() {
    let mut d = b"xx\\0\\x02EndOfDemo\\0".to_vec();
    assert!(has_end_of_demo_print(&d));
    d.push(0);
    assert!(!has_end_of_demo_print(&d));
}
''')
bug('stats-without-players', 'C19', 'embedded statistics that decode but list no players, next to clients',
    'statistics without players are treated as if there were none',
    [('src/players.rs', '''    if let Ok(stats) = ktxstats_v3(data) {
        players_from_ktxstats(&stats)
    } else {
        players_from_parsing(data)
    }''', '''    match ktxstats_v3(data) {
        Ok(stats) if !stats.players.is_empty() => players_from_ktxstats(&stats),
        _ => players_from_parsing(data),
    }''')],
'''fn main() {
    let t = br#"{"version": 3, "date": "2024-04-22 10:49:23 +0000", "map": "dm4", "hostname": "h", "ip": "1.2.3.4", "port": 28501, "mode": "duel", "tl": 10, "fl": 0, "dmm": 4, "tp": 0, "duration": 1, "demo": "d.mvd", "teams": [], "players": []}"#;
    let d = cat(&[frame(0, &clients_body(&["\\\\name\\\\a"])), frame(1, &ping_update(0, 9)), stats_blocks(t, &[t.len()])]);
    if let Err(e) = ktxstats_v3(&d) { panic!("{e}"); }
    assert_eq!(players(&d).unwrap().len(), 0);
}
''')
bug('statistics-zero-duration', 'C19', 'embedded statistics with a duration of zero',
    'a duration of zero in the statistics is treated as missing',
    [('src/duration.rs', '    Ok(Duration::try_from_secs_f64(duration_f)?)', '    if duration_f == 0.0 {\n        return Err(e!("Duration not found in ktxstats"));\n    }\n    Ok(Duration::try_from_secs_f64(duration_f)?)')],
'''fn main() {
    let t = b"{\\"version\\": 3, \\"duration\\": 0, \\"x\\": 1}";
    let d = cat(&[frame(100, b"x"), stats_blocks(t, &[t.len()])]);
    assert_eq!(match_duration(&d).unwrap().as_millis(), 0);
}
''')
bug('colour-by-map-order', 'C20', 'a team of four or more in which two colours are worn equally often',
    'among equally frequent colours the one that comes last in the iteration order of a hash map wins',
    [('src/team.rs', '''    for color in colors.iter() {
        let count = color_count[color];
        if count > max_count {
            max_color = Some(*color);
            max_count = count;
        }
    }''', '''    for (color, count) in color_count {
        if count > max_count {
            max_color = Some(color);
            max_count = count;
        }
    }''')],
'''fn main() {
    let mk = |i: usize| player(&format!("p{i}"), "r", 0, 0, [(i % 2) as u8, 0]);
    let ps: Vec<Player> = (0..6).map(mk).collect();
    let first = Team::from(&ps[..]).color;
    for _ in 0..200 { assert_eq!(Team::from(&ps[..]).color, first); }
}
''')

# ---- from the third batch of quick bugs
bug('stats-block-text', 'C15', 'a character of the embedded statistics that is split between two blocks',
    'every block is decoded on its own, so a character across a block boundary makes the statistics undecodable',
    [('src/ktxstats.rs', 'let mut content = Vec::new();', 'let mut content = String::new();'),
     ('src/ktxstats.rs', 'content.extend_from_slice(body);', 'content.push_str(from_utf8(body)?);'),
     ('src/ktxstats.rs', 'Ok(from_utf8(&content)?.to_string())', 'Ok(content)')],
'''fn main() {
    let t = "{\\"version\\": 3, \\"x\\": \\"\\u{e9}\\"}".as_bytes();
    let k = t.iter().position(|b| *b > 127).unwrap() + 1;
    let s = ktxstats_string(&stats_blocks(t, &[k, t.len() - k])).unwrap();
    assert_eq!(s.as_bytes(), t);
}
''')
bug('stats-block-number-byte', 'C15', 'embedded statistics in more than 255 blocks',
    'only the low byte of the block number is looked at, so block 256 is taken for the last one',
    [('src/ktxstats.rs', 'if info.number == 0 {', 'if info.number as u8 == 0 {')],
'''fn main() {
    let mut t = b"{\\"version\\": 3}".to_vec();
    let mut sizes = vec![t.len()];
    for i in 0..300 { t.push(b'a' + (i % 26) as u8); sizes.push(1); }
    let s = ktxstats_string(&stats_blocks(&t, &sizes)).unwrap();
    assert_eq!(s.as_bytes(), &t[..]);
}
''')
bug('zone-case', 'C17', 'a zone abbreviation in other than upper case',
    'abbreviations are compared without regard to case, so words that are no zone are taken for one',
    [('src/timezone.rs', 'if abbr_ == &abbr {', 'if abbr_.eq_ignore_ascii_case(abbr) {')],
'''fn main() {
    assert!(matchdate(&frame(1, &print(2, b"matchdate: 2024-05-06 07:08:09 cest\\n"))).is_err());
    assert!(matchdate(&frame(1, &print(2, b"matchdate: 2024-05-06 07:08:09 CEST\\n"))).is_ok());
}
''')
bug('teamkill-order', 'C20', 'an unnamed team kill with score updates of two team mates close by',
    'the candidates are kept in a hash set, so which of two team mates is charged depends on its order',
    [('src/frags.rs', 'let mut frag_update_player_numbers: Vec<u8> = vec![];', 'let mut frag_update_player_numbers: std::collections::HashSet<u8> = Default::default();'),
     ('src/frags.rs', 'frag_update_player_numbers.push(u.player_number);', 'frag_update_player_numbers.insert(u.player_number);')],
'''fn main() {
    let c = frame(0, &clients_body(&["\\\\name\\\\v\\\\team\\\\red", "\\\\name\\\\k\\\\team\\\\red", "\\\\name\\\\l\\\\team\\\\red"]));
    let d = cat(&[c, frame(1, &cat(&[print(1, b"v was telefragged by his teammate\\n"), frags_update(2, 3)])), frame(1, &frags_update(1, 3))]);
    for _ in 0..100 { assert_eq!(frags_per_player_name(&d).get("l"), Some(&-1)); }
}
''')
bug('countdown-mode-case', 'C19', 'a recording whose server setting mode is hoonymode in other than lower case',
    'the countdown of such a recording is taken for zero',
    [('src/duration.rs', """pub fn countdown_duration(data: &[u8]) -> Result<Duration> {
    if serverinfo(data).is_ok_and(|s| s.mode == Some("hoonymode".to_string())) {""", """pub fn countdown_duration(data: &[u8]) -> Result<Duration> {
    if serverinfo(data).is_ok_and(|s| s.mode.is_some_and(|m| m.eq_ignore_ascii_case("hoonymode"))) {""")],
'''fn main() {
    let d = cat(&[frame(0, &serverinfo_body("\\\\mode\\\\HoonyMode")), frame(9, b"x"), frame(9, b"y"), frame(1, &print(2, b"matchdate: 2024-05-06 07:08:09 CEST\\n")), frame(50, b"z")]);
    assert_eq!(match_duration(&d).unwrap().as_millis(), 50);
}
''')
bug('print-dedup-frame', 'C04', 'two directly consecutive identical prints in different frames',
    'repeats are only merged within a frame',
    [('src/prints.rs', """    while let Ok(info) = frame::Info::from_data_and_index(data, index) {
        if info.body_size > 0 {""", """    while let Ok(info) = frame::Info::from_data_and_index(data, index) {
        let first = prints.len();
        if info.body_size > 0 {"""), ('src/prints.rs', """        index += info.size;
    }

    prints.dedup();
    prints""", """        let mut new = prints.split_off(first);
        new.dedup();
        prints.append(&mut new);
        index += info.size;
    }

    prints""")],
'''fn main() {
    let d = cat(&[frame(1, &print(2, b"same\\n")), frame(1, &print(2, b"same\\n"))]);
    assert_eq!(prints(&d).len(), 1);
}
''')
bug('teamkill-spectator', 'C07', 'a score update with the number of a spectator who is in the team of the victim',
    'spectators do not count as candidates for an unnamed team kill',
    [('src/frags.rs', '.filter_map(|player_number| clients.iter().find(|c| c.number == *player_number))', '.filter_map(|player_number| clients.iter().filter(|c| !c.is_spectator).find(|c| c.number == *player_number))')],
'''fn main() {
    let c = frame(0, &clients_body(&["\\\\name\\\\v\\\\team\\\\red", "\\\\name\\\\k\\\\team\\\\red\\\\*spectator\\\\1", "\\\\name\\\\l\\\\team\\\\red"]));
    let d = cat(&[c, frame(1, &cat(&[print(1, b"v was telefragged by his teammate\\n"), frags_update(1, 3)])), frame(1, &frags_update(2, 3))]);
    assert_eq!(frags_per_player_name(&d).get("k"), Some(&-1));
}
''')
bug('ping-number-mask', 'C09', 'a ping update for a player number above 127',
    'the highest bit of the player number is dropped',
    [('src/ping.rs', 'let pings = total_pings.entry(u.player_number).or_default();', 'let pings = total_pings.entry(u.player_number & 0x7f).or_default();')],
'''fn main() {
    let d = frame(1, &ping_update(200, 40));
    assert_eq!(ping_per_player_number(&d).unwrap().get(&200), Some(&40));
}
''')

bug('statistics-duration-single', 'C19', 'statistics whose duration needs more than 24 bits, such as 1200.1',
    'the duration in the statistics is read in single precision',
    [('src/duration.rs', 'let duration_f: f64 = ktxstats_s[from..to].parse()?;', 'let duration_f: f64 = f64::from(ktxstats_s[from..to].parse::<f32>()?);')],
'''fn main() {
    let t = b"{\\"version\\": 3, \\"duration\\": 1200.1, \\"x\\": 1}";
    let d = stats_blocks(t, &[t.len()]);
    assert_eq!(match_duration(&d).unwrap().as_micros(), 1200100000);
}
''')
bug('ping-sample-cap', 'C09', 'a ping sample above 9999',
    'a ping sample is capped before it is averaged',
    [('src/ping.rs', 'pings.push(u.ping);', 'pings.push(u.ping.min(9999));')],
'''fn main() {
    let d = cat(&[frame(1, &ping_update(0, 20000)), frame(1, &ping_update(0, 20002))]);
    assert_eq!(ping_per_player_number(&d).unwrap()[&0], 20001);
}
''')
bug('client-limit-exact', 'C10', 'client strings of which one ends exactly at the limit of the searched region',
    'the search goes on when the limit is reached exactly',
    [('src/clientinfo.rs', 'if offset >= max_offset {', 'if offset > max_offset {')],
'''fn main() {
    // the zero of the 24th string is exactly 24 times 512 bytes after the marker
    let mut d = b"\x09cmd spawn".to_vec();
    for k in 1..=25usize {
        let s = format!("\\\\name\\\\p{k}");
        d.resize(512 * k - s.len(), 0);
        d.extend(s.as_bytes());
    }
    d.extend([0, 0, 0]);
    assert_eq!(clientinfo_strings(&d).unwrap().len(), 24);
}
''')
bug('flag-repeat-phrase', 'C08', 'two prints in a row that both end with a flag phrase',
    'a print that ends with a flag phrase is not joined to one that does so too',
    [('src/flags.rs', '''                            if is_message_suffix(&p.content) {''','''                            if is_message_suffix(&p.content) && !is_message_suffix(&current_print) {''')],
'''fn main() {
    let phrase = b" \\xe7\\xef\\xf4 the \\xd2\\xc5\\xc4 flag!\\n";
    let d = frame(1, &cat(&[print(2, b"x"), print(2, phrase), print(2, &cat(&[b"y".to_vec(), phrase.to_vec()])), print(2, &cat(&[b"z".to_vec(), phrase.to_vec()]))]));
    let m = flag_events_per_player_name(&d);
    assert!(m.contains_key("x") && m.contains_key("y") && !m.contains_key("z"), "{m:?}");
}
''')
bug('stats-block-high', 'C15', 'a statistics block with a number above 32767',
    'block numbers are taken for signed ones',
    [('src/ktxstats.rs', '''        if info.number == 0 {
            break;
        }
''','''        if info.number == 0 || info.number > 0x7fff {
            break;
        }
''')],
'''fn main() {
    let t = b"{\\"version\\": 3, \\"x\\": 1}";
    let mut d = stats_blocks(t, &[14, t.len() - 14]);
    d[17] = 0x80;
    assert_eq!(ktxstats_string(&d).unwrap().as_bytes(), t);
}
''')
bug('zone-colons', 'C17', 'a numeric zone with two colons in it',
    'only the first colon of a numeric zone is ignored',
    [('src/timezone.rs', '''offset[1..].replace(':', "")''', '''offset[1..].replacen(':', "", 1)''')],
'''fn main() {
    // +02::00 is two hours
    let a = frame(1, &print(2, b"matchdate: 2024-05-06 07:08:09 +:02:\\n"));
    let b = frame(1, &print(2, b"matchdate: 2024-05-06 07:08:09 +0200\\n"));
    assert_eq!(timestamp(&a).unwrap(), timestamp(&b).unwrap());
}
''')
bug('client-text-first', 'C01', 'a client string that is not preceded by a zero byte anywhere in the searched region',
    'a recording whose client marker follows no zero byte panics',
    [('src/clientinfo.rs', '''        let Some(from) = data[..name_offset].rfind_byte(0).map(|o| o + 1) else {
            break;
        };''', '''        let from = data[..name_offset].rfind_byte(0).unwrap() + 1;''')],
'''fn main() {
    for n in 0..40 {
        let mut d: Vec<u8> = vec![b'q'; n];
        d.extend(b"\x09cmd spawn x\\\\name\\\\a\\\\team\\\\red\\0");
        let _ = clients(&d);
        let _ = is_valid(&d);
    }
}
''')
