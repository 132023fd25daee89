import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Every query ends normally on every byte string",
"For every byte string shorter than 2 GiB offered as a demo, every public query returns an ordinary result - a value, an empty collection or an error - and never aborts, overflows, reads outside the data or runs forever. The same holds when player and team summaries are built from any already decoded match statistics or any list of up to 65536 players.",
["inputs"],"all byte strings below 2 GiB (in particular truncated, corrupted and hostile ones) and all decoded statistics values",
"The tests open a handful of complete, well-formed recordings; a cut-off file, a lying length field or an extreme statistic is never offered, and absence of aborts is a claim about every input.",
["src/qw/frame.rs","src/qw/block.rs","src/ktxstats.rs","src/serverinfo.rs","src/clientinfo.rs","src/duration.rs","src/matchdate.rs","src/ping.rs","src/flags.rs","src/team.rs","src/frags.rs"],
[("frame extent check","src/qw/frame.rs from_data_and_index"),("block header decoding","src/qw/block.rs try_from"),("window slicing","src/clientinfo.rs clientinfo_strings, src/serverinfo.rs serverinfo_string"),("counters and sums","src/flags.rs, src/ping.rs, src/team.rs, src/duration.rs")],
["any public function of the crate"])

p("C02","A demo is read as back-to-back complete frames, ending at the first bad one",
"Everything that depends on recorded time order (prints, scores, pings, flag events, durations) is read from the chain of frames that starts at the first byte, where each frame begins exactly where the previous one ended and its length follows from its own header: 2 bytes, 4 more for a multi-recipient frame, then either a 4-byte payload length, or 8 fixed payload bytes for a setup frame, or no payload at all for the empty kinds. A frame whose declared extent does not fit in the remaining data ends the chain: nothing in it or after it contributes, while every complete frame before it contributes in full.",
["inputs"],"all byte strings, all frame kinds in any order, and every point at which a recording can be cut off",
"Test recordings are complete and contain only the frame mix one server produced; the chain rule quantifies over every frame sequence and every truncation point.",
["src/qw/frame.rs","src/qw/prot.rs","src/prints.rs","src/duration.rs","src/frags.rs","src/ping.rs","src/flags.rs"],
[("frame header decoding and extent check","src/qw/frame.rs from_data_and_index"),("header bits to recipient/kind","src/qw/prot.rs Target::from, Command::from"),("frame walks","src/prints.rs, src/frags.rs, src/flags.rs, src/ping.rs, src/duration.rs")],
["prints","frags_per_player_name","flag_events_per_player_name","ping_per_player_number","demo_duration"])

p("C03","Wire values are decoded exactly and never past the end of their payload",
"Inside a payload every number is decoded from its exact bytes in little-endian order, a text is exactly the bytes up to its first zero byte, and a print's severity byte maps 0, 1, 2, 3 to low, medium, high, chat and anything else to unknown. A value that the end of the payload cuts short is never reported, and values following it are read from the byte right after it.",
["inputs"],"all payload contents and lengths, all values of each byte",
"Unit tests decode a few fixed values; exactness for every byte value and every cut-off position is a statement about all inputs.",
["src/qw/primitives.rs","src/qw/prot.rs","src/qw/message/print.rs","src/qw/message/update_ping.rs","src/qw/message/update_frags.rs","src/qw/message/message_type.rs","src/qw/block.rs"],
[("byte, short, long and string readers","src/qw/primitives.rs"),("message readers","src/qw/message/*.rs"),("code tables","src/qw/prot.rs")],
["prints","ping_per_player_number","ktxstats_string"])

p("C04","The print log is complete, ordered and only merges consecutive repeats",
"The print log lists, in recording order and with unchanged severity and bytes, every non-empty print of the run of prints at the start of each non-empty frame, with a directly repeated identical entry (same severity and same bytes) listed once. It contains nothing else.",
["inputs"],"all recordings: any number of frames, prints per frame, severities, texts and repetitions",
"The only recordings at hand have one fixed print sequence and their expected log was taken from the program itself; completeness over all frame and print sequences is not sampled.",
["src/prints.rs","src/qw/message/print.rs","src/qw/message/message_type.rs","src/qw/frame.rs"],
[("print collection loop and de-duplication","src/prints.rs prints")],
["prints"])

p("C05","Each score is exactly the sum of the effects of its obituaries",
"The score reported for a name is the sum, over the frames whose payload begins with a non-empty medium-severity print, of that print's effect on the name (judged by its text without the line ends that follow it): +1 for a kill, -1 for a death by the world, by an own weapon or for killing a team mate, -2 for a plain suicide. A name is listed exactly when at least one such print affects it, and prints elsewhere or of other severities have no effect.",
["inputs"],"all recordings: any number and order of obituaries, players and unrelated frames",
"The existing expectation is the final table of one recording; the sum rule must hold for every sequence of obituaries, where compensating mistakes or order effects stay invisible in one sample.",
["src/frags.rs","src/qw/fragevent.rs","src/qw/message/print.rs","src/qw/frame.rs"],
[("obituary selection and accumulation","src/frags.rs frags_per_player_name")],
["frags_per_player_name","players"])

p("C06","Obituaries are classified and attributed by the phrase table",
"An obituary made of a player name followed by one of the QuakeWorld obituary phrases, and for two-player phrases by the other player's name (embedded where the phrase says so), is counted for exactly the event kind and the player that the phrase table assigns to it: killer-first phrases credit the first name, victim-first phrases the second. This holds for all names as long as the obituary contains no phrase of the table in any other place (other than one that is part of the phrase itself); a text that contains no phrase affects no score.",
["inputs"],"all obituary phrases times all player names",
"Tests try one fixed pair of short names per phrase; names with spaces, punctuation, quotes or non-ASCII letters, empty names and phrases sharing a prefix form an unbounded set.",
["src/qw/fragevent.rs","src/qw/fragprint.rs"],
[("classification order","src/qw/fragevent.rs try_from"),("wildcard phrases","src/qw/fragevent.rs pattern_match"),("phrase table","src/qw/fragprint.rs")],
["frags_per_player_name"])

p("C07","A team kill by an unnamed team mate is charged to the right player",
"When an obituary names only the victim of a team kill, one point is taken from the first player - trying the score update that directly follows the print in its frame and then the ones that open each of the next two non-empty frames, in that order - who is on the victim's team and does not have the victim's name. When there is no such update, victim or player, nobody is charged.",
["inputs"],"all client lists, victim names and sequences of frames and score updates around the obituary",
"No available recording contains such a team kill with several candidate updates; the rule ranges over all update orders, team layouts and frame gaps.",
["src/frags.rs","src/clients.rs","src/qw/message/update_frags.rs","src/qw/frame.rs"],
[("nearby score update search","src/frags.rs find_team_killer")],
["frags_per_player_name"])

p("C08","Flag statistics count every recognised flag event once, for its player",
"For every recording the captures, pick-ups, returns, assists, defends, carrier defends and carrier defends against an aggressor reported for a player equal the number of flag announcements of that kind with that player's name in front, however many there are. Announcements are the non-empty high-severity prints of frames that mention a flag, where a print ending in a capture, pick-up or return phrase is joined to an unjoined print directly before it in the same frame; nothing else counts for anybody.",
["inputs"],"all recordings: any number of announcements, any grouping into prints and frames, any player names",
"The capture-the-flag recording used by the unit test is not shipped here, and totals for one match cannot show correct joining and counting for all print sequences and counts.",
["src/flags.rs","src/qw/flagevent.rs","src/qw/flagprint.rs"],
[("print joining and counting","src/flags.rs flag_events_per_player_name, is_message_suffix"),("announcement classification","src/qw/flagevent.rs try_from")],
["flag_events_per_player_name"])

p("C09","Reported pings are the averages of the first eight ping samples",
"The ping reported for a player number is the average, rounded down, of all ping values for that number in the ping updates that open a frame, taken over the first eight frames that contain such updates. Player numbers without a value are absent, later frames never influence the result, and a recording without ping updates yields an error.",
["inputs"],"all recordings: any number of frames, updates per frame, player numbers and 16-bit ping values",
"One recording's averages are compared; large pings, many samples, interrupted update runs and the eighth-sample cut-off are not sampled.",
["src/ping.rs","src/qw/message/update_ping.rs"],
[("sampling loop and averaging","src/ping.rs ping_per_player_number")],
["ping_per_player_number","players"])

p("C10","The client list is exactly the client strings after the spawn marker, numbered",
"For recordings describing at most 256 clients, the client list consists of the consecutive client description strings that follow the spawn command, in recording order and with nothing skipped, duplicated or invented, ending at the first place where no further description begins within 512 bytes, the surrounding zero-delimited string is not 7 to 256 bytes long, or 24 times 512 bytes have been passed. Each entry carries its position as client number and the name, team, colours, spectator and bot state and login given by its own string.",
["inputs"],"all recordings, any number, length and content of client strings (up to 256 clients)",
"Tests read the client lists of a few normal matches; boundary distances, boundary lengths and long lists are never met.",
["src/clientinfo.rs","src/clients.rs","src/client.rs"],
[("string scan","src/clientinfo.rs clientinfo_strings"),("numbering and field mapping","src/clients.rs clients, src/client.rs From")],
["clientinfo_strings","clientinfo","clients"])

p("C11","Players and spectators partition the clients; name lists are faithful",
"Every client appears in exactly one of the player list and the spectator list, in client order and unchanged. The player and spectator name lists are the sorted names of exactly those lists with repeats kept, the team list is the sorted list of distinct teams of the players only, and the bot and human questions are answered from the players only (plus, for bots, the presence of bot statistics in the file).",
["inputs"],"all client lists: any mix of players, spectators, bots, repeated names and teams",
"The recordings at hand give a few fixed line-ups; repeated names, empty teams, spectating bots and interleaved spectators are not covered.",
["src/clients.rs"],
[("filters, sorting and de-duplication","src/clients.rs")],
["player_clients","spectator_clients","player_names","spectator_names","team_names","has_bot_players","has_human_players"])

p("C12","The player list has one correct entry per player, best score first",
"Without embedded match statistics the player list of a recording describing at most 256 clients has exactly one entry per non-spectating client carrying that client's name, team, colours, login and bot state, the score counted for its name (0 if none) and the ping measured for its number (0 if none); with statistics it has exactly one entry per listed player with the listed values. In both cases entries are ordered by score from high to low and by name among equal scores.",
["inputs"],"all combinations of client lists, scores and pings, and all statistics documents",
"A few recordings are compared; ties, negative scores, missing pings, same-named players and statistics extremes are not sampled.",
["src/players.rs","src/player.rs"],
[("assembly","src/players.rs"),("field mapping and ordering","src/player.rs")],
["players","players_from_parsing","players_from_ktxstats"])

p("C13","Teams partition the players and carry exact totals",
"Every player belongs to exactly one reported team, the one with its team name, keeping list order inside the team; a team's score is the exact sum of its players' scores (limited to the 32-bit range), its ping is their average rounded to the nearest integer with halves up, and its colour is that of its first player for up to two players and otherwise one worn by most of them, the earliest worn on ties. Teams are ordered by name ignoring case.",
["inputs"],"all player lists: any number of players and teams, any scores, pings and colours",
"Unit tests use two small hand-written teams; large sums, many equal colours, ties and names differing only in case are not covered.",
["src/team.rs","src/teams.rs"],
[("aggregation","src/team.rs From"),("grouping and ordering","src/team.rs teams_from_players"),("colour vote","src/team.rs majority_color")],
["teams","teams_from_players","Team::from"])

p("C14","Durations are exact sums of frame times up to the right marker",
"The demo duration is the exact millisecond sum of the times of all frames that start before the last end-of-match marker (else the last standby marker, else the end of the data), and the countdown is the same sum up to the first match date print. The match duration measured from the recording is their difference, with a missing countdown counting as zero and never below zero.",
["inputs"],"all recordings: any frame times and counts, any position, absence or repetition of markers",
"The expected values come from a few recordings and are compared at their totals only; marker placement relative to frame boundaries and long recordings are not sampled.",
["src/duration.rs","src/qw/frame.rs"],
[("summation","src/duration.rs duration_until_offset"),("marker search","src/duration.rs demo_duration, countdown_duration")],
["demo_duration","countdown_duration","match_duration_from_seeking","match_duration"])

p("C15","Embedded match statistics are reassembled block by block without loss",
"The embedded statistics text is the exact concatenation, in order, of the payloads of the consecutive statistics blocks starting with the block that holds the last statistics opening in the file, ending with the block numbered zero or before the first block that is not a statistics block. A block that is damaged or runs past the end of the data never contributes invented or partial bytes.",
["inputs"],"all block counts, block sizes, contents, and truncation points",
"The recordings at hand have fixed block layouts; split points inside the text, single blocks, foreign blocks and cut-off blocks are not sampled.",
["src/ktxstats.rs","src/qw/block.rs"],
[("block loop","src/ktxstats.rs ktxstats_string"),("block header","src/qw/block.rs try_from")],
["ktxstats_string","ktxstats_v3"])

p("C16","The server settings come from the first complete settings string",
"The server settings text is exactly the bytes between the first settings opening and the next double quote, decoded as text, when both lie within the first 1280 bytes of the data and at least one byte lies between them; otherwise there is an error. The recorded file name is the one named in those settings and is an error when they name none.",
["inputs"],"all byte strings, every position and length of the settings string, data shorter than 1280 bytes included",
"Test recordings have the settings at one usual place; windows, boundaries, short files and repeated markers are not sampled.",
["src/serverinfo.rs","src/bytesextra.rs","src/filename.rs"],
[("delimited search","src/bytesextra.rs offsets_between"),("window","src/serverinfo.rs serverinfo_string"),("file name","src/filename.rs filename")],
["serverinfo_string","serverinfo","filename"])

p("C17","Match dates convert to the exact instant in the named time zone",
"The match date is read from the first match date print up to its line end when 22 to 25 bytes long, and equals the instant of that local date and time in the zone named by the known abbreviation or by a numeric offset (plus or minus, digits padded on the right with zeros to four, value up to 1200). Any other length, zone text or malformed date is an error.",
["inputs"],"all date texts, zone abbreviations and numeric offsets",
"Tests convert a few sample dates; the zone texts, boundary lengths, multi-byte characters and malformed dates form an unbounded set.",
["src/matchdate.rs","src/timezone.rs"],
[("extraction and length rule","src/matchdate.rs matchdate_string"),("zone replacement","src/matchdate.rs replace_tz_abbr_with_offset"),("zone lookup","src/timezone.rs utc_offset")],
["matchdate","matchdate_string","timestamp"])

p("C18","Valid, aborted and paused verdicts follow exactly from the bytes",
"A recording is valid exactly when it has at least 1024 bytes, ends with the end-of-demo print, has server settings and has at least one client. It is aborted exactly when it contains the match-stopped-by-vote print, and paused exactly when it does not end with the end-of-demo print and contains one of the two pause texts anywhere.",
["inputs"],"all byte strings, marker positions and sizes around the limits",
"Tests check a few whole recordings; each condition separately failing, the size limit and marker positions at either end are not sampled.",
["src/validate.rs","src/aborted.rs","src/paused.rs"],
[("validity conjunction","src/validate.rs"),("abort print","src/aborted.rs"),("pause texts","src/paused.rs")],
["is_valid","is_aborted","is_paused"])

p("C19","The preferred information source is used whenever it is usable",
"Players and teams come from the embedded match statistics whenever these decode and from the recording otherwise, and the timestamp comes from the server's epoch whenever it is a usable time and from the match date otherwise. The match duration comes from the statistics unless they give none that can be represented or the mode is hoonymode, then from the frame times, with no countdown in hoonymode; the server details are exactly those of the statistics and an error without them.",
["inputs"],"all combinations of present, absent and unusable sources",
"Available recordings hold only a few combinations of sources; conflicting and partly unusable sources are not sampled.",
["src/players.rs","src/teams.rs","src/timestamp.rs","src/duration.rs","src/server.rs"],
[("fallback order","src/players.rs players, src/timestamp.rs timestamp, src/duration.rs match_duration, countdown_duration"),("server details","src/server.rs From")],
["players","teams","timestamp","match_duration","countdown_duration","server"])

p("C20","Results depend on nothing but the data",
"Asking the same question about the same data always gives the same answer, including the order of every returned list: no result depends on the run, on earlier calls or on the internal order of unordered collections. In particular team colours, team order and player order are decided by the data even among ties.",
["inputs","histories"],"all data and all repetitions of a call, in one process or several",
"A test run sees one internal ordering per call and mostly data without ties; independence of an arbitrary internal order is a statement about all of them.",
["src/team.rs","src/players.rs","src/ping.rs","src/frags.rs","src/flags.rs"],
[("colour vote","src/team.rs majority_color"),("team grouping","src/team.rs teams_from_players"),("player assembly","src/players.rs players_from_parsing"),("averaging over a map","src/ping.rs")],
["players_from_parsing","teams_from_players","Team::from","ping_per_player_number"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
import re
for x in P:
    n=len(re.findall(r'\.(\s|$)',x['statement']))
    print(x['id'],n,len(x['title']))
