From f10bcc03be58c1ceb90aff21fb9bd01fabfca2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 01/21] fix: reject a frame that runs past the end of the data

The extent of a frame was compared with the length of the whole data
instead of the data left at the frame's position, so a demo cut off inside
a frame made every frame walk slice out of bounds.
---
 src/qw/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qw/frame.rs b/src/qw/frame.rs
index 8dab71e..5e5d8e0 100644
--- a/src/qw/frame.rs
+++ b/src/qw/frame.rs
@@ -48,7 +48,7 @@ impl Info {
         let header_size = cur.position() as usize;
         let size = header_size + body_size;
 
-        if data.len() < size {
+        if data.len() < index + size {
             return Err(e!("Frame is smaller than expected size"));
         }
 
-- 
2.43.0


From e9495fb1e3ad04a237a011fd1fe3d890aca610d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 02/21] fix: reject a hidden block too small to hold its block
 number

A block size of 0 or 1 underflowed.
---
 src/qw/block.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qw/block.rs b/src/qw/block.rs
index db73330..63a7145 100644
--- a/src/qw/block.rs
+++ b/src/qw/block.rs
@@ -1,5 +1,7 @@
 use std::io::Cursor;
 
+use anyhow::anyhow as e;
+
 use crate::qw::primitives::{numsize, ReadPrimitives};
 use crate::qw::prot::HiddenMessage;
 
@@ -19,7 +21,9 @@ impl TryFrom<&[u8]> for Info {
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
         let mut cur = Cursor::new(value);
         // exclude block number bytes from size
-        let body_size = cur.read_u32()? as usize - numsize::SHORT;
+        let Some(body_size) = (cur.read_u32()? as usize).checked_sub(numsize::SHORT) else {
+            return Err(e!("Block is smaller than its block number"));
+        };
 
         Ok(Info {
             body_size,
-- 
2.43.0


From 545fb2abd87e5a23ebfea0d4de77afcc1856dbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 03/21] fix: report missing ktxstats when no block header fits
 before them

An opening of the statistics within the first 18 bytes of the data
underflowed.
---
 src/ktxstats.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ktxstats.rs b/src/ktxstats.rs
index 50f839c..36b8784 100644
--- a/src/ktxstats.rs
+++ b/src/ktxstats.rs
@@ -15,10 +15,12 @@ pub fn ktxstats_v3(data: &[u8]) -> Result<KtxstatsV3> {
 pub fn ktxstats_string(data: &[u8]) -> Result<String> {
     const TOTAL_HEADER_SIZE: usize = frame::MULTI_HEADER_SIZE + block::HEADER_SIZE;
 
-    let Some(mut offset) = data.rfind(br#"{"version": "#) else {
+    let Some(mut offset) = data
+        .rfind(br#"{"version": "#)
+        .and_then(|o| o.checked_sub(TOTAL_HEADER_SIZE))
+    else {
         return Err(e!("ktxstats not found"));
     };
-    offset -= TOTAL_HEADER_SIZE;
     let mut content = Vec::new();
 
     // read blocks
-- 
2.43.0


From 7d874a54d13240da0f7774becaed366504bd50b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 04/21] fix: stop at a ktxstats block that runs past the end of
 the data

A cut-off block header or body was sliced out of bounds.
---
 src/ktxstats.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ktxstats.rs b/src/ktxstats.rs
index 36b8784..7e1783a 100644
--- a/src/ktxstats.rs
+++ b/src/ktxstats.rs
@@ -24,13 +24,19 @@ pub fn ktxstats_string(data: &[u8]) -> Result<String> {
     let mut content = Vec::new();
 
     // read blocks
-    while let Ok(info) = block::Info::try_from(&data[offset + frame::MULTI_HEADER_SIZE..]) {
+    while let Ok(info) = block::Info::try_from(
+        data.get(offset + frame::MULTI_HEADER_SIZE..)
+            .unwrap_or_default(),
+    ) {
         if info.hidden_message != HiddenMessage::Demoinfo {
             break;
         }
 
         offset += TOTAL_HEADER_SIZE;
-        content.extend_from_slice(&data[offset..offset + info.body_size]);
+        let Some(body) = data.get(offset..offset + info.body_size) else {
+            break;
+        };
+        content.extend_from_slice(body);
 
         if info.number == 0 {
             break;
-- 
2.43.0


From 25304ea519c288a2137ad630f7de7a8647cfeac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 05/21] fix: accept data shorter than the serverinfo window

Data of less than 1280 bytes was sliced out of bounds.
---
 src/serverinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serverinfo.rs b/src/serverinfo.rs
index 2e29027..8fe3655 100644
--- a/src/serverinfo.rs
+++ b/src/serverinfo.rs
@@ -11,7 +11,7 @@ pub fn serverinfo_string(data: &[u8]) -> Result<String> {
     const MAX_OFFSET: usize = 256;
     const MAX_SIZE: usize = 1024;
     let Some((from, to)) = bytesextra::offsets_between(
-        &data[..MAX_OFFSET + MAX_SIZE],
+        &data[..data.len().min(MAX_OFFSET + MAX_SIZE)],
         br#"fullserverinfo ""#,
         &[b'"'],
     ) else {
-- 
2.43.0


From 1b016c81d9879e6cd30cbdac8b0281c8f701122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 06/21] fix: keep the clientinfo lookahead inside the data

Client strings within the last 512 bytes were sliced out of bounds.
---
 src/clientinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index cfd775e..a204d25 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -24,7 +24,7 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
 
     let mut result: Vec<String> = vec![];
 
-    while let Some(name_offset) = data[offset..offset + MAX_LOOKAHEAD]
+    while let Some(name_offset) = data[offset..data.len().min(offset + MAX_LOOKAHEAD)]
         .find(br#"\name\"#)
         .map(|o| offset + o)
     {
-- 
2.43.0


From 9ad117c3ae457cdcd3159cc19f9b30f9376e117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 07/21] fix: sum frame times exactly

The sum of milliseconds could overflow and was rounded through f32, so
100 ms came out as 100.000001 ms.
---
 src/duration.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 9e876ac..98bede1 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -59,18 +59,18 @@ pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
 
 fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
     let mut index = 0;
-    let mut total_ms: u32 = 0;
+    let mut total_ms: u64 = 0;
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
         if index >= target_offset {
             break;
         }
 
-        total_ms += frame_info.duration;
+        total_ms += u64::from(frame_info.duration);
         index += frame_info.size;
     }
 
-    Duration::from_secs_f32(total_ms as f32 / 1000.0)
+    Duration::from_millis(total_ms)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0d14a05bf5e9929f31e1dcad854af5fcbbccd7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 08/21] fix: do not subtract a countdown longer than the demo
 duration

A match over marker before the match date print underflowed.
---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 98bede1..7fd0e92 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -43,7 +43,7 @@ pub fn match_duration(data: &[u8]) -> Result<Duration> {
 pub fn match_duration_from_seeking(data: &[u8]) -> Result<Duration> {
     let end = demo_duration(data)?;
     let begin = countdown_duration(data).unwrap_or(Duration::ZERO);
-    Ok(end - begin)
+    Ok(end.saturating_sub(begin))
 }
 
 pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
-- 
2.43.0


From 84819a6cebc561533e3fecd2bb9bb8caf98d1e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 09/21] fix: return an error for an unrepresentable ktxstats
 duration

A negative, huge or non-numeric duration aborted the program.
---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 7fd0e92..dfaf37c 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -54,7 +54,7 @@ pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
         return Err(e!("Duration not found in ktxstats"));
     };
     let duration_f: f64 = ktxstats_s[from..to].parse()?;
-    Ok(Duration::from_secs_f64(duration_f))
+    Ok(Duration::try_from_secs_f64(duration_f)?)
 }
 
 fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
-- 
2.43.0


From 1954ff1d39071f9988821883524587c991d3f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 10/21] fix: return an error for a matchdate with multi-byte
 characters

Cutting the text inside a character aborted the program.
---
 src/matchdate.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/matchdate.rs b/src/matchdate.rs
index 7cd32dd..b263f9e 100644
--- a/src/matchdate.rs
+++ b/src/matchdate.rs
@@ -18,11 +18,15 @@ pub fn matchdate(data: &[u8]) -> Result<DateTime<Utc>> {
 }
 
 fn replace_tz_abbr_with_offset(timestamp: &str) -> Result<String> {
-    let tz_abbr = &timestamp[DATETIME_LEN + 1..];
+    let (Some(datetime), Some(tz_abbr)) =
+        (timestamp.get(..DATETIME_LEN), timestamp.get(DATETIME_LEN + 1..))
+    else {
+        return Err(e!("Invalid timestamp"));
+    };
     let Some(tz_offset) = timezone::utc_offset(tz_abbr) else {
         return Err(e!("Invalid timezone abbreviation"));
     };
-    Ok(format!("{}{}", &timestamp[..DATETIME_LEN], tz_offset))
+    Ok(format!("{}{}", datetime, tz_offset))
 }
 
 pub fn matchdate_string(data: &[u8]) -> Result<String> {
-- 
2.43.0


From f05b73754bba676976911c362f0389be3eadd2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 11/21] fix: average pings without overflow

The 16-bit sum of up to eight samples overflowed.
---
 src/ping.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ping.rs b/src/ping.rs
index 2d0fc13..649c888 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -51,9 +51,9 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
     let mut average_ping: HashMap<u8, u32> = HashMap::new();
 
     for (pnum, pings) in total_pings.iter() {
-        let pings_sum = pings.iter().sum::<u16>();
-        let avg_ping = (pings_sum as f32 / pings.len() as f32) as u32;
-        average_ping.insert(*pnum, avg_ping);
+        let pings_sum: u64 = pings.iter().map(|p| u64::from(*p)).sum();
+        let avg_ping = pings_sum / pings.len() as u64;
+        average_ping.insert(*pnum, avg_ping as u32);
     }
 
     Ok(average_ping)
-- 
2.43.0


From 0bbe171456e8ebe535417561cf71b633bbf5aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 12/21] fix: count more than 255 flag events per player

The 8-bit counters overflowed.
---
 src/flags.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index 9caeeb8..bce6c8a 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -12,13 +12,13 @@ use crate::qw::prot::{MessageType, PrintId};
 
 #[derive(Debug, Default, PartialEq, Eq)]
 pub struct PlayerFlagEvents {
-    captures: u8,
-    pickups: u8,
-    returns: u8,
-    carrier_frags: u8,
-    defends: u8,
-    carrier_defends: u8,
-    carrier_defends_vs_aggressive: u8,
+    captures: u32,
+    pickups: u32,
+    returns: u32,
+    carrier_frags: u32,
+    defends: u32,
+    carrier_defends: u32,
+    carrier_defends_vs_aggressive: u32,
 }
 
 pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEvents> {
-- 
2.43.0


From a336ad6115a7bfbdd69e5d6fdb1ced7f4fc94ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 13/21] fix: keep a flag print that follows a complete one in
 the same frame

A print that is no suffix of the print before it was dropped, so the
second of two flag events in one frame was not counted, or was counted
for an unnamed player when its name came in a print of its own.
---
 src/flags.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index bce6c8a..d36b719 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -43,12 +43,16 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
                         if current_print.is_empty() {
                             current_print.extend_from_slice(&p.content);
                         } else {
+                            let mut next_print: Vec<u8> = vec![];
+
                             if is_message_suffix(&p.content) {
                                 current_print.extend_from_slice(&p.content);
+                            } else {
+                                next_print = p.content;
                             }
 
-                            prints.push(current_print.clone());
-                            current_print = vec![];
+                            prints.push(current_print);
+                            current_print = next_print;
                         }
                     }
                 }
-- 
2.43.0


From 3bf3c0a7f980320827f5418134c1b062478b1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 14/21] fix: sum team frags and pings without overflow

Scores and pings taken from ktxstats are arbitrary 32-bit values, whose
sums overflowed; the average ping was rounded through f32.
---
 src/team.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/team.rs b/src/team.rs
index dbb4d18..3eeda42 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -25,13 +25,18 @@ impl From<&[Player]> for Team {
             color: [0, 0],
         };
 
+        let mut total_frags: i64 = 0;
+        let mut total_ping: u64 = 0;
+
         for player in players.iter() {
             team.players.push(player.clone());
-            team.frags += player.frags;
-            team.ping += player.ping;
+            total_frags += i64::from(player.frags);
+            total_ping += u64::from(player.ping);
         }
 
-        team.ping = (team.ping as f32 / team.players.len() as f32).round() as u32;
+        let player_count = team.players.len() as u64;
+        team.frags = total_frags.clamp(i64::from(i32::MIN), i64::from(i32::MAX)) as i32;
+        team.ping = ((total_ping + player_count / 2) / player_count) as u32;
         let player_colors: Vec<[u8; 2]> = team.players.iter().map(|p| p.color).collect();
         team.color = majority_color(&player_colors).unwrap_or(players[0].color);
 
-- 
2.43.0


From 204dad1ce3c7e837081f7eacea92403173d4ce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 15/21] fix: count more than 255 players of one color in a team

The 8-bit counter overflowed.
---
 src/team.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/team.rs b/src/team.rs
index 3eeda42..d5c4f65 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -69,7 +69,7 @@ fn majority_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
         _ => {}
     };
 
-    let mut color_count: HashMap<[u8; 2], u8> = HashMap::new();
+    let mut color_count: HashMap<[u8; 2], usize> = HashMap::new();
     for color in colors.iter() {
         let count = color_count.entry(*color).or_insert(0);
         *count += 1;
-- 
2.43.0


From 18c35227e1184d81a0af754c0be45ae32845dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 16/21] fix: pick the earliest of equally common team colors

The color depended on the random iteration order of a hash map.
---
 src/team.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/team.rs b/src/team.rs
index d5c4f65..4627ea9 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -77,10 +77,11 @@ fn majority_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
 
     let mut max_color = None;
     let mut max_count = 0;
-    for (color, count) in color_count.iter() {
-        if *count > max_count {
+    for color in colors.iter() {
+        let count = color_count[color];
+        if count > max_count {
             max_color = Some(*color);
-            max_count = *count;
+            max_count = count;
         }
     }
 
-- 
2.43.0


From cc286f5d4a41534c23ae93272f93bb8867440fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 17/21] fix: order teams whose names differ only in case
 deterministically

Their order depended on the random iteration order of a hash map.
---
 src/team.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/team.rs b/src/team.rs
index 4627ea9..5af9ac8 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use crate::player::Player;
 
@@ -45,7 +45,7 @@ impl From<&[Player]> for Team {
 }
 
 pub fn teams_from_players(players: &[Player]) -> Vec<Team> {
-    let mut tmap: HashMap<String, Vec<Player>> = HashMap::new();
+    let mut tmap: BTreeMap<String, Vec<Player>> = BTreeMap::new();
     for player in players.iter() {
         let teamplayers = tmap.entry(player.team.clone()).or_default();
         teamplayers.push(player.clone());
-- 
2.43.0


From 51ccb70bf575468d3f8b0966c9b07c5799920bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 18/21] fix: order players with equal score and name
 deterministically

Their order depended on the random iteration order of a hash map.
---
 src/players.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/players.rs b/src/players.rs
index 0214868..c48d0b9 100644
--- a/src/players.rs
+++ b/src/players.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use anyhow::Result;
 use ktxstats::v3::KtxstatsV3;
@@ -28,7 +28,7 @@ pub fn players_from_parsing(data: &[u8]) -> Result<Vec<Player>> {
     let clients = clients(data)?;
     let pings = ping_per_player_number(data)?;
     let frags = frags_per_player_name(data);
-    let mut pmap: HashMap<u8, Player> = HashMap::new();
+    let mut pmap: BTreeMap<u8, Player> = BTreeMap::new();
 
     for c in clients.iter().filter(|c| !c.is_spectator) {
         let player = Player {
-- 
2.43.0


From 8980f87cb548dfb1f221c8186792789a518af4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 19/21] fix: list every team name once

Sorting ignores case and coloring, so equal names could be separated by
names that only differ in these and the removal of adjacent repeats missed
them.
---
 src/clients.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/clients.rs b/src/clients.rs
index 48710fd..717a6c2 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -65,14 +65,15 @@ pub fn spectator_names(data: &[u8]) -> Result<Vec<String>> {
 }
 
 pub fn team_names(data: &[u8]) -> Result<Vec<String>> {
-    let mut names: Vec<String> = player_clients(data)?
-        .iter()
-        .map(|c| c.team.clone())
-        .collect();
+    let mut names: Vec<String> = vec![];
+
+    for client in player_clients(data)? {
+        if !names.contains(&client.team) {
+            names.push(client.team);
+        }
+    }
 
-    names = unicode::sort(&names);
-    names.dedup();
-    Ok(names)
+    Ok(unicode::sort(&names))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6faf30f25b2a4a8f9db707ba8e72a3843e230921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:32 +0000
Subject: [PATCH 20/21] fix: keep every character of a killer's name in the
 frag count

The end of an obituary's text was trimmed of all Unicode whitespace, which
includes the code points that two of the coloured glyphs of a player's name
are decoded to (U+0085 and U+00A0) and spaces, so that a kill by a player whose
name ends with one of these was credited to another name.
Only the line break that ends the obituary is removed now.
---
 src/frags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frags.rs b/src/frags.rs
index dcd8d0a..4814fb8 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -43,7 +43,7 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     for (print, frame_info) in print_frames {
         let content_u = quake_text::bytestr::to_unicode(&print.content);
 
-        match FragEvent::try_from(content_u.trim_end()) {
+        match FragEvent::try_from(content_u.trim_end_matches('\n')) {
             Ok(event) => match event {
                 FragEvent::Frag { killer, .. } => {
                     let killer = frags.entry(killer).or_insert(0);
-- 
2.43.0


From 3b206b9bd733d21f1f4d06af0a825b6a7bdad0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:10 +0000
Subject: [PATCH 21/21] fix: keep a killer's name whole when it contains the
 end of the obituary phrase

---
 src/qw/fragevent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qw/fragevent.rs b/src/qw/fragevent.rs
index 0ce857a..0ca2f89 100644
--- a/src/qw/fragevent.rs
+++ b/src/qw/fragevent.rs
@@ -60,7 +60,7 @@ fn pattern_match(value: &str, pattern: &str) -> Option<(String, String)> {
         true => {
             let (prefix, suffix) = pattern.split_once(WILDCARD)?;
             let (x, rest) = value.split_once(prefix)?;
-            let (y, _) = rest.split_once(suffix)?;
+            let (y, _) = rest.rsplit_once(suffix)?;
             (x, y)
         }
         false => value.split_once(pattern)?,
-- 
2.43.0

