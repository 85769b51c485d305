From 2e6598c4c37c0965bdacb24f9b3654b0e6aa5c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 01/24] fix: reject a message with fewer than three fields
 instead of panicking

---
 src/message.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 3c4059a..2f75f94 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -483,9 +483,10 @@ fn parse_group(
 fn parse_header(
     v: &mut VecDeque<StringField>, header: &mut FieldMap, dd: &DataDictionary,
 ) -> SessResult<()> {
-    if v[0].tag() != BeginString::field()
-        || v[1].tag() != BodyLength::field()
-        || v[2].tag() != MsgType::field()
+    let tag_at = |idx: usize| v.get(idx).map(|fld| fld.tag());
+    if tag_at(0) != Some(BeginString::field())
+        || tag_at(1) != Some(BodyLength::field())
+        || tag_at(2) != Some(MsgType::field())
     {
         return Err(SessionRejectError::tag_specified_out_of_order());
     }
-- 
2.43.0


From c9c4a31f1c9c901e75c51f10c9f7cd3c78be9e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 02/24] fix: look up session id tags at field starts only and
 tolerate a missing last SOH

---
 src/message.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 2f75f94..06aded1 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -389,19 +389,11 @@ impl Display for Message {
 }
 
 fn extract_field_value<'a>(tag: &str, s: &'a str) -> &'a str {
-    let pat_prefix = match tag {
-        "8" => "",
-        _ => std::str::from_utf8(&[SOH as u8]).unwrap(),
-    };
-    let pat = format!("{}{}=", pat_prefix, tag);
-    if let Some(indx) = s.find(pat.as_str()) {
-        let field_start_pos = indx + pat_prefix.len();
-        // ignore the first SOH prefix, if any, and start from tag
-        let end_pos = s[field_start_pos..].find(SOH).unwrap();
-        let start_pos = s[field_start_pos..].find('=').unwrap();
-        return &s[field_start_pos + start_pos + 1..field_start_pos + end_pos];
-    }
-    ""
+    // a field starts at the beginning of the message or right after a SOH, and its value
+    // lasts until the next SOH or, when that is missing, until the end of the message
+    s.split(SOH)
+        .find_map(|field| field.strip_prefix(tag).and_then(|rest| rest.strip_prefix('=')))
+        .unwrap_or("")
 }
 
 fn from_vec(mut v: VecDeque<StringField>, dd: &DataDictionary) -> SessResult<Message> {
-- 
2.43.0


From 6f09032b23e136f1c6d0fb14e467c8a65f3c7aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 03/24] fix: do not allocate group instances for a count larger
 than the message

---
 src/message.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index 06aded1..6460a63 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -418,6 +418,10 @@ fn parse_group(
         Ok(c) => c,
         Err(e) => return Err(SessionRejectError::incorrect_data_format_err()),
     };
+    if declared_count as usize > v.len() {
+        // every instance has at least one field, do not allocate more than what was received
+        return Err(SessionRejectError::incorrect_num_in_grp_count());
+    }
     let delimiter = rg.delimiter();
     let group = fmap.set_group(fld.tag(), declared_count, delimiter);
     let mut actual_count: i32 = -1;
-- 
2.43.0


From d5ca4cb1e3c1ea2ad4bb263eabaf7d10a64ea135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 04/24] fix: setting a group again replaces its instances, as
 it does its count

---
 src/message.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 6460a63..694c1bf 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -114,8 +114,9 @@ impl FieldMap {
     pub fn set_group(&mut self, tag: Tag, value: u32, rep_grp_delimiter: Tag) -> &mut Group {
         let grp_field = StringField::new(tag, value.to_string().as_str());
         self.set_field(grp_field);
-        let group =
-            self.group.entry(tag).or_insert_with(|| Group::new(rep_grp_delimiter, tag, value));
+        let group = self.group.entry(tag).or_default();
+        // any group set earlier for this tag is replaced, like its count field
+        *group = Group::new(rep_grp_delimiter, tag, value);
         // create group instances and insert into group
         for i in 0..value {
             group.add_group(FieldMap::new());
-- 
2.43.0


From 4caa9f1f3e39897c1b212f0d0bbcf5d127d2d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 05/24] fix: serialise the delimiter first in group instances
 built by set_group

---
 src/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 694c1bf..ce20800 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -119,7 +119,7 @@ impl FieldMap {
         *group = Group::new(rep_grp_delimiter, tag, value);
         // create group instances and insert into group
         for i in 0..value {
-            group.add_group(FieldMap::new());
+            group.add_group(FieldMap::with_field_order(&[rep_grp_delimiter]));
         }
         group
     }
-- 
2.43.0


From 2f36c4dbe5d360959f9cabd0285b4538ccc4b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:14 +0000
Subject: [PATCH 06/24] fix: serialise the checksum as the last field of the
 trailer

---
 src/message.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/message.rs b/src/message.rs
index ce20800..d0f7477 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -259,6 +259,7 @@ impl Message {
     pub fn new() -> Self {
         Self {
             header: FieldMap::with_field_order(&[8, 9, 35]),
+            trailer: FieldMap::with_field_order(&[93, 89, 10]),
             ..Default::default()
         }
     }
-- 
2.43.0


From 0411e987221362136676dd846927912cac0cc61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 07/24] fix: reject a field repeated inside a group instance
 instead of overwriting it

---
 src/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index d0f7477..8592ad4 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -458,7 +458,7 @@ fn parse_group(
             }
             // verify the order of fields
             let offset = field_order.iter().position(|f| *f == next_field.tag()).unwrap() as i32;
-            if offset < previous_offset {
+            if offset <= previous_offset {
                 // means the field is out of order
                 return Err(SessionRejectError::repeating_grp_out_of_order());
             }
-- 
2.43.0


From 82cf27f07aad98ea3caa86f19aa6488f252f3184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 08/24] fix: reject a tag that appears more than once instead
 of keeping only the last

---
 src/message.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 8592ad4..7d5d698 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -138,6 +138,15 @@ impl FieldMap {
         map_iter
     }
 
+    // like set_field but for parsed fields, which must not replace one that is already there
+    fn add_parsed_field(&mut self, field: StringField) -> SessResult<()> {
+        if self.fields.contains_key(&field.tag()) {
+            return Err(SessionRejectError::tag_appear_more_than_once());
+        }
+        self.set_field(field);
+        Ok(())
+    }
+
     fn is_ordered_field(&self, tag: Tag) -> bool {
         self.field_order.contains(&tag)
     }
@@ -413,6 +422,9 @@ fn parse_group(
     let rg = dd
         .get_msg_group(msg_type, fld.tag())
         .ok_or_else(SessionRejectError::tag_not_defined_for_msg)?;
+    if fmap.fields.contains_key(&fld.tag()) {
+        return Err(SessionRejectError::tag_appear_more_than_once());
+    }
     let rg_dd = rg.data_dictionary();
     let field_order = rg_dd.get_ordered_fields();
     let group_count_tag = fld.tag();
@@ -496,7 +508,7 @@ fn parse_header(
         } else if dd.is_msg_group(HEADER_ID, fld.tag()) {
             parse_group(v, HEADER_ID, &fld, header, dd)?;
         } else {
-            header.set_field(fld);
+            header.add_parsed_field(fld)?;
         }
     }
     Ok(())
@@ -520,7 +532,7 @@ fn parse_body(
         if dd.is_msg_group(msg_type.as_str(), fld.tag()) {
             parse_group(v, &msg_type, &fld, &mut msg.body, dd)?;
         } else {
-            msg.set_field(fld);
+            msg.body.add_parsed_field(fld)?;
         }
     }
     Ok(())
@@ -533,7 +545,7 @@ fn parse_trailer(
         if !dd.is_trailer_field(fld.tag()) {
             return Err(SessionRejectError::tag_specified_out_of_order());
         }
-        trailer.set_field(fld);
+        trailer.add_parsed_field(fld)?;
     }
     Ok(())
 }
-- 
2.43.0


From dbf0139fc28b88b5b0a73173ad84e39974379a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 09/24] fix: skip messages of unknown sessions instead of
 killing the receiver thread

---
 src/network.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index a57f93f..b823499 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -250,10 +250,16 @@ fn start_receiver_task<A: Application + Send + Sync + 'static>(
             println!("received: {}", s);
             let session_id: SessionId = Message::get_reverse_session_id(&s);
 
-            let dd = sessions
+            let dd = match sessions
                 .get_session(&session_id)
                 .map(|sess| Arc::clone(sess.data_dictionary()))
-                .unwrap();
+            {
+                Some(dd) => dd,
+                None => {
+                    println!("no session {} for the message", session_id);
+                    continue;
+                }
+            };
             if let Ok(message) = Message::from_str(&s, &dd) {
                 println!("msg parsed");
                 if let Ok(_) = Session::verify(&message, &sessions) {
-- 
2.43.0


From 8765bd4403d175952b113764dc9f2e878b894431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 10/24] fix: sending to a session without connection must not
 panic

---
 src/session/session_and_state.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/session/session_and_state.rs b/src/session/session_and_state.rs
index 4214ebd..97a72e7 100644
--- a/src/session/session_and_state.rs
+++ b/src/session/session_and_state.rs
@@ -99,9 +99,14 @@ impl Session {
     // }
     pub fn sync_send_to_target(session_id: &SessionId, sessions: &SessionMap, msg: Message) {
         // let synchronous_send = true;
-        let sess_ref = sessions.get_session(session_id).unwrap();
-        let responder = sess_ref.responder.as_ref().unwrap().clone();
-        responder.send(msg.to_string()).unwrap();
+        let responder = match sessions.get_session(session_id) {
+            Some(sess_ref) => sess_ref.responder.clone(),
+            None => None,
+        };
+        let sent = responder.map(|responder| responder.send(msg.to_string()).is_ok());
+        if sent != Some(true) {
+            println!("session {} is not connected, message not sent", session_id);
+        }
         // if !synchronous_send {
         //     tokio::spawn(async move {
         //         responder.send(msg.to_string()).await.unwrap();
-- 
2.43.0


From ef0d67da7c5e9ed7c38d39c7fbe06b5b971b8a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:29 +0000
Subject: [PATCH 11/24] fix: stop reading when the peer disconnects instead of
 spinning or panicking

---
 src/io/acceptor.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index d76be60..8d2af0a 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -70,10 +70,11 @@ fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String
     tokio::spawn(async move {
         let mut buf: Vec<u8> = Vec::with_capacity(1024);
         let mut buf_reader = BufReader::new(read_half);
-        loop {
-            read_message(&mut buf_reader, &mut buf).await;
+        while let Ok(true) = read_message(&mut buf_reader, &mut buf).await {
             let raw_msg = String::from_utf8_lossy(&buf[..buf.len()]).to_string();
-            to_app.send(raw_msg).await.unwrap();
+            if to_app.send(raw_msg).await.is_err() {
+                break;
+            }
             buf.clear();
         }
     });
@@ -93,9 +94,15 @@ fn start_app_listner_task(
     });
 }
 
-async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<u8>) {
+// returns false if the stream ended before a complete message was read
+async fn read_message<R: AsyncBufReadExt + Unpin>(
+    reader: &mut R, buf: &mut Vec<u8>,
+) -> std::io::Result<bool> {
     loop {
-        let bytes_read = reader.read_until(SOH as u8, buf).await.unwrap();
+        let bytes_read = reader.read_until(SOH as u8, buf).await?;
+        if bytes_read == 0 || buf.last() != Some(&(SOH as u8)) {
+            return Ok(false);
+        }
         // println!("bytes received: {:?}", &buf);
         let slice_start = buf.len() - bytes_read;
         let slice_end = buf.len();
@@ -103,8 +110,8 @@ async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<
         let byte_slice = &buf[slice_start..slice_end];
         if byte_slice.starts_with(&[49, 48, 61]) {
             // b"10="
-            // checksum tag found, break
-            break;
+            // checksum tag found, message is complete
+            return Ok(true);
         }
     }
 }
-- 
2.43.0


From 6ea72ccbe9dfd93a8ec3ab51363d66c23b4beace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 12/24] fix: keep sending after the writer lagged behind, and
 stop on a write error

---
 src/io/acceptor.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 8d2af0a..14dc078 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -86,9 +86,20 @@ fn start_app_listner_task(
     tokio::spawn(async move {
         println!("starting internal msg receiv");
         // if there is message to be sent out to remote socket then read and send
-        while let Ok(msg) = from_app.recv().await {
+        loop {
+            let msg = match from_app.recv().await {
+                Ok(msg) => msg,
+                Err(broadcast::error::RecvError::Lagged(missed)) => {
+                    println!("{} messages were not sent", missed);
+                    continue;
+                }
+                Err(broadcast::error::RecvError::Closed) => break,
+            };
             println!("sending {}", &msg);
-            let _res = write_half.write_all(msg.as_bytes()).await.unwrap();
+            if let Err(e) = write_half.write_all(msg.as_bytes()).await {
+                println!("Error in sending message: {:?}", e);
+                break;
+            }
             println!("sent {}", &msg);
         }
     });
-- 
2.43.0


From b47d510c265d6873f0c5007702b016517decc443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:35 +0000
Subject: [PATCH 13/24] fix: report an unknown component as an error instead of
 panicking

---
 src/data_dictionary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 7aa75a3..1ac9e6d 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -289,7 +289,7 @@ impl DataDictionary {
                     // required attrib for processing componend does not depend on outer node
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msg: {}, comp: {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     group_dd.add_xml_component(
                         msg_type,
                         comp_node,
@@ -353,7 +353,7 @@ impl DataDictionary {
                     let comp_name = get_name_attr(&child)?;
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msgtype {}, component {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     // "required" attribute of each comp inside comp is treated independently
                     // it does no depend on outer component.
                     self.add_xml_component(msg_type, comp_node, is_comp_required, components, doc)?
@@ -417,7 +417,7 @@ impl DataDictionary {
                     let comp_name = get_name_attr(&child)?;
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msgtype {}, component {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     self.add_xml_component(msg_type, comp_node, comp_required, components, doc)?;
                 }
                 "group" => {
-- 
2.43.0


From efb8f5d3d4071afa845227d3b2876c6b7f4785b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 14/24] fix: do not silently ignore a section placed before the
 default one

---
 src/session/session_settings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index 642b4e5..4810b52 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -108,10 +108,10 @@ impl Properties {
                 default_found = true;
                 default_session_id = Some(SessionId::default());
                 setting_map.insert(default_session_id.clone().unwrap(), default_section);
-            } else if line.starts_with('[') && line.ends_with(']') && default_found {
+            } else if line.starts_with('[') && line.ends_with(']') {
                 // some other section in config file
                 if !default_found {
-                    panic!("default section should be first section. not found");
+                    panic!("default section not found, it should be the first section");
                 }
                 let section = parse_table(&mut lines);
                 let defaults = setting_map.get(default_session_id.as_ref().unwrap()).unwrap();
-- 
2.43.0


From 594813c12c02fd6aa72c0d89da9ef693c7ea5e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 15/24] fix: a schedule without start and end time is a non
 stop one

---
 src/session/session_schedule.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 18b6b18..d935523 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -59,9 +59,9 @@ impl SessionSchedule {
         let time_zone: chrono_tz::Tz =
             settings.get_optional_config(session_id, TIMEZONE_SETTING).unwrap_or(chrono_tz::UTC);
         SessionSchedule::new(
-            start_time.unwrap(),
+            start_time.unwrap_or_default(),
             start_day,
-            end_time.unwrap(),
+            end_time.unwrap_or_default(),
             end_day,
             time_zone,
             is_non_stop,
-- 
2.43.0


From 9c967b053b1e4191a2987f6f9e9009168ccb252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 16/24] fix: wait before binding a busy address again

The acceptor task retried a failed bind in a loop without ever suspending, which kept a runtime thread busy.
---
 src/io/acceptor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 14dc078..af32ee2 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -2,11 +2,14 @@ use crate::io::*;
 use crate::message::SOH;
 use std::net::SocketAddr;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpListener;
 use tokio::sync::mpsc::{channel as tio_channel, Receiver as TioReceiver, Sender as TioSender};
 
+const BIND_RETRY_INTERVAL: Duration = Duration::from_millis(500);
+
 #[derive(Debug)]
 pub struct IoAcceptor {
     bind_addr: SocketAddr,
@@ -45,6 +48,8 @@ impl IoAcceptor {
                     }
                     Err(e) => {
                         println!("Error in bind: {:?}", e);
+                        // the address may become free, but do not keep the runtime busy until then
+                        tokio::time::sleep(BIND_RETRY_INTERVAL).await;
                         continue;
                     }
                 };
-- 
2.43.0


From da627c9befb580de11807a732599dcf16e7db028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 17/24] fix: refuse two sections with the same session id

---
 src/session/session_settings.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index 4810b52..4abc2b5 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -116,6 +116,9 @@ impl Properties {
                 let section = parse_table(&mut lines);
                 let defaults = setting_map.get(default_session_id.as_ref().unwrap()).unwrap();
                 let session_id = SessionId::from_map(&section, defaults);
+                if setting_map.contains_key(&session_id) {
+                    panic!("duplicate section for session {}", session_id);
+                }
                 setting_map.insert(session_id, section);
             }
         }
-- 
2.43.0


From ddd88263631606b1930af1a0be7b430edd319a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 18/24] fix: compare session times as naive local times

---
 src/session/session_schedule.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index d935523..da9476d 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -73,10 +73,13 @@ impl SessionSchedule {
             return true;
         }
 
-        let now_datetime = self.time_zone.from_utc_datetime(&Utc::now().naive_utc());
+        // local time without offset, a start or end time may not exist or exist twice
+        // on the day of a daylight saving time change
+        let now_datetime =
+            self.time_zone.from_utc_datetime(&Utc::now().naive_utc()).naive_local();
         // get today's session start and end datetime
-        let today_start_datetime = now_datetime.date().and_time(self.start_time).unwrap();
-        let today_end_datetime = now_datetime.date().and_time(self.end_time).unwrap();
+        let today_start_datetime = now_datetime.date().and_time(self.start_time);
+        let today_end_datetime = now_datetime.date().and_time(self.end_time);
         if self.start_day.is_none() && self.end_day.is_none() {
             // daily session start and end
             // now should be between today's session start and end datetimes
@@ -101,8 +104,7 @@ impl SessionSchedule {
         }
         // weekly start_date is on correct weekday for sesssion
         // update the date with time of self.start_time
-        let weekly_start_datetime =
-            weekly_start_date.and_time(today_start_datetime.time()).unwrap();
+        let weekly_start_datetime = weekly_start_date.and_time(today_start_datetime.time());
 
         while weekly_end_date.weekday() != session_end_weekday {
             // go forward one day
@@ -113,7 +115,7 @@ impl SessionSchedule {
                 return false;
             }
         }
-        let weekly_end_datetime = weekly_end_date.and_time(today_end_datetime.time()).unwrap();
+        let weekly_end_datetime = weekly_end_date.and_time(today_end_datetime.time());
         weekly_start_datetime <= now_datetime && now_datetime <= weekly_end_datetime
     }
 
-- 
2.43.0


From d4c6d27d0f264b8f4933dfe7a0b14013c5147ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:54 +0000
Subject: [PATCH 19/24] fix: components that contain each other are reported
 instead of expanded forever

---
 src/data_dictionary.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 1ac9e6d..22528b7 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -287,14 +287,12 @@ impl DataDictionary {
                     let comp_name = get_name_attr(&grp_child)?;
                     let comp_required = get_required_attr(&grp_child)?;
                     // required attrib for processing componend does not depend on outer node
-                    let comp_node = components
-                        .get(comp_name)
-                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
+                    let (comp_node, components) = find_component(comp_name, components)?;
                     group_dd.add_xml_component(
                         msg_type,
-                        comp_node,
+                        &comp_node,
                         comp_required,
-                        components,
+                        &components,
                         doc,
                     )?
                 }
@@ -351,12 +349,16 @@ impl DataDictionary {
                     // adding this for completeness.
                     let is_comp_required = get_required_attr(&child)?;
                     let comp_name = get_name_attr(&child)?;
-                    let comp_node = components
-                        .get(comp_name)
-                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
+                    let (comp_node, components) = find_component(comp_name, components)?;
                     // "required" attribute of each comp inside comp is treated independently
                     // it does no depend on outer component.
-                    self.add_xml_component(msg_type, comp_node, is_comp_required, components, doc)?
+                    self.add_xml_component(
+                        msg_type,
+                        &comp_node,
+                        is_comp_required,
+                        &components,
+                        doc,
+                    )?
                 }
                 "group" => {
                     // this group field is added to message fields
@@ -415,10 +417,8 @@ impl DataDictionary {
                 "component" => {
                     let comp_required = get_required_attr(&child)?;
                     let comp_name = get_name_attr(&child)?;
-                    let comp_node = components
-                        .get(comp_name)
-                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
-                    self.add_xml_component(msg_type, comp_node, comp_required, components, doc)?;
+                    let (comp_node, components) = find_component(comp_name, components)?;
+                    self.add_xml_component(msg_type, &comp_node, comp_required, &components, doc)?;
                 }
                 "group" => {
                     // this group field is added to message fields
@@ -545,6 +545,17 @@ fn get_component_nodes_by_name<'a, 'i>(components: Node<'a, 'i>) -> DResult<Node
     Ok(cmap)
 }
 
+fn find_component<'a, 'i>(
+    name: &str, components: &NodeMap<'a, 'i>,
+) -> DResult<(Node<'a, 'i>, NodeMap<'a, 'i>)> {
+    // the component itself is not available to its own members, otherwise components
+    // which refer to each other would be expanded forever
+    let mut others = components.clone();
+    let node =
+        others.remove(name).ok_or_else(|| XmlError::XmlNodeNotFound(name.to_string()))?;
+    Ok((node, others))
+}
+
 fn lookup_field_num_with_name(field_name: &str, doc: &Document) -> DResult<u32> {
     let fields = lookup_node("fields", doc)?;
     for node in fields.children().filter(|n| n.has_attribute("number") && n.has_attribute("name")) {
-- 
2.43.0


From 2aeaa5384ef23b9a1c24b9da3fa381a99ad0b863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:58 +0000
Subject: [PATCH 20/24] fix: a message of type header or trailer no longer
 replaces the header or trailer

---
 src/data_dictionary.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 22528b7..1ce0858 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -201,7 +201,12 @@ impl DataDictionary {
     }
 
     fn set_msg_name_type_cat(&mut self, msg_name: &str, msg_type: &str, cat: &str) -> DResult<()> {
-        if self.category.contains_key(msg_type) || self.types.contains_key(msg_name) {
+        // header and trailer fields are kept under these names
+        let reserved = msg_type == HEADER_ID || msg_type == TRAILER_ID;
+        if reserved
+            || self.category.contains_key(msg_type)
+            || self.types.contains_key(msg_name)
+        {
             return Err(XmlError::DuplicateMessage(msg_name.to_string()));
         }
         self.types.insert(msg_name.to_string(), msg_type.to_string());
-- 
2.43.0


From ee69e138dd2b191928ebed2e4288d9c8368011cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:50 +0000
Subject: [PATCH 21/24] fix: a member's number is looked up only among the
 declared fields

---
 src/data_dictionary.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 1ce0858..33aa951 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -563,7 +563,9 @@ fn find_component<'a, 'i>(
 
 fn lookup_field_num_with_name(field_name: &str, doc: &Document) -> DResult<u32> {
     let fields = lookup_node("fields", doc)?;
-    for node in fields.children().filter(|n| n.has_attribute("number") && n.has_attribute("name")) {
+    for node in fields.children().filter(|n| {
+        n.has_tag_name("field") && n.has_attribute("number") && n.has_attribute("name")
+    }) {
         let name = get_name_attr(&node)?;
         if name == field_name {
             let number = get_number_attr(&node)?;
-- 
2.43.0


From f49e8ebadb441d21aa9ab8f6faaea209dd29c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 22/24] fix: refuse a schedule with only one of the two
 weekdays

---
 src/session/session_schedule.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index da9476d..bf1499f 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -52,6 +52,9 @@ impl SessionSchedule {
 
         let start_day = settings.get_optional_config::<Weekday>(session_id, START_DAY_SETTING);
         let end_day = settings.get_optional_config::<Weekday>(session_id, END_DAY_SETTING);
+        if start_day.is_some() != end_day.is_some() {
+            panic!("start_day and end_day both are mandatory for a weekly session");
+        }
         if is_non_stop && (start_day.is_some() || end_day.is_some()) {
             panic!("start or end day specified without start time or end time");
         }
-- 
2.43.0


From 9723bea319d868a1c71eecce0f9d0ba64dc591d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 23/24] fix: keep listening while connections are accepted

---
 src/io/acceptor.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index af32ee2..4ad0eb8 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -40,19 +40,21 @@ impl IoAcceptor {
         let socket_to_app_send = self.socket_to_app_send.clone();
         let app_to_socket_send = self._app_to_socket_send.clone();
         tokio::spawn(async move {
-            loop {
-                let listener = match TcpListener::bind(bind_addr).await {
+            // keep the listener, connections that arrive while another one is accepted would be refused
+            let listener = loop {
+                match TcpListener::bind(bind_addr).await {
                     Ok(listener) => {
                         println!("listening on {}", bind_addr);
-                        listener
+                        break listener;
                     }
                     Err(e) => {
                         println!("Error in bind: {:?}", e);
                         // the address may become free, but do not keep the runtime busy until then
                         tokio::time::sleep(BIND_RETRY_INTERVAL).await;
-                        continue;
                     }
                 };
+            };
+            loop {
                 let (stream, _) = match listener.accept().await {
                     Ok((stream, remote_addr)) => {
                         println!("accepted connection from {}", remote_addr);
@@ -60,6 +62,8 @@ impl IoAcceptor {
                     }
                     Err(e) => {
                         println!("Error in accepting connection: {:?}", e);
+                        // e.g. too many open files, do not keep the runtime busy until that is over
+                        tokio::time::sleep(BIND_RETRY_INTERVAL).await;
                         continue;
                     }
                 };
-- 
2.43.0


From eb8203e037f06a6f8a466d09fec6574e1815d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 24/24] fix: refuse a settings file with a section header that
 is not closed

---
 src/session/session_settings.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index 4abc2b5..12a5a98 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -120,6 +120,8 @@ impl Properties {
                     panic!("duplicate section for session {}", session_id);
                 }
                 setting_map.insert(session_id, section);
+            } else if line.starts_with('[') {
+                panic!("section header {} is not closed", line);
             }
         }
         if !default_found {
-- 
2.43.0

