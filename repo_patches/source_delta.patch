From bf5198a5084c7dde510dc3038b6f36e7ce203dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 1/8] fix: dot-stuff a message that starts with a dot

---
 src/codec.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index b91bcdf..10fa48a 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -6,7 +6,7 @@ use tokio::io::{AsyncWrite as Write, AsyncWriteExt};
 use futures::io;
 
 /// The codec used for transparency
-#[derive(Default, Clone, Copy, Debug)]
+#[derive(Clone, Copy, Debug)]
 pub struct ClientCodec {
     escape_count: u8,
 }
@@ -14,7 +14,14 @@ pub struct ClientCodec {
 impl ClientCodec {
     /// Creates a new client codec
     pub fn new() -> Self {
-        ClientCodec::default()
+        // The content starts at the beginning of a line.
+        ClientCodec { escape_count: 2 }
+    }
+}
+
+impl Default for ClientCodec {
+    fn default() -> Self {
+        Self::new()
     }
 }
 
-- 
2.43.0


From a127c730cc0f59f2ce8ae05c6700578de30d44f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 2/8] fix: recognize CRLF after a lone CR when dot-stuffing

---
 src/codec.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index 10fa48a..3842af6 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -46,7 +46,15 @@ impl ClientCodec {
                 for (idx, byte) in frame.iter().enumerate() {
                     match self.escape_count {
                         0 => self.escape_count = if *byte == b'\r' { 1 } else { 0 },
-                        1 => self.escape_count = if *byte == b'\n' { 2 } else { 0 },
+                        1 => {
+                            self.escape_count = if *byte == b'\n' {
+                                2
+                            } else if *byte == b'\r' {
+                                1
+                            } else {
+                                0
+                            }
+                        }
                         2 => {
                             self.escape_count = if *byte == b'.' {
                                 3
-- 
2.43.0


From e13c89b1ce9843addb2e46f7092059279e1e2de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 3/8] fix: write only one end-of-data marker for an empty
 message

---
 src/stream.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index cf8153b..ec11474 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -108,7 +108,10 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         message_reader.read_to_end(&mut message_bytes).await?;
 
         let res: Result<(), Error> = async {
-            codec.encode(&message_bytes, &mut self.inner).await?;
+            // Encoding an empty frame would write an end-of-data marker of its own.
+            if !message_bytes.is_empty() {
+                codec.encode(&message_bytes, &mut self.inner).await?;
+            }
             self.inner.write_all(b"\r\n.\r\n").await?;
             self.inner.flush().await?;
             Ok(())
-- 
2.43.0


From 902e7257ef823e1194ee4f4b03cc4128447c3e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 4/8] fix: encode control characters in xtext with two digits,
 and DEL

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e6fa07d..27ba38e 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -11,13 +11,13 @@ pub struct XText<'a>(pub &'a str);
 impl<'a> Display for XText<'a> {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         let mut rest = self.0;
-        while let Some(idx) = rest.find(|c| c < '!' || c == '+' || c == '=') {
+        while let Some(idx) = rest.find(|c| c < '!' || c == '+' || c == '=' || c == '\x7f') {
             let (start, end) = rest.split_at(idx);
             f.write_str(start)?;
 
             let mut end_iter = end.char_indices();
             let (_, c) = end_iter.next().expect("char");
-            write!(f, "+{:X}", c as u8)?;
+            write!(f, "+{:02X}", c as u8)?;
 
             if let Some((idx, _)) = end_iter.next() {
                 rest = &end[idx..];
-- 
2.43.0


From 41820440f989f31fe8d0c0542e5c8c6066bf7191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 5/8] fix: accept replies whose last line is a bare code

---
 src/response.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 82c7966..6eaf06a 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -9,7 +9,7 @@ use std::string::ToString;
 use nom::{
     branch::alt,
     bytes::streaming::{tag, take_until},
-    combinator::{complete, map},
+    combinator::{complete, map, peek},
     multi::many0,
     sequence::{preceded, tuple},
     IResult,
@@ -227,8 +227,14 @@ pub(crate) fn parse_response(i: &str) -> IResult<&str, Response> {
         preceded(tag("-"), take_until("\r\n")),
         tag("\r\n"),
     )))(i)?;
-    let (i, (last_code, last_line)) =
-        tuple((parse_code, preceded(tag(" "), take_until("\r\n"))))(i)?;
+    // The text of the last line is optional, together with the space in front of it.
+    let (i, (last_code, last_line)) = tuple((
+        parse_code,
+        alt((
+            preceded(tag(" "), take_until("\r\n")),
+            map(peek(tag("\r\n")), |_| ""),
+        )),
+    ))(i)?;
     let (i, _) = complete(tag("\r\n"))(i)?;
 
     // Check that all codes are equal.
-- 
2.43.0


From 092b51f1823e84c83c4d377dd762b315b649d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 6/8] fix: recognize EHLO keywords in any letter case

---
 src/extension.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index c4a53ae..328f634 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -149,7 +149,12 @@ impl ServerInfo {
             }
 
             let split: Vec<&str> = line.split_whitespace().collect();
-            match split.first().copied() {
+            // EHLO keywords are case-insensitive.
+            match split
+                .first()
+                .map(|keyword| keyword.to_ascii_uppercase())
+                .as_deref()
+            {
                 Some("PIPELINING") => {
                     features.insert(Extension::Pipelining);
                 }
-- 
2.43.0


From a8a0a2a8b455833490d0ab769216c7ec9c320225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 7/8] fix: keep replies and commands in step after a pipelined
 rejection

---
 src/smtp_client.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 0dc3697..763b268 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -227,12 +227,20 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
                 sent_commands += 1;
             }
 
-            // Data
-            self.stream.send_command(DataCommand).await?;
-            sent_commands += 1;
-
+            // Read all the replies even if one of them is a rejection, so that none is left to be
+            // taken for the reply to a later command.
+            let mut rejection = None;
             for _ in 0..sent_commands {
-                self.stream.read_response().await?;
+                match self.stream.read_response().await {
+                    Ok(_) => {}
+                    Err(err @ (Error::Transient(_) | Error::Permanent(_))) => {
+                        rejection.get_or_insert(err);
+                    }
+                    Err(err) => return Err(err),
+                }
+            }
+            if let Some(err) = rejection {
+                return Err(err);
             }
         } else {
             self.stream
@@ -250,11 +258,14 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
                 // Log the rcpt command
                 debug!("to=<{}>", to_address);
             }
-
-            // Data
-            self.stream.command(DataCommand).await?;
         }
 
+        // Data
+        //
+        // This is not pipelined: if only some recipients are accepted, there is no way to withdraw
+        // a DATA command that has already been sent.
+        self.stream.command(DataCommand).await?;
+
         let res = self.stream.message(email.message()).await;
 
         // Message content
-- 
2.43.0


From 587a9728a79a0fa909db061881de24a7a33742e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 8/8] fix: do not take the server name in the EHLO reply for a
 keyword

---
 src/extension.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index 328f634..d1c4819 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -143,7 +143,8 @@ impl ServerInfo {
 
         let mut features: HashSet<Extension> = HashSet::new();
 
-        for line in response.message.as_slice() {
+        // The first line names the server and does not announce any extension.
+        for line in response.message.iter().skip(1) {
             if line.is_empty() {
                 continue;
             }
-- 
2.43.0

