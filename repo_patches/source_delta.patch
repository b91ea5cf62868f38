From ab7bc6b1cdb0576798f26bdf15d1b9fb5a55d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:29 +0000
Subject: [PATCH 01/14] fix: send requests with the configured sequence number
 width

send_resp_raw documents that it shrinks both the key and the sequence
number, but HostClientConfig::seq_kind was never applied: every request
went out with a four byte sequence number.
---
 source/postcard-rpc/src/host_client/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 3202c88..5528a0b 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -359,6 +359,7 @@ where
         let cancel_fut = self.stopper.wait_stopped();
         let kkind: VarKeyKind = *self.ctx.kkind.read().unwrap();
         rqst.header.key.shrink_to(kkind);
+        rqst.header.seq_no.resize(self.seq_kind);
         let mut resp_key = VarKey::Key8(resp_key);
         let mut err_key = VarKey::Key8(self.err_key);
         resp_key.shrink_to(kkind);
-- 
2.43.0


From 816f98a84f7d9e45c81f1c0e1889785bc7b7885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:25 +0000
Subject: [PATCH 02/14] fix: take the error key into account when choosing the
 key length

Errors are sent with ERROR_KEY. When its shortened form equals the shortened
form of a response or outgoing topic key, the client takes replies of that
endpoint for errors (or the other way round), so all calls to it fail.
---
 source/postcard-rpc/src/server/dispatch_macro.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/postcard-rpc/src/server/dispatch_macro.rs b/source/postcard-rpc/src/server/dispatch_macro.rs
index 323210f..9d0c876 100644
--- a/source/postcard-rpc/src/server/dispatch_macro.rs
+++ b/source/postcard-rpc/src/server/dispatch_macro.rs
@@ -352,6 +352,8 @@ macro_rules! define_dispatch {
             pub const NEEDED_SZ_OUT: usize = $crate::server::min_key_needed(&[
                 &EP_OUT_KEYS,
                 &TP_OUT_KEYS,
+                // Errors are sent with this key, no matter which endpoint they are for
+                &[$crate::standard_icd::ERROR_KEY],
             ]);
             pub const NEEDED_SZ: usize = const {
                 assert!(
-- 
2.43.0


From 5da0240406f9a3275ecb9fee425368805c2e2863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:18 +0000
Subject: [PATCH 03/14] fix: wait for answers with unshortened keys

The keys an answer is expected with were shortened to the key length in use.
If the response key and the error key of an endpoint are equal at that length
(possible once a server that needs longer keys takes over), registering for
the answer failed, the call returned BadResponse without ever being sent, and
the longer key length was never learned.
---
 source/postcard-rpc/src/host_client/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 5528a0b..937d40d 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -360,10 +360,10 @@ where
         let kkind: VarKeyKind = *self.ctx.kkind.read().unwrap();
         rqst.header.key.shrink_to(kkind);
         rqst.header.seq_no.resize(self.seq_kind);
-        let mut resp_key = VarKey::Key8(resp_key);
-        let mut err_key = VarKey::Key8(self.err_key);
-        resp_key.shrink_to(kkind);
-        err_key.shrink_to(kkind);
+        // NOTE: don't shrink these, we can't know yet what key length the reply will
+        // use, and two different keys might become equal at the current length.
+        let resp_key = VarKey::Key8(resp_key);
+        let err_key = VarKey::Key8(self.err_key);
 
         // Prepare to receive the reply, BEFORE we send the request.
         // This uses the `enqueue` feature of WaitMap, which makes sure that
-- 
2.43.0


From 43e021cc70ae01d7e2b0049fe24e13d30e0aeb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:24 +0000
Subject: [PATCH 04/14] fix: report the types nested in newtype enum variants

---
 source/postcard-rpc/src/uniques.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/source/postcard-rpc/src/uniques.rs b/source/postcard-rpc/src/uniques.rs
index 250e459..252e2b7 100644
--- a/source/postcard-rpc/src/uniques.rs
+++ b/source/postcard-rpc/src/uniques.rs
@@ -549,17 +549,25 @@ const fn type_chewer_dmt<const MAX: usize>(
                 match nvars[i].ty {
                     DataModelVariant::UnitVariant => {}
                     DataModelVariant::NewtypeVariant(nt) => {
-                        let mut k = 0;
-                        let mut found = is_prim(nt.ty);
-                        // Check against all currently known tys
-                        while !found && k < outidx {
-                            let Some(kty) = out[k] else { panic!() };
-                            found |= nty_eq(kty, nt);
-                            k += 1;
-                        }
-                        if !found {
-                            out[outidx] = Some(nt);
-                            outidx += 1;
+                        // Get the types used by this field
+                        let (arr, used) = type_chewer_nty::<MAX>(nt);
+                        let mut j = 0;
+                        // For each type in this field...
+                        while j < used {
+                            let Some(ty) = arr[j] else { panic!() };
+                            let mut k = 0;
+                            let mut found = is_prim(ty.ty);
+                            // Check against all currently known tys
+                            while !found && k < outidx {
+                                let Some(kty) = out[k] else { panic!() };
+                                found |= nty_eq(kty, ty);
+                                k += 1;
+                            }
+                            if !found {
+                                out[outidx] = Some(ty);
+                                outidx += 1;
+                            }
+                            j += 1;
                         }
                     }
                     DataModelVariant::TupleVariant(nts) => {
-- 
2.43.0


From 84d213519226cf5938c50080adf7adfb5b3f1007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:32 +0000
Subject: [PATCH 05/14] fix: notice lost types and ignore repeats in schema
 discovery

---
 source/postcard-rpc/src/host_client/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 937d40d..3445fe4 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -259,7 +259,11 @@ where
                 while let Ok(Ok(val)) =
                     tokio::time::timeout(Duration::from_millis(100), sub.recv()).await
                 {
-                    got.push(val);
+                    // Another client could have asked for schemas at the same
+                    // time: the messages sent to it also reach us
+                    if !got.contains(&val) {
+                        got.push(val);
+                    }
                 }
                 got
             }
@@ -274,10 +278,12 @@ where
         };
         let mut rpt = SchemaReport::default();
         let mut e_and_t = vec![];
+        let mut types = 0;
 
         for d in data {
             match d {
                 OwnedSchemaData::Type(d) => {
+                    types += 1;
                     rpt.add_type(d);
                 }
                 e @ OwnedSchemaData::Endpoint { .. } => e_and_t.push(e),
@@ -307,6 +313,7 @@ where
         }
 
         let mut data_matches = true;
+        data_matches &= resp.types_sent as usize == types;
         data_matches &= resp.endpoints_sent as usize == rpt.endpoints.len();
         data_matches &= resp.topics_in_sent as usize == rpt.topics_in.len();
         data_matches &= resp.topics_out_sent as usize == rpt.topics_out.len();
-- 
2.43.0


From bbfd3387ae525decfb73873ec3f72e8b219f89e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:29 +0000
Subject: [PATCH 06/14] fix: do not panic when a formatted log message does not
 fit

---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 2 +-
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 261c61e..5ab7fae 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -469,7 +469,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 431e5ba..589b698 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -517,7 +517,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
-- 
2.43.0


From bd0456f934bf579f5c933ef502e0ccdcfe8e8eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:32 +0000
Subject: [PATCH 07/14] fix: reserve enough space for the length of formatted
 log messages

---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 8 ++++----
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 5ab7fae..4a962ab 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -515,13 +515,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 589b698..4faa0bb 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -563,13 +563,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
-- 
2.43.0


From 3ed29f9afb0de2c5e4a436ca3542035d7c289aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:10 +0000
Subject: [PATCH 08/14] fix: do not cut characters in half when truncating log
 messages

---
 .../src/server/impls/embassy_usb_v0_3.rs      | 22 +++++++++++++------
 .../src/server/impls/embassy_usb_v0_4.rs      | 22 +++++++++++++------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 4a962ab..7395794 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -375,15 +375,19 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         let res = core::fmt::write(&mut sw, args);
 
         // Calculate the number of bytes used *for formatting*.
-        let remain = sw.0.len();
-        let used = body_len - remain;
+        let mut used = body_len - sw.0.len();
 
         // If we had an error, that's probably because we ran out
         // of room. If we had an error, AND there is at least three
-        // bytes, then replace those with '.'s like ...
+        // bytes, then replace those with '.'s like ... without leaving
+        // a part of a character behind
         if res.is_err() && (body.len() >= 3) {
-            let start = body.len() - 3;
-            body[start..].iter_mut().for_each(|b| *b = b'.');
+            let mut start = used.min(body.len() - 3);
+            while start < used && (body[start] & 0xC0) == 0x80 {
+                start -= 1;
+            }
+            used = start + 3;
+            body[start..used].iter_mut().for_each(|b| *b = b'.');
         }
 
         // then go back and fill in the len - we write the len
@@ -402,7 +406,7 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         len_field[..len_used.len()].copy_from_slice(len_used);
 
         // Calculate the TOTAL amount
-        let act_used = ttl_len - remain;
+        let act_used = ttl_len - (body_len - used);
 
         send_all::<D>(ep_in, &tx_buf[..act_used], pending_frame).await
     }
@@ -467,7 +471,11 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         // If this write would overflow us, note that, but still take
         // as much as we possibly can here
         let bad = s.len() > sli.len();
-        let to_write = s.len().min(sli.len());
+        let mut to_write = s.len().min(sli.len());
+        // (but never a part of a character)
+        while !s.is_char_boundary(to_write) {
+            to_write -= 1;
+        }
         let (now, later) = sli.split_at_mut(to_write);
         now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 4faa0bb..1bc4b7c 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -422,15 +422,19 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         let res = core::fmt::write(&mut sw, args);
 
         // Calculate the number of bytes used *for formatting*.
-        let remain = sw.0.len();
-        let used = body_len - remain;
+        let mut used = body_len - sw.0.len();
 
         // If we had an error, that's probably because we ran out
         // of room. If we had an error, AND there is at least three
-        // bytes, then replace those with '.'s like ...
+        // bytes, then replace those with '.'s like ... without leaving
+        // a part of a character behind
         if res.is_err() && (body.len() >= 3) {
-            let start = body.len() - 3;
-            body[start..].iter_mut().for_each(|b| *b = b'.');
+            let mut start = used.min(body.len() - 3);
+            while start < used && (body[start] & 0xC0) == 0x80 {
+                start -= 1;
+            }
+            used = start + 3;
+            body[start..used].iter_mut().for_each(|b| *b = b'.');
         }
 
         // then go back and fill in the len - we write the len
@@ -449,7 +453,7 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         len_field[..len_used.len()].copy_from_slice(len_used);
 
         // Calculate the TOTAL amount
-        let act_used = ttl_len - remain;
+        let act_used = ttl_len - (body_len - used);
 
         send_all::<D>(ep_in, &tx_buf[..act_used], pending_frame, *timeout_ms_per_frame).await
     }
@@ -515,7 +519,11 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         // If this write would overflow us, note that, but still take
         // as much as we possibly can here
         let bad = s.len() > sli.len();
-        let to_write = s.len().min(sli.len());
+        let mut to_write = s.len().min(sli.len());
+        // (but never a part of a character)
+        while !s.is_char_boundary(to_write) {
+            to_write -= 1;
+        }
         let (now, later) = sli.split_at_mut(to_write);
         now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
-- 
2.43.0


From 73d94e0c1807b5f58a436cc984e51007d17b3855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:52 +0000
Subject: [PATCH 09/14] fix: discard too large frames as a whole for any
 receive buffer size

---
 .../src/server/impls/embassy_usb_v0_3.rs      | 20 ++++++++++++++++---
 .../src/server/impls/embassy_usb_v0_4.rs      | 20 ++++++++++++++++---
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 7395794..6861e2f 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -551,8 +551,12 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
     async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], Self::Error> {
         let buflen = buf.len();
         let mut window = &mut buf[..];
+        // The driver needs room for a whole packet, even if we have less left
+        let mut packet = [0u8; 64];
         while !window.is_empty() {
-            let n = match self.ep_out.read(window).await {
+            let small = window.len() < packet.len();
+            let dest = if small { &mut packet[..] } else { &mut window[..] };
+            let n = match self.ep_out.read(dest).await {
                 Ok(n) => n,
                 Err(EndpointError::BufferOverflow) => {
                     return Err(WireRxErrorKind::ReceivedMessageTooLarge)
@@ -560,7 +564,17 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
                 Err(EndpointError::Disabled) => return Err(WireRxErrorKind::ConnectionClosed),
             };
 
-            let (_now, later) = window.split_at_mut(n);
+            if n > window.len() {
+                if n != 64 {
+                    return Err(WireRxErrorKind::ReceivedMessageTooLarge);
+                }
+                break;
+            }
+
+            let (now, later) = window.split_at_mut(n);
+            if small {
+                now.copy_from_slice(&packet[..n]);
+            }
             window = later;
             if n != 64 {
                 // We now have a full frame! Great!
@@ -575,7 +589,7 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
         // If we got here, we've run out of space. That's disappointing. Accumulate to the
         // end of this packet
         loop {
-            match self.ep_out.read(buf).await {
+            match self.ep_out.read(&mut packet).await {
                 Ok(64) => {}
                 Ok(_) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
                 Err(EndpointError::BufferOverflow) => {
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 1bc4b7c..d01cbb9 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -599,8 +599,12 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
     async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], Self::Error> {
         let buflen = buf.len();
         let mut window = &mut buf[..];
+        // The driver needs room for a whole packet, even if we have less left
+        let mut packet = [0u8; 64];
         while !window.is_empty() {
-            let n = match self.ep_out.read(window).await {
+            let small = window.len() < packet.len();
+            let dest = if small { &mut packet[..] } else { &mut window[..] };
+            let n = match self.ep_out.read(dest).await {
                 Ok(n) => n,
                 Err(EndpointError::BufferOverflow) => {
                     return Err(WireRxErrorKind::ReceivedMessageTooLarge)
@@ -608,7 +612,17 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
                 Err(EndpointError::Disabled) => return Err(WireRxErrorKind::ConnectionClosed),
             };
 
-            let (_now, later) = window.split_at_mut(n);
+            if n > window.len() {
+                if n != 64 {
+                    return Err(WireRxErrorKind::ReceivedMessageTooLarge);
+                }
+                break;
+            }
+
+            let (now, later) = window.split_at_mut(n);
+            if small {
+                now.copy_from_slice(&packet[..n]);
+            }
             window = later;
             if n != 64 {
                 // We now have a full frame! Great!
@@ -623,7 +637,7 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
         // If we got here, we've run out of space. That's disappointing. Accumulate to the
         // end of this packet
         loop {
-            match self.ep_out.read(buf).await {
+            match self.ep_out.read(&mut packet).await {
                 Ok(64) => {}
                 Ok(_) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
                 Err(EndpointError::BufferOverflow) => {
-- 
2.43.0


From 535c7aba3f84a8f27939befb79b889ac0a9dd904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:45 +0000
Subject: [PATCH 10/14] fix: do not decode the tail of a message that
 overflowed the COBS accumulator

---
 source/postcard-rpc/src/accumulator.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/source/postcard-rpc/src/accumulator.rs b/source/postcard-rpc/src/accumulator.rs
index 493ba80..f6ae384 100644
--- a/source/postcard-rpc/src/accumulator.rs
+++ b/source/postcard-rpc/src/accumulator.rs
@@ -13,6 +13,8 @@ pub mod raw {
     pub struct CobsAccumulator<const N: usize> {
         buf: [u8; N],
         idx: usize,
+        // The current message didn't fit: skip everything up to its end
+        discard: bool,
     }
 
     /// The result of feeding the accumulator.
@@ -43,6 +45,7 @@ pub mod raw {
             CobsAccumulator {
                 buf: [0; N],
                 idx: 0,
+                discard: false,
             }
         }
 
@@ -60,6 +63,19 @@ pub mod raw {
         /// mutably borrows the accumulator for the lifetime of the deserialization.
         /// If `T` does not require the reference, the borrow of `self` ends at the end of the function.
         pub fn feed_ref<'a, 'b>(&'b mut self, input: &'a [u8]) -> FeedResult<'a, 'b> {
+            // Are we still skipping the rest of a message that was too long?
+            let input = if self.discard {
+                match input.iter().position(|&i| i == 0) {
+                    Some(n) => {
+                        self.discard = false;
+                        &input[n + 1..]
+                    }
+                    None => &[],
+                }
+            } else {
+                input
+            };
+
             if input.is_empty() {
                 return FeedResult::Consumed;
             }
@@ -96,6 +112,7 @@ pub mod raw {
                     // nope
                     let new_start = N - self.idx;
                     self.idx = 0;
+                    self.discard = true;
                     FeedResult::OverFull(&input[new_start..])
                 } else {
                     // yup!
-- 
2.43.0


From dd06c543998e2c1776cdb52815f63a9946bc0652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:45 +0000
Subject: [PATCH 11/14] fix: accept short messages over serial

---
 source/postcard-rpc/src/host_client/serial.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/serial.rs b/source/postcard-rpc/src/host_client/serial.rs
index 98e2a34..d1a06e6 100644
--- a/source/postcard-rpc/src/host_client/serial.rs
+++ b/source/postcard-rpc/src/host_client/serial.rs
@@ -211,10 +211,10 @@ impl SerialWireRx {
                     }
                     // We got a message! Attempt to dispatch it
                     FeedResult::Success { data, remaining } => {
-                        // TODO hacky check: the minimum size of a message is 9 bytes,
-                        // 8 for the header and one for the seq_no. Discard any "obviously"
-                        // malformed messages.
-                        if data.len() >= 9 {
+                        // Hacky check: the minimum size of a message is 3 bytes, one for
+                        // the discriminant, one for the key, and one for the seq_no.
+                        // Discard any "obviously" malformed messages.
+                        if data.len() >= 3 {
                             self.pending.push_back(data.to_vec());
                         } else {
                             tracing::warn!("Ignoring too-short message: {} bytes", data.len());
-- 
2.43.0


From aa2ca3603adfc4d5c6d21e95bfa765ffac0b777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:00 +0000
Subject: [PATCH 12/14] fix: close the client when the serial port reports end
 of file

---
 source/postcard-rpc/src/host_client/serial.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/postcard-rpc/src/host_client/serial.rs b/source/postcard-rpc/src/host_client/serial.rs
index d1a06e6..79372d7 100644
--- a/source/postcard-rpc/src/host_client/serial.rs
+++ b/source/postcard-rpc/src/host_client/serial.rs
@@ -192,6 +192,11 @@ impl SerialWireRx {
             // data from the serial port
             let used = self.rx.read(self.buf.as_mut_slice()).await?;
 
+            // Reading nothing means the port is gone, and won't come back
+            if used == 0 {
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
+
             let mut window = &self.buf[..used];
 
             // This buffering loop is necessary as a single `read()` might include
-- 
2.43.0


From f5d44c459016a15f8c65f7eab36d62a44eabb15c Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 12:22:07 +0000
Subject: [PATCH 13/14] hook: scheduling points at shared variables, with --cfg
 prpc_sim only

---
 source/postcard-rpc/src/host_client/mod.rs |  10 +-
 source/postcard-rpc/src/lib.rs             |   6 +
 source/postcard-rpc/src/sim_sync.rs        | 129 +++++++++++++++++++++
 3 files changed, 141 insertions(+), 4 deletions(-)
 create mode 100644 source/postcard-rpc/src/sim_sync.rs

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 3445fe4..e4b4fb7 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -8,11 +8,13 @@ use std::{
     collections::HashSet,
     future::Future,
     marker::PhantomData,
-    sync::{
-        atomic::{AtomicU32, Ordering},
-        Arc, RwLock,
-    },
+    sync::{atomic::Ordering, Arc},
 };
+#[cfg(not(prpc_sim))]
+use std::sync::{atomic::AtomicU32, RwLock};
+
+#[cfg(prpc_sim)]
+use crate::sim_sync::{AtomicU32, RwLock};
 
 use maitake_sync::{
     wait_map::{WaitError, WakeOutcome},
diff --git a/source/postcard-rpc/src/lib.rs b/source/postcard-rpc/src/lib.rs
index 4a6615e..44944ba 100644
--- a/source/postcard-rpc/src/lib.rs
+++ b/source/postcard-rpc/src/lib.rs
@@ -113,6 +113,8 @@
 
 #![cfg_attr(not(any(test, feature = "use-std")), no_std)]
 #![deny(missing_docs)]
+// `--cfg prpc_sim` is for simulators only, see sim_sync.rs
+#![allow(unexpected_cfgs)]
 #![deny(rustdoc::broken_intra_doc_links)]
 
 use header::{VarKey, VarKeyKind};
@@ -131,6 +133,10 @@ pub mod accumulator;
 #[cfg(feature = "use-std")]
 pub mod host_client;
 
+#[cfg(all(prpc_sim, feature = "use-std"))]
+#[doc(hidden)]
+pub mod sim_sync;
+
 #[cfg(any(test, feature = "test-utils"))]
 pub mod test_utils;
 
diff --git a/source/postcard-rpc/src/sim_sync.rs b/source/postcard-rpc/src/sim_sync.rs
new file mode 100644
index 0000000..52f90af
--- /dev/null
+++ b/source/postcard-rpc/src/sim_sync.rs
@@ -0,0 +1,129 @@
+//! Stand-ins for `std` synchronisation types that let a deterministic simulator
+//! switch tasks before each access.
+//!
+//! Only exists with `--cfg prpc_sim`, and is not part of the public interface.
+#![allow(missing_docs)]
+
+use core::{
+    cell::Cell,
+    ops::{Deref, DerefMut},
+};
+use std::sync::{
+    LockResult, OnceLock, PoisonError, RwLockReadGuard, RwLockWriteGuard, TryLockError,
+    TryLockResult,
+};
+
+/// Called before each access, unless a lock is held
+pub static POINT: OnceLock<fn()> = OnceLock::new();
+
+thread_local! {
+    static HELD: Cell<usize> = const { Cell::new(0) };
+}
+
+/// How many lock guards are alive on this thread
+pub fn held() -> usize {
+    HELD.with(Cell::get)
+}
+
+fn point() {
+    if let (0, Some(f)) = (held(), POINT.get()) {
+        f();
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct AtomicU32(core::sync::atomic::AtomicU32);
+
+impl AtomicU32 {
+    pub const fn new(val: u32) -> Self {
+        Self(core::sync::atomic::AtomicU32::new(val))
+    }
+}
+
+impl Deref for AtomicU32 {
+    type Target = core::sync::atomic::AtomicU32;
+    fn deref(&self) -> &Self::Target {
+        point();
+        &self.0
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct RwLock<T>(std::sync::RwLock<T>);
+
+pub struct Guard<G>(G);
+
+impl<T> RwLock<T> {
+    pub const fn new(val: T) -> Self {
+        Self(std::sync::RwLock::new(val))
+    }
+
+    pub fn read(&self) -> LockResult<Guard<RwLockReadGuard<'_, T>>> {
+        point();
+        Guard::wrap(self.0.read())
+    }
+
+    pub fn write(&self) -> LockResult<Guard<RwLockWriteGuard<'_, T>>> {
+        point();
+        Guard::wrap(self.0.write())
+    }
+
+    pub fn try_read(&self) -> TryLockResult<Guard<RwLockReadGuard<'_, T>>> {
+        point();
+        Guard::try_wrap(self.0.try_read())
+    }
+
+    pub fn try_write(&self) -> TryLockResult<Guard<RwLockWriteGuard<'_, T>>> {
+        point();
+        Guard::try_wrap(self.0.try_write())
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.0.is_poisoned()
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+}
+
+impl<G> Guard<G> {
+    fn wrap(res: LockResult<G>) -> LockResult<Self> {
+        HELD.with(|h| h.set(h.get() + 1));
+        match res {
+            Ok(g) => Ok(Guard(g)),
+            Err(e) => Err(PoisonError::new(Guard(e.into_inner()))),
+        }
+    }
+
+    fn try_wrap(res: TryLockResult<G>) -> TryLockResult<Self> {
+        match res {
+            Ok(g) => Self::wrap(Ok(g)).map_err(TryLockError::Poisoned),
+            Err(TryLockError::Poisoned(e)) => Self::wrap(Err(e)).map_err(TryLockError::Poisoned),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+        }
+    }
+}
+
+impl<G> Drop for Guard<G> {
+    fn drop(&mut self) {
+        HELD.with(|h| h.set(h.get() - 1));
+    }
+}
+
+impl<G: Deref> Deref for Guard<G> {
+    type Target = G::Target;
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+impl<G: DerefMut> DerefMut for Guard<G> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
-- 
2.43.0


From 3fa6496456faac5e2a8cd809869170a1e3beee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:47 +0000
Subject: [PATCH 14/14] hook: let a simulator choose where counters start, with
 --cfg prpc_sim only

---
 source/postcard-rpc/src/sim_sync.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/postcard-rpc/src/sim_sync.rs b/source/postcard-rpc/src/sim_sync.rs
index 52f90af..42bc283 100644
--- a/source/postcard-rpc/src/sim_sync.rs
+++ b/source/postcard-rpc/src/sim_sync.rs
@@ -34,9 +34,13 @@ fn point() {
 #[derive(Debug, Default)]
 pub struct AtomicU32(core::sync::atomic::AtomicU32);
 
+/// Where counters start, as if so much had been counted before
+pub static START: OnceLock<fn() -> u32> = OnceLock::new();
+
 impl AtomicU32 {
-    pub const fn new(val: u32) -> Self {
-        Self(core::sync::atomic::AtomicU32::new(val))
+    pub fn new(val: u32) -> Self {
+        let start = START.get().map_or(0, |f| f());
+        Self(core::sync::atomic::AtomicU32::new(val.wrapping_add(start)))
     }
 }
 
-- 
2.43.0

