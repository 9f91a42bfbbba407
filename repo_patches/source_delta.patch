From 89902c0b94f6cae93d23811abc78e929766415af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:12 +0000
Subject: [PATCH 01/10] fix: list the types nested inside enum newtype variants

type_chewer_dmt added the payload type of a newtype variant to the unique
type list but, unlike every other container, did not descend into it, so
types that only occur below a newtype variant were never announced in the
schema report.
---
 source/postcard-rpc/src/uniques.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/source/postcard-rpc/src/uniques.rs b/source/postcard-rpc/src/uniques.rs
index 250e459..252e2b7 100644
--- a/source/postcard-rpc/src/uniques.rs
+++ b/source/postcard-rpc/src/uniques.rs
@@ -549,17 +549,25 @@ const fn type_chewer_dmt<const MAX: usize>(
                 match nvars[i].ty {
                     DataModelVariant::UnitVariant => {}
                     DataModelVariant::NewtypeVariant(nt) => {
-                        let mut k = 0;
-                        let mut found = is_prim(nt.ty);
-                        // Check against all currently known tys
-                        while !found && k < outidx {
-                            let Some(kty) = out[k] else { panic!() };
-                            found |= nty_eq(kty, nt);
-                            k += 1;
-                        }
-                        if !found {
-                            out[outidx] = Some(nt);
-                            outidx += 1;
+                        // Get the types used by this field
+                        let (arr, used) = type_chewer_nty::<MAX>(nt);
+                        let mut j = 0;
+                        // For each type in this field...
+                        while j < used {
+                            let Some(ty) = arr[j] else { panic!() };
+                            let mut k = 0;
+                            let mut found = is_prim(ty.ty);
+                            // Check against all currently known tys
+                            while !found && k < outidx {
+                                let Some(kty) = out[k] else { panic!() };
+                                found |= nty_eq(kty, ty);
+                                k += 1;
+                            }
+                            if !found {
+                                out[outidx] = Some(ty);
+                                outidx += 1;
+                            }
+                            j += 1;
                         }
                     }
                     DataModelVariant::TupleVariant(nts) => {
-- 
2.43.0


From b5846348a03f8b64eb4cc9359facd5416ebfe8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:40 +0000
Subject: [PATCH 02/10] fix: send requests with the configured sequence number
 width

---
 source/postcard-rpc/src/host_client/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 3202c88..5528a0b 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -359,6 +359,7 @@ where
         let cancel_fut = self.stopper.wait_stopped();
         let kkind: VarKeyKind = *self.ctx.kkind.read().unwrap();
         rqst.header.key.shrink_to(kkind);
+        rqst.header.seq_no.resize(self.seq_kind);
         let mut resp_key = VarKey::Key8(resp_key);
         let mut err_key = VarKey::Key8(self.err_key);
         resp_key.shrink_to(kkind);
-- 
2.43.0


From 8ac582202d4511d301c51c04d90305ed0b6da958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:46 +0000
Subject: [PATCH 03/10] fix: cut off formatted log text that does not fit
 instead of panicking

---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 2 +-
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 261c61e..5ab7fae 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -469,7 +469,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 431e5ba..589b698 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -517,7 +517,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
-- 
2.43.0


From 5bade983b5437e52fc31a28cd71627489986a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:46 +0000
Subject: [PATCH 04/10] fix: reserve enough bytes for the length of formatted
 log messages

---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 8 ++++----
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 5ab7fae..4a962ab 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -515,13 +515,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 589b698..4faa0bb 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -563,13 +563,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
-- 
2.43.0


From e9b0c9e57c9e21deb5f42fab0d3d74109b50e8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:46 +0000
Subject: [PATCH 05/10] fix: do not deliver the tail of an oversized COBS frame
 as a message

---
 source/postcard-rpc/src/accumulator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/postcard-rpc/src/accumulator.rs b/source/postcard-rpc/src/accumulator.rs
index 493ba80..fec8c86 100644
--- a/source/postcard-rpc/src/accumulator.rs
+++ b/source/postcard-rpc/src/accumulator.rs
@@ -93,10 +93,10 @@ pub mod raw {
             } else {
                 // Does it fit?
                 if (self.idx + input.len()) > N {
-                    // nope
-                    let new_start = N - self.idx;
-                    self.idx = 0;
-                    FeedResult::OverFull(&input[new_start..])
+                    // nope - none of the rest of this message is of use either,
+                    // make sure nothing fits until we've seen the end of it
+                    self.idx = N + 1;
+                    FeedResult::OverFull(&[])
                 } else {
                     // yup!
                     self.extend_unchecked(input);
-- 
2.43.0


From 6a02d01f7f881ae8d544de100d9f0603fbccc1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:46 +0000
Subject: [PATCH 06/10] fix: accept serial messages shorter than nine bytes

---
 source/postcard-rpc/src/host_client/serial.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/serial.rs b/source/postcard-rpc/src/host_client/serial.rs
index 98e2a34..af5ffd5 100644
--- a/source/postcard-rpc/src/host_client/serial.rs
+++ b/source/postcard-rpc/src/host_client/serial.rs
@@ -211,10 +211,10 @@ impl SerialWireRx {
                     }
                     // We got a message! Attempt to dispatch it
                     FeedResult::Success { data, remaining } => {
-                        // TODO hacky check: the minimum size of a message is 9 bytes,
-                        // 8 for the header and one for the seq_no. Discard any "obviously"
-                        // malformed messages.
-                        if data.len() >= 9 {
+                        // TODO hacky check: the minimum size of a message is 3 bytes,
+                        // one each for the discriminants, the key and the seq_no. Discard
+                        // any "obviously" malformed messages.
+                        if data.len() >= 3 {
                             self.pending.push_back(data.to_vec());
                         } else {
                             tracing::warn!("Ignoring too-short message: {} bytes", data.len());
-- 
2.43.0


From 08589388adff3b53d7239c8a48fd0f98d23315f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:46 +0000
Subject: [PATCH 07/10] fix: report the end of the serial stream instead of
 polling it forever

---
 source/postcard-rpc/src/host_client/serial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/postcard-rpc/src/host_client/serial.rs b/source/postcard-rpc/src/host_client/serial.rs
index af5ffd5..8efc232 100644
--- a/source/postcard-rpc/src/host_client/serial.rs
+++ b/source/postcard-rpc/src/host_client/serial.rs
@@ -191,6 +191,10 @@ impl SerialWireRx {
             // Nothing in the pending queue, do a read to see if we can pull more
             // data from the serial port
             let used = self.rx.read(self.buf.as_mut_slice()).await?;
+            if used == 0 {
+                // The port is gone, there will never be more data
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
 
             let mut window = &self.buf[..used];
 
-- 
2.43.0


From 03c8377e6d9aa0e6c36bad5a8ffa374d62abb95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:34 +0000
Subject: [PATCH 08/10] fix: schema report notices lost type messages

get_schema_report compared the numbers of endpoints and topics with the
totals announced by the device, but not the number of types: a report with
a lost type was returned as complete.
---
 source/postcard-rpc/src/host_client/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 5528a0b..56a8312 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -274,10 +274,12 @@ where
         };
         let mut rpt = SchemaReport::default();
         let mut e_and_t = vec![];
+        let mut types_received = 0usize;
 
         for d in data {
             match d {
                 OwnedSchemaData::Type(d) => {
+                    types_received += 1;
                     rpt.add_type(d);
                 }
                 e @ OwnedSchemaData::Endpoint { .. } => e_and_t.push(e),
@@ -307,6 +309,7 @@ where
         }
 
         let mut data_matches = true;
+        data_matches &= resp.types_sent as usize == types_received;
         data_matches &= resp.endpoints_sent as usize == rpt.endpoints.len();
         data_matches &= resp.topics_in_sent as usize == rpt.topics_in.len();
         data_matches &= resp.topics_out_sent as usize == rpt.topics_out.len();
-- 
2.43.0


From a228b1bb3193a9c33b308c645c3cc55fbff20507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:55 +0000
Subject: [PATCH 09/10] fix: schema reports know every primitive type

The device leaves out all primitive types when it announces its schemas, but
the report did not know the byte array, usize and isize primitives (Vec<u8>
is a sequence): an endpoint or topic with such a message type, for example a
Uuid, made the whole report fail with InvalidReportData.
---
 source/postcard-rpc/src/host_client/mod.rs | 25 ++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 56a8312..645b53e 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -18,7 +18,10 @@ use maitake_sync::{
     wait_map::{WaitError, WakeOutcome},
     WaitMap,
 };
-use postcard_schema::{schema::owned::OwnedNamedType, Schema};
+use postcard_schema::{
+    schema::owned::{OwnedDataModelType, OwnedNamedType},
+    Schema,
+};
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 use tokio::{
     select,
@@ -1020,10 +1023,16 @@ impl Default for SchemaReport {
         me.add_type(OwnedNamedType::from(<u64 as Schema>::SCHEMA));
         // DataModelType::U128
         me.add_type(OwnedNamedType::from(<u128 as Schema>::SCHEMA));
-        // // DataModelType::Usize
-        // me.add_type(OwnedNamedType::from(<usize as Schema>::SCHEMA));
-        // // DataModelType::Isize
-        // me.add_type(OwnedNamedType::from(<isize as Schema>::SCHEMA));
+        // DataModelType::Usize, `usize` itself does not implement `Schema`
+        me.add_type(OwnedNamedType {
+            name: "usize".to_string(),
+            ty: OwnedDataModelType::Usize,
+        });
+        // DataModelType::Isize, `isize` itself does not implement `Schema`
+        me.add_type(OwnedNamedType {
+            name: "isize".to_string(),
+            ty: OwnedDataModelType::Isize,
+        });
         // DataModelType::F32
         me.add_type(OwnedNamedType::from(<f32 as Schema>::SCHEMA));
         // DataModelType::F64
@@ -1032,7 +1041,11 @@ impl Default for SchemaReport {
         me.add_type(OwnedNamedType::from(<char as Schema>::SCHEMA));
         // DataModelType::String
         me.add_type(OwnedNamedType::from(<String as Schema>::SCHEMA));
-        // DataModelType::ByteArray
+        // DataModelType::ByteArray, `Vec<u8>` is a `DataModelType::Seq`
+        me.add_type(OwnedNamedType {
+            name: "[u8]".to_string(),
+            ty: OwnedDataModelType::ByteArray,
+        });
         me.add_type(OwnedNamedType::from(<Vec<u8> as Schema>::SCHEMA));
         // DataModelType::Unit
         me.add_type(OwnedNamedType::from(<() as Schema>::SCHEMA));
-- 
2.43.0


From 41840b9dceac9304c1f9dbb059c5a21ccfd74f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:21 +0000
Subject: [PATCH 10/10] fix: choose key widths at which no response looks like
 a protocol error

---
 source/postcard-rpc/src/server/dispatch_macro.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/postcard-rpc/src/server/dispatch_macro.rs b/source/postcard-rpc/src/server/dispatch_macro.rs
index 323210f..d44c394 100644
--- a/source/postcard-rpc/src/server/dispatch_macro.rs
+++ b/source/postcard-rpc/src/server/dispatch_macro.rs
@@ -349,9 +349,12 @@ macro_rules! define_dispatch {
                 &EP_IN_KEYS,
                 &TP_IN_KEYS,
             ]);
+            // Protocol errors are sent as well, an endpoint's response must not be
+            // mistaken for one
             pub const NEEDED_SZ_OUT: usize = $crate::server::min_key_needed(&[
                 &EP_OUT_KEYS,
                 &TP_OUT_KEYS,
+                &[$crate::standard_icd::ERROR_KEY],
             ]);
             pub const NEEDED_SZ: usize = const {
                 assert!(
-- 
2.43.0

