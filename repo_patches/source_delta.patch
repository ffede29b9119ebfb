From 0e38db3dda0b8ce3b829128fe773c78121dff3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:44 +0000
Subject: [PATCH 01/30] fix: sysex8 set_stream_id writes the stream id octet,
 not the first data byte

---
 midi2/src/sysex8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 0328a6a..93424ab 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -177,7 +177,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             .chunks_exact_mut(4)
             .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
         {
-            packet[0].set_octet(3, id);
+            packet[0].set_octet(2, id);
         }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
-- 
2.43.0


From a04dde1b4daec3d872156a35fa66ffeb8743c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:44 +0000
Subject: [PATCH 02/30] fix: sysex8 packets added by a resize carry the
 message's stream id

---
 midi2/src/sysex8.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 93424ab..580c4f6 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -517,6 +517,7 @@ fn try_resize<
         .take(buffer_size / 4)
         .peekable();
     let mut group = None;
+    let mut stream_id = None;
 
     const MESSAGE_TYPE: u4 = u4::new(UMP_MESSAGE_TYPE);
     const STATUS_COMPLETE: u4 = u4::new(0x0);
@@ -528,6 +529,7 @@ fn try_resize<
     if let Some(first_packet) = iter.next() {
         first_packet[0].set_nibble(0, MESSAGE_TYPE);
         group = Some(first_packet[0].nibble(1));
+        stream_id = Some(first_packet[0].octet(2));
         if iter.peek().is_some() {
             // start packet
             first_packet[0].set_nibble(2, STATUS_START);
@@ -542,6 +544,7 @@ fn try_resize<
     while let Some(chunk) = iter.next() {
         chunk[0].set_nibble(0, MESSAGE_TYPE);
         chunk[0].set_nibble(1, group.unwrap());
+        chunk[0].set_octet(2, stream_id.unwrap());
         if iter.peek().is_some() {
             // middle packet
             chunk[0].set_nibble(2, STATUS_CONTINUE);
-- 
2.43.0


From 942a6e4d02fbef50fff5cca794f01942f9519649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:13 +0000
Subject: [PATCH 03/30] fix: sysex payload compaction inspects every packet of
 the message and nothing beyond it

---
 midi2/src/sysex7.rs | 8 +-------
 midi2/src/sysex8.rs | 7 +------
 2 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index e754d17..c018f1a 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -664,13 +664,7 @@ fn is_compact<B: crate::buffer::Buffer>(sysex: &Sysex7<B>) -> bool {
         crate::buffer::UNIT_ID_U8 => true,
         crate::buffer::UNIT_ID_U32 => {
             use crate::detail::BitOps;
-            for chunk in sysex
-                .0
-                .buffer()
-                .specialise_u32()
-                .chunks_exact(4)
-                .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-            {
+            for chunk in sysex.data().specialise_u32().chunks_exact(2) {
                 let status: u8 = chunk[0].nibble(2).into();
                 let is_begin = status == 0x1;
                 let is_continue = status == 0x2;
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 580c4f6..f28e00b 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -585,12 +585,7 @@ fn buffer_size_from_payload_size(payload_size: usize) -> usize {
 // will determine whether the payload data in the message is maximally
 // compact in the underlying buffer
 fn is_compact<B: crate::buffer::Buffer<Unit = u32>>(sysex: &Sysex8<B>) -> bool {
-    for chunk in sysex
-        .0
-        .buffer()
-        .chunks_exact(4)
-        .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-    {
+    for chunk in sysex.data().chunks_exact(4) {
         let status: u8 = chunk[0].nibble(2).into();
         let is_begin = status == 0x1;
         let is_continue = status == 0x2;
-- 
2.43.0


From d794f86bbffbb4a4712f72c3aee44b997cc010fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:13 +0000
Subject: [PATCH 04/30] fix: resizing a bytes sysex7 message clears everything
 between its old and new end bytes

---
 midi2/src/sysex7.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index c018f1a..3d320f2 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -534,8 +534,8 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 let old_payload_size = self.payload_size();
                 self.0.resize(buffer_sz);
                 if payload_size > old_payload_size {
-                    // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
+                    // erase old end bit and whatever lay beyond it
+                    self.0.specialise_u8_mut()[old_payload_size + 1..buffer_sz].fill(0);
                 }
                 self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
             }
@@ -563,9 +563,9 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                     buffer_sz = self.0.buffer().len();
                     crate::traits::SysexTryResizeError(buffer_sz.saturating_sub(2))
                 });
-                if buffer_sz > old_payload_size {
-                    // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
+                if buffer_sz > old_payload_size + 2 {
+                    // erase old end bit and whatever lay beyond it
+                    self.0.specialise_u8_mut()[old_payload_size + 1..buffer_sz].fill(0);
                 }
                 self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
                 result
-- 
2.43.0


From 877a12794f3074ba0d49466e9a0e9e5196093ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:13 +0000
Subject: [PATCH 05/30] fix: growing or shrinking a UMP sysex message leaves no
 stale data in its packets

---
 midi2/src/sysex7.rs | 11 ++++++++++-
 midi2/src/sysex8.rs |  9 +++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 3d320f2..54f10e1 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -591,7 +591,7 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 let buffer_index = 2 * (payload_index / 6);
                 let byte_index = payload_index % 6;
                 self.0.specialise_u32_mut()[buffer_index + (byte_index + 2) / 4]
-                    .set_septet((byte_index + 2) % 4, datum);
+                    .set_octet((byte_index + 2) % 4, datum.into());
             }
             _ => unreachable!(),
         }
@@ -739,6 +739,8 @@ fn try_resize_ump<
 ) -> Result<(), crate::traits::SysexTryResizeError> {
     use ux::u4;
 
+    let old_payload_size = sysex.payload_size();
+
     let mut buffer_size = buffer_size_from_payload_size_ump(payload_size);
     let resize_result = try_resize_buffer(sysex, buffer_size);
     if resize_result.is_err() {
@@ -800,6 +802,13 @@ fn try_resize_ump<
         }
     }
 
+    if payload_size != old_payload_size {
+        // zero off newly exposed data and the unused end of the last packet
+        for i in old_payload_size.min(payload_size)..6 * (buffer_size / 2) {
+            sysex.write_datum(Default::default(), i);
+        }
+    }
+
     resize_result.map_err(|_| crate::traits::SysexTryResizeError(payload_size))
 }
 
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index f28e00b..24ce3e2 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -502,6 +502,8 @@ fn try_resize<
 ) -> Result<(), crate::traits::SysexTryResizeError> {
     use ux::u4;
 
+    let old_payload_size = sysex.payload_size();
+
     let mut buffer_size = buffer_size_from_payload_size(payload_size);
     let resize_result = try_resize_buffer(sysex, buffer_size);
     if resize_result.is_err() {
@@ -567,6 +569,13 @@ fn try_resize<
         }
     }
 
+    if payload_size != old_payload_size {
+        // zero off newly exposed data and the unused end of the last packet
+        for i in old_payload_size.min(payload_size)..13 * (buffer_size / 4) {
+            sysex.write_datum(Default::default(), i);
+        }
+    }
+
     resize_result.map_err(|_| crate::traits::SysexTryResizeError(payload_size))
 }
 
-- 
2.43.0


From ce43219b3edd6ca6dabccffb41a36fbcf34222a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:49 +0000
Subject: [PATCH 06/30] fix: failed growth of a sysex splice no longer
 miscounts the room left

---
 midi2/src/detail/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 148bfb1..8486f2c 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -229,7 +229,7 @@ mod detail {
                     ) {
                         // failed. we'll work with what we've got
                         running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
-                        to = splice_begin + running_data_size_estimate - splice_size;
+                        to = splice_begin + running_data_size_estimate;
                     };
                 }
 
-- 
2.43.0


From e4fa3a4aba8645855d17af1f2ef26dc263c5b7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:41 +0000
Subject: [PATCH 07/30] fix: a refused over-estimate no longer makes a sysex
 splice report overflow while there is room

---
 midi2/src/detail/helpers.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 8486f2c..7e55466 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -223,10 +223,21 @@ mod detail {
                     // resize to make more space
                     // and move tail
 
-                    if let Err(SysexTryResizeError(sz)) = resize(
+                    let mut result = resize(
                         sysex,
                         running_data_size_estimate + initial_size - splice_size,
-                    ) {
+                    );
+                    if result.is_err() && running_data_size_estimate > written + 1 {
+                        // failed. perhaps there is still room for the next byte
+                        additional_size_for_overflow = 1;
+                        running_data_size_estimate = written + 1;
+                        to = splice_begin + running_data_size_estimate;
+                        result = resize(
+                            sysex,
+                            running_data_size_estimate + initial_size - splice_size,
+                        );
+                    }
+                    if let Err(SysexTryResizeError(sz)) = result {
                         // failed. we'll work with what we've got
                         running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
                         to = splice_begin + running_data_size_estimate;
-- 
2.43.0


From 3b341618935848c11461cd94274fc1392222ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:52 +0000
Subject: [PATCH 08/30] fix: text byte iterators yield every byte of the
 message and nothing beyond it

---
 midi2/src/flex_data/text.rs                 | 8 +++++---
 midi2/src/ump_stream.rs                     | 7 +++++--
 midi2/src/ump_stream/function_block_name.rs | 2 +-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index d097c26..99d5ca9 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -135,7 +135,9 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 12, Some(self.buffer.len() * 12))
+        // null bytes are skipped
+        let upper = (self.buffer.len() / 4 - self.packet_index) * 12 - self.byte_index;
+        (0, Some(upper))
     }
 }
 
@@ -143,7 +145,7 @@ impl core::iter::FusedIterator for TextBytesIterator<'_> {}
 
 impl TextBytesIterator<'_> {
     fn finished(&self) -> bool {
-        self.packet_index == self.buffer.len() / 4 - 1 && self.byte_index == 11
+        self.buffer.len() / 4 <= self.packet_index
     }
     fn advance(&mut self) {
         self.byte_index += 1;
@@ -170,7 +172,7 @@ impl<'a, B: Ump> Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: &buffer.buffer()[..flex_data::flex_data_dyn_size(buffer)],
             packet_index: 0,
             byte_index: 0,
         }
diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 8123312..b6df5ae 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -271,7 +271,10 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 14, Some(self.buffer.len() * 14))
+        // null bytes are skipped
+        let packets = self.buffer.len() / 4 - self.packet_index;
+        let upper = packets * (14 - self.offset) - self.byte_index;
+        (0, Some(upper))
     }
 }
 
@@ -306,7 +309,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: &buffer.buffer()[..message_size(buffer)],
             packet_index: 0,
             byte_index: 0,
             offset: 0,
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 04f0d4b..986006f 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -89,7 +89,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         ump_stream::TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: &buffer.buffer()[..ump_stream::message_size(buffer)],
             packet_index: 0,
             byte_index: 0,
             offset: 1,
-- 
2.43.0


From 3f9ac56b0e3b82c7475fe66a3e8db7f638ac9699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:20 +0000
Subject: [PATCH 09/30] fix: flex data text keeps one channel across all its
 packets, on write and on receipt

---
 midi2/src/flex_data.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 13ad909..1d473dc 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -1016,16 +1016,32 @@ impl<'a, B: Ump> ReadProperty<'a, B> for OptionalChannelProperty {
     fn read(buffer: &'a B) -> Self::Type {
         optional_channel_from_slice(buffer.buffer())
     }
-    fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
-        Ok(())
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        let channel = optional_channel_from_slice(buffer.buffer());
+        if buffer
+            .buffer()
+            .chunks_exact(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
+            .all(|packet| optional_channel_from_slice(packet) == channel)
+        {
+            Ok(())
+        } else {
+            Err(crate::error::InvalidData(
+                "Inconsistent channels across packets",
+            ))
+        }
     }
 }
 
 impl<B: Ump + BufferMut> WriteProperty<B> for OptionalChannelProperty {
     fn write(buffer: &mut B, v: Self::Type) {
-        let buffer_slice = buffer.buffer_mut();
-        let data = buffer_slice;
-        optional_channel_to_slice(data, v);
+        for packet in buffer
+            .buffer_mut()
+            .chunks_exact_mut(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
+        {
+            optional_channel_to_slice(packet, v);
+        }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
         Ok(())
-- 
2.43.0


From 2cd89c72012c59acca4ccb730b6c0a3f48d30562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:16 +0000
Subject: [PATCH 10/30] fix: a provided buffer is zeroed whole at
 initialization, so stale words cannot pass for packets

---
 midi2_proc/src/generate_message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi2_proc/src/generate_message.rs b/midi2_proc/src/generate_message.rs
index 6264864..4200bfc 100644
--- a/midi2_proc/src/generate_message.rs
+++ b/midi2_proc/src/generate_message.rs
@@ -514,7 +514,7 @@ fn new_with_buffer_impl(
                 let buffer_ref_mut = &mut buffer;
                 let sz = <Self as crate::traits::MinSize<B>>::MIN_SIZE;
                 buffer_ref_mut.resize(sz);
-                for b in &mut buffer_ref_mut.buffer_mut()[..sz] {
+                for b in buffer_ref_mut.buffer_mut() {
                     *b = <<B as crate::buffer::Buffer>::Unit as crate::buffer::Unit>::zero();
                 }
                 #initialise_properties
@@ -544,7 +544,7 @@ fn try_new_with_buffer_impl(
                 let buffer_ref_mut = &mut buffer;
                 let sz = <Self as crate::traits::MinSize<B>>::MIN_SIZE;
                 buffer_ref_mut.try_resize(sz)?;
-                for b in &mut buffer_ref_mut.buffer_mut()[..sz] {
+                for b in buffer_ref_mut.buffer_mut() {
                     *b = <<B as crate::buffer::Buffer>::Unit as crate::buffer::Unit>::zero();
                 }
                 #initialise_properties
-- 
2.43.0


From f610747694df1e4f60cd02ef8e9a707edf83ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:48 +0000
Subject: [PATCH 11/30] fix: every packet of a function block name carries the
 block number, trailing words do not

---
 midi2/src/ump_stream.rs                     | 11 ++++++++---
 midi2/src/ump_stream/function_block_name.rs |  7 ++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index b6df5ae..75f1c51 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -230,7 +230,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.resize(buffer_size);
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(buffer.buffer_mut());
     }
 
@@ -242,7 +242,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.try_resize(buffer_size)?;
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(buffer.buffer_mut());
 
         Ok(())
@@ -401,16 +401,21 @@ fn required_buffer_size_for_str<const OFFSET: usize>(s: &str) -> usize {
     }
 }
 
-fn write_message_header_data(buffer: &mut [u32], size: usize) {
+fn write_message_header_data<const OFFSET: usize>(buffer: &mut [u32], size: usize) {
     use crate::detail::BitOps;
     use crate::ux::u4;
 
     let status = status_from_buffer(buffer);
+    let leading_octet = buffer[0].octet(2);
 
     for packet in buffer[..size].chunks_exact_mut(4) {
         packet[0].set_nibble(0, u4::new(UMP_MESSAGE_TYPE));
         packet[0] &= !0x03FF_0000;
         packet[0] |= (status as u32) << 16;
+        if OFFSET > 0 {
+            // fields which precede the text are common to all packets
+            packet[0].set_octet(2, leading_octet);
+        }
     }
 
     for packet in buffer[size..].chunks_exact_mut(4) {
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 986006f..66b3111 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -50,6 +50,7 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for FunctionBlockProperty {
         if !buffer
             .buffer()
             .chunks_exact(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
             .all(|packet| packet[0].octet(2) == function_block)
         {
             Err(crate::error::InvalidData(
@@ -74,7 +75,11 @@ impl<B: Ump + BufferMut> property::WriteProperty<B> for FunctionBlockProperty {
     }
     fn write(buffer: &mut B, v: Self::Type) {
         use crate::detail::BitOps;
-        for packet in buffer.buffer_mut().chunks_exact_mut(4) {
+        for packet in buffer
+            .buffer_mut()
+            .chunks_exact_mut(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
+        {
             packet[0].set_octet(2, v);
         }
     }
-- 
2.43.0


From 73ba9d6bc4568a033a5ed353de57f3316312477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:51 +0000
Subject: [PATCH 12/30] fix: words after a text or stream message no longer
 decide its status and bank

---
 midi2/src/flex_data.rs  | 2 ++
 midi2/src/ump_stream.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 1d473dc..71257ec 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -929,6 +929,7 @@ impl<'a, const STATUS: u8, B: Ump> ReadProperty<'a, B> for StatusProperty<STATUS
         if buffer
             .buffer()
             .chunks_exact(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
             .all(|packet| packet[0].octet(3) == STATUS)
         {
             Ok(())
@@ -960,6 +961,7 @@ impl<'a, const BANK: u8, B: Ump> ReadProperty<'a, B> for BankProperty<BANK> {
         if buffer
             .buffer()
             .chunks_exact(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
             .all(|packet| packet[0].octet(2) == BANK)
         {
             Ok(())
diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 75f1c51..902ed35 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -126,6 +126,7 @@ impl<'a, const STATUS: u16, B: Ump> property::ReadProperty<'a, B> for StatusProp
         if buffer
             .buffer()
             .chunks_exact(4)
+            .take_while(|packet| (packet[0] >> 28) as u8 == UMP_MESSAGE_TYPE)
             .all(|packet| status_from_buffer(packet) == STATUS)
         {
             Ok(())
-- 
2.43.0


From f4910031449b54732f6215c1707626c3283dde76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:05 +0000
Subject: [PATCH 13/30] fix: a message whose last packet is cut short is
 rejected on receipt

---
 midi2/src/detail/helpers.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 7e55466..207f011 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -31,6 +31,7 @@ pub const ERR_SYSEX_EXPECTED_COMPLETE: &str = "Expected Complete packet";
 pub const ERR_SYSEX_EXPECTED_BEGIN: &str = "Expected Begin packet";
 pub const ERR_SYSEX_EXPECTED_CONTINUE: &str = "Expected Continue packet";
 pub const ERR_SYSEX_EXPECTED_END: &str = "Expected End packet";
+pub const ERR_INCOMPLETE_PACKET: &str = "The last packet is incomplete";
 pub const ERR_EMPTY_MESSAGE: &str = "The message buffer is empty";
 
 // assumes that buffer contains valid messages
@@ -56,10 +57,15 @@ pub fn validate_sysex_group_statuses<
 ) -> Result<(), crate::error::InvalidData> {
     use crate::{detail::BitOps, error::InvalidData};
 
-    let mut iter = buffer
+    let chunks = buffer
         .chunks(stride)
-        .take_while(|chunk| chunk[0].nibble(0) == ump_type)
-        .peekable();
+        .take_while(|chunk| chunk[0].nibble(0) == ump_type);
+
+    if chunks.clone().skip(1).any(|chunk| chunk.len() < stride) {
+        return Err(InvalidData(ERR_INCOMPLETE_PACKET));
+    }
+
+    let mut iter = chunks.peekable();
 
     let Some(first_packet) = iter.next() else {
         return Err(InvalidData(ERR_EMPTY_MESSAGE));
-- 
2.43.0


From 36451d60d0e2cf8ad9afa1de517b7673ed387cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:18 +0000
Subject: [PATCH 14/30] fix: words after a sysex message no longer decide
 whether its packet sizes are valid

---
 midi2/src/sysex7.rs |  1 +
 midi2/src/sysex8.rs | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 54f10e1..fbc77ff 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -173,6 +173,7 @@ impl<'a, B: crate::buffer::Buffer> crate::detail::property::ReadProperty<'a, B>
             if buffer
                 .specialise_u32()
                 .chunks_exact(2)
+                .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE)
                 .any(|p| u8::from(p[0].nibble(3)) > 6)
             {
                 Err(crate::error::InvalidData(ERR_INVALID_PACKET_SIZE))
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 24ce3e2..2c987a7 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -66,10 +66,15 @@ impl<B: crate::buffer::Ump> crate::detail::property::Property<B> for ValidPacket
 impl<'a, B: crate::buffer::Ump> crate::detail::property::ReadProperty<'a, B> for ValidPacketSizes {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer.buffer().chunks_exact(4).any(|p| {
-            let number_bytes = u8::from(p[0].nibble(3));
-            !(1..=14).contains(&number_bytes)
-        }) {
+        if buffer
+            .buffer()
+            .chunks_exact(4)
+            .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE)
+            .any(|p| {
+                let number_bytes = u8::from(p[0].nibble(3));
+                !(1..=14).contains(&number_bytes)
+            })
+        {
             Err(crate::error::InvalidData(
                 ERR_INVALID_NUMBER_OF_PAYLOAD_BYTES,
             ))
-- 
2.43.0


From dd5034263d830ffba39e0d789b18dba547f418fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:58 +0000
Subject: [PATCH 15/30] fix: byte sizes of tune request, time code and song
 position messages

---
 midi2/src/system_common.rs                       | 2 +-
 midi2/src/system_common/song_position_pointer.rs | 2 +-
 midi2/src/system_common/time_code.rs             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/system_common.rs b/midi2/src/system_common.rs
index f3122ac..500ce5e 100644
--- a/midi2/src/system_common.rs
+++ b/midi2/src/system_common.rs
@@ -20,7 +20,7 @@ mod tune_request {
         Via(system_common::SystemCommon),
         FixedSize,
         MinSizeUmp(1),
-        MinSizeBytes(2)
+        MinSizeBytes(1)
     )]
     struct TuneRequest {
         #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
diff --git a/midi2/src/system_common/song_position_pointer.rs b/midi2/src/system_common/song_position_pointer.rs
index ea23dd6..1753655 100644
--- a/midi2/src/system_common/song_position_pointer.rs
+++ b/midi2/src/system_common/song_position_pointer.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF2;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(2)
+    MinSizeBytes(3)
 )]
 struct SongPositionPointer {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
diff --git a/midi2/src/system_common/time_code.rs b/midi2/src/system_common/time_code.rs
index 97ba7cd..74ece8b 100644
--- a/midi2/src/system_common/time_code.rs
+++ b/midi2/src/system_common/time_code.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF1;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(3)
+    MinSizeBytes(2)
 )]
 struct TimeCode {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
-- 
2.43.0


From b6a00e3ccd99c1aeda295bcbe7fdac06f59734df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:58 +0000
Subject: [PATCH 16/30] fix: a key signature of zero flats no longer panics

---
 midi2/src/flex_data/set_key_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/flex_data/set_key_signature.rs b/midi2/src/flex_data/set_key_signature.rs
index e45f479..9845121 100644
--- a/midi2/src/flex_data/set_key_signature.rs
+++ b/midi2/src/flex_data/set_key_signature.rs
@@ -76,7 +76,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             0,
             match v {
                 SharpsFlats::Sharps(v) => u4::from(v),
-                SharpsFlats::Flats(v) => u4::new((!u8::from(v) & 0b0000_1111) + 1),
+                SharpsFlats::Flats(v) => u4::new(u8::from(v).wrapping_neg() & 0b0000_1111),
                 SharpsFlats::NonStandard => u4::new(0x8),
             },
         );
-- 
2.43.0


From 230158b5a233c1828ba635ef97a2e3b4ba071b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:58 +0000
Subject: [PATCH 17/30] fix: detach and reset flags of per-note management are
 at their specified bits

---
 midi2/src/channel_voice2/per_note_management.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi2/src/channel_voice2/per_note_management.rs b/midi2/src/channel_voice2/per_note_management.rs
index 5e98455..c3b8fb0 100644
--- a/midi2/src/channel_voice2/per_note_management.rs
+++ b/midi2/src/channel_voice2/per_note_management.rs
@@ -21,9 +21,9 @@ struct PerNoteManagement {
     group: u4,
     #[property(common_properties::UmpSchemaProperty<u7, schema::Ump<0x0000_7F00, 0x0, 0x0, 0x0>>)]
     note_number: u7,
-    #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0x0000_0001, 0x0, 0x0, 0x0>>)]
-    detach: bool,
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0x0000_0002, 0x0, 0x0, 0x0>>)]
+    detach: bool,
+    #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0x0000_0001, 0x0, 0x0, 0x0>>)]
     reset: bool,
 }
 
-- 
2.43.0


From 2477a0c9369b31c00b598c78e3235abf45843cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:58 +0000
Subject: [PATCH 18/30] fix: chorus send level and effect depth 5 per-note
 controllers can be set

---
 midi2/src/channel_voice2/controller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/midi2/src/channel_voice2/controller.rs b/midi2/src/channel_voice2/controller.rs
index bf385c5..5073580 100644
--- a/midi2/src/channel_voice2/controller.rs
+++ b/midi2/src/channel_voice2/controller.rs
@@ -118,8 +118,9 @@ pub fn to_index_and_data(c: Controller) -> (u8, u32) {
         Controller::ReverbSendLevel(data) => (91, data),
         Controller::EffectDepth { index: 2, data } => (92, data),
         Controller::EffectDepth { index: 3, data } => (93, data),
-        Controller::ChorusSendLevel(data) => (91, data),
+        Controller::ChorusSendLevel(data) => (93, data),
         Controller::EffectDepth { index: 4, data } => (94, data),
+        Controller::EffectDepth { index: 5, data } => (95, data),
         _ => unreachable!(),
     }
 }
-- 
2.43.0


From a7cf1fdff4ebe884bd0dd365dafc565ad87c7595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 19/30] fix: clearing a note attribute clears its data

---
 midi2/src/channel_voice2/attribute.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/midi2/src/channel_voice2/attribute.rs b/midi2/src/channel_voice2/attribute.rs
index cd2de49..5fb7f19 100644
--- a/midi2/src/channel_voice2/attribute.rs
+++ b/midi2/src/channel_voice2/attribute.rs
@@ -36,6 +36,7 @@ pub fn write_attribute(bytes: &mut [u32], attr: Option<Attribute>) -> &mut [u32]
     match attr {
         None => {
             bytes[0].set_octet(3, 0x0);
+            bytes[1].set_word(1, 0x0);
         }
         Some(a) => match a {
             Attribute::ManufacturerSpecific(d) => {
-- 
2.43.0


From 9f5f6bf4fbacd6bde614ad3653dd4b1ce67d9cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:30 +0000
Subject: [PATCH 20/30] fix: sysex payload iterators survive jumps past the end
 and report exact sizes

---
 midi2/src/sysex7.rs | 21 +++++++++++----------
 midi2/src/sysex8.rs | 16 ++++++++--------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index fbc77ff..81df078 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -894,10 +894,17 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
         match U::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
-                self.payload_index += n;
+                self.payload_index = self.payload_index.saturating_add(n).min(self.data.len());
                 self.next()
             }
             crate::buffer::UNIT_ID_U32 => {
+                if n >= self.size_cache {
+                    // we ran out of data
+                    // so we set the iterator into finished state
+                    self.size_cache = 0;
+                    return None;
+                }
+
                 let mut do_nth = || {
                     let mut packets = self.data_ump()[self.packet_index * 2..]
                         .chunks_exact(2)
@@ -936,14 +943,7 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
                     self.next()
                 };
 
-                let ret = do_nth();
-                if ret.is_none() {
-                    // if we failed it means we ran out of data
-                    // so we set the iterator into finished state
-                    self.packet_index = self.data.len() / 2;
-                    self.size_cache = 0;
-                }
-                ret
+                do_nth()
             }
             _ => unreachable!(),
         }
@@ -957,7 +957,8 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.size_cache, Some(self.size_cache))
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 2c987a7..087074c 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -239,6 +239,13 @@ impl core::iter::Iterator for PayloadIterator<'_> {
     ///
     /// O(n)
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
+        if n >= self.size_cache {
+            // we ran out of data
+            // so we set the iterator into finished state
+            self.size_cache = 0;
+            return None;
+        }
+
         let mut do_nth = || {
             let mut packets = self.data[self.packet_index * 4..]
                 .chunks_exact(4)
@@ -277,14 +284,7 @@ impl core::iter::Iterator for PayloadIterator<'_> {
             self.next()
         };
 
-        let ret = do_nth();
-        if ret.is_none() {
-            // if we failed it means we ran out of data
-            // so we set the iterator into finished state
-            self.packet_index = self.data.len() / 2;
-            self.size_cache = 0;
-        }
-        ret
+        do_nth()
     }
 
     fn count(self) -> usize
-- 
2.43.0


From 5d5b6931422d7b53ec01ae8dee4fa4b1c629e5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:30 +0000
Subject: [PATCH 21/30] fix: sysex packet payload iterators count jumps exactly

---
 midi2/src/sysex7/packet.rs | 4 ++--
 midi2/src/sysex8/packet.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/midi2/src/sysex7/packet.rs b/midi2/src/sysex7/packet.rs
index 9797cd6..9bf11e4 100644
--- a/midi2/src/sysex7/packet.rs
+++ b/midi2/src/sysex7/packet.rs
@@ -94,8 +94,8 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index = (self.index + n).min(6);
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 2) / 4].septet((self.index + n + 2) % 4);
diff --git a/midi2/src/sysex8/packet.rs b/midi2/src/sysex8/packet.rs
index 21a807e..98f2afc 100644
--- a/midi2/src/sysex8/packet.rs
+++ b/midi2/src/sysex8/packet.rs
@@ -122,12 +122,12 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index += n;
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 3) / 4].octet((self.index + n + 3) % 4);
-        self.index = (self.index + n).min(13);
+        self.index += n + 1;
         Some(v)
     }
 
-- 
2.43.0


From 28b3989b33105e743737c9978a2100ef705faff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:18 +0000
Subject: [PATCH 22/30] fix: the flex data aggregate recognises accompanying
 performer, recording date and location

---
 midi2/src/flex_data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 71257ec..0ccb930 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -874,11 +874,11 @@ impl<'a> TryFrom<&'a [u32]> for FlexData<&'a [u32]> {
             0x01_09 => PrimaryPerformerName(
                 primary_performer_name::PrimaryPerformerName::try_from(value)?,
             ),
-            0x01_10 => AccompanyingPerformerName(
+            0x01_0A => AccompanyingPerformerName(
                 accompanying_performer_name::AccompanyingPerformerName::try_from(value)?,
             ),
-            0x01_11 => RecordingDate(recording_date::RecordingDate::try_from(value)?),
-            0x01_12 => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
+            0x01_0B => RecordingDate(recording_date::RecordingDate::try_from(value)?),
+            0x01_0C => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
             0x02_00 => UnknownPerformanceText(
                 unknown_performance_text::UnknownPerformanceText::try_from(value)?,
             ),
-- 
2.43.0


From 79febe7a205a61bf8da9054421eae2c3c323b513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:15 +0000
Subject: [PATCH 23/30] fix: sysex8 packets with an impossible size are
 rejected

---
 midi2/src/sysex8/packet.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/midi2/src/sysex8/packet.rs b/midi2/src/sysex8/packet.rs
index 98f2afc..caca3ae 100644
--- a/midi2/src/sysex8/packet.rs
+++ b/midi2/src/sysex8/packet.rs
@@ -31,7 +31,12 @@ impl<'a> core::convert::TryFrom<&'a [u32]> for Packet {
             ));
         }
 
-        status_from_data(data)?;
+        let status = status_from_data(data)?;
+        match u8::from(data[0].nibble(3)) {
+            0x1..=0xE => (),
+            0xF if status == Status::UnexpectedEnd(PreviousDataValidity::Invalid) => (),
+            _ => return Err(error::InvalidData("Invalid SysEx8 packet size")),
+        }
 
         Ok(Packet({
             let mut buffer = [0x0; 4];
@@ -152,9 +157,11 @@ impl core::iter::ExactSizeIterator for PayloadIterator<'_> {
 impl PayloadIterator<'_> {
     fn packet_size(&self) -> usize {
         use crate::detail::BitOps;
-        let len = u8::from(self.data[0].nibble(3)) as usize - 1;
-        debug_assert!(len <= 13);
-        len
+        match u8::from(self.data[0].nibble(3)) {
+            // unexpected end with invalid data. there is no payload
+            0xF => 0,
+            size => size as usize - 1,
+        }
     }
 }
 
-- 
2.43.0


From 24890040051c943e77c7550307aa9644e89eb20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:15 +0000
Subject: [PATCH 24/30] fix: sysex7 byte messages with a status byte inside the
 data are rejected

---
 midi2/src/sysex7.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 81df078..d1f82c8 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -98,7 +98,9 @@ impl<'a, B: crate::buffer::Buffer> crate::detail::property::ReadProperty<'a, B>
             crate::buffer::UNIT_ID_U8 => buffer
                 .specialise_u8()
                 .iter()
-                .position(|b| *b == 0xF7)
+                .skip(1)
+                .find(|b| **b >= 0x80)
+                .filter(|b| **b == END_BYTE)
                 .map(|_| ())
                 .ok_or(crate::error::InvalidData(ERR_NO_END_BYTE)),
             crate::buffer::UNIT_ID_U32 => Ok(()),
-- 
2.43.0


From 0cf8d1b151628dd3298c19663b738c1adfed2970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:17 +0000
Subject: [PATCH 25/30] fix: fixed size stream messages consist of one complete
 packet

---
 midi2/src/ump_stream.rs                       | 34 +++++++++++++++++++
 midi2/src/ump_stream/device_identity.rs       |  2 +-
 midi2/src/ump_stream/end_of_clip.rs           |  2 +-
 midi2/src/ump_stream/endpoint_discovery.rs    |  2 +-
 midi2/src/ump_stream/endpoint_info.rs         |  2 +-
 .../ump_stream/function_block_discovery.rs    |  2 +-
 midi2/src/ump_stream/function_block_info.rs   |  2 +-
 midi2/src/ump_stream/start_of_clip.rs         |  2 +-
 .../stream_configuration_notification.rs      |  2 +-
 .../stream_configuration_request.rs           |  2 +-
 10 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 902ed35..a7010fb 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -184,6 +184,40 @@ impl<B: Ump + BufferMut> property::WriteProperty<B> for ConsistentFormatsPropert
     }
 }
 
+// Fixed size messages consist of a single complete packet
+struct CompleteFormatProperty;
+
+impl<B: Ump> property::Property<B> for CompleteFormatProperty {
+    type Type = ();
+}
+
+impl<'a, B: Ump> property::ReadProperty<'a, B> for CompleteFormatProperty {
+    fn read(_buffer: &'a B) -> Self::Type {}
+
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        use crate::detail::BitOps;
+
+        <ConsistentFormatsProperty as property::ReadProperty<B>>::validate(buffer)?;
+        if u8::from(buffer.buffer()[0].crumb(2)) == COMPLETE_FORMAT {
+            Ok(())
+        } else {
+            Err(crate::error::InvalidData(
+                crate::detail::helpers::ERR_SYSEX_EXPECTED_COMPLETE,
+            ))
+        }
+    }
+}
+
+impl<B: Ump + BufferMut> property::WriteProperty<B> for CompleteFormatProperty {
+    fn default() -> Self::Type {}
+    fn write(buffer: &mut B, _v: Self::Type) {
+        set_format_fields(buffer.buffer_mut())
+    }
+    fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
+        Ok(())
+    }
+}
+
 struct TextWriteStrProperty<'a, const OFFSET: usize>(core::marker::PhantomData<&'a u8>);
 
 impl<'a, const OFFSET: usize, B: Ump> property::Property<B> for TextWriteStrProperty<'a, OFFSET> {
diff --git a/midi2/src/ump_stream/device_identity.rs b/midi2/src/ump_stream/device_identity.rs
index 3718afd..97a3d3b 100644
--- a/midi2/src/ump_stream/device_identity.rs
+++ b/midi2/src/ump_stream/device_identity.rs
@@ -13,7 +13,7 @@ struct DeviceIdentity {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
+    #[property(ump_stream::CompleteFormatProperty)]
     consistent_formats: (),
     #[property(common_properties::UmpSchemaProperty<[u7; 3], schema::Ump<0x0, 0x007F_7F7F, 0x0, 0x0>>)]
     device_manufacturer: [u7; 3],
diff --git a/midi2/src/ump_stream/end_of_clip.rs b/midi2/src/ump_stream/end_of_clip.rs
index 91e151d..597f22b 100644
--- a/midi2/src/ump_stream/end_of_clip.rs
+++ b/midi2/src/ump_stream/end_of_clip.rs
@@ -8,7 +8,7 @@ struct EndOfClip {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
+    #[property(ump_stream::CompleteFormatProperty)]
     consistent_formats: (),
 }
 
diff --git a/midi2/src/ump_stream/endpoint_discovery.rs b/midi2/src/ump_stream/endpoint_discovery.rs
index 2a2e782..5d2ca5b 100644
--- a/midi2/src/ump_stream/endpoint_discovery.rs
+++ b/midi2/src/ump_stream/endpoint_discovery.rs
@@ -12,7 +12,7 @@ struct EndpointDiscovery {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
+    #[property(ump_stream::CompleteFormatProperty)]
     consistent_formats: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     ump_version_major: u8,
diff --git a/midi2/src/ump_stream/endpoint_info.rs b/midi2/src/ump_stream/endpoint_info.rs
index 0d1dc37..aeef621 100644
--- a/midi2/src/ump_stream/endpoint_info.rs
+++ b/midi2/src/ump_stream/endpoint_info.rs
@@ -13,7 +13,7 @@ struct EndpointInfo {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
+    #[property(ump_stream::CompleteFormatProperty)]
     consistent_formats: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     ump_version_major: u8,
diff --git a/midi2/src/ump_stream/function_block_discovery.rs b/midi2/src/ump_stream/function_block_discovery.rs
index 78c7595..84430ab 100644
--- a/midi2/src/ump_stream/function_block_discovery.rs
+++ b/midi2/src/ump_stream/function_block_discovery.rs
@@ -12,7 +12,7 @@ struct FunctionBlockDiscovery {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
+    #[property(ump_stream::CompleteFormatProperty)]
     consistent_formats: (),
 
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/function_block_info.rs b/midi2/src/ump_stream/function_block_info.rs
index 410945b..a0b10ab 100644
--- a/midi2/src/ump_stream/function_block_info.rs
+++ b/midi2/src/ump_stream/function_block_info.rs
@@ -13,7 +13,7 @@ struct FunctionBlockInfo {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
+    #[property(ump_stream::CompleteFormatProperty)]
     consistent_formats: (),
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_1000_0000_0000_0000, 0x0, 0x0, 0x0>>)]
     active: bool,
diff --git a/midi2/src/ump_stream/start_of_clip.rs b/midi2/src/ump_stream/start_of_clip.rs
index ac94fb9..40f9505 100644
--- a/midi2/src/ump_stream/start_of_clip.rs
+++ b/midi2/src/ump_stream/start_of_clip.rs
@@ -8,7 +8,7 @@ struct StartOfClip {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
+    #[property(ump_stream::CompleteFormatProperty)]
     consistent_formats: (),
 }
 
diff --git a/midi2/src/ump_stream/stream_configuration_notification.rs b/midi2/src/ump_stream/stream_configuration_notification.rs
index 554bdeb..e97bfff 100644
--- a/midi2/src/ump_stream/stream_configuration_notification.rs
+++ b/midi2/src/ump_stream/stream_configuration_notification.rs
@@ -12,7 +12,7 @@ struct StreamConfigurationNotification {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
+    #[property(ump_stream::CompleteFormatProperty)]
     consistent_formats: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     protocol: u8,
diff --git a/midi2/src/ump_stream/stream_configuration_request.rs b/midi2/src/ump_stream/stream_configuration_request.rs
index 8cf3879..f9fdc4d 100644
--- a/midi2/src/ump_stream/stream_configuration_request.rs
+++ b/midi2/src/ump_stream/stream_configuration_request.rs
@@ -12,7 +12,7 @@ struct StreamConfigurationRequest {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
+    #[property(ump_stream::CompleteFormatProperty)]
     consistent_formats: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     protocol: u8,
-- 
2.43.0


From 5749895749831ba83a180c1530603ff2ade06f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:21 +0000
Subject: [PATCH 26/30] fix: a fallible move only needs room for the message
 itself

---
 midi2/src/buffer.rs                | 67 ++++++++++++++++++++++--------
 midi2_proc/src/generate_message.rs |  3 +-
 2 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/midi2/src/buffer.rs b/midi2/src/buffer.rs
index cfffac5..a60b634 100644
--- a/midi2/src/buffer.rs
+++ b/midi2/src/buffer.rs
@@ -210,6 +210,16 @@ where
 /// For more info see the [buffer module docs](crate::buffer).
 pub trait TryFromBuffer<T>: Sized {
     fn try_from_buffer(value: T) -> Result<Self, crate::error::BufferOverflow>;
+
+    /// Like [`try_from_buffer`](TryFromBuffer::try_from_buffer) where only the first
+    /// `message_size` units of `value` are needed. Whatever lies beyond them may be dropped
+    /// if there isn't room for it.
+    fn try_from_message_buffer(
+        value: T,
+        _message_size: usize,
+    ) -> Result<Self, crate::error::BufferOverflow> {
+        Self::try_from_buffer(value)
+    }
 }
 
 /// Allow messages to convert between different backing buffers with the possibility
@@ -365,37 +375,58 @@ impl<U: Unit> BufferResize for &mut std::vec::Vec<U> {
 // conversion
 //
 
+fn array_from_slice<const SIZE: usize, U: Unit>(
+    value: &[U],
+    message_size: usize,
+) -> Result<[U; SIZE], crate::error::BufferOverflow> {
+    if message_size > SIZE {
+        return Err(crate::error::BufferOverflow);
+    }
+    // keep what follows the message if there is room for it
+    let size = if value.len() > SIZE {
+        message_size
+    } else {
+        value.len()
+    };
+    let mut buffer = [U::zero(); SIZE];
+    buffer[..size].copy_from_slice(&value[..size]);
+    Ok(buffer)
+}
+
 impl<const SIZE: usize, U: Unit> TryFromBuffer<&[U]> for [U; SIZE] {
     fn try_from_buffer(value: &[U]) -> Result<Self, crate::error::BufferOverflow> {
-        if value.len() > SIZE {
-            return Err(crate::error::BufferOverflow);
-        }
-        let mut buffer = [U::zero(); SIZE];
-        buffer[..value.len()].copy_from_slice(value);
-        Ok(buffer)
+        array_from_slice(value, value.len())
+    }
+    fn try_from_message_buffer(
+        value: &[U],
+        message_size: usize,
+    ) -> Result<Self, crate::error::BufferOverflow> {
+        array_from_slice(value, message_size)
     }
 }
 
 impl<const SIZE: usize, U: Unit> TryFromBuffer<&mut [U]> for [U; SIZE] {
     fn try_from_buffer(value: &mut [U]) -> Result<Self, crate::error::BufferOverflow> {
-        if value.len() > SIZE {
-            return Err(crate::error::BufferOverflow);
-        }
-        let mut buffer = [U::zero(); SIZE];
-        buffer[..value.len()].copy_from_slice(value);
-        Ok(buffer)
+        array_from_slice(value, value.len())
+    }
+    fn try_from_message_buffer(
+        value: &mut [U],
+        message_size: usize,
+    ) -> Result<Self, crate::error::BufferOverflow> {
+        array_from_slice(value, message_size)
     }
 }
 
 #[cfg(any(feature = "std", test))]
 impl<const SIZE: usize, U: Unit> TryFromBuffer<std::vec::Vec<U>> for [U; SIZE] {
     fn try_from_buffer(value: std::vec::Vec<U>) -> Result<Self, crate::error::BufferOverflow> {
-        if value.len() > SIZE {
-            return Err(crate::error::BufferOverflow);
-        }
-        let mut buffer = [U::zero(); SIZE];
-        buffer[..value.len()].copy_from_slice(&value[..]);
-        Ok(buffer)
+        array_from_slice(&value[..], value.len())
+    }
+    fn try_from_message_buffer(
+        value: std::vec::Vec<U>,
+        message_size: usize,
+    ) -> Result<Self, crate::error::BufferOverflow> {
+        array_from_slice(&value[..], message_size)
     }
 }
 
diff --git a/midi2_proc/src/generate_message.rs b/midi2_proc/src/generate_message.rs
index 4200bfc..e1ee38b 100644
--- a/midi2_proc/src/generate_message.rs
+++ b/midi2_proc/src/generate_message.rs
@@ -445,7 +445,8 @@ fn try_rebuffer_from_impl(root_ident: &syn::Ident, args: &GenerateMessageArgs) -
         impl #generics crate::traits::TryRebufferFrom<#root_ident<A>> for #root_ident<B>
         {
             fn try_rebuffer_from(other: #root_ident<A>) -> core::result::Result<Self, crate::error::BufferOverflow> {
-                Ok(#root_ident(<B as crate::buffer::TryFromBuffer<A>>::try_from_buffer(other.0)?))
+                let message_size = other.data().len();
+                Ok(#root_ident(<B as crate::buffer::TryFromBuffer<A>>::try_from_message_buffer(other.0, message_size)?))
             }
         }
     }
-- 
2.43.0


From 988755e477c979ff383f600696d9de88c6131ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 27/30] fix: a discovery query that ends before its fields do
 is rejected

---
 midi2_proc/src/generate_ci.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/midi2_proc/src/generate_ci.rs b/midi2_proc/src/generate_ci.rs
index 3850a26..f319513 100644
--- a/midi2_proc/src/generate_ci.rs
+++ b/midi2_proc/src/generate_ci.rs
@@ -548,6 +548,11 @@ fn try_from_slice_impl(root_ident: &syn::Ident, properties: &[Property]) -> Toke
                     return Err(crate::error::InvalidData("Incorrect CI version"));
                 }
                 let sysex7 = crate::sysex7::Sysex7::try_from(buffer)?;
+                // the message may end before its buffer does
+                let message_size = <crate::sysex7::Sysex7<&[u8]> as crate::traits::Data<&[u8]>>::data(&sysex7).len();
+                if message_size < <Self as crate::traits::MinSize<&[u8]>>::MIN_SIZE {
+                    return Err(crate::error::InvalidData(crate::detail::common_err_strings::ERR_SLICE_TOO_SHORT));
+                }
                 let buffer = sysex7.buffer_access();
                 #validation_steps
                 Ok(#root_ident(sysex7))
-- 
2.43.0


From 1ddb33047e4c9ed357a080583f12391350d377fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:02 +0000
Subject: [PATCH 28/30] fix: receiving a text message no longer allocates to
 check its encoding

---
 midi2/src/detail/helpers.rs                 | 24 +++++++++++++++++++++
 midi2/src/flex_data/text.rs                 | 12 ++++++-----
 midi2/src/ump_stream.rs                     | 12 ++++++-----
 midi2/src/ump_stream/function_block_name.rs | 12 ++++++-----
 4 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 207f011..eae8820 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -6,6 +6,30 @@ pub fn group_from_packet(p: &[u32]) -> crate::ux::u4 {
     p[0].nibble(1)
 }
 
+/// Validates a text one character at a time, so that receiving it needs no allocation.
+#[cfg(all(feature = "std", any(feature = "flex-data", feature = "ump-stream")))]
+pub fn is_utf8(mut bytes: impl Iterator<Item = u8>) -> bool {
+    while let Some(lead) = bytes.next() {
+        let mut character = [lead, 0, 0, 0];
+        let size = match lead {
+            0x00..=0x7F => 1,
+            0xC0..=0xDF => 2,
+            0xE0..=0xEF => 3,
+            _ => 4,
+        };
+        for byte in &mut character[1..size] {
+            match bytes.next() {
+                Some(next) => *byte = next,
+                None => return false,
+            }
+        }
+        if core::str::from_utf8(&character[..size]).is_err() {
+            return false;
+        }
+    }
+    true
+}
+
 pub const ERR_INCONSISTENT_GROUPS: &str = "Inconsistent groups across packets";
 
 #[cfg(any(feature = "sysex7", feature = "sysex8", feature = "flex-data"))]
diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index 99d5ca9..faec492 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -197,10 +197,12 @@ impl<'a, B: Ump> ReadProperty<'a, B> for TextReadStringProperty {
         std::string::String::from_utf8(bytes).unwrap()
     }
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        let bytes = TextReadBytesProperty::read(buffer).collect();
-        std::string::String::from_utf8(bytes).map_err(|_| {
-            crate::error::InvalidData("Payload bytes do not represent a valid utf string")
-        })?;
-        Ok(())
+        if crate::detail::helpers::is_utf8(TextReadBytesProperty::read(buffer)) {
+            Ok(())
+        } else {
+            Err(crate::error::InvalidData(
+                "Payload bytes do not represent a valid utf string",
+            ))
+        }
     }
 }
diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index a7010fb..d6b44ef 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -370,11 +370,13 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for TextReadStringProperty {
         std::string::String::from_utf8(bytes).unwrap()
     }
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        let bytes = TextReadBytesProperty::read(buffer).collect();
-        std::string::String::from_utf8(bytes).map_err(|_| {
-            crate::error::InvalidData("Payload bytes do not represent a valid utf string")
-        })?;
-        Ok(())
+        if crate::detail::helpers::is_utf8(TextReadBytesProperty::read(buffer)) {
+            Ok(())
+        } else {
+            Err(crate::error::InvalidData(
+                "Payload bytes do not represent a valid utf string",
+            ))
+        }
     }
 }
 
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 66b3111..a54f16c 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -120,11 +120,13 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for TextReadStringProperty {
         std::string::String::from_utf8(bytes).unwrap()
     }
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        let bytes = TextReadBytesProperty::read(buffer).collect();
-        std::string::String::from_utf8(bytes).map_err(|_| {
-            crate::error::InvalidData("Payload bytes do not represent a valid utf string")
-        })?;
-        Ok(())
+        if crate::detail::helpers::is_utf8(TextReadBytesProperty::read(buffer)) {
+            Ok(())
+        } else {
+            Err(crate::error::InvalidData(
+                "Payload bytes do not represent a valid utf string",
+            ))
+        }
     }
 }
 
-- 
2.43.0


From 6623ce354a4b73de3581f023c66eaa4bd3243a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:25 +0000
Subject: [PATCH 29/30] fix: text messages that are not UTF-8 are rejected
 without std too

Validation hung on the text getter that returns a String, which only exists
with the standard library. The text bytes now validate themselves.
---
 midi2/src/detail/helpers.rs                 |  2 +-
 midi2/src/flex_data/text.rs                 | 21 +++++++++++----------
 midi2/src/ump_stream.rs                     | 21 +++++++++++----------
 midi2/src/ump_stream/function_block_name.rs | 21 +++++++++++----------
 4 files changed, 34 insertions(+), 31 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index eae8820..39c60a0 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -7,7 +7,7 @@ pub fn group_from_packet(p: &[u32]) -> crate::ux::u4 {
 }
 
 /// Validates a text one character at a time, so that receiving it needs no allocation.
-#[cfg(all(feature = "std", any(feature = "flex-data", feature = "ump-stream")))]
+#[cfg(any(feature = "flex-data", feature = "ump-stream"))]
 pub fn is_utf8(mut bytes: impl Iterator<Item = u8>) -> bool {
     while let Some(lead) = bytes.next() {
         let mut character = [lead, 0, 0, 0];
diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index faec492..cc33fa5 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -177,8 +177,14 @@ impl<'a, B: 'a + Ump> ReadProperty<'a, B> for TextReadBytesProperty<'a> {
             byte_index: 0,
         }
     }
-    fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
-        Ok(())
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        if crate::detail::helpers::is_utf8(TextReadBytesProperty::read(buffer)) {
+            Ok(())
+        } else {
+            Err(crate::error::InvalidData(
+                "Payload bytes do not represent a valid utf string",
+            ))
+        }
     }
 }
 
@@ -196,13 +202,8 @@ impl<'a, B: Ump> ReadProperty<'a, B> for TextReadStringProperty {
         let bytes = TextReadBytesProperty::read(buffer).collect();
         std::string::String::from_utf8(bytes).unwrap()
     }
-    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if crate::detail::helpers::is_utf8(TextReadBytesProperty::read(buffer)) {
-            Ok(())
-        } else {
-            Err(crate::error::InvalidData(
-                "Payload bytes do not represent a valid utf string",
-            ))
-        }
+    fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
+        // the text bytes validate themselves
+        Ok(())
     }
 }
diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index d6b44ef..5a379a7 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -350,8 +350,14 @@ impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a
             offset: 0,
         }
     }
-    fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
-        Ok(())
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        if crate::detail::helpers::is_utf8(TextReadBytesProperty::read(buffer)) {
+            Ok(())
+        } else {
+            Err(crate::error::InvalidData(
+                "Payload bytes do not represent a valid utf string",
+            ))
+        }
     }
 }
 
@@ -369,14 +375,9 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for TextReadStringProperty {
         let bytes = TextReadBytesProperty::read(buffer).collect();
         std::string::String::from_utf8(bytes).unwrap()
     }
-    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if crate::detail::helpers::is_utf8(TextReadBytesProperty::read(buffer)) {
-            Ok(())
-        } else {
-            Err(crate::error::InvalidData(
-                "Payload bytes do not represent a valid utf string",
-            ))
-        }
+    fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
+        // the text bytes validate themselves
+        Ok(())
     }
 }
 
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index a54f16c..0ed794d 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -100,8 +100,14 @@ impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a
             offset: 1,
         }
     }
-    fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
-        Ok(())
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        if crate::detail::helpers::is_utf8(TextReadBytesProperty::read(buffer)) {
+            Ok(())
+        } else {
+            Err(crate::error::InvalidData(
+                "Payload bytes do not represent a valid utf string",
+            ))
+        }
     }
 }
 
@@ -119,14 +125,9 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for TextReadStringProperty {
         let bytes = TextReadBytesProperty::read(buffer).collect();
         std::string::String::from_utf8(bytes).unwrap()
     }
-    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if crate::detail::helpers::is_utf8(TextReadBytesProperty::read(buffer)) {
-            Ok(())
-        } else {
-            Err(crate::error::InvalidData(
-                "Payload bytes do not represent a valid utf string",
-            ))
-        }
+    fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
+        // the text bytes validate themselves
+        Ok(())
     }
 }
 
-- 
2.43.0


From 3f23ff3993171d7c73fa60c8be0b0d1816531277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:09 +0000
Subject: [PATCH 30/30] fix: a loose upper size bound of a sysex payload source
 is no longer taken for its size

---
 midi2/src/detail/helpers.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 39c60a0..7f6e762 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -200,11 +200,9 @@ mod detail {
         };
         let splice_size = splice_end - splice_begin;
 
-        let mut running_data_size_estimate = match data.size_hint() {
-            (_, Some(upper)) => upper,
-            // not the optimal case - could lead to additional copying
-            (lower, None) => lower,
-        };
+        // the upper bound may be far beyond what the data turns out to be
+        // when it isn't exact this could lead to additional copying
+        let (mut running_data_size_estimate, _) = data.size_hint();
         let mut written = 0;
         let mut additional_size_for_overflow = 1;
         let mut data = data.peekable();
-- 
2.43.0

