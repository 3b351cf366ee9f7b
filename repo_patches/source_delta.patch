From eb74a278e95d36a54347ff5aa9c7e1014bf6b765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 01/24] fix: minimum byte sizes of system common messages

A song position pointer has two data bytes, a time code one and a tune
request none. Too short slices were accepted and then panicked when read,
and valid ones were refused.
---
 midi2/src/system_common.rs                       | 2 +-
 midi2/src/system_common/song_position_pointer.rs | 2 +-
 midi2/src/system_common/time_code.rs             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/system_common.rs b/midi2/src/system_common.rs
index f3122ac..500ce5e 100644
--- a/midi2/src/system_common.rs
+++ b/midi2/src/system_common.rs
@@ -20,7 +20,7 @@ mod tune_request {
         Via(system_common::SystemCommon),
         FixedSize,
         MinSizeUmp(1),
-        MinSizeBytes(2)
+        MinSizeBytes(1)
     )]
     struct TuneRequest {
         #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
diff --git a/midi2/src/system_common/song_position_pointer.rs b/midi2/src/system_common/song_position_pointer.rs
index ea23dd6..1753655 100644
--- a/midi2/src/system_common/song_position_pointer.rs
+++ b/midi2/src/system_common/song_position_pointer.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF2;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(2)
+    MinSizeBytes(3)
 )]
 struct SongPositionPointer {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
diff --git a/midi2/src/system_common/time_code.rs b/midi2/src/system_common/time_code.rs
index 97ba7cd..74ece8b 100644
--- a/midi2/src/system_common/time_code.rs
+++ b/midi2/src/system_common/time_code.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF1;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(3)
+    MinSizeBytes(2)
 )]
 struct TimeCode {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
-- 
2.43.0


From dbae057c287dd033a3a9a6e14b79a5c3d6143ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:59 +0000
Subject: [PATCH 02/24] fix: controller indices of chorus send level and effect
 depth 5

ChorusSendLevel was written with the index of ReverbSendLevel (91 instead
of 93), and writing EffectDepth 5 back into a message panicked.
---
 midi2/src/channel_voice2/controller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/midi2/src/channel_voice2/controller.rs b/midi2/src/channel_voice2/controller.rs
index bf385c5..5073580 100644
--- a/midi2/src/channel_voice2/controller.rs
+++ b/midi2/src/channel_voice2/controller.rs
@@ -118,8 +118,9 @@ pub fn to_index_and_data(c: Controller) -> (u8, u32) {
         Controller::ReverbSendLevel(data) => (91, data),
         Controller::EffectDepth { index: 2, data } => (92, data),
         Controller::EffectDepth { index: 3, data } => (93, data),
-        Controller::ChorusSendLevel(data) => (91, data),
+        Controller::ChorusSendLevel(data) => (93, data),
         Controller::EffectDepth { index: 4, data } => (94, data),
+        Controller::EffectDepth { index: 5, data } => (95, data),
         _ => unreachable!(),
     }
 }
-- 
2.43.0


From 928b927416290d943e083b06446a342854747093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 03/24] fix: positions of the detach and reset flags in
 per-note management

The MIDI 2.0 protocol defines bit 1 as detach and bit 0 as reset.
---
 midi2/src/channel_voice2/per_note_management.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi2/src/channel_voice2/per_note_management.rs b/midi2/src/channel_voice2/per_note_management.rs
index 5e98455..c3b8fb0 100644
--- a/midi2/src/channel_voice2/per_note_management.rs
+++ b/midi2/src/channel_voice2/per_note_management.rs
@@ -21,9 +21,9 @@ struct PerNoteManagement {
     group: u4,
     #[property(common_properties::UmpSchemaProperty<u7, schema::Ump<0x0000_7F00, 0x0, 0x0, 0x0>>)]
     note_number: u7,
-    #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0x0000_0001, 0x0, 0x0, 0x0>>)]
-    detach: bool,
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0x0000_0002, 0x0, 0x0, 0x0>>)]
+    detach: bool,
+    #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0x0000_0001, 0x0, 0x0, 0x0>>)]
     reset: bool,
 }
 
-- 
2.43.0


From 8a2c4686be93516ed85f9a3d660813ab98814420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 04/24] fix: setting a key signature of zero flats panicked

---
 midi2/src/flex_data/set_key_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/flex_data/set_key_signature.rs b/midi2/src/flex_data/set_key_signature.rs
index e45f479..9845121 100644
--- a/midi2/src/flex_data/set_key_signature.rs
+++ b/midi2/src/flex_data/set_key_signature.rs
@@ -76,7 +76,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             0,
             match v {
                 SharpsFlats::Sharps(v) => u4::from(v),
-                SharpsFlats::Flats(v) => u4::new((!u8::from(v) & 0b0000_1111) + 1),
+                SharpsFlats::Flats(v) => u4::new(u8::from(v).wrapping_neg() & 0b0000_1111),
                 SharpsFlats::NonStandard => u4::new(0x8),
             },
         );
-- 
2.43.0


From 48f7bf22387c0a68f92c4b21dabeb40200b844f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:34 +0000
Subject: [PATCH 05/24] fix: status codes of three metadata texts in flex data
 dispatch

The accompanying performer name, recording date and recording location
have status 0x0A, 0x0B and 0x0C: FlexData refused messages of these types.
---
 midi2/src/flex_data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 13ad909..7be72ef 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -874,11 +874,11 @@ impl<'a> TryFrom<&'a [u32]> for FlexData<&'a [u32]> {
             0x01_09 => PrimaryPerformerName(
                 primary_performer_name::PrimaryPerformerName::try_from(value)?,
             ),
-            0x01_10 => AccompanyingPerformerName(
+            0x01_0A => AccompanyingPerformerName(
                 accompanying_performer_name::AccompanyingPerformerName::try_from(value)?,
             ),
-            0x01_11 => RecordingDate(recording_date::RecordingDate::try_from(value)?),
-            0x01_12 => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
+            0x01_0B => RecordingDate(recording_date::RecordingDate::try_from(value)?),
+            0x01_0C => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
             0x02_00 => UnknownPerformanceText(
                 unknown_performance_text::UnknownPerformanceText::try_from(value)?,
             ),
-- 
2.43.0


From a9150baf9a5250ff99c34c909f890d2e7f6ba7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:54 +0000
Subject: [PATCH 06/24] fix: single packet stream messages were validated as
 packet sequences

A stream message of fixed size was refused or accepted depending on what
followed it in the slice, could be accepted as the first packet of a longer
sequence, and was built ill-formed in a buffer holding older packets.
---
 midi2/src/ump_stream.rs                       | 33 +++++++++++++++++++
 midi2/src/ump_stream/device_identity.rs       |  4 +--
 midi2/src/ump_stream/end_of_clip.rs           |  4 +--
 midi2/src/ump_stream/endpoint_discovery.rs    |  4 +--
 midi2/src/ump_stream/endpoint_info.rs         |  4 +--
 .../ump_stream/function_block_discovery.rs    |  4 +--
 midi2/src/ump_stream/function_block_info.rs   |  4 +--
 midi2/src/ump_stream/start_of_clip.rs         |  4 +--
 .../stream_configuration_notification.rs      |  4 +--
 .../stream_configuration_request.rs           |  4 +--
 10 files changed, 51 insertions(+), 18 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 8123312..db29e0c 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -183,6 +183,39 @@ impl<B: Ump + BufferMut> property::WriteProperty<B> for ConsistentFormatsPropert
     }
 }
 
+struct CompleteFormatProperty;
+
+impl<B: Ump> property::Property<B> for CompleteFormatProperty {
+    type Type = ();
+}
+
+impl<'a, B: Ump> property::ReadProperty<'a, B> for CompleteFormatProperty {
+    fn read(_buffer: &'a B) -> Self::Type {}
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        use crate::detail::BitOps;
+
+        if u8::from(buffer.buffer()[0].crumb(2)) == COMPLETE_FORMAT {
+            Ok(())
+        } else {
+            Err(crate::error::InvalidData(
+                crate::detail::helpers::ERR_SYSEX_EXPECTED_COMPLETE,
+            ))
+        }
+    }
+}
+
+impl<B: Ump + BufferMut> property::WriteProperty<B> for CompleteFormatProperty {
+    fn default() -> Self::Type {}
+    fn write(buffer: &mut B, _v: Self::Type) {
+        use crate::detail::BitOps;
+
+        buffer.buffer_mut()[0].set_crumb(2, crate::ux::u2::new(COMPLETE_FORMAT));
+    }
+    fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
+        Ok(())
+    }
+}
+
 struct TextWriteStrProperty<'a, const OFFSET: usize>(core::marker::PhantomData<&'a u8>);
 
 impl<'a, const OFFSET: usize, B: Ump> property::Property<B> for TextWriteStrProperty<'a, OFFSET> {
diff --git a/midi2/src/ump_stream/device_identity.rs b/midi2/src/ump_stream/device_identity.rs
index 3718afd..6ffc7e6 100644
--- a/midi2/src/ump_stream/device_identity.rs
+++ b/midi2/src/ump_stream/device_identity.rs
@@ -13,8 +13,8 @@ struct DeviceIdentity {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<[u7; 3], schema::Ump<0x0, 0x007F_7F7F, 0x0, 0x0>>)]
     device_manufacturer: [u7; 3],
     #[property(common_properties::UmpSchemaProperty<u14, schema::Ump<0x0, 0x0, 0x7F7F_0000, 0x0>>)]
diff --git a/midi2/src/ump_stream/end_of_clip.rs b/midi2/src/ump_stream/end_of_clip.rs
index 91e151d..c2490c4 100644
--- a/midi2/src/ump_stream/end_of_clip.rs
+++ b/midi2/src/ump_stream/end_of_clip.rs
@@ -8,8 +8,8 @@ struct EndOfClip {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
 }
 
 #[cfg(test)]
diff --git a/midi2/src/ump_stream/endpoint_discovery.rs b/midi2/src/ump_stream/endpoint_discovery.rs
index 2a2e782..e3a51b7 100644
--- a/midi2/src/ump_stream/endpoint_discovery.rs
+++ b/midi2/src/ump_stream/endpoint_discovery.rs
@@ -12,8 +12,8 @@ struct EndpointDiscovery {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     ump_version_major: u8,
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_00FF, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/endpoint_info.rs b/midi2/src/ump_stream/endpoint_info.rs
index 0d1dc37..ee50688 100644
--- a/midi2/src/ump_stream/endpoint_info.rs
+++ b/midi2/src/ump_stream/endpoint_info.rs
@@ -13,8 +13,8 @@ struct EndpointInfo {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     ump_version_major: u8,
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_00FF, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/function_block_discovery.rs b/midi2/src/ump_stream/function_block_discovery.rs
index 78c7595..5498610 100644
--- a/midi2/src/ump_stream/function_block_discovery.rs
+++ b/midi2/src/ump_stream/function_block_discovery.rs
@@ -12,8 +12,8 @@ struct FunctionBlockDiscovery {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
 
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     function_block_number: u8,
diff --git a/midi2/src/ump_stream/function_block_info.rs b/midi2/src/ump_stream/function_block_info.rs
index 410945b..037a2c9 100644
--- a/midi2/src/ump_stream/function_block_info.rs
+++ b/midi2/src/ump_stream/function_block_info.rs
@@ -13,8 +13,8 @@ struct FunctionBlockInfo {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_1000_0000_0000_0000, 0x0, 0x0, 0x0>>)]
     active: bool,
     #[property(common_properties::UmpSchemaProperty<u7, schema::Ump<0x0000_7F00, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/start_of_clip.rs b/midi2/src/ump_stream/start_of_clip.rs
index ac94fb9..b15c65a 100644
--- a/midi2/src/ump_stream/start_of_clip.rs
+++ b/midi2/src/ump_stream/start_of_clip.rs
@@ -8,8 +8,8 @@ struct StartOfClip {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
 }
 
 #[cfg(test)]
diff --git a/midi2/src/ump_stream/stream_configuration_notification.rs b/midi2/src/ump_stream/stream_configuration_notification.rs
index 554bdeb..ba353c6 100644
--- a/midi2/src/ump_stream/stream_configuration_notification.rs
+++ b/midi2/src/ump_stream/stream_configuration_notification.rs
@@ -12,8 +12,8 @@ struct StreamConfigurationNotification {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     protocol: u8,
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_0000_0000_0000_0010, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/stream_configuration_request.rs b/midi2/src/ump_stream/stream_configuration_request.rs
index 8cf3879..764fb36 100644
--- a/midi2/src/ump_stream/stream_configuration_request.rs
+++ b/midi2/src/ump_stream/stream_configuration_request.rs
@@ -12,8 +12,8 @@ struct StreamConfigurationRequest {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     protocol: u8,
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_0000_0000_0000_0010, 0x0, 0x0, 0x0>>)]
-- 
2.43.0


From fd9a66ed82878eb1ca7dd27916c3ee59616cb742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:53 +0000
Subject: [PATCH 07/24] fix: incomplete packets counted in multi-packet message
 validation

A trailing partial packet could stand for the end packet of a message, and
the accepted message then panicked as soon as it was read. The packet sizes
of whatever follows a system exclusive message are not part of it.
---
 midi2/src/detail/helpers.rs |  2 +-
 midi2/src/sysex7.rs         |  1 +
 midi2/src/sysex8.rs         | 13 +++++++++----
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 148bfb1..ce58bfd 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -57,7 +57,7 @@ pub fn validate_sysex_group_statuses<
     use crate::{detail::BitOps, error::InvalidData};
 
     let mut iter = buffer
-        .chunks(stride)
+        .chunks_exact(stride)
         .take_while(|chunk| chunk[0].nibble(0) == ump_type)
         .peekable();
 
diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index e754d17..ac8c0b1 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -173,6 +173,7 @@ impl<'a, B: crate::buffer::Buffer> crate::detail::property::ReadProperty<'a, B>
             if buffer
                 .specialise_u32()
                 .chunks_exact(2)
+                .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE)
                 .any(|p| u8::from(p[0].nibble(3)) > 6)
             {
                 Err(crate::error::InvalidData(ERR_INVALID_PACKET_SIZE))
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 0328a6a..2ac6948 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -66,10 +66,15 @@ impl<B: crate::buffer::Ump> crate::detail::property::Property<B> for ValidPacket
 impl<'a, B: crate::buffer::Ump> crate::detail::property::ReadProperty<'a, B> for ValidPacketSizes {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer.buffer().chunks_exact(4).any(|p| {
-            let number_bytes = u8::from(p[0].nibble(3));
-            !(1..=14).contains(&number_bytes)
-        }) {
+        if buffer
+            .buffer()
+            .chunks_exact(4)
+            .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE)
+            .any(|p| {
+                let number_bytes = u8::from(p[0].nibble(3));
+                !(1..=14).contains(&number_bytes)
+            })
+        {
             Err(crate::error::InvalidData(
                 ERR_INVALID_NUMBER_OF_PAYLOAD_BYTES,
             ))
-- 
2.43.0


From 6dc1f08f624ca073c53c869ad0d943dd4443dcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:02 +0000
Subject: [PATCH 08/24] fix: flex data and stream validation depended on
 trailing data

The status, bank and function block were compared with those of every
packet in the slice, also of those after the message, while the status of a
stream slice shorter than a packet was not looked at.
---
 midi2/src/flex_data.rs                      | 23 ++++++++++++---------
 midi2/src/ump_stream.rs                     | 19 ++++++++++++-----
 midi2/src/ump_stream/function_block_name.rs |  4 +---
 3 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 7be72ef..9f726e7 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -926,11 +926,7 @@ impl<const STATUS: u8, B: Ump> Property<B> for StatusProperty<STATUS> {
 impl<'a, const STATUS: u8, B: Ump> ReadProperty<'a, B> for StatusProperty<STATUS> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer
-            .buffer()
-            .chunks_exact(4)
-            .all(|packet| packet[0].octet(3) == STATUS)
-        {
+        if message_packets(buffer.buffer()).all(|packet| packet[0].octet(3) == STATUS) {
             Ok(())
         } else {
             Err(crate::error::InvalidData("Incorrect message status"))
@@ -957,11 +953,7 @@ impl<const BANK: u8, B: Ump> Property<B> for BankProperty<BANK> {
 impl<'a, const BANK: u8, B: Ump> ReadProperty<'a, B> for BankProperty<BANK> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer
-            .buffer()
-            .chunks_exact(4)
-            .all(|packet| packet[0].octet(2) == BANK)
-        {
+        if message_packets(buffer.buffer()).all(|packet| packet[0].octet(2) == BANK) {
             Ok(())
         } else {
             Err(crate::error::InvalidData("Incorrect message bank"))
@@ -1152,6 +1144,17 @@ impl<B: Ump + BufferMut> WriteProperty<B> for GroupProperty {
     }
 }
 
+/// The packets of the message at the front of the buffer
+fn message_packets(buffer: &[u32]) -> impl Iterator<Item = &[u32]> {
+    let mut complete = false;
+    buffer.chunks_exact(4).take_while(move |packet| {
+        let in_message = !complete;
+        let format: u8 = packet[0].crumb(4).into();
+        complete |= format == COMPLETE_FORMAT || format == END_FORMAT;
+        in_message
+    })
+}
+
 fn flex_data_dyn_size<B: crate::buffer::Ump>(buffer: &B) -> usize {
     buffer
         .buffer()
diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index db29e0c..40d1aa3 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -123,11 +123,7 @@ impl<const STATUS: u16, B: Ump> property::Property<B> for StatusProperty<STATUS>
 impl<'a, const STATUS: u16, B: Ump> property::ReadProperty<'a, B> for StatusProperty<STATUS> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer
-            .buffer()
-            .chunks_exact(4)
-            .all(|packet| status_from_buffer(packet) == STATUS)
-        {
+        if message_packets(buffer.buffer()).all(|packet| status_from_buffer(packet) == STATUS) {
             Ok(())
         } else {
             Err(crate::error::InvalidData("Incorrect message status"))
@@ -448,6 +444,19 @@ fn write_message_header_data(buffer: &mut [u32], size: usize) {
     }
 }
 
+/// The packets of the message at the front of the buffer
+fn message_packets(buffer: &[u32]) -> impl Iterator<Item = &[u32]> {
+    use crate::detail::BitOps;
+
+    let mut complete = false;
+    buffer.chunks(4).take_while(move |packet| {
+        let in_message = !complete;
+        let format: u8 = packet[0].crumb(2).into();
+        complete |= format == COMPLETE_FORMAT || format == END_FORMAT;
+        in_message
+    })
+}
+
 fn message_size<B: crate::buffer::Ump>(buffer: &B) -> usize {
     use crate::detail::BitOps;
 
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 04f0d4b..732f1c9 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -47,9 +47,7 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for FunctionBlockProperty {
         use crate::detail::BitOps;
 
         let function_block = buffer.buffer()[0].octet(2);
-        if !buffer
-            .buffer()
-            .chunks_exact(4)
+        if !ump_stream::message_packets(buffer.buffer())
             .all(|packet| packet[0].octet(2) == function_block)
         {
             Err(crate::error::InvalidData(
-- 
2.43.0


From fc9c9d7b3de4784b16998e359a35735edeb53f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:37 +0000
Subject: [PATCH 09/24] fix: new stream text messages in a buffer holding older
 packets

The format field of the new message was chosen from the number of stream
packets found in the buffer, so that the message included the older packets.
The status was written to every packet found there, and not at all into a
buffer shorter than a packet.
---
 midi2/src/ump_stream.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 40d1aa3..7f09afa 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -136,10 +136,9 @@ impl<const STATUS: u16, B: Ump + BufferMut> property::WriteProperty<B> for Statu
         Ok(())
     }
     fn write(buffer: &mut B, _v: Self::Type) {
-        for packet in buffer.buffer_mut().chunks_exact_mut(4) {
-            packet[0] &= !0x03FF_0000;
-            packet[0] |= (STATUS as u32) << 16;
-        }
+        let buffer = buffer.buffer_mut();
+        buffer[0] &= !0x03FF_0000;
+        buffer[0] |= (STATUS as u32) << 16;
     }
     fn default() -> Self::Type {}
 }
@@ -172,7 +171,9 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for ConsistentFormatsProperty {
 impl<B: Ump + BufferMut> property::WriteProperty<B> for ConsistentFormatsProperty {
     fn default() -> Self::Type {}
     fn write(buffer: &mut B, _v: Self::Type) {
-        set_format_fields(buffer.buffer_mut())
+        // only called at initialization time.
+        // the message is a single packet
+        set_format_fields(&mut buffer.buffer_mut()[..4])
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
         Ok(())
-- 
2.43.0


From 9e89f294fd2e28b27dedc90d5bccbd8bdd06f4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:46 +0000
Subject: [PATCH 10/24] fix: function block number missing in later packets of
 a function block name

When the name grew the message to more packets only the first one carried
the function block, and the message was refused when interpreted again.
---
 midi2/src/ump_stream.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 7f09afa..0047023 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -260,7 +260,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.resize(buffer_size);
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(buffer.buffer_mut());
     }
 
@@ -272,7 +272,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.try_resize(buffer_size)?;
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(buffer.buffer_mut());
 
         Ok(())
@@ -428,16 +428,20 @@ fn required_buffer_size_for_str<const OFFSET: usize>(s: &str) -> usize {
     }
 }
 
-fn write_message_header_data(buffer: &mut [u32], size: usize) {
+fn write_message_header_data<const OFFSET: usize>(buffer: &mut [u32], size: usize) {
     use crate::detail::BitOps;
     use crate::ux::u4;
 
     let status = status_from_buffer(buffer);
+    let function_block = buffer[0].octet(2);
 
     for packet in buffer[..size].chunks_exact_mut(4) {
         packet[0].set_nibble(0, u4::new(UMP_MESSAGE_TYPE));
         packet[0] &= !0x03FF_0000;
         packet[0] |= (status as u32) << 16;
+        if OFFSET == 1 {
+            packet[0].set_octet(2, function_block);
+        }
     }
 
     for packet in buffer[size..].chunks_exact_mut(4) {
-- 
2.43.0


From 074a4ca07901bae8959a16e308e9b1d968e12ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:55 +0000
Subject: [PATCH 11/24] fix: optional channel written to the first packet only

Later packets of a flex data text message kept their previous address.
---
 midi2/src/flex_data.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 9f726e7..fcccea5 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -1015,9 +1015,13 @@ impl<'a, B: Ump> ReadProperty<'a, B> for OptionalChannelProperty {
 
 impl<B: Ump + BufferMut> WriteProperty<B> for OptionalChannelProperty {
     fn write(buffer: &mut B, v: Self::Type) {
-        let buffer_slice = buffer.buffer_mut();
-        let data = buffer_slice;
-        optional_channel_to_slice(data, v);
+        for packet in buffer
+            .buffer_mut()
+            .chunks_exact_mut(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
+        {
+            optional_channel_to_slice(packet, v);
+        }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
         Ok(())
-- 
2.43.0


From af7015da5fb8ca010b60caa447799d5cd924c7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:35 +0000
Subject: [PATCH 12/24] fix: text iterators of flex data and stream messages

The last byte of a full flex data packet was left out, text left in a buffer
behind the message was read as part of it, and the size hints were not
bounds of the number of bytes.
---
 midi2/src/flex_data.rs                      |  5 +++++
 midi2/src/flex_data/text.rs                 |  7 ++++---
 midi2/src/ump_stream.rs                     | 11 +++++++++--
 midi2/src/ump_stream/function_block_name.rs |  2 +-
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index fcccea5..98b297e 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -1159,6 +1159,11 @@ fn message_packets(buffer: &[u32]) -> impl Iterator<Item = &[u32]> {
     })
 }
 
+/// The data of the message at the front of the buffer
+fn message_data(buffer: &[u32]) -> &[u32] {
+    &buffer[..message_packets(buffer).count() * 4]
+}
+
 fn flex_data_dyn_size<B: crate::buffer::Ump>(buffer: &B) -> usize {
     buffer
         .buffer()
diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index d097c26..967ce60 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -135,7 +135,8 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 12, Some(self.buffer.len() * 12))
+        let packets = self.buffer.len() / 4 - self.packet_index;
+        (0, Some(packets * 12 - self.byte_index))
     }
 }
 
@@ -143,7 +144,7 @@ impl core::iter::FusedIterator for TextBytesIterator<'_> {}
 
 impl TextBytesIterator<'_> {
     fn finished(&self) -> bool {
-        self.packet_index == self.buffer.len() / 4 - 1 && self.byte_index == 11
+        self.packet_index == self.buffer.len() / 4
     }
     fn advance(&mut self) {
         self.byte_index += 1;
@@ -170,7 +171,7 @@ impl<'a, B: Ump> Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: flex_data::message_data(buffer.buffer()),
             packet_index: 0,
             byte_index: 0,
         }
diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 0047023..bbf08e3 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -301,7 +301,8 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 14, Some(self.buffer.len() * 14))
+        let packets = self.buffer.len() / 4 - self.packet_index;
+        (0, Some(packets * (14 - self.offset) - self.byte_index))
     }
 }
 
@@ -336,7 +337,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: message_data(buffer.buffer()),
             packet_index: 0,
             byte_index: 0,
             offset: 0,
@@ -449,6 +450,12 @@ fn write_message_header_data<const OFFSET: usize>(buffer: &mut [u32], size: usiz
     }
 }
 
+/// The data of the message at the front of the buffer
+fn message_data(buffer: &[u32]) -> &[u32] {
+    let size = message_packets(buffer).map(|packet| packet.len()).sum();
+    &buffer[..size]
+}
+
 /// The packets of the message at the front of the buffer
 fn message_packets(buffer: &[u32]) -> impl Iterator<Item = &[u32]> {
     use crate::detail::BitOps;
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 732f1c9..484dcd9 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -87,7 +87,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         ump_stream::TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: ump_stream::message_data(buffer.buffer()),
             packet_index: 0,
             byte_index: 0,
             offset: 1,
-- 
2.43.0


From 2ed376bd9af655823e1f90f6c1dcb563149efebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 13/24] fix: stream id of system exclusive 8 written to a data
 octet and missing in later packets

---
 midi2/src/sysex8.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 2ac6948..6566679 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -182,7 +182,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             .chunks_exact_mut(4)
             .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
         {
-            packet[0].set_octet(3, id);
+            packet[0].set_octet(2, id);
         }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
@@ -522,6 +522,7 @@ fn try_resize<
         .take(buffer_size / 4)
         .peekable();
     let mut group = None;
+    let mut stream_id = None;
 
     const MESSAGE_TYPE: u4 = u4::new(UMP_MESSAGE_TYPE);
     const STATUS_COMPLETE: u4 = u4::new(0x0);
@@ -533,6 +534,7 @@ fn try_resize<
     if let Some(first_packet) = iter.next() {
         first_packet[0].set_nibble(0, MESSAGE_TYPE);
         group = Some(first_packet[0].nibble(1));
+        stream_id = Some(stream_id_from_packet(first_packet));
         if iter.peek().is_some() {
             // start packet
             first_packet[0].set_nibble(2, STATUS_START);
@@ -547,6 +549,7 @@ fn try_resize<
     while let Some(chunk) = iter.next() {
         chunk[0].set_nibble(0, MESSAGE_TYPE);
         chunk[0].set_nibble(1, group.unwrap());
+        chunk[0].set_octet(2, stream_id.unwrap());
         if iter.peek().is_some() {
             // middle packet
             chunk[0].set_nibble(2, STATUS_CONTINUE);
-- 
2.43.0


From 22c0dfc53b2f38a081085c7a9200fd948dd400b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:47 +0000
Subject: [PATCH 14/24] fix: reading byte system exclusive messages with status
 bytes in the payload panicked

---
 midi2/src/sysex7.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index ac8c0b1..d928e0b 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -36,6 +36,7 @@ struct Sysex7 {
 
 const ERR_NO_BEGIN_BYTE: &str = "Sysex messages should begin 0xF0";
 const ERR_NO_END_BYTE: &str = "Sysex messages should end 0xF7";
+const ERR_INVALID_DATA_BYTE: &str = "Sysex data bytes can not exceed 0x7F";
 const ERR_INVALID_PACKET_SIZE: &str = "Size field can not exceed 6";
 
 const START_BYTE: u8 = 0xF0;
@@ -95,12 +96,19 @@ impl<'a, B: crate::buffer::Buffer> crate::detail::property::ReadProperty<'a, B>
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
-            crate::buffer::UNIT_ID_U8 => buffer
-                .specialise_u8()
-                .iter()
-                .position(|b| *b == 0xF7)
-                .map(|_| ())
-                .ok_or(crate::error::InvalidData(ERR_NO_END_BYTE)),
+            crate::buffer::UNIT_ID_U8 => {
+                // only data bytes may appear between the begin and end bytes
+                match buffer
+                    .specialise_u8()
+                    .iter()
+                    .skip(1)
+                    .find(|b| **b & 0x80 != 0)
+                {
+                    Some(&END_BYTE) => Ok(()),
+                    Some(_) => Err(crate::error::InvalidData(ERR_INVALID_DATA_BYTE)),
+                    None => Err(crate::error::InvalidData(ERR_NO_END_BYTE)),
+                }
+            }
             crate::buffer::UNIT_ID_U32 => Ok(()),
             _ => unreachable!(),
         }
-- 
2.43.0


From 3cfc02ec5c6bd81d1d073aaccea822d0f03a20b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 15/24] fix: payload iterators skipping past the end of the
 payload

---
 midi2/src/sysex7.rs        | 11 +++++++++--
 midi2/src/sysex7/packet.rs |  4 ++--
 midi2/src/sysex8.rs        |  6 ++++++
 midi2/src/sysex8/packet.rs |  6 +++---
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index d928e0b..ebc5f5a 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -899,10 +899,16 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
         match U::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
-                self.payload_index += n;
+                self.payload_index = self.payload_index.saturating_add(n).min(self.data.len());
                 self.next()
             }
             crate::buffer::UNIT_ID_U32 => {
+                if n >= self.size_cache {
+                    // the requested byte lies beyond the end of the payload
+                    self.size_cache = 0;
+                    return None;
+                }
+
                 let mut do_nth = || {
                     let mut packets = self.data_ump()[self.packet_index * 2..]
                         .chunks_exact(2)
@@ -962,7 +968,8 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.size_cache, Some(self.size_cache))
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
diff --git a/midi2/src/sysex7/packet.rs b/midi2/src/sysex7/packet.rs
index 9797cd6..9bf11e4 100644
--- a/midi2/src/sysex7/packet.rs
+++ b/midi2/src/sysex7/packet.rs
@@ -94,8 +94,8 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index = (self.index + n).min(6);
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 2) / 4].septet((self.index + n + 2) % 4);
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 6566679..bb14159 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -239,6 +239,12 @@ impl core::iter::Iterator for PayloadIterator<'_> {
     ///
     /// O(n)
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
+        if n >= self.size_cache {
+            // the requested byte lies beyond the end of the payload
+            self.size_cache = 0;
+            return None;
+        }
+
         let mut do_nth = || {
             let mut packets = self.data[self.packet_index * 4..]
                 .chunks_exact(4)
diff --git a/midi2/src/sysex8/packet.rs b/midi2/src/sysex8/packet.rs
index 21a807e..98f2afc 100644
--- a/midi2/src/sysex8/packet.rs
+++ b/midi2/src/sysex8/packet.rs
@@ -122,12 +122,12 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index += n;
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 3) / 4].octet((self.index + n + 3) % 4);
-        self.index = (self.index + n).min(13);
+        self.index += n + 1;
         Some(v)
     }
 
-- 
2.43.0


From 44c1d12c2c16c8461c7be0331c4c1f4349e8b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:03 +0000
Subject: [PATCH 16/24] fix: payload of system exclusive 8 packets without a
 valid number of bytes panicked

---
 midi2/src/sysex8/packet.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/midi2/src/sysex8/packet.rs b/midi2/src/sysex8/packet.rs
index 98f2afc..ab8351d 100644
--- a/midi2/src/sysex8/packet.rs
+++ b/midi2/src/sysex8/packet.rs
@@ -31,7 +31,18 @@ impl<'a> core::convert::TryFrom<&'a [u32]> for Packet {
             ));
         }
 
-        status_from_data(data)?;
+        let status = status_from_data(data)?;
+
+        // the number of bytes always includes the stream id.
+        // 0xF is reserved for messages which end unexpectedly
+        let number_bytes = u8::from(data[0].nibble(3));
+        if number_bytes == 0x0
+            || (number_bytes == 0xF && !matches!(status, Status::UnexpectedEnd(_)))
+        {
+            return Err(error::InvalidData(
+                sysex8::ERR_INVALID_NUMBER_OF_PAYLOAD_BYTES,
+            ));
+        }
 
         Ok(Packet({
             let mut buffer = [0x0; 4];
@@ -152,9 +163,11 @@ impl core::iter::ExactSizeIterator for PayloadIterator<'_> {
 impl PayloadIterator<'_> {
     fn packet_size(&self) -> usize {
         use crate::detail::BitOps;
-        let len = u8::from(self.data[0].nibble(3)) as usize - 1;
-        debug_assert!(len <= 13);
-        len
+        match u8::from(self.data[0].nibble(3)) {
+            // the message ended unexpectedly. There is no payload
+            0xF => 0,
+            number_bytes => number_bytes as usize - 1,
+        }
     }
 }
 
-- 
2.43.0


From 3becde8621efcc12f1542c841fa7349638ecd241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 17/24] fix: detection of partially filled packets in system
 exclusive messages

---
 midi2/src/sysex7.rs | 8 +-------
 midi2/src/sysex8.rs | 7 +------
 2 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index ebc5f5a..1c87bd5 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -673,13 +673,7 @@ fn is_compact<B: crate::buffer::Buffer>(sysex: &Sysex7<B>) -> bool {
         crate::buffer::UNIT_ID_U8 => true,
         crate::buffer::UNIT_ID_U32 => {
             use crate::detail::BitOps;
-            for chunk in sysex
-                .0
-                .buffer()
-                .specialise_u32()
-                .chunks_exact(4)
-                .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-            {
+            for chunk in sysex.data().specialise_u32().chunks_exact(2) {
                 let status: u8 = chunk[0].nibble(2).into();
                 let is_begin = status == 0x1;
                 let is_continue = status == 0x2;
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index bb14159..fa3824b 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -596,12 +596,7 @@ fn buffer_size_from_payload_size(payload_size: usize) -> usize {
 // will determine whether the payload data in the message is maximally
 // compact in the underlying buffer
 fn is_compact<B: crate::buffer::Buffer<Unit = u32>>(sysex: &Sysex8<B>) -> bool {
-    for chunk in sysex
-        .0
-        .buffer()
-        .chunks_exact(4)
-        .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-    {
+    for chunk in sysex.data().chunks_exact(4) {
         let status: u8 = chunk[0].nibble(2).into();
         let is_begin = status == 0x1;
         let is_continue = status == 0x2;
-- 
2.43.0


From 51bfd310062647e2dfcc65c020ca7df7f89fe4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:12 +0000
Subject: [PATCH 18/24] fix: resizing byte system exclusive messages

---
 midi2/src/sysex7.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 1c87bd5..db2e550 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -543,8 +543,8 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 let old_payload_size = self.payload_size();
                 self.0.resize(buffer_sz);
                 if payload_size > old_payload_size {
-                    // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
+                    // erase old end bit and whatever followed it
+                    self.0.specialise_u8_mut()[old_payload_size + 1..buffer_sz].fill(0);
                 }
                 self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
             }
@@ -572,9 +572,9 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                     buffer_sz = self.0.buffer().len();
                     crate::traits::SysexTryResizeError(buffer_sz.saturating_sub(2))
                 });
-                if buffer_sz > old_payload_size {
-                    // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
+                if buffer_sz > old_payload_size + 2 {
+                    // erase old end bit and whatever followed it
+                    self.0.specialise_u8_mut()[old_payload_size + 1..buffer_sz].fill(0);
                 }
                 self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
                 result
-- 
2.43.0


From ec4b648c1043a8bc35ad95d5c8d12888e1727fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:39 +0000
Subject: [PATCH 19/24] fix: removed payload left behind in single packet
 system exclusive messages

---
 midi2/src/sysex7.rs |  4 ++++
 midi2/src/sysex8.rs | 18 ++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index db2e550..a187386 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -781,6 +781,10 @@ fn try_resize_ump<
             // complete packet
             first_packet[0].set_nibble(2, STATUS_COMPLETE);
             first_packet[0].set_nibble(3, u4::new(payload_size as u8));
+            // zero off the end of the packet
+            for i in payload_size..6 {
+                first_packet[(i + 2) / 4].set_octet((i + 2) % 4, 0x0);
+            }
         }
     }
 
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index fa3824b..5d1bcf1 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -435,7 +435,8 @@ impl<B: crate::buffer::Ump> SysexInternal<B> for Sysex8<B> {
             s.0.resize(sz);
             Ok(())
         })
-        .unwrap()
+        .unwrap();
+        zero_unused_octets(self);
     }
 
     fn try_resize(
@@ -445,7 +446,9 @@ impl<B: crate::buffer::Ump> SysexInternal<B> for Sysex8<B> {
     where
         B: crate::buffer::BufferMut + crate::buffer::BufferTryResize,
     {
-        try_resize(self, payload_size, |s, sz| s.0.try_resize(sz))
+        let result = try_resize(self, payload_size, |s, sz| s.0.try_resize(sz));
+        zero_unused_octets(self);
+        result
     }
 
     fn write_datum(&mut self, datum: Self::Byte, payload_index: usize)
@@ -581,6 +584,17 @@ fn try_resize<
     resize_result.map_err(|_| crate::traits::SysexTryResizeError(payload_size))
 }
 
+// zero off the end of the packet of a single packet message
+fn zero_unused_octets<B: crate::buffer::Ump + crate::buffer::BufferMut>(sysex: &mut Sysex8<B>) {
+    let payload_size = sysex.payload_size();
+    if sysex.data().len() == 4 {
+        let packet = &mut sysex.0.buffer_mut()[..4];
+        for i in payload_size..13 {
+            packet[(i + 3) / 4].set_octet((i + 3) % 4, 0x0);
+        }
+    }
+}
+
 fn buffer_size_from_payload_size(payload_size: usize) -> usize {
     if payload_size.is_multiple_of(13) {
         if payload_size == 0 {
-- 
2.43.0


From ba6aafc53f90fb817db20b57693aba64a2c5dbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:51 +0000
Subject: [PATCH 20/24] fix: splicing system exclusive payload data of unknown
 size

---
 midi2/src/detail/helpers.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index ce58bfd..a9aaca4 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -170,11 +170,10 @@ mod detail {
         };
         let splice_size = splice_end - splice_begin;
 
-        let mut running_data_size_estimate = match data.size_hint() {
-            (_, Some(upper)) => upper,
-            // not the optimal case - could lead to additional copying
-            (lower, None) => lower,
-        };
+        // only the lower bound is certain to be available. the upper bound may exceed
+        // the actual size of the data by any amount.
+        // (bounded to keep the sizes calculated for endless iterators from overflowing)
+        let mut running_data_size_estimate = data.size_hint().0.min(usize::MAX / 8);
         let mut written = 0;
         let mut additional_size_for_overflow = 1;
         let mut data = data.peekable();
@@ -223,13 +222,24 @@ mod detail {
                     // resize to make more space
                     // and move tail
 
-                    if let Err(SysexTryResizeError(sz)) = resize(
+                    let mut resize_result = resize(
                         sysex,
                         running_data_size_estimate + initial_size - splice_size,
-                    ) {
+                    );
+                    if resize_result.is_err() && additional_size_for_overflow > 1 {
+                        // failed. we might not need this much though
+                        additional_size_for_overflow = 1;
+                        running_data_size_estimate = written + 1;
+                        to = splice_begin + running_data_size_estimate;
+                        resize_result = resize(
+                            sysex,
+                            running_data_size_estimate + initial_size - splice_size,
+                        );
+                    }
+                    if let Err(SysexTryResizeError(sz)) = resize_result {
                         // failed. we'll work with what we've got
                         running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
-                        to = splice_begin + running_data_size_estimate - splice_size;
+                        to = splice_begin + running_data_size_estimate;
                     };
                 }
 
-- 
2.43.0


From 6d8b7e5bbb99b64d3a6ccdc5849dbd34a597f036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:18 +0000
Subject: [PATCH 21/24] fix: previous buffer content leaking into system
 exclusive 7 payload bytes

---
 midi2/src/sysex7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index a187386..3b57117 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -600,7 +600,7 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 let buffer_index = 2 * (payload_index / 6);
                 let byte_index = payload_index % 6;
                 self.0.specialise_u32_mut()[buffer_index + (byte_index + 2) / 4]
-                    .set_septet((byte_index + 2) % 4, datum);
+                    .set_octet((byte_index + 2) % 4, datum.into());
             }
             _ => unreachable!(),
         }
-- 
2.43.0


From e26290ebfc3e73739a7432c54443bf17105fb3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:39 +0000
Subject: [PATCH 22/24] fix: reading text messages allocated to validate the
 text

---
 midi2/src/detail/helpers.rs | 19 +++++++++++++++++++
 midi2/src/flex_data/text.rs |  9 +++++----
 midi2/src/ump_stream.rs     |  9 +++++----
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index a9aaca4..c597377 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -263,3 +263,22 @@ mod detail {
         Ok(())
     }
 }
+
+#[cfg(all(feature = "std", any(feature = "flex-data", feature = "ump-stream")))]
+pub fn is_utf8(bytes: impl Iterator<Item = u8>) -> bool {
+    let mut sequence = [0x0; 4];
+    let mut sequence_len = 0;
+
+    for byte in bytes {
+        sequence[sequence_len] = byte;
+        sequence_len += 1;
+        match core::str::from_utf8(&sequence[..sequence_len]) {
+            Ok(_) => sequence_len = 0,
+            // more bytes needed to complete the character
+            Err(error) if error.error_len().is_none() => {}
+            Err(_) => return false,
+        }
+    }
+
+    sequence_len == 0
+}
diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index 967ce60..0bfb7ae 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -196,10 +196,11 @@ impl<'a, B: Ump> ReadProperty<'a, B> for TextReadStringProperty {
         std::string::String::from_utf8(bytes).unwrap()
     }
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        let bytes = TextReadBytesProperty::read(buffer).collect();
-        std::string::String::from_utf8(bytes).map_err(|_| {
-            crate::error::InvalidData("Payload bytes do not represent a valid utf string")
-        })?;
+        if !crate::detail::helpers::is_utf8(TextReadBytesProperty::read(buffer)) {
+            return Err(crate::error::InvalidData(
+                "Payload bytes do not represent a valid utf string",
+            ));
+        }
         Ok(())
     }
 }
diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index bbf08e3..49adcd9 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -363,10 +363,11 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for TextReadStringProperty {
         std::string::String::from_utf8(bytes).unwrap()
     }
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        let bytes = TextReadBytesProperty::read(buffer).collect();
-        std::string::String::from_utf8(bytes).map_err(|_| {
-            crate::error::InvalidData("Payload bytes do not represent a valid utf string")
-        })?;
+        if !crate::detail::helpers::is_utf8(TextReadBytesProperty::read(buffer)) {
+            return Err(crate::error::InvalidData(
+                "Payload bytes do not represent a valid utf string",
+            ));
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 087bc49419a7f55cf8b78d4abee2461288075255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:45 +0000
Subject: [PATCH 23/24] fix: reading function block names allocated to validate
 the text

---
 midi2/src/ump_stream/function_block_name.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 484dcd9..b9d7141 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -113,10 +113,11 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for TextReadStringProperty {
         std::string::String::from_utf8(bytes).unwrap()
     }
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        let bytes = TextReadBytesProperty::read(buffer).collect();
-        std::string::String::from_utf8(bytes).map_err(|_| {
-            crate::error::InvalidData("Payload bytes do not represent a valid utf string")
-        })?;
+        if !crate::detail::helpers::is_utf8(TextReadBytesProperty::read(buffer)) {
+            return Err(crate::error::InvalidData(
+                "Payload bytes do not represent a valid utf string",
+            ));
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 5b795e400cd27b79839ab7aa7f77970039c4b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 24/24] fix: reading discovery messages that end before their
 last field panicked

---
 midi2_proc/src/generate_ci.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/midi2_proc/src/generate_ci.rs b/midi2_proc/src/generate_ci.rs
index 3850a26..fd919d6 100644
--- a/midi2_proc/src/generate_ci.rs
+++ b/midi2_proc/src/generate_ci.rs
@@ -548,6 +548,10 @@ fn try_from_slice_impl(root_ident: &syn::Ident, properties: &[Property]) -> Toke
                     return Err(crate::error::InvalidData("Incorrect CI version"));
                 }
                 let sysex7 = crate::sysex7::Sysex7::try_from(buffer)?;
+                // the message can end before the slice does
+                if crate::traits::Data::data(&sysex7).len() < <Self as crate::traits::MinSize<&[u8]>>::MIN_SIZE {
+                    return Err(crate::error::InvalidData(crate::detail::common_err_strings::ERR_SLICE_TOO_SHORT));
+                }
                 let buffer = sysex7.buffer_access();
                 #validation_steps
                 Ok(#root_ident(sysex7))
-- 
2.43.0

