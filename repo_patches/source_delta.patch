From 2ed6b753a9d4289425edd21fe2e8152b51efeb30 Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 01/16] sim: guarded seams for the deterministic simulator (cfg
 rtps_sim, off by default)

---
 src/behavior/reader_locator.rs                | 17 ++++++
 src/behavior/stateful_writer.rs               | 21 +++++++
 src/behavior/stateless_writer.rs              | 57 +++++++++++++++++++
 src/lib.rs                                    | 54 ++++++++++++++++++
 src/messages/receiver.rs                      |  8 +++
 src/messages/submessage_elements/parameter.rs | 15 +++++
 src/messages/submessage_kind.rs               |  8 +++
 src/structure/duration.rs                     | 12 ++++
 src/structure/entity_id.rs                    | 15 +++++
 src/structure/history_cache.rs                | 38 +++++++++++++
 src/structure/parameter_id.rs                 |  8 +++
 src/structure/time.rs                         | 12 ++++
 12 files changed, 265 insertions(+)

diff --git a/src/behavior/reader_locator.rs b/src/behavior/reader_locator.rs
index 7a3593e..cd74e8b 100644
--- a/src/behavior/reader_locator.rs
+++ b/src/behavior/reader_locator.rs
@@ -49,3 +49,20 @@ impl ReaderLocator {
         unimplemented!();
     }
 }
+
+/// Simulator seam: there is no other way to build a reader locator yet.
+#[cfg(rtps_sim)]
+impl ReaderLocator {
+    pub fn sim_new(locator: Locator_t, expects_inline_qos: bool) -> Self {
+        ReaderLocator {
+            requested_changes: vec![],
+            unsent_changes: vec![],
+            locator,
+            expects_inline_qos,
+        }
+    }
+
+    pub fn sim_locator(&self) -> (&Locator_t, bool) {
+        (&self.locator, self.expects_inline_qos)
+    }
+}
diff --git a/src/behavior/stateful_writer.rs b/src/behavior/stateful_writer.rs
index 4efabfe..20863c2 100644
--- a/src/behavior/stateful_writer.rs
+++ b/src/behavior/stateful_writer.rs
@@ -76,5 +76,26 @@ impl StatefulWriter {
     }
 }
 
+/// Simulator seam: there is no other way to build a stateful writer yet.
+#[cfg(rtps_sim)]
+impl StatefulWriter {
+    pub fn sim_new(
+        entity: EntityAttributes,
+        endpoint: EndpointAttributes,
+        writer: WriterAttributes,
+    ) -> Self {
+        StatefulWriter {
+            matched_readers: vec![],
+            entity,
+            endpoint,
+            writer,
+        }
+    }
+
+    pub fn sim_matched_readers(&mut self) -> &mut [ReaderProxy] {
+        &mut self.matched_readers
+    }
+}
+
 #[cfg(test)]
 mod tests {}
diff --git a/src/behavior/stateless_writer.rs b/src/behavior/stateless_writer.rs
index 1b8a49f..376a2f4 100644
--- a/src/behavior/stateless_writer.rs
+++ b/src/behavior/stateless_writer.rs
@@ -95,5 +95,62 @@ impl StatelessWriter {
     }
 }
 
+/// Simulator seam: the stateless writer is private to this module.
+#[cfg(rtps_sim)]
+pub mod sim {
+    use super::*;
+
+    pub struct SimStatelessWriter(StatelessWriter);
+
+    impl SimStatelessWriter {
+        pub fn new(
+            entity_attributes: EntityAttributes,
+            endpoint_attributes: EndpointAttributes,
+            writer_attributes: WriterAttributes,
+            resend_data_period: Time_t,
+        ) -> Self {
+            SimStatelessWriter(StatelessWriter::new(
+                entity_attributes,
+                endpoint_attributes,
+                writer_attributes,
+                resend_data_period,
+            ))
+        }
+
+        pub fn new_change(
+            &mut self,
+            kind: ChangeKind_t,
+            data: Data,
+            handle: InstanceHandle_t,
+        ) -> CacheChange {
+            self.0.new_change(kind, data, handle)
+        }
+
+        pub fn reader_locator_add(&mut self, a_locator: ReaderLocator) {
+            self.0.reader_locator_add(a_locator)
+        }
+
+        pub fn reader_locator_remove(&mut self, a_locator: ReaderLocator) {
+            self.0.reader_locator_remove(a_locator)
+        }
+
+        pub fn reader_locators(&self) -> &[ReaderLocator] {
+            &self.0.reader_locators
+        }
+
+        pub fn as_entity(&self) -> &EntityAttributes {
+            self.0.as_entity()
+        }
+
+        pub fn as_endpoint(&self) -> &EndpointAttributes {
+            self.0.as_endpoint()
+        }
+
+        pub fn as_writer(&self) -> &WriterAttributes {
+            self.0.as_writer()
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {}
diff --git a/src/lib.rs b/src/lib.rs
index 8489566..6648f21 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,7 @@
 #![allow(dead_code)]
 #![allow(non_camel_case_types)]
 #![allow(non_upper_case_globals)]
+#![allow(unexpected_cfgs)]
 
 extern crate bit_set;
 extern crate bit_vec;
@@ -20,3 +21,56 @@ mod dds;
 mod discovery;
 mod messages;
 mod structure;
+
+/// What the deterministic simulator needs of the private modules; compiled
+/// only with `--cfg rtps_sim`.
+#[cfg(rtps_sim)]
+pub mod sim {
+    pub use crate::behavior::reader_locator::ReaderLocator;
+    pub use crate::behavior::reader_proxy::ReaderProxy;
+    pub use crate::behavior::stateful_writer::StatefulWriter;
+    pub use crate::behavior::stateless_writer::sim::SimStatelessWriter;
+    pub use crate::behavior::writer::{Writer, WriterAttributes};
+    pub use crate::common::bit_set::BitSetRef;
+    pub use crate::common::ranged_bit_set::RangedBitSet;
+    pub use crate::common::validity_trait::Validity;
+    pub use crate::messages::ack_nack::AckNack;
+    pub use crate::messages::fragment_number::FragmentNumber_t;
+    pub use crate::messages::fragment_number_set::FragmentNumberSet_t;
+    pub use crate::messages::gap::Gap;
+    pub use crate::messages::header::Header;
+    pub use crate::messages::heartbeat::Heartbeat;
+    pub use crate::messages::heartbeat_frag::HeartbeatFrag;
+    pub use crate::messages::info_destination::InfoDestination;
+    pub use crate::messages::info_source::InfoSource;
+    pub use crate::messages::nack_frag::NackFrag;
+    pub use crate::messages::protocol_id::ProtocolId_t;
+    pub use crate::messages::protocol_version::ProtocolVersion_t;
+    pub use crate::messages::receiver::{MessageReceiver, Receiver};
+    pub use crate::messages::submessage::EntitySubmessage;
+    pub use crate::messages::submessage_elements::parameter::Parameter;
+    pub use crate::messages::submessage_flag::SubmessageFlag;
+    pub use crate::messages::submessage_header::SubmessageHeader;
+    pub use crate::messages::submessage_kind::SubmessageKind;
+    pub use crate::messages::vendor_id::VendorId_t;
+    pub use crate::structure::cache_change::CacheChange;
+    pub use crate::structure::change_kind::ChangeKind_t;
+    pub use crate::structure::count::Count_t;
+    pub use crate::structure::data::Data;
+    pub use crate::structure::duration::Duration_t;
+    pub use crate::structure::endpoint::{Endpoint, EndpointAttributes};
+    pub use crate::structure::entity::{Entity, EntityAttributes};
+    pub use crate::structure::entity_id::EntityId_t;
+    pub use crate::structure::guid::GUID_t;
+    pub use crate::structure::guid_prefix::GuidPrefix_t;
+    pub use crate::structure::history_cache::sim::SimHistoryCache;
+    pub use crate::structure::instance_handle::InstanceHandle_t;
+    pub use crate::structure::locator::{LocatorKind_t, LocatorList_t, Locator_t};
+    pub use crate::structure::locator_udp_v4::LocatorUDPv4_t;
+    pub use crate::structure::parameter_id::ParameterId;
+    pub use crate::structure::reliability_kind::ReliabilityKind_t;
+    pub use crate::structure::sequence_number::SequenceNumber_t;
+    pub use crate::structure::sequence_number_set::SequenceNumberSet_t;
+    pub use crate::structure::time::Time_t;
+    pub use crate::structure::topic_kind::TopicKind_t;
+}
diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 3b621dd..4e1925d 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -291,6 +291,14 @@ impl Decoder for MessageReceiver {
     }
 }
 
+/// Simulator seam: the state in force for the submessage decoded last.
+#[cfg(rtps_sim)]
+impl MessageReceiver {
+    pub fn sim_receiver(&self) -> &Receiver {
+        &self.receiver
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use speedy::Writable;
diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 096de34..1764277 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -57,6 +57,21 @@ impl<C: Context> Writable<C> for Parameter {
     }
 }
 
+/// Simulator seam: parameters have no public constructor yet.
+#[cfg(rtps_sim)]
+impl Parameter {
+    pub fn sim_new(parameter_id: ParameterId, value: Vec<u8>) -> Self {
+        Parameter {
+            parameter_id,
+            value,
+        }
+    }
+
+    pub fn sim_parts(&self) -> (&ParameterId, &[u8]) {
+        (&self.parameter_id, &self.value)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/messages/submessage_kind.rs b/src/messages/submessage_kind.rs
index ea2bbcf..2bc2c0b 100644
--- a/src/messages/submessage_kind.rs
+++ b/src/messages/submessage_kind.rs
@@ -21,6 +21,14 @@ impl SubmessageKind {
     pub const DATA_FRAG: SubmessageKind = SubmessageKind { value: 0x16 };
 }
 
+/// Simulator seam: submessage kinds other than the predefined ones.
+#[cfg(rtps_sim)]
+impl SubmessageKind {
+    pub fn sim_new(value: u8) -> Self {
+        SubmessageKind { value }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/structure/duration.rs b/src/structure/duration.rs
index 0246417..4854901 100644
--- a/src/structure/duration.rs
+++ b/src/structure/duration.rs
@@ -38,6 +38,18 @@ impl From<Duration_t> for Duration {
     }
 }
 
+/// Simulator seam: raw access to the wire representation.
+#[cfg(rtps_sim)]
+impl Duration_t {
+    pub fn sim_new(seconds: i32, fraction: u32) -> Self {
+        Duration_t { seconds, fraction }
+    }
+
+    pub fn sim_parts(&self) -> (i32, u32) {
+        (self.seconds, self.fraction)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/structure/entity_id.rs b/src/structure/entity_id.rs
index 5c97646..80228ff 100644
--- a/src/structure/entity_id.rs
+++ b/src/structure/entity_id.rs
@@ -85,6 +85,21 @@ impl<C: Context> Writable<C> for EntityId_t {
     }
 }
 
+/// Simulator seam: entity ids other than the predefined ones.
+#[cfg(rtps_sim)]
+impl EntityId_t {
+    pub fn sim_new(entity_key: [u8; 3], entity_kind: u8) -> Self {
+        EntityId_t {
+            entity_key,
+            entity_kind,
+        }
+    }
+
+    pub fn sim_parts(&self) -> ([u8; 3], u8) {
+        (self.entity_key, self.entity_kind)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/structure/history_cache.rs b/src/structure/history_cache.rs
index 743d6d8..f5af956 100644
--- a/src/structure/history_cache.rs
+++ b/src/structure/history_cache.rs
@@ -42,6 +42,44 @@ impl HistoryCache {
     }
 }
 
+/// Simulator seam: the history cache is private to this module.
+#[cfg(rtps_sim)]
+pub mod sim {
+    use super::*;
+
+    pub struct SimHistoryCache(HistoryCache);
+
+    impl SimHistoryCache {
+        pub fn new() -> Self {
+            SimHistoryCache(HistoryCache::new())
+        }
+
+        pub fn add_change(&mut self, change: CacheChange) {
+            self.0.add_change(change)
+        }
+
+        pub fn get_change(&self, sequence_number: SequenceNumber_t) -> Option<&CacheChange> {
+            self.0.get_change(sequence_number)
+        }
+
+        pub fn remove_change(&mut self, sequence_number: SequenceNumber_t) {
+            self.0.remove_change(sequence_number)
+        }
+
+        pub fn get_seq_num_min(&self) -> Option<SequenceNumber_t> {
+            self.0.get_seq_num_min().copied()
+        }
+
+        pub fn get_seq_num_max(&self) -> Option<SequenceNumber_t> {
+            self.0.get_seq_num_max().copied()
+        }
+
+        pub fn changes(&self) -> &[CacheChange] {
+            &self.0.changes
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/structure/parameter_id.rs b/src/structure/parameter_id.rs
index 25c98fe..f9e7b06 100644
--- a/src/structure/parameter_id.rs
+++ b/src/structure/parameter_id.rs
@@ -60,6 +60,14 @@ impl ParameterId {
     pub const PID_STATUS_INFO: ParameterId = ParameterId { value: 0x0071 };
 }
 
+/// Simulator seam: parameter ids other than the predefined ones.
+#[cfg(rtps_sim)]
+impl ParameterId {
+    pub fn sim_new(value: u16) -> Self {
+        ParameterId { value }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/structure/time.rs b/src/structure/time.rs
index 052331f..c72ed61 100644
--- a/src/structure/time.rs
+++ b/src/structure/time.rs
@@ -60,6 +60,18 @@ impl TryFrom<Time_t> for SystemTime {
     }
 }
 
+/// Simulator seam: raw access to the wire representation.
+#[cfg(rtps_sim)]
+impl Time_t {
+    pub fn sim_new(seconds: i32, fraction: u32) -> Self {
+        Time_t { seconds, fraction }
+    }
+
+    pub fn sim_parts(&self) -> (i32, u32) {
+        (self.seconds, self.fraction)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 659e3eea7167d3d1c9f2c114288bb60c4082b699 Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 02/16] fix: decode complete frames only, skip what is not
 read, end messages at end of input

The receiver panicked on truncated input, returned None while items remained
in the buffer, kept its state past the end of a message, and interpreted the
content of unknown submessages as submessages.
---
 src/messages/receiver.rs          | 94 +++++++++++++++++++++++++++----
 src/messages/submessage_header.rs |  9 +++
 2 files changed, 91 insertions(+), 12 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 4e1925d..f59d3f3 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -73,13 +73,54 @@ impl MessageReceiver {
             state: DeserializationState::ReadingHeader,
         }
     }
-}
 
-impl Decoder for MessageReceiver {
-    type Item = EntitySubmessage;
-    type Error = std::io::Error;
+    /// Length of the header or submessage which `bytes` start with, if all of it
+    /// is there
+    fn frame_length(&self, bytes: &BytesMut, end_of_message: bool) -> Option<usize> {
+        match self.state {
+            DeserializationState::ReadingHeader => {
+                Some(<Header as Readable<Endianness>>::minimum_bytes_needed())
+            }
+            DeserializationState::ReadingSubmessage => {
+                let header =
+                    SubmessageHeader::read_from_buffer_owned_with_ctx(Endianness::NATIVE, bytes)
+                        .ok()?;
+                if header.is_last() {
+                    // It extends up to the end of the message
+                    Some(bytes.len()).filter(|_| end_of_message)
+                } else {
+                    Some(
+                        <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed()
+                            + usize::from(header.submessage_length),
+                    )
+                }
+            }
+        }
+        .filter(|length| *length <= bytes.len())
+    }
 
-    fn decode(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+    fn decode_frames(
+        &mut self,
+        bytes: &mut BytesMut,
+        end_of_message: bool,
+    ) -> Result<Option<EntitySubmessage>, Error> {
+        while let Some(length) = self.frame_length(bytes, end_of_message) {
+            match self.decode_frame(&mut bytes.split_to(length)) {
+                Ok(None) => {}
+                Ok(item) => return Ok(item),
+                Err(error) => {
+                    // The rest of an invalid message is ignored
+                    bytes.clear();
+                    self.state = DeserializationState::ReadingHeader;
+                    return Err(error);
+                }
+            }
+        }
+        Ok(None)
+    }
+
+    /// Decodes a header or a submessage, `bytes` contain exactly one of them
+    fn decode_frame(&mut self, bytes: &mut BytesMut) -> Result<Option<EntitySubmessage>, Error> {
         let validate_header = |header: Header| {
             if header.valid() {
                 Ok(header)
@@ -117,13 +158,12 @@ impl Decoder for MessageReceiver {
                         <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed(),
                     ),
                 )
-                .and_then(|submessage_header| {
-                    if submessage_header.submessage_length == 0
-                        && submessage_header.submessage_id != SubmessageKind::INFO_TS
-                        && submessage_header.submessage_id != SubmessageKind::PAD
-                    {
+                .and_then(|mut submessage_header| {
+                    if submessage_header.is_last() {
                         // This is a last submessage
                         self.state = DeserializationState::ReadingHeader;
+                        submessage_header.submessage_length =
+                            bytes.len().min(usize::from(std::u16::MAX)) as u16;
                     }
                     Ok(submessage_header)
                 })
@@ -237,7 +277,8 @@ impl Decoder for MessageReceiver {
                         let unicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
                             submessage_header.flags.endianness_flag(),
                             &bytes.split_to(
-                                <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(),
+                                <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed()
+                                    .min(bytes.len()),
                             ),
                         )?;
                         self.receiver.unicast_reply_locator_list = vec![unicast_locator.into()];
@@ -248,7 +289,8 @@ impl Decoder for MessageReceiver {
                                 submessage_header.flags.endianness_flag(),
                                 &bytes.split_to(
                                     <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(
-                                    ),
+                                    )
+                                    .min(bytes.len()),
                                 ),
                             )?;
                                 vec![multicast_locator.into()]
@@ -291,6 +333,34 @@ impl Decoder for MessageReceiver {
     }
 }
 
+impl Decoder for MessageReceiver {
+    type Item = EntitySubmessage;
+    type Error = std::io::Error;
+
+    fn decode(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        self.decode_frames(bytes, false)
+    }
+
+    /// End of the message, the next one starts with a header
+    fn decode_eof(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        match self.decode_frames(bytes, true)? {
+            None => {
+                self.state = DeserializationState::ReadingHeader;
+                if bytes.is_empty() {
+                    Ok(None)
+                } else {
+                    bytes.clear();
+                    Err(Error::new(
+                        ErrorKind::UnexpectedEof,
+                        "Message ends in the middle of a header or submessage",
+                    ))
+                }
+            }
+            item => Ok(item),
+        }
+    }
+}
+
 /// Simulator seam: the state in force for the submessage decoded last.
 #[cfg(rtps_sim)]
 impl MessageReceiver {
diff --git a/src/messages/submessage_header.rs b/src/messages/submessage_header.rs
index c4b5fe6..97a5988 100644
--- a/src/messages/submessage_header.rs
+++ b/src/messages/submessage_header.rs
@@ -9,6 +9,15 @@ pub struct SubmessageHeader {
     pub submessage_length: u16,
 }
 
+impl SubmessageHeader {
+    /// Does this submessage extend up to the end of the message?
+    pub fn is_last(&self) -> bool {
+        self.submessage_length == 0
+            && self.submessage_id != SubmessageKind::INFO_TS
+            && self.submessage_id != SubmessageKind::PAD
+    }
+}
+
 impl<'a, C: Context> Readable<'a, C> for SubmessageHeader {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
-- 
2.43.0


From e3f2e8be02a24bf8b2837159b90b4f28298d6ae4 Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 03/16] fix: decoded bitmaps hold the bits they were sent with

The number of bits was left at zero, so that every decoded set was empty; a
count near 2^32 overflowed, and any count was reserved memory for.
---
 src/common/bit_set.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/bit_set.rs b/src/common/bit_set.rs
index 177ca66..74796bd 100644
--- a/src/common/bit_set.rs
+++ b/src/common/bit_set.rs
@@ -30,10 +30,16 @@ impl DerefMut for BitSetRef {
     }
 }
 
+/// The protocol limits bitmaps to 256 bits
+const MAX_NUMBER_OF_BITS: u32 = 256;
+
 impl<'a, C: Context> Readable<'a, C> for BitSetRef {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
         let number_of_bits = reader.read_u32()?;
+        if number_of_bits > MAX_NUMBER_OF_BITS {
+            return Err(speedy::Error::custom("Bitmap is too long").into());
+        }
         let number_of_bytes = (number_of_bits + 31) / 32;
 
         let mut bit_vec = BitVec::with_capacity(number_of_bits as usize);
@@ -42,7 +48,10 @@ impl<'a, C: Context> Readable<'a, C> for BitSetRef {
             for _ in 0..number_of_bytes {
                 inner.push(reader.read_u32()?);
             }
+            bit_vec.set_len(number_of_bytes as usize * 32);
         }
+        // Bits past the end of the bitmap have no meaning
+        bit_vec.truncate(number_of_bits as usize);
 
         Ok(BitSetRef(BitSet::from_bit_vec(bit_vec)))
     }
-- 
2.43.0


From d12f8733c151aa14c9422e91e4e905e28749d776 Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 04/16] fix: iterating a number set stops at the largest number

A received set whose base is close to the maximum panicked.
---
 src/common/ranged_bit_set.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/ranged_bit_set.rs b/src/common/ranged_bit_set.rs
index 2430387..7c85fbc 100644
--- a/src/common/ranged_bit_set.rs
+++ b/src/common/ranged_bit_set.rs
@@ -51,7 +51,8 @@ where
                 None => return None,
                 Some((_, false)) => {}
                 Some((i, true)) => {
-                    return Some(B::from_usize(i).unwrap().checked_add(&self.base).unwrap());
+                    // Numbers past the last representable one do not exist
+                    return B::from_usize(i).unwrap().checked_add(&self.base);
                 }
             }
         }
-- 
2.43.0


From 93e502079a624fc90bcbded07992ae5528ca3055 Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 05/16] fix: start every message with the initial receiver
 state

Destination, reply locators and timestamp of one message were applied to the
following one.
---
 src/messages/receiver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index f59d3f3..93e0ca7 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -62,6 +62,7 @@ enum DeserializationState {
 }
 
 pub struct MessageReceiver {
+    locator_kind: LocatorKind_t,
     receiver: Receiver,
     state: DeserializationState,
 }
@@ -69,6 +70,7 @@ pub struct MessageReceiver {
 impl MessageReceiver {
     pub fn new(locator_kind: LocatorKind_t) -> Self {
         MessageReceiver {
+            locator_kind,
             receiver: Receiver::new(locator_kind),
             state: DeserializationState::ReadingHeader,
         }
@@ -136,6 +138,8 @@ impl MessageReceiver {
             )
             .and_then(validate_header)
             .and_then(|header: Header| {
+                // Nothing carries over from the previous message
+                self.receiver = Receiver::new(self.locator_kind);
                 self.receiver.source_guid_prefix = header.guid_prefix;
                 self.receiver.source_version = header.protocol_version;
                 self.receiver.source_vendor_id = header.vendor_id;
-- 
2.43.0


From d67ed01b1fe19d1cf23feaa181c1e59b89ef57e5 Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 06/16] fix: an InfoDestination without a prefix addresses the
 receiving participant again

It was ignored, so that what follows it was attributed to the destination named
before.
---
 src/messages/receiver.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 93e0ca7..8dfa619 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -243,9 +243,9 @@ impl MessageReceiver {
                             &bytes.split_to(submessage_header.submessage_length.into()),
                         )?;
 
-                        if info_dst.guid_prefix != GuidPrefix_t::GUIDPREFIX_UNKNOWN {
-                            self.receiver.dest_guid_prefix = info_dst.guid_prefix;
-                        }
+                        // GUIDPREFIX_UNKNOWN stands for the receiving participant, as it
+                        // does in the initial state
+                        self.receiver.dest_guid_prefix = info_dst.guid_prefix;
 
                         Ok(None)
                     }
-- 
2.43.0


From 8e361dc4802fdf154be5e9a532939a1f13902750 Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 07/16] fix: do not reserve memory for locators which cannot be
 there

A locator list of a few bytes with a large count made the receiver allocate up
to 100 GB.
---
 src/structure/locator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/structure/locator.rs b/src/structure/locator.rs
index ad64bb0..fa5d345 100644
--- a/src/structure/locator.rs
+++ b/src/structure/locator.rs
@@ -88,6 +88,11 @@ impl<'a, C: Context> Readable<'a, C> for Locator_t {
         }
         Ok(locator)
     }
+
+    #[inline]
+    fn minimum_bytes_needed() -> usize {
+        24
+    }
 }
 
 impl<C: Context> Writable<C> for Locator_t {
-- 
2.43.0


From 4678971637a767063019257e1d7674e449ef1b5f Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 08/16] fix: times out of the range of Time_t neither wrap
 around nor panic

---
 src/structure/time.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/structure/time.rs b/src/structure/time.rs
index c72ed61..70180ee 100644
--- a/src/structure/time.rs
+++ b/src/structure/time.rs
@@ -35,10 +35,11 @@ impl From<SystemTime> for Time_t {
     fn from(sys_time: SystemTime) -> Self {
         sys_time
             .duration_since(std::time::UNIX_EPOCH)
+            .ok()
             .and_then(|dur_since_epoch| {
                 let fraction = (i64::from(dur_since_epoch.subsec_nanos()) << 32) / NANOS_PER_SEC;
-                Ok(Time_t {
-                    seconds: dur_since_epoch.as_secs() as i32,
+                Some(Time_t {
+                    seconds: i32::try_from(dur_since_epoch.as_secs()).ok()?,
                     fraction: fraction as u32,
                 })
             })
@@ -53,8 +54,10 @@ impl TryFrom<Time_t> for SystemTime {
         match time {
             Time_t::TIME_INVALID => Err("Conversion from Time_t::TIME_INVALID"),
             _ => {
+                let seconds = u64::try_from(time.seconds)
+                    .map_err(|_| "Conversion from Time_t before the UNIX epoch")?;
                 let fraction = (i64::from(time.fraction) * NANOS_PER_SEC) >> 32;
-                Ok(std::time::UNIX_EPOCH + Duration::new(time.seconds as u64, fraction as u32))
+                Ok(std::time::UNIX_EPOCH + Duration::new(seconds, fraction as u32))
             }
         }
     }
-- 
2.43.0


From 087a2f6ef94f7d7593430687e1b0adb1513156a5 Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 09/16] fix: durations out of range neither wrap around nor
 panic

---
 src/structure/duration.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/structure/duration.rs b/src/structure/duration.rs
index 4854901..145c2cd 100644
--- a/src/structure/duration.rs
+++ b/src/structure/duration.rs
@@ -1,5 +1,5 @@
 use speedy::{Readable, Writable};
-use std::convert::From;
+use std::convert::{From, TryFrom};
 use std::time::Duration;
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Readable, Writable)]
@@ -25,16 +25,23 @@ impl Duration_t {
 
 impl From<Duration> for Duration_t {
     fn from(duration: Duration) -> Self {
-        Duration_t {
-            seconds: duration.as_secs() as i32,
-            fraction: duration.subsec_nanos() as u32,
+        match i32::try_from(duration.as_secs()) {
+            Ok(seconds) => Duration_t {
+                seconds,
+                fraction: duration.subsec_nanos() as u32,
+            },
+            Err(_) => Duration_t::DURATION_INFINITE,
         }
     }
 }
 
 impl From<Duration_t> for Duration {
     fn from(duration: Duration_t) -> Self {
-        Duration::new(duration.seconds as u64, duration.fraction)
+        match u64::try_from(duration.seconds) {
+            Ok(seconds) => Duration::new(seconds, duration.fraction),
+            // There are no negative durations
+            Err(_) => Duration::new(0, 0),
+        }
     }
 }
 
-- 
2.43.0


From ca4c769376d8ae1afe1ae7dffce7593b33086e6f Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 10/16] fix: pad parameters to a multiple of four bytes, accept
 empty ones

---
 src/messages/submessage_elements/parameter.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 1764277..8e81455 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -14,10 +14,10 @@ impl<'a, C: Context> Readable<'a, C> for Parameter {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
         let parameter_id: ParameterId = reader.read_value()?;
-        let length = reader.read_u16()?;
-        let alignment = length % 4;
+        let length = usize::from(reader.read_u16()?);
+        let alignment = (4 - length % 4) % 4;
 
-        let mut value = Vec::with_capacity((length + alignment) as usize);
+        let mut value = Vec::with_capacity(length + alignment);
 
         for _ in 0..(length + alignment) {
             let byte = reader.read_u8()?;
@@ -32,7 +32,7 @@ impl<'a, C: Context> Readable<'a, C> for Parameter {
 
     #[inline]
     fn minimum_bytes_needed() -> usize {
-        8
+        4
     }
 }
 
@@ -42,7 +42,7 @@ impl<C: Context> Writable<C> for Parameter {
         writer.write_value(&self.parameter_id)?;
 
         let length = self.value.len();
-        let alignment = length % 4;
+        let alignment = (4 - length % 4) % 4;
         writer.write_u16((length + alignment) as u16)?;
 
         for byte in &self.value {
-- 
2.43.0


From 52f7010d9024774464cef2e5fbea025b3b392bc4 Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 11/16] sim: hooks do not depend on the containers of readers
 and changes

---
 src/behavior/reader_locator.rs  | 4 ++--
 src/behavior/stateful_writer.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/behavior/reader_locator.rs b/src/behavior/reader_locator.rs
index cd74e8b..c856ba2 100644
--- a/src/behavior/reader_locator.rs
+++ b/src/behavior/reader_locator.rs
@@ -55,8 +55,8 @@ impl ReaderLocator {
 impl ReaderLocator {
     pub fn sim_new(locator: Locator_t, expects_inline_qos: bool) -> Self {
         ReaderLocator {
-            requested_changes: vec![],
-            unsent_changes: vec![],
+            requested_changes: Default::default(),
+            unsent_changes: Default::default(),
             locator,
             expects_inline_qos,
         }
diff --git a/src/behavior/stateful_writer.rs b/src/behavior/stateful_writer.rs
index 20863c2..a93c1d4 100644
--- a/src/behavior/stateful_writer.rs
+++ b/src/behavior/stateful_writer.rs
@@ -85,7 +85,7 @@ impl StatefulWriter {
         writer: WriterAttributes,
     ) -> Self {
         StatefulWriter {
-            matched_readers: vec![],
+            matched_readers: Default::default(),
             entity,
             endpoint,
             writer,
-- 
2.43.0


From 30482707e359f740d1a25d132d714d3a8a1549c2 Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:11 +0000
Subject: [PATCH 12/16] sim: hooks do not depend on the containers of
 histories, readers and locators

---
 src/behavior/stateful_writer.rs  | 4 ++--
 src/behavior/stateless_writer.rs | 4 ++--
 src/structure/history_cache.rs   | 4 ----
 3 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/behavior/stateful_writer.rs b/src/behavior/stateful_writer.rs
index a93c1d4..41bc4bb 100644
--- a/src/behavior/stateful_writer.rs
+++ b/src/behavior/stateful_writer.rs
@@ -92,8 +92,8 @@ impl StatefulWriter {
         }
     }
 
-    pub fn sim_matched_readers(&mut self) -> &mut [ReaderProxy] {
-        &mut self.matched_readers
+    pub fn sim_matched_readers(&mut self) -> impl Iterator<Item = &mut ReaderProxy> {
+        self.matched_readers.iter_mut()
     }
 }
 
diff --git a/src/behavior/stateless_writer.rs b/src/behavior/stateless_writer.rs
index 376a2f4..f86dbc4 100644
--- a/src/behavior/stateless_writer.rs
+++ b/src/behavior/stateless_writer.rs
@@ -134,8 +134,8 @@ pub mod sim {
             self.0.reader_locator_remove(a_locator)
         }
 
-        pub fn reader_locators(&self) -> &[ReaderLocator] {
-            &self.0.reader_locators
+        pub fn reader_locators(&self) -> impl Iterator<Item = &ReaderLocator> {
+            self.0.reader_locators.iter()
         }
 
         pub fn as_entity(&self) -> &EntityAttributes {
diff --git a/src/structure/history_cache.rs b/src/structure/history_cache.rs
index f5af956..90101ea 100644
--- a/src/structure/history_cache.rs
+++ b/src/structure/history_cache.rs
@@ -73,10 +73,6 @@ pub mod sim {
         pub fn get_seq_num_max(&self) -> Option<SequenceNumber_t> {
             self.0.get_seq_num_max().copied()
         }
-
-        pub fn changes(&self) -> &[CacheChange] {
-            &self.0.changes
-        }
     }
 }
 
-- 
2.43.0


From 3ef04ccc672240158b3510c2f39ec205379a76e4 Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:36 +0000
Subject: [PATCH 13/16] sim: a stateful writer may have further fields

---
 src/behavior/stateful_writer.rs | 45 ++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/behavior/stateful_writer.rs b/src/behavior/stateful_writer.rs
index 41bc4bb..dbeb206 100644
--- a/src/behavior/stateful_writer.rs
+++ b/src/behavior/stateful_writer.rs
@@ -8,6 +8,7 @@ use crate::structure::entity::{Entity, EntityAttributes};
 use crate::structure::guid::GUID_t;
 use crate::structure::instance_handle::InstanceHandle_t;
 
+#[cfg_attr(rtps_sim, derive(Default))]
 pub struct StatefulWriter {
     /// The StatefulWriter keeps track of all the RTPS Readers matched with it.
     /// Each matched reader is represented by an instance of the ReaderProxy
@@ -76,6 +77,48 @@ impl StatefulWriter {
     }
 }
 
+/// Simulator seam: attributes to start from, see `StatefulWriter::sim_new`.
+#[cfg(rtps_sim)]
+mod sim {
+    use super::*;
+    use crate::structure::duration::Duration_t;
+    use crate::structure::locator::Locator_t;
+    use crate::structure::reliability_kind::ReliabilityKind_t;
+    use crate::structure::sequence_number::SequenceNumber_t;
+    use crate::structure::topic_kind::TopicKind_t;
+
+    impl Default for EntityAttributes {
+        fn default() -> Self {
+            EntityAttributes {
+                guid: GUID_t::GUID_UNKNOWN,
+            }
+        }
+    }
+
+    impl Default for EndpointAttributes {
+        fn default() -> Self {
+            EndpointAttributes {
+                topic_kind: TopicKind_t::NO_KEY,
+                reliability_level: ReliabilityKind_t::RELIABLE,
+                unicast_locator_list: Locator_t::LOCATOR_INVALID,
+                multicast_locator_list: Locator_t::LOCATOR_INVALID,
+            }
+        }
+    }
+
+    impl Default for WriterAttributes {
+        fn default() -> Self {
+            WriterAttributes {
+                push_mode: true,
+                heartbeat_period: Duration_t::DURATION_ZERO,
+                nack_response_delay: Duration_t::DURATION_ZERO,
+                nack_suppression_duration: Duration_t::DURATION_ZERO,
+                last_change_sequence_number: SequenceNumber_t::from(0),
+            }
+        }
+    }
+}
+
 /// Simulator seam: there is no other way to build a stateful writer yet.
 #[cfg(rtps_sim)]
 impl StatefulWriter {
@@ -85,10 +128,10 @@ impl StatefulWriter {
         writer: WriterAttributes,
     ) -> Self {
         StatefulWriter {
-            matched_readers: Default::default(),
             entity,
             endpoint,
             writer,
+            ..Default::default()
         }
     }
 
-- 
2.43.0


From 0e76ec74e4c23099d518f5691c6c3958e52b8dca Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:15 +0000
Subject: [PATCH 14/16] sim: a reader locator may have further fields

---
 src/behavior/reader_locator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/behavior/reader_locator.rs b/src/behavior/reader_locator.rs
index c856ba2..ad143fa 100644
--- a/src/behavior/reader_locator.rs
+++ b/src/behavior/reader_locator.rs
@@ -6,6 +6,7 @@ use crate::structure::sequence_number::SequenceNumber_t;
 /// Valuetype used by the RTPS StatelessWriter to keep track
 /// of the locators of all matching remote Readers
 #[derive(Debug, PartialEq)]
+#[cfg_attr(rtps_sim, derive(Default))]
 pub struct ReaderLocator {
     /// A list of changes in the writer’s HistoryCache that
     /// were requested by remote Readers at this ReaderLocator
@@ -55,10 +56,9 @@ impl ReaderLocator {
 impl ReaderLocator {
     pub fn sim_new(locator: Locator_t, expects_inline_qos: bool) -> Self {
         ReaderLocator {
-            requested_changes: Default::default(),
-            unsent_changes: Default::default(),
             locator,
             expects_inline_qos,
+            ..Default::default()
         }
     }
 
-- 
2.43.0


From 9736566273741e245a065975a275307dbe8e7fbe Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:34 +0000
Subject: [PATCH 15/16] sim: the hooks of the writers have a guard of their own

---
 src/behavior/reader_locator.rs   | 4 ++--
 src/behavior/stateful_writer.rs  | 6 +++---
 src/behavior/stateless_writer.rs | 2 +-
 src/lib.rs                       | 5 +++--
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/behavior/reader_locator.rs b/src/behavior/reader_locator.rs
index ad143fa..4cf0ae2 100644
--- a/src/behavior/reader_locator.rs
+++ b/src/behavior/reader_locator.rs
@@ -6,7 +6,7 @@ use crate::structure::sequence_number::SequenceNumber_t;
 /// Valuetype used by the RTPS StatelessWriter to keep track
 /// of the locators of all matching remote Readers
 #[derive(Debug, PartialEq)]
-#[cfg_attr(rtps_sim, derive(Default))]
+#[cfg_attr(rtps_sim = "writers", derive(Default))]
 pub struct ReaderLocator {
     /// A list of changes in the writer’s HistoryCache that
     /// were requested by remote Readers at this ReaderLocator
@@ -52,7 +52,7 @@ impl ReaderLocator {
 }
 
 /// Simulator seam: there is no other way to build a reader locator yet.
-#[cfg(rtps_sim)]
+#[cfg(rtps_sim = "writers")]
 impl ReaderLocator {
     pub fn sim_new(locator: Locator_t, expects_inline_qos: bool) -> Self {
         ReaderLocator {
diff --git a/src/behavior/stateful_writer.rs b/src/behavior/stateful_writer.rs
index dbeb206..8875d17 100644
--- a/src/behavior/stateful_writer.rs
+++ b/src/behavior/stateful_writer.rs
@@ -8,7 +8,7 @@ use crate::structure::entity::{Entity, EntityAttributes};
 use crate::structure::guid::GUID_t;
 use crate::structure::instance_handle::InstanceHandle_t;
 
-#[cfg_attr(rtps_sim, derive(Default))]
+#[cfg_attr(rtps_sim = "writers", derive(Default))]
 pub struct StatefulWriter {
     /// The StatefulWriter keeps track of all the RTPS Readers matched with it.
     /// Each matched reader is represented by an instance of the ReaderProxy
@@ -78,7 +78,7 @@ impl StatefulWriter {
 }
 
 /// Simulator seam: attributes to start from, see `StatefulWriter::sim_new`.
-#[cfg(rtps_sim)]
+#[cfg(rtps_sim = "writers")]
 mod sim {
     use super::*;
     use crate::structure::duration::Duration_t;
@@ -120,7 +120,7 @@ mod sim {
 }
 
 /// Simulator seam: there is no other way to build a stateful writer yet.
-#[cfg(rtps_sim)]
+#[cfg(rtps_sim = "writers")]
 impl StatefulWriter {
     pub fn sim_new(
         entity: EntityAttributes,
diff --git a/src/behavior/stateless_writer.rs b/src/behavior/stateless_writer.rs
index f86dbc4..b66b032 100644
--- a/src/behavior/stateless_writer.rs
+++ b/src/behavior/stateless_writer.rs
@@ -96,7 +96,7 @@ impl StatelessWriter {
 }
 
 /// Simulator seam: the stateless writer is private to this module.
-#[cfg(rtps_sim)]
+#[cfg(rtps_sim = "writers")]
 pub mod sim {
     use super::*;
 
diff --git a/src/lib.rs b/src/lib.rs
index 6648f21..6297fa5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,13 +26,14 @@ mod structure;
 /// only with `--cfg rtps_sim`.
 #[cfg(rtps_sim)]
 pub mod sim {
+    #[cfg(rtps_sim = "writers")]
     pub use crate::behavior::reader_locator::ReaderLocator;
     pub use crate::behavior::reader_proxy::ReaderProxy;
+    #[cfg(rtps_sim = "writers")]
     pub use crate::behavior::stateful_writer::StatefulWriter;
+    #[cfg(rtps_sim = "writers")]
     pub use crate::behavior::stateless_writer::sim::SimStatelessWriter;
     pub use crate::behavior::writer::{Writer, WriterAttributes};
-    pub use crate::common::bit_set::BitSetRef;
-    pub use crate::common::ranged_bit_set::RangedBitSet;
     pub use crate::common::validity_trait::Validity;
     pub use crate::messages::ack_nack::AckNack;
     pub use crate::messages::fragment_number::FragmentNumber_t;
-- 
2.43.0


From 1a414d7afd067f145aae0b4239e03d6dc569de01 Mon Sep 17 00:00:00 2001
From: sim <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:55 +0000
Subject: [PATCH 16/16] sim: hooks of stateless and stateful writers apart

---
 src/behavior/reader_locator.rs   | 4 ++--
 src/behavior/stateful_writer.rs  | 6 +++---
 src/behavior/stateless_writer.rs | 2 +-
 src/lib.rs                       | 6 +++---
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/behavior/reader_locator.rs b/src/behavior/reader_locator.rs
index 4cf0ae2..99bf36c 100644
--- a/src/behavior/reader_locator.rs
+++ b/src/behavior/reader_locator.rs
@@ -6,7 +6,7 @@ use crate::structure::sequence_number::SequenceNumber_t;
 /// Valuetype used by the RTPS StatelessWriter to keep track
 /// of the locators of all matching remote Readers
 #[derive(Debug, PartialEq)]
-#[cfg_attr(rtps_sim = "writers", derive(Default))]
+#[cfg_attr(rtps_sim = "stateless", derive(Default))]
 pub struct ReaderLocator {
     /// A list of changes in the writer’s HistoryCache that
     /// were requested by remote Readers at this ReaderLocator
@@ -52,7 +52,7 @@ impl ReaderLocator {
 }
 
 /// Simulator seam: there is no other way to build a reader locator yet.
-#[cfg(rtps_sim = "writers")]
+#[cfg(rtps_sim = "stateless")]
 impl ReaderLocator {
     pub fn sim_new(locator: Locator_t, expects_inline_qos: bool) -> Self {
         ReaderLocator {
diff --git a/src/behavior/stateful_writer.rs b/src/behavior/stateful_writer.rs
index 8875d17..ec59d5c 100644
--- a/src/behavior/stateful_writer.rs
+++ b/src/behavior/stateful_writer.rs
@@ -8,7 +8,7 @@ use crate::structure::entity::{Entity, EntityAttributes};
 use crate::structure::guid::GUID_t;
 use crate::structure::instance_handle::InstanceHandle_t;
 
-#[cfg_attr(rtps_sim = "writers", derive(Default))]
+#[cfg_attr(rtps_sim = "stateful", derive(Default))]
 pub struct StatefulWriter {
     /// The StatefulWriter keeps track of all the RTPS Readers matched with it.
     /// Each matched reader is represented by an instance of the ReaderProxy
@@ -78,7 +78,7 @@ impl StatefulWriter {
 }
 
 /// Simulator seam: attributes to start from, see `StatefulWriter::sim_new`.
-#[cfg(rtps_sim = "writers")]
+#[cfg(rtps_sim = "stateful")]
 mod sim {
     use super::*;
     use crate::structure::duration::Duration_t;
@@ -120,7 +120,7 @@ mod sim {
 }
 
 /// Simulator seam: there is no other way to build a stateful writer yet.
-#[cfg(rtps_sim = "writers")]
+#[cfg(rtps_sim = "stateful")]
 impl StatefulWriter {
     pub fn sim_new(
         entity: EntityAttributes,
diff --git a/src/behavior/stateless_writer.rs b/src/behavior/stateless_writer.rs
index b66b032..889edd4 100644
--- a/src/behavior/stateless_writer.rs
+++ b/src/behavior/stateless_writer.rs
@@ -96,7 +96,7 @@ impl StatelessWriter {
 }
 
 /// Simulator seam: the stateless writer is private to this module.
-#[cfg(rtps_sim = "writers")]
+#[cfg(rtps_sim = "stateless")]
 pub mod sim {
     use super::*;
 
diff --git a/src/lib.rs b/src/lib.rs
index 6297fa5..b8d6327 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,12 +26,12 @@ mod structure;
 /// only with `--cfg rtps_sim`.
 #[cfg(rtps_sim)]
 pub mod sim {
-    #[cfg(rtps_sim = "writers")]
+    #[cfg(rtps_sim = "stateless")]
     pub use crate::behavior::reader_locator::ReaderLocator;
     pub use crate::behavior::reader_proxy::ReaderProxy;
-    #[cfg(rtps_sim = "writers")]
+    #[cfg(rtps_sim = "stateful")]
     pub use crate::behavior::stateful_writer::StatefulWriter;
-    #[cfg(rtps_sim = "writers")]
+    #[cfg(rtps_sim = "stateless")]
     pub use crate::behavior::stateless_writer::sim::SimStatelessWriter;
     pub use crate::behavior::writer::{Writer, WriterAttributes};
     pub use crate::common::validity_trait::Validity;
-- 
2.43.0

