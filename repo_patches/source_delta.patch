From a64034cd5bdbe5cdd20d4ce0cc48362581389141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:50 +0000
Subject: [PATCH 01/62] fix: decode timestamps before the epoch

---
 codec/src/codec/decode.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 8985fcc..c55d207 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -609,21 +609,9 @@ fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
 }
 
 fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
-    let seconds = millis / 1000;
-    if seconds < 0 {
-        // In order to handle time before 1970 correctly, we need to subtract a second
-        // and use the nanoseconds field to add it back. This is a result of the nanoseconds
-        // parameter being u32
-        let nanoseconds = ((1000 + (millis - (seconds * 1000))) * 1_000_000).unsigned_abs();
-        Utc.timestamp_opt(seconds - 1, nanoseconds as u32)
-            .earliest()
-            .ok_or(AmqpParseError::DatetimeParseError)
-    } else {
-        let nanoseconds = ((millis - (seconds * 1000)) * 1_000_000).unsigned_abs();
-        Utc.timestamp_opt(seconds, nanoseconds as u32)
-            .earliest()
-            .ok_or(AmqpParseError::DatetimeParseError)
-    }
+    Utc.timestamp_millis_opt(millis)
+        .earliest()
+        .ok_or(AmqpParseError::DatetimeParseError)
 }
 
 fn read_fixed_bytes<const N: usize>(input: &mut Bytes) -> Result<[u8; N], AmqpParseError> {
-- 
2.43.0


From da460c22028232bf6f73c8e1a266845407ec20af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 02/62] fix: reject compound values with a declared size below
 their count field

---
 codec/src/codec/decode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index c55d207..e199db7 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -594,7 +594,8 @@ fn decode_frame_header(input: &mut Bytes, expected_frame_type: u8) -> Result<u16
 
 fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 2);
-    let size = input[0] - 1; // -1 for 1 byte count
+    // -1 for 1 byte count
+    let size = input[0].checked_sub(1).ok_or(AmqpParseError::InvalidSize)?;
     let count = input[1];
     input.advance(2);
     Ok((u32::from(size), u32::from(count)))
@@ -602,7 +603,10 @@ fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
 
 fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    // -4 for 4 byte count
+    let size = BigEndian::read_u32(input)
+        .checked_sub(4)
+        .ok_or(AmqpParseError::InvalidSize)?;
     let count = BigEndian::read_u32(&input[4..]);
     input.advance(8);
     Ok((size, count))
-- 
2.43.0


From 35091ad5015f03efe841933b502afaf0962221ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 03/62] fix: keep decoding of collections within their declared
 size

---
 codec/src/codec/decode.rs | 96 +++++++++++++++++++++++++++++----------
 codec/src/types/array.rs  |  5 +-
 2 files changed, 75 insertions(+), 26 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index e199db7..f6c98a0 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -244,17 +244,18 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = MapHeader::decode_with_format(input, fmt)?;
-        decode_check_len!(input, header.size as usize);
-        let mut map_input = input.split_to(header.size as usize);
-        let count = header.count / 2;
-        let mut map: collections::HashMap<K, V, S> =
-            collections::HashMap::with_capacity_and_hasher(count as usize, Default::default());
+        let mut map_input = compound_content(input, header.size)?;
+        let count = map_pairs(header.count, &map_input)?;
+        let mut map: collections::HashMap<K, V, S> = collections::HashMap::with_capacity_and_hasher(
+            initial_capacity(count),
+            Default::default(),
+        );
         for _ in 0..count {
             let key = K::decode(&mut map_input)?;
             let value = V::decode(&mut map_input)?;
             map.insert(key, value); // todo: ensure None returned?
         }
-        // todo: validate map_input is empty
+        ensure_consumed(&map_input)?;
         Ok(map)
     }
 }
@@ -262,8 +263,8 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ArrayHeader::decode_with_format(input, fmt)?;
-        decode_check_len!(input, header.size as usize);
-        let elem_ctor = Constructor::decode(input)?;
+        let mut content = compound_content(input, header.size)?;
+        let elem_ctor = Constructor::decode(&mut content)?;
         let elem_fmt = match elem_ctor {
             Constructor::FormatCode(code) => code,
             Constructor::Described { descriptor, .. } => {
@@ -271,12 +272,13 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
                 return Err(AmqpParseError::InvalidDescriptor(Box::new(descriptor)));
             }
         };
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        validate_array_count(header.count, &content)?;
+        let mut result: Vec<T> = Vec::with_capacity(initial_capacity(header.count));
         for _ in 0..header.count {
-            let decoded = T::decode_with_format(input, elem_fmt)?;
+            let decoded = T::decode_with_format(&mut content, elem_fmt)?;
             result.push(decoded);
         }
-        // todo: ensure header.size bytes were read out from input
+        ensure_consumed(&content)?;
         Ok(result)
     }
 }
@@ -284,16 +286,15 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
 impl DecodeFormatted for VecSymbolMap {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = MapHeader::decode_with_format(input, fmt)?;
-        decode_check_len!(input, header.size as usize);
-        let mut map_input = input.split_to(header.size as usize);
-        let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map_input = compound_content(input, header.size)?;
+        let count = map_pairs(header.count, &map_input)?;
+        let mut map = Vec::with_capacity(initial_capacity(count));
         for _ in 0..count {
             let key = Symbol::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
             map.push((key, value)); // todo: mg: ensure None is returned
         }
-        // todo: ensure header.size bytes were read out from input after header
+        ensure_consumed(&map_input)?;
         Ok(VecSymbolMap(map))
     }
 }
@@ -301,16 +302,15 @@ impl DecodeFormatted for VecSymbolMap {
 impl DecodeFormatted for VecStringMap {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = MapHeader::decode_with_format(input, fmt)?;
-        decode_check_len!(input, header.size as usize);
-        let mut map_input = input.split_to(header.size as usize);
-        let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map_input = compound_content(input, header.size)?;
+        let count = map_pairs(header.count, &map_input)?;
+        let mut map = Vec::with_capacity(initial_capacity(count));
         for _ in 0..count {
             let key = Str::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
             map.push((key, value)); // todo: ensure None returned?
         }
-        // todo: validate map_input is empty
+        ensure_consumed(&map_input)?;
         Ok(VecStringMap(map))
     }
 }
@@ -338,11 +338,13 @@ impl<T: DecodeFormatted> DecodeFormatted for Multiple<T> {
 impl DecodeFormatted for List {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ListHeader::decode_with_format(input, fmt)?;
-        let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
+        let mut content = compound_content(input, header.size)?;
+        let mut result: Vec<Variant> = Vec::with_capacity(initial_capacity(header.count));
         for _ in 0..header.count {
-            let decoded = Variant::decode(input)?;
+            let decoded = Variant::decode(&mut content)?;
             result.push(decoded);
         }
+        ensure_consumed(&content)?;
         Ok(List(result))
     }
 }
@@ -350,11 +352,12 @@ impl DecodeFormatted for List {
 impl<T: Composite> DecodeFormatted for ListDescribed<T> {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ListHeader::decode_with_format(input, fmt)?;
+        let mut content = compound_content(input, header.size)?;
 
         let descr = T::descriptor();
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(initial_capacity(header.count));
         for _ in 0..header.count {
-            if let Variant::DescribedCompound(decoded) = Variant::decode(input)? {
+            if let Variant::DescribedCompound(decoded) = Variant::decode(&mut content)? {
                 if &descr != decoded.descriptor() {
                     return Err(AmqpParseError::UnexpectedType("Unexpected descriptor"));
                 }
@@ -363,6 +366,7 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
                 return Err(AmqpParseError::UnexpectedType("Expected compound type"));
             }
         }
+        ensure_consumed(&content)?;
 
         Ok(ListDescribed(result))
     }
@@ -612,6 +616,48 @@ fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     Ok((size, count))
 }
 
+/// Split off the content of a compound value or array
+fn compound_content(input: &mut Bytes, size: u32) -> Result<Bytes, AmqpParseError> {
+    let size = size as usize;
+    decode_check_len!(input, size);
+    Ok(input.split_to(size))
+}
+
+/// Elements of a compound value must take all of its declared size
+pub(crate) fn ensure_consumed(content: &Bytes) -> Result<(), AmqpParseError> {
+    if content.is_empty() {
+        Ok(())
+    } else {
+        Err(AmqpParseError::InvalidSize)
+    }
+}
+
+/// Number of key-value pairs, every pair takes at least two bytes
+fn map_pairs(count: u32, content: &Bytes) -> Result<u32, AmqpParseError> {
+    if count % 2 != 0 || count as usize > content.len() {
+        Err(AmqpParseError::InvalidSize)
+    } else {
+        Ok(count / 2)
+    }
+}
+
+/// Element count comes from the wire, larger collections grow as elements get decoded
+pub(crate) fn initial_capacity(count: u32) -> usize {
+    count.min(256) as usize
+}
+
+/// Max number of array elements that do not take any space
+const MAX_EMPTY_ELEMENTS: usize = u16::MAX as usize;
+
+/// The number of zero-width elements is not limited by the size of the array
+pub(crate) fn validate_array_count(count: u32, content: &Bytes) -> Result<(), AmqpParseError> {
+    if count as usize > content.len().max(MAX_EMPTY_ELEMENTS) {
+        Err(AmqpParseError::InvalidSize)
+    } else {
+        Ok(())
+    }
+}
+
 fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
     Utc.timestamp_millis_opt(millis)
         .earliest()
diff --git a/codec/src/types/array.rs b/codec/src/types/array.rs
index 5dc5337..9d01ed7 100644
--- a/codec/src/types/array.rs
+++ b/codec/src/types/array.rs
@@ -1,5 +1,6 @@
 use ntex_bytes::{BufMut, Bytes, BytesMut};
 
+use crate::codec::decode::{ensure_consumed, initial_capacity, validate_array_count};
 use crate::codec::{self, ArrayEncode, ArrayHeader, Decode, DecodeFormatted, Encode};
 use crate::error::AmqpParseError;
 use crate::types::Constructor;
@@ -39,11 +40,12 @@ impl Array {
     /// AMQP type of array's element constructor. Use `Array::element_constructor` to access full constructor if needed.
     pub fn decode<T: DecodeFormatted>(&self) -> Result<Vec<T>, AmqpParseError> {
         let mut buf = self.payload.clone();
-        let mut result: Vec<T> = Vec::with_capacity(self.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(initial_capacity(self.count));
         for _ in 0..self.count {
             let decoded = T::decode_with_format(&mut buf, self.element_constructor.format_code())?;
             result.push(decoded);
         }
+        ensure_consumed(&buf)?;
         Ok(result)
     }
 }
@@ -92,6 +94,7 @@ impl DecodeFormatted for Array {
         decode_check_len!(input, size);
         let mut payload = input.split_to(size);
         let element_constructor = Constructor::decode(&mut payload)?;
+        validate_array_count(header.count, &payload)?;
 
         Ok(Array {
             element_constructor,
-- 
2.43.0


From dbc38062b81bd9fecef692b1107c6c2e3489755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 04/62] fix: reject composite values with unknown trailing
 content

---
 codec/codegen/definitions.rs      |  5 +++--
 codec/src/codec/decode.rs         |  9 +++++++++
 codec/src/protocol/definitions.rs | 28 +++++++++++++++++++++++++---
 codec/src/protocol/mod.rs         |  2 +-
 4 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/codec/codegen/definitions.rs b/codec/codegen/definitions.rs
index 7b2548b..0048acd 100644
--- a/codec/codegen/definitions.rs
+++ b/codec/codegen/definitions.rs
@@ -3,7 +3,7 @@
 use derive_more::From;
 
 use super::*;
-use crate::codec::{decode_format_code, ListHeader};
+use crate::codec::{decode::ensure_list_end, decode_format_code, ListHeader};
 
 #[derive(Clone, Debug, PartialEq, Eq, From)]
 pub enum Frame {
@@ -461,8 +461,9 @@ fn decode_{{snake list.name}}_inner(input: &mut Bytes) -> Result<{{list.name}},
     }
     {{/if}}
     {{/each}}
+    ensure_list_end(count, &data)?;
     {{else}}
-    input.advance(size);
+    ensure_list_end(header.count, &input.split_to(size))?;
     {{/if}}
 
     {{#if list.transfer}}
diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index f6c98a0..6463ef4 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -632,6 +632,15 @@ pub(crate) fn ensure_consumed(content: &Bytes) -> Result<(), AmqpParseError> {
     }
 }
 
+/// Nothing is left in the list of a composite type after its last known field
+pub(crate) fn ensure_list_end(fields_left: u32, content: &Bytes) -> Result<(), AmqpParseError> {
+    if fields_left == 0 {
+        ensure_consumed(content)
+    } else {
+        Err(AmqpParseError::InvalidSize)
+    }
+}
+
 /// Number of key-value pairs, every pair takes at least two bytes
 fn map_pairs(count: u32, content: &Bytes) -> Result<u32, AmqpParseError> {
     if count % 2 != 0 || count as usize > content.len() {
diff --git a/codec/src/protocol/definitions.rs b/codec/src/protocol/definitions.rs
index b1107d3..3faafe0 100644
--- a/codec/src/protocol/definitions.rs
+++ b/codec/src/protocol/definitions.rs
@@ -1,6 +1,6 @@
 #![allow(unused_assignments, unused_variables, unreachable_patterns)]
 use super::*;
-use crate::codec::{ListHeader, decode_format_code};
+use crate::codec::{ListHeader, decode::ensure_list_end, decode_format_code};
 use derive_more::From;
 #[derive(Clone, Debug, PartialEq, Eq, From)]
 pub enum Frame {
@@ -1111,6 +1111,7 @@ fn decode_error_inner(input: &mut Bytes) -> Result<Error, AmqpParseError> {
     } else {
         info = None;
     }
+    ensure_list_end(count, &data)?;
     Ok(Error(Box::new(ErrorInner {
         condition,
         description,
@@ -1423,6 +1424,7 @@ fn decode_open_inner(input: &mut Bytes) -> Result<Open, AmqpParseError> {
     } else {
         properties = None;
     }
+    ensure_list_end(count, &data)?;
     Ok(Open(Box::new(OpenInner {
         container_id,
         hostname,
@@ -1722,6 +1724,7 @@ fn decode_begin_inner(input: &mut Bytes) -> Result<Begin, AmqpParseError> {
     } else {
         properties = None;
     }
+    ensure_list_end(count, &data)?;
     Ok(Begin(Box::new(BeginInner {
         remote_channel,
         next_outgoing_id,
@@ -2141,6 +2144,7 @@ fn decode_attach_inner(input: &mut Bytes) -> Result<Attach, AmqpParseError> {
     } else {
         properties = None;
     }
+    ensure_list_end(count, &data)?;
     Ok(Attach(Box::new(AttachInner {
         name,
         handle,
@@ -2520,6 +2524,7 @@ fn decode_flow_inner(input: &mut Bytes) -> Result<Flow, AmqpParseError> {
     } else {
         properties = None;
     }
+    ensure_list_end(count, &data)?;
     Ok(Flow(Box::new(FlowInner {
         next_incoming_id,
         incoming_window,
@@ -2890,6 +2895,7 @@ fn decode_transfer_inner(input: &mut Bytes) -> Result<Transfer, AmqpParseError>
     } else {
         batchable = false;
     }
+    ensure_list_end(count, &data)?;
     let body = if input.is_empty() {
         None
     } else {
@@ -3154,6 +3160,7 @@ fn decode_disposition_inner(input: &mut Bytes) -> Result<Disposition, AmqpParseE
     } else {
         batchable = false;
     }
+    ensure_list_end(count, &data)?;
     Ok(Disposition(Box::new(DispositionInner {
         role,
         first,
@@ -3323,6 +3330,7 @@ fn decode_detach_inner(input: &mut Bytes) -> Result<Detach, AmqpParseError> {
     } else {
         error = None;
     }
+    ensure_list_end(count, &data)?;
     Ok(Detach(Box::new(DetachInner {
         handle,
         closed,
@@ -3416,6 +3424,7 @@ fn decode_end_inner(input: &mut Bytes) -> Result<End, AmqpParseError> {
     } else {
         error = None;
     }
+    ensure_list_end(count, &data)?;
     Ok(End { error })
 }
 fn encoded_size_end_inner(list: &End) -> usize {
@@ -3497,6 +3506,7 @@ fn decode_close_inner(input: &mut Bytes) -> Result<Close, AmqpParseError> {
     } else {
         error = None;
     }
+    ensure_list_end(count, &data)?;
     Ok(Close { error })
 }
 fn encoded_size_close_inner(list: &Close) -> usize {
@@ -3581,6 +3591,7 @@ fn decode_sasl_mechanisms_inner(input: &mut Bytes) -> Result<SaslMechanisms, Amq
             "sasl_server_mechanisms",
         ));
     }
+    ensure_list_end(count, &data)?;
     Ok(SaslMechanisms {
         sasl_server_mechanisms,
     })
@@ -3697,6 +3708,7 @@ fn decode_sasl_init_inner(input: &mut Bytes) -> Result<SaslInit, AmqpParseError>
     } else {
         hostname = None;
     }
+    ensure_list_end(count, &data)?;
     Ok(SaslInit {
         mechanism,
         initial_response,
@@ -3791,6 +3803,7 @@ fn decode_sasl_challenge_inner(input: &mut Bytes) -> Result<SaslChallenge, AmqpP
     } else {
         return Err(AmqpParseError::RequiredFieldOmitted("challenge"));
     }
+    ensure_list_end(count, &data)?;
     Ok(SaslChallenge { challenge })
 }
 fn encoded_size_sasl_challenge_inner(list: &SaslChallenge) -> usize {
@@ -3873,6 +3886,7 @@ fn decode_sasl_response_inner(input: &mut Bytes) -> Result<SaslResponse, AmqpPar
     } else {
         return Err(AmqpParseError::RequiredFieldOmitted("response"));
     }
+    ensure_list_end(count, &data)?;
     Ok(SaslResponse { response })
 }
 fn encoded_size_sasl_response_inner(list: &SaslResponse) -> usize {
@@ -3971,6 +3985,7 @@ fn decode_sasl_outcome_inner(input: &mut Bytes) -> Result<SaslOutcome, AmqpParse
     } else {
         additional_data = None;
     }
+    ensure_list_end(count, &data)?;
     Ok(SaslOutcome {
         code,
         additional_data,
@@ -4220,6 +4235,7 @@ fn decode_source_inner(input: &mut Bytes) -> Result<Source, AmqpParseError> {
     } else {
         capabilities = None;
     }
+    ensure_list_end(count, &data)?;
     Ok(Source {
         address,
         durable,
@@ -4445,6 +4461,7 @@ fn decode_target_inner(input: &mut Bytes) -> Result<Target, AmqpParseError> {
     } else {
         capabilities = None;
     }
+    ensure_list_end(count, &data)?;
     Ok(Target {
         address,
         durable,
@@ -4622,6 +4639,7 @@ fn decode_header_inner(input: &mut Bytes) -> Result<Header, AmqpParseError> {
     } else {
         delivery_count = 0;
     }
+    ensure_list_end(count, &data)?;
     Ok(Header {
         durable,
         priority,
@@ -4915,6 +4933,7 @@ fn decode_properties_inner(input: &mut Bytes) -> Result<Properties, AmqpParseErr
     } else {
         reply_to_group_id = None;
     }
+    ensure_list_end(count, &data)?;
     Ok(Properties {
         message_id,
         user_id,
@@ -5066,6 +5085,7 @@ fn decode_received_inner(input: &mut Bytes) -> Result<Received, AmqpParseError>
     } else {
         return Err(AmqpParseError::RequiredFieldOmitted("section_offset"));
     }
+    ensure_list_end(count, &data)?;
     Ok(Received {
         section_number,
         section_offset,
@@ -5132,7 +5152,7 @@ fn decode_accepted_inner(input: &mut Bytes) -> Result<Accepted, AmqpParseError>
     let header = ListHeader::decode_with_format(input, format)?;
     let size = header.size as usize;
     decode_check_len!(input, size);
-    input.advance(size);
+    ensure_list_end(header.count, &input.split_to(size))?;
     Ok(Accepted {})
 }
 fn encoded_size_accepted_inner(list: &Accepted) -> usize {
@@ -5213,6 +5233,7 @@ fn decode_rejected_inner(input: &mut Bytes) -> Result<Rejected, AmqpParseError>
     } else {
         error = None;
     }
+    ensure_list_end(count, &data)?;
     Ok(Rejected { error })
 }
 fn encoded_size_rejected_inner(list: &Rejected) -> usize {
@@ -5275,7 +5296,7 @@ fn decode_released_inner(input: &mut Bytes) -> Result<Released, AmqpParseError>
     let header = ListHeader::decode_with_format(input, format)?;
     let size = header.size as usize;
     decode_check_len!(input, size);
-    input.advance(size);
+    ensure_list_end(header.count, &input.split_to(size))?;
     Ok(Released {})
 }
 fn encoded_size_released_inner(list: &Released) -> usize {
@@ -5388,6 +5409,7 @@ fn decode_modified_inner(input: &mut Bytes) -> Result<Modified, AmqpParseError>
     } else {
         message_annotations = None;
     }
+    ensure_list_end(count, &data)?;
     Ok(Modified {
         delivery_failed,
         undeliverable_here,
diff --git a/codec/src/protocol/mod.rs b/codec/src/protocol/mod.rs
index dd01dbf..6722f2f 100644
--- a/codec/src/protocol/mod.rs
+++ b/codec/src/protocol/mod.rs
@@ -3,7 +3,7 @@ use std::fmt;
 
 use chrono::{DateTime, Utc};
 use derive_more::From;
-use ntex_bytes::{Buf, BufMut, ByteString, Bytes, BytesMut};
+use ntex_bytes::{BufMut, ByteString, Bytes, BytesMut};
 use uuid::Uuid;
 
 use crate::codec::{self, Decode, DecodeFormatted, Encode};
-- 
2.43.0


From 524f3fa1d8cbd3438877be07be7295a45469eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 05/62] fix: limit nesting level of decoded values

---
 codec/src/codec/decode.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 6463ef4..bc62777 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -1,4 +1,4 @@
-use std::{char, collections, convert::TryFrom, hash::BuildHasher, hash::Hash};
+use std::{cell::Cell, char, collections, convert::TryFrom, hash::BuildHasher, hash::Hash};
 
 use byteorder::{BigEndian, ByteOrder};
 use chrono::{DateTime, TimeZone, Utc};
@@ -372,8 +372,38 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
     }
 }
 
+/// Max nesting level of a value
+const MAX_VALUE_DEPTH: usize = 128;
+
+thread_local! {
+    static VALUE_DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Tracks nesting level of the value that is being decoded
+struct DepthGuard;
+
+impl DepthGuard {
+    fn enter() -> Result<DepthGuard, AmqpParseError> {
+        VALUE_DEPTH.with(|depth| {
+            if depth.get() < MAX_VALUE_DEPTH {
+                depth.set(depth.get() + 1);
+                Ok(DepthGuard)
+            } else {
+                Err(AmqpParseError::InvalidSize)
+            }
+        })
+    }
+}
+
+impl Drop for DepthGuard {
+    fn drop(&mut self) {
+        VALUE_DEPTH.with(|depth| depth.set(depth.get() - 1));
+    }
+}
+
 impl DecodeFormatted for Variant {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
+        let _guard = DepthGuard::enter()?;
         match fmt {
             codec::FORMATCODE_NULL => Ok(Variant::Null),
             codec::FORMATCODE_BOOLEAN => bool::decode_with_format(input, fmt).map(Variant::Boolean),
-- 
2.43.0


From 77122432ee2fe681716e938eb1e58aa3212684e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 06/62] fix: allow maps as map keys

---
 codec/src/types/variant.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/codec/src/types/variant.rs b/codec/src/types/variant.rs
index 1c56460..7410384 100644
--- a/codec/src/types/variant.rs
+++ b/codec/src/types/variant.rs
@@ -1,4 +1,4 @@
-use std::hash::{Hash, Hasher};
+use std::hash::{DefaultHasher, Hash, Hasher};
 
 use chrono::{DateTime, Utc};
 use ntex_bytes::{ByteString, Bytes, BytesMut};
@@ -251,10 +251,16 @@ impl VariantMap {
     }
 }
 
-#[allow(clippy::derived_hash_with_manual_eq)]
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // equal maps could have different iteration order
+        let entries = self.map.iter().fold(0u64, |acc, entry| {
+            let mut hasher = DefaultHasher::new();
+            entry.hash(&mut hasher);
+            acc.wrapping_add(hasher.finish())
+        });
+        state.write_usize(self.map.len());
+        state.write_u64(entries);
     }
 }
 
-- 
2.43.0


From 65ac221426f22f97401635a1f7a567c0f5ca3a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 07/62] fix: decode zero descriptors

---
 codec/src/codec/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index bc62777..2e7a6ac 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -519,7 +519,9 @@ impl DecodeFormatted for Descriptor {
             codec::FORMATCODE_SMALLULONG => {
                 u64::decode_with_format(input, fmt).map(Descriptor::Ulong)
             }
-            codec::FORMATCODE_ULONG => u64::decode_with_format(input, fmt).map(Descriptor::Ulong),
+            codec::FORMATCODE_ULONG | codec::FORMATCODE_ULONG_0 => {
+                u64::decode_with_format(input, fmt).map(Descriptor::Ulong)
+            }
             codec::FORMATCODE_SYMBOL8 => {
                 Symbol::decode_with_format(input, fmt).map(Descriptor::Symbol)
             }
-- 
2.43.0


From 0734c34f593c8fa0ca07971ac0c7390203b544b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 08/62] fix: encode arrays with more than 255 zero-width
 elements

---
 codec/src/types/array.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/codec/src/types/array.rs b/codec/src/types/array.rs
index 9d01ed7..a4d89e2 100644
--- a/codec/src/types/array.rs
+++ b/codec/src/types/array.rs
@@ -59,10 +59,17 @@ where
     }
 }
 
+impl Array {
+    /// Size and count, elements could have zero width, must fit array8 header
+    fn is_array32(&self, ctor_len: usize) -> bool {
+        self.payload.len() + ctor_len + 1 > u8::MAX as usize || self.count > u32::from(u8::MAX)
+    }
+}
+
 impl Encode for Array {
     fn encoded_size(&self) -> usize {
         let ctor_len = self.element_constructor.encoded_size();
-        let header_len = if self.payload.len() + ctor_len + 1 > u8::MAX as usize {
+        let header_len = if self.is_array32(ctor_len) {
             9 // 1 for format code, 4 for size, 4 for count
         } else {
             3 // 1 for format code, 1 for size, 1 for count
@@ -73,7 +80,7 @@ impl Encode for Array {
 
     fn encode(&self, buf: &mut BytesMut) {
         let ctor_len = self.element_constructor.encoded_size();
-        if self.payload.len() + ctor_len + 1 > u8::MAX as usize {
+        if self.is_array32(ctor_len) {
             buf.put_u8(codec::FORMATCODE_ARRAY32);
             buf.put_u32((4 + ctor_len + self.payload.len()) as u32); // size. 4 for count
             buf.put_u32(self.count);
-- 
2.43.0


From b686add0698e940d08cc2aa83d7ec9f3b39dcc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:00 +0000
Subject: [PATCH 09/62] fix: do not cache encoded size of a message

---
 codec/src/message/message.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/codec/src/message/message.rs b/codec/src/message/message.rs
index 3ceb4cb..60b9567 100644
--- a/codec/src/message/message.rs
+++ b/codec/src/message/message.rs
@@ -1,5 +1,3 @@
-use std::cell::Cell;
-
 use ntex_bytes::{Bytes, BytesMut};
 
 use crate::codec::{Decode, Encode};
@@ -23,7 +21,6 @@ pub struct MessageInner {
     pub application_properties: Option<VecStringMap>,
     pub footer: Option<Annotations>,
     pub body: MessageBody,
-    size: Cell<usize>,
 }
 
 impl Message {
@@ -55,7 +52,6 @@ impl Message {
     /// Set message header
     pub fn set_header(&mut self, header: Header) -> &mut Self {
         self.0.header = Some(header);
-        self.0.size.set(0);
         self
     }
 
@@ -79,7 +75,6 @@ impl Message {
             self.0.properties = Some(Properties::default());
         }
 
-        self.0.size.set(0);
         self.0.properties.as_mut().unwrap()
     }
 
@@ -96,7 +91,6 @@ impl Message {
             f(&mut props);
             self.0.properties = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -138,7 +132,6 @@ impl Message {
             props.push((key.into(), value.into()));
             self.0.application_properties = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -168,7 +161,6 @@ impl Message {
             props.push((key.into(), value.into()));
             self.0.message_annotations = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -202,7 +194,6 @@ impl Message {
     where
         F: Fn(Self) -> Self,
     {
-        self.0.size.set(0);
         f(self)
     }
 
@@ -213,7 +204,6 @@ impl Message {
         F: Fn(Self, &T) -> Self,
     {
         if let Some(val) = value {
-            self.0.size.set(0);
             f(self, val)
         } else {
             self
@@ -252,7 +242,6 @@ impl Message {
         F: FnOnce(&mut MessageBody),
     {
         f(&mut self.0.body);
-        self.0.size.set(0);
         self
     }
 
@@ -314,11 +303,6 @@ impl Decode for Message {
 
 impl Encode for Message {
     fn encoded_size(&self) -> usize {
-        let size = self.0.size.get();
-        if size != 0 {
-            return size;
-        }
-
         let mut size = self.0.body.encoded_size();
 
         if let Some(ref h) = self.0.header {
@@ -339,7 +323,6 @@ impl Encode for Message {
         if let Some(ref f) = self.0.footer {
             size += f.encoded_size() + SECTION_PREFIX_LENGTH;
         }
-        self.0.size.set(size);
         size
     }
 
-- 
2.43.0


From 920dc9d9e50cb760d523b99ca9587548220f69c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:03 +0000
Subject: [PATCH 10/62] fix: keep frame boundaries after a decode error

---
 codec/src/io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/src/io.rs b/codec/src/io.rs
index 0b05e69..189ae89 100644
--- a/codec/src/io.rs
+++ b/codec/src/io.rs
@@ -73,7 +73,7 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                     if self.max_size != 0 && size > self.max_size {
                         return Err(AmqpCodecError::MaxSizeExceeded);
                     }
-                    if size <= 4 {
+                    if size < HEADER_LEN {
                         return Err(AmqpCodecError::InvalidFrameSize);
                     }
                     self.state.set(DecodeState::Frame(size - 4));
@@ -88,13 +88,13 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                         return Ok(None);
                     }
 
+                    self.state.set(DecodeState::FrameHeader);
                     let mut frame_buf = src.split_to(size);
                     let frame = T::decode(&mut frame_buf)?;
                     if !frame_buf.is_empty() {
                         // todo: could it really happen?
                         return Err(AmqpCodecError::UnparsedBytesLeft);
                     }
-                    self.state.set(DecodeState::FrameHeader);
                     return Ok(Some(frame));
                 }
             }
-- 
2.43.0


From 96d0b40545720011f16a5197cca9a10dd203c47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:16 +0000
Subject: [PATCH 11/62] fix: do not grant credit on reduced or stale link flow

---
 src/sndlink.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sndlink.rs b/src/sndlink.rs
index a4d1018..a611658 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -292,11 +292,11 @@ impl SenderLinkInner {
     pub(crate) fn apply_flow(&mut self, flow: &Flow) {
         // #2.7.6
         if let Some(credit) = flow.link_credit() {
-            let new_credit = flow
-                .delivery_count()
-                .unwrap_or(0)
-                .wrapping_add(credit)
-                .wrapping_sub(self.delivery_count);
+            // deliveries sent after receiver's state snapshot already used the credit
+            let in_flight = self
+                .delivery_count
+                .wrapping_sub(flow.delivery_count().unwrap_or(0));
+            let new_credit = credit.saturating_sub(in_flight);
 
             log::trace!(
                 "{}: Apply sender link {:?} flow, credit: {:?}, delivery count: {:?}, local delivery count: {:?}, pending: {:?}, old credit {:?}",
-- 
2.43.0


From 31ff7cc59d2204148436fcd335f6e53d8a26cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:56 +0000
Subject: [PATCH 12/62] fix: match attach responses by name and role of opening
 links

---
 src/session.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 099cfbc..e8c4fa0 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -42,6 +42,9 @@ pub(crate) struct SessionInner {
 
     links: Slab<Either<SenderLinkState, ReceiverLinkState>>,
     links_by_name: HashMap<ByteString, usize>,
+    /// Local links waiting for remote attach
+    opening_senders: HashMap<ByteString, usize>,
+    opening_receivers: HashMap<ByteString, usize>,
     remote_handles: HashMap<Handle, usize>,
     error: Option<AmqpProtocolError>,
     closed: condition::Condition,
@@ -301,6 +304,8 @@ impl SessionInner {
             unsettled_rcv_deliveries: HashMap::default(),
             links: Slab::new(),
             links_by_name: HashMap::default(),
+            opening_senders: HashMap::default(),
+            opening_receivers: HashMap::default(),
             remote_handles: HashMap::default(),
             pending_transfers: VecDeque::new(),
             error: None,
@@ -356,6 +361,8 @@ impl SessionInner {
 
         // drop links
         self.links_by_name.clear();
+        self.opening_senders.clear();
+        self.opening_receivers.clear();
         for (_, st) in &mut self.links {
             match st {
                 Either::Left(SenderLinkState::Established(link)) => {
@@ -453,6 +460,7 @@ impl SessionInner {
         frame.0.handle = token as Handle;
 
         self.links_by_name.insert(frame.0.name.clone(), token);
+        self.opening_senders.insert(frame.0.name.clone(), token);
         self.post_frame(Frame::Attach(frame));
         rx
     }
@@ -667,7 +675,7 @@ impl SessionInner {
 
         frame.0.handle = token as Handle;
 
-        self.links_by_name.insert(frame.0.name.clone(), token);
+        self.opening_receivers.insert(frame.0.name.clone(), token);
         self.post_frame(Frame::Attach(frame));
         rx
     }
@@ -869,7 +877,13 @@ impl SessionInner {
     pub(crate) fn handle_attach(&mut self, attach: &Attach, cell: Cell<SessionInner>) -> bool {
         let name = attach.name();
 
-        if let Some(index) = self.links_by_name.get(name) {
+        // attach is a response if there is local link of opposite role with same name
+        let index = match attach.role() {
+            Role::Receiver => self.opening_senders.remove(name),
+            Role::Sender => self.opening_receivers.remove(name),
+        };
+
+        if let Some(ref index) = index {
             match self.links.get_mut(*index) {
                 Some(Either::Left(item)) => {
                     if item.is_opening() {
-- 
2.43.0


From d8c2693948141da147e5a98d4c7e0c8c894b006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:44 +0000
Subject: [PATCH 13/62] fix: forget name of a link when the link is removed

---
 src/session.rs | 29 ++++++++++++++---------------
 src/sndlink.rs |  4 ----
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index e8c4fa0..a649b7f 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -415,6 +415,16 @@ impl SessionInner {
         self.sink.0.max_frame_size
     }
 
+    /// Remove link, its id could be re-used by other link
+    fn remove_link(&mut self, idx: usize) {
+        if self.links.contains(idx) {
+            self.links.remove(idx);
+        }
+        self.links_by_name.retain(|_, id| *id != idx);
+        self.opening_senders.retain(|_, id| *id != idx);
+        self.opening_receivers.retain(|_, id| *id != idx);
+    }
+
     /// Initialize creation of remote sender link
     pub(crate) fn new_remote_sender(&mut self, attach: &Attach) -> (usize, Attach) {
         let id = self
@@ -593,9 +603,7 @@ impl SessionInner {
         }));
         self.post_frame(detach.into());
 
-        if self.links.contains(token) {
-            self.links.remove(token);
-        }
+        self.remove_link(token);
     }
 
     pub(crate) fn get_sender_link_by_local_handle(&self, hnd: Handle) -> Option<&SenderLink> {
@@ -736,9 +744,7 @@ impl SessionInner {
                     }));
                     self.post_frame(detach.into());
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
-                    }
+                    self.remove_link(id as usize);
                 }
                 ReceiverLinkState::Established(receiver_link) => {
                     let receiver_link = receiver_link.clone();
@@ -757,9 +763,7 @@ impl SessionInner {
                 }
                 ReceiverLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
-                    }
+                    self.remove_link(id as usize);
                     log::error!(
                         "{}: Unexpected receiver link state: closing - {id}",
                         self.tag()
@@ -986,9 +990,6 @@ impl SessionInner {
                         }));
                         let err = AmqpProtocolError::LinkDetached(detach.0.error.clone());
 
-                        // remove name
-                        self.links_by_name.remove(link.inner.name());
-
                         // drop pending transfers
                         let mut idx = 0;
                         let handle = link.inner.get_ref().remote_handle();
@@ -1094,9 +1095,7 @@ impl SessionInner {
         };
 
         if remove {
-            if self.links.contains(idx) {
-                self.links.remove(idx);
-            }
+            self.remove_link(idx);
             self.remote_handles.remove(&handle);
         }
         action
diff --git a/src/sndlink.rs b/src/sndlink.rs
index a611658..341d2e2 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -234,10 +234,6 @@ impl SenderLinkInner {
         self.remote_handle
     }
 
-    pub(crate) fn name(&self) -> &ByteString {
-        &self.name
-    }
-
     pub(crate) fn max_message_size(&self) -> Option<u32> {
         self.max_message_size
     }
-- 
2.43.0


From 58e25740b9cbabb98e6d6749921cb036d228628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 14/62] fix: answer refused sender link with sender role and
 wait for its detach

---
 src/session.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index a649b7f..5b2fd04 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -577,18 +577,19 @@ impl SessionInner {
         error: Option<Error>,
     ) {
         let token = link.id;
+        let remote_handle = attach.handle();
 
         let attach = Attach(Box::new(codec::AttachInner {
             name: attach.0.name.clone(),
             handle: token as Handle,
-            role: attach.0.role,
+            role: Role::Sender,
             snd_settle_mode: SenderSettleMode::Unsettled,
             rcv_settle_mode: ReceiverSettleMode::First,
             source: None,
             target: None,
             unsettled: None,
             incomplete_unsettled: false,
-            initial_delivery_count: None,
+            initial_delivery_count: Some(0),
             max_message_size: None,
             offered_capabilities: None,
             desired_capabilities: None,
@@ -603,7 +604,11 @@ impl SessionInner {
         }));
         self.post_frame(detach.into());
 
-        self.remove_link(token);
+        // wait for detach confirmation
+        if let Some(item) = self.links.get_mut(token) {
+            *item = Either::Left(SenderLinkState::Closing(None));
+            self.remote_handles.insert(remote_handle, token);
+        }
     }
 
     pub(crate) fn get_sender_link_by_local_handle(&self, hnd: Handle) -> Option<&SenderLink> {
-- 
2.43.0


From 6a9dd4d57c5e27fedd8a78d5ffb32bab916bedfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:20 +0000
Subject: [PATCH 15/62] fix: handle detach of a sender link which is not
 confirmed yet

---
 src/connection.rs |  9 ++---
 src/session.rs    | 97 ++++++++++++++++++++++++++++++-----------------
 2 files changed, 66 insertions(+), 40 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 46570e2..4c39573 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -9,7 +9,6 @@ use crate::codec::protocol::{self as codec, Begin, Close, End, Error, Frame, Rol
 use crate::codec::{AmqpCodec, AmqpFrame, types};
 use crate::control::ControlQueue;
 use crate::session::{INITIAL_NEXT_OUTGOING_ID, Session, SessionInner};
-use crate::sndlink::{SenderLink, SenderLinkInner};
 use crate::{
     AmqpServiceConfig, RemoteServiceConfig, cell::Cell, error::AmqpProtocolError, types::Action,
 };
@@ -424,11 +423,9 @@ impl ConnectionInner {
                                 match attach.0.role {
                                     Role::Receiver => {
                                         // remotly opened sender link
-                                        let (id, response) =
-                                            session.get_mut().new_remote_sender(&attach);
-                                        let link = SenderLink::new(Cell::new(
-                                            SenderLinkInner::with(id, &attach, session.clone()),
-                                        ));
+                                        let (link, response) = session
+                                            .get_mut()
+                                            .new_remote_sender(session.clone(), &attach);
                                         Ok(Action::AttachSender(link, attach, response))
                                     }
                                     Role::Sender => {
diff --git a/src/session.rs b/src/session.rs
index 5b2fd04..3db150d 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -241,7 +241,7 @@ impl Session {
 #[derive(Debug)]
 enum SenderLinkState {
     Established(EstablishedSenderLink),
-    OpeningRemote,
+    OpeningRemote(Cell<SenderLinkInner>, Attach),
     Opening(Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>),
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
@@ -373,6 +373,9 @@ impl SessionInner {
                         let _ = tx.send(Err(err.clone()));
                     }
                 }
+                Either::Left(SenderLinkState::OpeningRemote(link, _)) => {
+                    link.get_mut().remote_detached(err.clone());
+                }
                 Either::Right(ReceiverLinkState::Established(link)) => {
                     link.remote_detached(None);
                 }
@@ -426,12 +429,21 @@ impl SessionInner {
     }
 
     /// Initialize creation of remote sender link
-    pub(crate) fn new_remote_sender(&mut self, attach: &Attach) -> (usize, Attach) {
-        let id = self
-            .links
-            .insert(Either::Left(SenderLinkState::OpeningRemote));
+    pub(crate) fn new_remote_sender(
+        &mut self,
+        cell: Cell<SessionInner>,
+        attach: &Attach,
+    ) -> (SenderLink, Attach) {
+        let entry = self.links.vacant_entry();
+        let id = entry.key();
+        let link = Cell::new(SenderLinkInner::with(id, attach, cell));
+        entry.insert(Either::Left(SenderLinkState::OpeningRemote(
+            link.clone(),
+            attach.clone(),
+        )));
+        self.remote_handles.insert(attach.handle(), id);
 
-        let attach = Attach(Box::new(codec::AttachInner {
+        let response = Attach(Box::new(codec::AttachInner {
             name: attach.0.name.clone(),
             handle: id as Handle,
             role: Role::Sender,
@@ -448,7 +460,7 @@ impl SessionInner {
             properties: None,
         }));
 
-        (id, attach)
+        (SenderLink::new(link), response)
     }
 
     /// Open sender link
@@ -487,6 +499,10 @@ impl SessionInner {
             self.tag(),
             attach.name()
         );
+        if !self.is_unconfirmed_sender_link(&link) {
+            log::trace!("{}: Sender link is gone: {:?}", self.tag(), attach.name());
+            return SenderLink::new(link);
+        }
         let token = link.id;
 
         if let Some(source) = attach.source()
@@ -495,13 +511,9 @@ impl SessionInner {
             self.links_by_name.insert(addr.clone(), token);
         }
 
-        self.remote_handles.insert(attach.handle(), token);
-        *self
-            .links
-            .get_mut(token)
-            .expect("new remote sender entry must exist") = Either::Left(
-            SenderLinkState::Established(EstablishedSenderLink::new(link.clone())),
-        );
+        self.links[token] = Either::Left(SenderLinkState::Established(EstablishedSenderLink::new(
+            link.clone(),
+        )));
 
         *response.handle_mut() = token as Handle;
         *response.max_message_size_mut() = link.max_message_size().map(u64::from);
@@ -545,12 +557,10 @@ impl SessionInner {
                             crate::ControlFrameKind::LocalDetachSender(detach, sender_link),
                         ));
                 }
-                SenderLinkState::OpeningRemote => {
-                    let _ = tx.send(Ok(()));
-                    log::error!(
-                        "{}: Unexpected sender link state: opening remote - {id}",
-                        self.tag()
-                    );
+                SenderLinkState::OpeningRemote(_, attach) => {
+                    let attach = attach.clone();
+                    *link = SenderLinkState::Closing(Some(tx));
+                    self.post_refused_sender_link(id, &attach, closed, error);
                 }
                 SenderLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
@@ -576,12 +586,32 @@ impl SessionInner {
         link: &Cell<SenderLinkInner>,
         error: Option<Error>,
     ) {
-        let token = link.id;
-        let remote_handle = attach.handle();
+        if self.is_unconfirmed_sender_link(link) {
+            // wait for detach confirmation
+            self.links[link.id] = Either::Left(SenderLinkState::Closing(None));
+            self.post_refused_sender_link(link.id(), attach, true, error);
+        }
+    }
+
+    fn is_unconfirmed_sender_link(&self, link: &Cell<SenderLinkInner>) -> bool {
+        matches!(
+            self.links.get(link.id),
+            Some(Either::Left(SenderLinkState::OpeningRemote(inner, _)))
+                if std::ptr::eq(inner.get_ref(), link.get_ref())
+        )
+    }
 
+    /// Answer to remote attach and detach link right away
+    fn post_refused_sender_link(
+        &mut self,
+        handle: Handle,
+        attach: &Attach,
+        closed: bool,
+        error: Option<Error>,
+    ) {
         let attach = Attach(Box::new(codec::AttachInner {
             name: attach.0.name.clone(),
-            handle: token as Handle,
+            handle,
             role: Role::Sender,
             snd_settle_mode: SenderSettleMode::Unsettled,
             rcv_settle_mode: ReceiverSettleMode::First,
@@ -598,17 +628,11 @@ impl SessionInner {
         self.post_frame(attach.into());
 
         let detach = Detach(Box::new(codec::DetachInner {
-            handle: token as Handle,
-            closed: true,
+            handle,
+            closed,
             error,
         }));
         self.post_frame(detach.into());
-
-        // wait for detach confirmation
-        if let Some(item) = self.links.get_mut(token) {
-            *item = Either::Left(SenderLinkState::Closing(None));
-            self.remote_handles.insert(remote_handle, token);
-        }
     }
 
     pub(crate) fn get_sender_link_by_local_handle(&self, hnd: Handle) -> Option<&SenderLink> {
@@ -1022,11 +1046,16 @@ impl SessionInner {
                         action = Action::DetachSender(link.clone(), frame);
                         true
                     }
-                    SenderLinkState::OpeningRemote => {
-                        log::warn!(
+                    SenderLinkState::OpeningRemote(inner, attach) => {
+                        log::trace!(
                             "{}: Detach frame received for unconfirmed sender link: {frame:?}",
-                            self.tag()
+                            self.sink.tag()
                         );
+                        let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
+                        inner.get_mut().remote_detached(err);
+
+                        let attach = attach.clone();
+                        self.post_refused_sender_link(idx as Handle, &attach, true, None);
                         true
                     }
                     SenderLinkState::Closing(tx) => {
-- 
2.43.0


From 8d6abe563ad772832f4cf46f14953acab721ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:06 +0000
Subject: [PATCH 16/62] fix: handle detach of a receiver link which is not
 confirmed yet

---
 src/rcvlink.rs |  8 ++++++
 src/session.rs | 75 +++++++++++++++++++++++++++++++++-----------------
 2 files changed, 58 insertions(+), 25 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 884b932..e179b5a 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -85,6 +85,10 @@ impl ReceiverLink {
 
     pub(crate) fn confirm_receiver_link(&self, response: Attach) {
         let inner = self.inner.get_mut();
+        if inner.closed {
+            log::trace!("{}: Receiver link is gone", inner.session.tag());
+            return;
+        }
         let size = self.inner.get_ref().max_message_size;
         let size = if size != 0 { Some(size) } else { None };
         inner
@@ -262,6 +266,7 @@ impl ReceiverLinkInner {
         // drop pending transfers
         self.queue.clear();
         self.closed = true;
+        self.wake();
     }
 
     pub(crate) fn close(
@@ -290,6 +295,9 @@ impl ReceiverLinkInner {
     }
 
     pub(crate) fn set_link_credit(&mut self, credit: u32) {
+        if self.closed {
+            return;
+        }
         self.credit += credit;
         self.session
             .inner
diff --git a/src/session.rs b/src/session.rs
index 3db150d..ab61732 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -379,6 +379,11 @@ impl SessionInner {
                 Either::Right(ReceiverLinkState::Established(link)) => {
                     link.remote_detached(None);
                 }
+                Either::Right(ReceiverLinkState::Opening(item)) => {
+                    if let Some((link, _)) = item.take() {
+                        link.get_mut().detached();
+                    }
+                }
                 _ => (),
             }
         }
@@ -748,32 +753,11 @@ impl SessionInner {
             match link {
                 ReceiverLinkState::Opening(inner) => {
                     if let Some((inner, source)) = inner.take() {
-                        let attach = Attach(Box::new(codec::AttachInner {
-                            source,
-                            max_message_size: None,
-                            name: inner.name().clone(),
-                            handle: id,
-                            role: Role::Receiver,
-                            snd_settle_mode: SenderSettleMode::Mixed,
-                            rcv_settle_mode: ReceiverSettleMode::First,
-                            target: None,
-                            unsettled: None,
-                            incomplete_unsettled: false,
-                            initial_delivery_count: Some(0),
-                            offered_capabilities: None,
-                            desired_capabilities: None,
-                            properties: None,
-                        }));
-                        self.post_frame(attach.into());
+                        // wait for detach confirmation
+                        *link = ReceiverLinkState::Closing(None);
+                        self.post_refused_receiver_link(&inner, source, closed, error);
                     }
-                    let detach = Detach(Box::new(codec::DetachInner {
-                        closed,
-                        error,
-                        handle: id,
-                    }));
-                    self.post_frame(detach.into());
                     let _ = tx.send(Ok(()));
-                    self.remove_link(id as usize);
                 }
                 ReceiverLinkState::Established(receiver_link) => {
                     let receiver_link = receiver_link.clone();
@@ -809,6 +793,40 @@ impl SessionInner {
         }
     }
 
+    /// Answer to remote attach and detach link right away
+    fn post_refused_receiver_link(
+        &mut self,
+        link: &Cell<ReceiverLinkInner>,
+        source: Option<Source>,
+        closed: bool,
+        error: Option<Error>,
+    ) {
+        let attach = Attach(Box::new(codec::AttachInner {
+            source,
+            max_message_size: None,
+            name: link.name().clone(),
+            handle: link.id(),
+            role: Role::Receiver,
+            snd_settle_mode: SenderSettleMode::Mixed,
+            rcv_settle_mode: ReceiverSettleMode::First,
+            target: None,
+            unsettled: None,
+            incomplete_unsettled: false,
+            initial_delivery_count: Some(0),
+            offered_capabilities: None,
+            desired_capabilities: None,
+            properties: None,
+        }));
+        self.post_frame(attach.into());
+
+        let detach = Detach(Box::new(codec::DetachInner {
+            closed,
+            error,
+            handle: link.id(),
+        }));
+        self.post_frame(detach.into());
+    }
+
     pub(crate) fn get_receiver_link_by_local_handle(&self, hnd: Handle) -> Option<&ReceiverLink> {
         if let Some(Either::Right(ReceiverLinkState::Established(link))) =
             self.links.get(hnd as usize)
@@ -1070,7 +1088,14 @@ impl SessionInner {
                     }
                 },
                 Either::Right(link) => match link {
-                    ReceiverLinkState::Opening(_) => false,
+                    ReceiverLinkState::Opening(item) => {
+                        // link is not confirmed yet
+                        if let Some((inner, source)) = item.take() {
+                            inner.get_mut().detached();
+                            self.post_refused_receiver_link(&inner, source, true, None);
+                        }
+                        true
+                    }
                     ReceiverLinkState::OpeningLocal(item) => {
                         if let Some((inner, tx)) = item.take() {
                             inner.get_mut().detached();
-- 
2.43.0


From 9d4ba0de67843909a0cf1a7b120888aa93962183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:32 +0000
Subject: [PATCH 17/62] fix: detach of a link which is opening locally

---
 src/session.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index ab61732..df12db9 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -776,13 +776,24 @@ impl SessionInner {
                 }
                 ReceiverLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
-                    self.remove_link(id as usize);
                     log::error!(
                         "{}: Unexpected receiver link state: closing - {id}",
                         self.tag()
                     );
                 }
-                ReceiverLinkState::OpeningLocal(_inner) => unimplemented!(),
+                ReceiverLinkState::OpeningLocal(item) => {
+                    if let Some((inner, attach_tx)) = item.take() {
+                        inner.get_mut().detached();
+                        let _ = attach_tx.send(Err(AmqpProtocolError::LinkDetached(error.clone())));
+                    }
+                    let detach = Detach(Box::new(codec::DetachInner {
+                        handle: id,
+                        closed,
+                        error,
+                    }));
+                    *link = ReceiverLinkState::Closing(Some(tx));
+                    self.post_frame(detach.into());
+                }
             }
         } else {
             let _ = tx.send(Ok(()));
@@ -965,6 +976,9 @@ impl SessionInner {
                         if let SenderLinkState::Opening(Some(tx)) = local_sender {
                             let _ = tx.send(Ok(link));
                         }
+                    } else {
+                        // link is detached already, wait for remote detach
+                        self.remote_handles.insert(attach.handle(), *index);
                     }
                 }
                 Some(Either::Right(item)) => {
@@ -987,6 +1001,9 @@ impl SessionInner {
                                 log::error!("{}: Inconsistent session state, bug", self.tag());
                             }
                         }
+                    } else {
+                        // link is detached already, wait for remote detach
+                        self.remote_handles.insert(attach.handle(), *index);
                     }
                 }
                 _ => {
-- 
2.43.0


From 11e5b41c7781f0a76d2b480553e9be0e345fdca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:28 +0000
Subject: [PATCH 18/62] fix: do not detach local link by unknown remote handle

---
 src/session.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index df12db9..c16fc72 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1024,8 +1024,6 @@ impl SessionInner {
         // get local link instance
         let idx = if let Some(idx) = self.remote_handles.get(&frame.handle()) {
             *idx
-        } else if self.links.contains(frame.handle() as usize) {
-            frame.handle() as usize
         } else {
             // should not happen, error
             log::info!("{}: Detaching unknown link: {frame:?}", self.tag());
-- 
2.43.0


From 3a4c3f9ffbfd1c933e732f4edb62157f2786669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 19/62] fix: send queued deliveries in order and only while
 link is opened

---
 src/delivery.rs |   8 +--
 src/session.rs  |  92 +++++++++++++++---------
 src/sndlink.rs  | 187 ++++++++++++++++++++++++++++++++++--------------
 3 files changed, 198 insertions(+), 89 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index b733bf0..aec128b 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -339,11 +339,9 @@ impl TransferBuilder {
                 return Err(AmqpProtocolError::BodyTooLarge);
             }
 
-            let (id, tag) = self
-                .sender
-                .get_mut()
-                .send(self.data, self.tag, self.settled, self.format)
-                .await?;
+            let (id, tag) =
+                SenderLinkInner::send(&self.sender, self.data, self.tag, self.settled, self.format)
+                    .await?;
 
             Ok(Delivery {
                 id,
diff --git a/src/session.rs b/src/session.rs
index c16fc72..57157b1 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -286,6 +286,24 @@ struct PendingTransfer {
     link_handle: Handle,
 }
 
+/// Fail transfers of the link that wait for remote window
+fn drop_pending_transfers(
+    pending: &mut VecDeque<PendingTransfer>,
+    handle: Handle,
+    err: &AmqpProtocolError,
+) {
+    let mut idx = 0;
+    while idx < pending.len() {
+        if pending[idx].link_handle == handle {
+            if let Some(tr) = pending.remove(idx) {
+                let _ = tr.tx.send(Err(err.clone()));
+            }
+        } else {
+            idx += 1;
+        }
+    }
+}
+
 impl SessionInner {
     pub(crate) fn new(
         id: usize,
@@ -548,6 +566,12 @@ impl SessionInner {
                 }
                 SenderLinkState::Established(sender_link) => {
                     let sender_link = sender_link.clone();
+
+                    // drop pending transfers
+                    let err = AmqpProtocolError::LinkDetached(None);
+                    drop_pending_transfers(&mut self.pending_transfers, id, &err);
+                    sender_link.inner.get_mut().drop_pending_transfers(&err);
+
                     let detach = Detach(Box::new(codec::DetachInner {
                         handle: id,
                         closed,
@@ -1053,19 +1077,10 @@ impl SessionInner {
                         let err = AmqpProtocolError::LinkDetached(detach.0.error.clone());
 
                         // drop pending transfers
-                        let mut idx = 0;
-                        let handle = link.inner.get_ref().remote_handle();
-                        while idx < self.pending_transfers.len() {
-                            if self.pending_transfers[idx].link_handle == handle {
-                                let tr = self.pending_transfers.remove(idx).unwrap();
-                                let _ = tr.tx.send(Err(err.clone()));
-                            } else {
-                                idx += 1;
-                            }
-                        }
+                        let handle = link.inner.get_ref().id() as Handle;
+                        drop_pending_transfers(&mut self.pending_transfers, handle, &err);
 
                         // drop unsettled transfers
-                        let handle = link.inner.get_ref().id() as Handle;
                         for delivery in self.unsettled_snd_deliveries.values_mut() {
                             if delivery.handle() == handle {
                                 delivery.set_error(err.clone());
@@ -1279,33 +1294,46 @@ impl SessionInner {
         self.post_frame(flow.into());
     }
 
+    /// Check if session is not ended
+    pub(crate) fn check_opened(&self) -> Result<(), AmqpProtocolError> {
+        if let Some(ref err) = self.error {
+            Err(err.clone())
+        } else if self.flags.contains(Flags::ENDING) {
+            Err(AmqpProtocolError::SessionEnded(None))
+        } else {
+            Ok(())
+        }
+    }
+
+    /// Remote incoming window
+    pub(crate) fn remote_window(&self) -> u32 {
+        self.remote_incoming_window
+    }
+
+    /// Wait for remote incoming window
+    pub(crate) fn wait_window(
+        &mut self,
+        link_handle: Handle,
+    ) -> pool::Receiver<Result<(), AmqpProtocolError>> {
+        log::trace!(
+            "{}: Remote window is 0, push to pending queue, hnd:{link_handle:?}",
+            self.sink.tag()
+        );
+        let (tx, rx) = self.pool_credit.channel();
+        self.pending_transfers
+            .push_back(PendingTransfer { tx, link_handle });
+        rx
+    }
+
     #[allow(clippy::too_many_lines)]
-    pub(crate) async fn send_transfer(
+    pub(crate) fn send_transfer(
         &mut self,
         link_handle: Handle,
         tag: Bytes,
         body: TransferBody,
         settled: bool,
         format: Option<MessageFormat>,
-    ) -> Result<DeliveryNumber, AmqpProtocolError> {
-        loop {
-            if self.remote_incoming_window == 0 {
-                log::trace!(
-                    "{}: Remote window is 0, push to pending queue, hnd:{link_handle:?}",
-                    self.sink.tag()
-                );
-                let (tx, rx) = self.pool_credit.channel();
-                self.pending_transfers
-                    .push_back(PendingTransfer { tx, link_handle });
-
-                rx.await
-                    .map_err(|_| AmqpProtocolError::ConnectionDropped)
-                    .and_then(|v| v)?;
-                continue;
-            }
-            break;
-        }
-
+    ) -> DeliveryNumber {
         self.remote_incoming_window -= 1;
 
         let delivery_id = self.next_outgoing_id;
@@ -1413,7 +1441,7 @@ impl SessionInner {
             self.post_frame(Frame::Transfer(transfer));
         }
 
-        Ok(delivery_id)
+        delivery_id
     }
 
     pub(crate) fn post_frame(&mut self, frame: Frame) {
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 341d2e2..19affe7 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -25,7 +25,8 @@ pub(crate) struct SenderLinkInner {
     delivery_count: SequenceNo,
     delivery_tag: u32,
     link_credit: u32,
-    pending_transfers: VecDeque<pool::Sender<Result<(), AmqpProtocolError>>>,
+    pending_transfers: VecDeque<PendingSend>,
+    pending_id: usize,
     pub(crate) error: Option<AmqpProtocolError>,
     pub(crate) closed: bool,
     pub(crate) max_message_size: Option<u32>,
@@ -33,6 +34,12 @@ pub(crate) struct SenderLinkInner {
     on_credit: condition::Condition,
 }
 
+/// Delivery that waits for credit, deliveries are sent in order
+struct PendingSend {
+    id: usize,
+    tx: Option<pool::Sender<Result<(), AmqpProtocolError>>>,
+}
+
 impl std::fmt::Debug for SenderLink {
     fn fmt(&self, fmt: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         fmt.debug_tuple("SenderLink")
@@ -193,6 +200,7 @@ impl SenderLinkInner {
             remote_handle: handle,
             link_credit: 0,
             pending_transfers: VecDeque::new(),
+            pending_id: 0,
             error: None,
             closed: false,
             delivery_tag: 0,
@@ -230,10 +238,6 @@ impl SenderLinkInner {
         self.id as u32
     }
 
-    pub(crate) fn remote_handle(&self) -> Handle {
-        self.remote_handle
-    }
-
     pub(crate) fn max_message_size(&self) -> Option<u32> {
         self.max_message_size
     }
@@ -246,10 +250,7 @@ impl SenderLinkInner {
             err
         );
 
-        // drop pending transfers
-        for tx in self.pending_transfers.drain(..) {
-            let _ = tx.send(Err(err.clone()));
-        }
+        self.drop_pending_transfers(&err);
 
         self.closed = true;
         self.error = Some(err);
@@ -307,10 +308,8 @@ impl SenderLinkInner {
 
             self.link_credit = new_credit;
 
-            // credit became available => drain pending_transfers
-            while let Some(tx) = self.pending_transfers.pop_front() {
-                let _ = tx.send(Ok(()));
-            }
+            // credit became available => wake up first pending transfer
+            self.wake_pending_transfer();
 
             // notify available credit waiters
             if self.link_credit > 0 {
@@ -319,52 +318,62 @@ impl SenderLinkInner {
         }
     }
 
+    /// Fail deliveries waiting for credit
+    pub(crate) fn drop_pending_transfers(&mut self, err: &AmqpProtocolError) {
+        for item in self.pending_transfers.drain(..) {
+            if let Some(tx) = item.tx {
+                let _ = tx.send(Err(err.clone()));
+            }
+        }
+    }
+
+    fn wake_pending_transfer(&mut self) {
+        if let Some(item) = self.pending_transfers.front_mut()
+            && let Some(tx) = item.tx.take()
+        {
+            let _ = tx.send(Ok(()));
+        }
+    }
+
+    /// Check if deliveries could be sent over the link
+    fn check_opened(&self) -> Result<(), AmqpProtocolError> {
+        if let Some(ref err) = self.error {
+            Err(err.clone())
+        } else if self.closed {
+            Err(AmqpProtocolError::Disconnected)
+        } else {
+            self.session.inner.get_ref().check_opened()
+        }
+    }
+
     pub(crate) async fn send<T: Into<TransferBody>>(
-        &mut self,
+        link: &Cell<SenderLinkInner>,
         body: T,
         tag: Option<Bytes>,
         settled: bool,
         format: Option<MessageFormat>,
     ) -> Result<(DeliveryNumber, Bytes), AmqpProtocolError> {
-        if let Some(ref err) = self.error {
-            Err(err.clone())
-        } else {
-            let body = body.into();
-            let tag = self.get_tag(tag);
-
-            loop {
-                if self.link_credit == 0 || !self.pending_transfers.is_empty() {
-                    log::trace!(
-                        "{}: Sender link credit is 0({:?}), push to pending queue hnd:{}({} -> {}), queue size: {}",
-                        self.session.tag(),
-                        self.link_credit,
-                        self.name,
-                        self.id,
-                        self.remote_handle,
-                        self.pending_transfers.len()
-                    );
-                    let (tx, rx) = self.session.inner.get_ref().pool_credit.channel();
-                    self.pending_transfers.push_back(tx);
-                    rx.await
-                        .map_err(|_| AmqpProtocolError::ConnectionDropped)
-                        .and_then(|v| v)?;
-                    continue;
-                }
-                break;
-            }
-
-            // reduce link credit
-            self.link_credit -= 1;
-            self.delivery_count = self.delivery_count.wrapping_add(1);
-            let id = self
-                .session
-                .inner
-                .get_mut()
-                .send_transfer(self.id as u32, tag.clone(), body, settled, format)
-                .await?;
+        let inner = link.get_mut();
+        inner.check_opened()?;
+
+        let body = body.into();
+        let tag = inner.get_tag(tag);
+
+        let waiter = SendWaiter::new(link);
+        waiter.wait().await?;
+
+        // reduce link credit
+        inner.link_credit -= 1;
+        inner.delivery_count = inner.delivery_count.wrapping_add(1);
+        let id = inner.session.inner.get_mut().send_transfer(
+            inner.id as u32,
+            tag.clone(),
+            body,
+            settled,
+            format,
+        );
 
-            Ok((id, tag))
-        }
+        Ok((id, tag))
     }
 
     fn get_tag(&mut self, tag: Option<Bytes>) -> Bytes {
@@ -384,6 +393,80 @@ impl SenderLinkInner {
     }
 }
 
+/// Place in the queue of pending deliveries
+struct SendWaiter<'a> {
+    id: usize,
+    link: &'a Cell<SenderLinkInner>,
+}
+
+impl<'a> SendWaiter<'a> {
+    fn new(link: &'a Cell<SenderLinkInner>) -> Self {
+        let inner = link.get_mut();
+        let id = inner.pending_id;
+        inner.pending_id = id.wrapping_add(1);
+        inner
+            .pending_transfers
+            .push_back(PendingSend { id, tx: None });
+
+        SendWaiter { id, link }
+    }
+
+    /// Wait for own turn, link credit and session window
+    async fn wait(&self) -> Result<(), AmqpProtocolError> {
+        loop {
+            let rx = {
+                let inner = self.link.get_mut();
+                inner.check_opened()?;
+
+                let session = inner.session.inner.get_mut();
+                let idx = inner
+                    .pending_transfers
+                    .binary_search_by_key(&self.id, |item| item.id)
+                    .map_err(|_| AmqpProtocolError::Disconnected)?;
+
+                if idx == 0 && inner.link_credit > 0 {
+                    if session.remote_window() > 0 {
+                        return Ok(());
+                    }
+                    session.wait_window(inner.id as Handle)
+                } else {
+                    log::trace!(
+                        "{}: Sender link credit is {:?}, wait in pending queue hnd:{}({} -> {}), queue size: {}",
+                        session.tag(),
+                        inner.link_credit,
+                        inner.name,
+                        inner.id,
+                        inner.remote_handle,
+                        inner.pending_transfers.len()
+                    );
+                    let (tx, rx) = session.pool_credit.channel();
+                    inner.pending_transfers[idx].tx = Some(tx);
+                    rx
+                }
+            };
+
+            rx.await
+                .map_err(|_| AmqpProtocolError::ConnectionDropped)
+                .and_then(|v| v)?;
+        }
+    }
+}
+
+impl Drop for SendWaiter<'_> {
+    fn drop(&mut self) {
+        let inner = self.link.get_mut();
+        if let Ok(idx) = inner
+            .pending_transfers
+            .binary_search_by_key(&self.id, |item| item.id)
+        {
+            inner.pending_transfers.remove(idx);
+            if idx == 0 {
+                inner.wake_pending_transfer();
+            }
+        }
+    }
+}
+
 #[derive(Debug)]
 pub(crate) struct EstablishedSenderLink(SenderLink);
 
-- 
2.43.0


From e81a8a14047badcbfe44bc3747d11b4ca50b8572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:23 +0000
Subject: [PATCH 20/62] fix: zero max-message-size means no limit for sender

---
 src/delivery.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/delivery.rs b/src/delivery.rs
index aec128b..f5a623f 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -334,6 +334,7 @@ impl TransferBuilder {
             Err(AmqpProtocolError::Disconnected)
         } else {
             if let Some(limit) = inner.max_message_size
+                && limit != 0
                 && self.data.len() > limit as usize
             {
                 return Err(AmqpProtocolError::BodyTooLarge);
-- 
2.43.0


From 8e867027dd857761251a86596fd9dd8b0887cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:30 +0000
Subject: [PATCH 21/62] fix: use own initial delivery count for locally opened
 senders

---
 src/session.rs | 31 +++++++++++++++++--------------
 src/sndlink.rs |  4 +++-
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 57157b1..e156584 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -8,7 +8,7 @@ use slab::Slab;
 use ntex_amqp_codec::protocol::{
     self as codec, Accepted, Attach, Begin, DeliveryNumber, DeliveryState, Detach, Disposition,
     End, Error, Flow, Frame, Handle, MessageFormat, ReceiverSettleMode, Role, SenderSettleMode,
-    Source, Transfer, TransferBody, TransferNumber,
+    SequenceNo, Source, Transfer, TransferBody, TransferNumber,
 };
 use ntex_amqp_codec::{AmqpFrame, Encode};
 
@@ -242,7 +242,10 @@ impl Session {
 enum SenderLinkState {
     Established(EstablishedSenderLink),
     OpeningRemote(Cell<SenderLinkInner>, Attach),
-    Opening(Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>),
+    Opening(
+        Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>,
+        SequenceNo,
+    ),
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
 
@@ -259,12 +262,6 @@ enum ReceiverLinkState {
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
 
-impl SenderLinkState {
-    fn is_opening(&self) -> bool {
-        matches!(self, SenderLinkState::Opening(_))
-    }
-}
-
 impl ReceiverLinkState {
     fn is_opening(&self) -> bool {
         matches!(self, ReceiverLinkState::OpeningLocal(_))
@@ -495,7 +492,13 @@ impl SessionInner {
 
         let entry = self.links.vacant_entry();
         let token = entry.key();
-        entry.insert(Either::Left(SenderLinkState::Opening(Some(tx))));
+
+        // initial delivery count is required for sender
+        let delivery_count = *frame.0.initial_delivery_count.get_or_insert(0);
+        entry.insert(Either::Left(SenderLinkState::Opening(
+            Some(tx),
+            delivery_count,
+        )));
         log::trace!(
             "{}: Local sender link opening: {:?} hnd:{token:?}",
             self.tag(),
@@ -555,7 +558,7 @@ impl SessionInner {
     ) {
         if let Some(Either::Left(link)) = self.links.get_mut(id as usize) {
             match link {
-                SenderLinkState::Opening(_) => {
+                SenderLinkState::Opening(..) => {
                     let detach = Detach(Box::new(codec::DetachInner {
                         handle: id,
                         closed,
@@ -972,7 +975,8 @@ impl SessionInner {
         if let Some(ref index) = index {
             match self.links.get_mut(*index) {
                 Some(Either::Left(item)) => {
-                    if item.is_opening() {
+                    if let SenderLinkState::Opening(_, delivery_count) = item {
+                        let delivery_count = *delivery_count;
                         log::trace!(
                             "{}: Local sender link attached: {name:?} {index} -> {}, {:?}",
                             self.sink.tag(),
@@ -981,7 +985,6 @@ impl SessionInner {
                         );
 
                         self.remote_handles.insert(attach.handle(), *index);
-                        let delivery_count = attach.initial_delivery_count().unwrap_or(0);
                         let link = Cell::new(SenderLinkInner::new(
                             *index,
                             name.clone(),
@@ -997,7 +1000,7 @@ impl SessionInner {
                             SenderLinkState::Established(EstablishedSenderLink::new(link.clone())),
                         );
 
-                        if let SenderLinkState::Opening(Some(tx)) = local_sender {
+                        if let SenderLinkState::Opening(Some(tx), _) = local_sender {
                             let _ = tx.send(Ok(link));
                         }
                     } else {
@@ -1060,7 +1063,7 @@ impl SessionInner {
         let remove = if let Some(link) = self.links.get_mut(idx) {
             match link {
                 Either::Left(link) => match link {
-                    SenderLinkState::Opening(tx) => {
+                    SenderLinkState::Opening(tx, _) => {
                         if let Some(tx) = tx.take() {
                             let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
                             let _ = tx.send(Err(err));
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 19affe7..ff4160a 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -23,6 +23,7 @@ pub(crate) struct SenderLinkInner {
     pub(crate) session: Session,
     remote_handle: Handle,
     delivery_count: SequenceNo,
+    initial_delivery_count: SequenceNo,
     delivery_tag: u32,
     link_credit: u32,
     pending_transfers: VecDeque<PendingSend>,
@@ -195,6 +196,7 @@ impl SenderLinkInner {
             id,
             name,
             delivery_count,
+            initial_delivery_count: delivery_count,
             max_message_size,
             session: Session::new(session),
             remote_handle: handle,
@@ -292,7 +294,7 @@ impl SenderLinkInner {
             // deliveries sent after receiver's state snapshot already used the credit
             let in_flight = self
                 .delivery_count
-                .wrapping_sub(flow.delivery_count().unwrap_or(0));
+                .wrapping_sub(flow.delivery_count().unwrap_or(self.initial_delivery_count));
             let new_credit = credit.saturating_sub(in_flight);
 
             log::trace!(
-- 
2.43.0


From 317a8d76e39eae83d439b22df5b85b4b233ca714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:33 +0000
Subject: [PATCH 22/62] fix: do not open remote window on reduced or stale
 session flow

---
 src/session.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index e156584..ffe212b 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1235,11 +1235,11 @@ impl SessionInner {
         self.next_incoming_id = flow.next_outgoing_id();
         self.remote_outgoing_window = flow.outgoing_window();
 
-        self.remote_incoming_window = flow
-            .next_incoming_id()
-            .unwrap_or(0)
-            .wrapping_add(flow.incoming_window())
-            .wrapping_sub(self.next_outgoing_id);
+        // transfers sent after remote's state snapshot already used the window
+        let in_flight = self
+            .next_outgoing_id
+            .wrapping_sub(flow.next_incoming_id().unwrap_or(INITIAL_NEXT_OUTGOING_ID));
+        self.remote_incoming_window = flow.incoming_window().saturating_sub(in_flight);
 
         log::trace!(
             "{}: Session received credit {:?}. window: {}, pending: {}",
-- 
2.43.0


From dfa8f77ec7ec0d4de147bcde67cedef8053d9820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:39 +0000
Subject: [PATCH 23/62] fix: count every transfer frame of a delivery

---
 src/session.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index ffe212b..c5e2a39 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -32,6 +32,7 @@ pub(crate) struct SessionInner {
     id: usize,
     sink: ConnectionRef,
     next_outgoing_id: TransferNumber,
+    next_delivery_id: DeliveryNumber,
     flags: Flags,
     begin: Begin,
 
@@ -315,6 +316,7 @@ impl SessionInner {
             remote_outgoing_window: begin.outgoing_window(),
             flags: if local { Flags::LOCAL } else { Flags::empty() },
             next_outgoing_id: INITIAL_NEXT_OUTGOING_ID,
+            next_delivery_id: INITIAL_NEXT_OUTGOING_ID,
             unsettled_snd_deliveries: HashMap::default(),
             unsettled_rcv_deliveries: HashMap::default(),
             links: Slab::new(),
@@ -1337,10 +1339,8 @@ impl SessionInner {
         settled: bool,
         format: Option<MessageFormat>,
     ) -> DeliveryNumber {
-        self.remote_incoming_window -= 1;
-
-        let delivery_id = self.next_outgoing_id;
-        self.next_outgoing_id = self.next_outgoing_id.wrapping_add(1);
+        let delivery_id = self.next_delivery_id;
+        self.next_delivery_id = self.next_delivery_id.wrapping_add(1);
 
         let tr_settled = if settled {
             Some(DeliveryState::Accepted(Accepted {}))
@@ -1406,7 +1406,7 @@ impl SessionInner {
                 transfer.batchable(),
                 transfer.settled(),
             );
-            self.post_frame(Frame::Transfer(transfer));
+            self.post_transfer(transfer);
 
             loop {
                 // last chunk
@@ -1424,7 +1424,7 @@ impl SessionInner {
                 transfer.0.more = !body.is_empty();
                 transfer.0.batchable = true;
                 transfer.0.message_format = message_format;
-                self.post_frame(Frame::Transfer(transfer));
+                self.post_transfer(transfer);
             }
         } else {
             let mut transfer = Transfer(Box::default());
@@ -1441,12 +1441,19 @@ impl SessionInner {
                 self.unsettled_snd_deliveries
                     .insert(delivery_id, DeliveryInner::new(link_handle));
             }
-            self.post_frame(Frame::Transfer(transfer));
+            self.post_transfer(transfer);
         }
 
         delivery_id
     }
 
+    /// Every transfer frame uses transfer id and remote window
+    fn post_transfer(&mut self, transfer: Transfer) {
+        self.next_outgoing_id = self.next_outgoing_id.wrapping_add(1);
+        self.remote_incoming_window = self.remote_incoming_window.saturating_sub(1);
+        self.post_frame(Frame::Transfer(transfer));
+    }
+
     pub(crate) fn post_frame(&mut self, frame: Frame) {
         self.sink.post_frame(AmqpFrame::new(self.id(), frame));
     }
-- 
2.43.0


From ce016a53beb7da49d87b6e2552b8dea6af4263df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 24/62] fix: keep transfer frames within max frame size of the
 peer

---
 src/session.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index c5e2a39..7a96a0d 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -20,6 +20,9 @@ use crate::rcvlink::{
 use crate::sndlink::{EstablishedSenderLink, SenderLink, SenderLinkBuilder, SenderLinkInner};
 use crate::{ConnectionRef, ControlFrame, cell::Cell, types::Action};
 
+/// Max size of the frame header and transfer fields, without delivery tag
+const MAX_TRANSFER_OVERHEAD: usize = 64;
+
 pub(crate) const INITIAL_NEXT_OUTGOING_ID: TransferNumber = 1;
 
 #[derive(Clone)]
@@ -1353,14 +1356,15 @@ impl SessionInner {
             format
         };
 
-        let max_frame_size = self.max_frame_size();
-        let max_frame_size = if max_frame_size > 2048 {
-            max_frame_size - 2048
-        } else if max_frame_size == 0 {
-            u32::MAX
+        // space for message body, frame header and transfer fields are part of the frame
+        let max_frame_size = self.max_frame_size() as usize;
+        let max_frame_size = if max_frame_size == 0 {
+            u32::MAX as usize
         } else {
             max_frame_size
-        } as usize;
+                .saturating_sub(MAX_TRANSFER_OVERHEAD + tag.len())
+                .max(1)
+        };
 
         // body is larger than allowed frame size, send body as a set of transfers
         if body.len() > max_frame_size {
-- 
2.43.0


From 13b1955e29de92edafb00b57f73103764a943ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 25/62] fix: apply session part of link flow when it is
 received

---
 src/dispatcher.rs |  2 +-
 src/session.rs    | 11 ++++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 2e757dd..78fe58b 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -355,7 +355,7 @@ where
                     );
                 }
                 ControlFrameKind::Flow(ref frm, ref link) => {
-                    frame.session_cell().get_mut().handle_flow(frm, Some(link));
+                    link.inner.get_mut().apply_flow(frm);
                 }
                 ControlFrameKind::ProtocolError(ref err) => {
                     self.sink.set_error(err.clone());
diff --git a/src/session.rs b/src/session.rs
index 7a96a0d..213f133 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -893,6 +893,9 @@ impl SessionInner {
         if self.error.is_none() {
             match frame {
                 Frame::Flow(flow) => {
+                    // session state is valid only at this point
+                    self.handle_flow(&flow);
+
                     // apply link flow
                     if let Some(Either::Left(link)) = flow
                         .handle()
@@ -904,7 +907,6 @@ impl SessionInner {
                         }
                         log::warn!("{}: Received flow frame", self.tag());
                     }
-                    self.handle_flow(&flow, None);
                     Ok(Action::None)
                 }
                 Frame::Disposition(disp) => {
@@ -1235,7 +1237,7 @@ impl SessionInner {
         }
     }
 
-    pub(crate) fn handle_flow(&mut self, flow: &Flow, link: Option<&SenderLink>) {
+    fn handle_flow(&mut self, flow: &Flow) {
         // # AMQP1.0 2.5.6
         self.next_incoming_id = flow.next_outgoing_id();
         self.remote_outgoing_window = flow.outgoing_window();
@@ -1278,11 +1280,6 @@ impl SessionInner {
             }));
             self.post_frame(flow.into());
         }
-
-        // apply link flow
-        if let Some(link) = link {
-            link.inner.get_mut().apply_flow(flow);
-        }
     }
 
     pub(crate) fn rcv_link_flow(&mut self, handle: u32, delivery_count: u32, credit: u32) {
-- 
2.43.0


From 509f1670d4e2cae8c27b10bb11b1eed3186637b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 26/62] fix: report next-incoming-id of received transfers

---
 src/session.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 213f133..c3a9451 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -914,6 +914,8 @@ impl SessionInner {
                     Ok(Action::None)
                 }
                 Frame::Transfer(transfer) => {
+                    self.next_incoming_id = self.next_incoming_id.wrapping_add(1);
+
                     let idx = if let Some(idx) = self.remote_handles.get(&transfer.handle()) {
                         *idx
                     } else {
@@ -947,8 +949,6 @@ impl SessionInner {
                                     )))
                                 }
                                 ReceiverLinkState::Established(link) => {
-                                    // self.outgoing_window -= 1;
-                                    let _ = self.next_incoming_id.wrapping_add(1);
                                     Ok(link.inner.get_mut().handle_transfer(transfer, &link.inner))
                                 }
                                 ReceiverLinkState::Closing(_) => Ok(Action::None),
@@ -1262,11 +1262,7 @@ impl SessionInner {
 
         if flow.echo() {
             let flow = Flow(Box::new(codec::FlowInner {
-                next_incoming_id: if self.flags.contains(Flags::LOCAL) {
-                    Some(self.next_incoming_id)
-                } else {
-                    None
-                },
+                next_incoming_id: Some(self.next_incoming_id),
                 incoming_window: u32::MAX,
                 next_outgoing_id: self.next_outgoing_id,
                 outgoing_window: self.remote_incoming_window,
-- 
2.43.0


From 16bbd932796a9b00b23526c19b282c347ac4d768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:10 +0000
Subject: [PATCH 27/62] fix: keep flow received before remote sender link is
 confirmed

---
 src/session.rs | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index c3a9451..034f368 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -245,7 +245,7 @@ impl Session {
 #[derive(Debug)]
 enum SenderLinkState {
     Established(EstablishedSenderLink),
-    OpeningRemote(Cell<SenderLinkInner>, Attach),
+    OpeningRemote(Cell<SenderLinkInner>, Attach, Option<Flow>),
     Opening(
         Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>,
         SequenceNo,
@@ -393,7 +393,7 @@ impl SessionInner {
                         let _ = tx.send(Err(err.clone()));
                     }
                 }
-                Either::Left(SenderLinkState::OpeningRemote(link, _)) => {
+                Either::Left(SenderLinkState::OpeningRemote(link, ..)) => {
                     link.get_mut().remote_detached(err.clone());
                 }
                 Either::Right(ReceiverLinkState::Established(link)) => {
@@ -465,6 +465,7 @@ impl SessionInner {
         entry.insert(Either::Left(SenderLinkState::OpeningRemote(
             link.clone(),
             attach.clone(),
+            None,
         )));
         self.remote_handles.insert(attach.handle(), id);
 
@@ -542,14 +543,22 @@ impl SessionInner {
             self.links_by_name.insert(addr.clone(), token);
         }
 
-        self.links[token] = Either::Left(SenderLinkState::Established(EstablishedSenderLink::new(
-            link.clone(),
-        )));
+        let state = mem::replace(
+            &mut self.links[token],
+            Either::Left(SenderLinkState::Established(EstablishedSenderLink::new(
+                link.clone(),
+            ))),
+        );
 
         *response.handle_mut() = token as Handle;
         *response.max_message_size_mut() = link.max_message_size().map(u64::from);
 
         self.post_frame(response.into());
+
+        // flow received before link is confirmed
+        if let Either::Left(SenderLinkState::OpeningRemote(_, _, Some(flow))) = state {
+            link.get_mut().apply_flow(&flow);
+        }
         SenderLink::new(link)
     }
 
@@ -594,7 +603,7 @@ impl SessionInner {
                             crate::ControlFrameKind::LocalDetachSender(detach, sender_link),
                         ));
                 }
-                SenderLinkState::OpeningRemote(_, attach) => {
+                SenderLinkState::OpeningRemote(_, attach, _) => {
                     let attach = attach.clone();
                     *link = SenderLinkState::Closing(Some(tx));
                     self.post_refused_sender_link(id, &attach, closed, error);
@@ -633,7 +642,7 @@ impl SessionInner {
     fn is_unconfirmed_sender_link(&self, link: &Cell<SenderLinkInner>) -> bool {
         matches!(
             self.links.get(link.id),
-            Some(Either::Left(SenderLinkState::OpeningRemote(inner, _)))
+            Some(Either::Left(SenderLinkState::OpeningRemote(inner, ..)))
                 if std::ptr::eq(inner.get_ref(), link.get_ref())
         )
     }
@@ -902,10 +911,16 @@ impl SessionInner {
                         .and_then(|h| self.remote_handles.get(&h).copied())
                         .and_then(|h| self.links.get_mut(h))
                     {
-                        if let SenderLinkState::Established(link) = link {
-                            return Ok(Action::Flow((*link).clone(), flow));
+                        match link {
+                            SenderLinkState::Established(link) => {
+                                return Ok(Action::Flow((*link).clone(), flow));
+                            }
+                            SenderLinkState::OpeningRemote(_, _, item) => {
+                                // apply flow when link is confirmed
+                                *item = Some(flow);
+                            }
+                            _ => log::warn!("{}: Received flow frame", self.tag()),
                         }
-                        log::warn!("{}: Received flow frame", self.tag());
                     }
                     Ok(Action::None)
                 }
@@ -1104,7 +1119,7 @@ impl SessionInner {
                         action = Action::DetachSender(link.clone(), frame);
                         true
                     }
-                    SenderLinkState::OpeningRemote(inner, attach) => {
+                    SenderLinkState::OpeningRemote(inner, attach, _) => {
                         log::trace!(
                             "{}: Detach frame received for unconfirmed sender link: {frame:?}",
                             self.sink.tag()
-- 
2.43.0


From 0b3f10bed507c2b8e35a6c9a2ea67d4cd3e267ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 28/62] fix: end session by its local channel id

---
 src/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index 034f368..7a22bb7 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -112,7 +112,7 @@ impl Session {
             Either::Left(Ready::Ok(()))
         } else {
             if !inner.flags.contains(Flags::ENDING) {
-                inner.sink.close_session(inner.remote_channel_id as usize);
+                inner.sink.close_session(inner.id);
                 inner.post_frame(Frame::End(End { error: None }));
                 inner.flags.insert(Flags::ENDING);
                 inner
-- 
2.43.0


From 25a72f55d1bd9c5c18b51de90321b50af74d45e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:39 +0000
Subject: [PATCH 29/62] fix: complete session end when connection is gone

---
 src/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 4c39573..88a74a5 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -219,8 +219,8 @@ impl ConnectionInner {
         log::trace!("{}: Set connection error: {:?}", self.io.tag(), err);
         for (_, channel) in &mut self.sessions {
             match channel {
-                SessionState::Opening(_, _) | SessionState::Closing(_) => (),
-                SessionState::Established(ses) => {
+                SessionState::Opening(_, _) => (),
+                SessionState::Established(ses) | SessionState::Closing(ses) => {
                     ses.get_mut().set_error(err.clone());
                 }
             }
-- 
2.43.0


From dee7f91da5b5578370843272ed00ca28d3ae7cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 30/62] fix: do not use session after it is ended

---
 src/session.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index 7a22bb7..41181ca 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -496,6 +496,11 @@ impl SessionInner {
     ) -> oneshot::Receiver<Result<Cell<SenderLinkInner>, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
 
+        if let Err(err) = self.check_opened() {
+            let _ = tx.send(Err(err));
+            return rx;
+        }
+
         let entry = self.links.vacant_entry();
         let token = entry.key();
 
@@ -743,6 +748,11 @@ impl SessionInner {
     ) -> oneshot::Receiver<Result<ReceiverLink, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
 
+        if let Err(err) = self.check_opened() {
+            let _ = tx.send(Err(err));
+            return rx;
+        }
+
         let entry = self.links.vacant_entry();
         let token = entry.key();
 
@@ -1467,6 +1477,10 @@ impl SessionInner {
     }
 
     pub(crate) fn post_frame(&mut self, frame: Frame) {
+        if self.check_opened().is_err() {
+            log::trace!("{}: Session is ended, dropping {frame:?}", self.tag());
+            return;
+        }
         self.sink.post_frame(AmqpFrame::new(self.id(), frame));
     }
 }
-- 
2.43.0


From 27a2953dacbe3b01d5af68c587508135dd0e5d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:29 +0000
Subject: [PATCH 31/62] fix: settle wrapping and huge ranges of deliveries

---
 src/session.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 41181ca..eb9c3e3 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1246,19 +1246,22 @@ impl SessionInner {
             &mut self.unsettled_rcv_deliveries
         };
 
-        if let Some(to) = to {
-            for no in from..=to {
-                if let Some(delivery) = deliveries.get_mut(&no) {
+        // delivery ids are serial numbers
+        let len = to.unwrap_or(from).wrapping_sub(from);
+        if len > u32::MAX / 2 {
+            log::trace!("{}: Invalid range: {disp:?}", self.sink.tag());
+        } else if len as usize >= deliveries.len() {
+            for (no, delivery) in deliveries {
+                if no.wrapping_sub(from) <= len {
+                    delivery.handle_disposition(disp);
+                }
+            }
+        } else {
+            for no in 0..=len {
+                if let Some(delivery) = deliveries.get_mut(&from.wrapping_add(no)) {
                     delivery.handle_disposition(disp);
-                } else {
-                    log::trace!(
-                        "{}: Unknown deliveryid: {no:?} disp: {disp:?}",
-                        self.sink.tag()
-                    );
                 }
             }
-        } else if let Some(delivery) = deliveries.get_mut(&from) {
-            delivery.handle_disposition(disp);
         }
     }
 
-- 
2.43.0


From c38d6d250d776e314e64604c183cd1d31511964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:34 +0000
Subject: [PATCH 32/62] fix: complete wait for delivery which is settled
 without state

---
 src/delivery.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index f5a623f..5f57c62 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -159,6 +159,9 @@ impl Delivery {
             .unsettled_deliveries(self.is_set(Flags::SENDER))
             .get_mut(&self.id)
         {
+            if inner.settled {
+                self.set_flag(Flags::REMOTE_SETTLED);
+            }
             if let Some(st) = Self::check_inner(inner) {
                 return st;
             }
@@ -205,8 +208,13 @@ impl Delivery {
                 // return clone of terminal state
                 Some(Ok(Some(st.clone())))
             }
+        } else if let Some(ref err) = inner.error {
+            Some(Err(err.clone()))
+        } else if inner.settled {
+            // settled without state
+            Some(Ok(None))
         } else {
-            inner.error.as_ref().map(|err| Err(err.clone()))
+            None
         }
     }
 }
@@ -269,6 +277,9 @@ impl DeliveryInner {
     pub(crate) fn handle_disposition(&mut self, disp: &Disposition) {
         if disp.settled() {
             self.settled = true;
+        } else if disp.state().is_none() {
+            // nothing has changed
+            return;
         }
         if let Some(state) = disp.state() {
             self.state = Some(state.clone());
-- 
2.43.0


From 10ae03005189e282b2acd152f280c13a7bac8074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 33/62] fix: do not send disposition for delivery settled by
 remote

---
 src/delivery.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index 5f57c62..7946cae 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -88,11 +88,18 @@ impl Delivery {
 
     pub fn is_remote_settled(&self) -> bool {
         self.is_set(Flags::REMOTE_SETTLED)
+            || self
+                .session
+                .inner
+                .get_mut()
+                .unsettled_deliveries(self.is_set(Flags::SENDER))
+                .get(&self.id)
+                .is_some_and(|inner| inner.settled)
     }
 
     pub fn settle(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) {
+        if self.is_remote_settled() {
             return;
         }
 
@@ -117,7 +124,7 @@ impl Delivery {
 
     pub fn update_state(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) || self.is_set(Flags::LOCAL_SETTLED) {
+        if self.is_remote_settled() || self.is_set(Flags::LOCAL_SETTLED) {
             return;
         }
 
@@ -224,10 +231,11 @@ impl Drop for Delivery {
         let inner = self.session.inner.get_mut();
         let deliveries = inner.unsettled_deliveries(self.is_set(Flags::SENDER));
 
-        if deliveries.contains_key(&self.id) {
-            deliveries.remove(&self.id);
-
-            if !self.is_set(Flags::REMOTE_SETTLED) && !self.is_set(Flags::LOCAL_SETTLED) {
+        if let Some(item) = deliveries.remove(&self.id) {
+            if !item.settled
+                && !self.is_set(Flags::REMOTE_SETTLED)
+                && !self.is_set(Flags::LOCAL_SETTLED)
+            {
                 let err = Error::build()
                     .condition(ErrorCondition::Custom(Symbol(Str::from_static(
                         "Internal error",
-- 
2.43.0


From 254358637f08983c5295fe80b7d1a42f53968f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 34/62] fix: allow to wait for delivery more than once at a
 time

---
 src/delivery.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index 7946cae..6225920 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -33,7 +33,7 @@ pub(crate) struct DeliveryInner {
     settled: bool,
     state: Option<DeliveryState>,
     error: Option<AmqpProtocolError>,
-    tx: Option<pool::Sender<()>>,
+    tx: Vec<pool::Sender<()>>,
 }
 
 impl Delivery {
@@ -174,7 +174,7 @@ impl Delivery {
             }
 
             let (tx, rx) = self.session.inner.get_ref().pool_notify.channel();
-            inner.tx = Some(tx);
+            inner.tx.push(tx);
             rx
         } else {
             // session ended
@@ -264,7 +264,7 @@ impl DeliveryInner {
     pub(crate) fn new(handle: Handle) -> Self {
         Self {
             handle,
-            tx: None,
+            tx: Vec::new(),
             state: None,
             error: None,
             settled: false,
@@ -277,7 +277,7 @@ impl DeliveryInner {
 
     pub(crate) fn set_error(&mut self, error: AmqpProtocolError) {
         self.error = Some(error);
-        if let Some(tx) = self.tx.take() {
+        for tx in self.tx.drain(..) {
             let _ = tx.send(());
         }
     }
@@ -292,7 +292,7 @@ impl DeliveryInner {
         if let Some(state) = disp.state() {
             self.state = Some(state.clone());
         }
-        if let Some(tx) = self.tx.take() {
+        for tx in self.tx.drain(..) {
             let _ = tx.send(());
         }
     }
@@ -300,7 +300,7 @@ impl DeliveryInner {
 
 impl Drop for DeliveryInner {
     fn drop(&mut self) {
-        if let Some(tx) = self.tx.take() {
+        for tx in self.tx.drain(..) {
             let _ = tx.send(());
         }
     }
-- 
2.43.0


From 1fbe8622b2b53e393ed699da0a47be1c97b60158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 35/62] fix: overflow of receiver link credit and delivery
 count

---
 src/rcvlink.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index e179b5a..3ed8f74 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -298,7 +298,7 @@ impl ReceiverLinkInner {
         if self.closed {
             return;
         }
-        self.credit += credit;
+        self.credit = self.credit.saturating_add(credit);
         self.session
             .inner
             .get_mut()
@@ -364,7 +364,7 @@ impl ReceiverLinkInner {
                     Action::None
                 } else {
                     // received last partial transfer
-                    self.delivery_count += 1;
+                    self.delivery_count = self.delivery_count.wrapping_add(1);
                     let partial_body = self.partial_body.take();
                     if partial_body.is_some() && !self.queue.is_empty() {
                         self.queue.back_mut().unwrap().1.0.body =
@@ -431,7 +431,7 @@ impl ReceiverLinkInner {
                     Action::None
                 }
             } else if let Some(id) = transfer.delivery_id() {
-                self.delivery_count += 1;
+                self.delivery_count = self.delivery_count.wrapping_add(1);
                 let delivery = Delivery::new_rcv(
                     id,
                     self.handle,
-- 
2.43.0


From 007a721a4d86758f2738b3171635510b5b19dcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 36/62] fix: use handle and delivery count of remote sender for
 locally opened receiver

---
 src/rcvlink.rs | 6 ++++++
 src/session.rs | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 3ed8f74..85e64aa 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -269,6 +269,12 @@ impl ReceiverLinkInner {
         self.wake();
     }
 
+    /// Remote sender is attached to locally opened link
+    pub(crate) fn attached(&mut self, frame: &Attach) {
+        self.remote_handle = frame.handle();
+        self.delivery_count = frame.initial_delivery_count().unwrap_or(0);
+    }
+
     pub(crate) fn close(
         &mut self,
         error: Option<Error>,
diff --git a/src/session.rs b/src/session.rs
index eb9c3e3..df6afca 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1050,6 +1050,7 @@ impl SessionInner {
                         if let ReceiverLinkState::OpeningLocal(opt_item) = item {
                             if let Some((link, tx)) = opt_item.take() {
                                 self.remote_handles.insert(attach.handle(), *index);
+                                link.get_mut().attached(attach);
 
                                 *item = ReceiverLinkState::Established(
                                     EstablishedReceiverLink::new(link.clone()),
-- 
2.43.0


From c3cce10614267f825e001b9cd056c7258c500eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 37/62] fix: check message size of every transfer against
 receiver limit

---
 src/rcvlink.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 85e64aa..67906b1 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -331,6 +331,19 @@ impl ReceiverLinkInner {
                 self.credit -= 1;
             }
 
+            // check message size
+            let size = self.partial_body.as_ref().map_or(0, BytesMut::len)
+                + transfer.0.body.as_ref().map_or(0, TransferBody::len);
+            if self.max_message_size != 0 && size as u64 > self.max_message_size {
+                let err = Error(Box::new(codec::ErrorInner {
+                    condition: LinkError::MessageSizeExceeded.into(),
+                    description: None,
+                    info: None,
+                }));
+                let _ = self.close(Some(err));
+                return Action::None;
+            }
+
             // handle batched transfer
             if let Some(ref mut body) = self.partial_body {
                 if transfer.0.delivery_id.is_some() {
@@ -352,16 +365,6 @@ impl ReceiverLinkInner {
 
                 // merge transfer data and check size
                 if let Some(transfer_body) = transfer.0.body.take() {
-                    if body.len() + transfer_body.len() > self.max_message_size as usize {
-                        let err = Error(Box::new(codec::ErrorInner {
-                            condition: LinkError::MessageSizeExceeded.into(),
-                            description: None,
-                            info: None,
-                        }));
-                        let _ = self.close(Some(err));
-                        return Action::None;
-                    }
-
                     transfer_body.encode(body);
                 }
 
-- 
2.43.0


From 3bc1c482e4854c7c5a6d7bf85e3ff61ddd7aa216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:59 +0000
Subject: [PATCH 38/62] fix: enforce announced max message size of locally
 opened receiver

---
 src/rcvlink.rs | 2 +-
 src/session.rs | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 67906b1..d2d4e86 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -33,7 +33,7 @@ pub(crate) struct ReceiverLinkInner {
     delivery_count: u32,
     error: Option<Error>,
     partial_body: Option<BytesMut>,
-    max_message_size: u64,
+    pub(crate) max_message_size: u64,
 }
 
 impl Eq for ReceiverLink {}
diff --git a/src/session.rs b/src/session.rs
index df6afca..08b3752 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -762,6 +762,8 @@ impl SessionInner {
             token as u32,
             &frame,
         ));
+        // announced limit, no value or zero means no limit
+        inner.get_mut().max_message_size = frame.max_message_size().unwrap_or(0);
         entry.insert(Either::Right(ReceiverLinkState::OpeningLocal(Some((
             inner, tx,
         )))));
-- 
2.43.0


From ec18e092c0076c417869a3536533684034f0482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 39/62] fix: discard aborted delivery

---
 src/delivery.rs | 10 ++++++++++
 src/rcvlink.rs  | 14 ++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/delivery.rs b/src/delivery.rs
index 6225920..b959735 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -64,6 +64,16 @@ impl Delivery {
         }
     }
 
+    /// Remote does not expect any disposition for this delivery
+    pub(crate) fn remote_settled(&self) {
+        self.set_flag(Flags::LOCAL_SETTLED);
+        self.session
+            .inner
+            .get_mut()
+            .unsettled_rcv_deliveries
+            .remove(&self.id);
+    }
+
     pub fn id(&self) -> DeliveryNumber {
         self.id
     }
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index d2d4e86..dfb4717 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -331,6 +331,20 @@ impl ReceiverLinkInner {
                 self.credit -= 1;
             }
 
+            // aborted delivery is settled, its content must be discarded
+            if transfer.aborted() {
+                if transfer.more() {
+                    self.credit -= 1;
+                }
+                self.delivery_count = self.delivery_count.wrapping_add(1);
+                if self.partial_body.take().is_some()
+                    && let Some((delivery, _)) = self.queue.pop_back()
+                {
+                    delivery.remote_settled();
+                }
+                return Action::None;
+            }
+
             // check message size
             let size = self.partial_body.as_ref().map_or(0, BytesMut::len)
                 + transfer.0.body.as_ref().map_or(0, TransferBody::len);
-- 
2.43.0


From 40b339cb8cb298ab68251a8ca99fe68c6b628514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:23 +0000
Subject: [PATCH 40/62] fix: delivery is settled if any of its transfers is
 settled

---
 src/rcvlink.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index dfb4717..2df461b 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -382,6 +382,14 @@ impl ReceiverLinkInner {
                     transfer_body.encode(body);
                 }
 
+                // delivery is settled if any of its transfers is settled
+                if transfer.settled().unwrap_or_default()
+                    && let Some((delivery, first)) = self.queue.back_mut()
+                {
+                    delivery.remote_settled();
+                    first.0.settled = Some(true);
+                }
+
                 if transfer.more() {
                     // dont need to update queue, we use first transfer frame as primary
                     Action::None
-- 
2.43.0


From b158896341190499e389578541be6e20a5f85a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 41/62] fix: keep connection alive for idle timeouts below 1.4
 seconds

---
 src/client/connection.rs |  4 ++--
 src/lib.rs               | 11 +++--------
 src/server/handshake.rs  |  8 ++++----
 src/server/service.rs    |  2 +-
 4 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 7d8ea6d..5c66cd9 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -66,7 +66,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
@@ -84,7 +84,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, S::Error>::Ok(()))),
             Pipeline::new(service.into_service()),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
diff --git a/src/lib.rs b/src/lib.rs
index c0489ef..4b1151f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,7 +25,7 @@ use ntex_amqp_codec::protocol::{Handle, Milliseconds, Open, OpenInner, Symbols};
 use ntex_amqp_codec::types::Symbol;
 use ntex_bytes::ByteString;
 use ntex_service::cfg::{CfgContext, Configuration as SvcConfiguration};
-use ntex_util::time::Seconds;
+use ntex_util::time::{Millis, Seconds};
 use uuid::Uuid;
 
 mod cell;
@@ -245,12 +245,7 @@ impl RemoteServiceConfig {
         }
     }
 
-    #[allow(clippy::cast_sign_loss, clippy::cast_precision_loss)]
-    pub(crate) fn timeout_remote_secs(&self) -> Seconds {
-        if self.idle_time_out > 0 {
-            Seconds::checked_new(((self.idle_time_out as f32) * 0.75 / 1000.0) as usize)
-        } else {
-            Seconds::ZERO
-        }
+    pub(crate) fn timeout_remote(&self) -> Millis {
+        Millis(self.idle_time_out / 4 * 3)
     }
 }
diff --git a/src/server/handshake.rs b/src/server/handshake.rs
index a5ed8c5..bea486a 100644
--- a/src/server/handshake.rs
+++ b/src/server/handshake.rs
@@ -1,6 +1,6 @@
 use ntex_io::IoBoxed;
 use ntex_service::cfg::Cfg;
-use ntex_util::time::Seconds;
+use ntex_util::time::Millis;
 
 use crate::codec::{AmqpCodec, AmqpFrame, protocol::Frame, protocol::Open};
 use crate::{AmqpServiceConfig, RemoteServiceConfig, connection::Connection};
@@ -138,7 +138,7 @@ impl HandshakeAmqpOpened {
             st,
             sink: self.sink,
             state: self.state,
-            idle_timeout: self.remote_config.timeout_remote_secs(),
+            idle_timeout: self.remote_config.timeout_remote(),
         }
     }
 }
@@ -148,11 +148,11 @@ pub struct HandshakeAck<St> {
     st: St,
     sink: Connection,
     state: IoBoxed,
-    idle_timeout: Seconds,
+    idle_timeout: Millis,
 }
 
 impl<St> HandshakeAck<St> {
-    pub(crate) fn into_inner(self) -> (St, Connection, Seconds, IoBoxed) {
+    pub(crate) fn into_inner(self) -> (St, Connection, Millis, IoBoxed) {
         (self.st, self.sink, self.idle_timeout, self.state)
     }
 }
diff --git a/src/server/service.rs b/src/server/service.rs
index e06a02e..ec024b6 100644
--- a/src/server/service.rs
+++ b/src/server/service.rs
@@ -307,7 +307,7 @@ where
                 .await
                 .map_err(HandshakeError::from)?;
 
-            Ok((io, codec, sink, State::new(st), Millis::from(idle_timeout)))
+            Ok((io, codec, sink, State::new(st), idle_timeout))
         }
         ProtocolId::AmqpTls => Err(ServerError::Handshake(HandshakeError::from(
             ProtocolIdError::Unexpected {
-- 
2.43.0


From 0d78c2ca17e1db7559d7bde10d8a085561ea47c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:16 +0000
Subject: [PATCH 42/62] fix: respect channel-max of both sides

---
 src/connection.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 88a74a5..020645d 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -1,4 +1,4 @@
-use std::{fmt, future::Future, ops, pin::Pin, rc::Rc, task::Context, task::Poll};
+use std::{cmp, fmt, future::Future, ops, pin::Pin, rc::Rc, task::Context, task::Poll};
 
 use ntex_io::{IoConfig, IoRef};
 use ntex_service::cfg::Cfg;
@@ -68,7 +68,7 @@ impl Connection {
             control_queue: Rc::default(),
             error: None,
             on_close: Condition::new(),
-            channel_max: local_config.channel_max,
+            channel_max: cmp::min(local_config.channel_max, remote_config.channel_max),
             max_frame_size: remote_config.max_frame_size,
         })))
     }
@@ -584,7 +584,7 @@ async fn open_session(
         let entry = inner.sessions.vacant_entry();
         let token = entry.key();
 
-        if token >= inner.channel_max as usize {
+        if token > inner.channel_max as usize {
             log::trace!("{}: Too many channels: {:?}", inner.io.tag(), token);
             Err(AmqpProtocolError::TooManyChannels)
         } else {
-- 
2.43.0


From 686a2de37b3eea67e08611298a36311a1dc1f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:20 +0000
Subject: [PATCH 43/62] fix: process control frames in order

---
 src/dispatcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 78fe58b..7e823c3 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -126,7 +126,7 @@ where
                 }
                 Poll::Ready(res) => res,
             };
-            let (frame, _) = futs.swap_remove(idx);
+            let (frame, _) = futs.remove(idx);
             let result = match res {
                 Ok(()) => self.handle_control_frame(&frame, None),
                 Err(e) => self.handle_control_frame(&frame, Some(e.into())),
-- 
2.43.0


From 4b7f3e42c0eab7e89939ecc41ab547e4705a4c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:46 +0000
Subject: [PATCH 44/62] fix: mark links closed when detached through session

---
 src/rcvlink.rs |  6 ++++++
 src/session.rs |  7 ++++++-
 src/sndlink.rs | 11 ++++++++---
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 2df461b..65c6301 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -269,6 +269,12 @@ impl ReceiverLinkInner {
         self.wake();
     }
 
+    /// Link is detached by local side
+    pub(crate) fn local_detached(&mut self) {
+        self.closed = true;
+        self.wake();
+    }
+
     /// Remote sender is attached to locally opened link
     pub(crate) fn attached(&mut self, frame: &Attach) {
         self.remote_handle = frame.handle();
diff --git a/src/session.rs b/src/session.rs
index 08b3752..d402930 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -593,6 +593,7 @@ impl SessionInner {
                     let err = AmqpProtocolError::LinkDetached(None);
                     drop_pending_transfers(&mut self.pending_transfers, id, &err);
                     sender_link.inner.get_mut().drop_pending_transfers(&err);
+                    sender_link.inner.get_mut().local_detached();
 
                     let detach = Detach(Box::new(codec::DetachInner {
                         handle: id,
@@ -608,7 +609,8 @@ impl SessionInner {
                             crate::ControlFrameKind::LocalDetachSender(detach, sender_link),
                         ));
                 }
-                SenderLinkState::OpeningRemote(_, attach, _) => {
+                SenderLinkState::OpeningRemote(inner, attach, _) => {
+                    inner.get_mut().local_detached();
                     let attach = attach.clone();
                     *link = SenderLinkState::Closing(Some(tx));
                     self.post_refused_sender_link(id, &attach, closed, error);
@@ -806,6 +808,8 @@ impl SessionInner {
             match link {
                 ReceiverLinkState::Opening(inner) => {
                     if let Some((inner, source)) = inner.take() {
+                        inner.get_mut().local_detached();
+
                         // wait for detach confirmation
                         *link = ReceiverLinkState::Closing(None);
                         self.post_refused_receiver_link(&inner, source, closed, error);
@@ -814,6 +818,7 @@ impl SessionInner {
                 }
                 ReceiverLinkState::Established(receiver_link) => {
                     let receiver_link = receiver_link.clone();
+                    receiver_link.inner.get_mut().local_detached();
                     let detach = Detach(Box::new(codec::DetachInner {
                         handle: id,
                         closed,
diff --git a/src/sndlink.rs b/src/sndlink.rs
index ff4160a..2fd43ae 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -260,6 +260,13 @@ impl SenderLinkInner {
         self.on_credit.notify_and_lock_readiness();
     }
 
+    /// Link is detached by local side
+    pub(crate) fn local_detached(&mut self) {
+        self.closed = true;
+        self.on_close.notify_and_lock_readiness();
+        self.on_credit.notify_and_lock_readiness();
+    }
+
     pub(crate) fn close(
         &mut self,
         error: Option<Error>,
@@ -267,9 +274,7 @@ impl SenderLinkInner {
         if self.closed {
             Either::Left(Ready::Ok(()))
         } else {
-            self.closed = true;
-            self.on_close.notify_and_lock_readiness();
-            self.on_credit.notify_and_lock_readiness();
+            self.local_detached();
 
             let (tx, rx) = oneshot::channel();
 
-- 
2.43.0


From 43406ba91e9b8476a872cf025ebcab2ad59b58d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:12 +0000
Subject: [PATCH 45/62] fix: fail deliveries of locally detached link

---
 src/session.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index d402930..3168995 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -305,6 +305,19 @@ fn drop_pending_transfers(
     }
 }
 
+/// Fail deliveries of the link that wait for settlement
+fn drop_deliveries(
+    deliveries: &mut HashMap<DeliveryNumber, DeliveryInner>,
+    handle: Handle,
+    err: &AmqpProtocolError,
+) {
+    for delivery in deliveries.values_mut() {
+        if delivery.handle() == handle {
+            delivery.set_error(err.clone());
+        }
+    }
+}
+
 impl SessionInner {
     pub(crate) fn new(
         id: usize,
@@ -1124,11 +1137,7 @@ impl SessionInner {
                         drop_pending_transfers(&mut self.pending_transfers, handle, &err);
 
                         // drop unsettled transfers
-                        for delivery in self.unsettled_snd_deliveries.values_mut() {
-                            if delivery.handle() == handle {
-                                delivery.set_error(err.clone());
-                            }
-                        }
+                        drop_deliveries(&mut self.unsettled_snd_deliveries, handle, &err);
 
                         // detach snd link
                         link.inner.get_mut().remote_detached(err);
@@ -1150,6 +1159,11 @@ impl SessionInner {
                         true
                     }
                     SenderLinkState::Closing(tx) => {
+                        // drop unsettled transfers
+                        let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
+                        let handle = idx as Handle;
+                        drop_deliveries(&mut self.unsettled_snd_deliveries, handle, &err);
+
                         if let Some(tx) = tx.take() {
                             if let Some(err) = frame.0.error {
                                 let _ = tx.send(Err(AmqpProtocolError::LinkDetached(Some(err))));
@@ -1189,11 +1203,7 @@ impl SessionInner {
                         // drop unsettled transfers
                         let err = AmqpProtocolError::LinkDetached(error.clone());
                         let handle = link.inner.get_ref().id();
-                        for delivery in self.unsettled_rcv_deliveries.values_mut() {
-                            if delivery.handle() == handle {
-                                delivery.set_error(err.clone());
-                            }
-                        }
+                        drop_deliveries(&mut self.unsettled_rcv_deliveries, handle, &err);
 
                         // detach from remote endpoint
                         let detach = Detach(Box::new(codec::DetachInner {
@@ -1210,6 +1220,11 @@ impl SessionInner {
                         true
                     }
                     ReceiverLinkState::Closing(tx) => {
+                        // drop unsettled transfers
+                        let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
+                        let handle = idx as Handle;
+                        drop_deliveries(&mut self.unsettled_rcv_deliveries, handle, &err);
+
                         // detach confirmation
                         if let Some(tx) = tx.take() {
                             if let Some(err) = frame.0.error {
-- 
2.43.0


From dbd9f69663e7d0ee5f6cbb2953ffa8af52b0e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:28 +0000
Subject: [PATCH 46/62] fix: close refused sender link

---
 src/session.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index 3168995..dcd18fb 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -653,6 +653,9 @@ impl SessionInner {
         error: Option<Error>,
     ) {
         if self.is_unconfirmed_sender_link(link) {
+            let err = AmqpProtocolError::LinkDetached(error.clone());
+            link.get_mut().remote_detached(err);
+
             // wait for detach confirmation
             self.links[link.id] = Either::Left(SenderLinkState::Closing(None));
             self.post_refused_sender_link(link.id(), attach, true, error);
-- 
2.43.0


From 25ed7b0fd4d2a8bb654f896b4211a98ff8d8253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:38 +0000
Subject: [PATCH 47/62] fix: send close frame only once

---
 src/connection.rs | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 020645d..c102b13 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -155,9 +155,7 @@ impl ConnectionRef {
 
     /// Gracefully close connection
     pub fn close(&self) -> impl Future<Output = Result<(), AmqpProtocolError>> {
-        let inner = self.0.get_mut();
-        inner.post_frame(AmqpFrame::new(0, Frame::Close(Close { error: None })));
-        inner.io.close();
+        self.0.get_mut().close(None);
         Ready::Ok(())
     }
 
@@ -166,14 +164,7 @@ impl ConnectionRef {
     where
         Error: From<E>,
     {
-        let inner = self.0.get_mut();
-        inner.post_frame(AmqpFrame::new(
-            0,
-            Frame::Close(Close {
-                error: Some(err.into()),
-            }),
-        ));
-        inner.io.close();
+        self.0.get_mut().close(Some(err.into()));
         Ready::Ok(())
     }
 
@@ -191,14 +182,7 @@ impl ConnectionRef {
     }
 
     pub(crate) fn post_frame(&self, frame: AmqpFrame) {
-        let inner = self.0.get_mut();
-
-        #[cfg(feature = "frame-trace")]
-        log::trace!("{}: outgoing: {:#?}", inner.io.tag(), frame);
-
-        if let Err(e) = inner.io.encode(frame, &inner.codec) {
-            inner.set_error(e.into());
-        }
+        self.0.get_mut().post_frame(frame);
     }
 
     pub(crate) fn set_error(&self, err: AmqpProtocolError) {
@@ -234,7 +218,21 @@ impl ConnectionInner {
         self.on_close.notify_and_lock_readiness();
     }
 
+    fn close(&mut self, error: Option<Error>) {
+        if self.state == ConnectionState::Normal {
+            self.post_frame(AmqpFrame::new(0, Frame::Close(Close { error })));
+            self.state = ConnectionState::Closing;
+        }
+        self.io.close();
+    }
+
     pub(crate) fn post_frame(&mut self, frame: AmqpFrame) {
+        if self.state != ConnectionState::Normal {
+            // no frames are allowed after close
+            log::trace!("{}: Connection closed, skip: {:?}", self.io.tag(), frame);
+            return;
+        }
+
         #[cfg(feature = "frame-trace")]
         log::trace!("{}: outgoing: {:#?}", self.io.tag(), frame);
 
-- 
2.43.0


From ffece4dcb2e85b68a80956e8b73acd3ac5c41c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 48/62] fix: do not wait for a frame after sasl outcome

---
 src/server/sasl.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/server/sasl.rs b/src/server/sasl.rs
index b193aa3..7478882 100644
--- a/src/server/sasl.rs
+++ b/src/server/sasl.rs
@@ -211,10 +211,6 @@ impl SaslResponse {
             .send(frame, &codec)
             .await
             .map_err(HandshakeError::from)?;
-        state
-            .recv(&codec)
-            .await?
-            .ok_or(HandshakeError::Disconnected(None))?;
 
         Ok(SaslSuccess {
             state,
-- 
2.43.0


From e9f9e76c3021e207c9860d71c05e1e8e13ec0c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:43 +0000
Subject: [PATCH 49/62] fix: use hostname of the connect request for sasl

---
 src/client/connector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/connector.rs b/src/client/connector.rs
index ae0525f..8117e2d 100644
--- a/src/client/connector.rs
+++ b/src/client/connector.rs
@@ -202,7 +202,7 @@ async fn connect_sasl_inner(
         SaslInit::prepare_response(&auth.authz_id, &auth.authn_id, &auth.password);
 
     let sasl_init = SaslInit {
-        hostname: config.hostname.clone(),
+        hostname: hostname.clone().or_else(|| config.hostname.clone()),
         mechanism: Symbol::from("PLAIN"),
         initial_response: Some(initial_response),
     };
-- 
2.43.0


From f5fd8990d4457d331e8bd24845a2769afaa312ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 50/62] fix: client expects sasl mechanisms first

---
 src/client/connector.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/connector.rs b/src/client/connector.rs
index 8117e2d..a0f7cfe 100644
--- a/src/client/connector.rs
+++ b/src/client/connector.rs
@@ -192,12 +192,16 @@ async fn connect_sasl_inner(
     let codec = AmqpCodec::<SaslFrame>::new();
 
     // processing sasl-mechanisms
-    let _ = io
+    let sasl_frame = io
         .recv(&codec)
         .await
         .map_err(ConnectError::from)?
         .ok_or(ConnectError::Disconnected)?;
 
+    if !matches!(sasl_frame.body, SaslFrameBody::SaslMechanisms(_)) {
+        return Err(Error::from(ConnectError::Disconnected));
+    }
+
     let initial_response =
         SaslInit::prepare_response(&auth.authz_id, &auth.authn_id, &auth.password);
 
-- 
2.43.0


From a21a7cf3d66f8b804cae1b3e15e26863da7dd2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:40 +0000
Subject: [PATCH 51/62] fix: Router keeps handler alive while it serves a
 delivery and shuts it down once

---
 src/connection.rs |  8 +++--
 src/dispatcher.rs | 46 ++++++++++++++++++-----------
 src/router.rs     | 75 +++++++++++++++++++++++++++++------------------
 src/types.rs      |  1 +
 4 files changed, 83 insertions(+), 47 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index c102b13..04bb9b8 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -453,13 +453,17 @@ impl ConnectionInner {
                     SessionState::Closing(session) => match frame {
                         Frame::End(frm) => {
                             log::trace!("{}: Session end is confirmed: {:?}", self.io.tag(), frm);
-                            let _ = session
+                            let action = session
                                 .get_mut()
                                 .end(AmqpProtocolError::SessionEnded(frm.error));
                             if let Some(token) = self.sessions_map.remove(&channel_id) {
                                 self.sessions.remove(token);
                             }
-                            Ok(Action::None)
+                            if let Action::SessionEnded(links) = action {
+                                Ok(Action::LocalSessionEnded(links))
+                            } else {
+                                Ok(Action::None)
+                            }
                         }
                         frm => {
                             log::trace!(
diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 7e823c3..41c4ed7 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -9,7 +9,9 @@ use ntex_util::{future::Either, task::LocalWaker};
 
 use crate::codec::{AmqpCodec, AmqpFrame, protocol::Frame};
 use crate::error::{AmqpDispatcherError, AmqpProtocolError, Error};
-use crate::{ControlFrame, ControlFrameKind, ReceiverLink, connection::Connection, types};
+use crate::{
+    ControlFrame, ControlFrameKind, ReceiverLink, SenderLink, connection::Connection, types,
+};
 
 /// Amqp server dispatcher service.
 pub(crate) struct Dispatcher<Sr: Service<types::Message>, Ctl: Service<ControlFrame>> {
@@ -48,6 +50,13 @@ where
         }
     }
 
+    fn notify_service(&self, msg: types::Message) {
+        let fut = self.service.call(msg);
+        spawn(async move {
+            let _ = fut.await;
+        });
+    }
+
     fn call_control_service(&self, frame: ControlFrame) {
         let fut = self.ctl_service.call(frame.clone());
         self.ctl_fut.borrow_mut().push((frame, fut));
@@ -55,6 +64,17 @@ where
     }
 }
 
+fn detached_all(links: &[Either<SenderLink, ReceiverLink>]) -> types::Message {
+    let receivers = links
+        .iter()
+        .filter_map(|either| match either {
+            Either::Right(link) => Some(link.clone()),
+            Either::Left(_) => None,
+        })
+        .collect();
+    types::Message::DetachedAll(receivers)
+}
+
 impl<Sr, Ctl> Service<DispatchItem<AmqpCodec<AmqpFrame>>> for Dispatcher<Sr, Ctl>
 where
     Sr: Service<types::Message, Response = ()> + 'static,
@@ -111,6 +131,9 @@ where
 
         // enqueue pending control frames
         queue.pending.borrow_mut().drain(..).for_each(|frame| {
+            if let ControlFrameKind::LocalDetachReceiver(_, link) = frame.kind() {
+                self.notify_service(types::Message::Detached(link.clone()));
+            }
             let fut = self.ctl_service.call(frame.clone());
             futs.push((frame, fut));
         });
@@ -225,32 +248,21 @@ where
                     }
                     types::Action::DetachReceiver(link, frm) => {
                         let lnk = link.clone();
-                        let fut = self.service.call(types::Message::Detached(lnk));
-                        spawn(async move {
-                            let _ = fut.await;
-                        });
+                        self.notify_service(types::Message::Detached(lnk));
                         self.call_control_service(ControlFrame::new(
                             link.session().inner.clone(),
                             ControlFrameKind::RemoteDetachReceiver(frm, link),
                         ));
                     }
                     types::Action::SessionEnded(links) => {
-                        let receivers = links
-                            .iter()
-                            .filter_map(|either| match either {
-                                Either::Right(link) => Some(link.clone()),
-                                Either::Left(_) => None,
-                            })
-                            .collect();
-
-                        let fut = self.service.call(types::Message::DetachedAll(receivers));
-                        spawn(async move {
-                            let _ = fut.await;
-                        });
+                        self.notify_service(detached_all(&links));
                         self.call_control_service(ControlFrame::new_kind(
                             ControlFrameKind::RemoteSessionEnded(links),
                         ));
                     }
+                    types::Action::LocalSessionEnded(links) => {
+                        self.notify_service(detached_all(&links));
+                    }
                     types::Action::RemoteClose(err) => {
                         self.call_control_service(ControlFrame::new_kind(
                             ControlFrameKind::ProtocolError(err),
diff --git a/src/router.rs b/src/router.rs
index f68e36c..c3e2df5 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -10,7 +10,7 @@ use ntex_util::{HashMap, future::Ready, future::join_all};
 use crate::codec::protocol::{DeliveryState, Error, Rejected, Transfer};
 use crate::error::LinkError;
 use crate::types::{Link, Message, Outcome};
-use crate::{Delivery, State, cell::Cell, rcvlink::ReceiverLink};
+use crate::{State, cell::Cell, rcvlink::ReceiverLink};
 
 type Handle<S> = boxed::BoxServiceFactory<Link<S>, Transfer, Outcome, Error, Error>;
 type HandleService = boxed::BoxService<Transfer, Outcome, Error>;
@@ -99,21 +99,32 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                         match hnd.create(link).await {
                             Ok(srv) => {
                                 log::trace!("Handler service is created for {}", rcv_link.name());
-                                self.0
-                                    .get_mut()
-                                    .handlers
-                                    .insert(rcv_link.clone(), Some(Pipeline::new(srv)));
-                                if let Some((delivery, tr)) = rcv_link.get_delivery() {
-                                    service_call(rcv_link, delivery, tr, &self.0).await
+                                let srv = Pipeline::new(srv);
+                                let handlers = &mut self.0.get_mut().handlers;
+
+                                // link could be detached during service initialization
+                                if rcv_link.is_closed() || !handlers.contains_key(&rcv_link) {
+                                    handlers.remove(&rcv_link);
+                                    srv.shutdown().await;
                                 } else {
-                                    Ok(())
+                                    handlers.insert(rcv_link.clone(), Some(srv.clone()));
+                                    if rcv_link.has_deliveries() {
+                                        ntex_rt::spawn(async move {
+                                            while rcv_link.has_deliveries() && !rcv_link.is_closed()
+                                            {
+                                                service_call(&rcv_link, &srv).await;
+                                            }
+                                        });
+                                    }
                                 }
+                                Ok(())
                             }
                             Err(e) => {
                                 log::error!(
                                     "Failed to create link service for {} err: {e:?}",
                                     rcv_link.name()
                                 );
+                                self.0.get_mut().handlers.remove(&rcv_link);
                                 Err(e)
                             }
                         }
@@ -182,38 +193,47 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                 Ok(())
             }
             Message::Transfer(link) => {
-                if let Some(Some(_)) = self.0.get_ref().handlers.get(&link)
-                    && let Some((delivery, tr)) = link.get_delivery()
-                {
-                    service_call(link, delivery, tr, &self.0).await?;
+                // handler could be removed while delivery is processed
+                let srv = self.0.get_ref().handlers.get(&link).cloned();
+                if let Some(Some(srv)) = srv {
+                    service_call(&link, &srv).await;
                 }
                 Ok(())
             }
         }
     }
+
+    async fn shutdown(&self) {
+        let handlers: Vec<_> = self
+            .0
+            .get_mut()
+            .handlers
+            .drain()
+            .filter_map(|(_, srv)| srv)
+            .collect();
+        let _ = join_all(handlers.iter().map(Pipeline::shutdown).collect::<Vec<_>>()).await;
+    }
 }
 
-async fn service_call<S>(
-    link: ReceiverLink,
-    mut delivery: Delivery,
-    tr: Transfer,
-    inner: &Cell<RouterServiceInner<S>>,
-) -> Result<(), Error> {
-    if let Some(Some(srv)) = inner.handlers.get(&link) {
-        // check readiness
-        if let Err(e) = srv.ready().await {
-            log::trace!("Service readiness check failed: {e:?}");
-            let _ =
-                link.close_with_error(LinkError::force_detach().description(format!("error: {e}")));
-            return Ok(());
-        }
+async fn service_call(link: &ReceiverLink, srv: &Pipeline<HandleService>) {
+    // check readiness
+    if let Err(e) = srv.ready().await {
+        log::trace!("Service readiness check failed: {e:?}");
+        let _ = link.close_with_error(LinkError::force_detach().description(format!("error: {e}")));
+        return;
+    }
 
+    // deliveries must be processed in order, service could be not ready for a while
+    if link.is_closed() {
+        return;
+    }
+    if let Some((mut delivery, tr)) = link.get_delivery() {
         if link.credit() == 0 {
             // self.has_credit = self.link.credit() != 0;
             link.set_link_credit(50);
         }
 
-        match srv.call(tr).await {
+        match srv.call_nowait(tr).await {
             Ok(outcome) => {
                 log::trace!("Outcome is ready {outcome:?} for {}", link.name());
                 delivery.settle(outcome.into_delivery_state());
@@ -224,7 +244,6 @@ async fn service_call<S>(
             }
         }
     }
-    Ok(())
 }
 
 struct ResourceServiceFactory<S, T> {
diff --git a/src/types.rs b/src/types.rs
index 561224c..6cde333 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -28,6 +28,7 @@ pub(crate) enum Action {
     DetachSender(SenderLink, Detach),
     DetachReceiver(ReceiverLink, Detach),
     SessionEnded(Vec<Either<SenderLink, ReceiverLink>>),
+    LocalSessionEnded(Vec<Either<SenderLink, ReceiverLink>>),
     Flow(SenderLink, Flow),
     Transfer(ReceiverLink),
     RemoteClose(AmqpProtocolError),
-- 
2.43.0


From 78f692f31a25d0b97242d784a1fe86ba30a16e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:48 +0000
Subject: [PATCH 52/62] fix: Credit granted before attach is answered is
 announced after it

---
 src/dispatcher.rs |  4 +++-
 src/rcvlink.rs    | 20 ++++++++++++++++++++
 src/session.rs    |  1 +
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 41c4ed7..4be259e 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -355,7 +355,9 @@ where
                             let _ = link.close_with_error(Error::from(err)).await;
                         } else {
                             link.confirm_receiver_link(response);
-                            link.set_link_credit(50);
+                            if link.credit() == 0 {
+                                link.set_link_credit(50);
+                            }
                         }
                     });
                 }
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 65c6301..666dd63 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -27,6 +27,7 @@ pub(crate) struct ReceiverLinkInner {
     remote_handle: Handle,
     session: Session,
     closed: bool,
+    unconfirmed: bool,
     reader_task: LocalWaker,
     queue: VecDeque<(Delivery, Transfer)>,
     credit: u32,
@@ -96,6 +97,16 @@ impl ReceiverLink {
             .inner
             .get_mut()
             .confirm_receiver_link(inner.handle, response, size);
+
+        // credit was granted before attach
+        inner.unconfirmed = false;
+        if inner.credit != 0 {
+            inner.session.inner.get_mut().rcv_link_flow(
+                inner.handle,
+                inner.delivery_count,
+                inner.credit,
+            );
+        }
     }
 
     pub fn set_link_credit(&self, credit: u32) {
@@ -240,6 +251,7 @@ impl ReceiverLinkInner {
             remote_handle,
             session: Session::new(session),
             closed: false,
+            unconfirmed: false,
             queue: VecDeque::with_capacity(4),
             credit: 0,
             error: None,
@@ -258,6 +270,11 @@ impl ReceiverLinkInner {
         self.handle
     }
 
+    /// Remote attach is not answered yet, credit is announced after the answer
+    pub(crate) fn set_unconfirmed(&mut self) {
+        self.unconfirmed = true;
+    }
+
     pub(crate) fn name(&self) -> &ByteString {
         &self.name
     }
@@ -311,6 +328,9 @@ impl ReceiverLinkInner {
             return;
         }
         self.credit = self.credit.saturating_add(credit);
+        if self.unconfirmed {
+            return;
+        }
         self.session
             .inner
             .get_mut()
diff --git a/src/session.rs b/src/session.rs
index dcd18fb..ea27fc4 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -733,6 +733,7 @@ impl SessionInner {
         let token = entry.key();
 
         let inner = Cell::new(ReceiverLinkInner::new(cell, token as u32, handle, attach));
+        inner.get_mut().set_unconfirmed();
         entry.insert(Either::Right(ReceiverLinkState::Opening(Box::new(Some((
             inner.clone(),
             attach.source().cloned(),
-- 
2.43.0


From 25db08b0e89d6bb63d7f5b467fd5242152be99f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:06 +0000
Subject: [PATCH 53/62] fix: Begin of the peer respects the channel limit and
 channels in use

---
 src/connection.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 04bb9b8..b2299ef 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -253,8 +253,19 @@ impl ConnectionInner {
             remote_channel_id
         );
 
+        // no frames are allowed after close
+        if self.error.is_some() || self.state != ConnectionState::Normal {
+            return Ok(());
+        }
+        if self.sessions_map.contains_key(&remote_channel_id) {
+            return Err(AmqpProtocolError::Unexpected(begin.into()));
+        }
+
         let entry = self.sessions.vacant_entry();
         let local_token = entry.key();
+        if local_token > self.channel_max as usize {
+            return Err(AmqpProtocolError::TooManyChannels);
+        }
         let outgoing_window = begin.incoming_window();
 
         let session = Cell::new(SessionInner::new(
@@ -278,12 +289,8 @@ impl ConnectionInner {
             properties: None,
         }));
 
-        self.io
-            .encode(
-                AmqpFrame::new(local_token as u16, begin.into()),
-                &self.codec,
-            )
-            .map_err(AmqpProtocolError::Codec)
+        self.post_frame(AmqpFrame::new(local_token as u16, begin.into()));
+        Ok(())
     }
 
     pub(crate) fn complete_session_creation(
@@ -291,7 +298,7 @@ impl ConnectionInner {
         local_channel_id: u16,
         remote_channel_id: u16,
         begin: Begin,
-    ) {
+    ) -> Result<(), AmqpProtocolError> {
         log::trace!(
             "{}: Begin response received: local {:?} remote {:?}",
             self.io.tag(),
@@ -303,6 +310,9 @@ impl ConnectionInner {
 
         if let Some(channel) = self.sessions.get_mut(local_token) {
             if channel.is_opening() {
+                if self.sessions_map.contains_key(&remote_channel_id) {
+                    return Err(AmqpProtocolError::Unexpected(begin.into()));
+                }
                 if let SessionState::Opening(tx, cell) = channel {
                     let session = Cell::new(SessionInner::new(
                         local_token,
@@ -313,10 +323,8 @@ impl ConnectionInner {
                     ));
                     self.sessions_map.insert(remote_channel_id, local_token);
 
-                    // TODO: send end session if `tx` is None
-                    tx.take()
-                        .and_then(|tx| tx.send(Session::new(session.clone())).err());
-                    *channel = SessionState::Established(session);
+                    let tx = tx.take();
+                    *channel = SessionState::Established(session.clone());
 
                     log::trace!(
                         "{}: Session established: local {:?} remote {:?}",
@@ -324,6 +332,11 @@ impl ConnectionInner {
                         local_channel_id,
                         remote_channel_id,
                     );
+
+                    // opening is abandoned
+                    if let Some(Err(session)) = tx.map(|tx| tx.send(Session::new(session))) {
+                        drop(session.end());
+                    }
                 }
             } else {
                 // TODO: send error response
@@ -343,6 +356,7 @@ impl ConnectionInner {
                 remote_channel_id
             );
         }
+        Ok(())
     }
 
     fn handle_frame(
@@ -374,7 +388,7 @@ impl ConnectionInner {
                 // the remote-channel property in the frame is the local channel id
                 // we previously sent to the remote
                 if let Some(local_channel_id) = begin.remote_channel() {
-                    self.complete_session_creation(local_channel_id, channel_id, begin);
+                    self.complete_session_creation(local_channel_id, channel_id, begin)?;
                 } else {
                     self.register_remote_session(channel_id, begin, inner)?;
                 }
-- 
2.43.0


From 7f5fc4874b7ce6937997b247d9f7461985c023c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:40 +0000
Subject: [PATCH 54/62] fix: Long link name in a partially consumed read buffer
 panics the endpoint

---
 src/rcvlink.rs |  4 ++--
 src/sndlink.rs | 14 ++++++--------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 666dd63..ab89202 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -242,8 +242,8 @@ impl ReceiverLinkInner {
         remote_handle: Handle,
         frame: &Attach,
     ) -> ReceiverLinkInner {
-        let mut name = frame.name().clone();
-        name.trimdown();
+        // own copy, the name must not keep the read buffer alive
+        let name = ByteString::from(frame.name().as_str());
 
         ReceiverLinkInner {
             name,
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 2fd43ae..de9332b 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -212,14 +212,12 @@ impl SenderLinkInner {
     }
 
     pub(crate) fn with(id: usize, frame: &Attach, session: Cell<SessionInner>) -> SenderLinkInner {
-        let mut name = None;
-        if let Some(source) = frame.source()
-            && let Some(ref addr) = source.address
-        {
-            name = Some(addr.clone());
-        }
-        let mut name = name.unwrap_or_default();
-        name.trimdown();
+        // own copy, the name must not keep the read buffer alive
+        let name = frame
+            .source()
+            .and_then(|source| source.address.as_ref())
+            .map(|addr| ByteString::from(addr.as_str()))
+            .unwrap_or_default();
 
         let delivery_count = frame.initial_delivery_count().unwrap_or(0);
         let max_message_size = frame
-- 
2.43.0


From c119289bdc039c7e6fc69f9da658774cb3d79a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:08 +0000
Subject: [PATCH 55/62] fix: Keep-alive frames are sent repeatedly

---
 src/dispatcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 4be259e..dfc8217 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -162,8 +162,8 @@ where
             }
         }
 
-        // handle idle timeout
-        if self.idle_timeout.non_zero() && self.idle_sleep.poll_elapsed(cx).is_ready() {
+        // handle idle timeout, timer must be polled after reset
+        while self.idle_timeout.non_zero() && self.idle_sleep.poll_elapsed(cx).is_ready() {
             log::trace!(
                 "{}: Send keep-alive ping, timeout: {:?} secs",
                 self.sink.tag(),
-- 
2.43.0


From fbd65187fb70ce04247be8b1f8674bcc999db511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:51 +0000
Subject: [PATCH 56/62] fix: pass the peer's detach error of a receiver link to
 the control service

---
 src/session.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index ea27fc4..5db8778 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1104,7 +1104,7 @@ impl SessionInner {
 
     #[allow(clippy::too_many_lines)]
     /// Handle `Detach` frame.
-    pub(crate) fn handle_detach(&mut self, mut frame: Detach) -> Action {
+    pub(crate) fn handle_detach(&mut self, frame: Detach) -> Action {
         // get local link instance
         let idx = if let Some(idx) = self.remote_handles.get(&frame.handle()) {
             *idx
@@ -1202,7 +1202,7 @@ impl SessionInner {
                         true
                     }
                     ReceiverLinkState::Established(link) => {
-                        let error = frame.0.error.take();
+                        let error = frame.0.error.clone();
 
                         // drop unsettled transfers
                         let err = AmqpProtocolError::LinkDetached(error.clone());
-- 
2.43.0


From 18f93743042d792e3b6e9ccf06d87d509e37bdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:47 +0000
Subject: [PATCH 57/62] fix: report the reason of a session or connection end
 to waits for delivery outcomes

---
 src/delivery.rs | 12 ++++++++++--
 src/session.rs  |  5 +++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index b959735..8e15f60 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -188,7 +188,7 @@ impl Delivery {
             rx
         } else {
             // session ended
-            return Err(AmqpProtocolError::LinkDetached(None));
+            return Err(self.session_error());
         };
         if rx.await.is_err() {
             return Err(AmqpProtocolError::ConnectionDropped);
@@ -209,11 +209,19 @@ impl Delivery {
             }
         } else {
             // session ended
-            return Err(AmqpProtocolError::LinkDetached(None));
+            return Err(self.session_error());
         }
         Ok(None)
     }
 
+    fn session_error(&self) -> AmqpProtocolError {
+        self.session
+            .inner
+            .get_ref()
+            .error()
+            .unwrap_or(AmqpProtocolError::LinkDetached(None))
+    }
+
     fn check_inner(
         inner: &mut DeliveryInner,
     ) -> Option<Result<Option<DeliveryState>, AmqpProtocolError>> {
diff --git a/src/session.rs b/src/session.rs
index 5db8778..67d4d8a 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -372,6 +372,11 @@ impl SessionInner {
         }
     }
 
+    /// Error of ended session
+    pub(crate) fn error(&self) -> Option<AmqpProtocolError> {
+        self.error.clone()
+    }
+
     /// Set error. New operations will return error.
     pub(crate) fn set_error(&mut self, err: AmqpProtocolError) {
         log::trace!(
-- 
2.43.0


From 3b553527e9b943e349a6e3d97b4f02c4e42cfac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:42 +0000
Subject: [PATCH 58/62] fix: do not apply a flow after a later one when the
 control service is slow

---
 src/control.rs    |  4 ++++
 src/dispatcher.rs | 21 ++++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/control.rs b/src/control.rs
index f397489..92abf17 100644
--- a/src/control.rs
+++ b/src/control.rs
@@ -15,6 +15,8 @@ pub struct ControlFrame(pub(super) Cell<FrameInner>);
 pub(super) struct FrameInner {
     pub(super) kind: ControlFrameKind,
     pub(super) session: Option<Cell<SessionInner>>,
+    /// Later flow of the link is applied already
+    pub(super) superseded: bool,
 }
 
 impl fmt::Debug for ControlFrame {
@@ -45,6 +47,7 @@ impl ControlFrame {
     pub(crate) fn new(session: Cell<SessionInner>, kind: ControlFrameKind) -> Self {
         ControlFrame(Cell::new(FrameInner {
             session: Some(session),
+            superseded: false,
             kind,
         }))
     }
@@ -52,6 +55,7 @@ impl ControlFrame {
     pub(crate) fn new_kind(kind: ControlFrameKind) -> Self {
         ControlFrame(Cell::new(FrameInner {
             session: None,
+            superseded: false,
             kind,
         }))
     }
diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index dfc8217..9f26408 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -64,6 +64,20 @@ where
     }
 }
 
+/// Flow carries complete state of the link, earlier flows that are still
+/// in control service must not override it
+fn supersede_flows<T>(earlier: &[(ControlFrame, T)], frame: &ControlFrame) {
+    if let ControlFrameKind::Flow(_, link) = frame.kind() {
+        for (item, _) in earlier {
+            if let ControlFrameKind::Flow(_, other) = item.kind()
+                && std::ptr::eq(other.inner.get_ref(), link.inner.get_ref())
+            {
+                item.0.get_mut().superseded = true;
+            }
+        }
+    }
+}
+
 fn detached_all(links: &[Either<SenderLink, ReceiverLink>]) -> types::Message {
     let receivers = links
         .iter()
@@ -150,6 +164,9 @@ where
                 Poll::Ready(res) => res,
             };
             let (frame, _) = futs.remove(idx);
+            if res.is_ok() {
+                supersede_flows(&futs[..idx], &frame);
+            }
             let result = match res {
                 Ok(()) => self.handle_control_frame(&frame, None),
                 Err(e) => self.handle_control_frame(&frame, Some(e.into())),
@@ -369,7 +386,9 @@ where
                     );
                 }
                 ControlFrameKind::Flow(ref frm, ref link) => {
-                    link.inner.get_mut().apply_flow(frm);
+                    if !frame.0.get_ref().superseded {
+                        link.inner.get_mut().apply_flow(frm);
+                    }
                 }
                 ControlFrameKind::ProtocolError(ref err) => {
                     self.sink.set_error(err.clone());
-- 
2.43.0


From f6970e05cf4fffd75dff16dc355a19b804e1f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:01 +0000
Subject: [PATCH 59/62] fix: respect the peer's handle limit

---
 src/connection.rs |  2 ++
 src/session.rs    | 20 +++++++++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index b2299ef..64fbbf6 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -431,6 +431,8 @@ impl ConnectionInner {
                             let cell = session.clone();
                             if session.get_mut().handle_attach(&attach, cell) {
                                 Ok(Action::None)
+                            } else if session.get_ref().check_handles().is_err() {
+                                Err(AmqpProtocolError::Unexpected(attach.into()))
                             } else {
                                 match attach.0.role {
                                     Role::Receiver => {
diff --git a/src/session.rs b/src/session.rs
index 67d4d8a..814678e 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -13,7 +13,7 @@ use ntex_amqp_codec::protocol::{
 use ntex_amqp_codec::{AmqpFrame, Encode};
 
 use crate::delivery::DeliveryInner;
-use crate::error::AmqpProtocolError;
+use crate::error::{AmqpError, AmqpProtocolError};
 use crate::rcvlink::{
     EstablishedReceiverLink, ReceiverLink, ReceiverLinkBuilder, ReceiverLinkInner,
 };
@@ -461,6 +461,20 @@ impl SessionInner {
         self.sink.0.max_frame_size
     }
 
+    /// Check if remote peer can accept one more link
+    pub(crate) fn check_handles(&self) -> Result<(), AmqpProtocolError> {
+        if self.links.vacant_key() > self.begin.handle_max() as usize {
+            log::trace!("{}: Too many links: {:?}", self.tag(), self.links.len());
+            Err(AmqpProtocolError::LinkDetached(Some(
+                AmqpError::new(codec::AmqpError::ResourceLimitExceeded)
+                    .text("Too many links")
+                    .into(),
+            )))
+        } else {
+            Ok(())
+        }
+    }
+
     /// Remove link, its id could be re-used by other link
     fn remove_link(&mut self, idx: usize) {
         if self.links.contains(idx) {
@@ -514,7 +528,7 @@ impl SessionInner {
     ) -> oneshot::Receiver<Result<Cell<SenderLinkInner>, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
 
-        if let Err(err) = self.check_opened() {
+        if let Err(err) = self.check_opened().and_then(|()| self.check_handles()) {
             let _ = tx.send(Err(err));
             return rx;
         }
@@ -772,7 +786,7 @@ impl SessionInner {
     ) -> oneshot::Receiver<Result<ReceiverLink, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
 
-        if let Err(err) = self.check_opened() {
+        if let Err(err) = self.check_opened().and_then(|()| self.check_handles()) {
             let _ = tx.send(Err(err));
             return rx;
         }
-- 
2.43.0


From 1c951bf16b3d6428ebd487bfb6d6133f3e1c049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:05 +0000
Subject: [PATCH 60/62] fix: report a delivery sent settled as settled

---
 src/delivery.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index 8e15f60..0e98871 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -57,7 +57,7 @@ impl Delivery {
             tag,
             session,
             flags: StdCell::new(if settled {
-                Flags::LOCAL_SETTLED
+                Flags::LOCAL_SETTLED | Flags::REMOTE_SETTLED
             } else {
                 Flags::empty()
             }),
@@ -66,7 +66,7 @@ impl Delivery {
 
     /// Remote does not expect any disposition for this delivery
     pub(crate) fn remote_settled(&self) {
-        self.set_flag(Flags::LOCAL_SETTLED);
+        self.set_flag(Flags::LOCAL_SETTLED | Flags::REMOTE_SETTLED);
         self.session
             .inner
             .get_mut()
-- 
2.43.0


From 19cbce3eae56df1fa8b0d20a721e5acfbe11e445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:24 +0000
Subject: [PATCH 61/62] fix: forget waiters of a delivery that are dropped

---
 src/delivery.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/delivery.rs b/src/delivery.rs
index 0e98871..2b76ae0 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -184,6 +184,8 @@ impl Delivery {
             }
 
             let (tx, rx) = self.session.inner.get_ref().pool_notify.channel();
+            // waiters that gave up are not needed any more
+            inner.tx.retain(|tx| !tx.is_canceled());
             inner.tx.push(tx);
             rx
         } else {
-- 
2.43.0


From 123586c7cf9d648cab22ec2ccc8b5cf2bfab973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:28 +0000
Subject: [PATCH 62/62] fix: forget transfers that are dropped while they wait
 for the session window

---
 src/session.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index 814678e..5e2e648 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1395,6 +1395,8 @@ impl SessionInner {
             self.sink.tag()
         );
         let (tx, rx) = self.pool_credit.channel();
+        // transfers that are given up do not wait any more
+        self.pending_transfers.retain(|tr| !tr.tx.is_canceled());
         self.pending_transfers
             .push_back(PendingTransfer { tx, link_handle });
         rx
-- 
2.43.0

