From 4ab384591bc2b11d344841ffc5d2e559dfcf316e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:42:07 +0000
Subject: [PATCH 1/3] fix: accept a long-form zero length at the end of BER-TLV
 data

---
 src/emv/tlv_parsing/ber_tlv.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emv/tlv_parsing/ber_tlv.rs b/src/emv/tlv_parsing/ber_tlv.rs
index a546893..525baf3 100644
--- a/src/emv/tlv_parsing/ber_tlv.rs
+++ b/src/emv/tlv_parsing/ber_tlv.rs
@@ -48,7 +48,8 @@ pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, P
 			}
 			let start_index = index;
 			index += 1 + subsequent_length_byte_count;
-			if index >= bytes_len {
+			// The length may be the end of the data, if it's a length of 0
+			if index > bytes_len {
 				return Err(ParseError::NonCompliant);
 			}
 			byte_slice_to_u32(
-- 
2.43.0


From e9c710bd0170387cac6aeca9afad7d15c4897100 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:42:22 +0000
Subject: [PATCH 2/3] fix: limit the nesting depth of constructed data objects
 so deep nesting can't crash

---
 src/emv/tlv_parsing/ber_tlv.rs      | 28 +++++++++++++++++++++++++---
 src/emv/tlv_parsing/ingenico_tlv.rs |  2 +-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/emv/tlv_parsing/ber_tlv.rs b/src/emv/tlv_parsing/ber_tlv.rs
index 525baf3..b7843b2 100644
--- a/src/emv/tlv_parsing/ber_tlv.rs
+++ b/src/emv/tlv_parsing/ber_tlv.rs
@@ -9,8 +9,25 @@ use crate::{
 	util::{byte_slice_to_u32, BYTES_PER_32_BITS},
 };
 
+// Constants
+/// The deepest level of nesting that constructed data objects are descended
+/// into. Anything deeper is left as the raw data of its parent.
+///
+/// This keeps hostile data from exhausting the stack, and the indentation
+/// within what can be displayed.
+const MAX_NESTING_DEPTH: u8 = 250;
+
 /// Parses a block of BER-TLV encoded data.
 pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, ParseError> {
+	parse_at_depth(bytes, masking_characters, 0)
+}
+
+/// Parses a block of BER-TLV encoded data that's nested `depth` levels deep.
+fn parse_at_depth(
+	bytes: &[u8],
+	masking_characters: &[char],
+	depth: u8,
+) -> Result<RawEmvBlock, ParseError> {
 	let bytes_len = bytes.len();
 	let mut nodes = Vec::new();
 	let mut index = 0;
@@ -69,7 +86,7 @@ pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, P
 		// Push the resulting tag to the list
 		let tag_data = EmvData::from_u8_check_for_masked(data.to_vec(), masking_characters);
 		nodes.push(RawEmvNode {
-			child_block: get_child_block(data_object_type, &tag_data, masking_characters),
+			child_block: get_child_block(data_object_type, &tag_data, masking_characters, depth),
 			tag:         RawEmvTag {
 				tag: bytes[tag_start_index..=tag_end_index].to_vec(),
 				class,
@@ -105,16 +122,21 @@ pub fn parse_tag_metadata(tag_byte_0: u8) -> (TagClass, DataObjectType) {
 /// if `data_object_type` is [`DataObjectType::Constructed`].
 ///
 /// Otherwise, it returns [`RawEmvBlock::default`].
+///
+/// `depth` is how many levels deep the tag itself is nested.
 pub fn get_child_block(
 	data_object_type: DataObjectType,
 	tag_data: &EmvData,
 	masking_characters: &[char],
+	depth: u8,
 ) -> RawEmvBlock {
 	match data_object_type {
 		DataObjectType::Primitive => RawEmvBlock::default(),
 		DataObjectType::Constructed => match tag_data {
-			EmvData::Normal(data) => parse(data, masking_characters).unwrap_or_default(),
-			EmvData::Masked => RawEmvBlock::default(),
+			EmvData::Normal(data) if depth < MAX_NESTING_DEPTH => {
+				parse_at_depth(data, masking_characters, depth + 1).unwrap_or_default()
+			}
+			EmvData::Normal(_) | EmvData::Masked => RawEmvBlock::default(),
 		},
 	}
 }
diff --git a/src/emv/tlv_parsing/ingenico_tlv.rs b/src/emv/tlv_parsing/ingenico_tlv.rs
index 948c4e8..e41e2f1 100644
--- a/src/emv/tlv_parsing/ingenico_tlv.rs
+++ b/src/emv/tlv_parsing/ingenico_tlv.rs
@@ -125,7 +125,7 @@ pub fn parse(data: &str, masking_characters: &[char]) -> Result<RawEmvBlock, Par
 			continue;
 		}
 		nodes.push(RawEmvNode {
-			child_block: get_child_block(data_object_type, &tag_data, masking_characters),
+			child_block: get_child_block(data_object_type, &tag_data, masking_characters, 0),
 			tag:         RawEmvTag {
 				tag: tag_id_bytes,
 				class,
-- 
2.43.0


From c17aad4ca100ab8dc2e86dd644302a9e5c148c73 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:42:39 +0000
Subject: [PATCH 3/3] fix: keep the bits of unknown CV methods and conditions
 in the binary representation

---
 src/emv/cv_rule/cv_method.rs     | 18 +++++++++++++++---
 src/emv/cv_rule/cvm_condition.rs | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/emv/cv_rule/cv_method.rs b/src/emv/cv_rule/cv_method.rs
index 9c266a5..cffc62e 100644
--- a/src/emv/cv_rule/cv_method.rs
+++ b/src/emv/cv_rule/cv_method.rs
@@ -5,6 +5,8 @@
 // Uses
 use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
 
+use derivative::Derivative;
+
 use crate::{enum_repr_fallible, error::ParseError};
 
 enum_repr_fallible! {
@@ -26,15 +28,24 @@ pub enum CvMethod: u8, ParseError, { |_| ParseError::NonCompliant } {
 }
 
 /// A somewhat dumb workaround to have custom impls on [`Option<CvMethod>`].
-#[derive(Copy, Clone, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Eq, Derivative)]
+#[derivative(PartialEq, Hash)]
 pub struct OptionalCvMethod {
 	pub internal: Option<CvMethod>,
+	/// The raw value, so that values that aren't known are still represented
+	/// properly.
+	#[derivative(PartialEq = "ignore")]
+	#[derivative(Hash = "ignore")]
+	raw:          u8,
 }
 
 #[cfg(not(tarpaulin_include))]
 impl From<Option<CvMethod>> for OptionalCvMethod {
 	fn from(value: Option<CvMethod>) -> Self {
-		Self { internal: value }
+		Self {
+			internal: value,
+			raw:      value.map_or(0, Into::into),
+		}
 	}
 }
 
@@ -50,6 +61,7 @@ impl From<u8> for OptionalCvMethod {
 	fn from(value: u8) -> Self {
 		Self {
 			internal: CvMethod::try_from(value).ok(),
+			raw:      value,
 		}
 	}
 }
@@ -57,7 +69,7 @@ impl From<u8> for OptionalCvMethod {
 #[cfg(not(tarpaulin_include))]
 impl From<OptionalCvMethod> for u8 {
 	fn from(value: OptionalCvMethod) -> Self {
-		value.internal.map_or(0, Into::into)
+		value.raw
 	}
 }
 
diff --git a/src/emv/cv_rule/cvm_condition.rs b/src/emv/cv_rule/cvm_condition.rs
index 27db84d..1266d97 100644
--- a/src/emv/cv_rule/cvm_condition.rs
+++ b/src/emv/cv_rule/cvm_condition.rs
@@ -5,6 +5,8 @@
 // Uses
 use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
 
+use derivative::Derivative;
+
 use crate::{enum_repr_fallible, error::ParseError};
 
 enum_repr_fallible! {
@@ -45,15 +47,24 @@ impl CvmCondition {
 
 /// A somewhat dumb workaround to have a [`Display`] impl on
 /// [`Option<CvmCondition>`].
-#[derive(Copy, Clone, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Eq, Derivative)]
+#[derivative(PartialEq, Hash)]
 pub struct OptionalCvmCondition {
 	pub internal: Option<CvmCondition>,
+	/// The raw value, so that values that aren't known are still represented
+	/// properly.
+	#[derivative(PartialEq = "ignore")]
+	#[derivative(Hash = "ignore")]
+	raw:          u8,
 }
 
 #[cfg(not(tarpaulin_include))]
 impl From<Option<CvmCondition>> for OptionalCvmCondition {
 	fn from(value: Option<CvmCondition>) -> Self {
-		Self { internal: value }
+		Self {
+			internal: value,
+			raw:      value.map_or(0, Into::into),
+		}
 	}
 }
 
@@ -69,6 +80,7 @@ impl From<u8> for OptionalCvmCondition {
 	fn from(value: u8) -> Self {
 		Self {
 			internal: CvmCondition::try_from(value).ok(),
+			raw:      value,
 		}
 	}
 }
@@ -76,7 +88,7 @@ impl From<u8> for OptionalCvmCondition {
 #[cfg(not(tarpaulin_include))]
 impl From<OptionalCvmCondition> for u8 {
 	fn from(value: OptionalCvmCondition) -> Self {
-		value.internal.map_or(0, Into::into)
+		value.raw
 	}
 }
 
-- 
2.43.0

