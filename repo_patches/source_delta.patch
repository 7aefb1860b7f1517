From 1cd935cc00f6931738bc80e1161aa6d151192417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 01/17] fix: reject long frames whose length field is less than
 2

The length field counts the control and address bytes, so subtracting
those two from a smaller value overflowed: a panic in debug builds and a
wrapped packet length in release ones.
---
 src/parse/link_layer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 08a323b..d1e5a9e 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -139,6 +139,8 @@ where
 		+ Clone,
 {
 	let length = binary::u8
+		// The length includes the control & address bytes so can't be less than 2
+		.verify(|v| *v >= 2)
 		.context(StrContext::Label("length"))
 		.parse_next(input)?;
 	binary::u8
-- 
2.43.0


From 3b9a02d44c738e6dc287d1dd08911f09cc019821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 02/17] fix: report secondary function 15 as "link not
 implemented"

Function 15 was decoded to the same message as function 14, so the
LinkNotImplemented variant could never be produced.
---
 src/parse/link_layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index d1e5a9e..8442c6b 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -107,7 +107,7 @@ impl Control {
 						9 => SecondaryControlMessage::UserDataUnavailable,
 						11 => SecondaryControlMessage::Status,
 						14 => SecondaryControlMessage::LinkNotFunctioning,
-						15 => SecondaryControlMessage::LinkNotFunctioning,
+						15 => SecondaryControlMessage::LinkNotImplemented,
 						_ => return None,
 					},
 				}
-- 
2.43.0


From df36e987e483cdda54f76e39fc9bf0c4f7ec41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 03/17] fix: return an error for records with more than 10
 DIFEs

ParserError::assert panics when debug assertions are enabled, so a
record with an 11th DIFE took down the process instead of being
rejected.
---
 src/parse/application_layer/dib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parse/application_layer/dib.rs b/src/parse/application_layer/dib.rs
index 5fcf55f..d85fb55 100644
--- a/src/parse/application_layer/dib.rs
+++ b/src/parse/application_layer/dib.rs
@@ -2,10 +2,11 @@
 // Licensed under the EUPL-1.2
 #![allow(dead_code)]
 
-use crate::parse::error::{MBResult, MBusError};
+use crate::parse::error::{MBResult, MBusContext, MBusError};
 use crate::parse::types::BitsInput;
 use winnow::binary::bits;
-use winnow::error::{ParserError, StrContext};
+use winnow::error::{AddContext, ParserError, StrContext};
+use winnow::stream::Stream;
 use winnow::Parser;
 
 #[derive(Debug, Clone, Copy)]
@@ -95,7 +96,11 @@ impl DataInfoBlock {
 		let mut i = 1;
 		while extension {
 			if i > 10 {
-				return Err(MBusError::assert(input, "Packet has more than 10 DIFEs!"));
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&input.checkpoint(),
+					MBusContext::Assertion("Packet has more than 10 DIFEs!"),
+				));
 			}
 
 			let mut dife_device: u16;
-- 
2.43.0


From 864054f72f5568384222fcaccb7482d1b04d05dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 04/17] fix: put DIFE bits in the right place

The first DIFE carries bits 1-4 of the storage number, bits 0-1 of the
tariff and bit 0 of the device. They were shifted up by 4, 2 and 1, so
tariff 1 was reported as 4, device 1 as 2 and storage number 2 as 16.
---
 src/parse/application_layer/dib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parse/application_layer/dib.rs b/src/parse/application_layer/dib.rs
index d85fb55..60af657 100644
--- a/src/parse/application_layer/dib.rs
+++ b/src/parse/application_layer/dib.rs
@@ -122,9 +122,11 @@ impl DataInfoBlock {
 				break;
 			}
 
-			dife_device <<= i;
-			dife_tariff <<= 2 * i;
-			dife_storage <<= 4 * i;
+			// The DIF holds the lowest bit of the storage number, but nothing of
+			// the tariff or the device
+			dife_device <<= i - 1;
+			dife_tariff <<= 2 * (i - 1);
+			dife_storage <<= 4 * (i - 1) + 1;
 			i += 1;
 
 			device += dife_device;
-- 
2.43.0


From 3338075bb4323e73de2208fca42a18639020a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 05/17] fix: parse 6 byte date/times as type I

A type I date/time is 48 bits long. There is no 5 byte binary data type,
so these were never parsed and got reported as an invalid VIF.
---
 src/parse/application_layer/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 21041f7..3c85c97 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -136,7 +136,7 @@ fn handle_date_types(dib: &DataInfoBlock, mut vib: ValueInfoBlock) -> ValueInfoB
 			RawDataType::LVAR => ValueType::TypeMDatetime,
 			RawDataType::Binary(4) => ValueType::TypeFDateTime,
 			RawDataType::Binary(3) => ValueType::TypeJTime,
-			RawDataType::Binary(5) => ValueType::TypeIDateTime,
+			RawDataType::Binary(6) => ValueType::TypeIDateTime,
 			_ => ValueType::Invalid(vif!(E110 1101)),
 		},
 		vt => vt,
-- 
2.43.0


From 64a22bfb5eaf2eb4f96aa60c4bf9c1f0602c1e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 06/17] fix: only parse type K data from 4 byte records

Type K data always took 4 bytes no matter what length the DIF specified,
which misaligned every record after it.
---
 src/parse/application_layer/record.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 3c85c97..2f54896 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -139,6 +139,10 @@ fn handle_date_types(dib: &DataInfoBlock, mut vib: ValueInfoBlock) -> ValueInfoB
 			RawDataType::Binary(6) => ValueType::TypeIDateTime,
 			_ => ValueType::Invalid(vif!(E110 1101)),
 		},
+		ValueType::DSTTypeK => match dib.raw_type {
+			RawDataType::Binary(4) => ValueType::DSTTypeK,
+			_ => ValueType::Invalid(vif!(E111 0010)),
+		},
 		vt => vt,
 	};
 	vib
-- 
2.43.0


From 0cb135e57a23629a98dce73a40fd92f1ea163239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 07/17] fix: accept zero as a positive variable length BCD
 number

A positive LVAR BCD value of 0 caused the entire packet to be rejected.
---
 src/parse/application_layer/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 2f54896..a4361dc 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -84,7 +84,7 @@ impl Record {
 							parse_latin1(n).map(DataType::String).parse_next(input)?
 						}
 						n @ 0xC0..=0xC9 => parse_bcd(n - 0xC0)
-							.verify(|v| *v > 0)
+							.verify(|v| *v >= 0)
 							.map(DataType::Signed)
 							.parse_next(input)?,
 						n @ 0xD0..=0xD9 => parse_bcd(n - 0xD0)
-- 
2.43.0


From 236d05eccf912965271b8db76d4c68e87116cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 08/17] fix: assemble the type K local deviation in the right
 order

The first byte holds the 3 low bits and the second one the 2 high bits,
as with the year. The other way round, the values did not fit into 5 bits
and the 31 that is checked for could never be produced.
---
 src/parse/types/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/types/date.rs b/src/parse/types/date.rs
index 75fe821..aa3eae0 100644
--- a/src/parse/types/date.rs
+++ b/src/parse/types/date.rs
@@ -511,7 +511,7 @@ impl TypeKDST {
 				} else {
 					-dst_deviation
 				},
-				local_deviation: gmt_l + (gmt_u << 3),
+				local_deviation: gmt_u + (gmt_l << 3),
 			},
 		)
 		.verify(|v| matches!(v.local_deviation, 0..=23 | 31))
-- 
2.43.0


From 0ed3ba2cfd9009f8f91ffed0dfaa2589d2230b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 09/17] fix: don't sniff for a BOM in variable length strings

Encoding::decode switches to UTF-8 or UTF-16 when the data begins with
the bytes of a byte order mark.
---
 src/parse/types/string.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parse/types/string.rs b/src/parse/types/string.rs
index 759a174..0f27218 100644
--- a/src/parse/types/string.rs
+++ b/src/parse/types/string.rs
@@ -29,7 +29,14 @@ pub fn parse_latin1<'a>(num_bytes: usize) -> impl Parser<&'a Bytes, String, MBus
 			repeat::<_, _, (), _, _>(num_bytes, binary::u8)
 				.context(StrContext::Label("latin-1 string"))
 				.take()
-				.map(|data| WINDOWS_1252.decode(data).0.chars().rev().collect())
+				.map(|data| {
+					WINDOWS_1252
+						.decode_without_bom_handling(data)
+						.0
+						.chars()
+						.rev()
+						.collect()
+				})
 				.parse_next(input)
 		}
 	}
-- 
2.43.0


From dab925593ab1a6e7834568635ac5bec7bedacd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 10/17] fix: read the security mode from bits 8 to 12

The mode is the lower 5 bits of the configuration field's high byte, not
the upper 5. An encrypted message (e.g. mode 5 with the bidirectional bit
set) was treated as a reserved mode and its data parsed as if it was
plain text.
---
 src/parse/transport_layer/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index 1bdc7a1..0fce7a7 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -105,10 +105,10 @@ impl SecurityMode {
 			.parse_next(input)?;
 		(binary::bits::bits::<_, _, MBusError, _, _>((
 			binary::bits::take(8_usize).context(StrContext::Label("Security mode info low")),
-			binary::bits::take(5_usize).context(StrContext::Label("Security mode")),
 			binary::bits::take(3_usize).context(StrContext::Label("Security mode info high")),
+			binary::bits::take(5_usize).context(StrContext::Label("Security mode")),
 		)))
-		.verify_map(|(info_low, security_mode, info_high): (u8, u8, u8)| {
+		.verify_map(|(info_low, info_high, security_mode): (u8, u8, u8)| {
 			match security_mode {
 				0 => {
 					if info_high == 0 && info_low == 0 {
-- 
2.43.0


From f155ee4734faf5cca963cb79dbf2f0e22cc0b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 11/17] fix: reject encrypted packets instead of panicking

---
 src/parse/transport_layer/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index 0fce7a7..8ed9dd2 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -119,7 +119,8 @@ impl SecurityMode {
 				}
 				// libmbus strikes again
 				6 | 11 | 12 | 14 | 16..=31 => Some(SecurityMode::Reserved(raw_value)),
-				_ => todo!("Packet encryption is not yet supported (mode {security_mode})"),
+				// TODO: Packet encryption is not yet supported
+				_ => None,
 			}
 		})
 		.parse_next(input)
-- 
2.43.0


From ef540a270e2f9e8cdf2e4c5bd073566d9c7773b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 12/17] fix: accept the headerless CI fields 0x50 to 0x52

Application reset/select, command to device and selection of device
without a header were rejected as reserved before they could reach the
code that parses them.
---
 src/parse/transport_layer/control_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/transport_layer/control_info.rs b/src/parse/transport_layer/control_info.rs
index cf17a49..6e4304b 100644
--- a/src/parse/transport_layer/control_info.rs
+++ b/src/parse/transport_layer/control_info.rs
@@ -64,6 +64,7 @@ impl MBusMessage {
 
 		let header = match ci {
 			0x00..=0x1F
+			| 0x50..=0x52
 			| 0x54
 			| 0x5C
 			| 0x66
-- 
2.43.0


From 18984e8a7e1ad3744bbc6370aa85c1b14f1bc747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 13/17] fix: return an error for unsupported CI fields instead
 of panicking

Format and compact frames hit a todo!(), and the CI fields 0x64, 0x65,
0x84 & 0x85 have their header parsed but then nothing handled them so they
reached the unreachable!().
---
 src/parse/transport_layer/control_info.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parse/transport_layer/control_info.rs b/src/parse/transport_layer/control_info.rs
index 6e4304b..95cb7e3 100644
--- a/src/parse/transport_layer/control_info.rs
+++ b/src/parse/transport_layer/control_info.rs
@@ -168,14 +168,21 @@ impl MBusMessage {
 			0x6D => Self::TimeAdjustmentToDevice(header, parse_remaining.parse_next(input)?),
 			// Actual mbus
 			0x51 | 0x5A | 0x5B => Self::CommandToDevice(header, parse_remaining.parse_next(input)?),
-			0x69..=0x6B => todo!("format frame"),
 			0x6E..=0x70 => Self::ApplicationErrorFromDevice(
 				header,
 				ApplicationErrorMessage::parse.parse_next(input)?,
 			),
 			0x71 | 0x74 | 0x75 => Self::AlarmFromDevice(header, parse_remaining.parse_next(input)?),
 			0x72 | 0x78 | 0x7A => Self::ResponseFromDevice(header, Frame::parse.parse_next(input)?),
-			0x73 | 0x79 | 0x7B => todo!("compact frame"),
+			// TODO: format frames (0x69..=0x6B) and compact frames (0x73, 0x79 & 0x7B)
+			// aren't supported yet, and neither are the messages with these headers
+			0x69..=0x6B | 0x73 | 0x79 | 0x7B | 0x64 | 0x65 | 0x84 | 0x85 => {
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&ci_checkpoint,
+					StrContext::Label("unsupported CI field"),
+				));
+			}
 			_ => unreachable!(),
 		})
 	}
-- 
2.43.0


From fee4f642d865cefebf66e5a28191385421716460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:36 +0000
Subject: [PATCH 14/17] fix: ask for more data when a partial frame ends before
 the control byte

The bit parsers used an error type that cannot represent incomplete
input, so a Partial stream that ended right before the control byte got
an unrecoverable "invalid control byte" error instead of Incomplete.
---
 src/parse/link_layer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 8442c6b..3248167 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -73,7 +73,8 @@ impl Control {
 			bits::bool.context(StrContext::Label("PRM")),
 			bits::bool.context(StrContext::Label("FCB/ACD")),
 			bits::bool.context(StrContext::Label("FCV/DFC")),
-			bits::take::<_, u8, _, MBusError>(4_usize).context(StrContext::Label("function")),
+			bits::take::<_, u8, _, ErrMode<MBusError>>(4_usize)
+				.context(StrContext::Label("function")),
 		))
 		.verify_map(|(_, prm, fcb_acd, fcv_dfc, function)| {
 			Some(if prm {
-- 
2.43.0


From 8e2fe9d1301cf623bd528563d41a697df33d0f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 15/17] fix: reject a sign in the device identifier

---
 src/parse/transport_layer/header.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index 8ed9dd2..8e0f5ca 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -300,6 +300,8 @@ impl LongHeader {
 			parse_bcd(4)
 				.try_map(u32::try_from)
 				.with_taken()
+				// A sign in front of zero survives the conversion to u32
+				.verify(|(_, raw): &(u32, &[u8])| raw.iter().all(|byte| *byte <= 0x99))
 				.context(StrContext::Label("device identifier")),
 			binary::le_u16
 				.verify_map(|raw| {
-- 
2.43.0


From eeafabcfe2dbab46fbe2b8869e94317bd81f2e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 16/17] fix: don't accept a sign in hex dumps

---
 src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a5b14f4..d1eef15 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -10,9 +10,14 @@ pub mod utils {
 
 			data.trim()
 				.split(' ')
-				.map(|substr| u8::from_str_radix(substr, 16))
-				.collect::<Result<Vec<_>, _>>()
-				.map_err(|e| e.into())
+				.map(|substr| {
+					// from_str_radix would also accept a sign
+					if substr.starts_with('+') {
+						return Err(format!("invalid byte {substr:?}").into());
+					}
+					u8::from_str_radix(substr, 16).map_err(|e| e.into())
+				})
+				.collect()
 		} else {
 			std::fs::read(filename).map_err(|e| e.into())
 		}
-- 
2.43.0


From c251bb625badaf7ed91d26997e1d01dfeee707b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 17/17] fix: an invalid week of a type I date/time is labelled
 "dst offset"

---
 src/parse/types/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/types/date.rs b/src/parse/types/date.rs
index aa3eae0..30b6458 100644
--- a/src/parse/types/date.rs
+++ b/src/parse/types/date.rs
@@ -307,7 +307,7 @@ impl TypeIDateTime {
 				.context(StrContext::Label("dst offset")),
 			bits::take(6_usize)
 				.verify(|v| matches!(v, 0..=53))
-				.context(StrContext::Label("dst offset")),
+				.context(StrContext::Label("week")),
 		))
 		.map(
 			|(
-- 
2.43.0

