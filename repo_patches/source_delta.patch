From ab38693015e026a40188642528bb334f2c842bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 001/156] fix: correct calendar dates before the epoch and of
 large timestamps

Timestamps before the epoch could be rendered with a day of month of 0 or with
the wrong month, and timestamps as of the year 10000 caused an out of bounds
access of the lookup tables or an overflow of the year.
---
 keramics-datetime/src/filetime.rs |  2 +-
 keramics-datetime/src/posix.rs    |  4 +-
 keramics-datetime/src/util.rs     | 65 ++++++++++---------------------
 3 files changed, 23 insertions(+), 48 deletions(-)

diff --git a/keramics-datetime/src/filetime.rs b/keramics-datetime/src/filetime.rs
index 59bf610..df389b6 100644
--- a/keramics-datetime/src/filetime.rs
+++ b/keramics-datetime/src/filetime.rs
@@ -57,7 +57,7 @@ impl Filetime {
         let number_of_seconds: u64 = self.timestamp / 10000000;
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) =
             get_time_values(number_of_seconds as i64);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &FILETIME_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &FILETIME_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:07}",
             year, month, day_of_month, hours, minutes, seconds, fraction
diff --git a/keramics-datetime/src/posix.rs b/keramics-datetime/src/posix.rs
index a32f7cc..3d1e8c0 100644
--- a/keramics-datetime/src/posix.rs
+++ b/keramics-datetime/src/posix.rs
@@ -60,7 +60,7 @@ impl PosixTime32 {
     pub fn to_iso8601_string(&self) -> String {
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) =
             get_time_values(self.timestamp as i64);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &POSIX_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &POSIX_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
             year, month, day_of_month, hours, minutes, seconds
@@ -103,7 +103,7 @@ impl PosixTime64Ns {
     /// Retrieves an ISO 8601 string representation of the timestamp.
     pub fn to_iso8601_string(&self) -> String {
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) = get_time_values(self.timestamp);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &POSIX_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &POSIX_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09}",
             year, month, day_of_month, hours, minutes, seconds, self.fraction
diff --git a/keramics-datetime/src/util.rs b/keramics-datetime/src/util.rs
index 7aeb6a5..f9748c6 100644
--- a/keramics-datetime/src/util.rs
+++ b/keramics-datetime/src/util.rs
@@ -13,6 +13,9 @@
 
 use super::epoch::Epoch;
 
+/// Number of days in a 400 year cycle of the Gregorian calendar.
+const DAYS_IN_400_YEARS: i64 = 146097;
+
 /// Determines if the year is a leap-year.
 #[inline(always)]
 fn is_leap_year(year: i16) -> bool {
@@ -101,33 +104,23 @@ fn get_days_in_century(year: i16) -> i32 {
 }
 
 /// Retrieves date values.
-pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8) {
-    let before_epoch: bool = number_of_days < 0;
+pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i64, u8, u8) {
+    // The calendar repeats every 400 years, hence only the number of days within a cycle needs to
+    // be determined. This also ensures the number of days is not negative.
+    let number_of_cycles: i64 = number_of_days.div_euclid(DAYS_IN_400_YEARS);
+    number_of_days = number_of_days.rem_euclid(DAYS_IN_400_YEARS);
 
     let mut year: i16 = epoch.year;
     let mut month: u8 = epoch.month;
     number_of_days += epoch.day_of_month as i64;
 
-    if before_epoch {
-        month -= 1;
-
-        if month <= 0 {
-            month = 12;
-            year -= 1;
-        }
-        number_of_days *= -1;
-    }
     // Align with the start of the year.
     while month > 1 {
         let days_in_month: i64 = get_days_in_month(year, month) as i64;
         if number_of_days < days_in_month {
             break;
         }
-        if before_epoch {
-            month -= 1;
-        } else {
-            month += 1;
-        }
+        month += 1;
         if month > 12 {
             month = 1;
             year += 1;
@@ -141,46 +134,27 @@ pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8)
         if number_of_days < days_in_year {
             break;
         }
-        if before_epoch {
-            year -= 1;
-        } else {
-            year += 1;
-        }
+        year += 1;
         number_of_days -= days_in_year;
     }
     let mut days_in_century: i64 = get_days_in_century(year) as i64;
     while number_of_days > days_in_century {
-        if before_epoch {
-            year -= 100;
-        } else {
-            year += 100;
-        }
+        year += 100;
         number_of_days -= days_in_century;
 
         days_in_century = get_days_in_century(year) as i64;
     }
     let mut days_in_year: i64 = get_days_in_year(year) as i64;
     while number_of_days > days_in_year {
-        if before_epoch {
-            year -= 1;
-        } else {
-            year += 1;
-        }
+        year += 1;
         number_of_days -= days_in_year;
 
         days_in_year = get_days_in_year(year) as i64;
     }
     let mut days_in_month: i64 = get_days_in_month(year, month) as i64;
     while number_of_days > days_in_month {
-        if before_epoch {
-            month -= 1;
-        } else {
-            month += 1;
-        }
-        if month <= 0 {
-            month = 12;
-            year -= 1;
-        } else if month > 12 {
+        month += 1;
+        if month > 12 {
             month = 1;
             year += 1;
         }
@@ -188,15 +162,16 @@ pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8)
 
         days_in_month = get_days_in_month(year, month) as i64;
     }
-    if before_epoch {
-        let days_in_month: i64 = get_days_in_month(year, month) as i64;
-        number_of_days = days_in_month - number_of_days;
-    } else if number_of_days == 0 {
+    if number_of_days == 0 {
         number_of_days = 31;
         month = 12;
         year -= 1;
     }
-    (year, month, number_of_days as u8)
+    (
+        year as i64 + (number_of_cycles * 400),
+        month,
+        number_of_days as u8,
+    )
 }
 
 /// Retrieves time values.
-- 
2.43.0


From c0b0d75978669ff2a5e114b530dddf4f9a1b65e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 002/156] fix: pad the fraction of a 64-bit POSIX timestamp in
 its display form

A fraction of 5 nanoseconds was displayed as .5
---
 keramics-datetime/src/posix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-datetime/src/posix.rs b/keramics-datetime/src/posix.rs
index 3d1e8c0..0e5b94a 100644
--- a/keramics-datetime/src/posix.rs
+++ b/keramics-datetime/src/posix.rs
@@ -116,7 +116,7 @@ impl fmt::Display for PosixTime64Ns {
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
         write!(
             formatter,
-            "{} ({}.{})",
+            "{} ({}.{:09})",
             self.to_iso8601_string(),
             self.timestamp,
             self.fraction
-- 
2.43.0


From 9bdad2a140f2f38a30689e64f7c8f5befcc50a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 003/156] fix: zero fill a read across the end of the data of a
 fake data stream

A read that crossed the end of the data, of a stream with a size that is larger
than the data, repeated the last part of the data instead.
---
 keramics-core/src/fake_data_stream.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/keramics-core/src/fake_data_stream.rs b/keramics-core/src/fake_data_stream.rs
index 3d11ec6..df5358c 100644
--- a/keramics-core/src/fake_data_stream.rs
+++ b/keramics-core/src/fake_data_stream.rs
@@ -88,9 +88,8 @@ impl DataStream for FakeDataStream {
                 read_remainder_size
             };
             buf_offset += read_count;
+            self.current_offset += read_count as u64;
         }
-        self.current_offset += buf_offset as u64;
-
         Ok(buf_offset)
     }
 
-- 
2.43.0


From 38a299e1ef68904633b65967bc021f94633ca030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 004/156] fix: end the last line of a hexdump that consists of
 a single byte

The characters and the end of line were missing.
---
 keramics-core/src/formatters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-core/src/formatters.rs b/keramics-core/src/formatters.rs
index 44ca025..89d8dfb 100644
--- a/keramics-core/src/formatters.rs
+++ b/keramics-core/src/formatters.rs
@@ -115,7 +115,7 @@ pub fn format_as_hexdump(data: &[u8], group: bool) -> String {
         }
         data_offset += 1;
     }
-    if data_size > 0 && character_index > 0 {
+    if data_size > groups_data_size {
         character_index += 1;
 
         for index in character_index..16 {
-- 
2.43.0


From 86e7ad1ccb86d31d58d7a89a6724fc15039cb00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 005/156] fix: format every value of an array once

Values were repeated if the number of values is larger than and not a multitude
of 16, and an empty array caused an out of bounds access.
---
 keramics-core/src/formatters.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-core/src/formatters.rs b/keramics-core/src/formatters.rs
index 89d8dfb..e614a8b 100644
--- a/keramics-core/src/formatters.rs
+++ b/keramics-core/src/formatters.rs
@@ -15,6 +15,9 @@
 pub fn debug_format_array(array: &Vec<String>) -> String {
     // TODO: pass string for indentation?
     let number_of_values: usize = array.len();
+    if number_of_values == 0 {
+        return "[]".to_string();
+    }
     let string_value: &String = &array[0];
     let mut use_short_hand: bool = true;
 
@@ -29,7 +32,7 @@ pub fn debug_format_array(array: &Vec<String>) -> String {
     }
     if number_of_values > 16 {
         let mut string_parts: Vec<String> = Vec::new();
-        let last_value_index: usize = number_of_values - 16;
+        let last_value_index: usize = (number_of_values - 1) / 16 * 16;
         for value_index in (0..last_value_index).step_by(16) {
             string_parts.push(array[value_index..value_index + 16].join(", "));
         }
-- 
2.43.0


From 49808c880e3556aee4fd12f9c1a89459192fa8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 006/156] fix: reject UUID strings with characters other than
 hexadecimal digits

---
 keramics-types/src/uuid.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/keramics-types/src/uuid.rs b/keramics-types/src/uuid.rs
index 30601bc..54e9d56 100644
--- a/keramics-types/src/uuid.rs
+++ b/keramics-types/src/uuid.rs
@@ -83,12 +83,14 @@ impl Uuid {
         if string_length != 36 {
             return Err(ParseError::new(format!("Unsupported string length")));
         }
-        if &string[8..9] != "-"
-            || &string[13..14] != "-"
-            || &string[18..19] != "-"
-            || &string[23..24] != "-"
-        {
-            return Err(ParseError::new(format!("Unsupported string")));
+        for (byte_index, byte_value) in string.bytes().enumerate() {
+            let is_valid: bool = match byte_index {
+                8 | 13 | 18 | 23 => byte_value == b'-',
+                _ => byte_value.is_ascii_hexdigit(),
+            };
+            if !is_valid {
+                return Err(ParseError::new(format!("Unsupported string")));
+            }
         }
         self.part1 = match u32::from_str_radix(&string[0..8], 16) {
             Ok(value) => value,
-- 
2.43.0


From 503e746e324716d57180cb494bf299c3b56bc38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 007/156] fix: convert a UTF-16 string with an unpaired
 surrogate without a panic

---
 keramics-types/src/utf16_string.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/keramics-types/src/utf16_string.rs b/keramics-types/src/utf16_string.rs
index 306b23b..bd00b61 100644
--- a/keramics-types/src/utf16_string.rs
+++ b/keramics-types/src/utf16_string.rs
@@ -60,7 +60,13 @@ impl Utf16String {
 
     /// Converts the UTF-16 string to a `String`.
     pub fn to_string(&self) -> String {
-        String::from_utf16(&self.elements).unwrap()
+        char::decode_utf16(self.elements.iter().copied())
+            .map(|result| match result {
+                Ok(unicode_character) => unicode_character.to_string(),
+                Err(error) => format!("\\{{{:04x}}}", error.unpaired_surrogate()),
+            })
+            .collect::<Vec<String>>()
+            .join("")
     }
 }
 
-- 
2.43.0


From f039983fe82d1563782e85d254aec54c4046b716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 008/156] fix: reject overlong UTF-8 and UTF-8 code points
 larger than U+10ffff

---
 keramics-encodings/src/utf8.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-encodings/src/utf8.rs b/keramics-encodings/src/utf8.rs
index eb715ab..6f4f6d2 100644
--- a/keramics-encodings/src/utf8.rs
+++ b/keramics-encodings/src/utf8.rs
@@ -51,7 +51,7 @@ impl<'a> Iterator for DecoderUtf8<'a> {
             }
             None => return None,
         };
-        if (byte_value1 >= 0x80 && byte_value1 < 0xc0) || byte_value1 > 0xf4 {
+        if (byte_value1 >= 0x80 && byte_value1 < 0xc2) || byte_value1 > 0xf4 {
             return Some(Err(keramics_core::error_trace_new!(format!(
                 "Unable to decode UTF-8: 0x{:02x} as Unicode",
                 byte_value1
@@ -75,6 +75,7 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                 0xe0 => byte_value < 0xa0 || byte_value > 0xbf,
                 0xed => byte_value < 0x80 || byte_value > 0x9f,
                 0xf0 => byte_value < 0x90 || byte_value > 0xbf,
+                0xf4 => byte_value < 0x80 || byte_value > 0x8f,
                 _ => byte_value < 0x80 || byte_value > 0xbf,
             };
             if is_valid {
-- 
2.43.0


From 5ad479ba0b444c757b7cadbad74e7f92619dce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 009/156] fix: advance character iterators that stopped at an
 error

---
 keramics-encodings/src/ascii.rs     |  4 ++--
 keramics-encodings/src/iso8859_1.rs |  4 ++--
 keramics-encodings/src/utf8.rs      | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/keramics-encodings/src/ascii.rs b/keramics-encodings/src/ascii.rs
index ebfbf97..515f167 100644
--- a/keramics-encodings/src/ascii.rs
+++ b/keramics-encodings/src/ascii.rs
@@ -78,9 +78,9 @@ impl<'a> Iterator for EncoderAscii<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.code_points.get(self.code_point_index) {
             Some(code_point) => {
-                if code_point < &0x0080 {
-                    self.code_point_index += 1;
+                self.code_point_index += 1;
 
+                if code_point < &0x0080 {
                     Some(Ok(vec![*code_point as u8]))
                 } else {
                     Some(Err(keramics_core::error_trace_new!(format!(
diff --git a/keramics-encodings/src/iso8859_1.rs b/keramics-encodings/src/iso8859_1.rs
index 7ce7497..c9cf61a 100644
--- a/keramics-encodings/src/iso8859_1.rs
+++ b/keramics-encodings/src/iso8859_1.rs
@@ -78,9 +78,9 @@ impl<'a> Iterator for EncoderIso8859_1<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.code_points.get(self.code_point_index) {
             Some(code_point) => {
-                if code_point < &0x0100 {
-                    self.code_point_index += 1;
+                self.code_point_index += 1;
 
+                if code_point < &0x0100 {
                     Some(Ok(vec![*code_point as u8]))
                 } else {
                     Some(Err(keramics_core::error_trace_new!(format!(
diff --git a/keramics-encodings/src/utf8.rs b/keramics-encodings/src/utf8.rs
index 6f4f6d2..cd67871 100644
--- a/keramics-encodings/src/utf8.rs
+++ b/keramics-encodings/src/utf8.rs
@@ -52,6 +52,8 @@ impl<'a> Iterator for DecoderUtf8<'a> {
             None => return None,
         };
         if (byte_value1 >= 0x80 && byte_value1 < 0xc2) || byte_value1 > 0xf4 {
+            self.byte_index = byte_index;
+
             return Some(Err(keramics_core::error_trace_new!(format!(
                 "Unable to decode UTF-8: 0x{:02x} as Unicode",
                 byte_value1
@@ -65,6 +67,8 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                     *byte_value
                 }
                 None => {
+                    self.byte_index = byte_index;
+
                     return Some(Err(keramics_core::error_trace_new!(format!(
                         "Unable to decode UTF-8: 0x{:02x} as Unicode",
                         byte_value1
@@ -79,6 +83,8 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                 _ => byte_value < 0x80 || byte_value > 0xbf,
             };
             if is_valid {
+                self.byte_index = byte_index - 1;
+
                 return Some(Err(keramics_core::error_trace_new!(format!(
                     "Unable to decode UTF-8: 0x{:02x}, 0x{:02x} as Unicode",
                     byte_value1, byte_value
@@ -96,6 +102,8 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                     *byte_value
                 }
                 None => {
+                    self.byte_index = byte_index;
+
                     return Some(Err(keramics_core::error_trace_new!(format!(
                         "Unable to decode UTF-8: 0x{:02x}, 0x{:02x} as Unicode",
                         byte_value1, byte_value2
@@ -108,6 +116,8 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                 _ => byte_value < 0x80 || byte_value > 0xbf,
             };
             if is_valid {
+                self.byte_index = byte_index - 1;
+
                 return Some(Err(keramics_core::error_trace_new!(format!(
                     "Unable to decode UTF-8: 0x{:02x}, 0x{:02x}, 0x{:02x} as Unicode",
                     byte_value1, byte_value2, byte_value
@@ -125,6 +135,8 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                     *byte_value
                 }
                 None => {
+                    self.byte_index = byte_index;
+
                     return Some(Err(keramics_core::error_trace_new!(format!(
                         "Unable to decode UTF-8: 0x{:02x}, 0x{:02x}, 0x{:02x} as Unicode",
                         byte_value1, byte_value2, byte_value3
@@ -132,6 +144,8 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                 }
             };
             if byte_value < 0x80 || byte_value > 0xbf {
+                self.byte_index = byte_index - 1;
+
                 return Some(Err(keramics_core::error_trace_new!(format!(
                     "Unable to decode UTF-8: 0x{:02x}, 0x{:02x}, 0x{:02x}, 0x{:02x} as Unicode",
                     byte_value1, byte_value2, byte_value3, byte_value
-- 
2.43.0


From ca4eb0ec9a9a8527f2f01d8e4e3bdd0ea681f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 010/156] fix: convert a byte string that cannot be decoded
 without a panic

---
 keramics-types/src/byte_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-types/src/byte_string.rs b/keramics-types/src/byte_string.rs
index eea9ce5..cb1e2b5 100644
--- a/keramics-types/src/byte_string.rs
+++ b/keramics-types/src/byte_string.rs
@@ -139,7 +139,7 @@ impl ByteString {
                     };
                     string_parts.push(string);
                 }
-                Err(error) => todo!(),
+                Err(_) => string_parts.push(String::from(char::REPLACEMENT_CHARACTER)),
             }
         }
         string_parts.join("")
-- 
2.43.0


From 998746a534ee0bf72dace0a2e8ec1d98c7da3b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 011/156] fix: extend a UTF-8 byte string from another encoding
 without a panic

---
 keramics-encodings/src/character_encoder.rs |  2 +
 keramics-encodings/src/lib.rs               |  2 +-
 keramics-encodings/src/utf8.rs              | 44 +++++++++++++++++++++
 3 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/keramics-encodings/src/character_encoder.rs b/keramics-encodings/src/character_encoder.rs
index a830a69..c1e6ec3 100644
--- a/keramics-encodings/src/character_encoder.rs
+++ b/keramics-encodings/src/character_encoder.rs
@@ -40,6 +40,7 @@ use super::mac_cyrillic::EncoderMacCyrillic;
 use super::mac_dingbats::EncoderMacDingbats;
 use super::mac_farsi::EncoderMacFarsi;
 use super::mac_gaelic::EncoderMacGaelic;
+use super::utf8::EncoderUtf8;
 use super::windows874::EncoderWindows874;
 use super::windows932::EncoderWindows932;
 use super::windows1250::EncoderWindows1250;
@@ -88,6 +89,7 @@ pub fn new_character_encoder<'a>(
         CharacterEncoding::MacDingbats => Box::new(EncoderMacDingbats::new(code_points)),
         CharacterEncoding::MacFarsi => Box::new(EncoderMacFarsi::new(code_points)),
         CharacterEncoding::MacGaelic => Box::new(EncoderMacGaelic::new(code_points)),
+        CharacterEncoding::Utf8 => Box::new(EncoderUtf8::new(code_points)),
         CharacterEncoding::Windows874 => Box::new(EncoderWindows874::new(code_points)),
         CharacterEncoding::Windows932 => Box::new(EncoderWindows932::new(code_points)),
         CharacterEncoding::Windows1250 => Box::new(EncoderWindows1250::new(code_points)),
diff --git a/keramics-encodings/src/lib.rs b/keramics-encodings/src/lib.rs
index ebe3194..7f6c695 100644
--- a/keramics-encodings/src/lib.rs
+++ b/keramics-encodings/src/lib.rs
@@ -84,7 +84,7 @@ pub use mac_cyrillic::{DecoderMacCyrillic, EncoderMacCyrillic};
 pub use mac_dingbats::{DecoderMacDingbats, EncoderMacDingbats};
 pub use mac_farsi::{DecoderMacFarsi, EncoderMacFarsi};
 pub use mac_gaelic::{DecoderMacGaelic, EncoderMacGaelic};
-pub use utf8::DecoderUtf8;
+pub use utf8::{DecoderUtf8, EncoderUtf8};
 pub use windows874::{DecoderWindows874, EncoderWindows874};
 pub use windows932::{DecoderWindows932, EncoderWindows932};
 pub use windows1250::{DecoderWindows1250, EncoderWindows1250};
diff --git a/keramics-encodings/src/utf8.rs b/keramics-encodings/src/utf8.rs
index cd67871..78fcd5f 100644
--- a/keramics-encodings/src/utf8.rs
+++ b/keramics-encodings/src/utf8.rs
@@ -175,6 +175,50 @@ impl<'a> Iterator for DecoderUtf8<'a> {
     }
 }
 
+/// UTF-8 encoder.
+pub struct EncoderUtf8<'a> {
+    /// Code points.
+    code_points: &'a [u32],
+
+    /// Code point index.
+    code_point_index: usize,
+}
+
+impl<'a> EncoderUtf8<'a> {
+    /// Creates a new encoder.
+    pub fn new(code_points: &'a [u32]) -> Self {
+        Self {
+            code_points: code_points,
+            code_point_index: 0,
+        }
+    }
+}
+
+impl<'a> Iterator for EncoderUtf8<'a> {
+    type Item = Result<Vec<u8>, ErrorTrace>;
+
+    /// Retrieves the next encoded byte sequence.
+    fn next(&mut self) -> Option<Self::Item> {
+        match self.code_points.get(self.code_point_index) {
+            Some(code_point) => {
+                self.code_point_index += 1;
+
+                match char::from_u32(*code_point) {
+                    Some(character) => {
+                        let mut buffer: [u8; 4] = [0; 4];
+                        Some(Ok(character.encode_utf8(&mut buffer).as_bytes().to_vec()))
+                    }
+                    None => Some(Err(keramics_core::error_trace_new!(format!(
+                        "Unable to encode code point: U+{:04x} as UTF-8",
+                        *code_point
+                    )))),
+                }
+            }
+            None => None,
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 8b8dfa5b1ebf18aa79e3af1a17ca2dc9e5a00adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 012/156] fix: do not drop signatures with the same pattern at
 another offset

---
 keramics-sigscan/src/signature.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index 061570d..980776b 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -102,7 +102,9 @@ impl Signature {
 impl PartialEq for Signature {
     /// Determines if the signature is equivalent to another signature.
     fn eq(&self, other: &Signature) -> bool {
-        self.pattern == other.pattern
+        self.pattern_type == other.pattern_type
+            && self.pattern_offset == other.pattern_offset
+            && self.pattern == other.pattern
     }
 }
 
-- 
2.43.0


From b20492d57e5153b343df9b4260bf2eece2aadc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 013/156] fix: determine the smallest pattern offset of a
 signature table

---
 keramics-sigscan/src/signature_table.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature_table.rs b/keramics-sigscan/src/signature_table.rs
index fdd2275..f546b1c 100644
--- a/keramics-sigscan/src/signature_table.rs
+++ b/keramics-sigscan/src/signature_table.rs
@@ -384,7 +384,11 @@ impl SignatureTable {
         match self.byte_value_groups.get_mut(&pattern_offset) {
             Some(byte_value_group) => byte_value_group.insert_signature(byte_value, signature),
             None => {
-                self.smallest_pattern_offset = min(pattern_offset, self.smallest_pattern_offset);
+                self.smallest_pattern_offset = if self.byte_value_groups.is_empty() {
+                    pattern_offset
+                } else {
+                    min(pattern_offset, self.smallest_pattern_offset)
+                };
 
                 let mut byte_value_group: ByteValueGroup = ByteValueGroup::new(pattern_offset);
                 byte_value_group.insert_signature(byte_value, signature);
-- 
2.43.0


From 27ee4bb6afeedb12c0cfb05be95c309b028b111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 014/156] fix: report the offset of every match of an unbound
 signature

---
 keramics-sigscan/src/scan_context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index b8ea4fb..571e6f2 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -101,7 +101,7 @@ impl<'a> ScanContext<'a> {
                     let pattern_offset: u64 = match signature.pattern_type {
                         PatternType::BoundToEnd => self.data_size - signature.pattern_offset as u64,
                         PatternType::BoundToStart => signature.pattern_offset as u64,
-                        PatternType::Unbound => self.data_offset,
+                        PatternType::Unbound => self.data_offset + buffer_offset as u64,
                     };
                     self.results.insert(pattern_offset, Arc::clone(&signature));
 
@@ -134,6 +134,7 @@ impl<'a> ScanContext<'a> {
                 break;
             }
             buffer_offset += skip_value;
+            scan_tree_node = &scan_tree.root_node;
         }
     }
 
-- 
2.43.0


From a3a464110ed6d7cf0b0c4600739f286e668251b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 015/156] fix: scan data smaller than a footer signature and
 single byte buffers

---
 keramics-sigscan/src/scan_context.rs | 11 +++++------
 keramics-sigscan/src/signature.rs    |  5 ++++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index 571e6f2..fb4811d 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -108,6 +108,9 @@ impl<'a> ScanContext<'a> {
                     skip_value = signature.pattern_size;
                 }
                 _ => {
+                    if scan_tree.pattern_type != PatternType::Unbound {
+                        break;
+                    }
                     let smallest_pattern_size: usize =
                         min(buffer_size, scan_tree.skip_table.smallest_pattern_size);
                     let mut skip_value_offset: usize =
@@ -117,16 +120,12 @@ impl<'a> ScanContext<'a> {
                         let byte_value: u8 = buffer[skip_value_offset];
                         skip_value = scan_tree.skip_table.get_skip_value(&byte_value);
                         if skip_value == 0 {
-                            skip_value = match scan_tree.pattern_type {
-                                PatternType::Unbound => scan_tree.skip_table.smallest_skip_value,
-                                _ => scan_tree.skip_table.smallest_pattern_size,
-                            };
+                            skip_value = scan_tree.skip_table.smallest_skip_value;
                         }
-                        skip_value_offset -= 1;
-
                         if skip_value_offset <= buffer_offset || skip_value != 0 {
                             break;
                         }
+                        skip_value_offset -= 1;
                     }
                 }
             };
diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index 980776b..ebf9c48 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -64,7 +64,10 @@ impl Signature {
         buffer_size: usize,
     ) -> bool {
         let pattern_offset: u64 = match self.pattern_type {
-            PatternType::BoundToEnd => data_size - self.pattern_offset as u64,
+            PatternType::BoundToEnd => match data_size.checked_sub(self.pattern_offset as u64) {
+                Some(pattern_offset) => pattern_offset,
+                None => return false,
+            },
             PatternType::BoundToStart => self.pattern_offset as u64,
             PatternType::Unbound => data_offset,
         };
-- 
2.43.0


From 4b9b17e20c3141ebac83f8a647d56b0d81def7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 016/156] fix: reject Base64 data larger than the data buffer
 without a panic

---
 keramics-encodings/src/base64.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-encodings/src/base64.rs b/keramics-encodings/src/base64.rs
index b9601da..1a57d29 100644
--- a/keramics-encodings/src/base64.rs
+++ b/keramics-encodings/src/base64.rs
@@ -130,7 +130,14 @@ impl Base64Context {
         let mut data_offset: usize = 0;
 
         while let Some(byte_value) = base64_stream.get_value()? {
-            data[data_offset] = byte_value;
+            match data.get_mut(data_offset) {
+                Some(data_value) => *data_value = byte_value,
+                None => {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid data value too small"
+                    ));
+                }
+            }
             data_offset += 1;
         }
         self.data_size = data_offset;
-- 
2.43.0


From 00c70d8d331ff13839305107f14f3f0cda94737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 017/156] fix: reject code points that ISO-8859-2 and
 ISO-8859-4 cannot represent

---
 keramics-encodings/src/iso8859_2.rs | 6 +++---
 keramics-encodings/src/iso8859_4.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-encodings/src/iso8859_2.rs b/keramics-encodings/src/iso8859_2.rs
index 620a5f4..05762b5 100644
--- a/keramics-encodings/src/iso8859_2.rs
+++ b/keramics-encodings/src/iso8859_2.rs
@@ -288,11 +288,11 @@ impl<'a> EncoderIso8859_2<'a> {
     const BASE_0X02D8: [Option<&'static [u8]>; 8] = [
         Some(&[0xa2]),
         Some(&[0xff]),
-        Some(&[0x1a]),
+        None,
         Some(&[0xb2]),
-        Some(&[0x1a]),
+        None,
         Some(&[0xbd]),
-        Some(&[0x1a]),
+        None,
         None,
     ];
 
diff --git a/keramics-encodings/src/iso8859_4.rs b/keramics-encodings/src/iso8859_4.rs
index f722fcd..5c1ce37 100644
--- a/keramics-encodings/src/iso8859_4.rs
+++ b/keramics-encodings/src/iso8859_4.rs
@@ -303,7 +303,7 @@ impl<'a> EncoderIso8859_4<'a> {
         None,
         Some(&[0xae]),
         Some(&[0xbe]),
-        Some(&[0x1a]),
+        None,
     ];
 
     /// Creates a new encoder.
-- 
2.43.0


From e6c2e16a11fb269041b3e2fa1a14f5ba07895a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 018/156] fix: generate code for signed 8-bit layout map fields
 that compiles

---
 keramics-layout-map/src/structure.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 5e10d77..0cf7a27 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -405,7 +405,10 @@ impl StructureLayoutField {
                 }
                 _ => panic!("Unsupported byte order"),
             },
-            DataType::SignedInteger8Bit | DataType::UnsignedInteger8Bit => {
+            DataType::SignedInteger8Bit => {
+                quote!((data[#data_offset] as i8))
+            }
+            DataType::UnsignedInteger8Bit => {
                 quote!(data[#data_offset])
             }
             DataType::SignedInteger16Bit => match byte_order {
-- 
2.43.0


From 1ebc9f498908b7a328687e24a05f56d4b73de5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 019/156] fix: apply the modifier of a bitfield to its value

---
 keramics-layout-map/src/structure.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 0cf7a27..92e4d43 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -681,11 +681,17 @@ impl StructureLayout {
             };
             let field_modifier: TokenStream = bitfield.get_modifier_token_stream();
 
+            // Note that the modifier applies to the bitfield value and not to its bit mask.
+            let quote_value = if field_modifier.is_empty() {
+                quote_from_packed_value
+            } else {
+                quote!((#quote_from_packed_value) #field_modifier)
+            };
             let field_format_string: String = bitfield.get_format_string();
             let format_string: String =
                 format!("    {}: {},\n", bitfield.name, field_format_string);
             debug_read_bitfields.extend(quote! {
-                let #field_name: #field_type = #quote_from_packed_value #field_modifier;
+                let #field_name: #field_type = #quote_value;
                 string_parts.push(format!(#format_string, #field_name));
 
             });
-- 
2.43.0


From cf7333610981afbe07eb242015cfa9587b9d0b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 020/156] fix: support a structure layout without a byte order

---
 keramics-layout-map/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-layout-map/src/macros.rs b/keramics-layout-map/src/macros.rs
index 380c6e1..5756785 100644
--- a/keramics-layout-map/src/macros.rs
+++ b/keramics-layout-map/src/macros.rs
@@ -278,7 +278,7 @@ struct StructureOptions {
 impl StructureOptions {
     /// Determines if the options are empty.
     pub fn is_empty(&self) -> bool {
-        return self.byte_order.is_empty() && (self.fields.len() == 0 || self.members.len() == 0);
+        return self.byte_order.is_empty() && self.fields.is_empty() && self.members.is_empty();
     }
 
     /// Parses the byte order.
-- 
2.43.0


From 9313507d3541c98a69a9eb7122238d5d23572294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 021/156] fix: bzip2: support blocks of compression levels 2 -
 9

---
 keramics-compression/src/bzip2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index db14796..cbb1359 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -29,8 +29,8 @@ use super::traits::Bitstream;
 /// Bzip2 data header signature.
 pub(super) const BZIP2_DATA_HEADER_SIGNATURE: [u8; 2] = [0x42, 0x5a]; // BZ
 
-/// Bzip2 block size;
-pub(super) const BZIP2_BLOCK_SIZE: usize = 100000;
+/// Bzip2 (maximum) block size, which is that of compression level 9.
+pub(super) const BZIP2_BLOCK_SIZE: usize = 900000;
 
 /// Bitstream for bzip2 compressed data.
 pub(super) struct Bzip2Bitstream<'a> {
@@ -307,7 +307,7 @@ impl Bzip2Context {
         bitstream: &mut Bzip2Bitstream,
         uncompressed_data: &mut [u8],
     ) -> Result<(), ErrorTrace> {
-        let mut block_data: [u8; BZIP2_BLOCK_SIZE] = [0; BZIP2_BLOCK_SIZE];
+        let mut block_data: Vec<u8> = vec![0; BZIP2_BLOCK_SIZE];
         let mut selectors: [u8; 32769] = [0; 32769]; // ( 1 << 15 ) + 1 = 32769
         let mut symbol_stack: [u8; 256] = [0; 256];
         let mut uncompressed_data_offset: usize = 0;
@@ -697,7 +697,7 @@ impl Bzip2Context {
         let mut distributions: [usize; 256] = [0; 256];
         let mut last_byte_value: u8 = 0;
         let mut number_of_last_byte_values: u8 = 0;
-        let mut permutations: [usize; BZIP2_BLOCK_SIZE] = [0; BZIP2_BLOCK_SIZE];
+        let mut permutations: Vec<usize> = vec![0; BZIP2_BLOCK_SIZE];
 
         for block_data_offset in 0..block_data_size {
             let byte_value: u8 = block_data[block_data_offset];
-- 
2.43.0


From ed73e0fde7e63b99cc90ec80329caf629cbf2534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 022/156] fix: bzip2: compare the checksum of every block and
 that of the stream

---
 keramics-compression/src/bzip2.rs | 32 +++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index cbb1359..9ef2057 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -313,11 +313,19 @@ impl Bzip2Context {
         let mut uncompressed_data_offset: usize = 0;
         let uncompressed_data_size: usize = uncompressed_data.len();
 
-        let mut block_header: Bzip2BlockHeader = Bzip2BlockHeader::new();
+        let mut stream_checksum: u32 = 0;
+
         while bitstream.data_offset < bitstream.data_size {
+            let mut block_header: Bzip2BlockHeader = Bzip2BlockHeader::new();
             block_header.read_from_bitstream(bitstream)?;
 
             if block_header.signature == 0x177245385090 {
+                if block_header.checksum != stream_checksum {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 stream checksums",
+                        block_header.checksum, stream_checksum
+                    )));
+                }
                 break;
             }
             if (block_header.origin_pointer as usize) >= BZIP2_BLOCK_SIZE {
@@ -367,6 +375,8 @@ impl Bzip2Context {
                 number_of_symbols,
                 &mut block_data,
             )?;
+            let block_start_offset: usize = uncompressed_data_offset;
+
             self.reverse_burrows_wheeler_transform(
                 &block_data,
                 block_data_size,
@@ -375,16 +385,18 @@ impl Bzip2Context {
                 &mut uncompressed_data_offset,
                 uncompressed_data_size,
             )?;
-        }
-        let mut crc32_context: Crc32Context = Crc32Context::new(0x04c11db7, 0);
-        crc32_context.update(&uncompressed_data[0..uncompressed_data_offset]);
-        let calculated_checksum: u32 = crc32_context.finalize();
 
-        if block_header.checksum != calculated_checksum {
-            return Err(keramics_core::error_trace_new!(format!(
-                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 block checksums",
-                block_header.checksum, calculated_checksum
-            )));
+            let mut crc32_context: Crc32Context = Crc32Context::new(0x04c11db7, 0);
+            crc32_context.update(&uncompressed_data[block_start_offset..uncompressed_data_offset]);
+            let calculated_checksum: u32 = crc32_context.finalize();
+
+            if block_header.checksum != calculated_checksum {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 block checksums",
+                    block_header.checksum, calculated_checksum
+                )));
+            }
+            stream_checksum = stream_checksum.rotate_left(1) ^ calculated_checksum;
         }
         self.uncompressed_data_size = uncompressed_data_offset;
 
-- 
2.43.0


From 77c5697abe8b93ab0faa23573df8c69b6d20778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 023/156] fix: bzip2: support Huffman codes of 20 bits and
 reject invalid code sizes

---
 keramics-compression/src/bzip2.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index 9ef2057..fe9addb 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -538,7 +538,13 @@ impl Bzip2Context {
         let mut largest_code_size: u32 = code_size;
 
         for symbol_index in 0..number_of_symbols {
-            while code_size < 20 {
+            loop {
+                if code_size < 1 || code_size > 20 {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid code size: {} value out of bounds",
+                        code_size
+                    )));
+                }
                 let value_32bit: u32 = bitstream.get_value(1);
                 if value_32bit == 0 {
                     break;
@@ -550,23 +556,11 @@ impl Bzip2Context {
                     code_size -= 1;
                 }
             }
-            if code_size >= 20 {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Invalid code size: {} value out of bounds",
-                    code_size
-                )));
-            }
             code_size_array[symbol_index] = code_size as u8;
 
             largest_code_size = max(code_size, largest_code_size);
         }
-        if largest_code_size > 32 {
-            return Err(keramics_core::error_trace_new!(format!(
-                "Invalid largest code size: {} value out of bounds",
-                largest_code_size
-            )));
-        }
-        let mut check_value: u32 = 1 << largest_code_size;
+        let mut check_value: i64 = 1 << largest_code_size;
 
         for symbol_index in 0..number_of_symbols {
             code_size = code_size_array[symbol_index] as u32;
-- 
2.43.0


From 754c47e6357cf8a9d2e853e6ea96b954a2ebb683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 024/156] fix: bzip2: reject block values that are out of
 bounds

---
 keramics-compression/src/bzip2.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index fe9addb..b7c4e07 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -335,9 +335,23 @@ impl Bzip2Context {
                 )));
             }
             let number_of_symbols: usize = self.read_symbol_stack(bitstream, &mut symbol_stack)?;
+
+            if number_of_symbols < 3 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid number of symbols: {} value out of bounds",
+                    number_of_symbols
+                )));
+            }
             let number_of_trees: u32 = bitstream.get_value(3);
             let number_of_selectors: u32 = bitstream.get_value(15);
 
+            if number_of_selectors < 1 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid number of selectors: {} value out of bounds",
+                    number_of_selectors
+                )));
+            }
+
             if self.mediator.debug_output {
                 self.mediator.debug_print(format!("Bzip2Bitstream {{\n",));
                 self.mediator
@@ -469,6 +483,12 @@ impl Bzip2Context {
                 break;
             }
             if symbol == 0 || symbol == 1 {
+                // A larger run-length exceeds the block size.
+                if number_of_run_length_symbols >= 20 {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid number of run-length symbols value out of bounds"
+                    ));
+                }
                 run_length_value |= (symbol as u64) << (number_of_run_length_symbols as u64);
                 number_of_run_length_symbols += 1;
 
@@ -511,7 +531,7 @@ impl Bzip2Context {
             if symbol_index % 50 == 0 {
                 let selector_index: usize = symbol_index / 50;
 
-                if selector_index > number_of_selectors {
+                if selector_index >= number_of_selectors {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Invalid selector index: {} value out of bounds",
                         selector_index
@@ -720,6 +740,12 @@ impl Bzip2Context {
             permutations[distribution_value] = block_data_offset;
             distributions[byte_value as usize] += 1;
         }
+        if origin_pointer as usize >= block_data_size {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid origin pointer: 0x{:06x} value out of bounds",
+                origin_pointer
+            )));
+        }
         let mut permutation_value: usize = permutations[origin_pointer as usize];
 
         for _ in 0..block_data_size {
-- 
2.43.0


From 95d57f9a7fcd19b2c78ef50ee9bc0c3e376d7426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 025/156] fix: deflate: support blocks without distance codes

---
 keramics-compression/src/deflate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/deflate.rs b/keramics-compression/src/deflate.rs
index dabcfbe..9b699b5 100644
--- a/keramics-compression/src/deflate.rs
+++ b/keramics-compression/src/deflate.rs
@@ -400,7 +400,13 @@ impl DeflateContext {
             ));
         }
         literals_huffman_tree.build(&code_sizes[0..number_of_literal_codes])?;
-        distances_huffman_tree.build(&code_sizes[number_of_literal_codes..number_of_codes])?;
+
+        let distance_code_sizes: &[u8] = &code_sizes[number_of_literal_codes..number_of_codes];
+
+        // Note that there are no distance codes if the block only contains literals.
+        if distance_code_sizes.iter().any(|code_size| *code_size != 0) {
+            distances_huffman_tree.build(distance_code_sizes)?;
+        }
 
         Ok(())
     }
-- 
2.43.0


From d622f750c68d299cbebd95566d8d023442288623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 026/156] fix: zlib: compare the checksum at the end of the
 data with that of the uncompressed data

---
 keramics-compression/src/zlib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/zlib.rs b/keramics-compression/src/zlib.rs
index 5c250cf..1b846b2 100644
--- a/keramics-compression/src/zlib.rs
+++ b/keramics-compression/src/zlib.rs
@@ -160,11 +160,12 @@ impl ZlibContext {
 
         bitstream.unread_data();
 
-        if 4 < bitstream.data_size - bitstream.data_offset {
+        if 4 <= bitstream.data_size - bitstream.data_offset {
             let stored_checksum: u32 = bytes_to_u32_be!(compressed_data, bitstream.data_offset);
 
             let mut adler32_context: Adler32Context = Adler32Context::new(1);
-            adler32_context.update(uncompressed_data);
+            adler32_context
+                .update(&uncompressed_data[0..deflate_context.uncompressed_data_size]);
             let calculated_checksum: u32 = adler32_context.finalize();
 
             if stored_checksum != calculated_checksum {
-- 
2.43.0


From 76ca8b3cc11fe21df9917701440db7cbc31a0cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 027/156] fix: lzx: support blocks without match size codes

---
 keramics-compression/src/lzx.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index 81550a2..078afe0 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -279,7 +279,14 @@ impl LzxContext {
                     self.read_code_sizes(&mut bitstream, &mut match_sizes_code_sizes, 249)?;
 
                     let mut match_sizes_huffman_tree: HuffmanTree = HuffmanTree::new(249, 16);
-                    match_sizes_huffman_tree.build(&match_sizes_code_sizes)?;
+
+                    // Note that there are no codes if the block only contains small matches.
+                    if match_sizes_code_sizes
+                        .iter()
+                        .any(|code_size| *code_size != 0)
+                    {
+                        match_sizes_huffman_tree.build(&match_sizes_code_sizes)?;
+                    }
 
                     self.decompress_huffmann_encoded_block(
                         &mut bitstream,
-- 
2.43.0


From f0f9b6157b238535b369261a36a8ed09d887cd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 028/156] fix: lzx: align the data before and after
 uncompressed blocks

---
 keramics-compression/src/lzx.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index 078afe0..e6faea6 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -301,6 +301,10 @@ impl LzxContext {
                     )?;
                 }
                 3 => {
+                    // The remaining data is aligned to 16-bit, where 16 bits are skipped if already aligned.
+                    if bitstream.number_of_bits == 0 {
+                        bitstream.skip_bits(16);
+                    }
                     if 12 > bitstream.data_size - bitstream.data_offset {
                         return Err(keramics_core::error_trace_new!(
                             "Invalid compressed data value too small"
@@ -343,6 +347,12 @@ impl LzxContext {
                         uncompressed_data_size,
                     )?;
                     uncompressed_data_offset += uncompressed_block_size;
+
+                    if uncompressed_block_size % 2 != 0
+                        && bitstream.data_offset < bitstream.data_size
+                    {
+                        bitstream.data_offset += 1;
+                    }
                 }
                 _ => {
                     return Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From 12b9e18a40025bae204329933ddd915c44d27d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 029/156] fix: lzx: do not translate call instructions in the
 last 10 bytes

---
 keramics-compression/src/lzx.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index e6faea6..0ce2436 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -375,14 +375,18 @@ impl LzxContext {
         uncompressed_data: &mut [u8],
         uncompressed_data_size: usize,
     ) -> Result<(), ErrorTrace> {
-        if uncompressed_data_size < 6 || uncompressed_data_size > (i32::MAX as usize) {
+        if uncompressed_data_size > (i32::MAX as usize) {
             return Err(keramics_core::error_trace_new!(
                 "Invalid uncompressed data size value out of bounds"
             ));
         }
+        // Note that the last 10 bytes are not translated.
+        if uncompressed_data_size <= 10 {
+            return Ok(());
+        }
         let mut data_offset: usize = 0;
 
-        while data_offset < uncompressed_data_size - 6 {
+        while data_offset < uncompressed_data_size - 10 {
             if uncompressed_data[data_offset] != 0xe8 {
                 data_offset += 1;
             } else {
-- 
2.43.0


From 0a2857945eae8923b16e391b629427405890e0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 030/156] fix: lzfse: read the frequency table of a version 1
 block after its header

---
 keramics-compression/src/lzfse.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index bf9d1da..1c7e7a6 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -922,7 +922,6 @@ impl LzfseContext {
                 .debug_print(format!("LzfseFrequencyTable {{\n"));
             self.mediator.debug_print(format!("    values: [\n"));
         }
-        let mut data_offset: usize = 42;
         for frequency_table_index in 0..360 {
             let frequency_value: u16 = bytes_to_u16_le!(compressed_data, data_offset);
             data_offset += 2;
-- 
2.43.0


From fd472bb2d26dd11b9e27785256459689cb7db527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 031/156] fix: lzfse: do not require 8 bytes after the header
 of a version 2 block

---
 keramics-compression/src/lzfse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 1c7e7a6..0c60b3b 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -980,7 +980,8 @@ impl LzfseContext {
                 ));
         }
         block_header.read_data(&compressed_data[data_offset..data_end_offset], decoder)?;
-        if block_header.header_size as usize > compressed_data_size - data_offset {
+        // Note that the header size includes the 8 bytes of the block marker and uncompressed size.
+        if block_header.header_size as usize - 8 > compressed_data_size - data_offset {
             return Err(keramics_core::error_trace_new!(
                 "Invalid compressed data value too small"
             ));
-- 
2.43.0


From 3154d1a5897cc72ef9cf2427faafc84f8fe05e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 032/156] fix: deflate: reject data that is cut off

---
 keramics-compression/src/deflate.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/keramics-compression/src/deflate.rs b/keramics-compression/src/deflate.rs
index 9b699b5..94eb1cf 100644
--- a/keramics-compression/src/deflate.rs
+++ b/keramics-compression/src/deflate.rs
@@ -74,6 +74,9 @@ pub(super) struct DeflateBitstream<'a> {
 
     /// Number of bits in the bits buffer.
     pub number_of_bits: usize,
+
+    /// Value to indicate bits were read beyond the end of the byte stream.
+    pub is_overflow: bool,
 }
 
 impl<'a> DeflateBitstream<'a> {
@@ -86,6 +89,7 @@ impl<'a> DeflateBitstream<'a> {
             data_size: data_size,
             bits: 0,
             number_of_bits: 0,
+            is_overflow: false,
         }
     }
 
@@ -131,6 +135,8 @@ impl<'a> DeflateBitstream<'a> {
             if self.data_offset < self.data_size {
                 self.bits |= (self.data[self.data_offset] as u32) << self.number_of_bits;
                 self.data_offset += 1;
+            } else {
+                self.is_overflow = true;
             }
             self.number_of_bits += 8;
         }
@@ -456,6 +462,7 @@ impl DeflateContext {
     ) -> Result<(), ErrorTrace> {
         let mut uncompressed_data_offset: usize = 0;
         let uncompressed_data_size: usize = uncompressed_data.len();
+        let mut has_last_block: bool = false;
 
         while bitstream.data_offset < bitstream.data_size {
             let mut block_header: DeflateBlockHeader = DeflateBlockHeader::new();
@@ -525,9 +532,15 @@ impl DeflateContext {
                 }
             }
             if block_header.last_block_flag != 0 {
+                has_last_block = true;
                 break;
             }
         }
+        if !has_last_block || bitstream.is_overflow {
+            return Err(keramics_core::error_trace_new!(
+                "Invalid compressed data value too small"
+            ));
+        }
         self.uncompressed_data_size = uncompressed_data_offset;
 
         Ok(())
-- 
2.43.0


From 1a6e3b3b37bd83673d205e2141aa2b2af2eb7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 033/156] fix: zlib: reject data without checksum

---
 keramics-compression/src/zlib.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/keramics-compression/src/zlib.rs b/keramics-compression/src/zlib.rs
index 1b846b2..ba80067 100644
--- a/keramics-compression/src/zlib.rs
+++ b/keramics-compression/src/zlib.rs
@@ -160,20 +160,22 @@ impl ZlibContext {
 
         bitstream.unread_data();
 
-        if 4 <= bitstream.data_size - bitstream.data_offset {
-            let stored_checksum: u32 = bytes_to_u32_be!(compressed_data, bitstream.data_offset);
-
-            let mut adler32_context: Adler32Context = Adler32Context::new(1);
-            adler32_context
-                .update(&uncompressed_data[0..deflate_context.uncompressed_data_size]);
-            let calculated_checksum: u32 = adler32_context.finalize();
-
-            if stored_checksum != calculated_checksum {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
-                    stored_checksum, calculated_checksum
-                )));
-            }
+        if 4 > bitstream.data_size - bitstream.data_offset {
+            return Err(keramics_core::error_trace_new!(
+                "Invalid compressed data value too small"
+            ));
+        }
+        let stored_checksum: u32 = bytes_to_u32_be!(compressed_data, bitstream.data_offset);
+
+        let mut adler32_context: Adler32Context = Adler32Context::new(1);
+        adler32_context.update(&uncompressed_data[0..deflate_context.uncompressed_data_size]);
+        let calculated_checksum: u32 = adler32_context.finalize();
+
+        if stored_checksum != calculated_checksum {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
+                stored_checksum, calculated_checksum
+            )));
         }
         self.uncompressed_data_size = deflate_context.uncompressed_data_size;
 
-- 
2.43.0


From 93aba89567196a993e6257380408e42060ab3e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 034/156] fix: bzip2: reject data that is cut off

---
 keramics-compression/src/bzip2.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index b7c4e07..0debd84 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -314,6 +314,7 @@ impl Bzip2Context {
         let uncompressed_data_size: usize = uncompressed_data.len();
 
         let mut stream_checksum: u32 = 0;
+        let mut has_end_of_stream: bool = false;
 
         while bitstream.data_offset < bitstream.data_size {
             let mut block_header: Bzip2BlockHeader = Bzip2BlockHeader::new();
@@ -326,6 +327,7 @@ impl Bzip2Context {
                         block_header.checksum, stream_checksum
                     )));
                 }
+                has_end_of_stream = true;
                 break;
             }
             if (block_header.origin_pointer as usize) >= BZIP2_BLOCK_SIZE {
@@ -412,6 +414,11 @@ impl Bzip2Context {
             }
             stream_checksum = stream_checksum.rotate_left(1) ^ calculated_checksum;
         }
+        if !has_end_of_stream {
+            return Err(keramics_core::error_trace_new!(
+                "Invalid compressed data value too small"
+            ));
+        }
         self.uncompressed_data_size = uncompressed_data_offset;
 
         Ok(())
-- 
2.43.0


From 6cbe30986883b9cce605a2d08159600041aac7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 035/156] fix: lzvn: reject matches without a distance

---
 keramics-compression/src/lzvn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/keramics-compression/src/lzvn.rs b/keramics-compression/src/lzvn.rs
index 9c93d77..c564ed7 100644
--- a/keramics-compression/src/lzvn.rs
+++ b/keramics-compression/src/lzvn.rs
@@ -477,6 +477,11 @@ impl LzvnContext {
                 uncompressed_data_offset = uncompressed_data_end_offset;
             }
             if match_size > 0 {
+                if distance == 0 {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid distance value out of bounds"
+                    ));
+                }
                 if distance as usize > uncompressed_data_offset {
                     return Err(keramics_core::error_trace_new!(
                         "Invalid distance value exceeds uncompressed data offset"
-- 
2.43.0


From 3d56b1f2a9884725a71ff4da653cbf3ecdeac007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 036/156] fix: lzfse: reject matches without a distance

---
 keramics-compression/src/lzfse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 0c60b3b..58e8b04 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -1264,7 +1264,10 @@ impl LzfseContext {
                     m_value
                 )));
             }
-            if active_d_value < 0 || active_d_value as usize > data_offset {
+            if active_d_value < 0
+                || active_d_value as usize > data_offset
+                || (active_d_value == 0 && m_value > 0)
+            {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid D value: {} value out of bounds",
                     active_d_value
-- 
2.43.0


From 5d80a4ca1cc065cc34ba911a4b3e5829627aaf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 037/156] fix: lzfse: reject frequencies that are out of bounds

---
 keramics-compression/src/lzfse.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 58e8b04..10795b4 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -489,6 +489,12 @@ impl LzfseContext {
             if frequency == 0 {
                 continue;
             }
+            if frequency > number_of_states as u16 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid frequency: {} value out of bounds",
+                    frequency,
+                )));
+            }
             sum_of_frequencies += frequency as i16;
 
             if sum_of_frequencies > number_of_states {
@@ -546,6 +552,12 @@ impl LzfseContext {
             if frequency == 0 {
                 continue;
             }
+            if frequency > number_of_states as u16 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid frequency: {} value out of bounds",
+                    frequency,
+                )));
+            }
             sum_of_frequencies += frequency as i16;
 
             if sum_of_frequencies > number_of_states {
@@ -1016,6 +1028,11 @@ impl LzfseContext {
                 let frequency_value_size: u8 =
                     LZFSE_FREQUENCY_NUMBER_OF_BITS_TABLE[table_index as usize];
 
+                if frequency_value_size as usize > number_of_bits {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid compressed data value too small"
+                    ));
+                }
                 let frequency_value: u16 = match frequency_value_size {
                     8 => (((value_32bit >> 4) & 0x0000000f) + 8) as u16,
                     14 => (((value_32bit >> 4) & 0x000003ff) + 24) as u16,
-- 
2.43.0


From 22483c76186d7d2a9f35351876e78547249e2d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 038/156] fix: lzfse: reject a LZVN block that is cut off

---
 keramics-compression/src/lzfse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 10795b4..ab0d899 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -827,6 +827,12 @@ impl LzfseContext {
                         &mut uncompressed_data
                             [uncompressed_data_offset..uncompressed_data_end_offset],
                     )?;
+                    if self.lzvn_context.uncompressed_data_size != uncompressed_block_size as usize
+                    {
+                        return Err(keramics_core::error_trace_new!(
+                            "Invalid uncompressed data size value out of bounds"
+                        ));
+                    }
 
                     compressed_data_offset = compressed_data_end_offset;
                     uncompressed_data_offset = uncompressed_data_end_offset;
-- 
2.43.0


From 3b122f93c2024e76c03776ce8d14792db025ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 039/156] fix: MBR logical partitions are relative to their own
 extended boot record

---
 keramics-formats/src/mbr/partition_entry.rs | 4 ++++
 keramics-formats/src/mbr/volume_system.rs   | 9 +++------
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/mbr/partition_entry.rs b/keramics-formats/src/mbr/partition_entry.rs
index 59b4a96..3355870 100644
--- a/keramics-formats/src/mbr/partition_entry.rs
+++ b/keramics-formats/src/mbr/partition_entry.rs
@@ -44,6 +44,9 @@ pub struct MbrPartitionEntry {
 
     /// The total number of sectors in the partition.
     pub number_of_sectors: u32,
+
+    /// The offset of the boot record the start LBA is relative to.
+    pub boot_record_offset: u64,
 }
 
 impl MbrPartitionEntry {
@@ -55,6 +58,7 @@ impl MbrPartitionEntry {
             partition_type: 0,
             start_address_lba: 0,
             number_of_sectors: 0,
+            boot_record_offset: 0,
         }
     }
 
diff --git a/keramics-formats/src/mbr/volume_system.rs b/keramics-formats/src/mbr/volume_system.rs
index 720d932..bc45256 100644
--- a/keramics-formats/src/mbr/volume_system.rs
+++ b/keramics-formats/src/mbr/volume_system.rs
@@ -76,14 +76,10 @@ impl MbrVolumeSystem {
                         "Unsupported bytes per sector: 0"
                     ));
                 }
-                let mut partition_offset: u64 =
-                    partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64;
+                let partition_offset: u64 = partition_entry.boot_record_offset
+                    + (partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64);
                 let partition_size: u64 =
                     partition_entry.number_of_sectors as u64 * self.bytes_per_sector as u64;
-
-                if partition_entry.index >= 4 {
-                    partition_offset += self.first_extended_boot_record_offset;
-                }
                 let mut partition: MbrPartition = MbrPartition::new(
                     partition_entry.index,
                     partition_offset,
@@ -274,6 +270,7 @@ impl MbrVolumeSystem {
                     + (partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64);
             } else if partition_entry.partition_type != 0 {
                 partition_entry.index = first_entry_index + entry_index;
+                partition_entry.boot_record_offset = offset;
                 self.partition_entries.push(partition_entry);
             }
             entry_index += 1;
-- 
2.43.0


From c934cbdc739cd340378e462f84cf00a92063b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 040/156] fix: follow extended boot record entries of type 15
 in an MBR

---
 keramics-formats/src/mbr/volume_system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/mbr/volume_system.rs b/keramics-formats/src/mbr/volume_system.rs
index bc45256..6178038 100644
--- a/keramics-formats/src/mbr/volume_system.rs
+++ b/keramics-formats/src/mbr/volume_system.rs
@@ -260,7 +260,7 @@ impl MbrVolumeSystem {
             if partition_entry.partition_type == 0 {
                 continue;
             }
-            if partition_entry.partition_type == 5 {
+            if partition_entry.partition_type == 5 || partition_entry.partition_type == 15 {
                 if extended_boot_record_offset != 0 {
                     return Err(keramics_core::error_trace_new!(
                         "More than 1 extended partition entry per boot record is not supported"
-- 
2.43.0


From fb0522cbbb97068c5f83a60d39f8c6433a931a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 041/156] fix: count empty entries of an extended boot record
 in the entry index

---
 keramics-formats/src/mbr/volume_system.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/keramics-formats/src/mbr/volume_system.rs b/keramics-formats/src/mbr/volume_system.rs
index 6178038..81c7c98 100644
--- a/keramics-formats/src/mbr/volume_system.rs
+++ b/keramics-formats/src/mbr/volume_system.rs
@@ -257,9 +257,6 @@ impl MbrVolumeSystem {
         let mut extended_boot_record_offset: u64 = 0;
 
         while let Some(mut partition_entry) = extended_boot_record.partition_entries.pop_front() {
-            if partition_entry.partition_type == 0 {
-                continue;
-            }
             if partition_entry.partition_type == 5 || partition_entry.partition_type == 15 {
                 if extended_boot_record_offset != 0 {
                     return Err(keramics_core::error_trace_new!(
-- 
2.43.0


From 14d67865a0c55e887c1d28331b4d519e43c401fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 042/156] fix: reject GPT block numbers whose offsets do not
 fit

---
 keramics-formats/src/gpt/volume_system.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/gpt/volume_system.rs b/keramics-formats/src/gpt/volume_system.rs
index 4800daf..c5c4bf9 100644
--- a/keramics-formats/src/gpt/volume_system.rs
+++ b/keramics-formats/src/gpt/volume_system.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 
 use keramics_checksums::ReversedCrc32Context;
@@ -165,8 +166,20 @@ impl GptVolumeSystem {
                 ));
             }
         }
-        let backup_partition_table_offset: u64 =
-            partition_table_header.backup_header_block_number * self.bytes_per_sector as u64;
+        // Block numbers must be smaller than this for offsets to fit in 63 bits.
+        let maximum_block_number: u64 = (i64::MAX as u64) / (self.bytes_per_sector as u64);
+
+        if partition_table_header.entries_start_block_number >= maximum_block_number {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Entries start block number: {} value out of bounds",
+                partition_table_header.entries_start_block_number,
+            )));
+        }
+        // Note that an invalid backup header block number falls back to the last block.
+        let backup_partition_table_offset: u64 = min(
+            partition_table_header.backup_header_block_number,
+            maximum_block_number,
+        ) * self.bytes_per_sector as u64;
 
         let mut backup_partition_table_header = GptPartitionTableHeader::new();
 
@@ -258,7 +271,9 @@ impl GptVolumeSystem {
                         partition_table_header.area_end_block_number,
                     )));
                 }
-                if partition_entry.end_block_number < partition_entry.start_block_number {
+                if partition_entry.end_block_number < partition_entry.start_block_number
+                    || partition_entry.end_block_number >= maximum_block_number
+                {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Partition entry: {} end block number: {} value out of bounds: {} - {}",
                         entry_index,
-- 
2.43.0


From fa43180ead8f4e3d0f151753e395d6fc6237b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 043/156] fix: insert ranges of different sizes into a block
 tree

---
 keramics-formats/src/block_tree_node.rs | 96 ++++++++++++++++---------
 1 file changed, 63 insertions(+), 33 deletions(-)

diff --git a/keramics-formats/src/block_tree_node.rs b/keramics-formats/src/block_tree_node.rs
index 9f0a6fe..69620ed 100644
--- a/keramics-formats/src/block_tree_node.rs
+++ b/keramics-formats/src/block_tree_node.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::sync::Arc;
 
 use super::errors::InsertError;
@@ -52,6 +53,16 @@ impl<T> BlockTreeNode<T> {
         }
     }
 
+    /// Determines the size of the block represented by an element of a sub node.
+    fn get_sub_node_element_size(&self, elements_per_node: u64, leaf_value_size: u64) -> u64 {
+        let mut sub_node_element_size: u64 = leaf_value_size;
+
+        while self.element_size / sub_node_element_size > elements_per_node {
+            sub_node_element_size *= elements_per_node;
+        }
+        sub_node_element_size
+    }
+
     /// Inserts a (leaf) value.
     pub fn insert_value(
         &mut self,
@@ -61,42 +72,48 @@ impl<T> BlockTreeNode<T> {
         size: u64,
         value: Arc<T>,
     ) -> Result<(), InsertError> {
+        if self.node_type == BlockTreeNodeType::Leaf
+            && self.element_size > leaf_value_size
+            && ((offset - self.offset) % self.element_size != 0 || size % self.element_size != 0)
+        {
+            self.split(elements_per_node, leaf_value_size);
+        }
         if self.node_type == BlockTreeNodeType::Branch {
             if self.sub_nodes.len() == 0 {
                 self.sub_nodes = (0..elements_per_node).map(|_| None).collect();
             }
-            let number_of_sub_nodex: u64 = size.div_ceil(self.element_size);
-            let first_sub_node_index: u64 = (offset - self.offset) / self.element_size;
-            let last_sub_node_index: u64 = first_sub_node_index + number_of_sub_nodex;
-
-            let mut sub_node_element_size: u64 = leaf_value_size;
-
-            while self.element_size / sub_node_element_size > elements_per_node {
-                sub_node_element_size *= elements_per_node;
-            }
-            let sub_node_type: BlockTreeNodeType = if sub_node_element_size <= size {
-                BlockTreeNodeType::Leaf
-            } else {
-                BlockTreeNodeType::Branch
-            };
-            let mut sub_node_offset: u64 = self.offset + (first_sub_node_index * self.element_size);
-
-            for sub_node_index in first_sub_node_index..last_sub_node_index {
-                if self.sub_nodes[sub_node_index as usize].is_none() {
-                    let sub_node: BlockTreeNode<T> =
-                        BlockTreeNode::new(&sub_node_type, sub_node_offset, sub_node_element_size);
-                    self.sub_nodes[sub_node_index as usize] = Some(sub_node);
-                }
-                let sub_node: &mut BlockTreeNode<T> =
-                    &mut self.sub_nodes[sub_node_index as usize].as_mut().unwrap();
+            let sub_node_element_size: u64 =
+                self.get_sub_node_element_size(elements_per_node, leaf_value_size);
+
+            let end_offset: u64 = offset + size;
+            let mut sub_range_offset: u64 = offset;
+
+            while sub_range_offset < end_offset {
+                let sub_node_index: u64 = (sub_range_offset - self.offset) / self.element_size;
+                let sub_node_offset: u64 = self.offset + (sub_node_index * self.element_size);
+
+                let sub_range_size: u64 = min(
+                    self.element_size - (sub_range_offset - sub_node_offset),
+                    end_offset - sub_range_offset,
+                );
+                let sub_node: &mut BlockTreeNode<T> = self.sub_nodes[sub_node_index as usize]
+                    .get_or_insert_with(|| {
+                        let sub_node_type: BlockTreeNodeType =
+                            if sub_node_element_size <= sub_range_size {
+                                BlockTreeNodeType::Leaf
+                            } else {
+                                BlockTreeNodeType::Branch
+                            };
+                        BlockTreeNode::new(&sub_node_type, sub_node_offset, sub_node_element_size)
+                    });
                 sub_node.insert_value(
                     elements_per_node,
                     leaf_value_size,
-                    offset,
-                    size,
+                    sub_range_offset,
+                    sub_range_size,
                     value.clone(),
                 )?;
-                sub_node_offset += self.element_size;
+                sub_range_offset += sub_range_size;
             }
         } else {
             if size % self.element_size != 0 {
@@ -121,11 +138,24 @@ impl<T> BlockTreeNode<T> {
         }
         Ok(())
     }
-}
 
-#[cfg(test)]
-mod tests {
-    use super::*;
-
-    // TODO: add tests
+    /// Splits a leaf node into a branch node with smaller elements.
+    fn split(&mut self, elements_per_node: u64, leaf_value_size: u64) {
+        let sub_node_element_size: u64 =
+            self.get_sub_node_element_size(elements_per_node, leaf_value_size);
+
+        for (value_index, result) in self.values.drain(..).enumerate() {
+            let sub_node: Option<BlockTreeNode<T>> = result.map(|value| {
+                let mut sub_node: BlockTreeNode<T> = BlockTreeNode::new(
+                    &BlockTreeNodeType::Leaf,
+                    self.offset + (value_index as u64 * self.element_size),
+                    sub_node_element_size,
+                );
+                sub_node.values = (0..elements_per_node).map(|_| Some(value.clone())).collect();
+                sub_node
+            });
+            self.sub_nodes.push(sub_node);
+        }
+        self.node_type = BlockTreeNodeType::Branch;
+    }
 }
-- 
2.43.0


From 994c1a78dce420eafd99b543993e541675adaef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 044/156] fix: limit the number of elements per block tree node
 and check its bounds

---
 keramics-formats/src/block_tree.rs | 38 +++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/keramics-formats/src/block_tree.rs b/keramics-formats/src/block_tree.rs
index 471af06..cbef556 100644
--- a/keramics-formats/src/block_tree.rs
+++ b/keramics-formats/src/block_tree.rs
@@ -11,11 +11,18 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::sync::Arc;
 
 use super::block_tree_node::{BlockTreeNode, BlockTreeNodeType};
 use super::errors::InsertError;
 
+/// Default number of elements per node.
+const DEFAULT_ELEMENTS_PER_NODE: u64 = 1024;
+
+/// Maximum number of elements per node.
+const MAXIMUM_ELEMENTS_PER_NODE: u64 = 65536;
+
 /// Block tree.
 pub(crate) struct BlockTree<T> {
     /// Size of the data represented by the tree.
@@ -36,7 +43,11 @@ impl<T> BlockTree<T> {
     pub fn new(data_size: u64, elements_per_node: u64, leaf_value_size: u64) -> Self {
         Self {
             data_size: data_size,
-            elements_per_node: elements_per_node,
+            elements_per_node: if elements_per_node < 2 {
+                DEFAULT_ELEMENTS_PER_NODE
+            } else {
+                min(elements_per_node, MAXIMUM_ELEMENTS_PER_NODE)
+            },
             leaf_value_size: leaf_value_size,
             root_node: None,
         }
@@ -46,10 +57,8 @@ impl<T> BlockTree<T> {
     fn create_root_node(&mut self, size: u64) {
         let mut element_size: u64 = self.leaf_value_size;
 
-        if self.elements_per_node * element_size > self.leaf_value_size {
-            while self.data_size / element_size > self.elements_per_node {
-                element_size *= self.elements_per_node;
-            }
+        while self.data_size / element_size > self.elements_per_node {
+            element_size *= self.elements_per_node;
         }
         let elements_per_node: u64 = self.data_size.div_ceil(element_size);
 
@@ -81,10 +90,10 @@ impl<T> BlockTree<T> {
         while node.node_type == BlockTreeNodeType::Branch {
             let sub_node_index: u64 = (offset - node.offset) / node.element_size;
 
-            if node.sub_nodes[sub_node_index as usize].is_none() {
-                return None;
-            }
-            node = node.sub_nodes[sub_node_index as usize].as_ref().unwrap();
+            node = match node.sub_nodes.get(sub_node_index as usize) {
+                Some(Some(sub_node)) => sub_node,
+                _ => return None,
+            };
         }
         let value_index: usize = ((offset - node.offset) / node.element_size) as usize;
 
@@ -96,14 +105,15 @@ impl<T> BlockTree<T> {
 
     /// Inserts a (leaf) value.
     pub fn insert_value(&mut self, offset: u64, size: u64, value: T) -> Result<(), InsertError> {
-        if offset + size > self.data_size {
+        if offset > self.data_size || size > self.data_size - offset {
             return Err(InsertError::new(format!(
-                "Range: {} - {} exceeds data size: {}",
-                offset,
-                offset + size,
-                self.data_size
+                "Range: {} of size: {} exceeds data size: {}",
+                offset, size, self.data_size
             )));
         }
+        if size == 0 {
+            return Ok(());
+        }
         if offset % self.leaf_value_size != 0 {
             return Err(InsertError::new(format!(
                 "Offset: {} not a multitude of leaf value size: {}",
-- 
2.43.0


From a9dee62e8d62d5072ffb15118969a9f7c5100802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 045/156] fix: limit a sparse QCOW level 2 table range to the
 media size

---
 keramics-formats/src/qcow/file.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 46bf951..f7b695f 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::{Arc, RwLock};
 
@@ -84,6 +85,9 @@ pub struct QcowFile {
     /// Block tree.
     block_tree: BlockTree<QcowBlockRange>,
 
+    /// Block tree data size.
+    block_tree_data_size: u64,
+
     /// Backing file name.
     backing_file_name: Option<ByteString>,
 
@@ -120,6 +124,7 @@ impl QcowFile {
             compression_method: QcowCompressionMethod::Zlib,
             encryption_method: QcowEncryptionMethod::None,
             block_tree: BlockTree::<QcowBlockRange>::new(0, 0, 0),
+            block_tree_data_size: 0,
             backing_file_name: None,
             backing_file: None,
             media_size: 0,
@@ -246,10 +251,10 @@ impl QcowFile {
             level1_table_number_of_references as u32,
         );
 
-        let block_tree_data_size: u64 =
+        self.block_tree_data_size =
             self.media_size.div_ceil(self.cluster_block_size) * self.cluster_block_size;
         self.block_tree = BlockTree::<QcowBlockRange>::new(
-            block_tree_data_size,
+            self.block_tree_data_size,
             self.level2_table_number_of_references,
             self.cluster_block_size,
         );
@@ -345,8 +350,10 @@ impl QcowFile {
         let level2_table_offset: u64 = level1_entry.reference & self.offset_bit_mask;
 
         if level2_table_offset == 0 {
-            let range_media_size: u64 = 1 << self.level1_index_bit_shift;
-
+            let range_media_size: u64 = min(
+                1 << self.level1_index_bit_shift,
+                self.block_tree_data_size - level1_media_offset,
+            );
             let block_range: QcowBlockRange = QcowBlockRange::new(
                 level1_media_offset,
                 0,
-- 
2.43.0


From ab9c5fe52fa25fc1dc3ac00076c9184c78ac36f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 046/156] fix: read from the QCOW backing file when there is no
 level 2 table

---
 keramics-formats/src/qcow/file.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index f7b695f..8ad6c28 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -350,6 +350,11 @@ impl QcowFile {
         let level2_table_offset: u64 = level1_entry.reference & self.offset_bit_mask;
 
         if level2_table_offset == 0 {
+            let range_type: QcowBlockRangeType = if self.backing_file_name.is_some() {
+                QcowBlockRangeType::InBackingFile
+            } else {
+                QcowBlockRangeType::Sparse
+            };
             let range_media_size: u64 = min(
                 1 << self.level1_index_bit_shift,
                 self.block_tree_data_size - level1_media_offset,
@@ -358,7 +363,7 @@ impl QcowFile {
                 level1_media_offset,
                 0,
                 range_media_size,
-                QcowBlockRangeType::Sparse,
+                range_type,
             );
             match self
                 .block_tree
-- 
2.43.0


From 425c9438ec57c03d52354a1732ebdbe4a020374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 047/156] fix: fill with zero bytes past the end of a smaller
 QCOW backing file

---
 keramics-formats/src/qcow/file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 8ad6c28..a876334 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -503,7 +503,14 @@ impl QcowFile {
                         &mut data[data_offset..data_end_offset],
                         SeekFrom::Start(media_offset)
                     );
-                    read_count
+                    if read_count == 0 {
+                        // The backing file can be smaller than the media.
+                        data[data_offset..data_end_offset].fill(0);
+
+                        range_read_size
+                    } else {
+                        read_count
+                    }
                 }
                 QcowBlockRangeType::InFile => {
                     let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
-- 
2.43.0


From 4a72a78dd31618bc36c377ad94476cfd42fbba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 048/156] fix: report a compressed QCOW cluster as unsupported
 instead of a panic

---
 keramics-formats/src/qcow/file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index a876334..80cbd21 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -489,7 +489,9 @@ impl QcowFile {
             let range_read_count: usize = match block_range.range_type {
                 QcowBlockRangeType::Compressed => {
                     // TODO: add compression support.
-                    todo!();
+                    return Err(keramics_core::error_trace_new!(
+                        "Unsupported compressed cluster block"
+                    ));
                 }
                 QcowBlockRangeType::InBackingFile => {
                     let backing_file: &Arc<RwLock<QcowFile>> = match self.backing_file.as_ref() {
-- 
2.43.0


From 0a8c9c646b42fc1a2c3a0ac9cd36530d4cfc6dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 049/156] fix: handle QCOW version 3 clusters that read as zero
 bytes

---
 keramics-formats/src/qcow/file.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 80cbd21..a59ce3b 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -401,14 +401,22 @@ impl QcowFile {
             let level2_media_offset: u64 =
                 level1_media_offset + (level2_table_index * self.cluster_block_size);
             let block_data_offset: u64 = level2_entry.reference & self.offset_bit_mask;
-            let range_type: QcowBlockRangeType = if block_data_offset == 0 {
+            let is_compressed: bool =
+                (level2_entry.reference & self.compression_flag_bit_mask) != 0;
+            let range_type: QcowBlockRangeType = if self.format_version == 3
+                && !is_compressed
+                && (level2_entry.reference & 1) != 0
+            {
+                // The cluster block reads as zero bytes.
+                QcowBlockRangeType::Sparse
+            } else if block_data_offset == 0 {
                 if self.backing_file_name.is_some() {
                     QcowBlockRangeType::InBackingFile
                 } else {
                     QcowBlockRangeType::Sparse
                 }
             } else {
-                if (level2_entry.reference & self.compression_flag_bit_mask) == 0 {
+                if !is_compressed {
                     QcowBlockRangeType::InFile
                 } else {
                     if self.encryption_method != QcowEncryptionMethod::None {
-- 
2.43.0


From 75ec4bd9327e7fb6f0a3bcb9285ec6ff39e980fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 050/156] fix: reject QCOW media sizes, offsets and cluster
 sizes that do not fit

---
 keramics-formats/src/qcow/file.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index a59ce3b..d9649b4 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -182,6 +182,24 @@ impl QcowFile {
                 _ => QcowCompressionMethod::Unknown,
             };
         }
+        if self.media_size > i64::MAX as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid media size: {} value out of bounds",
+                self.media_size
+            )));
+        }
+        if file_header.level1_table_offset > i64::MAX as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid level 1 table offset: {} value out of bounds",
+                file_header.level1_table_offset
+            )));
+        }
+        if self.number_of_cluster_block_bits > 62 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of cluster block bits: {} value out of bounds",
+                self.number_of_cluster_block_bits
+            )));
+        }
         if self.format_version == 1 {
             self.offset_bit_mask = 0x7fffffffffffffff;
             self.compression_flag_bit_mask = 1 << 63;
-- 
2.43.0


From 6966c9a7b630906c6267d2a6d94101f193b8ad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 051/156] fix: reject a QCOW backing file that refers back to
 itself

---
 keramics-formats/src/qcow/image.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/keramics-formats/src/qcow/image.rs b/keramics-formats/src/qcow/image.rs
index 33a712a..decab58 100644
--- a/keramics-formats/src/qcow/image.rs
+++ b/keramics-formats/src/qcow/image.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::collections::HashSet;
 use std::sync::{Arc, RwLock};
 
 use keramics_core::{DataStreamReference, ErrorTrace};
@@ -57,6 +58,7 @@ impl QcowImage {
         file_name: &PathComponent,
     ) -> Result<(), ErrorTrace> {
         let mut files: Vec<QcowFile> = Vec::new();
+        let mut file_names: HashSet<String> = HashSet::from([file_name.to_string()]);
 
         let path_components: [PathComponent; 1] = [file_name.clone()];
         let result: Option<DataStreamReference> =
@@ -91,6 +93,12 @@ impl QcowImage {
         while let Some(file_name) = file.get_backing_file_name() {
             let backing_file_name: String = file_name.to_string();
 
+            if !file_names.insert(backing_file_name.clone()) {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Backing file: {} refers back to itself",
+                    backing_file_name
+                )));
+            }
             let path_components: [PathComponent; 1] = [PathComponent::from(&backing_file_name)];
             let result: Option<DataStreamReference> =
                 match file_resolver.get_data_stream(&path_components) {
-- 
2.43.0


From c37e858da36245aea6c2a5039953bd8d8221d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 052/156] fix: read the VHD sector bitmap from the most
 significant bit

---
 keramics-formats/src/vhd/sector_bitmap.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/vhd/sector_bitmap.rs b/keramics-formats/src/vhd/sector_bitmap.rs
index 366ea4d..417fac5 100644
--- a/keramics-formats/src/vhd/sector_bitmap.rs
+++ b/keramics-formats/src/vhd/sector_bitmap.rs
@@ -70,9 +70,10 @@ impl VhdSectorBitmap {
         for data_offset in 0..data.len() {
             let mut byte_value: u8 = data[data_offset];
 
-            for _ in (0..8).rev() {
-                let bit_value: u8 = byte_value & 0x01;
-                byte_value >>= 1;
+            for _ in 0..8 {
+                // Note that the MSB represents the first bit.
+                let bit_value: u8 = byte_value >> 7;
+                byte_value <<= 1;
 
                 if bit_value != range_bit_value {
                     self.ranges.push(VhdSectorBitmapRange::new(
-- 
2.43.0


From 175a25b9d42b7528b6c22c5063c5b0da323c9254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:55 +0000
Subject: [PATCH 053/156] fix: determine the VHD block number from the media
 offset

---
 keramics-formats/src/vhd/file.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index 6dd0d7d..491988d 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -337,8 +337,6 @@ impl VhdFile {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let mut block_number: u64 = media_offset / (self.block_size as u64);
-
         while data_offset < read_size {
             if media_offset >= self.media_size {
                 break;
@@ -347,6 +345,8 @@ impl VhdFile {
                 self.block_tree.get_value(media_offset);
 
             if block_tree_value.is_none() {
+                let block_number: u64 = media_offset / (self.block_size as u64);
+
                 match self.read_block_allocation_entry(block_number) {
                     Ok(_) => {}
                     Err(mut error) => {
@@ -417,8 +417,6 @@ impl VhdFile {
             }
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
-
-            block_number += 1;
         }
         Ok(data_offset)
     }
-- 
2.43.0


From fa8ae0afaaf15680952343a2ab27feb2196e4ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:55 +0000
Subject: [PATCH 054/156] fix: ignore the padding of a VHD sector bitmap

---
 keramics-formats/src/vhd/file.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index 491988d..a2e5ce1 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::{Arc, RwLock};
 
@@ -291,32 +292,40 @@ impl VhdFile {
         let mut range_media_offset: u64 = block_number * (self.block_size as u64);
         let mut range_data_offset: u64 = sector_bitmap_offset + (self.sector_bitmap_size as u64);
 
+        let mut block_remainder_size: u64 = self.block_size as u64;
+
         for bitmap_range in sector_bitmap.ranges.iter() {
+            // Note that the sector bitmap is padded.
+            let range_size: u64 = min(bitmap_range.size, block_remainder_size);
+
+            if range_size == 0 {
+                break;
+            }
             let block_range: VhdBlockRange = if bitmap_range.is_set {
                 VhdBlockRange::new(
                     range_media_offset,
                     range_data_offset,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::InFile,
                 )
             } else if self.disk_type == VhdDiskType::Dynamic {
                 VhdBlockRange::new(
                     range_media_offset,
                     0,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::Sparse,
                 )
             } else {
                 VhdBlockRange::new(
                     range_media_offset,
                     0,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::InParent,
                 )
             };
             match self
                 .block_tree
-                .insert_value(range_media_offset, bitmap_range.size, block_range)
+                .insert_value(range_media_offset, range_size, block_range)
             {
                 Ok(_) => {}
                 Err(error) => {
@@ -326,8 +335,9 @@ impl VhdFile {
                     ));
                 }
             };
-            range_media_offset += bitmap_range.size;
-            range_data_offset += bitmap_range.size;
+            range_media_offset += range_size;
+            range_data_offset += range_size;
+            block_remainder_size -= range_size;
         }
         Ok(())
     }
-- 
2.43.0


From c72651e47eac76899cb886e299959716a9833afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:55 +0000
Subject: [PATCH 055/156] fix: fill with zero bytes past the end of a smaller
 VHD parent file

---
 keramics-formats/src/vhd/file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index a2e5ce1..c10f04e 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -414,7 +414,14 @@ impl VhdFile {
                         &mut data[data_offset..data_end_offset],
                         SeekFrom::Start(media_offset)
                     );
-                    read_count
+                    if read_count == 0 {
+                        // The parent file can be smaller than the media.
+                        data[data_offset..data_end_offset].fill(0);
+
+                        range_read_size
+                    } else {
+                        read_count
+                    }
                 }
                 VhdBlockRangeType::Sparse => {
                     data[data_offset..data_end_offset].fill(0);
-- 
2.43.0


From 95df25de77487bc567407dbea7dae3b598b2d521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:55 +0000
Subject: [PATCH 056/156] fix: reject a VHD parent file that refers back to
 itself

---
 keramics-formats/src/vhd/image.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/keramics-formats/src/vhd/image.rs b/keramics-formats/src/vhd/image.rs
index 43c4e6c..7b6e253 100644
--- a/keramics-formats/src/vhd/image.rs
+++ b/keramics-formats/src/vhd/image.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::collections::HashSet;
 use std::sync::{Arc, RwLock};
 
 use keramics_core::{DataStreamReference, ErrorTrace};
@@ -59,6 +60,7 @@ impl VhdImage {
         file_name: &PathComponent,
     ) -> Result<(), ErrorTrace> {
         let mut files: Vec<VhdFile> = Vec::new();
+        let mut file_names: HashSet<String> = HashSet::from([file_name.to_string()]);
 
         let path_components: [PathComponent; 1] = [file_name.clone()];
         let result: Option<DataStreamReference> =
@@ -97,6 +99,12 @@ impl VhdImage {
                     return Err(keramics_core::error_trace_new!("Missing parent file name"));
                 }
             };
+            if !file_names.insert(parent_file_name.clone()) {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Parent file: {} refers back to itself",
+                    parent_file_name
+                )));
+            }
             let path_components: [PathComponent; 1] = [PathComponent::from(&parent_file_name)];
             let result: Option<DataStreamReference> =
                 match file_resolver.get_data_stream(&path_components) {
-- 
2.43.0


From 5cf325e94c7995a893ca5eb0ebbb712d88d0e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:30 +0000
Subject: [PATCH 057/156] fix: reject VHD block sizes and block table offsets
 that do not fit

---
 keramics-formats/src/vhd/dynamic_disk_header.rs | 8 +++++++-
 keramics-formats/src/vhd/file.rs                | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/vhd/dynamic_disk_header.rs b/keramics-formats/src/vhd/dynamic_disk_header.rs
index 26a7def..fb9de45 100644
--- a/keramics-formats/src/vhd/dynamic_disk_header.rs
+++ b/keramics-formats/src/vhd/dynamic_disk_header.rs
@@ -103,8 +103,14 @@ impl VhdDynamicDiskHeader {
         self.parent_name = Ucs2String::from_be_bytes(&data[64..576]);
 
         // TODO: calculate and compare checksum.
+        if self.block_table_offset > i64::MAX as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid block table offset: 0x{:08x} value out of bounds",
+                self.block_table_offset
+            )));
+        }
 
-        if self.block_size == 0 {
+        if self.block_size == 0 || self.block_size % 512 != 0 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid block size: {} value out of bounds",
                 self.block_size
diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index c10f04e..298ee42 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -186,7 +186,7 @@ impl VhdFile {
                 self.parent_name = Some(dynamic_disk_header.parent_name);
             }
             let sectors_ber_block: u32 = dynamic_disk_header.block_size / 512;
-            self.sector_bitmap_size = (sectors_ber_block / 8).div_ceil(512) * 512;
+            self.sector_bitmap_size = sectors_ber_block.div_ceil(8).div_ceil(512) * 512;
 
             self.block_allocation_table = Some(VhdBlockAllocationTable::new(
                 dynamic_disk_header.block_table_offset,
-- 
2.43.0


From 63a946fd8c0f2edf5c971516528e022b704de684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 058/156] fix: VHDX blocks remain allocated flag stands for a
 fixed-size image

---
 keramics-formats/src/vhdx/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 022ce89..33026e6 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -314,8 +314,8 @@ impl VhdxFile {
 
                 self.block_size = bytes_to_u32_le!(data, 0);
                 self.disk_type = match file_parameters_flags & 0x00000003 {
-                    0 => VhdxDiskType::Fixed,
-                    1 => VhdxDiskType::Dynamic,
+                    0 => VhdxDiskType::Dynamic,
+                    1 => VhdxDiskType::Fixed,
                     2 => VhdxDiskType::Differential,
                     _ => VhdxDiskType::Unknown,
                 };
-- 
2.43.0


From 5883280ae711693f61f30719dc882f10ea150e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 059/156] fix: determine the VHDX block number from the media
 offset

---
 keramics-formats/src/vhdx/file.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 33026e6..9688af4 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -717,8 +717,6 @@ impl VhdxFile {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let mut block_number: u64 = media_offset / (self.block_size as u64);
-
         while data_offset < read_size {
             if media_offset >= self.media_size {
                 break;
@@ -727,6 +725,8 @@ impl VhdxFile {
                 self.block_tree.get_value(media_offset);
 
             if block_tree_value.is_none() {
+                let block_number: u64 = media_offset / (self.block_size as u64);
+
                 match self.read_block_allocation_entry(block_number) {
                     Ok(_) => {}
                     Err(mut error) => {
@@ -797,8 +797,6 @@ impl VhdxFile {
             }
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
-
-            block_number += 1;
         }
         Ok(data_offset)
     }
-- 
2.43.0


From a28bfc0d57e27fb349512a510328017e17f184a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 060/156] fix: reject a VHDX parent file that refers back to
 itself

---
 keramics-formats/src/vhdx/image.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/keramics-formats/src/vhdx/image.rs b/keramics-formats/src/vhdx/image.rs
index f0a9fd3..d7c3611 100644
--- a/keramics-formats/src/vhdx/image.rs
+++ b/keramics-formats/src/vhdx/image.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::collections::HashSet;
 use std::sync::{Arc, RwLock};
 
 use keramics_core::{DataStreamReference, ErrorTrace};
@@ -59,6 +60,7 @@ impl VhdxImage {
         file_name: &PathComponent,
     ) -> Result<(), ErrorTrace> {
         let mut files: Vec<VhdxFile> = Vec::new();
+        let mut file_names: HashSet<String> = HashSet::from([file_name.to_string()]);
 
         let path_components: [PathComponent; 1] = [file_name.clone()];
         let result: Option<DataStreamReference> =
@@ -97,6 +99,12 @@ impl VhdxImage {
                     return Err(keramics_core::error_trace_new!("Missing parent file name"));
                 }
             };
+            if !file_names.insert(parent_file_name.clone()) {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Parent file: {} refers back to itself",
+                    parent_file_name
+                )));
+            }
             let path_components: [PathComponent; 1] = [PathComponent::from(&parent_file_name)];
             let result: Option<DataStreamReference> =
                 match file_resolver.get_data_stream(&path_components) {
-- 
2.43.0


From 61dc4e75d783750f4b00bc8db8d6a1d6500685f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 061/156] fix: only read the sector bitmap of partially present
 VHDX blocks

---
 keramics-formats/src/vhdx/file.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 9688af4..3f38466 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -590,7 +590,7 @@ impl VhdxFile {
                     return Err(error);
                 }
             };
-        if self.disk_type == VhdxDiskType::Differential && entry.block_state != 6 {
+        if self.disk_type == VhdxDiskType::Differential && entry.block_state == 7 {
             match self.read_sector_bitmap(block_number, entry.block_offset) {
                 Ok(_) => {}
                 Err(mut error) => {
@@ -602,12 +602,14 @@ impl VhdxFile {
             let block_media_offset: u64 = block_number * (self.block_size as u64);
 
             let block_range: VhdxBlockRange = if entry.block_state < 6 {
-                VhdxBlockRange::new(
-                    block_media_offset,
-                    0,
-                    self.block_size as u64,
-                    VhdxBlockRangeType::Sparse,
-                )
+                // A block of a differential image that is not present is stored in the parent.
+                let range_type: VhdxBlockRangeType =
+                    if self.disk_type == VhdxDiskType::Differential && entry.block_state != 2 {
+                        VhdxBlockRangeType::InParent
+                    } else {
+                        VhdxBlockRangeType::Sparse
+                    };
+                VhdxBlockRange::new(block_media_offset, 0, self.block_size as u64, range_type)
             } else {
                 VhdxBlockRange::new(
                     block_media_offset,
@@ -662,6 +664,12 @@ impl VhdxFile {
                     return Err(error);
                 }
             };
+        if entry.block_state != 6 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Missing sector bitmap of block: {}",
+                block_number
+            )));
+        }
         let sector_bitmap_offset: u64 = entry.block_offset
             + ((block_number % self.entries_per_chunk) * self.sector_bitmap_size as u64);
 
-- 
2.43.0


From 7ebbb73a972d3130f5eeda0fcadec10f1fdc94eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 062/156] fix: fill with zero bytes past the end of a smaller
 VHDX parent file

---
 keramics-formats/src/vhdx/file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 3f38466..78f8636 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -792,7 +792,14 @@ impl VhdxFile {
                         &mut data[data_offset..data_end_offset],
                         SeekFrom::Start(media_offset)
                     );
-                    read_count
+                    if read_count == 0 {
+                        // The parent file can be smaller than the media.
+                        data[data_offset..data_end_offset].fill(0);
+
+                        range_read_size
+                    } else {
+                        read_count
+                    }
                 }
                 VhdxBlockRangeType::Sparse => {
                     data[data_offset..data_end_offset].fill(0);
-- 
2.43.0


From 2d47f6bdfbbbbc6ca87f7521fc31175c67a9e996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:25 +0000
Subject: [PATCH 063/156] fix: reject VHDX offsets and numbers of metadata
 table entries that do not fit

---
 keramics-formats/src/vhdx/file.rs                  | 12 ++++++++++++
 keramics-formats/src/vhdx/metadata_table_header.rs |  7 +++++++
 keramics-formats/src/vhdx/region_table_entry.rs    |  6 ++++++
 3 files changed, 25 insertions(+)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 78f8636..9e3b236 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -590,6 +590,12 @@ impl VhdxFile {
                     return Err(error);
                 }
             };
+        if entry.block_offset > i64::MAX as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid block offset: 0x{:08x} value out of bounds",
+                entry.block_offset
+            )));
+        }
         if self.disk_type == VhdxDiskType::Differential && entry.block_state == 7 {
             match self.read_sector_bitmap(block_number, entry.block_offset) {
                 Ok(_) => {}
@@ -664,6 +670,12 @@ impl VhdxFile {
                     return Err(error);
                 }
             };
+        if entry.block_offset > i64::MAX as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid block offset: 0x{:08x} value out of bounds",
+                entry.block_offset
+            )));
+        }
         if entry.block_state != 6 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Missing sector bitmap of block: {}",
diff --git a/keramics-formats/src/vhdx/metadata_table_header.rs b/keramics-formats/src/vhdx/metadata_table_header.rs
index 43cacb8..b02236f 100644
--- a/keramics-formats/src/vhdx/metadata_table_header.rs
+++ b/keramics-formats/src/vhdx/metadata_table_header.rs
@@ -56,6 +56,13 @@ impl VhdxMetadataTableHeader {
         }
         self.number_of_entries = bytes_to_u16_le!(data, 10);
 
+        if self.number_of_entries > 2047 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                self.number_of_entries
+            )));
+        }
+
         Ok(())
     }
 }
diff --git a/keramics-formats/src/vhdx/region_table_entry.rs b/keramics-formats/src/vhdx/region_table_entry.rs
index f92b55e..73139a1 100644
--- a/keramics-formats/src/vhdx/region_table_entry.rs
+++ b/keramics-formats/src/vhdx/region_table_entry.rs
@@ -69,6 +69,12 @@ impl VhdxRegionTableEntry {
         } else {
             true
         };
+        if self.data_offset > i64::MAX as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid data offset: 0x{:08x} value out of bounds",
+                self.data_offset
+            )));
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 5c5abe2582df388a0c05b927993928b34270eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:47 +0000
Subject: [PATCH 064/156] fix: reject VHDX parent locator strings with an odd
 size

---
 keramics-formats/src/vhdx/parent_locator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/keramics-formats/src/vhdx/parent_locator.rs b/keramics-formats/src/vhdx/parent_locator.rs
index 3507dd9..ce31fe9 100644
--- a/keramics-formats/src/vhdx/parent_locator.rs
+++ b/keramics-formats/src/vhdx/parent_locator.rs
@@ -99,6 +99,14 @@ impl VhdxParentLocator {
                     parent_locator_entry_index, parent_locator_entry.key_data_offset,
                 )));
             }
+            if parent_locator_entry.key_data_size % 2 != 0
+                || parent_locator_entry.value_data_size % 2 != 0
+            {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid parent locator entry: {} key or value data size not a multitude of 2",
+                    parent_locator_entry_index,
+                )));
+            }
             if parent_locator_entry.key_data_size as usize
                 > data_size - (parent_locator_entry.key_data_offset as usize)
             {
-- 
2.43.0


From df8098f47f860389fe52a5ed64cd9e0ff7a63c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 065/156] fix: continue in the same band after a partial read
 of a sparse disk image

---
 keramics-formats/src/sparseimage/file.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/sparseimage/file.rs b/keramics-formats/src/sparseimage/file.rs
index 5a23feb..40d7a0d 100644
--- a/keramics-formats/src/sparseimage/file.rs
+++ b/keramics-formats/src/sparseimage/file.rs
@@ -244,8 +244,14 @@ impl SparseImageFile {
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
 
-            range_relative_offset = 0;
-            range_remainder_size = self.block_size as u64;
+            // Note that fewer bytes than the remainder of the band can have been read.
+            range_relative_offset += range_read_count as u64;
+            range_remainder_size -= range_read_count as u64;
+
+            if range_remainder_size == 0 {
+                range_relative_offset = 0;
+                range_remainder_size = self.block_size as u64;
+            }
         }
         Ok(data_offset)
     }
-- 
2.43.0


From 020f976abd91b542750f1a1ffcd1a0ac90d7fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 066/156] fix: reject UDIF sizes and numbers of sectors that do
 not fit in 64 bits

---
 keramics-formats/src/udif/file.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index b37fef4..50f8026 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -108,7 +108,17 @@ impl UdifFile {
         }
         self.bytes_per_sector = 512;
 
-        let data_fork_end_offset: u64 = file_footer.data_fork_offset + file_footer.data_fork_size;
+        let data_fork_end_offset: u64 = match file_footer
+            .data_fork_offset
+            .checked_add(file_footer.data_fork_size)
+        {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(
+                    "Invalid data fork size value out of bounds"
+                ));
+            }
+        };
 
         if file_footer.plist_size == 0 {
             self.data_fork_offset = file_footer.data_fork_offset;
@@ -229,7 +239,8 @@ impl UdifFile {
                         )));
                     }
                     if block_table_entry.number_of_sectors == 0
-                        || block_table_entry.number_of_sectors > MAXIMUM_NUMBER_OF_SECTORS
+                        || block_table_entry.number_of_sectors
+                            > MAXIMUM_NUMBER_OF_SECTORS - media_sector
                     {
                         return Err(keramics_core::error_trace_new!(format!(
                             "Unsupported block table: {} entry: {} number of sectors value out of bounds",
@@ -316,6 +327,11 @@ impl UdifFile {
             self.has_block_ranges = true;
             self.media_size = media_offset;
 
+            if media_sector > (MAXIMUM_NUMBER_OF_SECTORS / 16384) * 16384 {
+                return Err(keramics_core::error_trace_new!(
+                    "Unsupported number of sectors value out of bounds"
+                ));
+            }
             let block_tree_data_size: u64 =
                 media_sector.div_ceil(16384) * 16384 * self.bytes_per_sector as u64;
 
-- 
2.43.0


From dd88e6f21cc00f5a274870ea6c3e92bd7ae945ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 067/156] fix: allow UDIF sparse block ranges outside of the
 data fork

---
 keramics-formats/src/udif/file.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index 50f8026..e4a2ba8 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -247,16 +247,22 @@ impl UdifFile {
                             table_index, entry_index,
                         )));
                     }
-                    if block_table_entry.data_offset < file_footer.data_fork_offset
-                        || block_table_entry.data_offset >= data_fork_end_offset
+                    // Note that sparse block ranges have no data.
+                    let is_sparse: bool =
+                        matches!(block_table_entry.entry_type, 0x00000000 | 0x00000002);
+
+                    if !is_sparse
+                        && (block_table_entry.data_offset < file_footer.data_fork_offset
+                            || block_table_entry.data_offset >= data_fork_end_offset)
                     {
                         return Err(keramics_core::error_trace_new!(format!(
                             "Unsupported block table: {} entry: {} data offset value out of bounds",
                             table_index, entry_index,
                         )));
                     }
-                    if block_table_entry.data_size
-                        > data_fork_end_offset - block_table_entry.data_offset
+                    if !is_sparse
+                        && block_table_entry.data_size
+                            > data_fork_end_offset - block_table_entry.data_offset
                     {
                         return Err(keramics_core::error_trace_new!(format!(
                             "Unsupported block table: {} entry: {} data size value out of bounds",
-- 
2.43.0


From 77c087aa2ac9c89ab7f920b5b37aacf4bea7baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 068/156] fix: check the data size of UDIF block ranges against
 their number of sectors

---
 keramics-formats/src/udif/file.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index e4a2ba8..dbf2df5 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -280,13 +280,21 @@ impl UdifFile {
                             0,
                             UdifBlockRangeType::Sparse,
                         ),
-                        0x00000001 => UdifBlockRange::new(
-                            media_offset,
-                            block_table_entry.data_offset,
-                            media_size,
-                            0,
-                            UdifBlockRangeType::InFile,
-                        ),
+                        0x00000001 => {
+                            if media_size > block_table_entry.data_size {
+                                return Err(keramics_core::error_trace_new!(format!(
+                                    "Unsupported block table: {} entry: {} data size value too small",
+                                    table_index, entry_index,
+                                )));
+                            }
+                            UdifBlockRange::new(
+                                media_offset,
+                                block_table_entry.data_offset,
+                                media_size,
+                                0,
+                                UdifBlockRangeType::InFile,
+                            )
+                        }
                         0x80000004..0x80000008 => {
                             if block_table_entry.number_of_sectors > 2048 {
                                 return Err(keramics_core::error_trace_new!(format!(
@@ -294,6 +302,12 @@ impl UdifFile {
                                     table_index, entry_index,
                                 )));
                             }
+                            if block_table_entry.data_size > u32::MAX as u64 {
+                                return Err(keramics_core::error_trace_new!(format!(
+                                    "Unsupported compressed block table: {} entry: {} data size value out of bounds",
+                                    table_index, entry_index,
+                                )));
+                            }
                             if compressed_entry_type == 0 {
                                 compressed_entry_type = block_table_entry.entry_type;
                             } else if block_table_entry.entry_type != compressed_entry_type {
-- 
2.43.0


From a35eb06545076fd9a45bd3444b20b4841bda56ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 069/156] fix: reject UDIF blocks with less uncompressed data
 than their sectors

---
 keramics-formats/src/udif/file.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index dbf2df5..e9d7048 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -498,12 +498,12 @@ impl UdifFile {
             ));
             self.mediator.debug_print_data(&compressed_data, true);
         }
-        match self.compression_method {
+        let data_size: usize = match self.compression_method {
             UdifCompressionMethod::Adc => {
                 let mut adc_context: AdcContext = AdcContext::new();
 
                 match adc_context.decompress(&compressed_data, data) {
-                    Ok(_) => {}
+                    Ok(_) => adc_context.uncompressed_data_size,
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(
                             error,
@@ -517,7 +517,7 @@ impl UdifFile {
                 let mut bzip2_context: Bzip2Context = Bzip2Context::new();
 
                 match bzip2_context.decompress(&compressed_data, data) {
-                    Ok(_) => {}
+                    Ok(_) => bzip2_context.uncompressed_data_size,
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(
                             error,
@@ -531,7 +531,7 @@ impl UdifFile {
                 let mut lzfse_context: LzfseContext = LzfseContext::new();
 
                 match lzfse_context.decompress(&compressed_data, data) {
-                    Ok(_) => {}
+                    Ok(_) => lzfse_context.uncompressed_data_size,
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(
                             error,
@@ -549,7 +549,7 @@ impl UdifFile {
                 let mut zlib_context: ZlibContext = ZlibContext::new();
 
                 match zlib_context.decompress(&compressed_data, data) {
-                    Ok(_) => {}
+                    Ok(_) => zlib_context.uncompressed_data_size,
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(
                             error,
@@ -565,6 +565,13 @@ impl UdifFile {
                 ));
             }
         };
+        if data_size != data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid uncompressed data size: {} expected: {}",
+                data_size,
+                data.len()
+            )));
+        }
         Ok(())
     }
 }
-- 
2.43.0


From c605a8e28cd3562268d6a43464863295a9b0b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 070/156] fix: do not mix up cached UDIF blocks that have the
 same data offset

---
 keramics-formats/src/udif/file.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index e9d7048..1a79e7e 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -414,7 +414,7 @@ impl UdifFile {
                     let range_data_offset: usize = range_relative_offset as usize;
                     let range_data_end_offset: usize = range_data_offset + range_read_size;
 
-                    if !self.block_cache.contains(&block_range.data_offset) {
+                    if !self.block_cache.contains(&block_range.media_offset) {
                         let mut data: Vec<u8> = vec![0; block_range.size as usize];
 
                         match self.read_compressed_block(block_range, &mut data) {
@@ -427,9 +427,9 @@ impl UdifFile {
                                 return Err(error);
                             }
                         }
-                        self.block_cache.insert(block_range.data_offset, data);
+                        self.block_cache.insert(block_range.media_offset, data);
                     }
-                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.data_offset)
+                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.media_offset)
                     {
                         Some(data) => data,
                         None => {
-- 
2.43.0


From 94f771542c64058a3edc3ddfa5072246ca7ae90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 071/156] fix: read missing and short band files of a sparse
 bundle as sparse

---
 keramics-formats/src/sparsebundle/image.rs | 39 ++++++++++++----------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/keramics-formats/src/sparsebundle/image.rs b/keramics-formats/src/sparsebundle/image.rs
index 107ab14..bdbe80e 100644
--- a/keramics-formats/src/sparsebundle/image.rs
+++ b/keramics-formats/src/sparsebundle/image.rs
@@ -230,15 +230,6 @@ impl SparseBundleImage {
                         return Err(error);
                     }
                 };
-            let data_stream: DataStreamReference = match result {
-                Some(data_stream) => data_stream,
-                None => {
-                    return Err(keramics_core::error_trace_new!(format!(
-                        "No such bands file: {}",
-                        band_file_name
-                    )));
-                }
-            };
             let mut range_read_size: usize = read_size - data_offset;
 
             if (range_read_size as u64) > range_remainder_size {
@@ -246,20 +237,32 @@ impl SparseBundleImage {
             }
             let data_end_offset: usize = data_offset + range_read_size;
 
-            let read_count: usize = keramics_core::data_stream_read_at_position!(
-                data_stream,
-                &mut data[data_offset..data_end_offset],
-                SeekFrom::Start(range_relative_offset)
-            );
+            let mut read_count: usize = match result {
+                Some(data_stream) => keramics_core::data_stream_read_at_position!(
+                    data_stream,
+                    &mut data[data_offset..data_end_offset],
+                    SeekFrom::Start(range_relative_offset)
+                ),
+                // Note that a band without a file is sparse.
+                None => 0,
+            };
             if read_count == 0 {
-                break;
+                // Note that a band file does not need to contain the entire band.
+                data[data_offset..data_end_offset].fill(0);
+
+                read_count = range_read_size;
             }
             data_offset += read_count;
             media_offset += read_count as u64;
 
-            block_number += 1;
-            range_relative_offset = 0;
-            range_remainder_size = self.block_size as u64;
+            range_relative_offset += read_count as u64;
+            range_remainder_size -= read_count as u64;
+
+            if range_remainder_size == 0 {
+                block_number += 1;
+                range_relative_offset = 0;
+                range_remainder_size = self.block_size as u64;
+            }
         }
         Ok(data_offset)
     }
-- 
2.43.0


From d2c72e3afca3bff0c3e9a5379df8b664fa7e6025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 072/156] fix: return an error for XML plist dates, which are
 not supported, instead of a panic

---
 keramics-formats/src/plist/xmlplist.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/plist/xmlplist.rs b/keramics-formats/src/plist/xmlplist.rs
index b8e1d44..515defd 100644
--- a/keramics-formats/src/plist/xmlplist.rs
+++ b/keramics-formats/src/plist/xmlplist.rs
@@ -514,7 +514,9 @@ impl XmlPlist {
             }
             Rule::plist_date_element => {
                 // TODO: YYYY '-' MM '-' DD 'T' HH ':' MM ':' SS 'Z'
-                todo!();
+                return Err(keramics_core::error_trace_new!(
+                    "Unsupported plist date element"
+                ));
             }
             Rule::plist_dict_element => {
                 match self.parse_plist_dict_element(token_pair.into_inner()) {
-- 
2.43.0


From c9b86489cebd4a5040143369a7cb9869d90d57b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 073/156] fix: ignore comments and processing instructions in
 XML plist elements

---
 keramics-formats/src/plist/xmlplist.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/plist/xmlplist.rs b/keramics-formats/src/plist/xmlplist.rs
index 515defd..015daf3 100644
--- a/keramics-formats/src/plist/xmlplist.rs
+++ b/keramics-formats/src/plist/xmlplist.rs
@@ -101,7 +101,7 @@ impl XmlPlist {
         while let Some(token_pair) = inner_pairs.next() {
             let rule: Rule = token_pair.as_rule();
             match rule {
-                Rule::character_data => {}
+                Rule::character_data | Rule::comment | Rule::processing_instructions => {}
                 Rule::plist_object_element => {
                     let object: PlistObject =
                         match self.parse_plist_object_element(token_pair.into_inner()) {
@@ -170,7 +170,7 @@ impl XmlPlist {
         while let Some(token_pair) = inner_pairs.next() {
             let rule: Rule = token_pair.as_rule();
             match rule {
-                Rule::character_data => {}
+                Rule::character_data | Rule::comment | Rule::processing_instructions => {}
                 Rule::plist_key_and_object_element_pair => {
                     let (key, object): (String, PlistObject) = match self
                         .parse_plist_key_and_object_element_pair(token_pair.into_inner())
@@ -241,7 +241,7 @@ impl XmlPlist {
         while let Some(token_pair) = inner_pairs.next() {
             let rule: Rule = token_pair.as_rule();
             match rule {
-                Rule::character_data => {}
+                Rule::character_data | Rule::comment | Rule::processing_instructions => {}
                 Rule::plist_object_element => {
                     object = match self.parse_plist_object_element(token_pair.into_inner()) {
                         Ok(element) => element,
-- 
2.43.0


From a54ced0f71c5ecbd0289ecc568f90700ab0d97e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 074/156] fix: do not copy a block tree value for every element
 it covers

---
 keramics-formats/src/block_tree_node.rs | 70 ++++++++++++++++---------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/keramics-formats/src/block_tree_node.rs b/keramics-formats/src/block_tree_node.rs
index 69620ed..df03973 100644
--- a/keramics-formats/src/block_tree_node.rs
+++ b/keramics-formats/src/block_tree_node.rs
@@ -53,6 +53,17 @@ impl<T> BlockTreeNode<T> {
         }
     }
 
+    /// Creates a new block tree leaf node with a single value.
+    fn new_with_value(offset: u64, element_size: u64, value: Arc<T>) -> Self {
+        BlockTreeNode {
+            node_type: BlockTreeNodeType::Leaf,
+            offset: offset,
+            element_size: element_size,
+            sub_nodes: Vec::new(),
+            values: vec![Some(value)],
+        }
+    }
+
     /// Determines the size of the block represented by an element of a sub node.
     fn get_sub_node_element_size(&self, elements_per_node: u64, leaf_value_size: u64) -> u64 {
         let mut sub_node_element_size: u64 = leaf_value_size;
@@ -76,7 +87,12 @@ impl<T> BlockTreeNode<T> {
             && self.element_size > leaf_value_size
             && ((offset - self.offset) % self.element_size != 0 || size % self.element_size != 0)
         {
-            self.split(elements_per_node, leaf_value_size);
+            let value_index: u64 = (offset - self.offset) / self.element_size;
+
+            if let Some(Some(_)) = self.values.get(value_index as usize) {
+                return Err(InsertError::new(format!("Leaf value already set")));
+            }
+            self.split();
         }
         if self.node_type == BlockTreeNodeType::Branch {
             if self.sub_nodes.len() == 0 {
@@ -96,16 +112,28 @@ impl<T> BlockTreeNode<T> {
                     self.element_size - (sub_range_offset - sub_node_offset),
                     end_offset - sub_range_offset,
                 );
-                let sub_node: &mut BlockTreeNode<T> = self.sub_nodes[sub_node_index as usize]
-                    .get_or_insert_with(|| {
-                        let sub_node_type: BlockTreeNodeType =
-                            if sub_node_element_size <= sub_range_size {
-                                BlockTreeNodeType::Leaf
-                            } else {
-                                BlockTreeNodeType::Branch
-                            };
-                        BlockTreeNode::new(&sub_node_type, sub_node_offset, sub_node_element_size)
-                    });
+                let result: &mut Option<BlockTreeNode<T>> =
+                    &mut self.sub_nodes[sub_node_index as usize];
+
+                if result.is_none() && sub_range_size == self.element_size {
+                    *result = Some(BlockTreeNode::new_with_value(
+                        sub_node_offset,
+                        self.element_size,
+                        value.clone(),
+                    ));
+                    sub_range_offset += sub_range_size;
+
+                    continue;
+                }
+                let sub_node: &mut BlockTreeNode<T> = result.get_or_insert_with(|| {
+                    let sub_node_type: BlockTreeNodeType =
+                        if sub_node_element_size <= sub_range_size {
+                            BlockTreeNodeType::Leaf
+                        } else {
+                            BlockTreeNodeType::Branch
+                        };
+                    BlockTreeNode::new(&sub_node_type, sub_node_offset, sub_node_element_size)
+                });
                 sub_node.insert_value(
                     elements_per_node,
                     leaf_value_size,
@@ -140,21 +168,13 @@ impl<T> BlockTreeNode<T> {
     }
 
     /// Splits a leaf node into a branch node with smaller elements.
-    fn split(&mut self, elements_per_node: u64, leaf_value_size: u64) {
-        let sub_node_element_size: u64 =
-            self.get_sub_node_element_size(elements_per_node, leaf_value_size);
-
+    fn split(&mut self) {
         for (value_index, result) in self.values.drain(..).enumerate() {
-            let sub_node: Option<BlockTreeNode<T>> = result.map(|value| {
-                let mut sub_node: BlockTreeNode<T> = BlockTreeNode::new(
-                    &BlockTreeNodeType::Leaf,
-                    self.offset + (value_index as u64 * self.element_size),
-                    sub_node_element_size,
-                );
-                sub_node.values = (0..elements_per_node).map(|_| Some(value.clone())).collect();
-                sub_node
-            });
-            self.sub_nodes.push(sub_node);
+            let sub_node_offset: u64 = self.offset + (value_index as u64 * self.element_size);
+
+            self.sub_nodes.push(result.map(|value| {
+                BlockTreeNode::new_with_value(sub_node_offset, self.element_size, value)
+            }));
         }
         self.node_type = BlockTreeNodeType::Branch;
     }
-- 
2.43.0


From e61b8938e0f7238dafc3b0d6e616dd6ac3635b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 075/156] fix: key the EWF chunk cache by media offset, data
 offsets are relative to their segment file

---
 keramics-formats/src/ewf/image.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 0ee6d0c..e80265e 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -254,7 +254,7 @@ impl EwfImage {
                     let range_data_offset: usize = range_relative_offset as usize;
                     let range_data_end_offset: usize = range_data_offset + range_read_size;
 
-                    if !self.block_cache.contains(&block_range.data_offset) {
+                    if !self.block_cache.contains(&block_range.media_offset) {
                         let mut compressed_data: Vec<u8> = vec![0; block_range.data_size as usize];
 
                         match segment_file.read_exact_at_position(
@@ -298,9 +298,9 @@ impl EwfImage {
                                 return Err(error);
                             }
                         }
-                        self.block_cache.insert(block_range.data_offset, block_data);
+                        self.block_cache.insert(block_range.media_offset, block_data);
                     }
-                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.data_offset)
+                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.media_offset)
                     {
                         Some(data) => data,
                         None => {
-- 
2.43.0


From 6195fcab67216ce02bcc5465871576bc858c656e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 076/156] fix: reopen EWF segment files that are no longer in
 the segment file cache

---
 keramics-formats/src/ewf/image.rs | 88 ++++++++++++++++++++++---------
 1 file changed, 62 insertions(+), 26 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index e80265e..d122a00 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -51,6 +51,9 @@ pub struct EwfImage {
     /// Segment file set identifier.
     pub set_identifier: Uuid,
 
+    /// Segment file names.
+    segment_file_names: Vec<String>,
+
     /// Segment file cache.
     segment_file_cache: LruCache<u16, EwfFile>,
 
@@ -104,6 +107,7 @@ impl EwfImage {
             mediator: Mediator::current(),
             file_resolver: FileResolverReference::new(Box::new(FakeFileResolver::new())),
             set_identifier: Uuid::new(),
+            segment_file_names: Vec::new(),
             segment_file_cache: LruCache::new(16),
             number_of_chunks: 0,
             sectors_per_chunk: 0,
@@ -200,6 +204,39 @@ impl EwfImage {
         Ok(())
     }
 
+    /// Opens a segment file.
+    fn open_segment_file(
+        file_resolver: &FileResolverReference,
+        segment_file_name: &String,
+    ) -> Result<(EwfFile, DataStreamReference), ErrorTrace> {
+        let path_components: [PathComponent; 1] = [PathComponent::from(segment_file_name)];
+
+        let result: Option<DataStreamReference> =
+            match file_resolver.get_data_stream(&path_components) {
+                Ok(result) => result,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(error, "Unable to open data stream");
+                    return Err(error);
+                }
+            };
+        let data_stream: DataStreamReference = match result {
+            Some(data_stream) => data_stream,
+            None => {
+                return Err(keramics_core::error_trace_new!("No such file"));
+            }
+        };
+        let mut segment_file: EwfFile = EwfFile::new();
+
+        match segment_file.read_data_stream(&data_stream) {
+            Ok(_) => {}
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(error, "Unable to read data stream");
+                return Err(error);
+            }
+        }
+        Ok((segment_file, data_stream))
+    }
+
     /// Reads media data based on the chunk tables.
     fn read_data_from_blocks(&mut self, data: &mut [u8]) -> Result<usize, ErrorTrace> {
         let read_size: usize = data.len();
@@ -225,10 +262,30 @@ impl EwfImage {
                 .segment_file_cache
                 .contains(&block_range.segment_number)
             {
-                let file: EwfFile = EwfFile::new();
+                let segment_file_index: usize = (block_range.segment_number as usize) - 1;
 
+                let segment_file: EwfFile = match self.segment_file_names.get(segment_file_index) {
+                    Some(file_name) => {
+                        match Self::open_segment_file(&self.file_resolver, file_name) {
+                            Ok((segment_file, _)) => segment_file,
+                            Err(mut error) => {
+                                keramics_core::error_trace_add_frame!(
+                                    error,
+                                    format!("Unable to open segment file: {}", file_name)
+                                );
+                                return Err(error);
+                            }
+                        }
+                    }
+                    None => {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Missing segment file: {}",
+                            block_range.segment_number
+                        )));
+                    }
+                };
                 self.segment_file_cache
-                    .insert(block_range.segment_number, file);
+                    .insert(block_range.segment_number, segment_file);
             }
             let segment_file: &mut EwfFile =
                 match self.segment_file_cache.get_mut(&block_range.segment_number) {
@@ -616,9 +673,8 @@ impl EwfImage {
                 };
             let segment_file_name: String = format!("{}.{}", name, segment_extension);
 
-            let path_components: [PathComponent; 1] = [PathComponent::from(&segment_file_name)];
-            let result: Option<DataStreamReference> =
-                match file_resolver.get_data_stream(&path_components) {
+            let (segment_file, data_stream): (EwfFile, DataStreamReference) =
+                match Self::open_segment_file(file_resolver, &segment_file_name) {
                     Ok(result) => result,
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(
@@ -628,27 +684,6 @@ impl EwfImage {
                         return Err(error);
                     }
                 };
-            let data_stream: DataStreamReference = match result {
-                Some(data_stream) => data_stream,
-                None => {
-                    return Err(keramics_core::error_trace_new!(format!(
-                        "No such segment file: {}",
-                        segment_file_name
-                    )));
-                }
-            };
-            let mut segment_file: EwfFile = EwfFile::new();
-
-            match segment_file.read_data_stream(&data_stream) {
-                Ok(_) => {}
-                Err(mut error) => {
-                    keramics_core::error_trace_add_frame!(
-                        error,
-                        format!("Unable to open segment file: {}", segment_file_name)
-                    );
-                    return Err(error);
-                }
-            }
             if segment_file.segment_number != segment_number {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Unsupported segment number: {} in segment file: {}",
@@ -668,6 +703,7 @@ impl EwfImage {
                     return Err(error);
                 }
             }
+            self.segment_file_names.push(segment_file_name);
             self.segment_file_cache.insert(segment_number, segment_file);
 
             segment_number += 1;
-- 
2.43.0


From 101bad7901a6683b81a39b997c263cf1cca3684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 077/156] fix: read EWF tables that are followed by their
 chunks and check their number of entries

---
 keramics-formats/src/ewf/image.rs |  6 ++
 keramics-formats/src/ewf/table.rs | 94 +++++++++++++++++++++++--------
 2 files changed, 75 insertions(+), 25 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index d122a00..1d06d63 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -57,6 +57,9 @@ pub struct EwfImage {
     /// Segment file cache.
     segment_file_cache: LruCache<u16, EwfFile>,
 
+    /// Value to indicate the tables have a footer.
+    has_table_footer: bool,
+
     /// Number of chunks.
     number_of_chunks: u32,
 
@@ -109,6 +112,7 @@ impl EwfImage {
             set_identifier: Uuid::new(),
             segment_file_names: Vec::new(),
             segment_file_cache: LruCache::new(16),
+            has_table_footer: true,
             number_of_chunks: 0,
             sectors_per_chunk: 0,
             bytes_per_sector: 0,
@@ -729,6 +733,7 @@ impl EwfImage {
         let mut safe_block_media_offset: u64 = *block_media_offset;
 
         let mut table: EwfTable = EwfTable::new();
+        table.has_footer = self.has_table_footer;
 
         match table.read_at_position(
             &data_stream,
@@ -908,6 +913,7 @@ impl EwfImage {
         match section_header.size {
             170 => {
                 let mut volume: EwfS01Volume = EwfS01Volume::new();
+                self.has_table_footer = false;
 
                 match volume.read_at_position(&data_stream, SeekFrom::Start(file_offset + 76)) {
                     Ok(_) => {}
diff --git a/keramics-formats/src/ewf/table.rs b/keramics-formats/src/ewf/table.rs
index 4eedf34..faefd3a 100644
--- a/keramics-formats/src/ewf/table.rs
+++ b/keramics-formats/src/ewf/table.rs
@@ -26,6 +26,9 @@ pub struct EwfTable {
     /// Mediator.
     mediator: MediatorReference,
 
+    /// Value to indicate the table has a footer.
+    pub has_footer: bool,
+
     /// Base offset.
     pub base_offset: u64,
 
@@ -38,6 +41,7 @@ impl EwfTable {
     pub fn new() -> Self {
         Self {
             mediator: Mediator::current(),
+            has_footer: true,
             base_offset: 0,
             entries: Vec::new(),
         }
@@ -65,32 +69,43 @@ impl EwfTable {
 
         let mut data_offset: usize = 24;
         let footer_offset: usize = 24 + (table_header.number_of_entries as usize * 4);
-        let footer_end_offset: usize = footer_offset + 4;
-
-        let mut table_footer: EwfTableFooter = EwfTableFooter::new();
+        let mut footer_end_offset: usize = footer_offset;
 
-        if self.mediator.debug_output {
-            self.mediator.debug_print(EwfTableFooter::debug_read_data(
-                &data[footer_offset..footer_end_offset],
-            ));
-        }
-        match table_footer.read_data(&data[footer_offset..footer_end_offset]) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to read table footer");
-                return Err(error);
-            }
+        if self.has_footer {
+            footer_end_offset += 4;
         }
-        let mut adler32_context: Adler32Context = Adler32Context::new(1);
-        adler32_context.update(&data[data_offset..footer_offset]);
-        let calculated_checksum: u32 = adler32_context.finalize();
-
-        if table_footer.checksum != calculated_checksum {
+        if footer_end_offset > data.len() {
             return Err(keramics_core::error_trace_new!(format!(
-                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
-                table_footer.checksum, calculated_checksum
+                "Invalid number of entries: {} value out of bounds",
+                table_header.number_of_entries
             )));
         }
+        if self.has_footer {
+            let mut table_footer: EwfTableFooter = EwfTableFooter::new();
+
+            if self.mediator.debug_output {
+                self.mediator.debug_print(EwfTableFooter::debug_read_data(
+                    &data[footer_offset..footer_end_offset],
+                ));
+            }
+            match table_footer.read_data(&data[footer_offset..footer_end_offset]) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(error, "Unable to read table footer");
+                    return Err(error);
+                }
+            }
+            let mut adler32_context: Adler32Context = Adler32Context::new(1);
+            adler32_context.update(&data[data_offset..footer_offset]);
+            let calculated_checksum: u32 = adler32_context.finalize();
+
+            if table_footer.checksum != calculated_checksum {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
+                    table_footer.checksum, calculated_checksum
+                )));
+            }
+        }
         for entry_index in 0..table_header.number_of_entries {
             let data_end_offset: usize = data_offset + 4;
 
@@ -125,21 +140,50 @@ impl EwfTable {
         data_size: u64,
         position: SeekFrom,
     ) -> Result<(), ErrorTrace> {
-        // Note that 16777216 is an arbitrary chosen limit.
-        if data_size < 28 || data_size > 16777216 {
+        if data_size < 28 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Unsupported table data size: {} value out of bounds",
                 data_size
             )));
         }
-        let mut data: Vec<u8> = vec![0; data_size as usize];
+        let mut header_data: [u8; 24] = [0; 24];
+
+        let header_offset: u64 = keramics_core::data_stream_read_exact_at_position!(
+            data_stream,
+            &mut header_data,
+            position
+        );
+        let mut table_header: EwfTableHeader = EwfTableHeader::new();
+
+        match table_header.read_data(&header_data) {
+            Ok(_) => {}
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(error, "Unable to read table header");
+                return Err(error);
+            }
+        }
+        // Note that the chunks can be stored after the table.
+        let mut table_data_size: u64 = 24 + (table_header.number_of_entries as u64) * 4;
+
+        if self.has_footer {
+            table_data_size += 4;
+        }
+        // Note that 16777216 is an arbitrary chosen limit.
+        if table_data_size > data_size || table_data_size > 16777216 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                table_header.number_of_entries
+            )));
+        }
+        let mut data: Vec<u8> = vec![0; table_data_size as usize];
+        let position: SeekFrom = SeekFrom::Start(header_offset);
 
         let offset: u64 =
             keramics_core::data_stream_read_exact_at_position!(data_stream, &mut data, position);
         if self.mediator.debug_output {
             self.mediator.debug_print(format!(
                 "EwfTable data of size: {} at offset: {} (0x{:08x})\n",
-                data_size, offset, offset
+                table_data_size, offset, offset
             ));
             self.mediator.debug_print_data(&data, true);
         }
-- 
2.43.0


From 6689fc2da7ec24a57c0e19cd06bc61afc3ebc701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 078/156] fix: return an error for out of bounds EWF table
 entries instead of a panic

---
 keramics-formats/src/ewf/image.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 1d06d63..8e0ab4c 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -751,6 +751,14 @@ impl EwfImage {
         if number_of_entries == 0 {
             return Err(keramics_core::error_trace_new!("Missing table entries"));
         }
+        // Note that chunk data offsets are at most 32-bit.
+        if table.base_offset > u64::MAX - 0xffffffff {
+            return Err(keramics_core::error_trace_new!(
+                "Invalid table base offset value out of bounds"
+            ));
+        }
+        let chunk_data_base_offset: u64 = table.base_offset;
+
         let mut table_entry: &EwfTableEntry = &table.entries[0];
         let mut chunk_data_offset_overflow: bool = false;
 
@@ -790,7 +798,10 @@ impl EwfImage {
                     ));
                 }
                 // TODO: handle corrupted table entry
-                todo!();
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid table entry: {} offset value out of bounds",
+                    table_entry_index + 1
+                )));
             };
             let block_range_type: EwfBlockRangeType = if chunk_is_compressed {
                 EwfBlockRangeType::Compressed
@@ -800,7 +811,7 @@ impl EwfImage {
             let block_range: EwfBlockRange = EwfBlockRange::new(
                 safe_block_media_offset,
                 segment_file.segment_number,
-                table.base_offset + (chunk_data_offset as u64),
+                chunk_data_base_offset + (chunk_data_offset as u64),
                 chunk_data_size,
                 block_range_type,
             );
@@ -822,7 +833,7 @@ impl EwfImage {
             // handle > 2 GiB segment file solution in EnCase 6.7 (chunk data offset
             // overflow)
             if !chunk_data_offset_overflow
-                && chunk_data_offset + chunk_data_size > (i32::MAX as u32)
+                && (chunk_data_offset as u64) + (chunk_data_size as u64) > (i32::MAX as u64)
             {
                 if self.mediator.debug_output {
                     self.mediator.debug_print(format!(
@@ -848,7 +859,7 @@ impl EwfImage {
         // is where it starts. Hence the size of the last chunk is determined
         // by subtracting the last offset from the offset of the next section.
 
-        let last_chunk_data_offset: u64 = table.base_offset + (chunk_data_offset as u64);
+        let last_chunk_data_offset: u64 = chunk_data_base_offset + (chunk_data_offset as u64);
 
         let last_chunk_data_end_offset: u64 = match last_sectors_section_header {
             // The chunks are stored in the sectors section.
@@ -856,6 +867,14 @@ impl EwfImage {
             // The chunks are stored in the table section.
             None => section_header.next_offset,
         };
+        if last_chunk_data_offset >= last_chunk_data_end_offset
+            || last_chunk_data_end_offset - last_chunk_data_offset > (u32::MAX as u64)
+        {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid table entry: {} offset value out of bounds",
+                number_of_entries - 1
+            )));
+        }
         let last_chunk_data_size: u32 =
             (last_chunk_data_end_offset - last_chunk_data_offset) as u32;
 
-- 
2.43.0


From f0502e57501cdee6773eea176aeddf6ec32c3460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 079/156] fix: check the chunk and media size of an EWF volume
 section and read the number of sectors as 64-bit

---
 keramics-formats/src/ewf/image.rs  | 27 +++++++++++++++++++++++----
 keramics-formats/src/ewf/volume.rs |  6 +++---
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 8e0ab4c..f7c95a6 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -70,7 +70,7 @@ pub struct EwfImage {
     pub bytes_per_sector: u32,
 
     /// Number of sectors.
-    pub number_of_sectors: u32,
+    pub number_of_sectors: u64,
 
     /// Block (or chunk) size.
     block_size: u32,
@@ -944,7 +944,7 @@ impl EwfImage {
                 self.number_of_chunks = volume.number_of_chunks;
                 self.sectors_per_chunk = volume.sectors_per_chunk;
                 self.bytes_per_sector = volume.bytes_per_sector;
-                self.number_of_sectors = volume.number_of_sectors;
+                self.number_of_sectors = volume.number_of_sectors as u64;
             }
             1128 => {
                 let mut volume: EwfE01Volume = EwfE01Volume::new();
@@ -979,8 +979,27 @@ impl EwfImage {
                 )));
             }
         }
-        self.block_size = self.sectors_per_chunk * self.bytes_per_sector;
-        self.media_size = (self.number_of_sectors as u64) * (self.bytes_per_sector as u64);
+        self.block_size = match self.sectors_per_chunk.checked_mul(self.bytes_per_sector) {
+            Some(block_size) if block_size > 0 => block_size,
+            _ => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported sectors per chunk: {} or bytes per sector: {} value out of bounds",
+                    self.sectors_per_chunk, self.bytes_per_sector
+                )));
+            }
+        };
+        self.media_size = match self
+            .number_of_sectors
+            .checked_mul(self.bytes_per_sector as u64)
+        {
+            Some(media_size) => media_size,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported number of sectors: {} value out of bounds",
+                    self.number_of_sectors
+                )));
+            }
+        };
 
         let block_tree_data_size: u64 = (self.number_of_chunks as u64) * (self.block_size as u64);
 
diff --git a/keramics-formats/src/ewf/volume.rs b/keramics-formats/src/ewf/volume.rs
index c56d4c7..e9cf842 100644
--- a/keramics-formats/src/ewf/volume.rs
+++ b/keramics-formats/src/ewf/volume.rs
@@ -14,7 +14,7 @@
 use keramics_checksums::Adler32Context;
 use keramics_core::ErrorTrace;
 use keramics_layout_map::LayoutMap;
-use keramics_types::{Uuid, bytes_to_u32_le};
+use keramics_types::{Uuid, bytes_to_u32_le, bytes_to_u64_le};
 
 #[derive(LayoutMap)]
 #[layout_map(
@@ -61,7 +61,7 @@ pub struct EwfE01Volume {
     pub bytes_per_sector: u32,
 
     /// Number of sectors.
-    pub number_of_sectors: u32,
+    pub number_of_sectors: u64,
 
     /// Media flags.
     pub media_flags: u8,
@@ -115,7 +115,7 @@ impl EwfE01Volume {
         self.number_of_chunks = bytes_to_u32_le!(data, 4);
         self.sectors_per_chunk = bytes_to_u32_le!(data, 8);
         self.bytes_per_sector = bytes_to_u32_le!(data, 12);
-        self.number_of_sectors = bytes_to_u32_le!(data, 16);
+        self.number_of_sectors = bytes_to_u64_le!(data, 16);
         self.media_flags = data[36];
         self.compression_level = data[52];
         self.error_granularity = bytes_to_u32_le!(data, 56);
-- 
2.43.0


From d2d6a7c293f9f11a91f7fdde47df4e42a692277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 080/156] fix: recognize EWF error2 sections and check their
 number of entries

---
 keramics-formats/src/ewf/constants.rs | 2 +-
 keramics-formats/src/ewf/error2.rs    | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ewf/constants.rs b/keramics-formats/src/ewf/constants.rs
index 39094b4..d56e9f7 100644
--- a/keramics-formats/src/ewf/constants.rs
+++ b/keramics-formats/src/ewf/constants.rs
@@ -37,7 +37,7 @@ pub(super) const EWF_SECTION_TYPE_DONE: [u8; 16] = [
 
 /// EWF error2 section type: "error2\0\0\0\0\0\0\0\0\0\0"
 pub(super) const EWF_SECTION_TYPE_ERROR2: [u8; 16] = [
-    0x65, 0x72, 0x72, 0x6f, 0x72, 0x73, 0x32, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+    0x65, 0x72, 0x72, 0x6f, 0x72, 0x32, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
 ];
 
 /// EWF hash section type: "hash\0\0\0\0\0\0\0\0\0\0\0\0"
diff --git a/keramics-formats/src/ewf/error2.rs b/keramics-formats/src/ewf/error2.rs
index cc4e9eb..4701cbc 100644
--- a/keramics-formats/src/ewf/error2.rs
+++ b/keramics-formats/src/ewf/error2.rs
@@ -61,6 +61,13 @@ impl EwfError2 {
         let footer_offset: usize = 520 + (error2_header.number_of_entries as usize * 8);
         let footer_end_offset: usize = footer_offset + 4;
 
+        if footer_end_offset > data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                error2_header.number_of_entries
+            )));
+        }
+
         let mut error2_footer: EwfError2Footer = EwfError2Footer::new();
 
         if self.mediator.debug_output {
-- 
2.43.0


From ea123de78d0921ddfa162129b48f0e4499bce1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 081/156] fix: read EWF header values of which the compressed
 data expands more than 4 times

---
 keramics-formats/src/ewf/header.rs         | 30 ++++++++++++-----
 keramics-formats/src/ewf/header2.rs        | 39 ++++++++++++++--------
 keramics-formats/src/ewf/object_storage.rs | 13 ++++----
 3 files changed, 53 insertions(+), 29 deletions(-)

diff --git a/keramics-formats/src/ewf/header.rs b/keramics-formats/src/ewf/header.rs
index ca8ccfc..efad077 100644
--- a/keramics-formats/src/ewf/header.rs
+++ b/keramics-formats/src/ewf/header.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::HashMap;
 use std::io::SeekFrom;
 
@@ -45,18 +46,29 @@ impl EwfHeader {
         let data_size: usize = data.len();
 
         // On average the uncompressed header will be more than twice as large
-        // as the compressed header.
-        let mut header_data: Vec<u8> = vec![0; data_size * 4];
+        // as the compressed header. Note that 16777216 is an arbitrary chosen limit.
+        let mut header_data_size: usize = data_size * 4;
 
-        let mut zlib_context: ZlibContext = ZlibContext::new();
+        let mut zlib_context: ZlibContext;
+        let mut header_data: Vec<u8> = loop {
+            let mut uncompressed_data: Vec<u8> = vec![0; header_data_size];
 
-        match zlib_context.decompress(data, &mut header_data) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to decompress header data");
-                return Err(error);
+            zlib_context = ZlibContext::new();
+            match zlib_context.decompress(data, &mut uncompressed_data) {
+                Ok(_) => break uncompressed_data,
+                Err(mut error) if header_data_size >= 16777216 => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to decompress header data"
+                    );
+                    return Err(error);
+                }
+                Err(_) => {}
             }
-        }
+            header_data_size = min(header_data_size * 4, 16777216);
+        };
+        header_data.truncate(zlib_context.uncompressed_data_size);
+
         if self.mediator.debug_output {
             self.mediator.debug_print(format!(
                 "Uncompressed header data of size: {}\n",
diff --git a/keramics-formats/src/ewf/header2.rs b/keramics-formats/src/ewf/header2.rs
index a8530d2..6f03e7a 100644
--- a/keramics-formats/src/ewf/header2.rs
+++ b/keramics-formats/src/ewf/header2.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::HashMap;
 use std::io::SeekFrom;
 
@@ -45,20 +46,30 @@ impl EwfHeader2 {
     ) -> Result<(), ErrorTrace> {
         let data_size: usize = data.len();
 
-        // On average the uncompressed header will be more than twice as large
-        // as the compressed header. Note that the uncompressed header size
-        // should be a multitude of 2 bytes.
-        let mut header2_data: Vec<u8> = vec![0; data_size * 4];
+        // On average the uncompressed header2 will be more than twice as large
+        // as the compressed header2. Note that 16777216 is an arbitrary chosen limit.
+        let mut header2_data_size: usize = data_size * 4;
 
-        let mut zlib_context: ZlibContext = ZlibContext::new();
+        let mut zlib_context: ZlibContext;
+        let mut header2_data: Vec<u8> = loop {
+            let mut uncompressed_data: Vec<u8> = vec![0; header2_data_size];
 
-        match zlib_context.decompress(data, &mut header2_data) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to decompress header2 data");
-                return Err(error);
+            zlib_context = ZlibContext::new();
+            match zlib_context.decompress(data, &mut uncompressed_data) {
+                Ok(_) => break uncompressed_data,
+                Err(mut error) if header2_data_size >= 16777216 => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to decompress header2 data"
+                    );
+                    return Err(error);
+                }
+                Err(_) => {}
             }
-        }
+            header2_data_size = min(header2_data_size * 4, 16777216);
+        };
+        header2_data.truncate(zlib_context.uncompressed_data_size);
+
         if self.mediator.debug_output {
             self.mediator.debug_print(format!(
                 "Uncompressed header2 data of size: {}\n",
@@ -68,13 +79,13 @@ impl EwfHeader2 {
         }
         let mut header2_data_offset: usize = 0;
 
-        let byte_order: ByteOrder = match &header2_data[0..2] {
-            [0xfe, 0xff] => {
+        let byte_order: ByteOrder = match header2_data.as_slice() {
+            [0xfe, 0xff, ..] => {
                 header2_data_offset += 2;
 
                 ByteOrder::BigEndian
             }
-            [0xff, 0xfe] => {
+            [0xff, 0xfe, ..] => {
                 header2_data_offset += 2;
 
                 ByteOrder::LittleEndian
diff --git a/keramics-formats/src/ewf/object_storage.rs b/keramics-formats/src/ewf/object_storage.rs
index a1c227a..987980a 100644
--- a/keramics-formats/src/ewf/object_storage.rs
+++ b/keramics-formats/src/ewf/object_storage.rs
@@ -96,10 +96,8 @@ impl<'a> EwfUtf16ObjectStorage<'a> {
     pub fn next_line(&mut self) -> Option<Vec<u16>> {
         let mut line: Vec<u16> = Vec::new();
 
-        let start_offset: usize = self.data_offset;
-
         let mut last_value_16bit: u16 = 0;
-        while self.data_offset < self.data_size {
+        while self.data_offset + 1 < self.data_size {
             let value_16bit: u16 = match self.byte_order {
                 ByteOrder::BigEndian => bytes_to_u16_be!(self.data, self.data_offset),
                 ByteOrder::LittleEndian => bytes_to_u16_le!(self.data, self.data_offset),
@@ -128,13 +126,16 @@ impl<'a> EwfUtf16ObjectStorage<'a> {
         // Note that the EnCase documentation indicates that the Date type is unsigned.
         let mut timestamp: i32 = 0;
 
+        if value.is_empty() {
+            return None;
+        }
         for value_16bit in value.iter() {
-            timestamp *= 10;
-
             if *value_16bit < 0x0030 || *value_16bit > 0x0039 {
                 return None;
             }
-            timestamp += *value_16bit as i32 - 0x0030;
+            timestamp = timestamp
+                .checked_mul(10)?
+                .checked_add(*value_16bit as i32 - 0x0030)?;
         }
         Some(timestamp)
     }
-- 
2.43.0


From 3a90d66abff0eda02c96ff37dead66f177ae1074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 082/156] fix: return an error for an EWF chunk that
 decompresses to less than the chunk size

---
 keramics-formats/src/ewf/image.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index f7c95a6..9bd180f 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::HashMap;
 use std::io::SeekFrom;
 
@@ -359,7 +360,19 @@ impl EwfImage {
                                 return Err(error);
                             }
                         }
-                        self.block_cache.insert(block_range.media_offset, block_data);
+                        // Note that the last chunk can be smaller than the chunk size.
+                        let chunk_size: u64 = min(
+                            self.block_size as u64,
+                            self.media_size - block_range.media_offset,
+                        );
+                        if (zlib_context.uncompressed_data_size as u64) < chunk_size {
+                            return Err(keramics_core::error_trace_new!(format!(
+                                "Unsupported uncompressed chunk size: {} value too small",
+                                zlib_context.uncompressed_data_size
+                            )));
+                        }
+                        self.block_cache
+                            .insert(block_range.media_offset, block_data);
                     }
                     let range_data: &Vec<u8> = match self.block_cache.get(&block_range.media_offset)
                     {
-- 
2.43.0


From d34df53da476430fbb23eb1f20e5a2dabd9f64c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 083/156] fix: determine the extension and stem of path
 components with non-ASCII characters

---
 keramics-formats/src/path_component.rs | 27 ++++++++++----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/keramics-formats/src/path_component.rs b/keramics-formats/src/path_component.rs
index 0e4536e..a0c32e6 100644
--- a/keramics-formats/src/path_component.rs
+++ b/keramics-formats/src/path_component.rs
@@ -27,17 +27,12 @@ impl PathComponent {
     pub fn extension(&self) -> Option<PathComponent> {
         match self {
             PathComponent::String(string) => {
-                if string.is_empty() {
-                    None
-                } else {
-                    match string[1..].chars().rev().position(|value| value == '.') {
-                        Some(value_index) => {
-                            // Note that value_index is relative to end of the string.
-                            let string_index: usize = string.len() - value_index;
-                            Some(PathComponent::String(string[string_index..].to_string()))
-                        }
-                        None => None,
-                    }
+                // Note that a leading dot is not considered to precede an extension.
+                match string.rfind('.') {
+                    Some(string_index) if string_index > 0 => Some(PathComponent::String(
+                        string[string_index + 1..].to_string(),
+                    )),
+                    _ => None,
                 }
             }
             _ => todo!(),
@@ -51,13 +46,11 @@ impl PathComponent {
                 if string.is_empty() {
                     None
                 } else {
-                    match string[1..].chars().rev().position(|value| value == '.') {
-                        Some(value_index) => {
-                            // Note that value_index is relative to end of the string.
-                            let string_size: usize = string.len() - value_index - 1;
-                            Some(PathComponent::String(string[0..string_size].to_string()))
+                    match string.rfind('.') {
+                        Some(string_index) if string_index > 0 => {
+                            Some(PathComponent::String(string[..string_index].to_string()))
                         }
-                        None => Some(PathComponent::String(string.clone())),
+                        _ => Some(PathComponent::String(string.clone())),
                     }
                 }
             }
-- 
2.43.0


From 12c0ab3423bab12ea0a9ead09cb984d7dc21c722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 084/156] fix: refuse EWF segment files without a done or next
 section

---
 keramics-formats/src/ewf/file.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ewf/file.rs b/keramics-formats/src/ewf/file.rs
index 8d7edb2..81f0add 100644
--- a/keramics-formats/src/ewf/file.rs
+++ b/keramics-formats/src/ewf/file.rs
@@ -89,6 +89,7 @@ impl EwfFile {
             }
         }
         let mut file_offset: u64 = 13;
+        let mut is_last_section: bool = false;
 
         while file_offset < file_size {
             let mut section_header: EwfSectionHeader = EwfSectionHeader::new();
@@ -107,7 +108,6 @@ impl EwfFile {
                 }
             }
 
-            let mut is_last_section: bool = false;
             let mut section_size: u64 = section_header.size;
 
             if section_header.section_type == EWF_SECTION_TYPE_DONE
@@ -157,6 +157,12 @@ impl EwfFile {
                 break;
             }
         }
+        // Without the last section an unknown number of tables can be missing.
+        if !is_last_section {
+            return Err(keramics_core::error_trace_new!(
+                "Missing done or next section"
+            ));
+        }
         if file_offset != file_size {
             return Err(keramics_core::error_trace_new!(
                 "Unsupported trailing data after last section header"
-- 
2.43.0


From 9050bb307fb48f8a6a90f993b22bd5088d3d71b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 085/156] fix: fat: use only the lower 28 bits of a FAT-32
 allocation table entry

---
 keramics-formats/src/fat/block_allocation_table.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/fat/block_allocation_table.rs b/keramics-formats/src/fat/block_allocation_table.rs
index 30da809..f5b4b8b 100644
--- a/keramics-formats/src/fat/block_allocation_table.rs
+++ b/keramics-formats/src/fat/block_allocation_table.rs
@@ -106,9 +106,8 @@ impl FatBlockAllocationTable {
                 }
             }
             FatFormat::Fat16 => bytes_to_u16_le!(data, 0) as u32,
-            FatFormat::Fat32 => {
-                bytes_to_u32_le!(data, 0)
-            }
+            // Note that only the lower 28-bits are used.
+            FatFormat::Fat32 => bytes_to_u32_le!(data, 0) & 0x0fffffff,
         };
         if self.mediator.debug_output {
             self.mediator
-- 
2.43.0


From b149e92ecda772770715175145c48fcddef95282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 086/156] fix: fat: support files with more cluster blocks than
 their size requires

---
 keramics-formats/src/fat/block_stream.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/fat/block_stream.rs b/keramics-formats/src/fat/block_stream.rs
index cc6cc2b..268a065 100644
--- a/keramics-formats/src/fat/block_stream.rs
+++ b/keramics-formats/src/fat/block_stream.rs
@@ -70,7 +70,11 @@ impl FatBlockStream {
         let mut read_cluster_block_numbers: HashSet<u32> = HashSet::new();
         let mut logical_offset: u64 = 0;
 
-        while cluster_block_number >= 2 && cluster_block_number < largest_cluster_block_number {
+        // Note that more cluster blocks can be allocated than the data size requires.
+        while logical_offset < block_tree_data_size
+            && cluster_block_number >= 2
+            && cluster_block_number < largest_cluster_block_number
+        {
             if read_cluster_block_numbers.contains(&cluster_block_number) {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Cluster block: {} already read",
-- 
2.43.0


From bfd0ef9ea40a570edc65ceaf80b3816d9eba2e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 087/156] fix: fat: do not count the root directory as
 clusters, and refuse volumes smaller than their tables

---
 keramics-formats/src/fat/file_system.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index b0f846a..2ea29c7 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -368,11 +368,23 @@ impl FatFileSystem {
         if !boot_record.volume_label.is_empty() {
             self.volume_label = Some(boot_record.volume_label)
         }
-        let mut number_of_clusters: u64 = (boot_record.number_of_sectors as u64)
-            - (boot_record.number_of_reserved_sectors as u64);
-        number_of_clusters -= (boot_record.number_of_allocation_tables as u64)
-            * (boot_record.allocation_table_size as u64);
-        number_of_clusters /= boot_record.sectors_per_cluster_block as u64;
+        let number_of_root_directory_sectors: u64 =
+            ((boot_record.number_of_root_directory_entries as u64) * 32)
+                .div_ceil(boot_record.bytes_per_sector as u64);
+        let first_cluster_sector: u64 = (boot_record.number_of_reserved_sectors as u64)
+            + (boot_record.number_of_allocation_tables as u64)
+                * (boot_record.allocation_table_size as u64)
+            + number_of_root_directory_sectors;
+
+        if (boot_record.number_of_sectors as u64) < first_cluster_sector {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported number of sectors: {} value out of bounds",
+                boot_record.number_of_sectors
+            )));
+        }
+        let number_of_clusters: u64 = ((boot_record.number_of_sectors as u64)
+            - first_cluster_sector)
+            / (boot_record.sectors_per_cluster_block as u64);
 
         self.format =
             if self.root_directory_cluster_block_number != 0 || number_of_clusters >= 65525 {
-- 
2.43.0


From eee76d5684748712c3d65cacd4a09d22be7dbcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 088/156] fix: fat: the allocation table has two entries more
 than there are clusters

---
 keramics-formats/src/fat/file_system.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index 2ea29c7..867bdb9 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::HashMap;
 use std::io::SeekFrom;
 use std::sync::Arc;
@@ -413,7 +414,8 @@ impl FatFileSystem {
         self.block_allocation_table = Some(Arc::new(FatBlockAllocationTable::new(
             &self.format,
             allocation_table_offset,
-            number_of_clusters as u32,
+            // Note that the first 2 entries do not represent a cluster block.
+            min(number_of_clusters + 2, u32::MAX as u64) as u32,
             self.first_cluster_offset,
             self.cluster_block_size,
         )));
-- 
2.43.0


From 476038926746c507dd3718754a7fd713356c8608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 089/156] fix: fat: a directory ends at the first entry that
 starts with 0

---
 keramics-formats/src/fat/directory_entries.rs    | 11 +++++++----
 keramics-formats/src/fat/directory_entry_type.rs |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/fat/directory_entries.rs b/keramics-formats/src/fat/directory_entries.rs
index 524f5ac..0cb7b73 100644
--- a/keramics-formats/src/fat/directory_entries.rs
+++ b/keramics-formats/src/fat/directory_entries.rs
@@ -94,13 +94,15 @@ impl FatDirectoryEntries {
     }
 
     /// Reads the directory entries from a buffer.
+    ///
+    /// Returns true if the terminator directory entry was read.
     fn read_data(
         &mut self,
         data: &[u8],
         mut directory_entry_offset: u64,
         last_vfat_sequence_number: &mut u8,
         long_name_entries: &mut Vec<FatLongNameDirectoryEntry>,
-    ) -> Result<(), ErrorTrace> {
+    ) -> Result<bool, ErrorTrace> {
         let mut safe_last_vfat_sequence_number: u8 = *last_vfat_sequence_number;
 
         let mut data_offset: usize = 0;
@@ -195,7 +197,7 @@ impl FatDirectoryEntries {
                     }
                 }
                 FatDirectoryEntryType::Terminator => {
-                    break;
+                    return Ok(true);
                 }
                 FatDirectoryEntryType::Unallocated => {
                     // TODO: add support for recovering unallocated entries
@@ -206,7 +208,7 @@ impl FatDirectoryEntries {
         }
         *last_vfat_sequence_number = safe_last_vfat_sequence_number;
 
-        Ok(())
+        Ok(false)
     }
 
     /// Reads the directories entries starting at a specific cluster block in a data stream.
@@ -254,7 +256,8 @@ impl FatDirectoryEntries {
                 &mut last_vfat_sequence_number,
                 &mut long_name_entries,
             ) {
-                Ok(_) => {}
+                Ok(true) => break,
+                Ok(false) => {}
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
                         error,
diff --git a/keramics-formats/src/fat/directory_entry_type.rs b/keramics-formats/src/fat/directory_entry_type.rs
index 3a07398..25fed7d 100644
--- a/keramics-formats/src/fat/directory_entry_type.rs
+++ b/keramics-formats/src/fat/directory_entry_type.rs
@@ -36,7 +36,7 @@ impl FatDirectoryEntryType {
             && ((data[0] >= 0x01 && data[0] <= 0x13) || (data[0] >= 0x41 && data[0] <= 0x54))
         {
             FatDirectoryEntryType::LongName
-        } else if data[0..32] == [0; 32] {
+        } else if data[0] == 0x00 {
             FatDirectoryEntryType::Terminator
         } else {
             FatDirectoryEntryType::ShortName
-- 
2.43.0


From 3f612ffa65cf2f68de4224a36864622dcfc6e8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 090/156] fix: fat: keep the spaces of a volume label in the
 root directory

---
 .../src/fat/short_name_directory_entry.rs     | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/keramics-formats/src/fat/short_name_directory_entry.rs b/keramics-formats/src/fat/short_name_directory_entry.rs
index ee587c3..a09427c 100644
--- a/keramics-formats/src/fat/short_name_directory_entry.rs
+++ b/keramics-formats/src/fat/short_name_directory_entry.rs
@@ -89,9 +89,18 @@ impl FatShortNameDirectoryEntry {
         self.file_attribute_flags = data[11];
         self.flags = data[12];
 
-        let slice: &[u8] = match data[0..8].iter().rev().position(|value| *value != b' ') {
-            Some(data_index) => &data[0..8 - data_index],
-            None => &data[0..8],
+        // Note that a volume label has no extension and can contain spaces.
+        let is_volume_label: bool =
+            self.file_attribute_flags & 0x58 == FAT_FILE_ATTRIBUTE_FLAG_VOLUME_LABEL;
+        let name_size: usize = if is_volume_label { 11 } else { 8 };
+
+        let slice: &[u8] = match data[0..name_size]
+            .iter()
+            .rev()
+            .position(|value| *value != b' ')
+        {
+            Some(data_index) => &data[0..name_size - data_index],
+            None => &data[0..name_size],
         };
         for byte_value in slice.iter() {
             if self.flags & 0x08 != 0 && *byte_value >= b'A' && *byte_value <= b'Z' {
@@ -100,11 +109,9 @@ impl FatShortNameDirectoryEntry {
                 self.name.elements.push(*byte_value);
             }
         }
-        if data[8] != 0 && data[8] != b' ' {
-            // Do not add an extension separator for a volume label.
-            if self.file_attribute_flags & 0x58 != FAT_FILE_ATTRIBUTE_FLAG_VOLUME_LABEL {
-                self.name.elements.push(b'.');
-            }
+        if !is_volume_label && data[8] != 0 && data[8] != b' ' {
+            self.name.elements.push(b'.');
+
             let slice: &[u8] = match data[8..11].iter().rev().position(|value| *value != b' ') {
                 Some(data_index) => &data[8..11 - data_index],
                 None => &data[8..11],
-- 
2.43.0


From 2783a3a0abbebc59e9dd70a59ba4782957be0504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 091/156] fix: fat: use the upper 16 bits of the start cluster
 of a FAT-32 directory entry

---
 keramics-formats/src/fat/file_entry.rs         | 12 ++++++++----
 .../src/fat/short_name_directory_entry.rs      | 18 +++++++++++++++++-
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/fat/file_entry.rs b/keramics-formats/src/fat/file_entry.rs
index 09668ba..af1c7c7 100644
--- a/keramics-formats/src/fat/file_entry.rs
+++ b/keramics-formats/src/fat/file_entry.rs
@@ -117,9 +117,11 @@ impl FatFileEntry {
         if self.is_directory() {
             return Ok(None);
         }
-        let (data_start_cluster, data_size): (u16, u32) = match self.directory_entry.as_ref() {
+        let (data_start_cluster, data_size): (u32, u32) = match self.directory_entry.as_ref() {
             Some(directory_entry) => (
-                directory_entry.short_name.data_start_cluster,
+                directory_entry
+                    .short_name
+                    .get_data_start_cluster(&self.block_allocation_table.format),
                 directory_entry.short_name.data_size,
             ),
             None => (0, 0),
@@ -130,7 +132,7 @@ impl FatFileEntry {
         match block_stream.open(
             &self.data_stream,
             &self.block_allocation_table,
-            data_start_cluster as u32,
+            data_start_cluster,
         ) {
             Ok(_) => {}
             Err(mut error) => {
@@ -253,7 +255,9 @@ impl FatFileEntry {
     /// Reads the sub directory entries.
     fn read_sub_directory_entries(&mut self) -> Result<(), ErrorTrace> {
         let cluster_block_number: u32 = match &self.directory_entry {
-            Some(directory_entry) => directory_entry.short_name.data_start_cluster as u32,
+            Some(directory_entry) => directory_entry
+                .short_name
+                .get_data_start_cluster(&self.block_allocation_table.format),
             None => {
                 return Err(keramics_core::error_trace_new!("Missing directory entry"));
             }
diff --git a/keramics-formats/src/fat/short_name_directory_entry.rs b/keramics-formats/src/fat/short_name_directory_entry.rs
index a09427c..1ae3163 100644
--- a/keramics-formats/src/fat/short_name_directory_entry.rs
+++ b/keramics-formats/src/fat/short_name_directory_entry.rs
@@ -18,6 +18,7 @@ use keramics_layout_map::LayoutMap;
 use keramics_types::{ByteString, bytes_to_u16_le, bytes_to_u32_le};
 
 use super::constants::*;
+use super::enums::FatFormat;
 
 #[derive(Clone, LayoutMap)]
 #[layout_map(
@@ -29,7 +30,7 @@ use super::constants::*;
         field(name = "flags", data_type = "u8", format = "hex"),
         field(name = "creation_time", data_type = "FatTimeDate10Ms"),
         field(name = "access_date", data_type = "FatDate"),
-        field(name = "unknown2", data_type = "[u8; 2]", format = "hex"),
+        field(name = "data_start_cluster_upper", data_type = "u16"),
         field(name = "modification_time", data_type = "FatTimeDate"),
         field(name = "data_start_cluster", data_type = "u16"),
         field(name = "data_size", data_type = "u32"),
@@ -57,6 +58,9 @@ pub struct FatShortNameDirectoryEntry {
     /// Modifiation date and time.
     pub modification_time: DateTime,
 
+    /// Upper 16-bits of the data start cluster, used by FAT-32.
+    pub data_start_cluster_upper: u16,
+
     /// Data start cluster.
     pub data_start_cluster: u16,
 
@@ -74,11 +78,22 @@ impl FatShortNameDirectoryEntry {
             creation_time: DateTime::NotSet,
             access_time: DateTime::NotSet,
             modification_time: DateTime::NotSet,
+            data_start_cluster_upper: 0,
             data_start_cluster: 0,
             data_size: 0,
         }
     }
 
+    /// Retrieves the data start cluster for a specific format.
+    pub fn get_data_start_cluster(&self, format: &FatFormat) -> u32 {
+        match format {
+            FatFormat::Fat12 | FatFormat::Fat16 => self.data_start_cluster as u32,
+            FatFormat::Fat32 => {
+                ((self.data_start_cluster_upper as u32) << 16) | (self.data_start_cluster as u32)
+            }
+        }
+    }
+
     /// Reads the directory entry from a buffer.
     pub fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
         if data.len() < 32 {
@@ -128,6 +143,7 @@ impl FatShortNameDirectoryEntry {
         self.access_time = DateTime::FatDate(FatDate::from_bytes(&data[18..20]));
         self.modification_time = DateTime::FatTimeDate(FatTimeDate::from_bytes(&data[22..26]));
 
+        self.data_start_cluster_upper = bytes_to_u16_le!(data, 20);
         self.data_start_cluster = bytes_to_u16_le!(data, 26);
         self.data_size = bytes_to_u32_le!(data, 28);
 
-- 
2.43.0


From e8c2c37bb770db6f939a2bee875296c7f8763d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 092/156] fix: fat: look up a byte string regardless of its
 case

---
 keramics-formats/src/fat/string.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/fat/string.rs b/keramics-formats/src/fat/string.rs
index b9b152d..c380d50 100644
--- a/keramics-formats/src/fat/string.rs
+++ b/keramics-formats/src/fat/string.rs
@@ -15,7 +15,7 @@ use std::collections::HashMap;
 use std::sync::Arc;
 
 use keramics_core::ErrorTrace;
-use keramics_encodings::CharacterDecoder;
+use keramics_encodings::{CharacterDecoder, CharacterEncoding};
 use keramics_types::{ByteString, Ucs2String};
 
 /// File Allocation Table (FAT) string.
@@ -53,7 +53,23 @@ impl FatString {
                                     "Unable to encode string - code point outside of UCS-2 range"
                                 ));
                             }
-                            lookup_name.elements.push(code_point as u16);
+                            let value: u16 = code_point as u16;
+
+                            // Note that short names are stored in an OEM codepage, hence only
+                            // the case of ASCII characters is known.
+                            if byte_string.encoding == CharacterEncoding::Ascii {
+                                lookup_name.elements.push(match value {
+                                    0x61..=0x7a => value - 32,
+                                    _ => value,
+                                });
+                            } else {
+                                lookup_name.elements.push(
+                                    match case_folding_mappings.get(&value) {
+                                        Some(&mapped_value) => mapped_value,
+                                        None => value,
+                                    },
+                                );
+                            }
                         }
                         Err(mut error) => {
                             keramics_core::error_trace_add_frame!(
-- 
2.43.0


From 0b22c30c27d4bd41ae21a607e27cdcebdfa55a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 093/156] fix: fat: do not use the long name of a deleted entry
 for the entry that follows it

---
 keramics-formats/src/fat/directory_entries.rs          | 3 +++
 keramics-formats/src/fat/directory_entry.rs            | 9 +++++++++
 keramics-formats/src/fat/long_name_directory_entry.rs  | 5 +++++
 keramics-formats/src/fat/short_name_directory_entry.rs | 7 +++++++
 4 files changed, 24 insertions(+)

diff --git a/keramics-formats/src/fat/directory_entries.rs b/keramics-formats/src/fat/directory_entries.rs
index 0cb7b73..2b13f40 100644
--- a/keramics-formats/src/fat/directory_entries.rs
+++ b/keramics-formats/src/fat/directory_entries.rs
@@ -181,10 +181,12 @@ impl FatDirectoryEntries {
                     }
                     if entry.file_attribute_flags & 0x58 == FAT_FILE_ATTRIBUTE_FLAG_VOLUME_LABEL {
                         self.volume_label = Some(entry.name);
+                        long_name_entries.clear();
                     } else {
                         // Ignore "." and ".."
                         if entry.name == "." || entry.name == ".." {
                             // TODO: add support to handle special directory entries
+                            long_name_entries.clear();
                         } else {
                             let mut directory_entry: FatDirectoryEntry =
                                 FatDirectoryEntry::new(directory_entry_offset as u32, entry);
@@ -201,6 +203,7 @@ impl FatDirectoryEntries {
                 }
                 FatDirectoryEntryType::Unallocated => {
                     // TODO: add support for recovering unallocated entries
+                    long_name_entries.clear();
                 }
             }
             data_offset = data_end_offset;
diff --git a/keramics-formats/src/fat/directory_entry.rs b/keramics-formats/src/fat/directory_entry.rs
index 7388a97..2b3bf6f 100644
--- a/keramics-formats/src/fat/directory_entry.rs
+++ b/keramics-formats/src/fat/directory_entry.rs
@@ -65,7 +65,16 @@ impl FatDirectoryEntry {
     }
 
     /// Fills the directory entry based on a long name directory entries.
+    ///
+    /// Note that long name entries with another name checksum belong to a directory entry that
+    /// no longer exists.
     pub fn set_long_name(&mut self, long_name_entries: &mut Vec<FatLongNameDirectoryEntry>) {
+        if long_name_entries
+            .iter()
+            .any(|entry| entry.name_checksum != self.short_name.name_checksum)
+        {
+            long_name_entries.clear();
+        }
         if !long_name_entries.is_empty() {
             let mut long_name: Ucs2String = Ucs2String::new();
 
diff --git a/keramics-formats/src/fat/long_name_directory_entry.rs b/keramics-formats/src/fat/long_name_directory_entry.rs
index ed6aaa4..56a2d38 100644
--- a/keramics-formats/src/fat/long_name_directory_entry.rs
+++ b/keramics-formats/src/fat/long_name_directory_entry.rs
@@ -34,6 +34,9 @@ pub struct FatLongNameDirectoryEntry {
     /// Sequence number
     pub sequence_number: u8,
 
+    /// Checksum of the short name.
+    pub name_checksum: u8,
+
     /// Name
     pub name: Ucs2String,
 }
@@ -43,6 +46,7 @@ impl FatLongNameDirectoryEntry {
     pub fn new() -> Self {
         Self {
             sequence_number: 0,
+            name_checksum: 0,
             name: Ucs2String::new(),
         }
     }
@@ -55,6 +59,7 @@ impl FatLongNameDirectoryEntry {
             ));
         }
         self.sequence_number = data[0];
+        self.name_checksum = data[13];
 
         self.name.read_data_le(&data[1..11]);
 
diff --git a/keramics-formats/src/fat/short_name_directory_entry.rs b/keramics-formats/src/fat/short_name_directory_entry.rs
index 1ae3163..8476a3e 100644
--- a/keramics-formats/src/fat/short_name_directory_entry.rs
+++ b/keramics-formats/src/fat/short_name_directory_entry.rs
@@ -43,6 +43,9 @@ pub struct FatShortNameDirectoryEntry {
     /// Name
     pub name: ByteString,
 
+    /// Name checksum, used by long name directory entries.
+    pub name_checksum: u8,
+
     /// File attribute flags.
     pub file_attribute_flags: u8,
 
@@ -73,6 +76,7 @@ impl FatShortNameDirectoryEntry {
     pub fn new() -> Self {
         Self {
             name: ByteString::new_with_encoding(&CharacterEncoding::Ascii),
+            name_checksum: 0,
             file_attribute_flags: 0,
             flags: 0,
             creation_time: DateTime::NotSet,
@@ -101,6 +105,9 @@ impl FatShortNameDirectoryEntry {
                 "Unsupported directory entry data size"
             ));
         }
+        self.name_checksum = data[0..11].iter().fold(0, |checksum: u8, value| {
+            checksum.rotate_right(1).wrapping_add(*value)
+        });
         self.file_attribute_flags = data[11];
         self.flags = data[12];
 
-- 
2.43.0


From ec9cb7efa371fdec5e754aeea4c2663ce16a7817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 094/156] fix: fat: identifiers of entries at offsets of 4 GiB
 and more

---
 keramics-formats/src/fat/directory_entries.rs |  2 +-
 keramics-formats/src/fat/directory_entry.rs   |  4 ++--
 keramics-formats/src/fat/file_entry.rs        |  4 ++--
 keramics-formats/src/fat/file_system.rs       | 15 +++++++--------
 keramics-tools/src/info/fat.rs                |  8 +-------
 5 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/keramics-formats/src/fat/directory_entries.rs b/keramics-formats/src/fat/directory_entries.rs
index 2b13f40..8a620b2 100644
--- a/keramics-formats/src/fat/directory_entries.rs
+++ b/keramics-formats/src/fat/directory_entries.rs
@@ -189,7 +189,7 @@ impl FatDirectoryEntries {
                             long_name_entries.clear();
                         } else {
                             let mut directory_entry: FatDirectoryEntry =
-                                FatDirectoryEntry::new(directory_entry_offset as u32, entry);
+                                FatDirectoryEntry::new(directory_entry_offset, entry);
                             directory_entry.set_long_name(long_name_entries);
 
                             let lookup_name: Ucs2String =
diff --git a/keramics-formats/src/fat/directory_entry.rs b/keramics-formats/src/fat/directory_entry.rs
index 2b3bf6f..19b1c58 100644
--- a/keramics-formats/src/fat/directory_entry.rs
+++ b/keramics-formats/src/fat/directory_entry.rs
@@ -23,7 +23,7 @@ use super::short_name_directory_entry::FatShortNameDirectoryEntry;
 #[derive(Clone)]
 pub struct FatDirectoryEntry {
     /// Identifier.
-    pub identifier: u32,
+    pub identifier: u64,
 
     /// Short name.
     pub short_name: FatShortNameDirectoryEntry,
@@ -34,7 +34,7 @@ pub struct FatDirectoryEntry {
 
 impl FatDirectoryEntry {
     /// Creates a new directory entry.
-    pub fn new(identifier: u32, short_name: FatShortNameDirectoryEntry) -> Self {
+    pub fn new(identifier: u64, short_name: FatShortNameDirectoryEntry) -> Self {
         Self {
             identifier: identifier,
             short_name: short_name,
diff --git a/keramics-formats/src/fat/file_entry.rs b/keramics-formats/src/fat/file_entry.rs
index af1c7c7..d47a2fe 100644
--- a/keramics-formats/src/fat/file_entry.rs
+++ b/keramics-formats/src/fat/file_entry.rs
@@ -32,7 +32,7 @@ pub struct FatFileEntry {
     block_allocation_table: Arc<FatBlockAllocationTable>,
 
     /// The identifier.
-    pub identifier: u32,
+    pub identifier: u64,
 
     /// The directory entry.
     directory_entry: Option<FatDirectoryEntry>,
@@ -46,7 +46,7 @@ impl FatFileEntry {
     pub(super) fn new(
         data_stream: &DataStreamReference,
         block_allocation_table: &Arc<FatBlockAllocationTable>,
-        identifier: u32,
+        identifier: u64,
         directory_entry: Option<FatDirectoryEntry>,
         sub_directory_entries: FatDirectoryEntries,
     ) -> Self {
diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index 867bdb9..4af4ee0 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -113,9 +113,9 @@ impl FatFileSystem {
     /// Retrieves the file entry for a specific identifier (inode number).
     pub fn get_file_entry_by_identifier(
         &self,
-        file_entry_identifier: u32,
+        file_entry_identifier: u64,
     ) -> Result<FatFileEntry, ErrorTrace> {
-        if (file_entry_identifier as u64) == self.root_directory_offset {
+        if file_entry_identifier == self.root_directory_offset {
             return self.get_root_directory();
         }
         let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
@@ -216,7 +216,7 @@ impl FatFileSystem {
         Ok(FatFileEntry::new(
             data_stream,
             block_allocation_table,
-            self.root_directory_offset as u32,
+            self.root_directory_offset,
             None,
             directory_entries,
         ))
@@ -243,13 +243,12 @@ impl FatFileSystem {
     fn read_directory_entry_by_identifier(
         &self,
         data_stream: &DataStreamReference,
-        file_entry_identifier: u32,
+        file_entry_identifier: u64,
     ) -> Result<FatDirectoryEntry, ErrorTrace> {
         // TODO: move code into DirectoryEntryScanner
         let mut short_name_entry: FatShortNameDirectoryEntry = FatShortNameDirectoryEntry::new();
 
-        match short_name_entry
-            .read_at_position(data_stream, SeekFrom::Start(file_entry_identifier as u64))
+        match short_name_entry.read_at_position(data_stream, SeekFrom::Start(file_entry_identifier))
         {
             Ok(_) => {}
             Err(mut error) => {
@@ -263,12 +262,12 @@ impl FatFileSystem {
                 return Err(error);
             }
         }
-        let mut directory_entry_offset: u64 = (file_entry_identifier as u64) - 32;
+        let mut directory_entry_offset: u64 = file_entry_identifier - 32;
 
         let cluster_block_number: u32 = if directory_entry_offset < self.first_cluster_offset {
             0
         } else {
-            (2 + ((file_entry_identifier as u64) - self.first_cluster_offset)
+            (2 + (file_entry_identifier - self.first_cluster_offset)
                 / (self.cluster_block_size as u64)) as u32
         };
         let first_directory_entry_offset: u64 =
diff --git a/keramics-tools/src/info/fat.rs b/keramics-tools/src/info/fat.rs
index 193d065..9a94b21 100644
--- a/keramics-tools/src/info/fat.rs
+++ b/keramics-tools/src/info/fat.rs
@@ -136,14 +136,8 @@ impl FatInfo {
                 return Err(error);
             }
         }
-        if fat_entry_identifier > u32::MAX as u64 {
-            return Err(keramics_core::error_trace_new!(format!(
-                "Unsupported identifier: {} value out of bounds",
-                fat_entry_identifier
-            )));
-        }
         let mut file_entry: FatFileEntry =
-            match fat_file_system.get_file_entry_by_identifier(fat_entry_identifier as u32) {
+            match fat_file_system.get_file_entry_by_identifier(fat_entry_identifier) {
                 Ok(file_entry) => file_entry,
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
-- 
2.43.0


From 073df97864b15a4f27e22ec75b79af7d6bea6ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 095/156] fix: fat: retrieve an entry by identifier whose long
 name starts in the previous cluster, and refuse an identifier outside of the
 directories

---
 .../src/fat/block_allocation_table.rs         | 25 +++++
 keramics-formats/src/fat/file_system.rs       | 94 ++++++++++++++-----
 2 files changed, 95 insertions(+), 24 deletions(-)

diff --git a/keramics-formats/src/fat/block_allocation_table.rs b/keramics-formats/src/fat/block_allocation_table.rs
index f5b4b8b..7477f53 100644
--- a/keramics-formats/src/fat/block_allocation_table.rs
+++ b/keramics-formats/src/fat/block_allocation_table.rs
@@ -68,6 +68,31 @@ impl FatBlockAllocationTable {
         }
     }
 
+    /// Retrieves the cluster block number that precedes a specific cluster block number.
+    pub fn get_previous_cluster_block_number(
+        &self,
+        data_stream: &DataStreamReference,
+        cluster_block_number: u32,
+    ) -> Result<Option<u32>, ErrorTrace> {
+        for entry_index in 2..self.number_of_entries {
+            match self.read_entry(data_stream, entry_index) {
+                Ok(entry) => {
+                    if entry == cluster_block_number {
+                        return Ok(Some(entry_index));
+                    }
+                }
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        format!("Unable to read entry: {}", entry_index)
+                    );
+                    return Err(error);
+                }
+            }
+        }
+        Ok(None)
+    }
+
     /// Reads a block allocation table entry.
     pub fn read_entry(
         &self,
diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index 4af4ee0..81cb9cc 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -245,6 +245,46 @@ impl FatFileSystem {
         data_stream: &DataStreamReference,
         file_entry_identifier: u64,
     ) -> Result<FatDirectoryEntry, ErrorTrace> {
+        let block_allocation_table: &Arc<FatBlockAllocationTable> =
+            match self.block_allocation_table.as_ref() {
+                Some(block_allocation_table) => block_allocation_table,
+                None => {
+                    return Err(keramics_core::error_trace_new!(
+                        "Missing block allocation table"
+                    ));
+                }
+            };
+        let root_directory_end_offset: u64 =
+            self.root_directory_offset + (self.root_directory_size as u64);
+
+        // Note that a cluster block number of 0 represents the FAT-12 or FAT-16 root directory.
+        let (mut cluster_block_number, mut first_directory_entry_offset): (u32, u64) =
+            if file_entry_identifier >= self.first_cluster_offset {
+                let cluster_block_index: u64 = (file_entry_identifier - self.first_cluster_offset)
+                    / (self.cluster_block_size as u64);
+
+                if cluster_block_index > (u32::MAX as u64) - 2 {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Unsupported identifier: {} value out of bounds",
+                        file_entry_identifier
+                    )));
+                }
+                (
+                    (cluster_block_index as u32) + 2,
+                    self.first_cluster_offset
+                        + (cluster_block_index * (self.cluster_block_size as u64)),
+                )
+            } else if file_entry_identifier >= self.root_directory_offset
+                && file_entry_identifier < root_directory_end_offset
+            {
+                (0, self.root_directory_offset)
+            } else {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported identifier: {} value out of bounds",
+                    file_entry_identifier
+                )));
+            };
+
         // TODO: move code into DirectoryEntryScanner
         let mut short_name_entry: FatShortNameDirectoryEntry = FatShortNameDirectoryEntry::new();
 
@@ -262,27 +302,38 @@ impl FatFileSystem {
                 return Err(error);
             }
         }
-        let mut directory_entry_offset: u64 = file_entry_identifier - 32;
-
-        let cluster_block_number: u32 = if directory_entry_offset < self.first_cluster_offset {
-            0
-        } else {
-            (2 + (file_entry_identifier - self.first_cluster_offset)
-                / (self.cluster_block_size as u64)) as u32
-        };
-        let first_directory_entry_offset: u64 =
-            if directory_entry_offset < self.first_cluster_offset {
-                self.root_directory_offset
-            } else {
-                self.first_cluster_offset
-                    + (((cluster_block_number - 2) as u64) * (self.cluster_block_size as u64))
-            };
+        let mut directory_entry_offset: u64 = file_entry_identifier;
         let mut last_vfat_sequence_number: u8 = 0;
         let mut long_name_entries: Vec<FatLongNameDirectoryEntry> = Vec::new();
         let mut last_entry: bool = false;
         let mut data: [u8; 32] = [0; 32];
 
-        while directory_entry_offset >= first_directory_entry_offset {
+        loop {
+            if directory_entry_offset < first_directory_entry_offset + 32 {
+                // The preceding directory entry is stored in the previous cluster block.
+                if cluster_block_number == 0 {
+                    break;
+                }
+                cluster_block_number = match block_allocation_table
+                    .get_previous_cluster_block_number(data_stream, cluster_block_number)
+                {
+                    Ok(Some(cluster_block_number)) => cluster_block_number,
+                    Ok(None) => break,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to determine previous cluster block number"
+                        );
+                        return Err(error);
+                    }
+                };
+                first_directory_entry_offset = self.first_cluster_offset
+                    + (((cluster_block_number - 2) as u64) * (self.cluster_block_size as u64));
+                directory_entry_offset =
+                    first_directory_entry_offset + (self.cluster_block_size as u64);
+            }
+            directory_entry_offset -= 32;
+
             keramics_core::data_stream_read_exact_at_position!(
                 data_stream,
                 &mut data,
@@ -334,19 +385,14 @@ impl FatFileSystem {
             if last_entry {
                 break;
             }
-            directory_entry_offset -= 32;
-        }
-        if !last_entry {
-            // TODO: determine previous cluster block.
         }
         let mut directory_entry: FatDirectoryEntry =
             FatDirectoryEntry::new(file_entry_identifier, short_name_entry);
 
-        if last_vfat_sequence_number & 0x40 == 0 {
-            long_name_entries.reverse();
+        long_name_entries.reverse();
+
+        directory_entry.set_long_name(&mut long_name_entries);
 
-            directory_entry.set_long_name(&mut long_name_entries);
-        }
         Ok(directory_entry)
     }
 
-- 
2.43.0


From 9f67fe34ed70f02f289516b899007a172046f85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 096/156] fix: ext: count block groups from the first data
 block, and use only the primary group descriptors

---
 keramics-formats/src/ext/constants.rs         |   3 +
 keramics-formats/src/ext/file_system.rs       | 339 +++++++-----------
 .../src/ext/group_descriptor_table.rs         |   9 +
 keramics-formats/src/ext/superblock.rs        |  31 +-
 4 files changed, 178 insertions(+), 204 deletions(-)

diff --git a/keramics-formats/src/ext/constants.rs b/keramics-formats/src/ext/constants.rs
index 94704fe..5b4a383 100644
--- a/keramics-formats/src/ext/constants.rs
+++ b/keramics-formats/src/ext/constants.rs
@@ -20,6 +20,9 @@ pub(super) const EXT_EXTENTS_HEADER_SIGNATURE: [u8; 2] = [0x0a, 0xf3];
 /// ext attribute inode or block header signature: "\x00\x00\x02\xea"
 pub(super) const EXT_ATTRIBUTES_HEADER_SIGNATURE: [u8; 4] = [0x00, 0x00, 0x02, 0xea];
 
+/// Maximum number of bits to shift 1024 to determine the block size (64 KiB).
+pub(super) const EXT_MAXIMUM_BLOCK_SIZE_SHIFT: u32 = 6;
+
 /// ext compatible feature flags
 pub const EXT_COMPATIBLE_FEATURE_FLAG_SPARSE_SUPERBLOCK2: u32 = 0x00000200;
 
diff --git a/keramics-formats/src/ext/file_system.rs b/keramics-formats/src/ext/file_system.rs
index ffd764c..3d9baff 100644
--- a/keramics-formats/src/ext/file_system.rs
+++ b/keramics-formats/src/ext/file_system.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::Arc;
 
@@ -89,6 +90,38 @@ impl ExtFileSystem {
         }
     }
 
+    /// Determines if a block group has a superblock.
+    fn block_group_has_superblock(
+        &self,
+        block_group_number: u64,
+        backup_block_groups: &[u32; 2],
+    ) -> bool {
+        // The first block group will always contain a superblock.
+        if block_group_number == 0 {
+            return true;
+        }
+        // The sparse superblock version 2 feature takes precedence over the sparse superblock
+        // feature.
+        if self.features.has_sparse_superblock2() {
+            return backup_block_groups
+                .iter()
+                .any(|backup_block_group| *backup_block_group as u64 == block_group_number);
+        }
+        // If sparse superblock feature is disabled all block groups contain a superblock.
+        if !self.features.has_sparse_superblock() {
+            return true;
+        }
+        // Only block group numbers that are a power of 3, 5 or 7 contain a superblock.
+        [3, 5, 7].iter().any(|base| {
+            let mut value: u64 = 1;
+
+            while value < block_group_number {
+                value *= base;
+            }
+            value == block_group_number
+        })
+    }
+
     /// Retrieves the format version.
     pub fn get_format_version(&self) -> u8 {
         self.features.get_format_version()
@@ -238,223 +271,125 @@ impl ExtFileSystem {
 
     /// Reads the block groups.
     fn read_block_groups(&mut self, data_stream: &DataStreamReference) -> Result<(), ErrorTrace> {
-        let mut block_group_number: u32 = 0;
-        let mut block_group_offset: u64 = 0;
-        let mut block_group_size: u64 = 0;
-        let mut exponent3: u32 = 3;
-        let mut exponent5: u32 = 5;
-        let mut exponent7: u32 = 7;
-        let mut meta_group_number: u32 = 0;
-        let mut meta_group_start_block_number: u32 = 0;
-        let mut number_of_block_groups: u64 = 0;
-        let mut number_of_block_groups_per_meta_group: u32 = 0;
-        let mut number_of_inodes_per_block_group: u32 = 0;
-        let mut group_descriptors: Vec<ExtGroupDescriptor> = Vec::new();
+        // The backups of the superblock and group descriptor table are not read, since they can
+        // be empty, outdated or contain remnant data.
+        let mut superblock: ExtSuperblock = ExtSuperblock::new(&self.character_encoding);
 
-        loop {
-            if exponent3 < block_group_number {
-                exponent3 *= 3;
-            }
-            if exponent5 < block_group_number {
-                exponent5 *= 5;
-            }
-            if exponent7 < block_group_number {
-                exponent7 *= 7;
+        match superblock.read_at_position(data_stream, SeekFrom::Start(1024)) {
+            Ok(_) => {}
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(
+                    error,
+                    "Unable to read superblock at offset: 1024 (0x00000400)"
+                );
+                return Err(error);
             }
-            // The first block group will always contain a superblock.
-            let block_group_has_superblock: bool = if block_group_number == 0 {
-                true
-            // If sparse superblock feature is disabled all block groups contain a superblock.
-            } else if !self.features.has_sparse_superblock() {
-                true
-            // TODO: add support for sparse superblock version 2
-            } else if self.features.has_sparse_superblock2() {
-                false
-            // Only block group numbers that are a power of 3, 5 or 7 contain a superblock.
-            } else if block_group_number == 1
-                || block_group_number == exponent3
-                || block_group_number == exponent5
-                || block_group_number == exponent7
-            {
-                true
-            } else {
-                false
-            };
-            if block_group_has_superblock {
-                let mut superblock_offset: u64 = block_group_offset;
-
-                if block_group_offset == 0 || self.block_size == 1024 {
-                    superblock_offset += 1024;
-                }
-                if block_group_number == 0 {
-                    let mut superblock: ExtSuperblock =
-                        ExtSuperblock::new(&self.character_encoding);
-
-                    match superblock
-                        .read_at_position(data_stream, SeekFrom::Start(superblock_offset))
-                    {
-                        Ok(_) => {}
-                        Err(mut error) => {
-                            keramics_core::error_trace_add_frame!(
-                                error,
-                                format!(
-                                    "Unable to read superblock at offset: {} (0x{:08x})",
-                                    superblock_offset, superblock_offset
-                                )
-                            );
-                            return Err(error);
-                        }
-                    }
-                    self.features.initialize(&superblock);
+        }
+        self.features.initialize(&superblock);
 
-                    number_of_block_groups = superblock.get_number_of_block_groups();
-                    block_group_size = superblock.get_block_group_size();
+        let number_of_block_groups: u64 = superblock.get_number_of_block_groups();
+        let block_group_size: u64 = superblock.get_block_group_size();
+        let number_of_inodes_per_block_group: u32 = superblock.number_of_inodes_per_block_group;
+        let backup_block_groups: [u32; 2] = superblock.backup_block_groups;
 
-                    self.number_of_inodes = superblock.number_of_inodes;
-                    self.block_size = superblock.block_size;
-                    self.inode_size = superblock.inode_size;
+        self.number_of_inodes = superblock.number_of_inodes;
+        self.block_size = superblock.block_size;
+        self.inode_size = superblock.inode_size;
 
-                    if !superblock.volume_label.is_empty() {
-                        self.volume_label = Some(superblock.volume_label);
-                    }
-                    // TODO: change to ExtPath
-                    self.last_mount_path = superblock.last_mount_path;
+        if !superblock.volume_label.is_empty() {
+            self.volume_label = Some(superblock.volume_label);
+        }
+        // TODO: change to ExtPath
+        self.last_mount_path = superblock.last_mount_path;
 
-                    if superblock.last_mount_time.timestamp != 0 {
-                        self.last_mount_time = DateTime::PosixTime32(superblock.last_mount_time);
-                    }
-                    if superblock.last_written_time.timestamp != 0 {
-                        self.last_written_time =
-                            DateTime::PosixTime32(superblock.last_written_time);
-                    }
-                    number_of_inodes_per_block_group = superblock.number_of_inodes_per_block_group;
-
-                    if self.features.has_meta_block_groups() {
-                        let group_descriptor_size: u32 = self.features.get_group_descriptor_size();
-                        number_of_block_groups_per_meta_group =
-                            superblock.block_size / group_descriptor_size;
-                        meta_group_start_block_number = superblock.first_meta_block_group
-                            * number_of_block_groups_per_meta_group;
-                    }
-                    self.metadata_checksum_seed = match superblock.metadata_checksum_seed {
-                        Some(metadata_checksum_seed) => metadata_checksum_seed,
-                        None => {
-                            let mut crc32_context: ReversedCrc32Context =
-                                ReversedCrc32Context::new(0x82f63b78, 0);
-                            crc32_context.update(&superblock.file_system_identifier);
-                            crc32_context.finalize()
-                        }
-                    };
-                } else {
-                    let mut superblock: ExtSuperblock =
-                        ExtSuperblock::new(&self.character_encoding);
-
-                    match superblock
-                        .read_at_position(data_stream, SeekFrom::Start(superblock_offset))
-                    {
-                        Ok(_) => {
-                            // TODO: compare superblock
-                        }
-                        // Ignore backup superblocks without a correct signature.
-                        Err(_) => {}
-                    }
-                }
-            }
-            // When the has meta block groups feature is enabled group descriptors are stored at the
-            // beginning of the first, second, and last block groups in a meta block group,
-            // independent of a superblock. Otherwise group descriptors are stored in the first
-            // block after a superblock.
-            let mut block_group_has_group_descriptors: bool = false;
-            let mut meta_group_block_group_number: u32 = 0;
-
-            if !self.features.has_meta_block_groups()
-                || block_group_number < meta_group_start_block_number
-            {
-                block_group_has_group_descriptors = block_group_has_superblock;
-            } else {
-                meta_group_block_group_number =
-                    block_group_number % number_of_block_groups_per_meta_group;
-
-                if meta_group_block_group_number == 0
-                    || meta_group_block_group_number == 1
-                    || meta_group_block_group_number == number_of_block_groups_per_meta_group - 1
-                {
-                    block_group_has_group_descriptors = true;
-                }
+        if superblock.last_mount_time.timestamp != 0 {
+            self.last_mount_time = DateTime::PosixTime32(superblock.last_mount_time);
+        }
+        if superblock.last_written_time.timestamp != 0 {
+            self.last_written_time = DateTime::PosixTime32(superblock.last_written_time);
+        }
+        self.metadata_checksum_seed = match superblock.metadata_checksum_seed {
+            Some(metadata_checksum_seed) => metadata_checksum_seed,
+            None => {
+                let mut crc32_context: ReversedCrc32Context =
+                    ReversedCrc32Context::new(0x82f63b78, 0);
+                crc32_context.update(&superblock.file_system_identifier);
+                crc32_context.finalize()
             }
-            if block_group_has_group_descriptors {
-                let mut group_descriptor_offset: u64 = block_group_offset;
-
-                if self.block_size == 1024 {
-                    group_descriptor_offset += 1024;
-                }
-                if block_group_has_superblock {
-                    group_descriptor_offset += self.block_size as u64;
-                }
-                let first_group_number: u32 = if !self.features.has_meta_block_groups()
-                    || block_group_number < meta_group_start_block_number
-                {
-                    0
-                } else {
-                    meta_group_start_block_number
-                        + (meta_group_number * number_of_block_groups_per_meta_group)
-                };
-                let number_of_group_descriptors: u32 = if !self.features.has_meta_block_groups() {
-                    number_of_block_groups as u32
-                } else if block_group_number < meta_group_start_block_number {
+        };
+        let mut number_of_block_groups_per_meta_group: u64 = 0;
+        let mut meta_group_start_block_number: u64 = number_of_block_groups;
+
+        if self.features.has_meta_block_groups() {
+            number_of_block_groups_per_meta_group =
+                (self.block_size / self.features.get_group_descriptor_size()) as u64;
+            meta_group_start_block_number = min(
+                (superblock.first_meta_block_group as u64) * number_of_block_groups_per_meta_group,
+                number_of_block_groups,
+            );
+        }
+        let mut group_descriptors: Vec<ExtGroupDescriptor> = Vec::new();
+        let mut first_group_number: u64 = 0;
+
+        // When the has meta block groups feature is enabled group descriptors are stored at the
+        // beginning of the first, second, and last block groups in a meta block group,
+        // independent of a superblock. Otherwise group descriptors are stored in the first
+        // block after a superblock.
+        while first_group_number < number_of_block_groups {
+            let number_of_group_descriptors: u64 =
+                if first_group_number < meta_group_start_block_number {
                     meta_group_start_block_number
                 } else {
-                    number_of_block_groups_per_meta_group
+                    min(
+                        number_of_block_groups_per_meta_group,
+                        number_of_block_groups - first_group_number,
+                    )
                 };
-                let mut group_descriptor_table: ExtGroupDescriptorTable =
-                    ExtGroupDescriptorTable::new();
-                group_descriptor_table.initialize(
-                    &self.features,
-                    first_group_number,
-                    number_of_group_descriptors,
-                );
-                match group_descriptor_table
-                    .read_at_position(data_stream, SeekFrom::Start(group_descriptor_offset))
-                {
-                    Ok(_) => {}
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            format!(
-                                "Unable to read group descriptor table at offset: {} (0x{:08x})",
-                                group_descriptor_offset, group_descriptor_offset
-                            )
-                        );
-                        return Err(error);
-                    }
-                }
-                if !self.features.has_meta_block_groups()
-                    || block_group_number < meta_group_start_block_number
-                {
-                    if block_group_number == 0 {
-                        for group_descriptor in group_descriptor_table.entries.drain(0..) {
-                            group_descriptors.push(group_descriptor);
-                        }
+            let mut group_descriptor_offset: u64 =
+                match first_group_number.checked_mul(block_group_size) {
+                    Some(offset) if offset < i64::MAX as u64 => offset,
+                    _ => {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Invalid block group number: {} value out of bounds",
+                            first_group_number
+                        )));
                     }
-                } else if meta_group_block_group_number == 0 {
-                    for group_descriptor in group_descriptor_table.entries.drain(0..) {
-                        group_descriptors.push(group_descriptor);
-                    }
-                } else if meta_group_block_group_number == number_of_block_groups_per_meta_group - 1
-                {
-                    meta_group_number += 1;
                 };
+            if self.block_size == 1024 {
+                group_descriptor_offset += 1024;
             }
-            // TODO: read block bitmap for debugging purposes
-            // TODO: read inode bitmap for debugging purposes
-
-            block_group_number += 1;
-            block_group_offset += block_group_size;
-
-            if block_group_number as u64 >= number_of_block_groups {
-                break;
+            if self.block_group_has_superblock(first_group_number, &backup_block_groups) {
+                group_descriptor_offset += self.block_size as u64;
+            }
+            let mut group_descriptor_table: ExtGroupDescriptorTable =
+                ExtGroupDescriptorTable::new();
+            group_descriptor_table.initialize(
+                &self.features,
+                first_group_number as u32,
+                number_of_group_descriptors as u32,
+            );
+            match group_descriptor_table
+                .read_at_position(data_stream, SeekFrom::Start(group_descriptor_offset))
+            {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        format!(
+                            "Unable to read group descriptor table at offset: {} (0x{:08x})",
+                            group_descriptor_offset, group_descriptor_offset
+                        )
+                    );
+                    return Err(error);
+                }
             }
+            group_descriptors.append(&mut group_descriptor_table.entries);
+
+            first_group_number += number_of_group_descriptors;
         }
+        // TODO: read block bitmap for debugging purposes
+        // TODO: read inode bitmap for debugging purposes
+
         if number_of_inodes_per_block_group > 0 {
             match Arc::get_mut(&mut self.inode_table) {
                 Some(inode_table) => match inode_table.initialize(
diff --git a/keramics-formats/src/ext/group_descriptor_table.rs b/keramics-formats/src/ext/group_descriptor_table.rs
index d0c8d86..dc944a7 100644
--- a/keramics-formats/src/ext/group_descriptor_table.rs
+++ b/keramics-formats/src/ext/group_descriptor_table.rs
@@ -142,6 +142,15 @@ impl ExtGroupDescriptorTable {
     ) -> Result<(), ErrorTrace> {
         let data_size: usize =
             (self.number_of_group_descriptors as usize) * self.group_descriptor_size;
+
+        let data_stream_size: u64 = keramics_core::data_stream_get_size!(data_stream);
+
+        if (data_size as u64) > data_stream_size {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of group descriptors: {} value out of bounds",
+                self.number_of_group_descriptors
+            )));
+        }
         let mut data: Vec<u8> = vec![0; data_size];
 
         let offset: u64 =
diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index 9ed7ebe..245e88b 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -144,6 +144,9 @@ pub struct ExtSuperblock {
     /// Number of blocks.
     pub number_of_blocks: u64,
 
+    /// First data block number.
+    pub first_data_block_number: u32,
+
     /// Block size.
     pub block_size: u32,
 
@@ -192,6 +195,9 @@ pub struct ExtSuperblock {
     /// Number of block groups per flex group.
     pub number_of_block_groups_per_flex_group: u32,
 
+    /// Numbers of the block groups with a backup (sparse superblock version 2).
+    pub backup_block_groups: [u32; 2],
+
     /// Metadata checksum seed.
     pub metadata_checksum_seed: Option<u32>,
 }
@@ -202,6 +208,7 @@ impl ExtSuperblock {
         Self {
             number_of_inodes: 0,
             number_of_blocks: 0,
+            first_data_block_number: 0,
             block_size: 0,
             number_of_blocks_per_block_group: 0,
             number_of_inodes_per_block_group: 0,
@@ -218,6 +225,7 @@ impl ExtSuperblock {
             group_descriptor_size: 0,
             number_of_block_groups_per_flex_group: 0,
             first_meta_block_group: 0,
+            backup_block_groups: [0; 2],
             metadata_checksum_seed: None,
         }
     }
@@ -257,9 +265,17 @@ impl ExtSuperblock {
                 self.number_of_blocks
             )));
         }
+        self.first_data_block_number = bytes_to_u32_le!(data, 20);
+
+        if (self.first_data_block_number as u64) >= self.number_of_blocks {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid first data block number: {} value out of bounds",
+                self.first_data_block_number
+            )));
+        }
         self.block_size = bytes_to_u32_le!(data, 24);
 
-        if self.block_size > 32 - 10 {
+        if self.block_size > EXT_MAXIMUM_BLOCK_SIZE_SHIFT {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid block size: {} value out of bounds",
                 self.block_size
@@ -275,6 +291,14 @@ impl ExtSuperblock {
                 self.number_of_blocks_per_block_group
             )));
         }
+        let number_of_block_groups: u64 = self.get_number_of_block_groups();
+
+        if number_of_block_groups > u32::MAX as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of block groups: {} value out of bounds",
+                number_of_block_groups
+            )));
+        }
         self.number_of_inodes_per_block_group = bytes_to_u32_le!(data, 40);
 
         if self.incompatible_feature_flags & EXT_INCOMPATIBLE_FEATURE_FLAG_JOURNAL_DEVICE == 0 {
@@ -294,6 +318,8 @@ impl ExtSuperblock {
         self.volume_label = ByteString::from(&data[120..136]);
         self.last_mount_path = ByteString::from(&data[136..200]);
 
+        self.backup_block_groups = [bytes_to_u32_le!(data, 588), bytes_to_u32_le!(data, 592)];
+
         let number_of_block_groups_per_flex_group: u8 = data[372];
         if number_of_block_groups_per_flex_group >= 16 {
             return Err(keramics_core::error_trace_new!(format!(
@@ -347,7 +373,8 @@ impl ExtSuperblock {
 
     /// Retrieves the number of block groups.
     pub fn get_number_of_block_groups(&self) -> u64 {
-        self.number_of_blocks
+        // The block groups start at the first data block.
+        (self.number_of_blocks - (self.first_data_block_number as u64))
             .div_ceil(self.number_of_blocks_per_block_group as u64)
     }
 }
-- 
2.43.0


From 79be0ba89a7bfeedc757716a8bc29f7af06319b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 097/156] fix: ext: the inode size of format revision 0 is 128
 bytes, and refuse other than powers of 2

---
 keramics-formats/src/ext/superblock.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index 245e88b..9255dec 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -311,7 +311,22 @@ impl ExtSuperblock {
         }
         self.last_mount_time = PosixTime32::from_le_bytes(&data[44..48]);
         self.last_written_time = PosixTime32::from_le_bytes(&data[48..52]);
-        self.inode_size = bytes_to_u16_le!(data, 88);
+        // The inode size is fixed in format revision 0.
+        self.inode_size = if self.format_revision == 0 {
+            128
+        } else {
+            bytes_to_u16_le!(data, 88)
+        };
+        if self.number_of_inodes_per_block_group > 0
+            && (self.inode_size < 128
+                || !self.inode_size.is_power_of_two()
+                || self.inode_size as u32 > self.block_size)
+        {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid inode size: {} value out of bounds",
+                self.inode_size
+            )));
+        }
         self.group_descriptor_size = bytes_to_u16_le!(data, 254);
         self.first_meta_block_group = bytes_to_u32_le!(data, 260);
         self.file_system_identifier.copy_from_slice(&data[104..120]);
-- 
2.43.0


From f67dcea6749082e9d44679e9f8563e0945c46c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 098/156] fix: ext: use the group descriptor size of the
 superblock

---
 keramics-formats/src/ext/features.rs            | 17 ++++++++++++-----
 .../src/ext/group_descriptor_ext4.rs            |  2 +-
 keramics-formats/src/ext/superblock.rs          | 10 ++++++++++
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/ext/features.rs b/keramics-formats/src/ext/features.rs
index af97388..3048417 100644
--- a/keramics-formats/src/ext/features.rs
+++ b/keramics-formats/src/ext/features.rs
@@ -27,6 +27,9 @@ pub struct ExtFeatures {
     /// Read-only compatible feature flags.
     pub read_only_compatible_feature_flags: u32,
 
+    /// Group descriptor size.
+    group_descriptor_size: u32,
+
     /// Metadata checksum seed.
     metadata_checksum_seed: Option<u32>,
 }
@@ -38,6 +41,7 @@ impl ExtFeatures {
             compatible_feature_flags: 0,
             incompatible_feature_flags: 0,
             read_only_compatible_feature_flags: 0,
+            group_descriptor_size: 32,
             metadata_checksum_seed: None,
         }
     }
@@ -48,6 +52,13 @@ impl ExtFeatures {
         self.incompatible_feature_flags = superblock.incompatible_feature_flags;
         self.read_only_compatible_feature_flags = superblock.read_only_compatible_feature_flags;
 
+        self.group_descriptor_size =
+            if self.incompatible_feature_flags & EXT_INCOMPATIBLE_FEATURE_FLAG_64BIT_SUPPORT != 0 {
+                superblock.group_descriptor_size as u32
+            } else {
+                32
+            };
+
         if superblock.read_only_compatible_feature_flags
             & EXT_READ_ONLY_COMPATIBLE_FEATURE_FLAG_METADATA_CHECKSUM
             != 0
@@ -78,11 +89,7 @@ impl ExtFeatures {
 
     /// Retrieves the group descriptor size.
     pub fn get_group_descriptor_size(&self) -> u32 {
-        if self.incompatible_feature_flags & EXT_INCOMPATIBLE_FEATURE_FLAG_64BIT_SUPPORT != 0 {
-            64
-        } else {
-            32
-        }
+        self.group_descriptor_size
     }
 
     /// Retrieves the metadata checksum seed.
diff --git a/keramics-formats/src/ext/group_descriptor_ext4.rs b/keramics-formats/src/ext/group_descriptor_ext4.rs
index e667621..d68b5d3 100644
--- a/keramics-formats/src/ext/group_descriptor_ext4.rs
+++ b/keramics-formats/src/ext/group_descriptor_ext4.rs
@@ -76,7 +76,7 @@ impl Ext4GroupDescriptor {
         data: &[u8],
     ) -> Result<(), ErrorTrace> {
         let data_size: usize = data.len();
-        if data_size != 32 && data_size != 64 {
+        if data_size != 32 && data_size < 64 {
             return Err(keramics_core::error_trace_new!(
                 "Unsupported group descriptor data size"
             ));
diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index 9255dec..8f9374d 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -328,6 +328,16 @@ impl ExtSuperblock {
             )));
         }
         self.group_descriptor_size = bytes_to_u16_le!(data, 254);
+        if self.incompatible_feature_flags & EXT_INCOMPATIBLE_FEATURE_FLAG_64BIT_SUPPORT != 0
+            && (self.group_descriptor_size < 32
+                || !self.group_descriptor_size.is_power_of_two()
+                || self.group_descriptor_size as u32 > self.block_size)
+        {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid group descriptor size: {} value out of bounds",
+                self.group_descriptor_size
+            )));
+        }
         self.first_meta_block_group = bytes_to_u32_le!(data, 260);
         self.file_system_identifier.copy_from_slice(&data[104..120]);
         self.volume_label = ByteString::from(&data[120..136]);
-- 
2.43.0


From 8d10ec5f4af8ead651e19aa39666249694883172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 099/156] fix: ext: support flex block groups of more than
 32768 block groups

---
 keramics-formats/src/ext/superblock.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index 8f9374d..d2b0d16 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -11,6 +11,8 @@
  * under the License.
  */
 
+use std::cmp::min;
+
 use keramics_checksums::ReversedCrc32Context;
 use keramics_core::ErrorTrace;
 use keramics_datetime::PosixTime32;
@@ -346,14 +348,17 @@ impl ExtSuperblock {
         self.backup_block_groups = [bytes_to_u32_le!(data, 588), bytes_to_u32_le!(data, 592)];
 
         let number_of_block_groups_per_flex_group: u8 = data[372];
-        if number_of_block_groups_per_flex_group >= 16 {
+        if number_of_block_groups_per_flex_group >= 32
+            && self.incompatible_feature_flags & EXT_INCOMPATIBLE_FEATURE_FLAG_HAS_FLEX_BLOCK_GROUPS
+                != 0
+        {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid number of blocks per flex group: {} value out of bounds",
                 number_of_block_groups_per_flex_group,
             )));
         }
         self.number_of_block_groups_per_flex_group =
-            1 << (number_of_block_groups_per_flex_group as u32);
+            1 << min(number_of_block_groups_per_flex_group as u32, 31);
 
         if self.incompatible_feature_flags
             & EXT_INCOMPATIBLE_FEATURE_FLAG_HAS_METADATA_CHECKSUM_SEED
-- 
2.43.0


From fd74fc313da18a386c57e2a470abd8d1bb9d884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 100/156] fix: ext: use the metadata checksum seed of the
 superblock

---
 keramics-formats/src/ext/features.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/ext/features.rs b/keramics-formats/src/ext/features.rs
index 3048417..7d69249 100644
--- a/keramics-formats/src/ext/features.rs
+++ b/keramics-formats/src/ext/features.rs
@@ -63,11 +63,16 @@ impl ExtFeatures {
             & EXT_READ_ONLY_COMPATIBLE_FEATURE_FLAG_METADATA_CHECKSUM
             != 0
         {
-            let mut crc32_context: ReversedCrc32Context = ReversedCrc32Context::new(0x82f63b78, 0);
-            crc32_context.update(&superblock.file_system_identifier);
-            let checksum: u32 = crc32_context.finalize();
-
-            self.metadata_checksum_seed = Some(checksum);
+            let checksum_seed: u32 = match superblock.metadata_checksum_seed {
+                Some(metadata_checksum_seed) => metadata_checksum_seed,
+                None => {
+                    let mut crc32_context: ReversedCrc32Context =
+                        ReversedCrc32Context::new(0x82f63b78, 0);
+                    crc32_context.update(&superblock.file_system_identifier);
+                    crc32_context.finalize()
+                }
+            };
+            self.metadata_checksum_seed = Some(checksum_seed);
         }
     }
 
-- 
2.43.0


From 3386d98f76cc27fc320cc81ed2e312e64aa551ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 101/156] fix: ext: volumes with metadata checksums or case
 folding are ext4

---
 keramics-formats/src/ext/features.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ext/features.rs b/keramics-formats/src/ext/features.rs
index 7d69249..a6cf2cf 100644
--- a/keramics-formats/src/ext/features.rs
+++ b/keramics-formats/src/ext/features.rs
@@ -79,8 +79,8 @@ impl ExtFeatures {
     /// Retrieves the format version.
     pub fn get_format_version(&self) -> u8 {
         if self.compatible_feature_flags & 0x00000200 != 0
-            || self.incompatible_feature_flags & 0x0001f7c0 != 0
-            || self.read_only_compatible_feature_flags & 0x00000378 != 0
+            || self.incompatible_feature_flags & 0x0003f7c0 != 0
+            || self.read_only_compatible_feature_flags & 0x00000778 != 0
         {
             4
         } else if self.compatible_feature_flags & 0x00000004 != 0
-- 
2.43.0


From ae8cd61e022633af316f547f345e6816fc363e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 102/156] fix: ext: keep the character encoding of the volume
 label, last mount path and symbolic link targets

---
 keramics-formats/src/ext/file_entry.rs | 11 +++++++----
 keramics-formats/src/ext/superblock.rs |  4 ++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/ext/file_entry.rs b/keramics-formats/src/ext/file_entry.rs
index 0f81159..70669c3 100644
--- a/keramics-formats/src/ext/file_entry.rs
+++ b/keramics-formats/src/ext/file_entry.rs
@@ -157,8 +157,11 @@ impl ExtFileEntry {
                     self.inode.data_size,
                 )));
             }
-            let byte_string: ByteString = if self.inode.data_size < 60 {
-                ByteString::from(self.inode.data_reference.as_slice())
+            let mut byte_string: ByteString =
+                ByteString::new_with_encoding(&self.sub_directory_entries.encoding);
+
+            if self.inode.data_size < 60 {
+                byte_string.read_data(&self.inode.data_reference[..self.inode.data_size as usize]);
             } else {
                 let number_of_blocks: u64 = max(
                     self.inode
@@ -192,8 +195,8 @@ impl ExtFileEntry {
                         return Err(error);
                     }
                 }
-                ByteString::from(&data)
-            };
+                byte_string.read_data(&data);
+            }
             self.symbolic_link_target = Some(byte_string);
         }
         Ok(self.symbolic_link_target.as_ref())
diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index d2b0d16..8fc7aa3 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -342,8 +342,8 @@ impl ExtSuperblock {
         }
         self.first_meta_block_group = bytes_to_u32_le!(data, 260);
         self.file_system_identifier.copy_from_slice(&data[104..120]);
-        self.volume_label = ByteString::from(&data[120..136]);
-        self.last_mount_path = ByteString::from(&data[136..200]);
+        self.volume_label.read_data(&data[120..136]);
+        self.last_mount_path.read_data(&data[136..200]);
 
         self.backup_block_groups = [bytes_to_u32_le!(data, 588), bytes_to_u32_le!(data, 592)];
 
-- 
2.43.0


From 677350f0204b807113ca19d028be30c8455bd2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 103/156] fix: ext: dates before 1970, and creation dates after
 2038

---
 keramics-formats/src/ext/inode_ext2.rs           | 8 ++++----
 keramics-formats/src/ext/inode_ext3.rs           | 8 ++++----
 keramics-formats/src/ext/inode_ext4.rs           | 8 ++++----
 keramics-formats/src/ext/inode_extension_ext4.rs | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/keramics-formats/src/ext/inode_ext2.rs b/keramics-formats/src/ext/inode_ext2.rs
index 78a1eb4..2043fb6 100644
--- a/keramics-formats/src/ext/inode_ext2.rs
+++ b/keramics-formats/src/ext/inode_ext2.rs
@@ -72,20 +72,20 @@ impl Ext2Inode {
         inode.data_size = bytes_to_u32_le!(data, 4) as u64;
 
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
-        if inode.access_timestamp > 0 {
+        if inode.access_timestamp != 0 {
             inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
         }
         inode.change_timestamp = bytes_to_i32_le!(data, 12);
-        if inode.change_timestamp > 0 {
+        if inode.change_timestamp != 0 {
             inode.change_time = DateTime::PosixTime32(PosixTime32::new(inode.change_timestamp));
         }
         inode.modification_timestamp = bytes_to_i32_le!(data, 16);
-        if inode.modification_timestamp > 0 {
+        if inode.modification_timestamp != 0 {
             inode.modification_time =
                 DateTime::PosixTime32(PosixTime32::new(inode.modification_timestamp));
         }
         let timestamp: i32 = bytes_to_i32_le!(data, 20);
-        if timestamp > 0 {
+        if timestamp != 0 {
             inode.deletion_time = DateTime::PosixTime32(PosixTime32::new(timestamp));
         }
         inode.number_of_links = bytes_to_u16_le!(data, 26);
diff --git a/keramics-formats/src/ext/inode_ext3.rs b/keramics-formats/src/ext/inode_ext3.rs
index 1a34cab..8179699 100644
--- a/keramics-formats/src/ext/inode_ext3.rs
+++ b/keramics-formats/src/ext/inode_ext3.rs
@@ -72,20 +72,20 @@ impl Ext3Inode {
         inode.data_size = bytes_to_u32_le!(data, 4) as u64;
 
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
-        if inode.access_timestamp > 0 {
+        if inode.access_timestamp != 0 {
             inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
         }
         inode.change_timestamp = bytes_to_i32_le!(data, 12);
-        if inode.change_timestamp > 0 {
+        if inode.change_timestamp != 0 {
             inode.change_time = DateTime::PosixTime32(PosixTime32::new(inode.change_timestamp));
         }
         inode.modification_timestamp = bytes_to_i32_le!(data, 16);
-        if inode.modification_timestamp > 0 {
+        if inode.modification_timestamp != 0 {
             inode.modification_time =
                 DateTime::PosixTime32(PosixTime32::new(inode.modification_timestamp));
         }
         let timestamp: i32 = bytes_to_i32_le!(data, 20);
-        if timestamp > 0 {
+        if timestamp != 0 {
             inode.deletion_time = DateTime::PosixTime32(PosixTime32::new(timestamp));
         }
         inode.number_of_links = bytes_to_u16_le!(data, 26);
diff --git a/keramics-formats/src/ext/inode_ext4.rs b/keramics-formats/src/ext/inode_ext4.rs
index 1ab6468..0b4d6c5 100644
--- a/keramics-formats/src/ext/inode_ext4.rs
+++ b/keramics-formats/src/ext/inode_ext4.rs
@@ -77,20 +77,20 @@ impl Ext4Inode {
 
         if inode.flags & 0x00200000 == 0 {
             inode.access_timestamp = bytes_to_i32_le!(data, 8);
-            if inode.access_timestamp > 0 {
+            if inode.access_timestamp != 0 {
                 inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
             }
             inode.change_timestamp = bytes_to_i32_le!(data, 12);
-            if inode.change_timestamp > 0 {
+            if inode.change_timestamp != 0 {
                 inode.change_time = DateTime::PosixTime32(PosixTime32::new(inode.change_timestamp));
             }
             inode.modification_timestamp = bytes_to_i32_le!(data, 16);
-            if inode.modification_timestamp > 0 {
+            if inode.modification_timestamp != 0 {
                 inode.modification_time =
                     DateTime::PosixTime32(PosixTime32::new(inode.modification_timestamp));
             }
             let timestamp: i32 = bytes_to_i32_le!(data, 20);
-            if timestamp > 0 {
+            if timestamp != 0 {
                 inode.deletion_time = DateTime::PosixTime32(PosixTime32::new(timestamp));
             }
         }
diff --git a/keramics-formats/src/ext/inode_extension_ext4.rs b/keramics-formats/src/ext/inode_extension_ext4.rs
index 1f8e848..353356b 100644
--- a/keramics-formats/src/ext/inode_extension_ext4.rs
+++ b/keramics-formats/src/ext/inode_extension_ext4.rs
@@ -68,7 +68,7 @@ impl Ext4InodeExtension {
                 let (timestamp, fraction): (i64, u32) =
                     Self::get_extra_precision_timestamp(inode.change_timestamp, extra_precision);
 
-                if timestamp > 0 {
+                if timestamp != 0 {
                     inode.change_time =
                         DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction));
                 }
@@ -80,7 +80,7 @@ impl Ext4InodeExtension {
                     extra_precision,
                 );
 
-                if timestamp > 0 {
+                if timestamp != 0 {
                     inode.modification_time =
                         DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction));
                 }
@@ -90,7 +90,7 @@ impl Ext4InodeExtension {
                 let (timestamp, fraction): (i64, u32) =
                     Self::get_extra_precision_timestamp(inode.access_timestamp, extra_precision);
 
-                if timestamp > 0 {
+                if timestamp != 0 {
                     inode.access_time =
                         DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction));
                 }
@@ -102,7 +102,7 @@ impl Ext4InodeExtension {
             let (extra_precision_timestamp, fraction): (i64, u32) =
                 Self::get_extra_precision_timestamp(timestamp, extra_precision);
 
-            if timestamp > 0 {
+            if extra_precision_timestamp != 0 {
                 inode.creation_time = Some(DateTime::PosixTime64Ns(PosixTime64Ns::new(
                     extra_precision_timestamp,
                     fraction,
-- 
2.43.0


From 2496a97d67a0401a49700f3813a7a2928f6a46bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 104/156] fix: ext: checksums of inodes of more than 128 bytes
 without upper part of the checksum

---
 keramics-formats/src/ext/inode.rs                | 4 ++++
 keramics-formats/src/ext/inode_extension_ext4.rs | 8 ++++++++
 keramics-formats/src/ext/inode_table.rs          | 9 +++++++--
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ext/inode.rs b/keramics-formats/src/ext/inode.rs
index 720728d..fd72e41 100644
--- a/keramics-formats/src/ext/inode.rs
+++ b/keramics-formats/src/ext/inode.rs
@@ -76,6 +76,9 @@ pub struct ExtInode {
     /// Checksum.
     pub checksum: u32,
 
+    /// Value to indicate the checksum has an upper part.
+    pub(super) has_checksum_upper: bool,
+
     /// Creation date and time.
     pub creation_time: Option<DateTime>,
 
@@ -106,6 +109,7 @@ impl ExtInode {
             flags: 0,
             data_reference: [0; 60],
             checksum: 0,
+            has_checksum_upper: false,
             creation_time: None,
             block_ranges: Vec::new(),
             attributes: Vec::new(),
diff --git a/keramics-formats/src/ext/inode_extension_ext4.rs b/keramics-formats/src/ext/inode_extension_ext4.rs
index 353356b..ab6c663 100644
--- a/keramics-formats/src/ext/inode_extension_ext4.rs
+++ b/keramics-formats/src/ext/inode_extension_ext4.rs
@@ -58,9 +58,17 @@ impl Ext4InodeExtension {
     pub fn read_data(inode: &mut ExtInode, data: &[u8]) -> Result<(), ErrorTrace> {
         let extra_size: u16 = bytes_to_u16_le!(data, 0);
 
+        if (extra_size as usize) > data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid extra size: {} value out of bounds",
+                extra_size
+            )));
+        }
+
         if extra_size >= 4 {
             let upper_16bit: u16 = bytes_to_u16_le!(data, 2);
             inode.checksum |= (upper_16bit as u32) << 16;
+            inode.has_checksum_upper = true;
         }
         if inode.flags & 0x00200000 == 0 {
             if extra_size >= 8 {
diff --git a/keramics-formats/src/ext/inode_table.rs b/keramics-formats/src/ext/inode_table.rs
index d656bbc..5e2005b 100644
--- a/keramics-formats/src/ext/inode_table.rs
+++ b/keramics-formats/src/ext/inode_table.rs
@@ -167,13 +167,18 @@ impl ExtInodeTable {
 
                 if inode_size > 128 {
                     crc32_context.update(&data[128..130]);
-                    crc32_context.update(&[0; 2]);
+
+                    if inode.has_checksum_upper {
+                        crc32_context.update(&[0; 2]);
+                    } else {
+                        crc32_context.update(&data[130..132]);
+                    }
                     crc32_context.update(&data[132..inode_size]);
                 }
                 let mut calculated_checksum: u32 = crc32_context.finalize();
                 calculated_checksum = 0xffffffff - calculated_checksum;
 
-                if inode_size <= 128 {
+                if !inode.has_checksum_upper {
                     calculated_checksum &= 0x0000ffff;
                 }
                 if inode.checksum != 0 && (inode.checksum as u32) != calculated_checksum {
-- 
2.43.0


From 9a85c6fa674f48b055bca9b92a57ca048d86f914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 105/156] fix: ext: sizes of 4 GiB and more of ext2 and ext3
 files

---
 keramics-formats/src/ext/inode_ext2.rs | 7 +++++++
 keramics-formats/src/ext/inode_ext3.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/keramics-formats/src/ext/inode_ext2.rs b/keramics-formats/src/ext/inode_ext2.rs
index 2043fb6..bb43e6b 100644
--- a/keramics-formats/src/ext/inode_ext2.rs
+++ b/keramics-formats/src/ext/inode_ext2.rs
@@ -16,6 +16,7 @@ use keramics_datetime::{DateTime, PosixTime32};
 use keramics_layout_map::LayoutMap;
 use keramics_types::{bytes_to_i32_le, bytes_to_u16_le, bytes_to_u32_le};
 
+use crate::ext::constants::*;
 use crate::ext::inode::ExtInode;
 
 #[derive(LayoutMap)]
@@ -71,6 +72,12 @@ impl Ext2Inode {
 
         inode.data_size = bytes_to_u32_le!(data, 4) as u64;
 
+        // The upper 32-bit of the data size of a regular file replaces the directory ACL.
+        if inode.file_mode & 0xf000 == EXT_FILE_MODE_TYPE_REGULAR_FILE {
+            let upper_32bit: u32 = bytes_to_u32_le!(data, 108);
+            inode.data_size |= (upper_32bit as u64) << 32;
+        }
+
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
         if inode.access_timestamp != 0 {
             inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
diff --git a/keramics-formats/src/ext/inode_ext3.rs b/keramics-formats/src/ext/inode_ext3.rs
index 8179699..593eedf 100644
--- a/keramics-formats/src/ext/inode_ext3.rs
+++ b/keramics-formats/src/ext/inode_ext3.rs
@@ -16,6 +16,7 @@ use keramics_datetime::{DateTime, PosixTime32};
 use keramics_layout_map::LayoutMap;
 use keramics_types::{bytes_to_i32_le, bytes_to_u16_le, bytes_to_u32_le};
 
+use crate::ext::constants::*;
 use crate::ext::inode::ExtInode;
 
 #[derive(LayoutMap)]
@@ -71,6 +72,12 @@ impl Ext3Inode {
 
         inode.data_size = bytes_to_u32_le!(data, 4) as u64;
 
+        // The upper 32-bit of the data size of a regular file replaces the directory ACL.
+        if inode.file_mode & 0xf000 == EXT_FILE_MODE_TYPE_REGULAR_FILE {
+            let upper_32bit: u32 = bytes_to_u32_le!(data, 108);
+            inode.data_size |= (upper_32bit as u64) << 32;
+        }
+
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
         if inode.access_timestamp != 0 {
             inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
-- 
2.43.0


From 71d0f7a2a07f283f23e0614dd89d544861fa0c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 106/156] fix: ext: do not read inline data and symbolic link
 targets as block numbers

---
 keramics-formats/src/ext/inode.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keramics-formats/src/ext/inode.rs b/keramics-formats/src/ext/inode.rs
index fd72e41..afa9050 100644
--- a/keramics-formats/src/ext/inode.rs
+++ b/keramics-formats/src/ext/inode.rs
@@ -165,8 +165,10 @@ impl ExtInode {
         if format_version == 4 && self.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
             // The data is stored inline in self.data_reference
             // Note that self.data_size can be larger than 60
+            return Ok(());
         } else if file_mode_type == EXT_FILE_MODE_TYPE_SYMBOLIC_LINK && self.data_size < 60 {
             // The symbolic link target path is stored in self.data_reference
+            return Ok(());
         }
         match file_mode_type {
             EXT_FILE_MODE_TYPE_CHARACTER_DEVICE | EXT_FILE_MODE_TYPE_BLOCK_DEVICE => {
-- 
2.43.0


From d679b922a9d8dfde53ef7d9ba9b8fc4c2d2db5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 107/156] fix: ext: support extents of blocks after the end of
 the data

---
 keramics-formats/src/ext/constants.rs    |  3 +++
 keramics-formats/src/ext/extents_tree.rs | 15 +++++++++++++++
 keramics-formats/src/ext/file_entry.rs   | 21 ++++++++-------------
 keramics-formats/src/ext/inode.rs        | 17 ++++++++++-------
 4 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/keramics-formats/src/ext/constants.rs b/keramics-formats/src/ext/constants.rs
index 5b4a383..81a449a 100644
--- a/keramics-formats/src/ext/constants.rs
+++ b/keramics-formats/src/ext/constants.rs
@@ -23,6 +23,9 @@ pub(super) const EXT_ATTRIBUTES_HEADER_SIGNATURE: [u8; 4] = [0x00, 0x00, 0x02, 0
 /// Maximum number of bits to shift 1024 to determine the block size (64 KiB).
 pub(super) const EXT_MAXIMUM_BLOCK_SIZE_SHIFT: u32 = 6;
 
+/// Maximum number of blocks of a file.
+pub(super) const EXT_MAXIMUM_NUMBER_OF_BLOCKS: u64 = 1 << 32;
+
 /// ext compatible feature flags
 pub const EXT_COMPATIBLE_FEATURE_FLAG_SPARSE_SUPERBLOCK2: u32 = 0x00000200;
 
diff --git a/keramics-formats/src/ext/extents_tree.rs b/keramics-formats/src/ext/extents_tree.rs
index 563bfb2..54f459e 100644
--- a/keramics-formats/src/ext/extents_tree.rs
+++ b/keramics-formats/src/ext/extents_tree.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 
 use keramics_core::mediator::{Mediator, MediatorReference};
@@ -178,6 +179,16 @@ impl ExtExtentsTree {
                 }
                 data_offset = data_end_offset;
 
+                if (entry.logical_block_number as u64) < *logical_block_number {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid logical block number: {} value out of bounds",
+                        entry.logical_block_number
+                    )));
+                }
+                // Ignore blocks that are not part of the data e.g. preallocated blocks.
+                if entry.logical_block_number as u64 >= self.number_of_blocks {
+                    break;
+                }
                 if entry.logical_block_number as u64 > *logical_block_number {
                     let number_of_blocks: u64 =
                         (entry.logical_block_number as u64) - *logical_block_number;
@@ -202,6 +213,10 @@ impl ExtExtentsTree {
                     number_of_blocks -= 32768;
                     range_type = ExtBlockRangeType::Sparse;
                 }
+                number_of_blocks = min(
+                    number_of_blocks,
+                    self.number_of_blocks - (entry.logical_block_number as u64),
+                );
                 let block_range: ExtBlockRange = ExtBlockRange::new(
                     entry.logical_block_number as u64,
                     entry.physical_block_number,
diff --git a/keramics-formats/src/ext/file_entry.rs b/keramics-formats/src/ext/file_entry.rs
index 70669c3..28b2994 100644
--- a/keramics-formats/src/ext/file_entry.rs
+++ b/keramics-formats/src/ext/file_entry.rs
@@ -11,7 +11,6 @@
  * under the License.
  */
 
-use std::cmp::max;
 use std::sync::{Arc, RwLock};
 
 use keramics_core::{DataStream, DataStreamReference, ErrorTrace, FakeDataStream};
@@ -163,12 +162,10 @@ impl ExtFileEntry {
             if self.inode.data_size < 60 {
                 byte_string.read_data(&self.inode.data_reference[..self.inode.data_size as usize]);
             } else {
-                let number_of_blocks: u64 = max(
-                    self.inode
-                        .data_size
-                        .div_ceil(self.inode_table.block_size as u64),
-                    self.inode.number_of_blocks,
-                );
+                let number_of_blocks: u64 = self
+                    .inode
+                    .data_size
+                    .div_ceil(self.inode_table.block_size as u64);
                 let mut block_stream: ExtBlockStream =
                     ExtBlockStream::new(self.inode_table.block_size, self.inode.data_size);
 
@@ -219,12 +216,10 @@ impl ExtFileEntry {
                 FakeDataStream::new(&self.inode.data_reference, self.inode.data_size);
             Ok(Some(Arc::new(RwLock::new(data_stream))))
         } else {
-            let number_of_blocks: u64 = max(
-                self.inode
-                    .data_size
-                    .div_ceil(self.inode_table.block_size as u64),
-                self.inode.number_of_blocks,
-            );
+            let number_of_blocks: u64 = self
+                .inode
+                .data_size
+                .div_ceil(self.inode_table.block_size as u64);
             let mut block_stream: ExtBlockStream =
                 ExtBlockStream::new(self.inode_table.block_size, self.inode.data_size);
 
diff --git a/keramics-formats/src/ext/inode.rs b/keramics-formats/src/ext/inode.rs
index afa9050..8e588ca 100644
--- a/keramics-formats/src/ext/inode.rs
+++ b/keramics-formats/src/ext/inode.rs
@@ -11,8 +11,6 @@
  * under the License.
  */
 
-use std::cmp::max;
-
 use keramics_core::{DataStreamReference, ErrorTrace};
 use keramics_datetime::DateTime;
 
@@ -176,11 +174,16 @@ impl ExtInode {
             }
             _ => {
                 // Note that the number of blocks stored in the inode does not always contain
-                // the total number of blocks e.g. when the inode has leading sparse data.
-                let number_of_blocks: u64 = max(
-                    self.data_size.div_ceil(block_size as u64),
-                    self.number_of_blocks,
-                );
+                // the total number of blocks e.g. when the inode has leading sparse data, and
+                // can contain blocks that are not part of the data e.g. preallocated blocks.
+                let number_of_blocks: u64 = self.data_size.div_ceil(block_size as u64);
+
+                if number_of_blocks > EXT_MAXIMUM_NUMBER_OF_BLOCKS {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid data size: {} value out of bounds",
+                        self.data_size
+                    )));
+                }
 
                 if format_version == 4 && self.flags & EXT_INODE_FLAG_HAS_EXTENTS != 0 {
                     let mut extents_tree: ExtExtentsTree =
-- 
2.43.0


From 8a0e254d0af0fff35154692d6a9174f49a152590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 108/156] fix: ext: return an error for extents nodes with too
 many entries

---
 keramics-formats/src/ext/extents_tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-formats/src/ext/extents_tree.rs b/keramics-formats/src/ext/extents_tree.rs
index 54f459e..44c1553 100644
--- a/keramics-formats/src/ext/extents_tree.rs
+++ b/keramics-formats/src/ext/extents_tree.rs
@@ -108,6 +108,12 @@ impl ExtExtentsTree {
                 extents_header.depth,
             )));
         }
+        if (extents_header.number_of_entries as usize) > (data_size - 12) / 12 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                extents_header.number_of_entries,
+            )));
+        }
         let mut data_offset: usize = 12;
 
         if extents_header.depth > 0 {
-- 
2.43.0


From 1844b327c69a4e59841ccf740bda9b174e15d044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 109/156] fix: ext: read directory entries after a sparse block

---
 keramics-formats/src/ext/directory_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/directory_tree.rs b/keramics-formats/src/ext/directory_tree.rs
index 0b180f4..3f2ba99 100644
--- a/keramics-formats/src/ext/directory_tree.rs
+++ b/keramics-formats/src/ext/directory_tree.rs
@@ -52,8 +52,9 @@ impl ExtDirectoryTree {
         entries: &mut BTreeMap<ByteString, ExtDirectoryEntry>,
     ) -> Result<(), ErrorTrace> {
         for block_range in block_ranges.iter() {
+            // Ignore blocks of the directory that are sparse.
             if block_range.range_type != ExtBlockRangeType::InFile {
-                break;
+                continue;
             }
             let mut block_offset: u64 =
                 block_range.physical_block_number * (self.block_size as u64);
-- 
2.43.0


From 3ee38a1d80c5b3f06ed55bffb4147bb2c77fd3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 110/156] fix: ext: directory entries of 65536 bytes

---
 keramics-formats/src/ext/directory_tree.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ext/directory_tree.rs b/keramics-formats/src/ext/directory_tree.rs
index 3f2ba99..0efc3dd 100644
--- a/keramics-formats/src/ext/directory_tree.rs
+++ b/keramics-formats/src/ext/directory_tree.rs
@@ -136,7 +136,12 @@ impl ExtDirectoryTree {
             if entry.size == 0 {
                 break;
             }
-            if entry.size < 8 || (entry.size as usize) > data_size - data_offset {
+            // The size of an entry of a block of 65536 bytes does not fit.
+            let entry_size: usize = match entry.size {
+                0xffff => 65536,
+                entry_size => entry_size as usize,
+            };
+            if entry_size < 8 || entry_size > data_size - data_offset {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid directory entry size: {} value out of bounds",
                     entry.size
@@ -154,7 +159,7 @@ impl ExtDirectoryTree {
                     return Err(error);
                 }
             };
-            data_offset += (entry.size as usize) - 8;
+            data_offset += entry_size - 8;
 
             // TODO: print trailing data
 
-- 
2.43.0


From d8563dcae7b43db263dd2cb21a5db1154070a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 111/156] fix: ext: support inodes with an attribute of another
 name index

---
 keramics-formats/src/ext/attributes_entry.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/ext/attributes_entry.rs b/keramics-formats/src/ext/attributes_entry.rs
index 250dd7c..e3ca44e 100644
--- a/keramics-formats/src/ext/attributes_entry.rs
+++ b/keramics-formats/src/ext/attributes_entry.rs
@@ -92,12 +92,8 @@ impl ExtAttributesEntry {
             6 => "security.",
             7 => "system.",
             8 => "system.richacl",
-            _ => {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Unsupported attribute name index: {}",
-                    self.name_index
-                )));
-            }
+            // Other name indexes, such as that of an encryption context, have no known prefix.
+            _ => "",
         };
         let mut name: ByteString = ByteString::from(name_prefix);
         name.read_data(&data[0..data_end_offset]);
-- 
2.43.0


From ded17cb9beb469953ab71a7109191c36dac7349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 112/156] fix: ext: return an error for block numbers that do
 not fit

---
 keramics-formats/src/ext/block_stream.rs | 12 +++++++++++-
 keramics-formats/src/ext/inode_table.rs  | 14 +++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ext/block_stream.rs b/keramics-formats/src/ext/block_stream.rs
index 1063cbc..0d26491 100644
--- a/keramics-formats/src/ext/block_stream.rs
+++ b/keramics-formats/src/ext/block_stream.rs
@@ -123,10 +123,20 @@ impl ExtBlockStream {
                     let range_physical_offset: u64 =
                         block_range.physical_block_number * (self.block_size as u64);
 
+                    let read_offset: u64 =
+                        match range_physical_offset.checked_add(range_relative_offset) {
+                            Some(offset) => offset,
+                            None => {
+                                return Err(keramics_core::error_trace_new!(format!(
+                                    "Invalid physical block number: {} value out of bounds",
+                                    block_range.physical_block_number
+                                )));
+                            }
+                        };
                     let read_count: usize = keramics_core::data_stream_read_at_position!(
                         data_stream,
                         &mut data[data_offset..data_end_offset],
-                        SeekFrom::Start(range_physical_offset + range_relative_offset)
+                        SeekFrom::Start(read_offset)
                     );
                     read_count
                 }
diff --git a/keramics-formats/src/ext/inode_table.rs b/keramics-formats/src/ext/inode_table.rs
index 5e2005b..98a478b 100644
--- a/keramics-formats/src/ext/inode_table.rs
+++ b/keramics-formats/src/ext/inode_table.rs
@@ -123,7 +123,19 @@ impl ExtInodeTable {
         let inode_group_index: u32 = (inode_number - 1) % self.number_of_inodes_per_block_group;
 
         let mut inode_data_offset: u64 = (inode_group_index as u64) * (self.inode_size as u64);
-        inode_data_offset += group_descriptor.inode_table_block_number * (self.block_size as u64);
+        inode_data_offset = match group_descriptor
+            .inode_table_block_number
+            .checked_mul(self.block_size as u64)
+            .and_then(|offset| offset.checked_add(inode_data_offset))
+        {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid inode table block number: {} value out of bounds",
+                    group_descriptor.inode_table_block_number
+                )));
+            }
+        };
 
         let inode_size: usize = self.inode_size as usize;
         let mut data: Vec<u8> = vec![0; inode_size];
-- 
2.43.0


From c67c8970d1e8f7cf5ba1cb73c0af56c83dc0c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 113/156] fix: ext: inline data that does not fit in the data
 reference is stored in an attribute

---
 keramics-formats/src/ext/attribute.rs         | 29 ++++++++++++++++---
 keramics-formats/src/ext/attributes_block.rs  |  5 +---
 keramics-formats/src/ext/directory_tree.rs    | 17 ++++++++++-
 keramics-formats/src/ext/file_entry.rs        | 10 +++++--
 keramics-formats/src/ext/inode.rs             | 13 +++++++++
 .../src/ext/inode_extension_ext4.rs           | 24 +++++++++++++++
 6 files changed, 86 insertions(+), 12 deletions(-)

diff --git a/keramics-formats/src/ext/attribute.rs b/keramics-formats/src/ext/attribute.rs
index 4391a60..153364e 100644
--- a/keramics-formats/src/ext/attribute.rs
+++ b/keramics-formats/src/ext/attribute.rs
@@ -11,15 +11,36 @@
  * under the License.
  */
 
+use keramics_types::ByteString;
+
+use super::attributes_entry::ExtAttributesEntry;
+
 /// Extended File System (ext) attribute.
-pub struct ExtAttribute {}
+pub struct ExtAttribute {
+    /// Name.
+    pub(super) name: ByteString,
+
+    /// Value data offset, relative to the start of the attributes block or after the signature
+    /// in the inode.
+    pub(super) value_data_offset: u16,
+
+    /// Value data inode number.
+    pub(super) value_data_inode_number: u32,
+
+    /// Value data size.
+    pub(super) value_data_size: u32,
+}
 
 impl ExtAttribute {
     /// Creates a new attribute.
-    pub(super) fn new() -> Self {
-        Self {}
+    pub(super) fn new(name: ByteString, entry: &ExtAttributesEntry) -> Self {
+        Self {
+            name: name,
+            value_data_offset: entry.value_data_offset,
+            value_data_inode_number: entry.value_data_inode_number,
+            value_data_size: entry.value_data_size,
+        }
     }
-
     // TODO: add method to retrieve name
     // TODO: add methods to retrieve extents
     // TODO: add methods to read and seek data
diff --git a/keramics-formats/src/ext/attributes_block.rs b/keramics-formats/src/ext/attributes_block.rs
index a13236a..8880a3d 100644
--- a/keramics-formats/src/ext/attributes_block.rs
+++ b/keramics-formats/src/ext/attributes_block.rs
@@ -76,9 +76,6 @@ impl ExtAttributesBlock {
             }
             entry_data_offset = data_end_offset;
 
-            let attribute: ExtAttribute = ExtAttribute::new();
-            // TODO: fill attribute
-
             let name: ByteString = match entry.read_name(&data[entry_data_offset..]) {
                 Ok(name) => name,
                 Err(mut error) => {
@@ -112,7 +109,7 @@ impl ExtAttributesBlock {
 
             // TODO: read inline value data.
 
-            entries.push(attribute);
+            entries.push(ExtAttribute::new(name, &entry));
 
             entry_data_offset += alignment_padding_size;
         }
diff --git a/keramics-formats/src/ext/directory_tree.rs b/keramics-formats/src/ext/directory_tree.rs
index 0efc3dd..84b22d2 100644
--- a/keramics-formats/src/ext/directory_tree.rs
+++ b/keramics-formats/src/ext/directory_tree.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::BTreeMap;
 use std::io::SeekFrom;
 
@@ -108,7 +109,21 @@ impl ExtDirectoryTree {
             ));
             self.mediator.debug_print(format!("}}\n\n"));
         }
-        self.read_node_data(&data, 4, data_size, entries)
+        // The data reference and the remaining inline data have separate directory entries.
+        let data_reference_size: usize = min(data_size, 60);
+
+        self.read_node_data(
+            &data[..data_reference_size],
+            4,
+            data_reference_size,
+            entries,
+        )?;
+        self.read_node_data(
+            &data[data_reference_size..],
+            0,
+            data_size - data_reference_size,
+            entries,
+        )
     }
 
     /// Reads the directory tree node from a buffer.
diff --git a/keramics-formats/src/ext/file_entry.rs b/keramics-formats/src/ext/file_entry.rs
index 28b2994..fd7bb47 100644
--- a/keramics-formats/src/ext/file_entry.rs
+++ b/keramics-formats/src/ext/file_entry.rs
@@ -159,7 +159,11 @@ impl ExtFileEntry {
             let mut byte_string: ByteString =
                 ByteString::new_with_encoding(&self.sub_directory_entries.encoding);
 
-            if self.inode.data_size < 60 {
+            if self.inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
+                let mut data: Vec<u8> = self.inode.get_inline_data();
+                data.truncate(self.inode.data_size as usize);
+                byte_string.read_data(&data);
+            } else if self.inode.data_size < 60 {
                 byte_string.read_data(&self.inode.data_reference[..self.inode.data_size as usize]);
             } else {
                 let number_of_blocks: u64 = self
@@ -213,7 +217,7 @@ impl ExtFileEntry {
         }
         if self.inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
             let data_stream: FakeDataStream =
-                FakeDataStream::new(&self.inode.data_reference, self.inode.data_size);
+                FakeDataStream::new(&self.inode.get_inline_data(), self.inode.data_size);
             Ok(Some(Arc::new(RwLock::new(data_stream))))
         } else {
             let number_of_blocks: u64 = self
@@ -384,7 +388,7 @@ impl ExtFileEntry {
         if self.inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
             match self
                 .sub_directory_entries
-                .read_inline_data(&self.inode.data_reference, self.inode_table.block_size)
+                .read_inline_data(&self.inode.get_inline_data(), self.inode_table.block_size)
             {
                 Ok(_) => {}
                 Err(mut error) => {
diff --git a/keramics-formats/src/ext/inode.rs b/keramics-formats/src/ext/inode.rs
index 8e588ca..367330e 100644
--- a/keramics-formats/src/ext/inode.rs
+++ b/keramics-formats/src/ext/inode.rs
@@ -71,6 +71,9 @@ pub struct ExtInode {
     /// Data reference.
     pub data_reference: [u8; 60],
 
+    /// Inline data that does not fit in the data reference.
+    pub(super) remaining_inline_data: Vec<u8>,
+
     /// Checksum.
     pub checksum: u32,
 
@@ -106,6 +109,7 @@ impl ExtInode {
             number_of_blocks: 0,
             flags: 0,
             data_reference: [0; 60],
+            remaining_inline_data: Vec::new(),
             checksum: 0,
             has_checksum_upper: false,
             creation_time: None,
@@ -114,6 +118,15 @@ impl ExtInode {
         }
     }
 
+    /// Retrieves the inline data.
+    pub(super) fn get_inline_data(&self) -> Vec<u8> {
+        [
+            self.data_reference.as_slice(),
+            self.remaining_inline_data.as_slice(),
+        ]
+        .concat()
+    }
+
     /// Reads the inode for debugging.
     pub fn debug_read_data(&self, format_version: u8, data: &[u8]) -> String {
         let mut string_parts: Vec<String> = Vec::new();
diff --git a/keramics-formats/src/ext/inode_extension_ext4.rs b/keramics-formats/src/ext/inode_extension_ext4.rs
index ab6c663..7ed5219 100644
--- a/keramics-formats/src/ext/inode_extension_ext4.rs
+++ b/keramics-formats/src/ext/inode_extension_ext4.rs
@@ -54,6 +54,27 @@ impl Ext4InodeExtension {
         (extra_precision_timestamp, extra_precision)
     }
 
+    /// Reads the inline data that does not fit in the data reference from a buffer.
+    fn read_inline_data(inode: &mut ExtInode, data: &[u8]) -> Result<(), ErrorTrace> {
+        for attribute in inode.attributes.iter() {
+            if attribute.value_data_inode_number != 0 || attribute.name != "system.data" {
+                continue;
+            }
+            let value_data_offset: usize = attribute.value_data_offset as usize;
+            let value_data_size: usize = attribute.value_data_size as usize;
+
+            if value_data_offset > data.len() || value_data_size > data.len() - value_data_offset {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid inline data size: {} value out of bounds",
+                    value_data_size
+                )));
+            }
+            let value_data_end_offset: usize = value_data_offset + value_data_size;
+            inode.remaining_inline_data = data[value_data_offset..value_data_end_offset].to_vec();
+        }
+        Ok(())
+    }
+
     /// Reads the inode exension from a buffer.
     pub fn read_data(inode: &mut ExtInode, data: &[u8]) -> Result<(), ErrorTrace> {
         let extra_size: u16 = bytes_to_u16_le!(data, 0);
@@ -142,6 +163,9 @@ impl Ext4InodeExtension {
                         return Err(error);
                     }
                 }
+                if inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
+                    Self::read_inline_data(inode, &data[data_offset..])?;
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 9133f148744e658beecf40dbcba0c80f1b4c9342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 114/156] fix: ext: read directory entries from block data once

---
 keramics-formats/src/ext/directory_entries.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keramics-formats/src/ext/directory_entries.rs b/keramics-formats/src/ext/directory_entries.rs
index e5ddb68..07cd6ba 100644
--- a/keramics-formats/src/ext/directory_entries.rs
+++ b/keramics-formats/src/ext/directory_entries.rs
@@ -89,6 +89,8 @@ impl ExtDirectoryEntries {
                 return Err(error);
             }
         }
+        self.is_read = true;
+
         Ok(())
     }
 
-- 
2.43.0


From 90da69635c03a4385b126d9f472d1a4c45273162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:00 +0000
Subject: [PATCH 115/156] fix: refuse a NTFS MFT or index entry size of 2^32

---
 keramics-formats/src/ntfs/boot_record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/boot_record.rs b/keramics-formats/src/ntfs/boot_record.rs
index 79b7af5..104197e 100644
--- a/keramics-formats/src/ntfs/boot_record.rs
+++ b/keramics-formats/src/ntfs/boot_record.rs
@@ -148,7 +148,7 @@ impl NtfsBootRecord {
         } else {
             // The size is calculated as: 2 ^ ( 256 - value ).
             let exponent: u32 = 256 - mft_entry_size;
-            if exponent > 32 {
+            if exponent > 31 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Unsupported MFT entry size: {} value out of bounds",
                     mft_entry_size
@@ -181,7 +181,7 @@ impl NtfsBootRecord {
         } else {
             // The size is calculated as: 2 ^ ( 256 - value ).
             let exponent: u32 = 256 - index_entry_size;
-            if exponent > 32 {
+            if exponent > 31 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Unsupported index entry size: {} value out of bounds",
                     index_entry_size
-- 
2.43.0


From 716e7be16ec9a8f77cc1cea448ef59746ec1277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 116/156] fix: check the bounds of NTFS data runs and virtual
 cluster numbers

---
 keramics-formats/src/ntfs/block_stream.rs     | 27 ++++++++++++++-----
 keramics-formats/src/ntfs/data_run.rs         | 26 +++++++++++++++---
 keramics-formats/src/ntfs/index.rs            | 22 +++++++++++++--
 .../src/ntfs/master_file_table.rs             | 25 ++++++++++++++---
 4 files changed, 86 insertions(+), 14 deletions(-)

diff --git a/keramics-formats/src/ntfs/block_stream.rs b/keramics-formats/src/ntfs/block_stream.rs
index 1d2713a..3769340 100644
--- a/keramics-formats/src/ntfs/block_stream.rs
+++ b/keramics-formats/src/ntfs/block_stream.rs
@@ -67,10 +67,18 @@ impl NtfsBlockStream {
                 "Unsupported resident $DATA attribute"
             ));
         }
-        let block_tree_size: u64 = data_attribute
+        let block_tree_size: u64 = match data_attribute
             .allocated_data_size
-            .div_ceil(self.cluster_block_size as u64)
-            * (self.cluster_block_size as u64);
+            .checked_next_multiple_of(self.cluster_block_size as u64)
+        {
+            Some(block_tree_size) => block_tree_size,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid allocated data size: {} value out of bounds",
+                    data_attribute.allocated_data_size
+                )));
+            }
+        };
         self.block_tree =
             BlockTree::<NtfsBlockRange>::new(block_tree_size, 0, self.cluster_block_size as u64);
 
@@ -86,9 +94,16 @@ impl NtfsBlockStream {
                     )));
                 }
                 for data_run in cluster_group.data_runs.iter() {
-                    let range_size: u64 =
-                        data_run.number_of_blocks * (self.cluster_block_size as u64);
-
+                    let range_size: u64 = match data_run.get_size(self.cluster_block_size) {
+                        Ok(range_size) => range_size,
+                        Err(mut error) => {
+                            keramics_core::error_trace_add_frame!(
+                                error,
+                                "Unable to retrieve data run size"
+                            );
+                            return Err(error);
+                        }
+                    };
                     let range_type: NtfsBlockRangeType = match &data_run.run_type {
                         NtfsDataRunType::InFile => NtfsBlockRangeType::InFile,
                         NtfsDataRunType::Sparse => NtfsBlockRangeType::Sparse,
diff --git a/keramics-formats/src/ntfs/data_run.rs b/keramics-formats/src/ntfs/data_run.rs
index de0d109..145da8b 100644
--- a/keramics-formats/src/ntfs/data_run.rs
+++ b/keramics-formats/src/ntfs/data_run.rs
@@ -44,6 +44,21 @@ impl NtfsDataRun {
         }
     }
 
+    /// Retrieves the size of the data run.
+    pub fn get_size(&self, cluster_block_size: u32) -> Result<u64, ErrorTrace> {
+        let maximum_number_of_blocks: u64 = u64::MAX / (cluster_block_size as u64);
+
+        if self.number_of_blocks > maximum_number_of_blocks
+            || self.block_number > maximum_number_of_blocks - self.number_of_blocks
+        {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid data run block number: {} and number of blocks: {} value out of bounds",
+                self.block_number, self.number_of_blocks
+            )));
+        }
+        Ok(self.number_of_blocks * (cluster_block_size as u64))
+    }
+
     /// Reads the data run from a buffer.
     pub fn read_data(&mut self, data: &[u8], last_block_number: u64) -> Result<usize, ErrorTrace> {
         let data_size: usize = data.len();
@@ -109,9 +124,14 @@ impl NtfsDataRun {
                 block_number <<= 8;
                 block_number |= *byte_value as i64;
             }
-            block_number += last_block_number as i64;
-
-            self.block_number = block_number as u64;
+            self.block_number = match block_number.checked_add(last_block_number as i64) {
+                Some(block_number) if block_number >= 0 => block_number as u64,
+                _ => {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid block number value out of bounds"
+                    ));
+                }
+            };
         }
         data_offset += block_number_size;
 
diff --git a/keramics-formats/src/ntfs/index.rs b/keramics-formats/src/ntfs/index.rs
index 997c20a..fa7ecba 100644
--- a/keramics-formats/src/ntfs/index.rs
+++ b/keramics-formats/src/ntfs/index.rs
@@ -50,7 +50,16 @@ impl NtfsIndex {
         data_stream: &DataStreamReference,
         virtual_cluster_number: u64,
     ) -> Result<NtfsIndexEntry, ErrorTrace> {
-        let virtual_cluster_offset: u64 = virtual_cluster_number * (self.cluster_block_size as u64);
+        let virtual_cluster_offset: u64 =
+            match virtual_cluster_number.checked_mul(self.cluster_block_size as u64) {
+                Some(virtual_cluster_offset) => virtual_cluster_offset,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid VCN: {} value out of bounds",
+                        virtual_cluster_number
+                    )));
+                }
+            };
 
         let block_range: &NtfsBlockRange = match self.block_tree.get_value(virtual_cluster_offset) {
             Some(value) => value,
@@ -131,7 +140,16 @@ impl NtfsIndex {
                 )));
             }
             for data_run in cluster_group.data_runs.iter() {
-                let range_size: u64 = data_run.number_of_blocks * (self.cluster_block_size as u64);
+                let range_size: u64 = match data_run.get_size(self.cluster_block_size) {
+                    Ok(range_size) => range_size,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to retrieve data run size"
+                        );
+                        return Err(error);
+                    }
+                };
 
                 let range_type: NtfsBlockRangeType = match &data_run.run_type {
                     NtfsDataRunType::InFile => NtfsBlockRangeType::InFile,
diff --git a/keramics-formats/src/ntfs/master_file_table.rs b/keramics-formats/src/ntfs/master_file_table.rs
index faecbde..b399539 100644
--- a/keramics-formats/src/ntfs/master_file_table.rs
+++ b/keramics-formats/src/ntfs/master_file_table.rs
@@ -56,11 +56,30 @@ impl NtfsMasterFileTable {
     /// Adds a cluster group to the master file table.
     fn add_cluster_group(&mut self, cluster_group: &NtfsClusterGroup) -> Result<(), ErrorTrace> {
         let mut virtual_cluster_number: u64 = cluster_group.first_vcn;
-        let mut virtual_cluster_offset: u64 =
-            cluster_group.first_vcn * (self.cluster_block_size as u64);
+        let mut virtual_cluster_offset: u64 = match cluster_group
+            .first_vcn
+            .checked_mul(self.cluster_block_size as u64)
+        {
+            Some(virtual_cluster_offset) => virtual_cluster_offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid cluster group first VNC: {} value out of bounds",
+                    cluster_group.first_vcn
+                )));
+            }
+        };
 
         for data_run in cluster_group.data_runs.iter() {
-            let range_size: u64 = data_run.number_of_blocks * (self.cluster_block_size as u64);
+            let range_size: u64 = match data_run.get_size(self.cluster_block_size) {
+                Ok(range_size) => range_size,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to retrieve data run size"
+                    );
+                    return Err(error);
+                }
+            };
 
             if range_size % (self.mft_entry_size as u64) != 0 {
                 return Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From 4a8b3c016052cc7556836f7869a94ef249556672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 117/156] fix: use the 512 byte VCN unit of NTFS index entries
 smaller than a cluster

---
 keramics-formats/src/ntfs/index.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/index.rs b/keramics-formats/src/ntfs/index.rs
index fa7ecba..4060c0e 100644
--- a/keramics-formats/src/ntfs/index.rs
+++ b/keramics-formats/src/ntfs/index.rs
@@ -26,7 +26,8 @@ use super::mft_attribute::NtfsMftAttribute;
 pub struct NtfsIndex {
     /// Cluster block size.
     pub cluster_block_size: u32,
-
+    /// Virtual cluster size.
+    virtual_cluster_size: u32,
     /// Index entry size.
     pub index_entry_size: u32,
 
@@ -39,6 +40,7 @@ impl NtfsIndex {
     pub fn new(cluster_block_size: u32) -> Self {
         Self {
             cluster_block_size: cluster_block_size,
+            virtual_cluster_size: cluster_block_size,
             index_entry_size: 0,
             block_tree: BlockTree::<NtfsBlockRange>::new(0, 0, 0),
         }
@@ -51,7 +53,7 @@ impl NtfsIndex {
         virtual_cluster_number: u64,
     ) -> Result<NtfsIndexEntry, ErrorTrace> {
         let virtual_cluster_offset: u64 =
-            match virtual_cluster_number.checked_mul(self.cluster_block_size as u64) {
+            match virtual_cluster_number.checked_mul(self.virtual_cluster_size as u64) {
                 Some(virtual_cluster_offset) => virtual_cluster_offset,
                 None => {
                     return Err(keramics_core::error_trace_new!(format!(
@@ -189,6 +191,13 @@ impl NtfsIndex {
         }
         self.index_entry_size = index_entry_size;
 
+        // The VCN of an index entry smaller than a cluster block is in units of 512 bytes.
+        self.virtual_cluster_size = if index_entry_size < self.cluster_block_size {
+            512
+        } else {
+            self.cluster_block_size
+        };
+
         Ok(())
     }
 }
-- 
2.43.0


From 306daf93e6e5466c3ec03964726a61f8cc613f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 118/156] fix: check the size of a NTFS MFT attribute and read
 it within its bounds

---
 keramics-formats/src/ntfs/mft_attribute.rs | 11 +++++++++++
 keramics-formats/src/ntfs/mft_entry.rs     |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ntfs/mft_attribute.rs b/keramics-formats/src/ntfs/mft_attribute.rs
index f2f2e33..8e3b614 100644
--- a/keramics-formats/src/ntfs/mft_attribute.rs
+++ b/keramics-formats/src/ntfs/mft_attribute.rs
@@ -159,6 +159,17 @@ impl NtfsMftAttribute {
                 return Err(error);
             }
         }
+        if mft_attribute_header.attribute_size < 16
+            || mft_attribute_header.attribute_size as usize > data_size
+        {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid attribute size: {} value out of bounds",
+                mft_attribute_header.attribute_size
+            )));
+        }
+        let data: &[u8] = &data[..mft_attribute_header.attribute_size as usize];
+        let data_size: usize = data.len();
+
         self.attribute_type = mft_attribute_header.attribute_type;
         self.attribute_size = mft_attribute_header.attribute_size;
         self.non_resident_flag = mft_attribute_header.non_resident_flag;
diff --git a/keramics-formats/src/ntfs/mft_entry.rs b/keramics-formats/src/ntfs/mft_entry.rs
index b3e04eb..23a815b 100644
--- a/keramics-formats/src/ntfs/mft_entry.rs
+++ b/keramics-formats/src/ntfs/mft_entry.rs
@@ -79,7 +79,7 @@ impl NtfsMftEntry {
         let data_size: usize = self.data.len();
 
         loop {
-            if data_offset > data_size - 4 {
+            if data_size < 4 || data_offset > data_size - 4 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid data offset: {} value out of bounds",
                     data_offset
-- 
2.43.0


From a649b8ec247c2777cdd54b589a3026a331b422be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 119/156] fix: handle a resident NTFS $DATA attribute among the
 extensions of the MFT or of another attribute

---
 keramics-formats/src/ntfs/master_file_table.rs | 18 ++++++++++--------
 keramics-formats/src/ntfs/mft_attribute.rs     |  2 +-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/keramics-formats/src/ntfs/master_file_table.rs b/keramics-formats/src/ntfs/master_file_table.rs
index b399539..7c4a7dc 100644
--- a/keramics-formats/src/ntfs/master_file_table.rs
+++ b/keramics-formats/src/ntfs/master_file_table.rs
@@ -308,14 +308,16 @@ impl NtfsMasterFileTable {
 
             match mft_attributes.get_attribute(&None, NTFS_ATTRIBUTE_TYPE_DATA) {
                 Some(mft_attribute) => {
-                    match self.add_cluster_group(&mft_attribute.data_cluster_groups[0]) {
-                        Ok(_) => {}
-                        Err(mut error) => {
-                            keramics_core::error_trace_add_frame!(
-                                error,
-                                "Unable to add cluster group"
-                            );
-                            return Err(error);
+                    for cluster_group in mft_attribute.data_cluster_groups.iter() {
+                        match self.add_cluster_group(cluster_group) {
+                            Ok(_) => {}
+                            Err(mut error) => {
+                                keramics_core::error_trace_add_frame!(
+                                    error,
+                                    "Unable to add cluster group"
+                                );
+                                return Err(error);
+                            }
                         }
                     }
                 }
diff --git a/keramics-formats/src/ntfs/mft_attribute.rs b/keramics-formats/src/ntfs/mft_attribute.rs
index 8e3b614..71a1cae 100644
--- a/keramics-formats/src/ntfs/mft_attribute.rs
+++ b/keramics-formats/src/ntfs/mft_attribute.rs
@@ -120,7 +120,7 @@ impl NtfsMftAttribute {
 
     /// Merges the other attribute with the current one.
     pub fn merge(&mut self, other: &mut Self) -> Result<(), ErrorTrace> {
-        if other.is_resident() {
+        if self.is_resident() || other.is_resident() {
             return Err(keramics_core::error_trace_new!(
                 "Unsupported resident attribute"
             ));
-- 
2.43.0


From 727bfb4e885a667135025304790b50fa386cc3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 120/156] fix: read an empty or bad NTFS MFT entry as an entry
 without attributes

---
 keramics-formats/src/ntfs/mft_entry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keramics-formats/src/ntfs/mft_entry.rs b/keramics-formats/src/ntfs/mft_entry.rs
index 23a815b..e14d72c 100644
--- a/keramics-formats/src/ntfs/mft_entry.rs
+++ b/keramics-formats/src/ntfs/mft_entry.rs
@@ -75,6 +75,10 @@ impl NtfsMftEntry {
         &self,
         mft_attributes: &mut NtfsMftAttributes,
     ) -> Result<(), ErrorTrace> {
+        // Note that the attributes of an empty or bad MFT entry are not defined.
+        if self.is_empty || self.is_bad {
+            return Ok(());
+        }
         let mut data_offset: usize = self.attributes_offset as usize;
         let data_size: usize = self.data.len();
 
-- 
2.43.0


From 8a5fa7ff5b4d8c73662d1d3260554ed536ef2664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 121/156] fix: determine whether a NTFS MFT entry is allocated
 from its flags

---
 keramics-formats/src/ntfs/mft_entry.rs        | 2 +-
 keramics-formats/src/ntfs/mft_entry_header.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/mft_entry.rs b/keramics-formats/src/ntfs/mft_entry.rs
index e14d72c..33ebbb4 100644
--- a/keramics-formats/src/ntfs/mft_entry.rs
+++ b/keramics-formats/src/ntfs/mft_entry.rs
@@ -191,7 +191,7 @@ impl NtfsMftEntry {
         self.base_record_file_reference = mft_entry_header.base_record_file_reference;
         self.journal_sequence_number = mft_entry_header.journal_sequence_number;
         self.attributes_offset = mft_entry_header.attributes_offset;
-        self.is_allocated = true;
+        self.is_allocated = mft_entry_header.flags & 0x0001 != 0;
 
         Ok(())
     }
diff --git a/keramics-formats/src/ntfs/mft_entry_header.rs b/keramics-formats/src/ntfs/mft_entry_header.rs
index cc0de11..024da70 100644
--- a/keramics-formats/src/ntfs/mft_entry_header.rs
+++ b/keramics-formats/src/ntfs/mft_entry_header.rs
@@ -54,7 +54,8 @@ pub struct NtfsMftEntryHeader {
 
     /// Attributes offset.
     pub attributes_offset: u16,
-
+    /// Flags.
+    pub flags: u16,
     /// MFT entry size.
     pub mft_entry_size: u32,
 
@@ -71,6 +72,7 @@ impl NtfsMftEntryHeader {
             journal_sequence_number: 0,
             sequence_number: 0,
             attributes_offset: 0,
+            flags: 0,
             mft_entry_size: 0,
             base_record_file_reference: 0,
         }
@@ -93,6 +95,7 @@ impl NtfsMftEntryHeader {
         self.journal_sequence_number = bytes_to_u64_le!(data, 8);
         self.sequence_number = bytes_to_u16_le!(data, 16);
         self.attributes_offset = bytes_to_u16_le!(data, 20);
+        self.flags = bytes_to_u16_le!(data, 22);
         self.mft_entry_size = bytes_to_u32_le!(data, 28);
         self.base_record_file_reference = bytes_to_u64_le!(data, 32);
 
-- 
2.43.0


From 6ea39aa3729ce28489adac761935e9e8a2dddcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 122/156] fix: look up a name in a case-sensitive NTFS
 directory in the order of its index

---
 keramics-formats/src/ntfs/directory_index.rs | 51 +++++++++++---------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/keramics-formats/src/ntfs/directory_index.rs b/keramics-formats/src/ntfs/directory_index.rs
index 2739c48..a26851f 100644
--- a/keramics-formats/src/ntfs/directory_index.rs
+++ b/keramics-formats/src/ntfs/directory_index.rs
@@ -185,19 +185,15 @@ impl NtfsDirectoryIndex {
                 "Directory index was not initialized"
             ));
         }
-        if self.use_case_folding {
-            let case_folded_name: Ucs2String =
-                Ucs2String::new_with_case_folding(name, &self.case_folding_mappings);
-
-            self.get_directory_entry_by_name_from_node(
-                &self.root_node_data,
-                16,
-                data_stream,
-                &case_folded_name,
-            )
-        } else {
-            self.get_directory_entry_by_name_from_node(&self.root_node_data, 16, data_stream, name)
-        }
+        let case_folded_name: Ucs2String =
+            Ucs2String::new_with_case_folding(name, &self.case_folding_mappings);
+        self.get_directory_entry_by_name_from_node(
+            &self.root_node_data,
+            16,
+            data_stream,
+            name,
+            &case_folded_name,
+        )
     }
 
     /// Retrieves a directory entry by name from an index node.
@@ -207,6 +203,7 @@ impl NtfsDirectoryIndex {
         index_node_offset: usize,
         data_stream: &DataStreamReference,
         name: &Ucs2String,
+        case_folded_name: &Ucs2String,
     ) -> Result<Option<NtfsDirectoryEntry>, ErrorTrace> {
         let (index_node_size, index_values_offset): (usize, usize) = match self
             .read_index_node_header(data, index_node_offset)
@@ -270,15 +267,16 @@ impl NtfsDirectoryIndex {
                         return Err(error);
                     }
                 };
-            let result: Ordering = if self.use_case_folding {
-                let case_folded_name: Ucs2String =
-                    Ucs2String::new_with_case_folding(&file_name.name, &self.case_folding_mappings);
-
-                // TODO: add a compare_with_case_folding
-                case_folded_name.compare(name)
-            } else {
-                file_name.name.compare(name)
-            };
+            // TODO: add a compare_with_case_folding
+            let mut result: Ordering =
+                Ucs2String::new_with_case_folding(&file_name.name, &self.case_folding_mappings)
+                    .compare(case_folded_name);
+
+            // Note that a case-sensitive index is sorted by case folded name as well, and only
+            // names with the same case folded name are sorted by name.
+            if result == Ordering::Equal && !self.use_case_folding {
+                result = file_name.name.compare(name);
+            }
             if result == Ordering::Equal {
                 let directory_entry: NtfsDirectoryEntry =
                     NtfsDirectoryEntry::new(index_value.file_reference, file_name);
@@ -321,8 +319,13 @@ impl NtfsDirectoryIndex {
                 }
             };
             let result: Option<NtfsDirectoryEntry> = match self
-                .get_directory_entry_by_name_from_node(&index_entry.data, 24, data_stream, name)
-            {
+                .get_directory_entry_by_name_from_node(
+                    &index_entry.data,
+                    24,
+                    data_stream,
+                    name,
+                    case_folded_name,
+                ) {
                 Ok(result) => result,
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
-- 
2.43.0


From ab776d62b48abc12e414bae6dd5acab1f5f70c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 123/156] fix: check the bounds of the values of a NTFS
 directory index node

---
 keramics-formats/src/ntfs/directory_index.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/ntfs/directory_index.rs b/keramics-formats/src/ntfs/directory_index.rs
index a26851f..a55dee1 100644
--- a/keramics-formats/src/ntfs/directory_index.rs
+++ b/keramics-formats/src/ntfs/directory_index.rs
@@ -222,8 +222,7 @@ impl NtfsDirectoryIndex {
 
         // Fix-up values can be stored between the index node and values.
 
-        let mut is_branch: bool = false;
-        let mut value_data_size: usize = 0;
+        let mut branch_value_range: Option<(usize, usize)> = None;
 
         while index_value_offset < index_values_end_offset {
             let index_value: NtfsIndexValue =
@@ -250,10 +249,13 @@ impl NtfsDirectoryIndex {
                 }
                 index_value_offset = key_data_end_offset;
             }
-            is_branch = index_value.flags & NTFS_INDEX_VALUE_FLAG_IS_BRANCH != 0;
-            value_data_size = (index_value.size as usize) - 16 - key_data_size;
+            let is_branch: bool = index_value.flags & NTFS_INDEX_VALUE_FLAG_IS_BRANCH != 0;
+            let value_data_size: usize = (index_value.size as usize) - 16 - key_data_size;
 
             if index_value.flags & NTFS_INDEX_VALUE_FLAG_IS_LAST != 0 {
+                if is_branch {
+                    branch_value_range = Some((index_value_offset, value_data_size));
+                }
                 break;
             }
             if key_data_size == 0 {
@@ -283,6 +285,7 @@ impl NtfsDirectoryIndex {
                 return Ok(Some(directory_entry));
             }
             if result == Ordering::Greater && is_branch {
+                branch_value_range = Some((index_value_offset, value_data_size));
                 break;
             }
             index_value_offset += value_data_size;
@@ -294,7 +297,7 @@ impl NtfsDirectoryIndex {
                 index_value_offset += 8 - alignment_padding;
             }
         }
-        if is_branch {
+        if let Some((index_value_offset, value_data_size)) = branch_value_range {
             let sub_node_vcn: u64 =
                 match self.read_index_branch_value(data, index_value_offset, value_data_size) {
                     Ok(index_branch_value) => index_branch_value,
@@ -576,7 +579,7 @@ impl NtfsDirectoryIndex {
         }
         let index_node_size: usize = index_node_header.size as usize;
 
-        if index_node_size > data.len() {
+        if index_node_size > data.len() - index_node_offset {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid index node size: {} value out of bounds",
                 index_node_header.size
@@ -631,7 +634,9 @@ impl NtfsDirectoryIndex {
         }
         let value_data_size: usize = index_value.size as usize;
 
-        if value_data_size > data.len() - index_value_offset {
+        if value_data_size < 16 + (index_value.key_data_size as usize)
+            || value_data_size > index_values_end_offset - index_value_offset
+        {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid index value size: {} value out of bounds",
                 index_value.size,
-- 
2.43.0


From 3323b1b132cd70a6108d798be683bb7961dd659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 124/156] fix: refuse a NTFS directory index whose sub nodes
 refer back

---
 keramics-formats/src/ntfs/directory_index.rs | 50 +++++++++++++++++++-
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/directory_index.rs b/keramics-formats/src/ntfs/directory_index.rs
index a55dee1..e133eb2 100644
--- a/keramics-formats/src/ntfs/directory_index.rs
+++ b/keramics-formats/src/ntfs/directory_index.rs
@@ -12,7 +12,7 @@
  */
 
 use std::cmp::Ordering;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
 use keramics_core::mediator::{Mediator, MediatorReference};
@@ -33,6 +33,9 @@ use super::mft_attribute_group::NtfsMftAttributeGroup;
 use super::mft_attributes::NtfsMftAttributes;
 use super::standard_information::NtfsStandardInformation;
 
+/// Maximum depth of the directory index, which is an arbitrary chosen limit.
+const MAXIMUM_DIRECTORY_INDEX_DEPTH: usize = 64;
+
 /// New Technologies File System (NTFS) directory index.
 pub struct NtfsDirectoryIndex {
     /// Mediator.
@@ -193,6 +196,7 @@ impl NtfsDirectoryIndex {
             data_stream,
             name,
             &case_folded_name,
+            0,
         )
     }
 
@@ -204,7 +208,13 @@ impl NtfsDirectoryIndex {
         data_stream: &DataStreamReference,
         name: &Ucs2String,
         case_folded_name: &Ucs2String,
+        depth: usize,
     ) -> Result<Option<NtfsDirectoryEntry>, ErrorTrace> {
+        if depth > MAXIMUM_DIRECTORY_INDEX_DEPTH {
+            return Err(keramics_core::error_trace_new!(
+                "Unsupported directory index depth value out of bounds"
+            ));
+        }
         let (index_node_size, index_values_offset): (usize, usize) = match self
             .read_index_node_header(data, index_node_offset)
         {
@@ -328,6 +338,7 @@ impl NtfsDirectoryIndex {
                     data_stream,
                     name,
                     case_folded_name,
+                    depth + 1,
                 ) {
                 Ok(result) => result,
                 Err(mut error) => {
@@ -368,6 +379,33 @@ impl NtfsDirectoryIndex {
         data_stream: &DataStreamReference,
         entries: &mut NtfsDirectoryEntries,
     ) -> Result<(), ErrorTrace> {
+        let mut sub_nodes: HashSet<u64> = HashSet::new();
+
+        self.get_directory_entries_from_sub_nodes(
+            data,
+            index_node_offset,
+            data_stream,
+            entries,
+            &mut sub_nodes,
+            0,
+        )
+    }
+
+    /// Retrieves the directory entries from an index node and its sub nodes.
+    fn get_directory_entries_from_sub_nodes(
+        &self,
+        data: &[u8],
+        index_node_offset: usize,
+        data_stream: &DataStreamReference,
+        entries: &mut NtfsDirectoryEntries,
+        sub_nodes: &mut HashSet<u64>,
+        depth: usize,
+    ) -> Result<(), ErrorTrace> {
+        if depth > MAXIMUM_DIRECTORY_INDEX_DEPTH {
+            return Err(keramics_core::error_trace_new!(
+                "Unsupported directory index depth value out of bounds"
+            ));
+        }
         let (index_node_size, index_values_offset): (usize, usize) = match self
             .read_index_node_header(data, index_node_offset)
         {
@@ -424,6 +462,12 @@ impl NtfsDirectoryIndex {
                             return Err(error);
                         }
                     };
+                if !sub_nodes.insert(sub_node_vcn) {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid sub node VCN: {} value already used",
+                        sub_node_vcn
+                    )));
+                }
                 // TODO: skip if sub node is not allocated.
 
                 let index_entry: NtfsIndexEntry = match self
@@ -439,11 +483,13 @@ impl NtfsDirectoryIndex {
                         return Err(error);
                     }
                 };
-                match self.get_directory_entries_from_node(
+                match self.get_directory_entries_from_sub_nodes(
                     &index_entry.data,
                     24,
                     data_stream,
                     entries,
+                    sub_nodes,
+                    depth + 1,
                 ) {
                     Ok(_) => {}
                     Err(mut error) => {
-- 
2.43.0


From bf071930946d6170ac05dd0f3166a8ad95a8ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 125/156] fix: do not rely on the name size of a NTFS file name
 without a name

---
 keramics-formats/src/ntfs/directory_entries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/ntfs/directory_entries.rs b/keramics-formats/src/ntfs/directory_entries.rs
index 270b3d5..77292ef 100644
--- a/keramics-formats/src/ntfs/directory_entries.rs
+++ b/keramics-formats/src/ntfs/directory_entries.rs
@@ -42,7 +42,7 @@ impl NtfsDirectoryEntries {
     /// Adds an entry.
     pub fn add(&mut self, file_reference: u64, file_name: NtfsFileName) -> Result<(), ErrorTrace> {
         // TODO: preserve self $FILE_NAME entry.
-        if file_name.name_size == 1 && file_name.name.elements[0] == 0x002e {
+        if file_name.name.elements == [0x002e] {
             // Ignore "."
         } else if file_name.name_space == NTFS_NAME_SPACE_DOS {
             if self.short_names.contains_key(&file_reference) {
-- 
2.43.0


From 4bfceca434cf1c53fb8f5e218b5ca4861e6fcc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 126/156] fix: check the size of a NTFS attribute list entry

---
 keramics-formats/src/ntfs/attribute_list.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/keramics-formats/src/ntfs/attribute_list.rs b/keramics-formats/src/ntfs/attribute_list.rs
index d684384..cb38fc9 100644
--- a/keramics-formats/src/ntfs/attribute_list.rs
+++ b/keramics-formats/src/ntfs/attribute_list.rs
@@ -57,6 +57,13 @@ impl NtfsAttributeList {
                     return Err(error);
                 }
             }
+            if entry.attribute_size < 26 || entry.attribute_size as usize > data_size - data_offset
+            {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid attribute list entry size: {} value out of bounds",
+                    entry.attribute_size
+                )));
+            }
             // TODO: read name.
             // TODO: print remaining data.
 
-- 
2.43.0


From 1f2d458aab25a70505e5c5135f0be50aad46484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 127/156] fix: read a NTFS attribute list entry that spans
 cluster blocks

---
 keramics-formats/src/ntfs/attribute_list.rs | 51 +++++++++++----------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/keramics-formats/src/ntfs/attribute_list.rs b/keramics-formats/src/ntfs/attribute_list.rs
index cb38fc9..dc3bbb5 100644
--- a/keramics-formats/src/ntfs/attribute_list.rs
+++ b/keramics-formats/src/ntfs/attribute_list.rs
@@ -113,31 +113,34 @@ impl NtfsAttributeList {
                     return Err(error);
                 }
             }
-            let mut cluster_block: Vec<u8> = vec![0; cluster_block_size as usize];
-
-            loop {
-                let read_count: usize = match block_stream.read(&mut cluster_block) {
-                    Ok(read_count) => read_count,
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            "Unable to read attribute list from block stream"
-                        );
-                        return Err(error);
-                    }
-                };
-                if read_count == 0 {
-                    break;
+            // Note that 16777216 is an arbitrary chosen limit.
+            if data_attribute.data_size > 16777216 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported attribute list size: {} value out of bounds",
+                    data_attribute.data_size
+                )));
+            }
+            // Note that an attribute list entry can be stored across cluster blocks.
+            let mut data: Vec<u8> = vec![0; data_attribute.data_size as usize];
+
+            match block_stream.read_exact(&mut data) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to read attribute list from block stream"
+                    );
+                    return Err(error);
                 }
-                match self.read_data(&cluster_block[..read_count]) {
-                    Ok(_) => {}
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            "Unable to read non-resident attribute list"
-                        );
-                        return Err(error);
-                    }
+            }
+            match self.read_data(&data) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to read non-resident attribute list"
+                    );
+                    return Err(error);
                 }
             }
         }
-- 
2.43.0


From 80c741524c1c78ed1c0c71bc6b98cf2415e854ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 128/156] fix: do not take a NTFS file with a data stream named
 $I30 for a directory

---
 keramics-formats/src/ntfs/file_entry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ntfs/file_entry.rs b/keramics-formats/src/ntfs/file_entry.rs
index 468584f..8ac2bff 100644
--- a/keramics-formats/src/ntfs/file_entry.rs
+++ b/keramics-formats/src/ntfs/file_entry.rs
@@ -525,7 +525,10 @@ impl NtfsFileEntry {
         };
         let i30_index_name: Option<Ucs2String> = Some(Ucs2String::from("$I30"));
 
-        self.has_sub_directory_entries = self.mft_attributes.has_attribute_group(&i30_index_name);
+        self.has_sub_directory_entries = self
+            .mft_attributes
+            .get_attribute(&i30_index_name, NTFS_ATTRIBUTE_TYPE_INDEX_ROOT)
+            .is_some();
 
         Ok(())
     }
-- 
2.43.0


From 0cf01478cdba2191e96cd298fd5a199ccff05d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 129/156] fix: read an empty name at the end of NTFS reparse
 point data

---
 keramics-formats/src/ntfs/junction_reparse_data.rs      | 4 ++--
 keramics-formats/src/ntfs/symbolic_link_reparse_data.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/ntfs/junction_reparse_data.rs b/keramics-formats/src/ntfs/junction_reparse_data.rs
index 80a62b2..2d01ccb 100644
--- a/keramics-formats/src/ntfs/junction_reparse_data.rs
+++ b/keramics-formats/src/ntfs/junction_reparse_data.rs
@@ -58,7 +58,7 @@ impl NtfsJunctionReparseData {
 
         let data_offset: usize = (substitute_name_offset as usize) + 8;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid substitute name offset value out of bounds"
             ));
@@ -78,7 +78,7 @@ impl NtfsJunctionReparseData {
 
         let data_offset: usize = (display_name_offset as usize) + 8;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid display name offset value out of bounds"
             ));
diff --git a/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs b/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs
index 9a1a90e..3767b35 100644
--- a/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs
+++ b/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs
@@ -59,7 +59,7 @@ impl NtfsSymbolicLinkReparseData {
 
         let data_offset: usize = (substitute_name_offset as usize) + 12;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid substitute name offset value out of bounds"
             ));
@@ -79,7 +79,7 @@ impl NtfsSymbolicLinkReparseData {
 
         let data_offset: usize = (display_name_offset as usize) + 12;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid display name offset value out of bounds"
             ));
-- 
2.43.0


From ab643c8a05e600e6b43f8032b42819fd3fd74e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 130/156] fix: ignore a trailing byte when reading an UCS-2
 string

---
 keramics-types/src/ucs2_string.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/keramics-types/src/ucs2_string.rs b/keramics-types/src/ucs2_string.rs
index cab4401..671b4a3 100644
--- a/keramics-types/src/ucs2_string.rs
+++ b/keramics-types/src/ucs2_string.rs
@@ -47,7 +47,8 @@ impl Ucs2String {
 
     /// Reads a string from a byte sequence in big-endian.
     pub fn from_be_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        // Note that a trailing byte that is not part of a 16-bit value is ignored.
+        let data_size: usize = data.len() - (data.len() % 2);
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
@@ -62,7 +63,8 @@ impl Ucs2String {
 
     /// Reads a string from a byte sequence in little-endian.
     pub fn from_le_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        // Note that a trailing byte that is not part of a 16-bit value is ignored.
+        let data_size: usize = data.len() - (data.len() % 2);
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
@@ -89,7 +91,8 @@ impl Ucs2String {
 
     /// Reads a string from a buffer in little-endian.
     pub fn read_data_le(&mut self, data: &[u8]) {
-        let data_size: usize = data.len();
+        // Note that a trailing byte that is not part of a 16-bit value is ignored.
+        let data_size: usize = data.len() - (data.len() % 2);
 
         for data_offset in (0..data_size).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_le!(data, data_offset);
-- 
2.43.0


From ef3125a8210da520e04f54b210675a5b1ee0773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 131/156] fix: read NTFS compressed data up to the end of its
 compression unit

---
 keramics-formats/src/ntfs/compressed_stream.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/keramics-formats/src/ntfs/compressed_stream.rs b/keramics-formats/src/ntfs/compressed_stream.rs
index 3c1e159..15d8cce 100644
--- a/keramics-formats/src/ntfs/compressed_stream.rs
+++ b/keramics-formats/src/ntfs/compressed_stream.rs
@@ -247,10 +247,6 @@ impl NtfsCompressedStream {
             let data_end_offset: usize = data_offset + range_read_size;
             let read_count: usize = match compression_unit.range_type {
                 NtfsCompressionRangeType::Compressed => {
-                    let range_read_size: usize =
-                        min(read_remainder_size, self.compression_unit_size);
-                    let data_end_offset: usize = data_offset + range_read_size;
-
                     if !self.block_cache.contains(&range_offset) {
                         let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
                             Some(data_stream) => data_stream,
-- 
2.43.0


From 092d6c465ddf565f68e39a4d19a33dd316c78f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 132/156] fix: use the data size of NTFS compressed data and
 zeros past its valid data

---
 keramics-formats/src/ntfs/compressed_stream.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/compressed_stream.rs b/keramics-formats/src/ntfs/compressed_stream.rs
index 15d8cce..bd7835b 100644
--- a/keramics-formats/src/ntfs/compressed_stream.rs
+++ b/keramics-formats/src/ntfs/compressed_stream.rs
@@ -52,6 +52,9 @@ pub struct NtfsCompressedStream {
 
     /// The size.
     size: u64,
+
+    /// The valid data size.
+    valid_data_size: u64,
 }
 
 impl NtfsCompressedStream {
@@ -66,6 +69,7 @@ impl NtfsCompressedStream {
             block_cache: LruCache::new(8),
             current_offset: 0,
             size: 0,
+            valid_data_size: 0,
         }
     }
 
@@ -207,7 +211,8 @@ impl NtfsCompressedStream {
                 };
             }
         }
-        self.size = data_attribute.valid_data_size;
+        self.size = data_attribute.data_size;
+        self.valid_data_size = min(data_attribute.valid_data_size, data_attribute.data_size);
 
         Ok(())
     }
@@ -222,6 +227,12 @@ impl NtfsCompressedStream {
             if current_offset >= self.size {
                 break;
             }
+            if current_offset >= self.valid_data_size {
+                data[data_offset..read_size].fill(0);
+                data_offset = read_size;
+
+                break;
+            }
             let compression_unit: &NtfsCompressionRange =
                 match self.block_tree.get_value(current_offset) {
                     Some(value) => value,
@@ -236,7 +247,7 @@ impl NtfsCompressedStream {
             let range_size: u64 = compression_unit.size;
 
             let range_relative_offset: u64 = current_offset - range_offset;
-            let range_end_offset: u64 = min(range_offset + range_size, self.size);
+            let range_end_offset: u64 = min(range_offset + range_size, self.valid_data_size);
 
             let range_remainder_size: u64 =
                 (range_end_offset - range_offset) - range_relative_offset;
-- 
2.43.0


From 022fc43ff15000e27980e3c9211088d41d593210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 133/156] fix: refuse a NTFS compression unit of an excessive
 size

---
 keramics-formats/src/ntfs/compressed_stream.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/keramics-formats/src/ntfs/compressed_stream.rs b/keramics-formats/src/ntfs/compressed_stream.rs
index bd7835b..35667e2 100644
--- a/keramics-formats/src/ntfs/compressed_stream.rs
+++ b/keramics-formats/src/ntfs/compressed_stream.rs
@@ -108,6 +108,13 @@ impl NtfsCompressedStream {
         self.compression_unit_size =
             (data_attribute.compression_unit_size as usize) * (self.cluster_block_size as usize);
 
+        // Note that 16777216 is an arbitrary chosen limit.
+        if self.compression_unit_size > 16777216 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported compression unit size: {} value out of bounds",
+                self.compression_unit_size
+            )));
+        }
         if data_attribute.allocated_data_size % (self.compression_unit_size as u64) != 0 {
             return Err(keramics_core::error_trace_new!(
                 "Unsupported allocated data size not a multitude of compression unit size"
-- 
2.43.0


From 485b250f71ed7362ee666a81e71e46a59ea72e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 134/156] fix: use the data size of a NTFS file compressed by
 the Windows Overlay Filter

---
 keramics-formats/src/ntfs/mft_attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/ntfs/mft_attributes.rs b/keramics-formats/src/ntfs/mft_attributes.rs
index 4916a96..6a4a4d5 100644
--- a/keramics-formats/src/ntfs/mft_attributes.rs
+++ b/keramics-formats/src/ntfs/mft_attributes.rs
@@ -273,7 +273,7 @@ impl NtfsMftAttributes {
             match wof_compressed_stream.open(
                 data_stream,
                 wof_data_attribute,
-                data_attribute.valid_data_size,
+                data_attribute.data_size,
             ) {
                 Ok(_) => {}
                 Err(mut error) => {
-- 
2.43.0


From c2425b9a506597ce8ad65688ec520a511d6ddba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 135/156] fix: determine the width of NTFS WOF block offsets
 from the uncompressed size

---
 keramics-formats/src/ntfs/wof_compressed_stream.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/keramics-formats/src/ntfs/wof_compressed_stream.rs b/keramics-formats/src/ntfs/wof_compressed_stream.rs
index 79ee328..c676e25 100644
--- a/keramics-formats/src/ntfs/wof_compressed_stream.rs
+++ b/keramics-formats/src/ntfs/wof_compressed_stream.rs
@@ -289,11 +289,7 @@ impl NtfsWofCompressedStream {
 
     /// Reads the compressed block offsets.
     fn read_compressed_block_offsets(&mut self) -> Result<(), ErrorTrace> {
-        let block_offset_data_size: usize = if self.compressed_size > u32::MAX as u64 {
-            8
-        } else {
-            4
-        };
+        let block_offset_data_size: usize = if self.size > u32::MAX as u64 { 8 } else { 4 };
         let number_of_block_offsets: usize =
             self.size.div_ceil(self.compression_unit_size as u64) as usize;
 
-- 
2.43.0


From f021dae66f12c010404eeb4ec84cb6ea8da91b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 136/156] fix: check the bounds of the NTFS WOF block offsets

---
 .../src/ntfs/wof_compressed_stream.rs         | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/ntfs/wof_compressed_stream.rs b/keramics-formats/src/ntfs/wof_compressed_stream.rs
index c676e25..06e5f50 100644
--- a/keramics-formats/src/ntfs/wof_compressed_stream.rs
+++ b/keramics-formats/src/ntfs/wof_compressed_stream.rs
@@ -156,6 +156,13 @@ impl NtfsWofCompressedStream {
             };
             let block_size: usize = (next_block_offset - block_offset) as usize;
 
+            // Note that a block that would not be smaller when compressed is stored uncompressed.
+            if block_size > self.compression_unit_size {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid block size: {} value out of bounds",
+                    block_size
+                )));
+            }
             let range_offset: u64 = block_index * (self.compression_unit_size as u64);
             let range_size: u64 = min(self.compression_unit_size as u64, self.size - range_offset);
             let block_relative_offset: u64 = current_offset - range_offset;
@@ -303,6 +310,13 @@ impl NtfsWofCompressedStream {
                 return Err(keramics_core::error_trace_new!("Missing data stream"));
             }
         };
+        // Note that 16777216 is an arbitrary chosen limit.
+        if number_of_block_offsets > 16777216 || data_size as u64 > self.compressed_size {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported number of block offsets: {} value out of bounds",
+                number_of_block_offsets
+            )));
+        }
         let mut data: Vec<u8> = vec![0; data_size];
 
         keramics_core::data_stream_read_exact_at_position!(
@@ -317,24 +331,29 @@ impl NtfsWofCompressedStream {
             ));
             self.mediator.debug_print_data(&data, true);
         }
-        self.block_offsets.push(data_size as u64);
+        let mut last_block_offset: u64 = data_size as u64;
+        let mut block_offsets: Vec<u64> = vec![last_block_offset];
 
         for data_offset in (0..data_size).step_by(block_offset_data_size) {
-            let mut block_offset: u64 = if block_offset_data_size == 8 {
+            let block_offset: u64 = if block_offset_data_size == 8 {
                 bytes_to_u64_le!(data, data_offset)
             } else {
                 bytes_to_u32_le!(data, data_offset) as u64
             };
-            block_offset += data_size as u64;
-
-            if block_offset > self.compressed_size {
+            if block_offset > self.compressed_size - (data_size as u64)
+                || block_offset + (data_size as u64) < last_block_offset
+            {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid block offset: {} (0x{:08x}) value out of bounds",
                     block_offset, block_offset
                 )));
             }
-            self.block_offsets.push(block_offset);
+            last_block_offset = block_offset + (data_size as u64);
+
+            block_offsets.push(last_block_offset);
         }
+        self.block_offsets = block_offsets;
+
         if self.mediator.debug_output {
             self.mediator
                 .debug_print(format!("NtfsWofCompressedBlockOffsets {{\n",));
-- 
2.43.0


From 4f53093733c414b763bbe7c5699a898a9c90f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 137/156] fix: find format signatures at the end of small data
 streams

---
 keramics-formats/src/scanner.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/scanner.rs b/keramics-formats/src/scanner.rs
index 561d40f..9c75693 100644
--- a/keramics-formats/src/scanner.rs
+++ b/keramics-formats/src/scanner.rs
@@ -265,7 +265,7 @@ impl FormatScanner {
         // The size of the footer range can be larger than the size of the data stream.
         let mut data: Vec<u8> = vec![0; scan_context.footer_range_size as usize];
 
-        let data_offset: usize = if scan_context.footer_range_size < data_size {
+        let data_offset: usize = if scan_context.footer_range_size <= data_size {
             0
         } else {
             (scan_context.footer_range_size - data_size) as usize
@@ -280,11 +280,26 @@ impl FormatScanner {
             &mut data[data_offset..],
             SeekFrom::Start(data_stream_offset)
         );
-        scan_context.data_offset = data_stream_offset;
-        scan_context.scan_buffer(&data);
+        // Note that data smaller than the footer range is padded, hence the signatures bound to
+        // the end are relative to the size of the padded data.
+        let mut footer_scan_context: ScanContext =
+            ScanContext::new(&self.signature_scanner, data_size + data_offset as u64);
+
+        footer_scan_context.data_offset = data_stream_offset;
+        footer_scan_context.scan_buffer(&data);
 
         let mut scan_results: HashSet<FormatIdentifier> = HashSet::new();
-        for signature in scan_context.results.values() {
+
+        let header_signatures = scan_context
+            .results
+            .values()
+            .filter(|signature| signature.pattern_type != PatternType::BoundToEnd);
+        let footer_signatures = footer_scan_context
+            .results
+            .values()
+            .filter(|signature| signature.pattern_type == PatternType::BoundToEnd);
+
+        for signature in header_signatures.chain(footer_signatures) {
             let format_identifier: FormatIdentifier = match signature.identifier.as_str() {
                 "apm1" => FormatIdentifier::Apm,
                 "ext1" => FormatIdentifier::Ext,
-- 
2.43.0


From a97b8e057097ba5e7c3c9975db31ef95ca5800d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 138/156] fix: keep the character encoding of the stem and
 extension of ext and FAT file names

---
 keramics-formats/src/ext/path.rs | 10 ++++++++--
 keramics-formats/src/fat/path.rs | 14 ++++++++------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/keramics-formats/src/ext/path.rs b/keramics-formats/src/ext/path.rs
index cb946e2..ae69cc4 100644
--- a/keramics-formats/src/ext/path.rs
+++ b/keramics-formats/src/ext/path.rs
@@ -59,7 +59,10 @@ impl ExtPath {
                 Some(value_index) => {
                     // Note that value_index is relative to the end of the string.
                     let string_index: usize = byte_string.elements.len() - value_index;
-                    Some(ByteString::from(&byte_string.elements[string_index..]))
+                    Some(ByteString {
+                        encoding: byte_string.encoding.clone(),
+                        elements: byte_string.elements[string_index..].to_vec(),
+                    })
                 }
                 None => None,
             },
@@ -80,7 +83,10 @@ impl ExtPath {
                 Some(value_index) => {
                     // Note that value_index is relative to the end of the string.
                     let string_size: usize = byte_string.elements.len() - value_index - 1;
-                    Some(ByteString::from(&byte_string.elements[0..string_size]))
+                    Some(ByteString {
+                        encoding: byte_string.encoding.clone(),
+                        elements: byte_string.elements[0..string_size].to_vec(),
+                    })
                 }
                 None => Some(byte_string.clone()),
             },
diff --git a/keramics-formats/src/fat/path.rs b/keramics-formats/src/fat/path.rs
index 72b57c9..b51d391 100644
--- a/keramics-formats/src/fat/path.rs
+++ b/keramics-formats/src/fat/path.rs
@@ -61,9 +61,10 @@ impl FatPath {
                 Some(value_index) => {
                     // Note that value_index is relative to the end of the string.
                     let string_index: usize = byte_string.elements.len() - value_index;
-                    Some(FatString::ByteString(ByteString::from(
-                        &byte_string.elements[string_index..],
-                    )))
+                    Some(FatString::ByteString(ByteString {
+                        encoding: byte_string.encoding.clone(),
+                        elements: byte_string.elements[string_index..].to_vec(),
+                    }))
                 }
                 None => None,
             },
@@ -100,9 +101,10 @@ impl FatPath {
                 Some(value_index) => {
                     // Note that value_index is relative to the end of the string.
                     let string_size: usize = byte_string.elements.len() - value_index - 1;
-                    Some(FatString::ByteString(ByteString::from(
-                        &byte_string.elements[0..string_size],
-                    )))
+                    Some(FatString::ByteString(ByteString {
+                        encoding: byte_string.encoding.clone(),
+                        elements: byte_string.elements[0..string_size].to_vec(),
+                    }))
                 }
                 None => Some(FatString::ByteString(byte_string.clone())),
             },
-- 
2.43.0


From f8c354612608729324f3dec439ea784af612336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 139/156] fix: stem and extension of byte and UCS-2 string path
 components

---
 keramics-formats/src/path_component.rs | 76 +++++++++++++++++++++++---
 1 file changed, 68 insertions(+), 8 deletions(-)

diff --git a/keramics-formats/src/path_component.rs b/keramics-formats/src/path_component.rs
index a0c32e6..399feb7 100644
--- a/keramics-formats/src/path_component.rs
+++ b/keramics-formats/src/path_component.rs
@@ -25,23 +25,67 @@ pub enum PathComponent {
 impl PathComponent {
     /// Retrieves the extension if available.
     pub fn extension(&self) -> Option<PathComponent> {
+        // Note that a leading dot is not considered to precede an extension.
         match self {
-            PathComponent::String(string) => {
-                // Note that a leading dot is not considered to precede an extension.
-                match string.rfind('.') {
-                    Some(string_index) if string_index > 0 => Some(PathComponent::String(
-                        string[string_index + 1..].to_string(),
-                    )),
+            PathComponent::ByteString(byte_string) => {
+                match byte_string
+                    .elements
+                    .iter()
+                    .rposition(|value| *value == 0x2e)
+                {
+                    Some(value_index) if value_index > 0 => {
+                        Some(PathComponent::ByteString(ByteString {
+                            encoding: byte_string.encoding.clone(),
+                            elements: byte_string.elements[value_index + 1..].to_vec(),
+                        }))
+                    }
+                    _ => None,
+                }
+            }
+            PathComponent::String(string) => match string.rfind('.') {
+                Some(string_index) if string_index > 0 => Some(PathComponent::String(
+                    string[string_index + 1..].to_string(),
+                )),
+                _ => None,
+            },
+            PathComponent::Ucs2String(ucs2_string) => {
+                match ucs2_string
+                    .elements
+                    .iter()
+                    .rposition(|value| *value == 0x002e)
+                {
+                    Some(value_index) if value_index > 0 => {
+                        Some(PathComponent::Ucs2String(Ucs2String {
+                            elements: ucs2_string.elements[value_index + 1..].to_vec(),
+                        }))
+                    }
                     _ => None,
                 }
             }
-            _ => todo!(),
         }
     }
 
     /// Retrieves the file stem if available.
     pub fn file_stem(&self) -> Option<PathComponent> {
         match self {
+            PathComponent::ByteString(byte_string) => {
+                if byte_string.is_empty() {
+                    return None;
+                }
+                match byte_string
+                    .elements
+                    .iter()
+                    .rposition(|value| *value == 0x2e)
+                {
+                    Some(value_index) if value_index > 0 => {
+                        Some(PathComponent::ByteString(ByteString {
+                            encoding: byte_string.encoding.clone(),
+                            elements: byte_string.elements[0..value_index].to_vec(),
+                        }))
+                    }
+                    _ => Some(PathComponent::ByteString(byte_string.clone())),
+                }
+            }
             PathComponent::String(string) => {
                 if string.is_empty() {
                     None
@@ -54,7 +98,23 @@ impl PathComponent {
                     }
                 }
             }
-            _ => todo!(),
+            PathComponent::Ucs2String(ucs2_string) => {
+                if ucs2_string.is_empty() {
+                    return None;
+                }
+                match ucs2_string
+                    .elements
+                    .iter()
+                    .rposition(|value| *value == 0x002e)
+                {
+                    Some(value_index) if value_index > 0 => {
+                        Some(PathComponent::Ucs2String(Ucs2String {
+                            elements: ucs2_string.elements[0..value_index].to_vec(),
+                        }))
+                    }
+                    _ => Some(PathComponent::Ucs2String(ucs2_string.clone())),
+                }
+            }
         }
     }
 
-- 
2.43.0


From b82367e833a435659af6a38df3d276c70d02b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 140/156] fix: VFS context: file systems of another type on the
 same parent location

---
 keramics-vfs/src/context.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/keramics-vfs/src/context.rs b/keramics-vfs/src/context.rs
index dc5a0e7..1509850 100644
--- a/keramics-vfs/src/context.rs
+++ b/keramics-vfs/src/context.rs
@@ -25,8 +25,8 @@ use super::types::VfsFileSystemReference;
 
 /// Virtual File System (VFS) context.
 pub struct VfsContext {
-    /// File systems.
-    file_systems: HashMap<VfsLocation, Weak<VfsFileSystem>>,
+    /// File systems, per type and parent location.
+    file_systems: HashMap<(VfsType, VfsLocation), Weak<VfsFileSystem>>,
 
     /// Operating system (OS) file system path.
     os_vfs_location: VfsLocation,
@@ -90,12 +90,14 @@ impl VfsContext {
         };
         let parent_vfs_location: Option<&VfsLocation> = vfs_location.get_parent();
 
-        let lookup_key: &VfsLocation = match parent_vfs_location {
-            Some(parent_vfs_location) => parent_vfs_location,
-            None => &self.os_vfs_location,
+        let file_system_path: VfsLocation = match parent_vfs_location {
+            Some(parent_vfs_location) => parent_vfs_location.clone(),
+            None => self.os_vfs_location.clone(),
         };
+        let lookup_key: (VfsType, VfsLocation) = (vfs_type.clone(), file_system_path);
+
         let cached_file_system: Option<VfsFileSystemReference> =
-            match self.file_systems.get(lookup_key) {
+            match self.file_systems.get(&lookup_key) {
                 Some(file_system) => file_system.upgrade(),
                 None => None,
             };
@@ -115,12 +117,8 @@ impl VfsContext {
                     },
                     None => None,
                 };
-                let file_system_path: VfsLocation = match parent_vfs_location {
-                    Some(parent_vfs_location) => parent_vfs_location.clone(),
-                    None => self.os_vfs_location.clone(),
-                };
                 let mut file_system: VfsFileSystem = VfsFileSystem::new(&vfs_type);
-                match file_system.open(parent_file_system.as_ref(), &file_system_path) {
+                match file_system.open(parent_file_system.as_ref(), &lookup_key.1) {
                     Ok(()) => {}
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(error, "Unable to open file system");
@@ -131,7 +129,7 @@ impl VfsContext {
                     VfsFileSystemReference::new(file_system);
 
                 self.file_systems.insert(
-                    file_system_path,
+                    lookup_key,
                     VfsFileSystemReference::downgrade(&cached_file_system),
                 );
                 Ok(cached_file_system)
-- 
2.43.0


From 85e1fd16aeb23a8dfcb4964be871678abcbd3ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 141/156] fix: scan of sparse images and UDIF images

---
 keramics-vfs/src/scanner/scanner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keramics-vfs/src/scanner/scanner.rs b/keramics-vfs/src/scanner/scanner.rs
index 1fdca15..853c7be 100644
--- a/keramics-vfs/src/scanner/scanner.rs
+++ b/keramics-vfs/src/scanner/scanner.rs
@@ -184,6 +184,8 @@ impl VfsScanner {
             }
             VfsType::Ewf { .. }
             | VfsType::Qcow { .. }
+            | VfsType::SparseImage { .. }
+            | VfsType::Udif { .. }
             | VfsType::Vhd { .. }
             | VfsType::Vhdx { .. } => {
                 let mut result: Option<VfsType> =
-- 
2.43.0


From 79b6b4650c03ceab4eb3b7a8a12978f1386f601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 142/156] fix: target of NTFS symbolic links without a \??\
 prefix

---
 keramics-vfs/src/file_entry.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/keramics-vfs/src/file_entry.rs b/keramics-vfs/src/file_entry.rs
index 6c099dc..8ba967a 100644
--- a/keramics-vfs/src/file_entry.rs
+++ b/keramics-vfs/src/file_entry.rs
@@ -310,10 +310,13 @@ impl VfsFileEntry {
             {
                 Ok(result) => match result {
                     Some(name) => {
-                        let path_components: Vec<Ucs2String> = name
+                        // Strip leading "\\??\\".
+                        let elements: &[u16] = name
                             .elements
+                            .strip_prefix(&[0x005c, 0x003f, 0x003f, 0x005c])
+                            .unwrap_or(&name.elements);
+                        let path_components: Vec<Ucs2String> = elements
                             .split(|value| *value == 0x005c)
-                            .skip(2) // Strip leading "\\??\\".
                             .map(|component| Ucs2String::from(component))
                             .collect::<Vec<Ucs2String>>();
                         Ok(Some(VfsPath::Ntfs(NtfsPath {
-- 
2.43.0


From 0996cc73bc65774cea31c9aa058fe960a268f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 143/156] fix: names of partitions and layers with a leading
 sign or zeros

---
 keramics-vfs/src/apm/file_system.rs  | 4 ++++
 keramics-vfs/src/gpt/file_system.rs  | 4 ++++
 keramics-vfs/src/mbr/file_system.rs  | 4 ++++
 keramics-vfs/src/qcow/file_system.rs | 4 ++++
 keramics-vfs/src/vhd/file_system.rs  | 4 ++++
 keramics-vfs/src/vhdx/file_system.rs | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/keramics-vfs/src/apm/file_system.rs b/keramics-vfs/src/apm/file_system.rs
index 4f4296b..1173718 100644
--- a/keramics-vfs/src/apm/file_system.rs
+++ b/keramics-vfs/src/apm/file_system.rs
@@ -114,6 +114,10 @@ impl ApmFileSystem {
         if !file_name.starts_with("apm") {
             return None;
         }
+        // Note that parse allows for a leading plus sign and zeros.
+        if !file_name[3..].starts_with(|value: char| value >= '1' && value <= '9') {
+            return None;
+        }
         match file_name[3..].parse::<usize>() {
             Ok(partition_index) => {
                 if partition_index > 0 && partition_index <= self.number_of_partitions {
diff --git a/keramics-vfs/src/gpt/file_system.rs b/keramics-vfs/src/gpt/file_system.rs
index 71e23af..c06954a 100644
--- a/keramics-vfs/src/gpt/file_system.rs
+++ b/keramics-vfs/src/gpt/file_system.rs
@@ -114,6 +114,10 @@ impl GptFileSystem {
         if !file_name.starts_with("gpt") {
             return None;
         }
+        // Note that parse allows for a leading plus sign and zeros.
+        if !file_name[3..].starts_with(|value: char| value >= '1' && value <= '9') {
+            return None;
+        }
         match file_name[3..].parse::<usize>() {
             Ok(partition_index) => {
                 if partition_index > 0 && partition_index <= self.number_of_partitions {
diff --git a/keramics-vfs/src/mbr/file_system.rs b/keramics-vfs/src/mbr/file_system.rs
index e7f1c64..9a1d848 100644
--- a/keramics-vfs/src/mbr/file_system.rs
+++ b/keramics-vfs/src/mbr/file_system.rs
@@ -114,6 +114,10 @@ impl MbrFileSystem {
         if !file_name.starts_with("mbr") {
             return None;
         }
+        // Note that parse allows for a leading plus sign and zeros.
+        if !file_name[3..].starts_with(|value: char| value >= '1' && value <= '9') {
+            return None;
+        }
         match file_name[3..].parse::<usize>() {
             Ok(partition_index) => {
                 if partition_index > 0 && partition_index <= self.number_of_partitions {
diff --git a/keramics-vfs/src/qcow/file_system.rs b/keramics-vfs/src/qcow/file_system.rs
index d033df1..61df2f8 100644
--- a/keramics-vfs/src/qcow/file_system.rs
+++ b/keramics-vfs/src/qcow/file_system.rs
@@ -112,6 +112,10 @@ impl QcowFileSystem {
         if !file_name.starts_with("qcow") {
             return None;
         }
+        // Note that parse allows for a leading plus sign and zeros.
+        if !file_name[4..].starts_with(|value: char| value >= '1' && value <= '9') {
+            return None;
+        }
         match file_name[4..].parse::<usize>() {
             Ok(layer_index) => {
                 if layer_index > 0 && layer_index <= self.number_of_layers {
diff --git a/keramics-vfs/src/vhd/file_system.rs b/keramics-vfs/src/vhd/file_system.rs
index 598d2e1..9671351 100644
--- a/keramics-vfs/src/vhd/file_system.rs
+++ b/keramics-vfs/src/vhd/file_system.rs
@@ -115,6 +115,10 @@ impl VhdFileSystem {
         if !file_name.starts_with("vhd") {
             return None;
         }
+        // Note that parse allows for a leading plus sign and zeros.
+        if !file_name[3..].starts_with(|value: char| value >= '1' && value <= '9') {
+            return None;
+        }
         match file_name[3..].parse::<usize>() {
             Ok(layer_index) => {
                 if layer_index > 0 && layer_index <= self.number_of_layers {
diff --git a/keramics-vfs/src/vhdx/file_system.rs b/keramics-vfs/src/vhdx/file_system.rs
index 9dd98a9..ef9453c 100644
--- a/keramics-vfs/src/vhdx/file_system.rs
+++ b/keramics-vfs/src/vhdx/file_system.rs
@@ -115,6 +115,10 @@ impl VhdxFileSystem {
         if !file_name.starts_with("vhdx") {
             return None;
         }
+        // Note that parse allows for a leading plus sign and zeros.
+        if !file_name[4..].starts_with(|value: char| value >= '1' && value <= '9') {
+            return None;
+        }
         match file_name[4..].parse::<usize>() {
             Ok(layer_index) => {
                 if layer_index > 0 && layer_index <= self.number_of_layers {
-- 
2.43.0


From a3a8e3057200aac8e53cd5f5ec22b7619c9d9a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 144/156] fix: times of operating system files that do not fit
 in 32 bits

---
 keramics-vfs/src/os/file_entry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-vfs/src/os/file_entry.rs b/keramics-vfs/src/os/file_entry.rs
index 013511b..bd5bfc7 100644
--- a/keramics-vfs/src/os/file_entry.rs
+++ b/keramics-vfs/src/os/file_entry.rs
@@ -120,7 +120,10 @@ impl OsFileEntry {
         if fraction != 0 {
             DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction as u32))
         } else if timestamp != 0 {
-            DateTime::PosixTime32(PosixTime32::new(timestamp as i32))
+            match i32::try_from(timestamp) {
+                Ok(timestamp) => DateTime::PosixTime32(PosixTime32::new(timestamp)),
+                Err(_) => DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, 0)),
+            }
         } else {
             DateTime::NotSet
         }
-- 
2.43.0


From a99887f2e160ab4c8527f4eeea45e2a26410df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 145/156] fix: operating system sockets

---
 keramics-vfs/src/os/file_entry.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/keramics-vfs/src/os/file_entry.rs b/keramics-vfs/src/os/file_entry.rs
index bd5bfc7..a7076ae 100644
--- a/keramics-vfs/src/os/file_entry.rs
+++ b/keramics-vfs/src/os/file_entry.rs
@@ -150,6 +150,7 @@ impl OsFileEntry {
             0x6000 => VfsFileType::BlockDevice,
             0x8000 => VfsFileType::File,
             0xa000 => VfsFileType::SymbolicLink,
+            0xc000 => VfsFileType::Socket,
             _ => {
                 return Err(keramics_core::error_trace_new!("Unsupported file mode"));
             }
-- 
2.43.0


From 12a4f137f31825b3d2647958c45dedb3e4738c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 146/156] fix: string representation of layered VFS locations

---
 keramics-vfs/src/location.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-vfs/src/location.rs b/keramics-vfs/src/location.rs
index db810b0..0e707fc 100644
--- a/keramics-vfs/src/location.rs
+++ b/keramics-vfs/src/location.rs
@@ -102,8 +102,8 @@ impl VfsLocation {
             } => {
                 format!(
                     "{}\ntype: {}: path: {}\n",
-                    vfs_type.as_str(),
                     parent.to_string(),
+                    vfs_type.as_str(),
                     path.to_string()
                 )
             }
-- 
2.43.0


From 5b68964d8dfb2f2f0d1b9303f01e5629566929e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 147/156] fix: operating system paths with a name that is not
 UTF-8

---
 keramics-vfs/src/path.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/keramics-vfs/src/path.rs b/keramics-vfs/src/path.rs
index f022b1d..bdff4e9 100644
--- a/keramics-vfs/src/path.rs
+++ b/keramics-vfs/src/path.rs
@@ -13,6 +13,12 @@
 
 use std::path::PathBuf;
 
+#[cfg(unix)]
+use std::ffi::OsStr;
+
+#[cfg(unix)]
+use std::os::unix::ffi::OsStrExt;
+
 use keramics_core::ErrorTrace;
 use keramics_formats::PathComponent;
 use keramics_formats::ext::ExtPath;
@@ -138,15 +144,18 @@ impl VfsPath {
                 let mut new_path_buf: PathBuf = path_buf.clone();
 
                 for path_component in path_components {
-                    let string: String = match path_component {
-                        PathComponent::String(string) => string.clone(),
+                    match path_component {
+                        #[cfg(unix)]
+                        PathComponent::ByteString(byte_string) => {
+                            new_path_buf.push(OsStr::from_bytes(&byte_string.elements));
+                        }
+                        PathComponent::String(string) => new_path_buf.push(string),
                         _ => {
                             return Err(keramics_core::error_trace_new!(
                                 "Unsupported path component"
                             ));
                         }
-                    };
-                    new_path_buf.push(string);
+                    }
                 }
                 VfsPath::Os(new_path_buf)
             }
@@ -223,7 +232,12 @@ impl VfsPath {
                 None => None,
             },
             VfsPath::Os(path_buf) => match path_buf.file_name() {
-                Some(os_str) => Some(PathComponent::String(os_str.to_str().unwrap().to_string())),
+                Some(os_str) => match os_str.to_str() {
+                    Some(string) => Some(PathComponent::String(string.to_string())),
+                    None => Some(PathComponent::ByteString(ByteString::from(
+                        os_str.as_encoded_bytes(),
+                    ))),
+                },
                 None => None,
             },
             VfsPath::String(string_path) => match string_path.file_name() {
-- 
2.43.0


From d0acdc547bf994d6e0b3b70bd340d6b59c8ad737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 148/156] fix: support FAT date and time values in a bodyfile

---
 keramics-tools/src/bodyfile.rs | 45 ++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/keramics-tools/src/bodyfile.rs b/keramics-tools/src/bodyfile.rs
index c1dfae6..2bddc38 100644
--- a/keramics-tools/src/bodyfile.rs
+++ b/keramics-tools/src/bodyfile.rs
@@ -53,6 +53,31 @@ impl Bodyfile {
         Ok(format_as_string(&hash_value))
     }
 
+    /// Retrieves the number of seconds since January 1, 1970 of a FAT date and time, which is
+    /// considered to be in UTC, or None if the date is not set or invalid.
+    fn get_fat_timestamp(date: u16, time: u16) -> Option<i64> {
+        let month: i64 = ((date >> 5) & 0x0f) as i64;
+        let day_of_month: i64 = (date & 0x1f) as i64;
+
+        if month < 1 || month > 12 || day_of_month < 1 {
+            return None;
+        }
+        // Count years from March 1 so that a leap day is the last day of a year.
+        let mut year: i64 = 1980 + ((date >> 9) & 0x7f) as i64;
+        if month < 3 {
+            year -= 1;
+        }
+        let day_of_year: i64 = (153 * ((month + 9) % 12) + 2) / 5 + day_of_month - 1;
+        let number_of_days: i64 =
+            365 * year + year / 4 - year / 100 + year / 400 + day_of_year - 719468;
+
+        let hours: i64 = ((time >> 11) & 0x1f) as i64;
+        let minutes: i64 = ((time >> 5) & 0x3f) as i64;
+        let seconds: i64 = ((time & 0x1f) * 2) as i64;
+
+        Some(number_of_days * 86400 + hours * 3600 + minutes * 60 + seconds)
+    }
+
     /// Formats a date and time value as a bodyfile timestamp.
     pub fn format_as_timestamp(date_time: Option<&DateTime>) -> Result<String, ErrorTrace> {
         // Note that a timestamp value of 0 can represent that the timestamp is not present or
@@ -60,6 +85,26 @@ impl Bodyfile {
 
         let string: String = match date_time {
             Some(date_time) => match date_time {
+                DateTime::FatDate(fat_date) => match Self::get_fat_timestamp(fat_date.date, 0) {
+                    Some(timestamp) => format!("{}", timestamp),
+                    None => String::from(""),
+                },
+                DateTime::FatTimeDate(fat_time_date) => {
+                    match Self::get_fat_timestamp(fat_time_date.date, fat_time_date.time) {
+                        Some(timestamp) => format!("{}", timestamp),
+                        None => String::from(""),
+                    }
+                }
+                DateTime::FatTimeDate10Ms(fat_time_date) => {
+                    match Self::get_fat_timestamp(fat_time_date.date, fat_time_date.time) {
+                        Some(timestamp) => format!(
+                            "{}.{:02}",
+                            timestamp + (fat_time_date.fraction as i64 / 100),
+                            fat_time_date.fraction % 100
+                        ),
+                        None => String::from(""),
+                    }
+                }
                 DateTime::Filetime(filetime) => {
                     let mut number_of_seconds: u64 = filetime.timestamp / 10000000;
                     let mut fraction: u64 = filetime.timestamp % 10000000;
-- 
2.43.0


From fa35cf88baab4034761daa142410c2dd85d3b371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:23 +0000
Subject: [PATCH 149/156] fix: bodyfile timestamps before 1970 with a fraction
 of a second

---
 keramics-tools/src/bodyfile.rs | 38 ++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/keramics-tools/src/bodyfile.rs b/keramics-tools/src/bodyfile.rs
index 2bddc38..93cfc07 100644
--- a/keramics-tools/src/bodyfile.rs
+++ b/keramics-tools/src/bodyfile.rs
@@ -78,6 +78,21 @@ impl Bodyfile {
         Some(number_of_days * 86400 + hours * 3600 + minutes * 60 + seconds)
     }
 
+    /// Formats a number of intervals since January 1, 1970 as seconds with a fraction.
+    fn format_number_of_intervals(number_of_intervals: i128, number_of_digits: usize) -> String {
+        let intervals_per_second: u128 = 10u128.pow(number_of_digits as u32);
+        let absolute_value: u128 = number_of_intervals.unsigned_abs();
+        let sign: &str = if number_of_intervals < 0 { "-" } else { "" };
+
+        format!(
+            "{}{}.{:0width$}",
+            sign,
+            absolute_value / intervals_per_second,
+            absolute_value % intervals_per_second,
+            width = number_of_digits,
+        )
+    }
+
     /// Formats a date and time value as a bodyfile timestamp.
     pub fn format_as_timestamp(date_time: Option<&DateTime>) -> Result<String, ErrorTrace> {
         // Note that a timestamp value of 0 can represent that the timestamp is not present or
@@ -105,23 +120,16 @@ impl Bodyfile {
                         None => String::from(""),
                     }
                 }
-                DateTime::Filetime(filetime) => {
-                    let mut number_of_seconds: u64 = filetime.timestamp / 10000000;
-                    let mut fraction: u64 = filetime.timestamp % 10000000;
-
-                    if number_of_seconds < 11644473600 && fraction > 0 {
-                        number_of_seconds += 1;
-                        fraction = 10000000 - fraction;
-                    };
-                    let posix_time: i64 = (number_of_seconds as i64) - 11644473600;
-
-                    format!("{}.{:07}", posix_time, fraction)
-                }
+                DateTime::Filetime(filetime) => Self::format_number_of_intervals(
+                    (filetime.timestamp as i128) - 116444736000000000,
+                    7,
+                ),
                 DateTime::NotSet => String::from(""),
                 DateTime::PosixTime32(posix_time32) => format!("{}", posix_time32.timestamp),
-                DateTime::PosixTime64Ns(posix_time64ns) => format!(
-                    "{}.{:09}",
-                    posix_time64ns.timestamp, posix_time64ns.fraction
+                DateTime::PosixTime64Ns(posix_time64ns) => Self::format_number_of_intervals(
+                    (posix_time64ns.timestamp as i128) * 1000000000
+                        + (posix_time64ns.fraction as i128),
+                    9,
                 ),
                 _ => return Err(keramics_core::error_trace_new!("Unsupported date time")),
             },
-- 
2.43.0


From ae3632d4f7d357b7e1583c7bb9aeb694ab014c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 150/156] fix: display paths of names that cannot be decoded

---
 keramics-tools/src/display_path.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-tools/src/display_path.rs b/keramics-tools/src/display_path.rs
index f10c700..522dad9 100644
--- a/keramics-tools/src/display_path.rs
+++ b/keramics-tools/src/display_path.rs
@@ -76,7 +76,9 @@ impl DisplayPath {
                             };
                             string_parts.push(string);
                         }
-                        Err(error) => todo!(),
+                        Err(_) => {
+                            string_parts.push(String::from(char::REPLACEMENT_CHARACTER));
+                        }
                     }
                 }
                 string_parts.join("")
-- 
2.43.0


From 1be4875be39536c0112ec5f1cd58480d3646e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 151/156] fix: debug output of LZNT1 data that is cut off

---
 keramics-compression/src/lznt1.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/keramics-compression/src/lznt1.rs b/keramics-compression/src/lznt1.rs
index 3e60071..6427cac 100644
--- a/keramics-compression/src/lznt1.rs
+++ b/keramics-compression/src/lznt1.rs
@@ -143,6 +143,11 @@ impl Lznt1Context {
                 let uncompressed_data_end_offset: usize =
                     uncompressed_data_offset + block_header.block_size as usize;
 
+                if compressed_data_end_offset > compressed_data_size {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid compressed data value too small"
+                    ));
+                }
                 if self.mediator.debug_output {
                     self.mediator
                         .debug_print(format!("Lznt1Context::decompress {{\n",));
@@ -153,11 +158,6 @@ impl Lznt1Context {
                     );
                     self.mediator.debug_print(format!("}}\n\n"));
                 }
-                if compressed_data_end_offset > compressed_data_size {
-                    return Err(keramics_core::error_trace_new!(
-                        "Invalid compressed data value too small"
-                    ));
-                }
                 if uncompressed_data_end_offset > uncompressed_data_size {
                     return Err(keramics_core::error_trace_new!(
                         "Invalid uncompressed data value too small"
-- 
2.43.0


From af0a2edb2da5b1477385d364b953b72611455a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 152/156] fix: debug output of a bzip2 block without symbols

---
 keramics-compression/src/bzip2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index 0debd84..f63e7b0 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -706,7 +706,7 @@ impl Bzip2Context {
             // TODO: move to a debug_format_array like function.
             self.mediator
                 .debug_print(format!("    symbols: [0x{:02x}", symbol_stack[0]));
-            for symbol in &symbol_stack[1..symbol_index] {
+            for symbol in symbol_stack[..symbol_index].iter().skip(1) {
                 self.mediator.debug_print(format!(", 0x{:02x}", symbol));
             }
             self.mediator.debug_print(format!("],\n",));
-- 
2.43.0


From ed15fda3cc6feeef9f022d19cb7bb60d21020925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:30 +0000
Subject: [PATCH 153/156] fix: debug output of zlib data that is cut off

---
 keramics-compression/src/zlib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/zlib.rs b/keramics-compression/src/zlib.rs
index ba80067..053c3a9 100644
--- a/keramics-compression/src/zlib.rs
+++ b/keramics-compression/src/zlib.rs
@@ -139,6 +139,8 @@ impl ZlibContext {
     ) -> Result<(), ErrorTrace> {
         let mut data_header: ZlibDataHeader = ZlibDataHeader::new();
 
+        data_header.read_data(compressed_data)?;
+
         if self.mediator.debug_output {
             let header_size: usize = if compressed_data[1] & 0x20 == 0 { 2 } else { 6 };
 
@@ -151,8 +153,6 @@ impl ZlibContext {
             self.mediator
                 .debug_print(ZlibDataHeader::debug_read_data(compressed_data));
         }
-        data_header.read_data(compressed_data)?;
-
         let mut bitstream: DeflateBitstream =
             DeflateBitstream::new(&compressed_data, data_header.header_size);
         let mut deflate_context: DeflateContext = DeflateContext::new();
-- 
2.43.0


From f4c2e754e8d9136f51c6e000082fb3492a915d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:30 +0000
Subject: [PATCH 154/156] fix: debug output of negative values in a LZFSE block
 header

---
 keramics-compression/src/lzfse.rs    | 8 ++++++--
 keramics-layout-map/src/structure.rs | 9 +++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index ab0d899..2112402 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -251,7 +251,11 @@ impl LzfseBlockV1Header {
         field(name = "number_of_literals", data_type = "BitField64<20>"),
         field(name = "literals_data_size", data_type = "BitField64<20>"),
         field(name = "number_of_lmd_values", data_type = "BitField64<20>"),
-        field(name = "literal_bits", data_type = "BitField64<3>", modifier = "- 7"),
+        field(
+            name = "literal_bits",
+            data_type = "BitField64<3>",
+            modifier = "as i64 - 7"
+        ),
         field(name = "unknown1", data_type = "BitField64<1>"),
         field(name = "literal_state1", data_type = "BitField64<10>"),
         field(name = "literal_state2", data_type = "BitField64<10>"),
@@ -261,7 +265,7 @@ impl LzfseBlockV1Header {
         field(
             name = "lmd_values_bits",
             data_type = "BitField64<3>",
-            modifier = "- 7"
+            modifier = "as i64 - 7"
         ),
         field(name = "unknown2", data_type = "BitField64<1>"),
         field(name = "header_size", data_type = "BitField64<32>"),
diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 92e4d43..eb58b9d 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -682,16 +682,17 @@ impl StructureLayout {
             let field_modifier: TokenStream = bitfield.get_modifier_token_stream();
 
             // Note that the modifier applies to the bitfield value and not to its bit mask.
-            let quote_value = if field_modifier.is_empty() {
-                quote_from_packed_value
+            // The modifier can change the type of the value.
+            let quote_field = if field_modifier.is_empty() {
+                quote!(let #field_name: #field_type = #quote_from_packed_value;)
             } else {
-                quote!((#quote_from_packed_value) #field_modifier)
+                quote!(let #field_name = (#quote_from_packed_value) #field_modifier;)
             };
             let field_format_string: String = bitfield.get_format_string();
             let format_string: String =
                 format!("    {}: {},\n", bitfield.name, field_format_string);
             debug_read_bitfields.extend(quote! {
-                let #field_name: #field_type = #quote_value;
+                #quote_field
                 string_parts.push(format!(#format_string, #field_name));
 
             });
-- 
2.43.0


From e6f4c3f88d1a08fd9d327a6003dc2459a94e3fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 155/156] fix: formatting of byte sizes of 1 EiB and more

---
 keramics-tools/src/formatters.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/keramics-tools/src/formatters.rs b/keramics-tools/src/formatters.rs
index f6d4124..46f2bdd 100644
--- a/keramics-tools/src/formatters.rs
+++ b/keramics-tools/src/formatters.rs
@@ -16,12 +16,11 @@ const UNITS: [&str; 9] = ["", "K", "M", "G", "T", "P", "E", "Z", "Y"];
 /// Formats an integer as bytes size.
 pub fn format_as_bytesize(value: u64, base: u64) -> String {
     let mut factor: u64 = 1;
-    let mut next_factor: u64 = base;
     let mut units_index: usize = 0;
 
-    while next_factor <= value {
-        factor = next_factor;
-        next_factor *= base;
+    // Divide instead of multiply, since the next factor can exceed 64 bits.
+    while factor <= value / base {
+        factor *= base;
         units_index += 1;
     }
     if units_index > 0 {
-- 
2.43.0


From 4a417c47450d96eba40800ce7281c007bbede99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:42 +0000
Subject: [PATCH 156/156] fix: order of the parts of NTFS file references that
 keramicsinfo shows

---
 keramics-tools/src/info/ntfs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keramics-tools/src/info/ntfs.rs b/keramics-tools/src/info/ntfs.rs
index 1f3caa3..823daf9 100644
--- a/keramics-tools/src/info/ntfs.rs
+++ b/keramics-tools/src/info/ntfs.rs
@@ -220,8 +220,8 @@ impl NtfsInfo {
                                 entry_index + 1,
                                 attribute_type_string,
                                 entry.attribute_type,
-                                entry.file_reference >> 48,
                                 entry.file_reference & 0x0000ffffffffffff,
+                                entry.file_reference >> 48,
                             );
                         }
                         None => {
@@ -229,8 +229,8 @@ impl NtfsInfo {
                                 "    Entry: {}\t\t\t\t: 0x{:08x} with file reference: {}-{}",
                                 entry_index + 1,
                                 entry.attribute_type,
-                                entry.file_reference >> 48,
                                 entry.file_reference & 0x0000ffffffffffff,
+                                entry.file_reference >> 48,
                             );
                         }
                     };
@@ -517,8 +517,8 @@ impl NtfsInfo {
             } else {
                 println!(
                     "    Base record file reference\t\t: {}-{}",
-                    base_record_file_reference >> 48,
                     base_record_file_reference & 0x0000ffffffffffff,
+                    base_record_file_reference >> 48,
                 );
             }
             println!(
-- 
2.43.0

