From 80cc15c9292cbbc9d7f577505c5fbd9ca823eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 01/28] fix: report an out-of-range year instead of overflowing
 in Date::try_from_ymd

---
 src/date.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index 22f81d0..a669a3b 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -75,7 +75,10 @@ impl Date {
         // Handle negative years as BC
         if tm.year < 0 {
             bc = true;
-            tm.year = -tm.year;
+            tm.year = match tm.year.checked_neg() {
+                Some(year) => year,
+                None => return Err(DateTimeError::overflow()),
+            };
         }
 
         tm.validate_date(DTK_DATE_M, false, false, bc)?;
-- 
2.43.0


From 0adaa30c231a25736d09a2928f91fcf91cff540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 02/28] fix: avoid overflow converting very negative intervals
 to Time

---
 src/time.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index b6ed431..cf06693 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -262,13 +262,9 @@ impl TryFrom<Timestamp> for Option<Time> {
 impl From<Interval> for Time {
     #[inline]
     fn from(value: Interval) -> Self {
-        let mut result = value.time();
-        if result >= USECS_PER_DAY {
-            let days = result / USECS_PER_DAY;
-            result -= days * USECS_PER_DAY;
-        } else if result < 0 {
-            let days = (-result + USECS_PER_DAY - 1) / USECS_PER_DAY;
-            result += days * USECS_PER_DAY;
+        let mut result = value.time() % USECS_PER_DAY;
+        if result < 0 {
+            result += USECS_PER_DAY;
         }
         Time::from(result)
     }
-- 
2.43.0


From 819cf6d79fb0b7b03c0242e2d6934866f6d11a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 03/28] fix: reject NaN seconds in Time::try_from_hms

---
 src/time.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/time.rs b/src/time.rs
index cf06693..9de8817 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -55,6 +55,7 @@ impl Time {
         if h < 0
             || m < 0
             || m > MINS_PER_HOUR - 1
+            || s.is_nan()
             || s < 0.0
             || s > SECS_PER_MINUTE as f64
             || h > HOURS_PER_DAY
-- 
2.43.0


From 1324d22080c41118fb28d5c4e1e674e14805c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 04/28] fix: keep Time +/- Interval exact for very large
 intervals

---
 src/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index 9de8817..73d61ce 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -148,7 +148,7 @@ impl Time {
     /// `Time` Adds `Interval`.
     #[inline]
     pub fn add_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_add(span.time());
+        let mut result = self.value() + span.time() % USECS_PER_DAY;
         result -= result / USECS_PER_DAY * USECS_PER_DAY;
         if result < 0 {
             result += USECS_PER_DAY;
@@ -166,7 +166,7 @@ impl Time {
     /// `Time` subtracts `Interval`.
     #[inline]
     pub fn sub_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_sub(span.time());
+        let mut result = self.value() - span.time() % USECS_PER_DAY;
         result -= result / USECS_PER_DAY * USECS_PER_DAY;
         if result < 0 {
             result += USECS_PER_DAY;
-- 
2.43.0


From 3c9604dc4c9385e868f376e3028626ba8d27380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 05/28] fix: report overflow when subtracting distant
 timestamps

---
 src/timestamp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 0ed9903..b26fed7 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -345,7 +345,10 @@ impl Timestamp {
             )));
         }
 
-        let time = self.value() - timestamp.value();
+        let time = match self.value().checked_sub(timestamp.value()) {
+            Some(time) => time,
+            None => return Err(DateTimeError::overflow()),
+        };
 
         //	This is wrong, but removing it breaks a lot of regression tests.
         // For example:
-- 
2.43.0


From dd407a14957f7b1232ce1eb175e78c9bd01c2320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 06/28] fix: make Interval equality and hashing agree with its
 ordering

---
 src/interval.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index 44f45dc..48c9a5f 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -20,6 +20,7 @@ use crate::parse::{decode_interval, decode_iso8601_interval, parse_date_time};
 use crate::token::*;
 use crate::{DateTime, DateUnit, FieldType, IntervalStyle, Time};
 use std::cmp::Ordering;
+use std::hash::{Hash, Hasher};
 use std::mem::MaybeUninit;
 use std::ops::Add;
 
@@ -70,7 +71,7 @@ const fn interval_precision(t: i32) -> i32 {
 }
 
 /// Interval represents delta time.
-#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Debug)]
 #[repr(C)]
 pub struct Interval {
     /// All time units other than days, months and years.
@@ -991,6 +992,22 @@ impl Add<Interval> for Interval {
     }
 }
 
+impl PartialEq for Interval {
+    #[inline]
+    fn eq(&self, other: &Self) -> bool {
+        i128::from(*self) == i128::from(*other)
+    }
+}
+
+impl Eq for Interval {}
+
+impl Hash for Interval {
+    #[inline]
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        i128::from(*self).hash(state)
+    }
+}
+
 impl PartialOrd for Interval {
     #[inline]
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-- 
2.43.0


From 577c98e256de3b469b235ea549bdca3ba726364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 07/28] fix: refuse out-of-range results when adding an
 interval to a timestamp

---
 src/timestamp.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index b26fed7..9ac1a86 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -288,13 +288,19 @@ impl Timestamp {
                 let mut fsec = 0;
                 timestamp2time(timestamp, &None, &mut tm, &mut fsec, &mut None, &None)?;
                 // Add days by converting to and from Julian
-                let julian = date2julian(tm.year, tm.mon, tm.mday).wrapping_add(span.day());
+                let julian = match date2julian(tm.year, tm.mon, tm.mday).checked_add(span.day()) {
+                    Some(julian) if julian >= 0 => julian,
+                    _ => return Err(DateTimeError::overflow()),
+                };
                 let (y, m, d) = julian2date(julian);
                 tm.set_ymd(y, m, d);
                 timestamp = tm.to_timestamp(fsec, None)?;
             }
 
-            timestamp = timestamp.wrapping_add(span.time());
+            timestamp = match timestamp.checked_add(span.time()) {
+                Some(timestamp) => timestamp,
+                None => return Err(DateTimeError::overflow()),
+            };
 
             if !is_valid_timestamp(timestamp) {
                 return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From 97bea0acd95656a63c0b7395620a027b98d7dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 08/28] fix: refuse the age of an infinite timestamp

---
 src/timestamp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 9ac1a86..561d716 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -391,6 +391,13 @@ impl Timestamp {
     /// is done.
     #[inline]
     pub fn age(self, timestamp: Timestamp) -> Result<Interval, DateTimeError> {
+        if self.is_infinite() || timestamp.is_infinite() {
+            return Err(DateTimeError::invalid(format!(
+                "age have infinite, left: {:?}, right: {:?}",
+                self, timestamp
+            )));
+        }
+
         let mut tm: PgTime = PgTime::new();
         let mut tm1: PgTime = PgTime::new();
         let mut tm2: PgTime = PgTime::new();
-- 
2.43.0


From 0339ff530fa0e588bdb3156d591c1f7ea64d59ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 09/28] fix: truncate late December days of ISO week 1 to the
 right week

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 7e658e9..3d1d22d 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -147,7 +147,7 @@ impl PgTime {
             self.year -= 1;
         }
         if woy <= 1 && self.mon == MONTHS_PER_YEAR {
-            self.year -= 1;
+            self.year += 1;
         }
         iso_week_to_date(woy, self);
         self.hour = 0;
-- 
2.43.0


From c07ad81bc520754be18b416ca32f7ede540d4229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 10/28] fix: truncating an infinite timestamp or date gives
 that infinity

---
 src/timestamp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 561d716..965a414 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -890,6 +890,11 @@ impl DateTime for Timestamp {
     /// Truncates `Timestamp` to specified units.
     #[inline]
     fn truncate(&self, ty: FieldType, unit: DateUnit) -> Result<Self, DateTimeError> {
+        // infinities lie in no unit, they are kept.
+        if self.is_infinite() {
+            return Ok(*self);
+        }
+
         match ty {
             FieldType::Unit => {
                 let mut tm = PgTime::new();
-- 
2.43.0


From 9f8cea841a538dedf2396c6c7e6c90571169330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 11/28] fix: keep Interval::from_pgtime exact for large hour
 counts

---
 src/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index 48c9a5f..5eacd4e 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -399,7 +399,7 @@ impl Interval {
         let month = total_months as i32;
         let day = tm.mday;
         let time =
-            (((((tm.hour * 60) + tm.min) as i64 * 60) + tm.sec as i64) * USECS_PER_SEC) + fsec;
+            ((((tm.hour as i64 * 60) + tm.min as i64) * 60 + tm.sec as i64) * USECS_PER_SEC) + fsec;
         Ok(Self::from_mdt(month, day, time))
     }
 
-- 
2.43.0


From daa5224b59b81f1db58b03590bc1c13890c1e2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 12/28] fix: extract no ISO year zero

---
 src/timestamp.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 965a414..73d32fa 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -835,7 +835,15 @@ impl DateTime for Timestamp {
                         Ok(result)
                     }
 
-                    DateUnit::IsoYear => Ok(date_to_iso_year(tm.year, tm.mon, tm.mday) as f64),
+                    DateUnit::IsoYear => {
+                        let year = date_to_iso_year(tm.year, tm.mon, tm.mday);
+                        if year > 0 {
+                            Ok(year as f64)
+                        } else {
+                            // there is no year 0, just 1 BC and 1 AD.
+                            Ok((year - 1) as f64)
+                        }
+                    }
                     DateUnit::Dow | DateUnit::IsoDow => {
                         let mut tm = PgTime::new();
                         let mut fsec = 0;
-- 
2.43.0


From 6e37049451055c100f76207898112584ad4e5a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 13/28] fix: write the Postgres day-first date with the
 separator its month-first form uses

---
 src/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index a669a3b..c819b8b 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -346,7 +346,7 @@ fn format_date(
             // traditional date-only style for Postgres.
             if date_order == DateOrder::DMY {
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);
-                offset = set_one_byte(s, offset, b'-');
+                offset = set_one_byte(s, offset, b'.');
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mon, 2);
             } else {
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mon, 2);
-- 
2.43.0


From 28fe3f9c8b496c8c25a776e6be5f8767d2639ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 14/28] fix: read "feb" as February

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 532bb64..e1f6bcf 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -335,7 +335,7 @@ const DATE_TOKEN_TABLE: [DateToken; 280] = [
     DateToken::new(b"egt", TZ, -3600),     // East Greenland Time
     DateToken::new(EPOCH, RESERV, Epoch.value()), // "epoch" reserved for system epoch time
     DateToken::new(b"est", TZ, -18000),    // Eastern Standard Time
-    DateToken::new(b"fe", MONTH, 2),
+    DateToken::new(b"feb", MONTH, 2),
     DateToken::new(b"february", MONTH, 2),
     DateToken::new(b"fjst", DTZ, -46800), // Fiji Summer Time (13 hour offset!)
     DateToken::new(b"fjt", TZ, -43200),   // Fiji Time
-- 
2.43.0


From f34f0c76ffb3cf807eb55dbc1b2499dda75a0d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:10 +0000
Subject: [PATCH 15/28] fix: tell the number decoder when the month was a name

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 51d46c8..f6995a7 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1604,7 +1604,7 @@ impl DecodeDateTimeCtx {
             else {
                 decode_number(
                     str,
-                    false,
+                    self.have_text_month,
                     self.f_mask,
                     &mut self.t_mask,
                     tm,
-- 
2.43.0


From 2087d3a4770901a1fc7da69b6c7a93155cb81f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 16/28] fix: format interval fields whose magnitude exceeds i32

---
 src/common.rs   |  7 ++++---
 src/interval.rs | 17 +++++++++--------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 3d1d22d..2dc842f 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -661,12 +661,12 @@ pub const MAX_INTERVAL_PRECISION: usize = 6;
 /// Note: Caller must ensure that 'str' points to enough memory to hold the
 /// result.
 #[inline]
-pub fn pg_ltostr(s: &mut [u8], value: i32) -> usize {
+pub fn pg_ltostr(s: &mut [u8], value: impl Into<i64>) -> usize {
     let mut start = 0;
     // Handle negative numbers in a special way.  We can't just write a '-'
     // prefix and reverse the sign as that would overflow for INT32_MIN.
     let mut new_start = 0;
-    let mut value = value;
+    let mut value: i64 = value.into();
     if value < 0 {
         s[0] = b'-';
         start = 1;
@@ -730,7 +730,8 @@ pub fn pg_ltostr(s: &mut [u8], value: i32) -> usize {
 /// Note: Caller must ensure that 'str' points to enough memory to hold the
 /// result.
 #[inline]
-pub fn pg_ltostr_zeropad(s: &mut [u8], value: i32, min_width: usize) -> usize {
+pub fn pg_ltostr_zeropad(s: &mut [u8], value: impl Into<i64>, min_width: usize) -> usize {
+    let value: i64 = value.into();
     let mut start = 0;
     let end = min_width;
     let mut num = value;
diff --git a/src/interval.rs b/src/interval.rs
index 5eacd4e..1e27572 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -627,11 +627,12 @@ fn format_interval(
     mut fsec: i64,
     style: IntervalStyle,
 ) -> Result<usize, DateTimeError> {
-    let mut year = tm.year;
-    let mut mon = tm.mon;
-    let mut mday = tm.mday;
-    let mut hour = tm.hour;
-    let mut min = tm.min;
+    // The printed fields are held as i64: their magnitude may not fit i32.
+    let mut year = i64::from(tm.year);
+    let mut mon = i64::from(tm.mon);
+    let mut mday = i64::from(tm.mday);
+    let mut hour = i64::from(tm.hour);
+    let mut min = i64::from(tm.min);
     let mut sec = tm.sec;
     let mut is_before = false;
     let mut is_zero = true;
@@ -885,7 +886,7 @@ fn format_interval(
 /// Helper functions to avoid duplicated code in EncodeInterval.
 /// Append an ISO-8601-style interval field, but only if value isn't zero.
 #[inline]
-fn add_iso8601_int_part(s: &mut [u8], value: i32, units: u8) -> Result<usize, DateTimeError> {
+fn add_iso8601_int_part(s: &mut [u8], value: i64, units: u8) -> Result<usize, DateTimeError> {
     if value == 0 {
         return Ok(0);
     }
@@ -900,7 +901,7 @@ fn add_iso8601_int_part(s: &mut [u8], value: i32, units: u8) -> Result<usize, Da
 #[inline]
 fn add_postgres_int_part(
     s: &mut [u8],
-    value: i32,
+    value: i64,
     units: &[u8],
     is_zero: &mut bool,
     is_before: &mut bool,
@@ -935,7 +936,7 @@ fn add_postgres_int_part(
 #[inline]
 fn add_verbose_int_part(
     s: &mut [u8],
-    value: i32,
+    value: i64,
     units: &[u8],
     is_zero: &mut bool,
     is_before: &mut bool,
-- 
2.43.0


From f085a99a64c5f9af38371fa13c75781b5e930052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 17/28] fix: read the negative fields of ISO 8601 interval text

---
 src/parse.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index f6995a7..3ec0173 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2902,7 +2902,7 @@ fn parse_iso8601_number<'a, 'b, 'c>(
             ));
         }
         Some(c) => {
-            if !(c.is_ascii_digit() || c == &b'c' || c == &b'.') {
+            if !(c.is_ascii_digit() || c == &b'-' || c == &b'.') {
                 return Err(DateTimeError::invalid(format!(
                     "str: {:?} is invalid for iso number",
                     s
@@ -2923,12 +2923,28 @@ fn parse_iso8601_number<'a, 'b, 'c>(
     if val >= 0.0 {
         *ipart = val.floor() as i32;
     } else {
-        *ipart = -val.floor() as i32;
+        *ipart = val.ceil() as i32;
     }
     *fpart = val - *ipart as f64;
     Ok(end)
 }
 
+/// As above, for the alternative format, whose numbers have no sign.
+#[inline]
+fn parse_iso8601_unsigned<'a, 'b, 'c>(
+    s: &'a [u8],
+    ipart: &'b mut i32,
+    fpart: &'c mut f64,
+) -> Result<&'a [u8], DateTimeError> {
+    if s.first() == Some(&b'-') {
+        return Err(DateTimeError::invalid(format!(
+            "sign is not expected at: {:?}",
+            s
+        )));
+    }
+    parse_iso8601_number(s, ipart, fpart)
+}
+
 /// Determine number of integral digits in a valid ISO 8601 number field
 /// (we should ignore sign and any fraction part)
 #[inline]
@@ -2974,7 +2990,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
         return Ok((false, s));
     }
 
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned(s, val, fval)?;
     tm.mon += *val;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
@@ -2995,7 +3011,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned(s, val, fval)?;
     tm.mday += *val;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
@@ -3035,7 +3051,7 @@ fn decode_time_part_left(
         return Ok(());
     }
 
-    let mut s = parse_iso8601_number(s, val, fval)?;
+    let mut s = parse_iso8601_unsigned(s, val, fval)?;
     tm.min += *val;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
@@ -3050,7 +3066,7 @@ fn decode_time_part_left(
         }
     }
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned(s, val, fval)?;
     tm.sec += *val;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
@@ -3120,6 +3136,13 @@ pub fn decode_iso8601_interval(
         } else {
             b'\0'
         };
+        // Only the fields with designators may be negative.
+        if field_start[0] == b'-' && matches!(unit, b'T' | b'-' | b':' | b'\0') {
+            return Err(DateTimeError::invalid(format!(
+                "sign is not expected at: {:?}",
+                field_start
+            )));
+        }
         if datepart {
             match unit        // before T: Y M W D.
             {
-- 
2.43.0


From 61510e05bdbb3a99268fbb0874b921eeb26ef02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:00 +0000
Subject: [PATCH 18/28] fix: refuse a timestamp that rounds up beyond the range

---
 src/timestamp.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 73d32fa..0a7297d 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -231,16 +231,23 @@ impl Timestamp {
                 )));
             }
 
-            if self.value() >= 0 {
+            let result = if self.value() >= 0 {
                 let v = ((self.value() + TIMESTAMP_OFFSETS[typmod as usize])
                     / TIMESTAMP_SCALES[typmod as usize])
                     * TIMESTAMP_SCALES[typmod as usize];
-                Ok(Timestamp::new(v))
+                Timestamp::new(v)
             } else {
                 let v = -((((-self.value()) + TIMESTAMP_OFFSETS[typmod as usize])
                     / TIMESTAMP_SCALES[typmod as usize])
                     * TIMESTAMP_SCALES[typmod as usize]);
-                Ok(Timestamp::new(v))
+                Timestamp::new(v)
+            };
+
+            // rounding up may leave the valid range
+            if result.is_valid() {
+                Ok(result)
+            } else {
+                Err(DateTimeError::overflow())
             }
         } else {
             Ok(self)
-- 
2.43.0


From d6b7095a675d709f8579f1be73bd6389d2288423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:32 +0000
Subject: [PATCH 19/28] fix: deserialize dates and times from self-describing
 binary formats

---
 src/serde.rs | 46 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 880a96d..65db4d2 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -15,9 +15,10 @@
 //! Impl the `serde::Serialize` and `serde::Deserialize` traits.
 
 use crate::{Date, DateOrder, DateStyle, Interval, IntervalStyle, Time, Timestamp};
-use serde::de::{MapAccess, SeqAccess, Visitor};
+use serde::de::{MapAccess, SeqAccess, Unexpected, Visitor};
 use serde::ser::SerializeStruct;
 use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
+use std::convert::TryFrom;
 use std::fmt;
 
 impl Serialize for Date {
@@ -61,6 +62,27 @@ impl<'de> Deserialize<'de> for Date {
                 Ok(Date::new(v))
             }
 
+            // Self-describing binary formats hand over any integer type.
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                i32::try_from(v)
+                    .map(Date::new)
+                    .map_err(|_| E::invalid_value(Unexpected::Signed(v), &self))
+            }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                i32::try_from(v)
+                    .map(Date::new)
+                    .map_err(|_| E::invalid_value(Unexpected::Unsigned(v), &self))
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
@@ -117,6 +139,17 @@ impl<'de> Deserialize<'de> for Time {
                 Ok(Time::from(v))
             }
 
+            // Self-describing binary formats hand over any integer type.
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                i64::try_from(v)
+                    .map(Time::from)
+                    .map_err(|_| E::invalid_value(Unexpected::Unsigned(v), &self))
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
@@ -175,6 +208,17 @@ impl<'de> Deserialize<'de> for Timestamp {
                 Ok(Timestamp::new(v))
             }
 
+            // Self-describing binary formats hand over any integer type.
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                i64::try_from(v)
+                    .map(Timestamp::new)
+                    .map_err(|_| E::invalid_value(Unexpected::Unsigned(v), &self))
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
-- 
2.43.0


From f5e841606ed116ba00605733a08426dc7953a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:49 +0000
Subject: [PATCH 20/28] fix: refuse clock fields out of range in times and
 timestamps that are read

---
 src/common.rs |  2 +-
 src/parse.rs  | 35 ++++++++++++++++++++++-------------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 2dc842f..e9ccf0c 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -387,7 +387,7 @@ impl PgTime {
 }
 
 #[inline]
-fn time2t(hour: i32, min: i32, sec: i32, fsec: i64) -> i64 {
+pub fn time2t(hour: i32, min: i32, sec: i32, fsec: i64) -> i64 {
     (((((hour * MINS_PER_HOUR) + min) * SECS_PER_MINUTE) as i64 + sec as i64)
         * USECS_PER_SEC as i64)
         + fsec
diff --git a/src/parse.rs b/src/parse.rs
index 3ec0173..7a8b548 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1791,6 +1791,25 @@ impl DecodeDateTimeCtx {
     }
 }
 
+/// Checks the clock fields of a time of day: none out of its range, and together no later than 24:00:00.
+#[inline]
+fn check_time_of_day(tm: &PgTime, f_sec: i64) -> Result<(), DateTimeError> {
+    // This should match the checks in make_timestamp_internal
+    if tm.hour < 0
+        || tm.min < 0
+        || tm.min > MINS_PER_HOUR - 1
+        || tm.sec < 0
+        || tm.sec > SECS_PER_MINUTE
+        || tm.hour > HOURS_PER_DAY
+        || f_sec < 0
+        || f_sec > USECS_PER_SEC
+        || time2t(tm.hour, tm.min, tm.sec, f_sec) > USECS_PER_DAY
+    {
+        return Err(DateTimeError::overflow());
+    }
+    Ok(())
+}
+
 pub fn decode_date_time(
     fields: &[&[u8]],
     f_types: &[TokenField],
@@ -1877,6 +1896,8 @@ pub fn decode_date_time(
         tm.hour += HOURS_PER_DAY / 2;
     }
 
+    check_time_of_day(tm, ctx.f_sec)?;
+
     /* do additional checking for full date specs... */
     if ctx.d_type == TokenField::Date && (ctx.f_mask & DTK_DATE_M) != DTK_DATE_M {
         if (ctx.f_mask & DTK_TIME_M) == DTK_TIME_M {
@@ -2396,19 +2417,7 @@ pub fn decode_time_only(
         tm.hour += HOURS_PER_DAY / 2;
     }
 
-    // This should match the checks in make_timestamp_internal
-    if tm.hour < 0
-        || tm.min < 0
-        || tm.min > MINS_PER_HOUR - 1
-        || tm.sec < 0
-        || tm.sec > SECS_PER_MINUTE
-        || tm.hour > HOURS_PER_DAY
-        || (tm.hour == HOURS_PER_DAY && (tm.min > 0 || tm.sec > 0 || ctx.f_sec > 0))
-        || ctx.f_sec < 0
-        || ctx.f_sec > USECS_PER_SEC
-    {
-        return Err(DateTimeError::overflow());
-    }
+    check_time_of_day(tm, ctx.f_sec)?;
 
     // To do for time zone
     Ok(ctx.f_sec)
-- 
2.43.0


From 47b3392044ec7d4fb402355146520bd4cbfee683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:55 +0000
Subject: [PATCH 21/28] fix: refuse a date that ends in the time prefix instead
 of indexing past its fields

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 7a8b548..2651171 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1764,7 +1764,7 @@ impl DecodeDateTimeCtx {
                     return Err(DateTimeError::invalid(format!(
                         "the {:?} field's type: {:?} is unexpected",
                         field_id,
-                        ftypes[field_id + 1]
+                        ftypes.get(field_id + 1)
                     )));
                 }
                 self.p_type = TokenField::try_from(val)?;
-- 
2.43.0


From f49d0edaa40730c58aa9638a3c8f5831f622d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:55 +0000
Subject: [PATCH 22/28] fix: refuse text that ends in a sign instead of reading
 an uninitialised token type

---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 2651171..ca7172c 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -271,7 +271,11 @@ fn parse_date_time_for_sign_begin<'a, 'b, 'c>(
                 )));
             }
         }
-        None => s,
+        None => {
+            return Err(DateTimeError::invalid(
+                "date time expect digit or alpha after sign, but it ends".to_string(),
+            ));
+        }
     };
 
     let (filed, ret_buf) = current_buf.split_at_mut(buf_pos);
-- 
2.43.0


From 79973e645ec37413f4acf105cffeba642f8b8eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:02 +0000
Subject: [PATCH 23/28] fix: refuse interval texts whose fields overflow

---
 src/parse.rs | 118 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 75 insertions(+), 43 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index ca7172c..16ba3f2 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2476,6 +2476,29 @@ fn adjust_fract_days(
     Ok(())
 }
 
+/// Adds a value to a field of an interval.
+#[inline]
+fn add_to_field(field: &mut i32, val: i32) -> Result<(), DateTimeError> {
+    *field = field.checked_add(val).ok_or_else(DateTimeError::overflow)?;
+    Ok(())
+}
+
+/// Adds a value, given in a larger unit, to a field of an interval.
+#[inline]
+fn add_scaled_to_field(field: &mut i32, val: i32, scale: i32) -> Result<(), DateTimeError> {
+    add_to_field(
+        field,
+        val.checked_mul(scale).ok_or_else(DateTimeError::overflow)?,
+    )
+}
+
+/// Negates a field of an interval.
+#[inline]
+fn negate_field(field: &mut i32) -> Result<(), DateTimeError> {
+    *field = field.checked_neg().ok_or_else(DateTimeError::overflow)?;
+    Ok(())
+}
+
 fn decode_interval_number_field(
     field: &[u8],
     tm: &mut PgTime,
@@ -2566,14 +2589,14 @@ fn decode_interval_number_field(
         }
         TokenField::Millisec => {
             // avoid overflowing the fsec field.
-            tm.sec += val / 1000;
+            add_to_field(&mut tm.sec, val / 1000)?;
             val -= (val / 1000) * 1000;
             *f_sec += ((val as f64 + *f_val) * 1000_f64).round() as i64;
             *t_mask = TokenType::MILLISECOND.mask();
         }
 
         TokenField::Second => {
-            tm.sec += val;
+            add_to_field(&mut tm.sec, val)?;
             *f_sec += (*f_val * 1_000_000_f64).round() as i64;
 
             // If any subseconds were specified, consider this
@@ -2586,64 +2609,73 @@ fn decode_interval_number_field(
         }
 
         TokenField::Minute => {
-            tm.min += val;
+            add_to_field(&mut tm.min, val)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_MINUTE)?;
             *t_mask = TokenType::MINUTE.mask();
         }
 
         TokenField::Hour => {
-            tm.hour += val;
+            add_to_field(&mut tm.hour, val)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_HOUR)?;
             *t_mask = TokenType::HOUR.mask();
             *ty = TokenField::Day.value(); /* set for next field */
         }
 
         TokenField::Day => {
-            tm.mday += val;
+            add_to_field(&mut tm.mday, val)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_DAY)?;
             *t_mask = TokenType::DAY.mask();
         }
 
         TokenField::Week => {
-            tm.mday += val * 7;
+            add_scaled_to_field(&mut tm.mday, val, 7)?;
             adjust_fract_days(*f_val, tm, f_sec, 7)?;
             *t_mask = TokenType::WEEK.mask();
         }
 
         TokenField::Month => {
-            tm.mon += val;
+            add_to_field(&mut tm.mon, val)?;
             adjust_fract_days(*f_val, tm, f_sec, DAYS_PER_MONTH)?;
             *t_mask = TokenType::MONTH.mask();
         }
 
         TokenField::Year => {
-            tm.year += val;
+            add_to_field(&mut tm.year, val)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64) as i32;
+                add_to_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64) as i32)?;
             }
             *t_mask = TokenType::YEAR.mask();
         }
 
         TokenField::Decade => {
-            tm.year += val * 10;
+            add_scaled_to_field(&mut tm.year, val, 10)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32;
+                add_to_field(
+                    &mut tm.mon,
+                    (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32,
+                )?;
             }
             *t_mask = TokenType::DECADE.mask();
         }
 
         TokenField::Century => {
-            tm.year += val * 100;
+            add_scaled_to_field(&mut tm.year, val, 100)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32;
+                add_to_field(
+                    &mut tm.mon,
+                    (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32,
+                )?;
             }
             *t_mask = TokenType::CENTURY.mask();
         }
 
         TokenField::Millennium => {
-            tm.year += val * 1000;
+            add_scaled_to_field(&mut tm.year, val, 1000)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32;
+                add_to_field(
+                    &mut tm.mon,
+                    (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32,
+                )?;
             }
             *t_mask = TokenType::MILLENNIUM.mask();
         }
@@ -2830,7 +2862,7 @@ pub fn decode_interval(
     if *f_sec != 0 {
         let sec = *f_sec / USECS_PER_SEC;
         *f_sec -= sec * USECS_PER_SEC;
-        tm.sec += sec as i32;
+        add_to_field(&mut tm.sec, sec as i32)?;
     }
 
     // The SQL standard defines the interval literal
@@ -2887,12 +2919,12 @@ pub fn decode_interval(
     // finally, AGO negates everything.
     if is_before {
         *f_sec = -(*f_sec);
-        tm.sec = -tm.sec;
-        tm.min = -tm.min;
-        tm.hour = -tm.hour;
-        tm.mday = -tm.mday;
-        tm.mon = -tm.mon;
-        tm.year = -tm.year;
+        negate_field(&mut tm.sec)?;
+        negate_field(&mut tm.min)?;
+        negate_field(&mut tm.hour)?;
+        negate_field(&mut tm.mday)?;
+        negate_field(&mut tm.mon)?;
+        negate_field(&mut tm.year)?;
     }
 
     Ok(())
@@ -2992,8 +3024,8 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     let mut s = s;
 
-    tm.year += *val;
-    tm.mon += (*fval * MONTHS_PER_YEAR as f64) as i32;
+    add_to_field(&mut tm.year, *val)?;
+    add_to_field(&mut tm.mon, (*fval * MONTHS_PER_YEAR as f64) as i32)?;
     if unit == b'\0' {
         return Ok((true, s));
     }
@@ -3004,7 +3036,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = parse_iso8601_unsigned(s, val, fval)?;
-    tm.mon += *val;
+    add_to_field(&mut tm.mon, *val)?;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
         None => return Ok((true, s)),
@@ -3025,7 +3057,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     s = &s[1..];
     s = parse_iso8601_unsigned(s, val, fval)?;
-    tm.mday += *val;
+    add_to_field(&mut tm.mday, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
         None => Ok((true, s)),
@@ -3058,14 +3090,14 @@ fn decode_time_part_left(
         return Err(DateTimeError::invalid("have field is set".to_string()));
     }
 
-    tm.hour += *val;
+    add_to_field(&mut tm.hour, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_HOUR)?;
     if unit == b'\0' {
         return Ok(());
     }
 
     let mut s = parse_iso8601_unsigned(s, val, fval)?;
-    tm.min += *val;
+    add_to_field(&mut tm.min, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
         None => return Ok(()),
@@ -3080,7 +3112,7 @@ fn decode_time_part_left(
     }
     s = &s[1..];
     s = parse_iso8601_unsigned(s, val, fval)?;
-    tm.sec += *val;
+    add_to_field(&mut tm.sec, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
         None => Ok(()),
@@ -3160,19 +3192,19 @@ pub fn decode_iso8601_interval(
             match unit        // before T: Y M W D.
             {
                 b'Y' => {
-                    tm.year += val;
-                    tm.mon += (fval * MONTHS_PER_YEAR as f64) as i32;
+                    add_to_field(&mut tm.year, val)?;
+                    add_to_field(&mut tm.mon, (fval * MONTHS_PER_YEAR as f64) as i32)?;
                 }
                 b'M' => {
-                    tm.mon += val;
+                    add_to_field(&mut tm.mon, val)?;
                     adjust_fract_days(fval, tm, fsec, DAYS_PER_MONTH)?;
                 }
                 b'W' => {
-                    tm.mday += val * 7;
+                    add_scaled_to_field(&mut tm.mday, val, 7)?;
                     adjust_fract_days(fval, tm, fsec, 7)?;
                 }
                 b'D' => {
-                    tm.mday += val;
+                    add_to_field(&mut tm.mday, val)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                 }
                 b'T' | b'\0' => {
@@ -3180,9 +3212,9 @@ pub fn decode_iso8601_interval(
                     let width = iso8601_integer_width(field_start);
                     if width == 8 && !havefield
                     {
-                        tm.year += val / 10000;
-                        tm.mon += (val / 100) % 100;
-                        tm.mday += val % 100;
+                        add_to_field(&mut tm.year, val / 10000)?;
+                        add_to_field(&mut tm.mon, (val / 100) % 100)?;
+                        add_to_field(&mut tm.mday, val % 100)?;
                         adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                         if unit == b'\0' {
                             return Ok(());
@@ -3224,24 +3256,24 @@ pub fn decode_iso8601_interval(
             match unit        /* after T: H M S */
             {
                 b'H' => {
-                    tm.hour += val;
+                    add_to_field(&mut tm.hour, val)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_HOUR)?;
                 }
                 b'M' => {
-                    tm.min += val;
+                    add_to_field(&mut tm.min, val)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_MINUTE)?;
                 }
                 b'S' => {
-                    tm.sec += val;
+                    add_to_field(&mut tm.sec, val)?;
                     adjust_fract_seconds(fval, tm, fsec, 1)?;
                 }
                 b'\0' => { // ISO 8601 4.4.3.3 Alternative Format
                     let len = iso8601_integer_width(field_start);
                     if len == 6 && !havefield
                     {
-                        tm.hour += val / 10000;
-                        tm.min += (val / 100) % 100;
-                        tm.sec += val % 100;
+                        add_to_field(&mut tm.hour, val / 10000)?;
+                        add_to_field(&mut tm.min, (val / 100) % 100)?;
+                        add_to_field(&mut tm.sec, val % 100)?;
                         adjust_fract_seconds(fval, tm, fsec, 1)?;
                         return Ok(());
                     }
-- 
2.43.0


From 78d0d0e6cca8f67ea691ab98e952073cb12a7c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:49 +0000
Subject: [PATCH 24/28] fix: refuse a day of year in a year beyond the Julian
 day range

---
 src/common.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index e9ccf0c..89250a3 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -320,7 +320,15 @@ impl PgTime {
 
         // now that we have correct year, decode DOY.
         if (f_mask & TokenType::DOY.mask()) != 0 {
-            let (y, m, d) = julian2date(date2julian(self.year, 1, 1) + self.yday - 1);
+            // Prevent overflow in Julian-day routines.
+            if !is_valid_julian(self.year, JULIAN_MIN_MONTH, 1) {
+                return Err(DateTimeError::overflow());
+            }
+            let julian = date2julian(self.year, 1, 1) + self.yday - 1;
+            if julian < 0 {
+                return Err(DateTimeError::overflow());
+            }
+            let (y, m, d) = julian2date(julian);
             self.set_ymd(y, m, d);
         }
 
-- 
2.43.0


From d7cca89609ec4e77d3bb37b0d668f8eeef72912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:51 +0000
Subject: [PATCH 25/28] fix: refuse text that does not fit into the work space

---
 src/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 16ba3f2..e343497 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -325,6 +325,15 @@ where
         ));
     }
 
+    // The fields must fit into the work space; blanks are not copied.
+    if time_str.len() > worker_buf.len()
+        && time_str.iter().filter(|c| !c.is_ascii_whitespace()).count() > worker_buf.len()
+    {
+        return Err(DateTimeError::invalid(
+            "date time string is too long".to_string(),
+        ));
+    }
+
     let mut current_str = time_str;
     let mut current_buf = worker_buf;
 
-- 
2.43.0


From 6c9c1addcae851c1a75f31bb0f071b83ca3ea8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:59 +0000
Subject: [PATCH 26/28] fix: count whole months in fractions of decades,
 centuries and millennia exactly

---
 src/parse.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index e343497..40400cf 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2501,6 +2501,14 @@ fn add_scaled_to_field(field: &mut i32, val: i32, scale: i32) -> Result<(), Date
     )
 }
 
+/// Converts a fraction of a unit of so many years to whole months. The fraction has
+/// at most 7 digits, so counting them keeps a binary fraction from losing a month.
+#[inline]
+fn fract_years_to_months(frac: f64, years: i64) -> i32 {
+    let digits = (frac * 10_000_000_f64).round() as i64;
+    (digits * years * MONTHS_PER_YEAR as i64 / 10_000_000) as i32
+}
+
 /// Negates a field of an interval.
 #[inline]
 fn negate_field(field: &mut i32) -> Result<(), DateTimeError> {
@@ -2659,10 +2667,7 @@ fn decode_interval_number_field(
         TokenField::Decade => {
             add_scaled_to_field(&mut tm.year, val, 10)?;
             if *f_val != 0.0 {
-                add_to_field(
-                    &mut tm.mon,
-                    (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32,
-                )?;
+                add_to_field(&mut tm.mon, fract_years_to_months(*f_val, 10))?;
             }
             *t_mask = TokenType::DECADE.mask();
         }
@@ -2670,10 +2675,7 @@ fn decode_interval_number_field(
         TokenField::Century => {
             add_scaled_to_field(&mut tm.year, val, 100)?;
             if *f_val != 0.0 {
-                add_to_field(
-                    &mut tm.mon,
-                    (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32,
-                )?;
+                add_to_field(&mut tm.mon, fract_years_to_months(*f_val, 100))?;
             }
             *t_mask = TokenType::CENTURY.mask();
         }
@@ -2681,10 +2683,7 @@ fn decode_interval_number_field(
         TokenField::Millennium => {
             add_scaled_to_field(&mut tm.year, val, 1000)?;
             if *f_val != 0.0 {
-                add_to_field(
-                    &mut tm.mon,
-                    (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32,
-                )?;
+                add_to_field(&mut tm.mon, fract_years_to_months(*f_val, 1000))?;
             }
             *t_mask = TokenType::MILLENNIUM.mask();
         }
-- 
2.43.0


From c3e7532925fb3dc4de5534c224f49442ed8d9c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 27/28] fix: refuse products and quotients of intervals that do
 not fit

---
 src/interval.rs | 49 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 1e27572..4b4b4f4 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -334,15 +334,15 @@ impl Interval {
         // cascade from months and days.  It might still be >24 if the combination
         // of cascade and the seconds factor operation itself.
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            result.add_cascaded_days((sec_remainder / SECS_PER_DAY as f64) as i32)?;
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
+        result.add_cascaded_days(month_remainder_days as i32)?;
         let result_time =
             (self.time as f64 * factor + sec_remainder * USECS_PER_SEC as f64).round();
-        if result_time > std::i64::MAX as f64 || result_time < std::i64::MIN as f64 {
+        if result_time >= std::i64::MAX as f64 || result_time < std::i64::MIN as f64 {
             return Err(DateTimeError::overflow());
         }
 
@@ -362,10 +362,23 @@ impl Interval {
                 self
             )));
         }
-        let month = (self.month as f64 / factor) as i32;
-        let day = (self.day as f64 / factor) as i32;
+        let result_month = self.month as f64 / factor;
+        if result_month.is_nan()
+            || result_month > std::i32::MAX as f64
+            || result_month < std::i32::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
+
+        let result_day = self.day as f64 / factor;
+        if result_day.is_nan()
+            || result_day > std::i32::MAX as f64
+            || result_day < std::i32::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
 
-        let mut result = Interval::from_mdt(month, day, 0);
+        let mut result = Interval::from_mdt(result_month as i32, result_day as i32, 0);
         // Fractional months full days into days.  See comment in interval_mul().
 
         let mut month_remainder_days =
@@ -377,17 +390,33 @@ impl Interval {
             * SECS_PER_DAY as f64;
         sec_remainder = timestamp_round(sec_remainder);
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            result.add_cascaded_days((sec_remainder / SECS_PER_DAY as f64) as i32)?;
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
-        result.time =
-            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round() as i64;
+        result.add_cascaded_days(month_remainder_days as i32)?;
+        let result_time =
+            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round();
+        if result_time >= std::i64::MAX as f64 || result_time < std::i64::MIN as f64 {
+            return Err(DateTimeError::overflow());
+        }
+
+        result.time = result_time as i64;
+
         Ok(result)
     }
 
+    /// Adds the days that larger units cascade down.
+    #[inline]
+    fn add_cascaded_days(&mut self, days: i32) -> Result<(), DateTimeError> {
+        self.day = self
+            .day
+            .checked_add(days)
+            .ok_or_else(DateTimeError::overflow)?;
+        Ok(())
+    }
+
     /// Constructs `Interval`from `PgTime`.
     #[inline]
     pub(crate) fn from_pgtime(tm: &PgTime, fsec: i64) -> Result<Self, DateTimeError> {
-- 
2.43.0


From c376d05f2092b553ccbe47fd9da243d3d2b491b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:43 +0000
Subject: [PATCH 28/28] fix: choose singular units by the number the verbose
 interval text prints

---
 src/interval.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 4b4b4f4..a49300d 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -977,14 +977,15 @@ fn add_verbose_int_part(
     let mut offset = 0;
     offset = set_one_byte(s, offset, b' ');
     // first nonzero value sets is_before.
-    if *is_zero {
+    let value = if *is_zero {
         *is_before = value < 0;
-        offset += pg_ltostr(&mut s[offset..], value.abs());
+        value.abs()
     } else if *is_before {
-        offset += pg_ltostr(&mut s[offset..], -value);
+        -value
     } else {
-        offset += pg_ltostr(&mut s[offset..], value);
+        value
     };
+    offset += pg_ltostr(&mut s[offset..], value);
     offset = set_one_byte(s, offset, b' ');
     offset = copy_slice(s, offset, units);
     if value != 1 {
-- 
2.43.0

