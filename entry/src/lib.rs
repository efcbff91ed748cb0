//! Entry points from which the real code of /repo is reached.  Every `vp_` function only calls
//! the public API of the crate; the verifier starts from these and from the functions they reach.
use pgdatetime::*;
use std::convert::TryFrom;

pub fn vp_date_try_from_ymd(y: i32, m: i32, d: i32) -> Result<Date, DateTimeError> { Date::try_from_ymd(y, m, d) }
pub fn vp_date_add_days(a: Date, n: i32) -> Result<Date, DateTimeError> { a.add_days(n) }
pub fn vp_date_sub_days(a: Date, n: i32) -> Result<Date, DateTimeError> { a.sub_days(n) }
pub fn vp_date_sub_date(a: Date, b: Date) -> Result<i32, DateTimeError> { a.sub_date(b) }
pub fn vp_date_add_interval(a: Date, b: Interval) -> Result<Timestamp, DateTimeError> { a.add_interval(b) }
pub fn vp_date_sub_interval(a: Date, b: Interval) -> Result<Timestamp, DateTimeError> { a.sub_interval(b) }
pub fn vp_date_add_time(a: Date, b: Time) -> Result<Timestamp, DateTimeError> { a.add_time(b) }
pub fn vp_date_format(a: Date, s: DateStyle, o: DateOrder) -> Result<String, DateTimeError> { a.format(s, o) }
pub fn vp_date_from_str(s: &str, o: DateOrder) -> Result<Date, DateTimeError> { Date::try_from_str(s, o) }
pub fn vp_date_part(a: &Date, t: FieldType, u: DateUnit) -> Result<f64, DateTimeError> { a.date_part(t, u) }
pub fn vp_date_truncate(a: &Date, t: FieldType, u: DateUnit) -> Result<Date, DateTimeError> { a.truncate(t, u) }
pub fn vp_date_is_finite(a: &Date) -> bool { a.is_finite() }
pub fn vp_date_is_infinite(a: &Date) -> bool { a.is_infinite() }
pub fn vp_date_from_timestamp(a: Timestamp) -> Result<Date, DateTimeError> { Date::try_from(a) }
pub fn vp_date_from_i32(a: i32) -> Date { Date::from(a) }
pub fn vp_date_into_i32(a: Date) -> i32 { a.into() }
pub fn vp_date_cmp(a: &Date, b: &Date) -> std::cmp::Ordering { a.cmp(b) }
pub fn vp_date_eq(a: &Date, b: &Date) -> bool { a == b }

pub fn vp_time_try_from_hms(h: i32, m: i32, s: f64) -> Result<Time, DateTimeError> { Time::try_from_hms(h, m, s) }
pub fn vp_time_new() -> Time { Time::new() }
pub fn vp_time_add_interval(a: Time, b: Interval) -> Time { a.add_interval(b) }
pub fn vp_time_sub_interval(a: Time, b: Interval) -> Time { a.sub_interval(b) }
pub fn vp_time_sub_time(a: Time, b: Time) -> Interval { a.sub_time(b) }
pub fn vp_time_format(a: Time, s: DateStyle) -> Result<String, DateTimeError> { a.format(s) }
pub fn vp_time_from_str(s: &str, t: i32, o: DateOrder) -> Result<Time, DateTimeError> { Time::try_from_str(s, t, o) }
pub fn vp_time_part(a: &Time, t: FieldType, u: DateUnit) -> Result<f64, DateTimeError> { a.date_part(t, u) }
pub fn vp_time_truncate(a: &Time, t: FieldType, u: DateUnit) -> Result<Time, DateTimeError> { a.truncate(t, u) }
pub fn vp_time_is_finite(a: &Time) -> bool { a.is_finite() }
pub fn vp_time_from_timestamp(a: Timestamp) -> Result<Option<Time>, DateTimeError> { Option::<Time>::try_from(a) }
pub fn vp_time_from_interval(a: Interval) -> Time { Time::from(a) }
pub fn vp_time_from_i64(a: i64) -> Time { Time::from(a) }
pub fn vp_time_into_i64(a: Time) -> i64 { a.into() }
pub fn vp_time_cmp(a: &Time, b: &Time) -> std::cmp::Ordering { a.cmp(b) }
pub fn vp_time_eq(a: &Time, b: &Time) -> bool { a == b }

pub fn vp_ts_try_from_ymd_hms(y: i32, mo: i32, d: i32, h: i32, mi: i32, s: f64) -> Result<Timestamp, DateTimeError> { Timestamp::try_from_ymd_hms(y, mo, d, h, mi, s) }
pub fn vp_ts_add_interval(a: Timestamp, b: Interval) -> Result<Timestamp, DateTimeError> { a.add_interval(b) }
pub fn vp_ts_sub_interval(a: Timestamp, b: Interval) -> Result<Timestamp, DateTimeError> { a.sub_interval(b) }
pub fn vp_ts_add_time(a: Timestamp, b: Time) -> Result<Timestamp, DateTimeError> { a.add_time(b) }
pub fn vp_ts_sub_time(a: Timestamp, b: Time) -> Result<Timestamp, DateTimeError> { a.sub_time(b) }
pub fn vp_ts_sub_date(a: Timestamp, b: Date) -> Result<Interval, DateTimeError> { a.sub_date(b) }
pub fn vp_ts_sub_timestamp(a: Timestamp, b: Timestamp) -> Result<Interval, DateTimeError> { a.sub_timestamp(b) }
pub fn vp_ts_age(a: Timestamp, b: Timestamp) -> Result<Interval, DateTimeError> { a.age(b) }
pub fn vp_ts_format(a: Timestamp, s: DateStyle, o: DateOrder) -> Result<String, DateTimeError> { a.format(s, o) }
pub fn vp_ts_from_str(s: &str, t: i32, o: DateOrder) -> Result<Timestamp, DateTimeError> { Timestamp::try_from_str(s, t, o) }
pub fn vp_ts_part(a: &Timestamp, t: FieldType, u: DateUnit) -> Result<f64, DateTimeError> { a.date_part(t, u) }
pub fn vp_ts_truncate(a: &Timestamp, t: FieldType, u: DateUnit) -> Result<Timestamp, DateTimeError> { a.truncate(t, u) }
pub fn vp_ts_is_finite(a: &Timestamp) -> bool { a.is_finite() }
pub fn vp_ts_is_infinite(a: &Timestamp) -> bool { a.is_infinite() }
pub fn vp_ts_from_date(a: Date) -> Result<Timestamp, DateTimeError> { Timestamp::try_from(a) }
pub fn vp_ts_from_i64(a: i64) -> Timestamp { Timestamp::from(a) }
pub fn vp_ts_into_i64(a: Timestamp) -> i64 { a.into() }
pub fn vp_ts_cmp(a: &Timestamp, b: &Timestamp) -> std::cmp::Ordering { a.cmp(b) }
pub fn vp_ts_eq(a: &Timestamp, b: &Timestamp) -> bool { a == b }

pub fn vp_iv_new() -> Interval { Interval::new() }
pub fn vp_iv_try_from_ymwd_hms(y: i32, mo: i32, w: i32, d: i32, h: i32, mi: i32, s: f64) -> Result<Interval, DateTimeError> { Interval::try_from_ymwd_hms(y, mo, w, d, h, mi, s) }
pub fn vp_iv_add(a: Interval, b: Interval) -> Result<Interval, DateTimeError> { a.add_interval(b) }
pub fn vp_iv_op_add(a: Interval, b: Interval) -> Interval { a + b }
pub fn vp_iv_sub(a: Interval, b: Interval) -> Result<Interval, DateTimeError> { a.sub_interval(b) }
pub fn vp_iv_negate(a: Interval) -> Result<Interval, DateTimeError> { a.negate() }
pub fn vp_iv_justify_hours(a: Interval) -> Interval { a.justify_hours() }
pub fn vp_iv_justify_days(a: Interval) -> Interval { a.justify_days() }
pub fn vp_iv_justify_interval(a: Interval) -> Interval { a.justify_interval() }
pub fn vp_iv_mul_f64(a: Interval, f: f64) -> Result<Interval, DateTimeError> { a.mul_f64(f) }
pub fn vp_iv_div_f64(a: Interval, f: f64) -> Result<Interval, DateTimeError> { a.div_f64(f) }
pub fn vp_iv_format(a: Interval, s: IntervalStyle) -> Result<String, DateTimeError> { a.format(s) }
pub fn vp_iv_from_str(s: &str, t: i32, st: IntervalStyle) -> Result<Interval, DateTimeError> { Interval::try_from_str(s, t, st) }
pub fn vp_iv_from_time(a: Time) -> Interval { Interval::from(a) }
pub fn vp_iv_into_i128(a: Interval) -> i128 { a.into() }
pub fn vp_iv_part(a: &Interval, t: FieldType, u: DateUnit) -> Result<f64, DateTimeError> { a.date_part(t, u) }
pub fn vp_iv_truncate(a: &Interval, t: FieldType, u: DateUnit) -> Result<Interval, DateTimeError> { a.truncate(t, u) }
pub fn vp_iv_is_finite(a: &Interval) -> bool { a.is_finite() }
pub fn vp_iv_cmp(a: &Interval, b: &Interval) -> std::cmp::Ordering { a.cmp(b) }
pub fn vp_iv_partial_cmp(a: &Interval, b: &Interval) -> Option<std::cmp::Ordering> { a.partial_cmp(b) }
pub fn vp_iv_eq(a: &Interval, b: &Interval) -> bool { a == b }

/// text written by format, read back by try_from_str
pub fn vp_date_text(a: Date, s: DateStyle, o: DateOrder, p: DateOrder) -> Result<Date, DateTimeError> { Date::try_from_str(&a.format(s, o)?, p) }
pub fn vp_time_text(a: Time, s: DateStyle, t: i32, p: DateOrder) -> Result<Time, DateTimeError> { Time::try_from_str(&a.format(s)?, t, p) }
pub fn vp_ts_text(a: Timestamp, s: DateStyle, o: DateOrder, t: i32, p: DateOrder) -> Result<Timestamp, DateTimeError> { Timestamp::try_from_str(&a.format(s, o)?, t, p) }
pub fn vp_iv_text(a: Interval, s: IntervalStyle, t: i32, p: IntervalStyle) -> Result<Interval, DateTimeError> { Interval::try_from_str(&a.format(s)?, t, p) }

/// everything a value feeds to a hasher
#[derive(Default)]
struct Rec { v: [i128; 8], n: usize }
impl Rec { fn put(&mut self, x: i128) { if self.n < 8 { self.v[self.n] = x; } self.n += 1; } }
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.put(*x as i128) } }
    fn write_i32(&mut self, x: i32) { self.put(x as i128) }
    fn write_i64(&mut self, x: i64) { self.put(x as i128) }
    fn write_i128(&mut self, x: i128) { self.put(x) }
    fn write_u32(&mut self, x: u32) { self.put(x as i128) }
    fn write_u64(&mut self, x: u64) { self.put(x as i128) }
}
pub fn vp_iv_same_hash(a: Interval, b: Interval) -> bool {
    let (mut p, mut q) = (Rec::default(), Rec::default());
    std::hash::Hash::hash(&a, &mut p);
    std::hash::Hash::hash(&b, &mut q);
    if p.n != q.n { return false; }
    let mut i = 0;
    while i < 8 { if p.v[i] != q.v[i] { return false; } i += 1; }
    true
}

mod sd;
pub fn vp_date_serde(a: Date, h: bool, w: bool) -> Result<Date, sd::E> { sd::through(a, h, w) }
pub fn vp_time_serde(a: Time, h: bool, w: bool) -> Result<Time, sd::E> { sd::through(a, h, w) }
pub fn vp_ts_serde(a: Timestamp, h: bool, w: bool) -> Result<Timestamp, sd::E> { sd::through(a, h, w) }
pub fn vp_iv_serde(a: Interval, h: bool, w: bool) -> Result<Interval, sd::E> { sd::through(a, h, w) }
/// through a record read as a map (or a sequence) of n entries taken in the given order
pub fn vp_iv_serde_rec(a: Interval, map: bool, n: usize, i: usize, j: usize, k: usize, l: usize) -> Result<Interval, sd::E> {
    let v = serde::Serialize::serialize(&a, sd::W { human: false })?;
    serde::Deserialize::deserialize(sd::R { human: false, wide: false, v: &v, map, ord: [i, j, k, l], n })
}
pub fn vp_date_serde_text(a: Date) -> Result<String, sd::E> { sd::text(a) }
pub fn vp_time_serde_text(a: Time) -> Result<String, sd::E> { sd::text(a) }
pub fn vp_ts_serde_text(a: Timestamp) -> Result<String, sd::E> { sd::text(a) }
pub fn vp_iv_serde_text(a: Interval) -> Result<String, sd::E> { sd::text(a) }
/// an integer from a self-describing binary format read as a date
pub fn vp_date_serde_int(i: i64) -> Result<Date, sd::E> { sd::from_int(i) }
pub fn vp_date_serde_uint(i: i64) -> Result<Date, sd::E> { sd::from_uint(i as u64) }
pub fn vp_time_serde_uint(i: i64) -> Result<Time, sd::E> { sd::from_uint(i as u64) }
pub fn vp_ts_serde_uint(i: i64) -> Result<Timestamp, sd::E> { sd::from_uint(i as u64) }

/// reading s after p was read as a date, a time and an interval (in this order, whichever of them succeed)
fn first(p: &str, o: DateOrder) {
    let _ = Date::try_from_str(p, o);
    let _ = Time::try_from_str(p, -1, o);
    let _ = Interval::try_from_str(p, -1, IntervalStyle::Postgres);
}
pub fn vp_date_after(p: &str, s: &str, o: DateOrder) -> Result<Date, DateTimeError> { first(p, o); Date::try_from_str(s, o) }
pub fn vp_time_after(p: &str, s: &str, o: DateOrder) -> Result<Time, DateTimeError> { first(p, o); Time::try_from_str(s, -1, o) }
pub fn vp_iv_after(p: &str, s: &str, o: DateOrder) -> Result<Interval, DateTimeError> { first(p, o); Interval::try_from_str(s, -1, IntervalStyle::Postgres) }
