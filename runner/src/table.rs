// generated by gen.py from ../entry/src/lib.rs
use super::*;
pub fn call(name: &str, t: &mut Toks) -> Option<String> {
    Some(match name {
        "vp_date_try_from_ymd" => { let a0: i32 = Arg::get(t); let a1: i32 = Arg::get(t); let a2: i32 = Arg::get(t); run(move || vpentry::vp_date_try_from_ymd(a0, a1, a2)) }
        "vp_date_add_days" => { let a0: Date = Arg::get(t); let a1: i32 = Arg::get(t); run(move || vpentry::vp_date_add_days(a0, a1)) }
        "vp_date_sub_days" => { let a0: Date = Arg::get(t); let a1: i32 = Arg::get(t); run(move || vpentry::vp_date_sub_days(a0, a1)) }
        "vp_date_sub_date" => { let a0: Date = Arg::get(t); let a1: Date = Arg::get(t); run(move || vpentry::vp_date_sub_date(a0, a1)) }
        "vp_date_add_interval" => { let a0: Date = Arg::get(t); let a1: Interval = Arg::get(t); run(move || vpentry::vp_date_add_interval(a0, a1)) }
        "vp_date_sub_interval" => { let a0: Date = Arg::get(t); let a1: Interval = Arg::get(t); run(move || vpentry::vp_date_sub_interval(a0, a1)) }
        "vp_date_add_time" => { let a0: Date = Arg::get(t); let a1: Time = Arg::get(t); run(move || vpentry::vp_date_add_time(a0, a1)) }
        "vp_date_format" => { let a0: Date = Arg::get(t); let a1: DateStyle = Arg::get(t); let a2: DateOrder = Arg::get(t); run(move || vpentry::vp_date_format(a0, a1, a2)) }
        "vp_date_from_str" => { let a0: String = Arg::get(t); let a1: DateOrder = Arg::get(t); run(move || vpentry::vp_date_from_str(&a0, a1)) }
        "vp_date_part" => { let a0: Date = Arg::get(t); let a1: FieldType = Arg::get(t); let a2: DateUnit = Arg::get(t); run(move || vpentry::vp_date_part(&a0, a1, a2)) }
        "vp_date_truncate" => { let a0: Date = Arg::get(t); let a1: FieldType = Arg::get(t); let a2: DateUnit = Arg::get(t); run(move || vpentry::vp_date_truncate(&a0, a1, a2)) }
        "vp_date_is_finite" => { let a0: Date = Arg::get(t); run(move || vpentry::vp_date_is_finite(&a0)) }
        "vp_date_is_infinite" => { let a0: Date = Arg::get(t); run(move || vpentry::vp_date_is_infinite(&a0)) }
        "vp_date_from_timestamp" => { let a0: Timestamp = Arg::get(t); run(move || vpentry::vp_date_from_timestamp(a0)) }
        "vp_date_from_i32" => { let a0: i32 = Arg::get(t); run(move || vpentry::vp_date_from_i32(a0)) }
        "vp_date_into_i32" => { let a0: Date = Arg::get(t); run(move || vpentry::vp_date_into_i32(a0)) }
        "vp_date_cmp" => { let a0: Date = Arg::get(t); let a1: Date = Arg::get(t); run(move || vpentry::vp_date_cmp(&a0, &a1)) }
        "vp_date_eq" => { let a0: Date = Arg::get(t); let a1: Date = Arg::get(t); run(move || vpentry::vp_date_eq(&a0, &a1)) }
        "vp_time_try_from_hms" => { let a0: i32 = Arg::get(t); let a1: i32 = Arg::get(t); let a2: f64 = Arg::get(t); run(move || vpentry::vp_time_try_from_hms(a0, a1, a2)) }
        "vp_time_new" => {  run(move || vpentry::vp_time_new()) }
        "vp_time_add_interval" => { let a0: Time = Arg::get(t); let a1: Interval = Arg::get(t); run(move || vpentry::vp_time_add_interval(a0, a1)) }
        "vp_time_sub_interval" => { let a0: Time = Arg::get(t); let a1: Interval = Arg::get(t); run(move || vpentry::vp_time_sub_interval(a0, a1)) }
        "vp_time_sub_time" => { let a0: Time = Arg::get(t); let a1: Time = Arg::get(t); run(move || vpentry::vp_time_sub_time(a0, a1)) }
        "vp_time_format" => { let a0: Time = Arg::get(t); let a1: DateStyle = Arg::get(t); run(move || vpentry::vp_time_format(a0, a1)) }
        "vp_time_from_str" => { let a0: String = Arg::get(t); let a1: i32 = Arg::get(t); let a2: DateOrder = Arg::get(t); run(move || vpentry::vp_time_from_str(&a0, a1, a2)) }
        "vp_time_part" => { let a0: Time = Arg::get(t); let a1: FieldType = Arg::get(t); let a2: DateUnit = Arg::get(t); run(move || vpentry::vp_time_part(&a0, a1, a2)) }
        "vp_time_truncate" => { let a0: Time = Arg::get(t); let a1: FieldType = Arg::get(t); let a2: DateUnit = Arg::get(t); run(move || vpentry::vp_time_truncate(&a0, a1, a2)) }
        "vp_time_is_finite" => { let a0: Time = Arg::get(t); run(move || vpentry::vp_time_is_finite(&a0)) }
        "vp_time_from_timestamp" => { let a0: Timestamp = Arg::get(t); run(move || vpentry::vp_time_from_timestamp(a0)) }
        "vp_time_from_interval" => { let a0: Interval = Arg::get(t); run(move || vpentry::vp_time_from_interval(a0)) }
        "vp_time_from_i64" => { let a0: i64 = Arg::get(t); run(move || vpentry::vp_time_from_i64(a0)) }
        "vp_time_into_i64" => { let a0: Time = Arg::get(t); run(move || vpentry::vp_time_into_i64(a0)) }
        "vp_time_cmp" => { let a0: Time = Arg::get(t); let a1: Time = Arg::get(t); run(move || vpentry::vp_time_cmp(&a0, &a1)) }
        "vp_time_eq" => { let a0: Time = Arg::get(t); let a1: Time = Arg::get(t); run(move || vpentry::vp_time_eq(&a0, &a1)) }
        "vp_ts_try_from_ymd_hms" => { let a0: i32 = Arg::get(t); let a1: i32 = Arg::get(t); let a2: i32 = Arg::get(t); let a3: i32 = Arg::get(t); let a4: i32 = Arg::get(t); let a5: f64 = Arg::get(t); run(move || vpentry::vp_ts_try_from_ymd_hms(a0, a1, a2, a3, a4, a5)) }
        "vp_ts_add_interval" => { let a0: Timestamp = Arg::get(t); let a1: Interval = Arg::get(t); run(move || vpentry::vp_ts_add_interval(a0, a1)) }
        "vp_ts_sub_interval" => { let a0: Timestamp = Arg::get(t); let a1: Interval = Arg::get(t); run(move || vpentry::vp_ts_sub_interval(a0, a1)) }
        "vp_ts_add_time" => { let a0: Timestamp = Arg::get(t); let a1: Time = Arg::get(t); run(move || vpentry::vp_ts_add_time(a0, a1)) }
        "vp_ts_sub_time" => { let a0: Timestamp = Arg::get(t); let a1: Time = Arg::get(t); run(move || vpentry::vp_ts_sub_time(a0, a1)) }
        "vp_ts_sub_date" => { let a0: Timestamp = Arg::get(t); let a1: Date = Arg::get(t); run(move || vpentry::vp_ts_sub_date(a0, a1)) }
        "vp_ts_sub_timestamp" => { let a0: Timestamp = Arg::get(t); let a1: Timestamp = Arg::get(t); run(move || vpentry::vp_ts_sub_timestamp(a0, a1)) }
        "vp_ts_age" => { let a0: Timestamp = Arg::get(t); let a1: Timestamp = Arg::get(t); run(move || vpentry::vp_ts_age(a0, a1)) }
        "vp_ts_format" => { let a0: Timestamp = Arg::get(t); let a1: DateStyle = Arg::get(t); let a2: DateOrder = Arg::get(t); run(move || vpentry::vp_ts_format(a0, a1, a2)) }
        "vp_ts_from_str" => { let a0: String = Arg::get(t); let a1: i32 = Arg::get(t); let a2: DateOrder = Arg::get(t); run(move || vpentry::vp_ts_from_str(&a0, a1, a2)) }
        "vp_ts_part" => { let a0: Timestamp = Arg::get(t); let a1: FieldType = Arg::get(t); let a2: DateUnit = Arg::get(t); run(move || vpentry::vp_ts_part(&a0, a1, a2)) }
        "vp_ts_truncate" => { let a0: Timestamp = Arg::get(t); let a1: FieldType = Arg::get(t); let a2: DateUnit = Arg::get(t); run(move || vpentry::vp_ts_truncate(&a0, a1, a2)) }
        "vp_ts_is_finite" => { let a0: Timestamp = Arg::get(t); run(move || vpentry::vp_ts_is_finite(&a0)) }
        "vp_ts_is_infinite" => { let a0: Timestamp = Arg::get(t); run(move || vpentry::vp_ts_is_infinite(&a0)) }
        "vp_ts_from_date" => { let a0: Date = Arg::get(t); run(move || vpentry::vp_ts_from_date(a0)) }
        "vp_ts_from_i64" => { let a0: i64 = Arg::get(t); run(move || vpentry::vp_ts_from_i64(a0)) }
        "vp_ts_into_i64" => { let a0: Timestamp = Arg::get(t); run(move || vpentry::vp_ts_into_i64(a0)) }
        "vp_ts_cmp" => { let a0: Timestamp = Arg::get(t); let a1: Timestamp = Arg::get(t); run(move || vpentry::vp_ts_cmp(&a0, &a1)) }
        "vp_ts_eq" => { let a0: Timestamp = Arg::get(t); let a1: Timestamp = Arg::get(t); run(move || vpentry::vp_ts_eq(&a0, &a1)) }
        "vp_iv_new" => {  run(move || vpentry::vp_iv_new()) }
        "vp_iv_try_from_ymwd_hms" => { let a0: i32 = Arg::get(t); let a1: i32 = Arg::get(t); let a2: i32 = Arg::get(t); let a3: i32 = Arg::get(t); let a4: i32 = Arg::get(t); let a5: i32 = Arg::get(t); let a6: f64 = Arg::get(t); run(move || vpentry::vp_iv_try_from_ymwd_hms(a0, a1, a2, a3, a4, a5, a6)) }
        "vp_iv_add" => { let a0: Interval = Arg::get(t); let a1: Interval = Arg::get(t); run(move || vpentry::vp_iv_add(a0, a1)) }
        "vp_iv_op_add" => { let a0: Interval = Arg::get(t); let a1: Interval = Arg::get(t); run(move || vpentry::vp_iv_op_add(a0, a1)) }
        "vp_iv_sub" => { let a0: Interval = Arg::get(t); let a1: Interval = Arg::get(t); run(move || vpentry::vp_iv_sub(a0, a1)) }
        "vp_iv_negate" => { let a0: Interval = Arg::get(t); run(move || vpentry::vp_iv_negate(a0)) }
        "vp_iv_justify_hours" => { let a0: Interval = Arg::get(t); run(move || vpentry::vp_iv_justify_hours(a0)) }
        "vp_iv_justify_days" => { let a0: Interval = Arg::get(t); run(move || vpentry::vp_iv_justify_days(a0)) }
        "vp_iv_justify_interval" => { let a0: Interval = Arg::get(t); run(move || vpentry::vp_iv_justify_interval(a0)) }
        "vp_iv_mul_f64" => { let a0: Interval = Arg::get(t); let a1: f64 = Arg::get(t); run(move || vpentry::vp_iv_mul_f64(a0, a1)) }
        "vp_iv_div_f64" => { let a0: Interval = Arg::get(t); let a1: f64 = Arg::get(t); run(move || vpentry::vp_iv_div_f64(a0, a1)) }
        "vp_iv_format" => { let a0: Interval = Arg::get(t); let a1: IntervalStyle = Arg::get(t); run(move || vpentry::vp_iv_format(a0, a1)) }
        "vp_iv_from_str" => { let a0: String = Arg::get(t); let a1: i32 = Arg::get(t); let a2: IntervalStyle = Arg::get(t); run(move || vpentry::vp_iv_from_str(&a0, a1, a2)) }
        "vp_iv_from_time" => { let a0: Time = Arg::get(t); run(move || vpentry::vp_iv_from_time(a0)) }
        "vp_iv_into_i128" => { let a0: Interval = Arg::get(t); run(move || vpentry::vp_iv_into_i128(a0)) }
        "vp_iv_part" => { let a0: Interval = Arg::get(t); let a1: FieldType = Arg::get(t); let a2: DateUnit = Arg::get(t); run(move || vpentry::vp_iv_part(&a0, a1, a2)) }
        "vp_iv_truncate" => { let a0: Interval = Arg::get(t); let a1: FieldType = Arg::get(t); let a2: DateUnit = Arg::get(t); run(move || vpentry::vp_iv_truncate(&a0, a1, a2)) }
        "vp_iv_is_finite" => { let a0: Interval = Arg::get(t); run(move || vpentry::vp_iv_is_finite(&a0)) }
        "vp_iv_cmp" => { let a0: Interval = Arg::get(t); let a1: Interval = Arg::get(t); run(move || vpentry::vp_iv_cmp(&a0, &a1)) }
        "vp_iv_partial_cmp" => { let a0: Interval = Arg::get(t); let a1: Interval = Arg::get(t); run(move || vpentry::vp_iv_partial_cmp(&a0, &a1)) }
        "vp_iv_eq" => { let a0: Interval = Arg::get(t); let a1: Interval = Arg::get(t); run(move || vpentry::vp_iv_eq(&a0, &a1)) }
        "vp_date_text" => { let a0: Date = Arg::get(t); let a1: DateStyle = Arg::get(t); let a2: DateOrder = Arg::get(t); let a3: DateOrder = Arg::get(t); run(move || vpentry::vp_date_text(a0, a1, a2, a3)) }
        "vp_time_text" => { let a0: Time = Arg::get(t); let a1: DateStyle = Arg::get(t); let a2: i32 = Arg::get(t); let a3: DateOrder = Arg::get(t); run(move || vpentry::vp_time_text(a0, a1, a2, a3)) }
        "vp_ts_text" => { let a0: Timestamp = Arg::get(t); let a1: DateStyle = Arg::get(t); let a2: DateOrder = Arg::get(t); let a3: i32 = Arg::get(t); let a4: DateOrder = Arg::get(t); run(move || vpentry::vp_ts_text(a0, a1, a2, a3, a4)) }
        "vp_iv_text" => { let a0: Interval = Arg::get(t); let a1: IntervalStyle = Arg::get(t); let a2: i32 = Arg::get(t); let a3: IntervalStyle = Arg::get(t); run(move || vpentry::vp_iv_text(a0, a1, a2, a3)) }
        "vp_iv_same_hash" => { let a0: Interval = Arg::get(t); let a1: Interval = Arg::get(t); run(move || vpentry::vp_iv_same_hash(a0, a1)) }
        "vp_date_serde" => { let a0: Date = Arg::get(t); let a1: bool = Arg::get(t); let a2: bool = Arg::get(t); run(move || vpentry::vp_date_serde(a0, a1, a2)) }
        "vp_time_serde" => { let a0: Time = Arg::get(t); let a1: bool = Arg::get(t); let a2: bool = Arg::get(t); run(move || vpentry::vp_time_serde(a0, a1, a2)) }
        "vp_ts_serde" => { let a0: Timestamp = Arg::get(t); let a1: bool = Arg::get(t); let a2: bool = Arg::get(t); run(move || vpentry::vp_ts_serde(a0, a1, a2)) }
        "vp_iv_serde" => { let a0: Interval = Arg::get(t); let a1: bool = Arg::get(t); let a2: bool = Arg::get(t); run(move || vpentry::vp_iv_serde(a0, a1, a2)) }
        "vp_iv_serde_rec" => { let a0: Interval = Arg::get(t); let a1: bool = Arg::get(t); let a2: usize = Arg::get(t); let a3: usize = Arg::get(t); let a4: usize = Arg::get(t); let a5: usize = Arg::get(t); let a6: usize = Arg::get(t); run(move || vpentry::vp_iv_serde_rec(a0, a1, a2, a3, a4, a5, a6)) }
        "vp_date_serde_text" => { let a0: Date = Arg::get(t); run(move || vpentry::vp_date_serde_text(a0)) }
        "vp_time_serde_text" => { let a0: Time = Arg::get(t); run(move || vpentry::vp_time_serde_text(a0)) }
        "vp_ts_serde_text" => { let a0: Timestamp = Arg::get(t); run(move || vpentry::vp_ts_serde_text(a0)) }
        "vp_iv_serde_text" => { let a0: Interval = Arg::get(t); run(move || vpentry::vp_iv_serde_text(a0)) }
        "vp_date_serde_int" => { let a0: i64 = Arg::get(t); run(move || vpentry::vp_date_serde_int(a0)) }
        "vp_date_serde_uint" => { let a0: i64 = Arg::get(t); run(move || vpentry::vp_date_serde_uint(a0)) }
        "vp_time_serde_uint" => { let a0: i64 = Arg::get(t); run(move || vpentry::vp_time_serde_uint(a0)) }
        "vp_ts_serde_uint" => { let a0: i64 = Arg::get(t); run(move || vpentry::vp_ts_serde_uint(a0)) }
        "vp_date_after" => { let a0: String = Arg::get(t); let a1: String = Arg::get(t); let a2: DateOrder = Arg::get(t); run(move || vpentry::vp_date_after(&a0, &a1, a2)) }
        "vp_time_after" => { let a0: String = Arg::get(t); let a1: String = Arg::get(t); let a2: DateOrder = Arg::get(t); run(move || vpentry::vp_time_after(&a0, &a1, a2)) }
        "vp_iv_after" => { let a0: String = Arg::get(t); let a1: String = Arg::get(t); let a2: DateOrder = Arg::get(t); run(move || vpentry::vp_iv_after(&a0, &a1, a2)) }
        _ => return None,
    })
}
