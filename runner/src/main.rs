//! Replay runner: executes entry functions of the real crate on concrete inputs.
//! stdin: one call per line, `name arg arg ...`; stdout: one result per line.
use pgdatetime::*;
use std::io::{BufRead, Write};
mod table;

pub struct Toks<'a>(std::str::SplitWhitespace<'a>);
impl<'a> Toks<'a> {
    fn next(&mut self) -> &'a str { match self.0.next() { Some(x) => x, None => bad("missing argument") } }
}
/// a request this program cannot understand: an error of the harness, not of the code under test
fn bad(x: &str) -> ! { eprintln!("bad request: {}", x); std::process::exit(97) }
pub trait Arg: Sized { fn get(t: &mut Toks) -> Self; }
macro_rules! num { ($($t:ty),*) => { $(impl Arg for $t { fn get(t: &mut Toks) -> Self { t.next().parse().unwrap_or_else(|_| bad("number")) } })* } }
num!(i32, i64, u8, usize);
impl Arg for bool { fn get(t: &mut Toks) -> Self { t.next() == "1" } }
impl Arg for f64 { fn get(t: &mut Toks) -> Self { f64::from_bits(u64::from_str_radix(t.next(), 16).unwrap()) } }
impl Arg for String {
    fn get(t: &mut Toks) -> Self {
        let h = t.next();
        let h = &h[1..];
        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        String::from_utf8(b).expect("utf8")
    }
}
impl Arg for Date { fn get(t: &mut Toks) -> Self { Date::from(i32::get(t)) } }
impl Arg for Time { fn get(t: &mut Toks) -> Self { Time::from(i64::get(t)) } }
impl Arg for Timestamp { fn get(t: &mut Toks) -> Self { Timestamp::from(i64::get(t)) } }
impl Arg for Interval {
    fn get(t: &mut Toks) -> Self {
        let (m, d, x) = (i32::get(t), i32::get(t), i64::get(t));
        mk_interval(m, d, x)
    }
}
macro_rules! enums { ($t:ident: $($v:ident),*) => {
    impl Arg for $t { fn get(t: &mut Toks) -> Self { match t.next() { $(stringify!($v) => $t::$v,)* x => bad(x) } } }
} }
enums!(DateOrder: YMD, DMY, MDY);
enums!(DateStyle: Postgres, ISO, SQL, German, XSD);
enums!(IntervalStyle: Postgres, PostgresVerbose, SQLStandard, ISO8601);
enums!(FieldType: Unit, Epoch);
enums!(DateUnit: Delta, Year, Month, Day, Quarter, Hour, Minute, Second, MilliSec, MicroSec, Doy, Dow, IsoDow, Week, Decade, Century, Millennium, Epoch, IsoYear, JULIAN, Tz, TzMinute, TzHour);

/// the three fields of an interval, read from its Debug form by name
fn iv_fields(v: &Interval) -> (i32, i32, i64) {
    let s = format!("{:?}", v);
    let get = |n: &str| -> i64 {
        let p = s.find(&format!("{}: ", n)).expect("interval field") + n.len() + 2;
        let e = s[p..].find(|c: char| c != '-' && !c.is_ascii_digit()).unwrap() + p;
        s[p..e].parse().unwrap()
    };
    (get("month") as i32, get("day") as i32, get("time"))
}

/// builds an interval from its fields without going through any function under test: the field
/// offsets are learnt from the Debug form of patterned memory
fn mk_interval(m: i32, d: i32, t: i64) -> Interval {
    assert_eq!(std::mem::size_of::<Interval>(), 16);
    fn of(w: [i32; 4]) -> Interval { unsafe { std::mem::transmute(w) } }
    let (mut pm, mut pd, mut pt) = (9, 9, 9);
    for i in 0..4 {
        let mut w = [0i32; 4];
        w[i] = 1;
        let f = iv_fields(&of(w));
        if f.0 == 1 { pm = i }
        if f.1 == 1 { pd = i }
        if f.2 == 1 { pt = i }
    }
    let mut w = [0i32; 4];
    w[pm] = m;
    w[pd] = d;
    w[pt] = t as i32;
    w[pt + 1] = (t >> 32) as i32;
    let r = of(w);
    assert_eq!(iv_fields(&r), (m, d, t));
    r
}

pub trait Out { fn show(&self) -> String; }
macro_rules! show { ($($t:ty),*) => { $(impl Out for $t { fn show(&self) -> String { format!("{}", self) } })* } }
show!(i32, i64, i128, u8, usize, u64);
impl Out for bool { fn show(&self) -> String { (if *self { "true" } else { "false" }).into() } }
impl Out for f64 { fn show(&self) -> String { format!("f{:016x}", self.to_bits()) } }
impl Out for () { fn show(&self) -> String { "()".into() } }
impl Out for Date { fn show(&self) -> String { i32::from(*self).show() } }
impl Out for Time { fn show(&self) -> String { i64::from(*self).show() } }
impl Out for Timestamp { fn show(&self) -> String { i64::from(*self).show() } }
impl Out for Interval { fn show(&self) -> String { let f = iv_fields(self); format!("{{{} {} {}}}", f.0, f.1, f.2) } }
impl Out for String { fn show(&self) -> String { self.as_bytes().to_vec().show() } }
impl Out for Vec<u8> { fn show(&self) -> String { let mut s = String::from("s"); for b in self { s.push_str(&format!("{:02x}", b)) } s } }
impl Out for std::cmp::Ordering { fn show(&self) -> String { (*self as i8).to_string() } }
impl<T: Out> Out for Option<T> { fn show(&self) -> String { match self { None => "none".into(), Some(x) => format!("some {}", x.show()) } } }
impl<T: Out, E> Out for Result<T, E> { fn show(&self) -> String { match self { Ok(x) => format!("ok {}", x.show()), Err(_) => "err".into() } } }
impl<A: Out, B: Out> Out for (A, B) { fn show(&self) -> String { format!("( {} {} )", self.0.show(), self.1.show()) } }
impl<A: Out, B: Out, C: Out> Out for (A, B, C) { fn show(&self) -> String { format!("( {} {} {} )", self.0.show(), self.1.show(), self.2.show()) } }

fn run<T: Out>(f: impl FnOnce() -> T + std::panic::UnwindSafe) -> String {
    match std::panic::catch_unwind(f) {
        Ok(r) => format!("R {}", r.show()),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            format!("P {}", m.replace('\n', " "))
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut t = Toks(line.split_whitespace());
        let name = match t.0.next() { Some(n) => n, None => continue };
        // every call runs on a fresh thread when asked to (thread-local caches)
        let r = if name == "fresh" {
            let rest: String = line["fresh".len()..].to_string();
            std::thread::spawn(move || {
                let mut t = Toks(rest.split_whitespace());
                let n = t.next();
                table::call(n, &mut t).unwrap_or_else(|| "X".into())
            }).join().unwrap()
        } else {
            table::call(name, &mut t).unwrap_or_else(|| "X unknown".into())
        };
        writeln!(out, "{}", r).unwrap();
        if line.ends_with(" ") { out.flush().unwrap() }
    }
}
