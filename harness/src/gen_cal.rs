//! Calendar, time of day, leap seconds, time scales.
use crate::dates::{self, days_in};
use crate::ev::{call, ev, Ev, Out};
use crate::rng::{spice, nudge, split, Rng};
use tofas::calendar::*;
use tofas::delta_at::{DeltaAt, DeltaAtError};
use tofas::time::*;

#[allow(unreachable_patterns)]
pub fn cal_err(e: &CalendarError) -> &'static str {
    match e {
        CalendarError::BadYear => "BadYear",
        CalendarError::BadMonth => "BadMonth",
        CalendarError::BadDay => "BadDay",
        CalendarError::BadJulian => "BadJulian",
        CalendarError::BadFract => "BadFract",
        _ => "other",
    }
}

const YEARS: [i64; 38] = [-2147483648, -2147483647, -1000000, -4801, -4800, -4799, -4798, -4713, -401, -400, -399,
    -101, -100, -99, -5, -4, -3, -1, 0, 1, 3, 4, 99, 100, 101, 400, 1582, 1600, 1858, 1900, 1999, 2000, 2004, 2100, 9999,
    10000, 1000000, 2147483647];

pub fn year(r: &mut Rng) -> i64 {
    match r.below(7) {
        0 => r.pick(&YEARS),
        1 => r.int(1950, 2030),
        2 => r.int(-4800, 3000),
        3 => r.int(-4799, 0),
        4 => 100*r.int(-47, 60),
        5 => r.int(3000, 3000000),
        _ => r.int(-4799, 2147483647),
    }
}

fn new_event(out: &mut Out, y: i64, m: i64, d: i64) {
    let g = call(|| GregorianDate::new(y as i32, m as i32, d as i32));
    let e = ev("new").i("y", y).i("m", m).i("d", d);
    out.put(match g {
        Ok(Ok(g)) => e.s("res", "ok").i("oy", g.year as i64).i("om", g.month as i64).i("od", g.day as i64),
        Ok(Err(x)) => e.s("res", cal_err(&x)).i("oy", 0).i("om", 0).i("od", 0),
        Err(p) => e.s("res", "panic").s("msg", &p).i("oy", 0).i("om", 0).i("od", 0),
    });
}

pub fn c01(r: &mut Rng, out: &mut Out, n: usize) {
    for &y in &YEARS { for m in [-2147483648, -1, 0, 1, 2, 3, 6, 12, 13, 2147483647] {
        for d in [-2147483648, -1, 0, 1, 28, 29, 30, 31, 32, 2147483647] { new_event(out, y, m, d); } } }
    for _ in 0..n {
        let y = if r.below(20) == 0 { r.int(i32::MIN as i64, -4790) } else { year(r) };
        let m = match r.below(12) { 0 => r.int(-3, 16), 1 => r.int(i32::MIN as i64, i32::MAX as i64), _ => r.int(1, 12) };
        let d = match r.below(12) {
            0 => r.int(i32::MIN as i64, i32::MAX as i64),
            1 => r.int(-40, 70),
            2..=6 if m >= 1 && m <= 12 => days_in(y, m) + r.int(-1, 1),
            _ => r.int(1, 31),
        };
        new_event(out, y, m, d);
    }
}

fn valid_date(r: &mut Rng) -> (i64, i64, i64) {
    let mut y = year(r);
    if y < -4799 { y = -4799 + r.int(0, 3); }
    let m = r.int(1, 12);
    let d = match r.below(3) { 0 => 1, 1 => days_in(y, m), _ => r.int(1, days_in(y, m)) };
    (y, m, d)
}
fn gd(y: i64, m: i64, d: i64) -> GregorianDate { GregorianDate { year: y as i32, month: m as i32, day: d as i32 } }

pub fn c02(r: &mut Rng, out: &mut Out, n: usize) {
    let mut one = |y: i64, m: i64, d: i64| {
        let g = gd(y, m, d);
        let e = ev("to_julian").i("y", y).i("m", m).i("d", d);
        out.put(match call(|| g.to_julian()) {
            Ok((a, b)) => e.s("res", "ok").f("a", a).f("b", b),
            Err(p) => e.s("res", "panic").s("msg", &p).f("a", 0.0).f("b", 0.0),
        });
    };
    for &y in &YEARS { if y >= -4799 { for m in 1..=12 { one(y, m, 1); one(y, m, days_in(y, m)); } } }
    for _ in 0..n { let (y, m, d) = valid_date(r); one(y, m, d); }
}

/// Two-part Julian dates for the calendar: within and around the accepted
/// range, and the odd values.
pub fn julian(r: &mut Rng) -> (f64, f64) {
    let day = match r.below(10) {
        0 => -32000.0 + r.int(0, 3) as f64,
        1 => 1e9 - r.int(0, 3) as f64,
        2 => r.int(-32000, 1000000000) as f64,
        3 => r.int(-32000, 32000) as f64,
        4 => r.int(0, 4000000) as f64,
        5 => 2451545.0 + r.int(-40000, 40000) as f64,
        6 => 10f64.powf(r.range(0.0, 8.9)).floor(),
        7 => 146097.0*r.int(0, 20) as f64 + 1721119.5 + r.int(-2, 2) as f64,
        _ => 2400000.5 + r.int(0, 80000) as f64,
    };
    let frac = match r.below(8) {
        0 => 0.0,
        1 => 0.5,
        2 => nudge(0.5, r.int(-3, 3)),
        3 => nudge(1.0, r.int(-3, 3)),
        4 => r.logsym(-18.0, -3.0),
        5 => 0.5 + r.logsym(-18.0, -3.0),
        6 => r.int(0, 86400) as f64/86400.0,
        _ => r.f(),
    };
    let (mut a, mut b) = match r.below(5) {
        4 => { let h = r.logsym(6.0, 15.5).floor(); (day - h, frac + h) }
        0 => { let h = r.logsym(0.0, 6.0).floor(); (day - h, frac + h) }
        1 => { let h = r.f(); (day - h, frac + h) }
        _ => split(r, day, frac),
    };
    if r.below(4) == 0 { a = nudge(a, r.int(-2, 2)); }
    if r.below(4) == 0 { b = nudge(b, r.int(-2, 2)); }
    (a, b)
}

const SPECIAL_JD: [(f64, f64); 44] = [
    (f64::NAN, 0.0), (0.0, f64::NAN), (f64::NAN, f64::NAN), (f64::INFINITY, 0.0), (0.0, f64::NEG_INFINITY),
    (f64::INFINITY, f64::NEG_INFINITY), (f64::NAN, f64::INFINITY), (f64::INFINITY, f64::INFINITY),
    (-32000.0, 0.0), (0.0, -32000.0), (-32001.0, 0.0), (-32000.0, -0.01), (-32000.5, 0.5), (1e9, 0.0), (0.0, 1e9),
    (1e9, 1.0), (1e9, 0.001), (1e9, -0.5), (1.5e9, 0.0), (1e18, 0.0), (-1e18, 0.0), (-1e300, 0.0), (1e300, 0.0),
    (1e300, -1e300), (0.0, 0.0), (-0.0, -0.0), (0.5, 0.0), (-0.5, 0.0), (-0.5, -0.5), (0.5, 0.5), (-1.5, 0.0),
    (1e9, -1e9), (2e9, -1e9), (-1e9, 1.0000001e9), (-1e6, 3.4e6), (3.4e6, -1e6), (2451545.0, 0.5 - 5.551115123125783e-17),
    (2451544.5, -1e-17), (2451544.5, 1.0), (2451545.0, -0.5), (0.0, 2451544.5), (2400000.5, 51544.0),
    (5.3e8, 0.25), (5.4e8, 0.25)];

fn from_julian_event(out: &mut Out, a: f64, b: f64) {
    let e = ev("from_julian").f("a", a).f("b", b);
    out.put(match call(|| GregorianDate::from_julian(a, b)) {
        Ok(Ok((g, f))) => e.s("res", "ok").i("y", g.year as i64).i("m", g.month as i64).i("d", g.day as i64).f("f", f),
        Ok(Err(x)) => e.s("res", cal_err(&x)).i("y", 0).i("m", 0).i("d", 0).f("f", 0.0),
        Err(p) => e.s("res", "panic").s("msg", &p).i("y", 0).i("m", 0).i("d", 0).f("f", 0.0),
    });
}

pub fn c03(r: &mut Rng, out: &mut Out, n: usize) {
    for (a, b) in SPECIAL_JD { from_julian_event(out, a, b); from_julian_event(out, b, a); }
    for k in -3..=3 {
        from_julian_event(out, nudge(-32000.0, k), 0.0);
        from_julian_event(out, nudge(1e9, k), 0.0);
        for d in [-31999.5, -0.5, 0.5, 1.5, 2451544.5, 999999999.5] {
            from_julian_event(out, nudge(d, k), 0.0);
            from_julian_event(out, d, nudge(0.0, k));
            from_julian_event(out, d, nudge(1e-17, k));
            from_julian_event(out, nudge(-1e-17, k), d);
            from_julian_event(out, d, nudge(1.0, k));
            from_julian_event(out, d, nudge(-1.0, k));
            from_julian_event(out, d - 0.5, nudge(0.5, k));
            from_julian_event(out, nudge(-0.5, k), d + 0.5);
        }
    }
    for _ in 0..n { let (a, b) = julian(r); from_julian_event(out, a, b); }
}

/// Fractions of day, with the boundaries of seconds, minutes and hours.
pub fn fraction(r: &mut Rng) -> f64 {
    match r.below(9) {
        0 => nudge(r.int(0, 86400) as f64/86400.0, r.int(-2, 2)),
        1 => nudge(r.int(0, 1440) as f64/1440.0, r.int(-2, 2)),
        2 => nudge(r.int(0, 24) as f64/24.0, r.int(-2, 2)),
        3 => 10f64.powf(r.range(-18.0, 0.0)),
        4 => 1.0 - 10f64.powf(r.range(-18.0, -1.0)),
        5 => nudge(1.0, -r.int(0, 4)),
        6 => (r.int(0, 86399) as f64 + r.pick(&[0.5, 0.999999, 0.9999995, 0.0000005, 0.9999999999]))/86400.0,
        _ => r.f(),
    }
}
const SPECIAL_FRACTIONS: [f64; 20] = [0.0, -0.0, 1.0, 0.5, -5e-324, 5e-324, -1e-18, 1e-18, -1e-9, 1.0000000000000002,
    0.9999999999999999, 1.5, 2.0, -1.0, 1e300, -1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.9999942129629629];

fn hms_event(out: &mut Out, f: f64) {
    let e = ev("from_fraction").f("f", f);
    out.put(match call(|| HMS::from_fraction_of_day(f)) {
        Ok(Ok(t)) => e.s("res", "ok").i("h", t.hour as i64).i("m", t.minute as i64).f("s", t.second),
        Ok(Err(x)) => e.s("res", cal_err(&x)).i("h", 0).i("m", 0).f("s", 0.0),
        Err(p) => e.s("res", "panic").s("msg", &p).i("h", 0).i("m", 0).f("s", 0.0),
    });
}

pub fn seconds(r: &mut Rng) -> f64 {
    match r.below(7) {
        0 => r.int(0, 59) as f64,
        1 => r.int(0, 59) as f64 + r.pick(&[0.5, 0.25, 0.999999, 0.9999995, 0.9999994999, 0.00000049, 0.0000005, 0.1]),
        2 => nudge(60.0, -r.int(1, 4)),
        3 => 10f64.powf(r.range(-12.0, 1.7)),
        _ => r.f()*60.0,
    }
}

pub fn c04(r: &mut Rng, out: &mut Out, n: usize) {
    for f in SPECIAL_FRACTIONS { hms_event(out, f); }
    for k in 0..=24 { for j in -1..=1 { hms_event(out, nudge(k as f64/24.0, j)); } }
    for _ in 0..n { hms_event(out, fraction(r)); }
    for i in 0..n {
        let (h, m, s) = match i % 4 {
            0 => (r.int(0, 255), r.int(0, 255), 10f64.powf(r.range(-9.0, 9.0))),
            1 => (r.pick(&[0, 1, 12, 23, 24]), r.pick(&[0, 1, 30, 59]), seconds(r)),
            _ => (r.int(0, 23), r.int(0, 59), seconds(r)),
        };
        let e = ev("to_fraction").i("h", h).i("m", m).f("s", s);
        out.put(match call(|| HMS::new(h as u8, m as u8, s)) {
            Ok(t) => {
                let e = e.i("oh", t.hour as i64).i("om", t.minute as i64).f("os", t.second);
                match call(|| t.to_fraction_of_day()) {
                    Ok(f) => e.s("res", "ok").f("f", f),
                    Err(p) => e.s("res", "panic").s("msg", &p).f("f", 0.0),
                }
            }
            Err(p) => e.s("res", "panic").s("msg", &p).f("f", 0.0).i("oh", 0).i("om", 0).f("os", 0.0),
        });
    }
}

fn dt_from(out: &mut Out, a: f64, b: f64) {
    let e = ev("dt_from").f("a", a).f("b", b);
    let zero = |e: Ev| e.i("y", 0).i("m", 0).i("d", 0).i("hh", 0).i("mm", 0).f("s", 0.0);
    out.put(match call(|| GregorianDateHMS::from_julian(a, b)) {
        Ok(Ok(g)) => e.s("res", "ok").i("y", g.date.year as i64).i("m", g.date.month as i64).i("d", g.date.day as i64)
            .i("hh", g.hms.hour as i64).i("mm", g.hms.minute as i64).f("s", g.hms.second),
        Ok(Err(x)) => zero(e.s("res", cal_err(&x))),
        Err(p) => zero(e.s("res", "panic").s("msg", &p)),
    });
}

pub fn c05(r: &mut Rng, out: &mut Out, n: usize) {
    for (a, b) in SPECIAL_JD { dt_from(out, a, b); }
    for _ in 0..n { let (a, b) = julian(r); dt_from(out, a, b); }
    // Splits at exact seconds and just before midnight
    for _ in 0..n/4 {
        let d = 2400000.5 + r.int(0, 70000) as f64;
        let k = r.pick(&[0, 1, 59, 60, 3599, 3600, 43200, 86399, 86400]) as f64;
        let f = nudge(k/86400.0, r.int(-2, 2));
        if r.coin() { dt_from(out, d, f) } else { dt_from(out, f, d) }
    }
    for _ in 0..n {
        let (mut y, m, d) = valid_date(r);
        if y > 3000000 { y = y % 3000000; }
        let d = d.min(days_in(y, m));
        let (hh, mm, s) = match r.below(12) {
            0 => (24, 0, 0.0),
            1 => (23, 59, 60.0 + r.f()),           // a leap second
            2 => (r.pick(&[0, 23]), r.pick(&[0, 59]), r.pick(&[0.0, 59.0, 59.5, 59.999999999])),
            _ => (r.int(0, 23), r.int(0, 59), seconds(r)),
        };
        let g = GregorianDateHMS { date: gd(y, m, d), hms: HMS::new(hh as u8, mm as u8, s) };
        let e = ev("dt_to").i("y", y).i("m", m).i("d", d).i("hh", hh).i("mm", mm).f("s", s);
        out.put(match call(|| g.to_julian()) {
            Ok((a, b)) => e.s("res", "ok").f("a", a).f("b", b),
            Err(p) => e.s("res", "panic").s("msg", &p).f("a", 0.0).f("b", 0.0),
        });
    }
}

pub fn c07(r: &mut Rng, out: &mut Out, n: usize) {
    let mut one = |y: i64, m: i64, d: i64, fr: f64| {
        let g = gd(y, m, d);
        let e = ev("delta_at").i("y", y).i("m", m).i("d", d).f("fr", fr);
        out.put(match call(|| g.delta_at(fr)) {
            Ok(Ok(Some(v))) => e.s("res", "ok").f("v", v),
            Ok(Ok(None)) => e.s("res", "none").f("v", 0.0),
            Ok(Err(DeltaAtError::BadFract)) => e.s("res", "BadFract").f("v", 0.0),
            #[allow(unreachable_patterns)]
            Ok(Err(_)) => e.s("res", "other").f("v", 0.0),
            Err(p) => e.s("res", "panic").s("msg", &p).f("v", 0.0),
        });
    };
    for y in 1957..=2032 { for m in 1..=12 {
        one(y, m, 1, 0.0);
        one(y, m, days_in(y, m), 1.0);
        one(y, m, r.int(1, days_in(y, m)), r.f());
        one(y, m, r.int(2, 28), r.pick(&[0.0, 0.5, 1.0]));
        // around the first instants of the month
        for fr in [1e-17, 1e-9, 0.25, 0.5, 0.9, nudge(1.0, -1), 1.0] { one(y, m, 1, fr); }
        for fr in [0.0, 0.5, 1e-9, 0.9999, nudge(1.0, -1)] { one(y, m, days_in(y, m), fr); one(y, m, 2, fr); one(y, m, 15, fr); }
    } }
    for y in [-4799, -1, 0, 1, 1959, 1960, 1971, 1972, 2017, 2018, 9999, 178956970, 178956971, 2147483647] {
        for m in [1, 12] { for fr in SPECIAL_FRACTIONS { one(y, m, if m == 1 { 1 } else { 31 }, fr); } }
    }
    for _ in 0..n { let (y, m, d) = valid_date(r); let f = if r.below(8) == 0 { r.logsym(-3.0, 1.0) } else { fraction(r) }; one(y, m, d, f); }
    for _ in 0..n { let y = r.int(1958, 2020); let m = r.int(1, 12); let d = r.int(1, days_in(y, m)); let f = fraction(r); one(y, m, d, f); }
}

fn any_date(r: &mut Rng) -> (f64, f64) {
    match r.below(8) {
        0 => { let a = r.logsym(-3.0, 7.0); (a, a) }
        1 => { let a = r.logsym(-3.0, 7.0); (a, nudge(a, r.int(-1, 1))) }
        2 => (r.logsym(-6.0, 7.0), r.logsym(-6.0, 7.0)),
        3 => (r.pick(&[0.0, -0.0, 2451545.0, 0.5, -0.5]), r.pick(&[0.0, -0.0, 2451545.0, 0.5, -0.5])),
        4 => (-(r.f()*3e6), -(r.f()*3e6)),
        _ => dates::date(r, 500000.0),
    }
}

pub fn c08(r: &mut Rng, out: &mut Out, n: usize) {
    let pair = |op: &str, a: f64, b: f64, off: f64, res: Result<(f64, f64), String>| {
        let e = ev("shift").s("conv", op).f("a", a).f("b", b).f("off", off);
        match res {
            Ok((x, y)) => e.s("res", "ok").f("ra", x).f("rb", y),
            Err(p) => e.s("res", "panic").s("msg", &p).f("ra", 0.0).f("rb", 0.0),
        }
    };
    let total = |op: &str, a: f64, b: f64, res: Result<f64, String>| {
        let e = ev("total").s("conv", op).f("a", a).f("b", b);
        match res {
            Ok(v) => e.s("res", "ok").f("v", v),
            Err(p) => e.s("res", "panic").s("msg", &p).f("v", 0.0),
        }
    };
    for i in 0..n {
        let (a, b) = any_date(r);
        let off = match r.below(8) {
            0 => r.pick(&[0.0, -0.0]), 1 => r.pick(&[1.0, -1.0, 37.0, 10.0, 69.184, 86400.0]),
            2 => r.logsym(-6.0, 6.0), 3 => -r.f()*0.002, 4 => r.f()*0.002,
            _ => r.sym(200.0),
        };
        let mut v = [off, off];
        spice(r, 1e6, &mut v[..1]);
        let off = v[0];
        let mut v = [a, b];
        spice(r, 4e6, &mut v);
        let (a, b) = (v[0], v[1]);
        match i % 5 {
            0 => out.put(pair("utc_tai", a, b, off, call(|| TAI::from_utc_delta_at(UTC((a, b)), off).0))),
            1 => out.put(pair("tai_tt", a, b, 0.0, call(|| { let t: TT = TAI((a, b)).into(); t.0 }))),
            2 => out.put(pair("tt_tdb", a, b, off, call(|| TDB::from_tt(TT((a, b)), off).0))),
            3 => out.put(pair("ut1_tt", a, b, off, call(|| TT::from_ut1(UT1((a, b)), off).0))),
            _ => out.put(pair("tt_ut1", a, b, off, call(|| UT1::from_tt(TT((a, b)), off).0))),
        }
        if i % 2 == 0 {
            match (i/2) % 4 {
                0 => out.put(total("tt", a, b, call(|| TT((a, b)).total()))),
                1 => out.put(total("utc", a, b, call(|| UTC((a, b)).total()))),
                2 => out.put(total("tai", a, b, call(|| TAI((a, b)).total()))),
                _ => out.put(total("ut1", a, b, call(|| UT1((a, b)).total()))),
            }
        }
    }
}

/// Civil times taken through the scales.
pub fn c28(r: &mut Rng, out: &mut Out, n: usize) {
    for _ in 0..n {
        let (y, m, d) = match r.below(6) {
            0 => { let (y, m, d) = valid_date(r); let y = y.rem_euclid(2700000).max(1957); (y, m, d.min(days_in(y, m))) }
            1 => { let y = r.int(1959, 2018); if r.coin() { (y, r.pick(&[6, 12]), 31) } else { (y, r.pick(&[1, 7]), 1) } }
            2 => { let (y, m) = r.pick(&[(1961, 8), (1963, 11), (1964, 4), (1964, 9), (1965, 3), (1965, 9), (1968, 2)]); if r.coin() { (y, m, 1) } else { (y, m - 1, 31) } }
            _ => { let y = r.int(1958, 2040); let m = r.int(1, 12); (y, m, r.int(1, days_in(y, m))) }
        };
        let d = d.min(days_in(y, m));
        let (hh, mm, s) = match r.below(8) {
            0 => (24, 0, 0.0),
            1 => (23, 59, 60.0),
            2 => (23, 59, r.pick(&[59.0, 59.5, 59.999999, 60.000001, 60.5])),
            3 => (0, 0, r.pick(&[0.0, 1e-9, 0.5, 1.0])),
            4 => (r.int(0, 23), r.int(0, 59), r.int(0, 59) as f64),
            _ => (r.int(0, 23), r.int(0, 59), seconds(r)),
        };
        let way = r.below(5);
        let (dt, dtr) = (r.pick(&[0.0, 69.184, 32.0, -3.5, 0.3341]) + r.sym(1.0), r.sym(0.002));
        let e = ev("civil").i("y", y).i("m", m).i("d", d).i("hh", hh).i("mm", mm).f("s", s).f("dt", dt).f("dtr", dtr);
        let none = |e: Ev, f: f64| [("ua", 0), ("ub", 0), ("ta", 0), ("tb", 0), ("xa", 0), ("xb", 0), ("va", 0), ("vb", 0), ("wa", 0), ("wb", 0), ("da", 0), ("db", 0), ("rf", 0), ("total", 0)]
            .iter().fold(e.f("f", f).f("dat", 0.0).i("ry", 0).i("rm", 0).i("rd", 0), |e, (k, _)| e.f(k, 0.0));
        let got = call(|| {
            let g = GregorianDate::new(y as i32, m as i32, d as i32).expect("date");
            let t = HMS::new(hh as u8, mm as u8, s);
            let f = t.to_fraction_of_day();
            let dat = match g.delta_at(f) { Ok(Some(v)) => v, Ok(None) => return Err(("none", f)), Err(DeltaAtError::BadFract) => return Err(("BadFract", f)),
                #[allow(unreachable_patterns)] Err(_) => return Err(("other", f)) };
            let (a, b) = g.to_julian();
            let u = match way { 0 => (a + b, f), 1 => (f, a + b), 2 => (a, b + f), 3 => (b + f, a), _ => GregorianDateHMS { date: g, hms: t }.to_julian() };
            let tai = TAI::from_utc_delta_at(UTC(u), dat);
            let tt: TT = tai.into();
            let ut = UT1::from_tt(tt, dt);
            let back = TT::from_ut1(ut, dt);
            let tdb = TDB::from_tt(tt, dtr);
            let read = GregorianDate::from_julian(tai.0.0, tai.0.1);
            Ok((f, dat, u, tai.0, tt.0, ut.0, back.0, tdb.0, read, tt.total()))
        });
        out.put(match got {
            Ok(Ok((f, dat, u, t, x, v, w, d, Ok((g, rf)), total))) => e.s("res", "ok").f("f", f).f("dat", dat).f("ua", u.0).f("ub", u.1).f("ta", t.0).f("tb", t.1)
                .f("xa", x.0).f("xb", x.1).f("va", v.0).f("vb", v.1).f("wa", w.0).f("wb", w.1).f("da", d.0).f("db", d.1)
                .i("ry", g.year as i64).i("rm", g.month as i64).i("rd", g.day as i64).f("rf", rf).f("total", total),
            Ok(Ok((f, .., Err(x), _))) => none(e.s("res", cal_err(&x)), f),
            Ok(Err((x, f))) => none(e.s("res", x), f),
            Err(p) => none(e.s("res", "panic").s("msg", &p), 0.0),
        });
    }
}
