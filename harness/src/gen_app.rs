//! Printed forms, sun-angle calculator, history independence, tools.
use crate::dates::{self, days_in};
use crate::ev::{call, ev, Ev, Out};
use crate::gen_cal::{self, fraction, seconds};
use crate::gen_num::{angle, height, lat};
use crate::rng::{nudge, Rng};
use std::process::Command;
use tofas::calendar::*;
use tofas::common::*;
use tofas::ellipsoid::*;
use tofas_extras::sun_angle::*;

fn text(e: Ev, v: Result<String, String>) -> Ev {
    match v { Ok(t) => e.s("res", "ok").s("text", &t), Err(p) => e.s("res", "panic").s("msg", &p).s("text", "") }
}

/// Values around printing boundaries at `dec` decimals.
fn printable(r: &mut Rng, lo: f64, hi: f64, dec: i32) -> f64 {
    let unit = 10f64.powi(-dec);
    match r.below(7) {
        0 => r.pick(&[0.0, lo, hi, 1.0, -1.0, 9.9999999, -9.9999999, 99.9999999, 0.5, -0.5]).clamp(lo, hi),
        1 => (r.range(lo, hi)/unit).round()*unit,
        2 => ((r.range(lo, hi)/unit).floor() + 0.5)*unit,
        3 => nudge(((r.range(lo, hi)/unit).floor() + 0.5)*unit, r.int(-2, 2)),
        4 => r.logsym(-9.0, 0.0).clamp(lo, hi),
        5 => r.sym(10.0).clamp(lo, hi),
        _ => r.range(lo, hi),
    }
}

pub fn c06(r: &mut Rng, out: &mut Out, n: usize) {
    for i in 0..n {
        let y = gen_cal::year(r).max(-2147483647);
        let m = r.int(1, 12);
        let d = r.int(1, days_in(y, m));
        let date = GregorianDate { year: y as i32, month: m as i32, day: d as i32 };
        out.put(text(ev("show_date").i("y", y).i("m", m).i("d", d), call(|| format!("{}", date))));
        let (hh, mm) = (r.int(0, if i % 7 == 0 { 24 } else { 23 }), r.int(0, 59));
        let s = match i % 3 { 0 => seconds(r), 1 => printable(r, 0.0, 60.0, 6), _ => HMS::from_fraction_of_day(fraction(r).min(1.0)).map(|t| t.second).unwrap_or(0.0) };
        let t = HMS::new(hh as u8, mm as u8, s);
        out.put(text(ev("show_hms").i("hh", hh).i("mm", mm).f("s", s), call(|| format!("{}", t))));
        let dt = GregorianDateHMS { date, hms: t };
        out.put(text(ev("show_dt").i("y", y).i("m", m).i("d", d).i("hh", hh).i("mm", mm).f("s", s), call(|| format!("{}", dt))));
        let lim = r.pick(&[(90.0, 180.0), (90.0, 180.0), (100.0, 1000.0), (1.0, 1.0), (1e4, 1e6)]);
        let (la, lo, h) = (printable(r, -lim.0, lim.0, 6), printable(r, -lim.1, lim.1, 6),
            match r.below(6) { 0 | 1 => printable(r, -1e5, 1e9, 2), 2 => printable(r, -1.0, 1.0, 2), _ => printable(r, -1e4, 1e5, 2) });
        let g = Geodetic360 { lat: la, lon: lo, height: h };
        out.put(text(ev("show_pos").f("lat", la).f("lon", lo).f("height", h), call(|| format!("{}", g))));
        let gr = Geodetic { elong: angle(r), phi: lat(r), height: height(r) };
        let g2 = call(|| { let g: Geodetic360 = gr.into(); g }).unwrap_or(Geodetic360 { lat: f64::NAN, lon: f64::NAN, height: f64::NAN });
        out.put(text(ev("show_rad").f("lat", g2.lat).f("lon", g2.lon).f("height", g2.height), call(|| format!("{}", gr))));
    }
}

fn sun_date(r: &mut Rng) -> (i64, i64, i64) {
    let y = match r.below(8) {
        0 => r.int(-1000, 1959), 1 => r.int(2018, 4000), 2 => 2007, 3 => r.int(1900, 2100), 4 => r.int(1958, 1974),
        _ => r.int(1960, 2040),
    };
    let m = r.int(1, 12);
    let d = match r.below(4) { 0 => 1, 1 => days_in(y, m), _ => r.int(1, days_in(y, m)) };
    (y, m, d)
}
fn sun_time(r: &mut Rng) -> (i64, i64, f64) {
    match r.below(6) { 0 => (0, 0, 0.0), 1 => (12, 0, 0.0), 5 => if r.below(4) == 0 { (24, 0, 0.0) } else { (23, 59, 59.0) }, 2 => (23, 59, 59.0 + 0.999*r.f()), _ => (r.int(0, 23), r.int(0, 59), seconds(r)) }
}
fn sun_delta(r: &mut Rng) -> f64 {
    match r.below(7) { 0 => if r.coin() { 0.0 } else { r.logsym(-17.0, -9.0) }, 1 => r.sym(600.0), 2 => r.int(-100000, 100000) as f64, 3 => r.sym(86400.0*400.0), 4 => r.logsym(-6.0, 3.0),
        5 => 86400.0*r.int(-2, 2) as f64, _ => r.sym(86400.0) }
}

fn params(y: i64, m: i64, d: i64, hh: i64, mm: i64, s: f64, la: f64, lo: f64, h: f64) -> SunAngleParameters {
    let mut p = SunAngleParameters::default();
    p.date = GregorianDate { year: y as i32, month: m as i32, day: d as i32 };
    p.time = HMS::new(hh as u8, mm as u8, s);
    p.position = Geodetic360 { lat: la, lon: lo, height: h };
    p
}
fn result_fields(e: Ev, q: &SunAngleResult) -> Ev {
    e.f("jd0", q.jd0).f("jd1", q.jd1).f("delta", q.delta_s).fs("p", &q.p).fs("utc", &[q.utc.0.0, q.utc.0.1]).f("dat", q.dat)
        .fs("tai", &[q.tai.0.0, q.tai.0.1]).fs("tt", &[q.tt.0.0, q.tt.0.1]).fs("ut1", &[q.ut1.0.0, q.ut1.0.1]).f("era", q.era)
        .fs("earth", &q.earth).fs("sun", &q.sun_e).f("sza", q.sza)
}
fn no_result(e: Ev) -> Ev {
    let n = f64::NAN;
    e.f("jd0", n).f("jd1", n).f("delta", n).fs("p", &[n;3]).fs("utc", &[n;2]).f("dat", n)
        .fs("tai", &[n;2]).fs("tt", &[n;2]).fs("ut1", &[n;2]).f("era", n)
        .fs("earth", &[n;3]).fs("sun", &[n;3]).f("sza", n)
}

/// Sessions with a calculator: created once, then asked for several offsets.
pub fn sun(r: &mut Rng, out: &mut Out, n: usize, per: usize) {
    for i in 0..n {
        let (y, m, d) = if i == 0 { (2007, 4, 5) } else { sun_date(r) };
        let (hh, mm, s) = if i == 0 { (12, 0, 0.0) } else { sun_time(r) };
        let (la, lo, h) = match i % 6 {
            0 => (r.pick(&[0.0, 90.0, -90.0, 45.0]), r.pick(&[0.0, -120.0, 180.0, -180.0]), 0.0),
            1 => (r.sym(90.0), r.range(-360.0, 360.0), height(r)),
            2 => { let (a, o) = (r.int(-18, 18) as f64*5.0, r.int(-36, 36) as f64*5.0); (a, if r.below(4) == 0 { a } else { o }, r.int(-4, 90) as f64*100.0) }
            _ => (r.sym(90.0), r.sym(180.0), r.range(-500.0, 9000.0)),
        };
        let ps = params(y, m, d, hh, mm, s, la, lo, h);
        out.put(ev("new").i("y", y).i("m", m).i("d", d).i("hh", hh).i("mm", mm).f("s", s).f("lat", la).f("lon", lo).f("height", h));
        let calc = call(|| SunAngleCalculator::new(&ps));
        let mut deltas: Vec<f64> = (0..per).map(|_| sun_delta(r)).collect();
        if per > 1 { deltas[per - 1] = deltas[0]; }
        for dl in deltas {
            let e = ev("compute").f("ask", dl);
            let res = match &calc { Ok(c) => call(|| c.compute(dl)), Err(p) => Err(p.clone()) };
            out.put(match res {
                Ok(q) => result_fields(e.s("res", "ok"), &q),
                Err(p) => no_result(e.s("res", "panic").s("msg", &p)),
            });
        }
    }
}

/// Latitude and longitude, in degrees, of the point a quarter turn away.
fn quarter_away(la: f64, lo: f64, azimuth: f64) -> (f64, f64) {
    let (sa, ca) = la.to_radians().sin_cos();
    let lat = (ca*azimuth.cos()).clamp(-1.0, 1.0).asin();
    let lon = lo.to_radians() + (azimuth.sin()*ca).atan2(-sa*lat.sin());
    (lat.to_degrees(), lon.to_degrees())
}

/// Geodetic latitude and longitude, in degrees, where the Sun is overhead: by
/// the textbook formula, made exact by the library's own answer if that is near.
fn under_sun(y: i64, m: i64, d: i64, hh: i64, mm: i64, s: f64, dl: f64) -> (f64, f64) {
    let jd = dates::day_number(y, m, d) + ((hh*3600 + mm*60) as f64 + s + dl)/86400.0 - dates::DJ00;
    let g = (357.529 + 0.98560028*jd).to_radians();
    let l = (280.459 + 0.98564736*jd + 1.915*g.sin() + 0.020*(2.0*g).sin()).to_radians();
    let e = (23.439 - 0.00000036*jd).to_radians();
    let dec = (e.sin()*l.sin()).asin().to_degrees();
    let ra = (e.cos()*l.sin()).atan2(l.cos()).to_degrees();
    let lon = (ra - 280.46061837 - 360.98564736629*jd + 180.0).rem_euclid(360.0) - 180.0;
    let near = call(|| SunAngleCalculator::new(&params(y, m, d, hh, mm, s, 0.0, 0.0, 0.0)).compute(dl).sun_e);
    if let Ok(p) = near {
        let (a, o) = (p[2].atan2(p[0].hypot(p[1])).to_degrees(), p[1].atan2(p[0]).to_degrees());
        if (a - dec).abs() < 3.0 && ((o - lon + 180.0).rem_euclid(360.0) - 180.0).abs() < 3.0 { return (a, o); }
    }
    (dec, lon)
}

/// Sessions made from the requests TLC enumerated: numbers are chosen for each
/// of them.
pub fn sun_requests(r: &mut Rng, out: &mut Out, n: usize, dump: &str) {
    let all = crate::replay::states(dump);
    let text = |v: &str| v.trim().trim_matches('"').to_string();
    let words = |v: &str| -> Vec<String> { v.trim().trim_start_matches("<<").trim_end_matches(">>").split(',').map(|x| text(x)).filter(|x| !x.is_empty()).collect() };
    let longest = all.iter().map(|s| words(&s["word"]).len()).max().unwrap_or(0);
    let mut reqs: Vec<(String, String, Vec<String>)> = all.iter().map(|s| (text(&s["start"]), text(&s["observer"]), words(&s["word"])))
        .filter(|q| q.2.len() == longest).collect();
    reqs.sort();
    for k in (1..reqs.len()).rev() { let j = r.below(k as u64 + 1) as usize; reqs.swap(k, j); }
    // every kind of word from every start, and as many observers as asked for
    let mut seen = std::collections::HashSet::new();
    let (first, rest): (Vec<_>, Vec<_>) = reqs.into_iter().partition(|q| seen.insert((q.0.clone(), q.2.clone())));
    const STEPS: [(i64, i64);41] = [(1961,8),(1962,1),(1963,11),(1964,1),(1964,4),(1964,9),(1965,1),(1965,3),(1965,7),(1965,9),(1966,1),(1968,2),
        (1972,1),(1972,7),(1973,1),(1974,1),(1975,1),(1976,1),(1977,1),(1978,1),(1979,1),(1980,1),(1981,7),(1982,7),(1983,7),(1985,7),(1988,1),
        (1990,1),(1991,1),(1992,7),(1993,7),(1994,7),(1996,1),(1997,7),(1999,1),(2006,1),(2009,1),(2012,7),(2015,7),(2017,1),(1960,1)];
    let mut done = 0;
    for (start, observer, word) in first.into_iter().chain(rest) {
        if done >= n { break; }
        done += 1;
        let any = |r: &mut Rng, lo: i64, hi: i64| { let y = r.int(lo, hi); let m = r.int(1, 12); (y, m, r.int(1, days_in(y, m))) };
        let clock = |r: &mut Rng| (r.int(0, 23), r.int(0, 59), if r.coin() { r.int(0, 59) as f64 } else { seconds(r) });
        let ((y, m, d), (hh, mm, s)) = match start.as_str() {
            "noon" => (any(r, 1972, 2100), (12, 0, 0.0)),
            "stepped" => { let (y, m) = r.pick(&STEPS); ((y, m, 1), (0, 0, r.pick(&[0.0, 0.0, 0.001, 0.999]))) }
            "closing" => { let (y, m) = r.pick(&STEPS); let (y, m) = if m == 1 { (y - 1, 12) } else { (y, m - 1) };
                ((y, m, days_in(y, m)), (23, 59, 59.0 + r.pick(&[0.0, 0.5, 0.999, 0.9999999999]))) }
            "drift" => (any(r, 1960, 1971), clock(r)),
            "before" => (match r.below(3) { 0 => (1959, 12, 31), 1 => any(r, 1900, 1959), _ => any(r, -2000, 1959) }, clock(r)),
            "far" => (any(r, 2051, 2400), clock(r)),
            "end" => (any(r, 1950, 2100), (24, 0, 0.0)),
            "february" => ((4*r.int(476, 524), 2, 29), clock(r)),
            x => panic!("start {}", x),
        };
        let (y, m, d) = if start == "february" && y == 1900 { (1904, m, d) } else { (y, m, d) };
        let sod = (hh*3600 + mm*60) as f64 + s;
        let mut before = 0.0;
        let mut asks = Vec::new();
        for kind in &word {
            let dl = match kind.as_str() {
                "zero" => 0.0, "same" => before, "back" => -before,
                "tiny" => r.logsym(-12.0, -3.1),
                "midnight" => 86400.0 - sod,
                "eve" => 86400.0 - sod - r.pick(&[0.001, 0.5, 0.999, 0.000001]),
                "yesterday" => -sod - r.pick(&[0.001, 0.5, 0.999, 0.000001]),
                "whole" => r.pick(&[1.0, -1.0])*86400.0*r.int(1, 9) as f64,
                "long" => r.pick(&[1.0, -1.0])*86400.0*r.range(9.1, 4000.0),
                x => panic!("offset {}", x),
            };
            before = dl;
            asks.push(dl);
        }
        let (la, lo, h) = match observer.as_str() {
            "plain" => (r.sym(88.9), r.sym(178.9), r.range(0.0, 9000.0)),
            "pole" => (r.pick(&[90.0, -90.0]), r.sym(180.0), r.range(0.0, 4000.0)),
            "meridian" => (r.sym(90.0), r.pick(&[0.0, 90.0, -90.0, 180.0, -180.0]), 0.0),
            "high" => (r.sym(90.0), r.sym(180.0), 10f64.powf(r.range(5.0, 8.5))),
            "low" => (r.sym(90.0), r.sym(180.0), -10f64.powf(r.range(0.0, 4.0))),
            // where the Sun stands in the zenith, in the nadir and on the horizon at the first offset
            x => {
                let (sa, so) = under_sun(y, m, d, hh, mm, s, asks[0]);
                let h = r.range(0.0, 9000.0);
                match x {
                    "under" => { let e = 10f64.powf(r.range(-14.0, -1.0)); (sa + r.sym(e), so + r.sym(e), h) }
                    "against" => { let e = 10f64.powf(r.range(-14.0, -1.0)); (-sa + r.sym(e), so + 180.0 + r.sym(e), h) }
                    "edge" => { let (a, o) = quarter_away(sa, so, angle(r)); (a, o, h) }
                    x => panic!("observer {}", x),
                }
            }
        };
        out.put(ev("new").s("start", &start).s("observer", &observer).i("y", y).i("m", m).i("d", d).i("hh", hh).i("mm", mm).f("s", s).f("lat", la).f("lon", lo).f("height", h));
        let calc = call(|| SunAngleCalculator::new(&params(y, m, d, hh, mm, s, la, lo, h)));
        for (kind, dl) in word.iter().zip(asks) {
            let e = ev("compute").s("kind", kind).f("ask", dl);
            let res = match &calc { Ok(c) => call(|| c.compute(dl)), Err(p) => Err(p.clone()) };
            out.put(match res {
                Ok(q) => result_fields(e.s("res", "ok"), &q),
                Err(p) => no_result(e.s("res", "panic").s("msg", &p)),
            });
        }
    }
}

/// Pairs of calculators that must agree.
pub fn sun_pairs(r: &mut Rng, out: &mut Out, n: usize) {
    let ask = |ps: &SunAngleParameters, dl: f64| call(|| SunAngleCalculator::new(ps).compute(dl));
    for _ in 0..n {
        let (y, m, d) = sun_date(r);
        let (hh, mm, s) = sun_time(r);
        let (la, lo, h) = (r.sym(90.0), r.sym(180.0), r.range(-500.0, 9000.0));
        let dl = sun_delta(r);
        let ps = params(y, m, d, hh, mm, s, la, lo, h);
        let ph = params(y, m, d, hh, mm, s, la, lo, r.range(-500.0, 90000.0));
        let pa = params(y, m, d, hh, mm, s, -la, if lo >= 0.0 { lo - 180.0 } else { lo + 180.0 }, h);
        let e = ev("pair");
        out.put(match (ask(&ps, dl), ask(&ph, dl), ask(&pa, dl)) {
            (Ok(a), Ok(b), Ok(c)) => e.s("res", "ok").f("sza", a.sza).f("sza_height", b.sza).f("sza_opposite", c.sza),
            _ => e.s("res", "panic").f("sza", f64::NAN).f("sza_height", f64::NAN).f("sza_opposite", f64::NAN),
        });
    }
}
pub fn sun_shifts(r: &mut Rng, out: &mut Out, n: usize) {
    for _ in 0..n {
        let y = if r.coin() { r.int(1972, 2060) } else { r.int(-500, 1958) };
        let m = r.int(1, 12);
        // stay inside one month: TAI-UTC constant
        let d1 = r.int(1, days_in(y, m));
        let d2 = r.int(1, days_in(y, m));
        let (h1, m1, h2, m2) = (r.int(0, 23), r.int(0, 59), r.int(0, 23), r.int(0, 59));
        let (s1, s2) = (r.int(0, 59) as f64, r.int(0, 59) as f64 + 0.5);
        let dl = ((d2 - d1)*86400 + (h2 - h1)*3600 + (m2 - m1)*60) as f64 + (s2 - s1);
        let (la, lo, h) = (r.sym(90.0), r.sym(180.0), r.range(-500.0, 9000.0));
        let a = params(y, m, d1, h1, m1, s1, la, lo, h);
        let b = params(y, m, d2, h2, m2, s2, la, lo, h);
        let e = ev("shifted");
        out.put(match (call(|| SunAngleCalculator::new(&a).compute(dl)), call(|| SunAngleCalculator::new(&b).compute(0.0))) {
            (Ok(u), Ok(v)) => e.s("res", "ok").fs("jd", &[u.jd0, u.jd1, v.jd0, v.jd1]).fs("dat", &[u.dat, v.dat])
                .fs("tt", &[u.tt.0.0, u.tt.0.1, v.tt.0.0, v.tt.0.1]).fs("ut1", &[u.ut1.0.0, u.ut1.0.1, v.ut1.0.0, v.ut1.0.1])
                .fs("sza", &[u.sza, v.sza]),
            _ => { let z = [f64::NAN;4]; e.s("res", "panic").fs("jd", &z).fs("dat", &[f64::NAN;2]).fs("tt", &z).fs("ut1", &z).fs("sza", &[f64::NAN;2]) }
        });
    }
}

// ---------------------------------------------------------------------------
// Tools

fn run(dir: &str, tool: &str, args: &[String]) -> (i64, Vec<String>) {
    match Command::new(format!("{}/{}", dir, tool)).args(args).env_clear().env("RUST_BACKTRACE", "0").env("TZ", "Asia/Kathmandu").env("LC_ALL", "de_DE.UTF-8").output() {
        Ok(o) => {
            let t = String::from_utf8_lossy(&o.stdout).into_owned();
            (o.status.code().map(|c| c as i64).unwrap_or(-1), t.lines().map(|x| x.to_string()).collect())
        }
        Err(e) => panic!("cannot run {}: {}", tool, e),
    }
}
fn num(v: f64) -> String { format!("{}", v) }

pub fn c25(r: &mut Rng, out: &mut Out, n: usize, dir: &str) {
    for i in 0..n {
        // gregorian
        let y = match i % 5 { 0 => r.int(-4810, -4790), 1 => r.int(-4799, 9999), _ => r.int(1900, 2100) };
        let m = if r.below(8) == 0 { r.int(-1, 14) } else { r.int(1, 12) };
        let d = if r.below(4) == 0 { r.int(-1, 33) } else { r.int(1, 28) };
        let (mut hh, mut mm, mut s) = (r.int(0, 23), r.int(0, 59), seconds(r));
        let mut a: Vec<String> = vec![if r.coin() { "gregorian".into() } else { "g".into() },
            "--year".into(), y.to_string(), "--month".into(), m.to_string(), "--day".into(), d.to_string()];
        if r.below(3) > 0 { a.push("--hour".into()); a.push(hh.to_string()); } else { hh = 12; }
        if r.below(3) > 0 { a.push("--minute".into()); a.push(mm.to_string()); } else { mm = 0; }
        if r.below(3) > 0 { a.push("--second".into()); a.push(num(s)); } else { s = 0.0; }
        let (st, lines) = run(dir, "julian_tool", &a);
        out.put(ev("tool_gregorian").i("y", y).i("m", m).i("d", d).i("hh", hh).i("mm", mm).f("s", s).i("status", st).ss("out", &lines).ss("args", &a));
        // julian
        let (j1, j2) = gen_cal::julian(r);
        let mut a: Vec<String> = vec![if r.coin() { "julian".into() } else { "j".into() }, "--jd".into(), num(j1)];
        let mut b = 0.0;
        if r.below(3) > 0 { a.push("--jd2".into()); a.push(num(j2)); b = j2; }
        let extra = r.below(8) == 0;
        if extra { a.push("rubbish".into()); }
        let (st, lines) = run(dir, "julian_tool", &a);
        out.put(ev("tool_julian").f("a", j1).f("b", b).b("extra", extra).i("status", st).ss("out", &lines).ss("args", &a));
        // unknown subcommand
        if i % 10 == 0 {
            let a: Vec<String> = match r.below(3) { 0 => vec!["frobnicate".into()], 1 => vec![], _ => vec!["x".into(), "--jd".into(), "2451545".into()] };
            let (st, lines) = run(dir, "julian_tool", &a);
            out.put(ev("tool_unknown").i("status", st).ss("out", &lines).ss("args", &a));
        }
    }
    for i in 0..n/2 + 1 {
        let (y, m, d) = sun_date(r);
        let bad = i % 9 == 8;
        let m = if bad { 13 } else { m };
        let (hh, mm, s) = sun_time(r);
        let (la, lo, h) = (r.sym(90.0), r.sym(180.0), r.range(-500.0, 9000.0));
        let scan = i % 3 == 0;
        let step = r.pick(&[60.0, 300.0, 100.0, 0.5, 7.25]);
        let d0 = if i % 4 == 0 { -600.0 } else { r.int(-2000, 2000) as f64 };
        let d1 = if i % 7 == 6 { d0 - 1.0 } else { d0 + step*r.int(0, 4) as f64 + r.pick(&[0.0, 0.3]) };
        // options left out take their default
        let left_out = |r: &mut Rng| i % 5 == 4 && r.below(3) == 0;
        let (mut y, mut m, mut d, mut hh, mut mm, mut s, mut la, mut lo, mut h, mut d0, mut d1, mut step) = (y, m, d, hh, mm, s, la, lo, h, d0, d1, step);
        let mut a: Vec<String> = Vec::new();
        let mut opt = |k: &str, v: String| { a.push(k.into()); a.push(v); };
        if left_out(r) { y = 2007 } else { opt("--year", y.to_string()) }
        if left_out(r) && !bad { m = 4 } else { opt("--month", m.to_string()) }
        if d > 28 && m == 4 || left_out(r) { d = 5 } else { opt("--day", d.to_string()) }
        if left_out(r) { hh = 0 } else { opt("--hour", hh.to_string()) }
        if left_out(r) { mm = 0 } else { opt("--min", mm.to_string()) }
        if left_out(r) { s = 0.0 } else { opt("--sec", num(s)) }
        if left_out(r) { la = 0.0 } else { opt("--lat", num(la)) }
        if left_out(r) { lo = -120.0 } else { opt("--lon", num(lo)) }
        if left_out(r) { h = 0.0 } else { opt("--height", num(h)) }
        if i % 10 == 4 { d0 = -600.0; d1 = 600.0; if r.coin() { step = 60.0 } else { if step < 60.0 { step = 240.0; } opt("--delta_step", num(step)) } }
        else { opt("--delta0", num(d0)); opt("--delta1", num(d1)); opt("--delta_step", num(step)); }
        if scan { a.push("--scan".into()); }
        let extra = i % 11 == 10;
        if extra { a.push("rubbish".into()); }
        let (st, lines) = run(dir, "sun_angle_tool", &a);
        // what the library computes for the offsets the specification expects
        let mut reports: Vec<String> = Vec::new();
        if !bad {
            let ps = params(y, m, d, hh, mm, s, la, lo, h);
            let c = call(|| SunAngleCalculator::new(&ps));
            if let Ok(c) = c {
                for k in 0..2500 {
                    let dl = d0 + step*k as f64;
                    if dl > d1 { break; }
                    if let Ok(q) = call(|| c.compute(dl)) {
                        let e = ev("report");
                        let mut o = Out::new();
                        o.put(result_fields(e, &q));
                        reports.push(o.lines.pop().unwrap());
                    }
                    if !scan { break; }
                }
            }
        }
        out.put(ev("tool_sun").i("y", y).i("m", m).i("d", d).i("hh", hh).i("mm", mm).f("s", s).f("lat", la).f("lon", lo).f("height", h)
            .f("d0", d0).f("d1", d1).f("step", step).b("scan", scan).b("extra", extra).i("status", st).ss("out", &lines)
            .raw("reports", &format!("[{}]", reports.join(","))).ss("args", &a));
    }
    // The report printed by the library itself
    for i in 0..n {
        let (y, m, d) = sun_date(r);
        let (hh, mm, s) = sun_time(r);
        let (la, lo, h) = if i % 5 == 0 { (r.sym(9.0), r.sym(9.0), r.sym(90.0)) } else { (r.sym(90.0), r.sym(180.0), height(r)) };
        let ps = params(y, m, d, hh, mm, s, la, lo, h);
        let dl = sun_delta(r);
        let res = call(|| { let q = SunAngleCalculator::new(&ps).compute(dl); let t = format!("{}", SunAngleResultBundle { parameters: &ps, result: &q }); (q, t) });
        let e = ev("bundle").i("y", y).i("m", m).i("d", d).i("hh", hh).i("mm", mm).f("s", s).f("lat", la).f("lon", lo).f("height", h);
        out.put(match res {
            Ok((q, t)) => { let l: Vec<String> = t.lines().map(|x| x.to_string()).collect(); result_fields(e.s("res", "ok"), &q).ss("out", &l) }
            Err(p) => no_result(e.s("res", "panic").s("msg", &p)).ss("out", &[]),
        });
    }
    let _ = (dates::DJ00, PI);
}
