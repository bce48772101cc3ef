//! Replay of TLC's state dumps on the real library.
use crate::ev::call;
use crate::gen_cal::cal_err;
use crate::pure;
use std::collections::BTreeMap;
use std::io::Write;
use tofas::calendar::*;
use tofas::common::*;
use tofas::delta_at::DeltaAt;
use tofas::ellipsoid::{Ellipsoid, EllipsoidConverter, Geodetic, Geodetic360};
use tofas::time::{TAI, TT, UT1, UTC};

/// States of a TLC dump, as variable -> text.
pub fn states(path: &str) -> Vec<BTreeMap<String, String>> {
    let text = std::fs::read_to_string(path).expect("dump");
    let mut v: Vec<BTreeMap<String, String>> = Vec::new();
    for line in text.lines() {
        if line.starts_with("State ") { v.push(BTreeMap::new()); continue; }
        let line = line.strip_prefix("/\\ ").unwrap_or(line);
        if let (Some(s), Some(k)) = (v.last_mut(), line.find(" = ")) {
            s.insert(line[..k].to_string(), line[k + 3..].to_string());
        }
    }
    v
}

struct Report { calls: u64, bad: Vec<String> }
impl Report {
    fn fail(&mut self, msg: String) { if self.bad.len() < 20 { self.bad.push(msg); } }
}

struct Month { y: i64, m: i64, n: i64, len: i64 }
fn months(path: &str) -> Vec<Month> {
    let mut v: Vec<(i64, i64, i64)> = states(path).iter().map(|s|
        (s["y"].parse().unwrap(), s["m"].parse().unwrap(), s["n"].parse().unwrap())).collect();
    v.sort_by_key(|x| x.2);
    // The length of a month is the distance to the next state.
    v.windows(2).map(|w| Month { y: w[0].0, m: w[0].1, n: w[0].2, len: w[1].2 - w[0].2 }).collect()
}

const CYCLE: i64 = 146097;     // established by MC_CalendarCycle (Periodic)

fn c01(ms: &[Month], deep: i64, rep: &mut Report) {
    let check = |y: i64, m: i64, d: i64, want: &str, rep: &mut Report| {
        rep.calls += 1;
        let got = call(|| GregorianDate::new(y as i32, m as i32, d as i32));
        let ok = match &got {
            Ok(Ok(g)) => want == "ok" && (g.year as i64, g.month as i64, g.day as i64) == (y, m, d),
            Ok(Err(e)) => want == cal_err(e),
            Err(_) => false,
        };
        if !ok { rep.fail(format!("new({},{},{}) = {:?}, the calendar says {}", y, m, d, got, want)); }
    };
    let shifts: Vec<i64> = (0..deep).map(|k| k*(5368700/deep.max(1))).collect();
    for x in ms {
        for (i, &k) in shifts.iter().enumerate() {
            let y = x.y + 400*k;
            if y > i32::MAX as i64 { break; }
            let early = y < YEAR_MIN as i64;
            if i == 0 {
                for d in -2..=34 { check(y, x.m, d, if early { "BadYear" } else if d >= 1 && d <= x.len { "ok" } else { "BadDay" }, rep); }
                if x.m == 1 { for m in [-1, 0, 13, 14, i32::MIN as i64, i32::MAX as i64] { check(y, m, 1, if early { "BadYear" } else { "BadMonth" }, rep); } }
                for d in [i32::MIN as i64, i32::MAX as i64] { check(y, x.m, d, if early { "BadYear" } else { "BadDay" }, rep); }
            } else {
                for d in [0, 1, x.len, x.len + 1] { check(y, x.m, d, if d >= 1 && d <= x.len { "ok" } else { "BadDay" }, rep); }
            }
        }
    }
}

fn c02(ms: &[Month], deep: i64, rep: &mut Report) {
    let check = |y: i64, m: i64, d: i64, n: i64, rep: &mut Report| {
        rep.calls += 1;
        let got = call(|| GregorianDate { year: y as i32, month: m as i32, day: d as i32 }.to_julian());
        if got != Ok((2400000.5, n as f64)) { rep.fail(format!("to_julian({},{},{}) = {:?}, the odometer shows {}", y, m, d, got, n)); }
    };
    let shifts: Vec<i64> = (0..deep).map(|k| k*(5368700/deep.max(1))).collect();
    for x in ms {
        if x.y < -4799 { continue; }
        for (i, &k) in shifts.iter().enumerate() {
            let y = x.y + 400*k;
            if y > i32::MAX as i64 { break; }
            if i == 0 { for d in 1..=x.len { check(y, x.m, d, x.n + d - 1, rep); } }
            else { for d in [1, x.len] { check(y, x.m, d, x.n + CYCLE*k + d - 1, rep); } }
        }
    }
}

fn c03(ms: &[Month], deep: i64, rep: &mut Report) {
    // Each day with fractions and splits whose parts and sum are exact: the
    // date must be the odometer's and the fraction right to 2^-40.
    let check = |a: f64, b: f64, y: i64, m: i64, d: i64, f: f64, rep: &mut Report| {
        rep.calls += 1;
        let got = call(|| GregorianDate::from_julian(a, b));
        let ok = match &got {
            Ok(Ok((g, v))) => (g.year as i64, g.month as i64, g.day as i64) == (y, m, d) && *v >= 0.0 && *v < 1.0 && (v - f).abs() <= 1e-12,
            _ => false,
        };
        if !ok { rep.fail(format!("from_julian({:?},{:?}) = {:?}, the odometer shows {:04}-{:02}-{:02} + {}", a, b, got, y, m, d, f)); }
    };
    let full = deep.max(1);
    for x in ms {
        let reach = (1e9 as i64 - 2400001 - x.n)/CYCLE;
        for s in 0..=full {
            let k = if s == 0 { 0 } else { reach*s/full };
            if s > 0 && k == 0 { continue; }
            let days: Vec<i64> = if s == 0 { (0..x.len).collect() } else { vec![0, x.len/2, x.len - 1] };
            for o in days {
                let n = x.n + CYCLE*k + o;
                let mid = 2400000.5 + n as f64;            // midnight
                if mid < -32000.0 || mid > 1e9 - 1.0 { continue; }
                let (y, m, d) = (x.y + 400*k, x.m, o + 1);
                let f = [0.0, 0.25, 0.5, 0.75, 0.00390625, 0.99609375][(n.rem_euclid(6)) as usize];
                check(mid + f, 0.0, y, m, d, f, rep);
                check(mid, f, y, m, d, f, rep);
                check(2400000.5, n as f64 + f, y, m, d, f, rep);
                check(n as f64, 2400000.5 + f, y, m, d, f, rep);
                check(f - 0.5, mid + 0.5, y, m, d, f, rep);
                check(mid + 1.0, f - 1.0, y, m, d, f, rep);
            }
        }
    }
}

fn c10(path: &str, rep: &mut Report) {
    // word: sequence of 1..6, axis (w-1)/2, sense of the quarter turn by parity
    for s in states(path) {
        let word: Vec<usize> = s["word"].trim_matches(|c| "<> ".contains(c)).split(',').filter_map(|x| x.trim().parse().ok()).collect();
        let m: Vec<f64> = s["mat"].split(|c: char| !(c.is_ascii_digit() || c == '-')).filter_map(|x| x.parse().ok()).collect();
        let q = std::f64::consts::FRAC_PI_2;
        let rot = |w: usize| Mat3::rotation((w - 1)/2, if w % 2 == 1 { q } else { -q });
        rep.calls += 1;
        let got = call(|| word.iter().fold(Mat3::identity(), |a, &w| a.compose(&rot(w))));
        let near = |a: f64, b: f64| (a - b).abs() <= 1e-14;
        if !matches!(&got, Ok(g) if (0..9).all(|i| near(g[i/3][i % 3], m[i]))) { rep.fail(format!("turns {:?} give {:?}, the group says {:?}", word, got, m)); }
        // turning a vector step by step lands where the product sends it
        for i in 0..3 {
            let mut e = [0.0;3]; e[i] = 1.0;
            rep.calls += 1;
            let got = call(|| word.iter().fold(e, |x, &w| rot(w).apply(x)));
            if !matches!(&got, Ok(g) if (0..3).all(|j| near(g[j], m[3*i + j]))) { rep.fail(format!("axis {} after turns {:?} is {:?}, the group says {:?}", i, word, got, &m[3*i..3*i + 3])); }
            rep.calls += 1;
            let got = call(|| word.iter().fold(Mat3::identity(), |a, &w| rot(w).transpose().compose(&a)).transpose().apply(e));
            if !matches!(&got, Ok(g) if (0..3).all(|j| near(g[j], m[3*i + j]))) { rep.fail(format!("transposed turns {:?} send axis {} to {:?}, the group says {:?}", word, i, got, &m[3*i..3*i + 3])); }
        }
    }
}

/// Histories of calls that are easily confused, against what each answers
/// alone in a process of its own.
fn c24(path: &str, deep: i64, seed: u64, rep: &mut Report) -> usize {
    let hist: Vec<Vec<usize>> = states(path).iter().map(|s|
        s["hist"].trim_matches(|c| "<> ".contains(c)).split(',').filter_map(|x| x.trim().parse().ok()).collect()).collect();
    let fams = pure::jobs(seed, 1);
    let mut r = crate::rng::Rng::new(seed ^ 0x415);
    let mut sets = Vec::new();
    let mut base = 0;
    for f in &fams {
        for _ in 0..deep {
            let mut t: Vec<usize> = (0..3).map(|_| r.below(f.len() as u64) as usize).collect();
            if f.len() >= 3 { while t[1] == t[0] { t[1] = r.below(f.len() as u64) as usize; } while t[2] == t[0] || t[2] == t[1] { t[2] = r.below(f.len() as u64) as usize; } }
            sets.push(t.iter().map(|&i| (base + i, f[i].clone())).collect::<Vec<_>>());
        }
        base += f.len();
    }
    let exe = std::env::current_exe().expect("exe");
    let parts: Vec<Report> = std::thread::scope(|s| {
        let hs: Vec<_> = sets.chunks(sets.len()/8 + 1).map(|c| { let (hist, exe) = (&hist, &exe); s.spawn(move || {
            let mut rep = Report { calls: 0, bad: Vec::new() };
            for set in c {
                let alone: Vec<String> = set.iter().map(|(i, _)| pure::alone(exe, seed, 1, *i)).collect();
                // The short histories each in a process of its own: nobody
                // has called before the first call.
                for h in hist.iter().filter(|h| h.len() == 2) {
                    let calls: Vec<(usize, bool)> = h.iter().map(|&w| (set[(w - 1) % 3].0, w > 3)).collect();
                    rep.calls += 2;
                    let d = pure::last(exe, seed, 1, &calls);
                    if d != alone[(h[1] - 1) % 3] {
                        let j: Vec<String> = h.iter().map(|&w| format!("{}{:?}{}", set[(w - 1) % 3].1.name, set[(w - 1) % 3].1.a, if w > 3 { " on the kept object" } else { "" })).collect();
                        rep.fail(format!("in a process that makes only the calls {:?} the last answers {}, alone it answers {}", j, d, alone[(h[1] - 1) % 3]));
                    }
                }
                for h in hist {
                    let mut pool = pure::Pool::default();
                    for (k, &w) in h.iter().enumerate() {
                        let x = (w - 1) % 3;
                        rep.calls += 1;
                        let d = pure::digest(&pure::run(&set[x].1, if w > 3 { Some(&mut pool) } else { None }));
                        if d != alone[x] {
                            let j: Vec<String> = h[..=k].iter().map(|&w| format!("{}{:?}{}", set[(w - 1) % 3].1.name, set[(w - 1) % 3].1.a, if w > 3 { " on the kept object" } else { "" })).collect();
                            rep.fail(format!("after the history {:?} the last call answers {}, alone it answers {}", j, d, alone[x]));
                            break;
                        }
                    }
                }
            }
            rep
        }) }).collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    for p in parts { rep.calls += p.calls; for b in p.bad { rep.fail(b); } }
    hist.len()
}

/// A double, in units of 2^-75.
fn units(v: f64) -> i128 {
    let b = v.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32 - 1075 + 75;
    let m = ((b & ((1 << 52) - 1)) | 1 << 52) as i128;
    let m = if v == 0.0 { 0 } else if e >= 0 { m << e } else if e > -100 { m >> -e } else { 0 };
    if v < 0.0 { -m } else { m }
}

/// The civil clock: what the library says has elapsed on the atomic clock.
fn c28(path: &str, deep: i64, rep: &mut Report) -> usize {
    let ss = states(path);
    let int = |s: &BTreeMap<String, String>, k: &str| s[k].parse::<i64>().expect("integer");
    for s in &ss {
        let (y, m, d, n, sod) = (int(s, "y"), int(s, "m"), int(s, "d"), int(s, "n"), int(s, "s"));
        let limbs: Vec<i128> = s["e"].split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
        let e = limbs[1..].iter().rev().fold(0i128, |a, l| (a << 15) + l);
        let top = if y >= 2018 { deep.max(1) } else { 0 };
        for k in 0..=top {
            let k = k*k*k;
            let (y, n, e) = (y + 400*k, n + CYCLE*k, e + (((86400*CYCLE*k) as i128) << 75));
            let date = || GregorianDate::new(y as i32, m as i32, d as i32).expect("date");
            // the end of the day is 24:00:00, and 23:59:60 when there is such a second
            let times = if sod < 86400 { vec![(sod/3600, sod % 3600/60, (sod % 60) as f64)] } else { vec![(24, 0, 0.0), (23, 59, 60.0)] };
            for (hh, mm, sec) in times { for way in 0..3 {
                rep.calls += 1;
                let got = call(|| {
                    let g = date();
                    let t = HMS::new(hh as u8, mm as u8, sec);
                    let f = t.to_fraction_of_day();
                    let dat = g.delta_at(f).expect("fraction").expect("after 1960");
                    let (a, b) = match way {
                        0 => { let (a, b) = g.to_julian(); (a + b, f) }
                        1 => { let (a, b) = g.to_julian(); (f, a + b) }
                        _ => GregorianDateHMS { date: g, hms: t }.to_julian(),
                    };
                    let tai = TAI::from_utc_delta_at(UTC((a, b)), dat);
                    let tt: TT = tai.into();
                    (tai.0, tt.0)
                });
                let since = |p: (f64, f64), offset: f64| 86400*(units(p.0) + units(p.1) - units(2400000.5 + 36934.0)) - units(offset);
                let tol = if way < 2 { 3e-10 } else { 86400.0*1.5*(n as f64)*f64::EPSILON + 3e-10 };
                let near = |v: i128| (v - e).abs() <= units(tol);
                let ok = match &got { Ok((tai, tt)) => near(since(*tai, 0.943482)) && near(since(*tt, 0.943482 + 32.184)), Err(_) => false };
                if !ok { rep.fail(format!("{:04}-{:02}-{:02} {:02}:{:02}:{} has TAI and TT {:?} (way {}), the clock counts {} s since 1960", y, m, d, hh, mm, sec, got, way, e as f64/(1u128 << 75) as f64)); }
            } }
        }
    }
    ss.len()
}

/// The clock through a day, second by second and between the seconds.
struct Hands { hh: i64, mm: i64, ss: i64, count: i64, text: String }
fn hands(path: &str) -> Vec<Hands> {
    states(path).iter().map(|s| { let k = |k: &str| s[k].parse::<i64>().expect("integer");
        Hands { hh: k("hour"), mm: k("minute"), ss: k("second"), count: k("count"), text: s["text"].trim_matches('"').to_string() } }).collect()
}
fn within(deep: i64) -> Vec<f64> {
    let mut v = vec![0.0, 0.5, 0.25, 0.999, 0.000001, 0.999999];
    for k in 0..deep { v.push(((k as f64 + 0.5)*0.6180339887498949).fract()); }
    v
}
fn c04(hs: &[Hands], deep: i64, rep: &mut Report) {
    for h in hs { for &u in &within(deep) {
        if h.hh == 24 && u > 0.0 { break; }
        rep.calls += 2;
        let f = (h.count as f64 + u)/86400.0;
        let got = call(|| HMS::from_fraction_of_day(f));
        let ok = match &got {
            Ok(Ok(t)) => {
                let away = (3600*t.hour as i64 + 60*t.minute as i64 - h.count) as f64 + (t.second - u);
                away.abs() <= 1.1e-10 && t.hour <= 24 && t.minute < 60 && t.second >= 0.0 && t.second < 60.0
                    && (u < 0.1 || u > 0.9999 || (t.hour as i64, t.minute as i64, t.second.trunc() as i64) == (h.hh, h.mm, h.ss))
            }
            _ => false,
        };
        if !ok { rep.fail(format!("from_fraction_of_day({:?}) = {:?}, the clock shows {} and {} s", f, got, h.text, u)); }
        let sec = h.ss as f64 + u;
        let got = call(|| HMS::new(h.hh as u8, h.mm as u8, sec).to_fraction_of_day());
        let want = units((3600*h.hh + 60*h.mm) as f64) + units(sec);
        let ok = match &got { Ok(f) => f.is_finite() && (86400*units(*f) - want).abs() <= want/1_000_000_000_000_000 + (1 << 20), _ => false };
        if !ok { rep.fail(format!("{:02}:{:02}:{} is the fraction {:?}, the clock has counted {} s", h.hh, h.mm, sec, got, h.count as f64 + u)); }
    } }
}
fn c05(hs: &[Hands], deep: i64, rep: &mut Report) {
    // days whose numbers are common knowledge
    let days = [(1858, 11, 17, 0), (2000, 1, 1, 51544), (1970, 1, 1, 40587), (2017, 1, 1, 57754), (1900, 3, 1, 15079), (-4713, 11, 24, -2400001)];
    for h in hs { for (i, &u) in within(deep).iter().enumerate() {
        if h.hh == 24 && u > 0.0 { break; }
        let (y, m, d, n) = days[(i + h.count as usize) % days.len()];
        let sec = h.ss as f64 + u;
        rep.calls += 1;
        let got = call(|| GregorianDateHMS { date: GregorianDate { year: y, month: m, day: d }, hms: HMS::new(h.hh as u8, h.mm as u8, sec) }.to_julian());
        let want = 86400*units(n as f64) + units((3600*h.hh + 60*h.mm) as f64) + units(sec);
        let tol = 86400*units((n as f64).abs()*f64::EPSILON + 3.0*f64::EPSILON);
        let ok = match &got { Ok((a, b)) => *a == 2400000.5 && b.is_finite() && (86400*units(*b) - want).abs() <= tol, _ => false };
        if !ok { rep.fail(format!("{}-{}-{} {:02}:{:02}:{} is the Julian date {:?}", y, m, d, h.hh, h.mm, sec, got)); }
        if h.hh == 24 { continue; }
        let f = (h.count as f64 + u)/86400.0;
        for way in 0..2 {
            rep.calls += 1;
            let mid = 2400000.5 + n as f64;
            let got = call(|| if way == 0 { GregorianDateHMS::from_julian(mid, f) } else { GregorianDateHMS::from_julian(f, mid) });
            let ok = match &got {
                Ok(Ok(g)) => {
                    let t = &g.hms;
                    let away = (3600*t.hour as i64 + 60*t.minute as i64 - h.count) as f64 + (t.second - u);
                    (g.date.year, g.date.month, g.date.day) == (y, m, d) && away.abs() <= 2e-10 && t.hour < 24 && t.minute < 60 && t.second >= 0.0 && t.second < 60.0
                }
                _ => false,
            };
            if !ok { rep.fail(format!("from_julian of {} + {:?} (way {}) = {:?}, the clock shows {}-{}-{} {} and {} s", mid, f, way, got, y, m, d, h.text, u)); }
        }
    } }
}
fn c06(hs: &[Hands], deep: i64, rep: &mut Report) {
    let mut want = Vec::new();
    for k in 0..4 + deep { let micros = [0, 500000, 123456, 999999].get(k as usize).cloned().unwrap_or(k*7919*97 % 1000000); want.push(micros); }
    for h in hs { for &micros in &want {
        // as written, and a little before and after
        for slip in [0.0, 3e-7, -3e-7] {
            if slip < 0.0 && micros == 0 && h.ss == 0 { continue; }
            let sec = (h.ss*1000000 + micros) as f64/1e6 + slip;
            let t = HMS::new(h.hh as u8, h.mm as u8, sec);
            let text = format!("{}.{:06}", h.text, micros);
            rep.calls += 2;
            let got = call(|| format!("{}", t));
            if got.as_deref() != Ok(&text) { rep.fail(format!("{:02}:{:02}:{:?} is printed {:?}, the clock shows {}", h.hh, h.mm, sec, got, text)); }
            let date = GregorianDate { year: 2024, month: 2, day: 29 };
            let got = call(|| format!("{}", GregorianDateHMS { date, hms: t }));
            if got != Ok(format!("2024-02-29 {}", text)) { rep.fail(format!("2024-02-29 {:02}:{:02}:{:?} is printed {:?}, the clock shows {}", h.hh, h.mm, sec, got, text)); }
        }
    } }
}

/// TAI-UTC by the civil clock: what has elapsed on the atomic clock beyond
/// the seconds of the civil days.
fn c07(path: &str, deep: i64, rep: &mut Report) -> usize {
    let ss = states(path);
    let int = |s: &BTreeMap<String, String>, k: &str| s[k].parse::<i64>().expect("integer");
    for s in &ss {
        let (y, m, d, n, sod) = (int(s, "y"), int(s, "m"), int(s, "d"), int(s, "n"), int(s, "s"));
        let limbs: Vec<i128> = s["e"].split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
        let e = limbs[1..].iter().rev().fold(0i128, |a, l| (a << 15) + l);
        let dat = e - units((86400*(n - 36934) + sod) as f64) + units(0.943482);
        let fd = sod as f64/86400.0;
        let ask = |y: i64, rep: &mut Report| { rep.calls += 1; call(|| GregorianDate { year: y as i32, month: m as i32, day: d as i32 }.delta_at(fd).map_err(|_| ())) };
        let got = ask(y, rep);
        if !matches!(&got, Ok(Ok(Some(v))) if v.is_finite() && (units(*v) - dat).abs() <= units(3e-12)) {
            rep.fail(format!("delta_at({}-{}-{},{}) = {:?}, the clocks are {} s apart", y, m, d, fd, got, dat as f64/(1u128 << 75) as f64));
        }
        for k in 1..=deep {
            // before atomic time, and with no leap second announced
            let early = y - 400*k*k*k;
            let got = ask(early, rep);
            if !matches!(&got, Ok(Ok(None))) { rep.fail(format!("delta_at({}-{}-{},{}) = {:?}, there was no UTC", early, m, d, fd, got)); }
            if y >= 2017 {
                let late = y + 400*k*k*k;
                let got = ask(late, rep);
                if !matches!(&got, Ok(Ok(Some(v))) if *v == 37.0) { rep.fail(format!("delta_at({}-{}-{},{}) = {:?}, the last announced is 37 s", late, m, d, fd, got)); }
            }
        }
    }
    ss.len()
}

/// Minutes of arc round the circle, three turns either way.
struct Needle { k: i64, lon: i64, lat: i64, angle: i64 }
fn needle(path: &str) -> Vec<Needle> {
    states(path).iter().map(|s| { let k = |k: &str| s[k].parse::<i64>().expect("integer");
        Needle { k: k("k"), lon: k("lon"), lat: k("lat"), angle: k("angle") } }).collect()
}
const TURN: f64 = 21600.0;      // minutes
/// The ways of writing the angle: as one product, and the neighbouring numbers
fn written(k: i64, ulps: i64) -> Vec<f64> {
    use std::f64::consts::TAU;
    let x = (k as f64/TURN)*TAU;
    (-ulps..=ulps).map(|u| crate::rng::nudge(x, u)).collect()
}
/// The distance round a circle
fn apart(a: f64, b: f64, turn: f64) -> f64 { let d = (a - b).rem_euclid(turn); d.min(turn - d) }

/// A reading carried from scale to scale
fn c08(path: &str, deep: i64, seed: u64, rep: &mut Report) -> usize {
    use tofas::time::TDB;
    let ss = states(path);
    let mut r = crate::rng::Rng::new(seed);
    for s in &ss {
        let int = |k: &str| s[k].parse::<i64>().expect("integer");
        let (dat, deltat, dtr) = (int("dat") as f64/1e6, int("deltat") as f64/1e6, int("dtr") as f64/1e6);
        let names: Vec<&str> = s["path"].split('"').skip(1).step_by(2).collect();
        if names.len() < 2 { continue; }
        let micro = |scale: &str| int("dat")*(scale != "UTC") as i64 + match scale {
            "UTC" | "TAI" => 0, "TT" => 32184000, "TDB" => 32184000 + int("dtr"), _ => 32184000 - int("deltat") };
        let by = int("ahead") - micro(names[0]);
        for _ in 0..deep {
            let (a, b) = match r.below(6) {
                0 => (2400000.5, r.int(15000, 90000) as f64 + r.int(0, 86399) as f64/86400.0),
                1 => (2451545.0, r.sym(40000.0)),
                2 => (r.int(2400000, 2500000) as f64 + 0.5, r.f()),
                3 => (r.int(-40000, 40000) as f64, 2451545.0),
                4 => (r.f() - 0.5, r.int(1000000, 5000000) as f64),
                _ => (r.f(), r.int(2400000, 2500000) as f64 + 0.5),
            };
            rep.calls += 1;
            let got = call(|| names.windows(2).fold((a, b), |p, w| match (w[0], w[1]) {
                ("UTC", _) => TAI::from_utc_delta_at(UTC(p), dat).0,
                ("TAI", _) => { let t: TT = TAI(p).into(); t.0 }
                ("TT", "UT1") => UT1::from_tt(TT(p), deltat).0,
                ("UT1", _) => TT::from_ut1(UT1(p), deltat).0,
                _ => TDB::from_tt(TT(p), dtr).0,
            }));
            // the greater part stays, the other is off by no more than a rounding each step
            let first = a > b;
            let ok = match &got {
                Ok((x, y)) => {
                    let (kept, was, part, old) = if first { (*x, a, *y, b) } else { (*y, b, *x, a) };
                    let want = units(old) + by as i128*(1i128 << 75)/86400000000;
                    kept == was && part.is_finite() && (units(part) - want).abs() <= units((names.len() as f64 - 1.0)*f64::EPSILON*(old.abs() + 0.01)) + 2
                }
                Err(_) => false,
            };
            if !ok { rep.fail(format!("({:e},{:e}) through {} with TAI-UTC {} TT-UT1 {} TDB-TT {} is {:?}, {} s on by the clocks", a, b, names.join(","), dat, deltat, dtr, got, by as f64/1e6)); }
        }
    }
    ss.len()
}

fn c09(path: &str, deep: i64, rep: &mut Report) -> usize {
    use std::f64::consts::TAU;
    let ss = needle(path);
    for s in &ss { for turns in 0..deep {
        let k = s.k + 129600*turns*turns;
        for a in written(k, 2) {
            rep.calls += 1;
            let got = call(|| anp(a));
            let tol = 1e-15*(a.abs() + 7.0);
            if !matches!(&got, Ok(v) if (0.0..TAU).contains(v) && apart(*v, s.angle as f64/TURN*TAU, TAU) <= tol) {
                rep.fail(format!("anp({:e}) = {:?}, {} minutes of arc are {} within the turn", a, got, k, s.angle));
            }
        }
    } }
    ss.len()
}

/// The Earth day by day, and between the days
fn c09s(path: &str, deep: i64, rep: &mut Report) -> usize {
    use std::f64::consts::TAU;
    let ss = states(path);
    for s in &ss {
        let n = s["n"].parse::<i64>().expect("integer") as f64;
        let limbs: Vec<i128> = s["e"].split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
        let e = limbs[1..].iter().rev().fold(0i128, |a, l| (a << 15) + l) as f64/(1u128 << 75) as f64;
        for q in 0..4*deep {
            // f of a day later, where f is a whole number of 4096ths
            let q = (q*4096/(4*deep) + if q > 0 { n as i64 & 15 } else { 0 }) as f64/4096.0;
            let turn = (e + q + 0.00273781191135448*q).fract();
            for (a, b) in [(2451545.0, n + q), (2451545.0 + n, q), (2451545.0 + n + q, 0.0), (2400000.5, 51544.5 + n + q), (2451544.5 + n, 0.5 + q), (2451545.5 + n, q - 0.5), (n - 48455.0, 2500000.0 + q)] {
                for (a, b) in [(a, b), (b, a)] {
                    rep.calls += 1;
                    let got = call(|| tofas::earth::rotation_angle(UT1((a, b))));
                    if !matches!(&got, Ok(v) if (0.0..TAU).contains(v) && apart(*v, turn*TAU, TAU) <= 1e-10) {
                        rep.fail(format!("rotation_angle({:e},{:e}) = {:?}, the Earth has made {} of a turn", a, b, got, turn));
                    }
                }
            }
        }
    }
    ss.len()
}

/// Vectors with whole components, at every scale
fn c11(path: &str, deep: i64, seed: u64, rep: &mut Report) -> usize {
    use std::f64::consts::PI;
    let ss = states(path);
    let mut r = crate::rng::Rng::new(seed);
    let vec = |t: &str| -> [i64; 3] { let v: Vec<i64> = t.split(|c: char| !(c.is_ascii_digit() || c == '-')).filter_map(|x| x.parse().ok()).collect(); [v[0], v[1], v[2]] };
    for s in &ss {
        let int = |k: &str| s[k].parse::<i64>().expect("integer");
        let (a, b, dot, na, nb) = (vec(&s["a"]), vec(&s["b"]), int("dot"), int("lena"), int("lenb"));
        for q in 0..deep {
            // powers of two: everything but lengths and angles is exact
            let (p, q) = if q == 0 { (0, 0) } else { let p = r.int(-300, 300) as i32; (p, if r.coin() { p } else { r.int(-300, 300) as i32 }) };
            let (x, y) = (a.map(|c| c as f64*2f64.powi(p)), b.map(|c| c as f64*2f64.powi(q)));
            let want = |f: &dyn Fn(usize) -> f64| [f(0), f(1), f(2)];
            rep.calls += 6;
            let got = call(|| (x.add(y), x.sub(y), x.neg(), y.scale(-3.0), x.dot(y), x.norm()));
            let ok = matches!(&got, Ok(g) if g.0 == want(&|i| x[i] + y[i]) && g.1 == want(&|i| x[i] - y[i]) && g.2 == want(&|i| -x[i]) && g.3 == want(&|i| -3.0*y[i])
                && g.4 == dot as f64*2f64.powi(p + q) && (g.5*2f64.powi(-p) - (na as f64).sqrt()).abs() <= 1e-15*(na as f64).sqrt());
            if !ok { rep.fail(format!("{:?} and {:?}: sum, difference, opposite, -3 times the second, product and length are {:?}", x, y, got)); }
            if na == 0 || nb == 0 { continue; }
            // any length
            let (f, g) = (r.logsym(-90.0, 90.0).abs(), r.logsym(-90.0, 90.0).abs());
            for (x, y) in [(x, y), (a.map(|c| c as f64*f), b.map(|c| c as f64*g)), (b.map(|c| c as f64*f), a.map(|c| c as f64*f))] {
                rep.calls += 3;
                let got = call(|| (x.angle(y), x.normalize(), y.scale(0.25).normalize()));
                let cosine = dot as f64/((na*nb) as f64).sqrt();
                let unit = |u: &[f64; 3], v: &[f64; 3]| { let k = v.iter().fold(0f64, |k, c| k.max(c.abs())); let v = v.map(|c| c/k); let n = v.iter().map(|c| c*c).sum::<f64>().sqrt(); n > 0.0 && (0..3).all(|i| (u[i] - v[i]/n).abs() <= 3e-15) };
                let ok = matches!(&got, Ok(w) if (0.0..=PI).contains(&w.0) && (w.0.cos() - cosine).abs() <= 4e-15 && unit(&w.1, &x) && unit(&w.2, &y));
                if !ok { rep.fail(format!("{:?} and {:?}: angle and directions are {:?}, the cosine is {}", x, y, got, cosine)); }
            }
        }
    }
    ss.len()
}

/// A fixed-point number of a dump
fn fixed(t: &str) -> f64 {
    let limbs: Vec<i128> = t.split(|c: char| !(c.is_ascii_digit() || c == '-')).filter_map(|x| x.parse().ok()).collect();
    limbs[0] as f64*(limbs[1..].iter().rev().fold(0i128, |a, l| (a << 15) + l) as f64/(1u128 << 75) as f64)
}
/// Travels over ellipsoids
struct Place { shape: usize, lat: i64, lon: i64, height: f64, p: [f64; 3] }
const WGS_RADIUS: f64 = 6378137.0;
const FLAT: [f64; 7] = [0.0, 1.0/298.257223563, 0.0, 1.0/256.0, 0.005, 1.0/16.0, 0.875];
const LEVELS: [f64; 8] = [0.0, -1024.0, 0.0, 1.0, 128.0, 8192.0, 524288.0, 9830400.0];
fn places(path: &str) -> Vec<Place> {
    states(path).iter().map(|s| { let int = |k: &str| s[k].parse::<i64>().expect("integer");
        Place { shape: int("shape") as usize, lat: int("lat"), lon: int("lon"), height: WGS_RADIUS/65536.0*LEVELS[int("level") as usize],
                p: [fixed(&s["x"]), fixed(&s["y"]), fixed(&s["z"])] } }).collect()
}
impl Place {
    /// The distances involved
    fn reach(&self) -> f64 {
        let (s, c) = (self.lat as f64).to_radians().sin_cos();
        WGS_RADIUS/c.hypot((1.0 - FLAT[self.shape])*s) + self.height.abs()
    }
}

fn c18(path: &str, deep: i64, rep: &mut Report) -> usize {
    use std::f64::consts::TAU;
    let ps = places(path);
    for q in &ps {
        let (phi, f) = (q.lat as f64/360.0*TAU, FLAT[q.shape]);
        for k in 0..deep {
            // the same shape at another size
            let size = 2f64.powi([0, -20, 20, 3, -200, 200, -1, 7][k as usize % 8] + (k/8) as i32);
            for elong in [q.lon as f64/360.0*TAU, (q.lon as f64/360.0 - 1.0)*TAU] {
                rep.calls += 1;
                let pos = Geodetic { elong, phi, height: q.height*size };
                let got = call(|| (EllipsoidConverter::new(&Ellipsoid { a: WGS_RADIUS*size, f }).map_err(|_| ()).and_then(|c| c.geodetic_to_geocentric(&pos).map_err(|_| ())), pos.zenith()));
                let zenith = [phi.cos()*elong.cos(), phi.cos()*elong.sin(), phi.sin()];
                let ok = match &got {
                    Ok((Ok(p), z)) => (0..3).all(|i| (p[i]/size - q.p[i]).abs() <= 1.1e-14*q.reach() && (z[i] - zenith[i]).abs() <= 1e-15),
                    _ => false,
                };
                if !ok { rep.fail(format!("longitude {} latitude {} height {} on a = {:e}, f = {} is {:?}, the traveller stands at {:?} times {:e}", q.lon, q.lat, q.height*size, WGS_RADIUS*size, f, got, q.p, size)); }
            }
        }
    }
    ps.len()
}

fn c19(path: &str, deep: i64, rep: &mut Report) -> usize {
    use std::f64::consts::{PI, TAU};
    let ps = places(path);
    for q in ps.iter().filter(|q| q.shape <= 4) {
        for k in 0..deep {
            let size = 1.0 + k as f64/4.0;
            let depth = if k == 0 { 1.0 } else { size };
            if q.height < 0.0 && q.height*depth < -99900.0 { continue; }
            rep.calls += 1;
            let p = q.p.map(|c| c*size);
            let got = call(|| EllipsoidConverter::new(&Ellipsoid { a: WGS_RADIUS*size, f: FLAT[q.shape] }).map_err(|_| ()).map(|c| c.geocentric_to_geodetic(&p)));
            let (el, ph, h) = ((q.lon as f64/360.0)*TAU, (q.lat as f64/360.0)*TAU, q.height*size);
            let far = (p[0]*p[0] + p[1]*p[1] + p[2]*p[2]).sqrt();
            let tol = 1e-3 + 1e-10*far;
            let reach = q.reach()*size;
            let ok = match &got {
                Ok(Ok(g)) => g.elong.abs() <= PI && g.phi.abs() <= PI/2.0 && (p[2] == 0.0 || g.phi == 0.0 || (g.phi > 0.0) == (p[2] > 0.0))
                    && apart(g.elong, el, TAU)*reach*ph.cos().abs() <= tol && (g.phi - ph).abs()*reach*0.98 <= tol && (g.height - h).abs() <= tol,
                _ => false,
            };
            if !ok { rep.fail(format!("{:?} on a = {:e}, f = {} is {:?}, the traveller is at longitude {} latitude {} height {}", p, WGS_RADIUS*size, FLAT[q.shape], got, q.lon, q.lat, h)); }
        }
    }
    ps.len()
}

fn c21(path: &str, deep: i64, rep: &mut Report) -> usize {
    use std::f64::consts::PI;
    let ss = needle(path);
    let heights = [0.0, 431.25, -12.5, 1e7];
    for s in &ss { for turns in 0..deep {
        let far = s.k + 129600*turns*turns;
        let h = heights[s.k.rem_euclid(4) as usize];
        let (lon, lat) = (s.lon as f64/60.0, s.lat as f64/60.0);
        for a in written(far, 1) {
            rep.calls += 1;
            let got = call(|| { let g: Geodetic360 = Geodetic { elong: a, phi: 0.25, height: h }.into(); g });
            let tol = 1e-13 + 2e-15*(a.abs()*60.0);
            if !matches!(&got, Ok(g) if g.lon >= -180.0 && g.lon < 180.0 && apart(g.lon, lon, 360.0) <= tol && g.height == h) {
                rep.fail(format!("the longitude {:e} is {:?}, that is {} minutes of arc, {} round the turn", a, got, far, s.lon));
            }
        }
        let pole = s.k.abs() == 5400 && turns == 0;
        for a in written(far, if pole { 0 } else { 1 }) {
            rep.calls += 1;
            let got = call(|| { let p = Geodetic { elong: -1.5, phi: a, height: h }; let g: Geodetic360 = (&p).into(); g });
            let tol = 1e-13 + 2e-15*(a.abs()*60.0);
            let kept = far.abs() <= 5400;
            if !matches!(&got, Ok(g) if g.lat.abs() <= 90.0 && g.height == h && (if kept { (g.lat - lat).abs() } else { apart(g.lat, lat, 180.0) }) <= tol) {
                rep.fail(format!("the latitude {:e} is {:?}, that is {} minutes of arc, {} of latitude", a, got, far, s.lat));
            }
        }
        rep.calls += 1;
        let d = far as f64/60.0;
        let got = call(|| { let p = Geodetic360 { lon: d, lat: -d, height: h }; let g: Geodetic = (&p).into(); let f: Geodetic = p.into(); (g.elong, g.phi, g.height, f.elong, f.phi, f.height) });
        let r = d*PI/180.0;
        let near = |x: f64, r: f64| (x - r).abs() <= 1e-15*r.abs();
        if !matches!(&got, Ok(g) if near(g.0, r) && near(g.1, -r) && g.2 == h && near(g.3, r) && near(g.4, -r) && g.5 == h) {
            rep.fail(format!("{} degrees are {:?} radians", d, got));
        }
    } }
    ss.len()
}

/// Command lines as the machine of Commands reads them: the tool refuses the
/// line, or prints what it prints for the options spelled out in full.
fn c25(path: &str, deep: i64, seed: u64, rep: &mut Report) -> usize {
    use std::io::BufRead;
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::Mutex;
    const SUN: [&str; 13] = ["--year", "--month", "--day", "--hour", "--min", "--sec", "--lat", "--lon", "--height", "--delta0", "--delta1", "--delta_step", "--scan"];
    const GREGORIAN: [&str; 6] = ["--year", "--month", "--day", "--hour", "--minute", "--second"];
    const JULIAN: [&str; 2] = ["--jd", "--jd2"];
    const RESULTS: [&str; 7] = ["Gregorian date:", "Time:", "Julian date:", "Fraction of day:", "Date:", "Will scan", "Sun Zenith"];
    struct Line { tool: String, plan: String, outcome: String, asked: Vec<String>, got: Vec<String> }
    let tokens = |v: &str| -> Vec<String> { v.trim().trim_start_matches("<<").trim_end_matches(">>").split(',').map(|x| x.trim().trim_matches('"').to_string()).filter(|x| !x.is_empty()).collect() };
    // the decided states of the dump; long values go on over several lines
    let mut lines: Vec<Line> = Vec::new();
    let mut state: BTreeMap<String, String> = BTreeMap::new();
    let mut key = String::new();
    let file = std::io::BufReader::new(std::fs::File::open(path).expect("dump"));
    for l in file.lines().map(|l| l.expect("dump")).chain(["State 0:".to_string()]) {
        if l.starts_with("State ") {
            if state.get("outcome").map_or(false, |o| o.len() > 2) {
                let word = |k: &str| state[k].trim_matches('"').to_string();
                lines.push(Line { tool: word("tool"), plan: word("plan"), outcome: word("outcome"), asked: tokens(&state["asked"]), got: tokens(&state["got"]) });
            }
            state.clear();
        } else if let Some((k, v)) = l.strip_prefix("/\\ ").and_then(|x| x.split_once(" = ")) {
            key = k.to_string();
            state.insert(key.clone(), v.trim().to_string());
        } else if let Some(v) = state.get_mut(&key) { v.push(' '); v.push_str(l.trim()); }
    }
    let total = lines.len();
    let stride = (4/deep.max(1)).max(1) as usize;
    let dir = std::env::current_exe().expect("driver").parent().expect("driver").to_path_buf();
    let run = |tool: &str, args: &[String]| {
        let o = std::process::Command::new(dir.join(tool)).args(args).env("RUST_BACKTRACE", "0").stdin(std::process::Stdio::null()).output().expect("tool");
        (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).into_owned())
    };
    let next = AtomicUsize::new(seed as usize % stride);
    let calls = AtomicUsize::new(0);
    let bad: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let known: Mutex<BTreeMap<Vec<String>, (i32, String)>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|sc| for _ in 0..8 { sc.spawn(|| loop {
        let i = next.fetch_add(stride, Ordering::Relaxed);
        if i >= total || bad.lock().unwrap().len() >= 20 { return; }
        let l = &lines[i];
        if l.outcome == "unasked" { continue; }
        calls.fetch_add(1, Ordering::Relaxed);
        let (status, text) = run(&l.tool, &l.asked);
        let problem = if l.outcome == "refuses" {
            if status == 0 { Some("is accepted".to_string()) }
            else if text.lines().any(|x| RESULTS.iter().any(|r| x.starts_with(r))) { Some(format!("is refused, but prints {:?}", text)) }
            else { None }
        } else {
            let names: &[&str] = match l.plan.as_str() { "sun" => &SUN, "gregorian" => &GREGORIAN, _ => &JULIAN };
            let mut full: Vec<String> = if l.plan == "sun" { vec![] } else { vec![l.plan.clone()] };
            for (k, v) in names.iter().zip(&l.got) {
                if *k == "--scan" { if v == "on" { full.push(k.to_string()); } } else { full.push(k.to_string()); full.push(v.clone()); }
            }
            let cached = known.lock().unwrap().get(&full).cloned();
            let want = cached.unwrap_or_else(|| {
                let w = run(&l.tool, &full);
                if w.1.len() < 10000 { known.lock().unwrap().insert(full.clone(), w.clone()); }
                w
            });
            if status != 0 { Some("is refused".to_string()) }
            else if text.trim().is_empty() && !(l.plan == "sun") { Some("prints nothing".to_string()) }
            else if (status, &text) != (want.0, &want.1) { Some(format!("does not print what {:?} does: {:?} against {:?}", full, text.chars().take(300).collect::<String>(), want.1.chars().take(300).collect::<String>())) }
            else { None }
        };
        if let Some(p) = problem { bad.lock().unwrap().push(format!("{} {:?} {}; it should be read as {:?}: {}", l.tool, l.asked, p, l.got, l.outcome)); }
    }); });
    rep.calls += calls.into_inner() as u64;
    for b in bad.into_inner().unwrap() { rep.fail(b); }
    total
}

pub fn main(id: &str, dump: &str, out: &str, deep: i64, seed: u64) {
    let mut rep = Report { calls: 0, bad: Vec::new() };
    let n;
    match id {
        "C01" => { let m = months(dump); n = m.len(); c01(&m, deep, &mut rep) }
        "C02" => { let m = months(dump); n = m.len(); c02(&m, deep, &mut rep) }
        "C03" => { let m = months(dump); n = m.len(); c03(&m, deep, &mut rep) }
        "C04" => { let h = hands(dump); n = h.len(); c04(&h, deep, &mut rep) }
        "C05" => { let h = hands(dump); n = h.len(); c05(&h, deep, &mut rep) }
        "C06" => { let h = hands(dump); n = h.len(); c06(&h, deep, &mut rep) }
        "C07" => { n = c07(dump, deep, &mut rep) }
        "C08" => { n = c08(dump, deep, seed, &mut rep) }
        "C09" => { n = c09(dump, deep, &mut rep) }
        "C09s" => { n = c09s(dump, deep, &mut rep) }
        "C11" => { n = c11(dump, deep, seed, &mut rep) }
        "C18" => { n = c18(dump, deep, &mut rep) }
        "C19" => { n = c19(dump, deep, &mut rep) }
        "C21" => { n = c21(dump, deep, &mut rep) }
        "C10" => { n = states(dump).len(); c10(dump, &mut rep) }
        "C24" => { n = c24(dump, deep, seed, &mut rep) }
        "C25" => { n = c25(dump, deep, seed, &mut rep) }
        "C28" => { n = c28(dump, deep, &mut rep) }
        x => panic!("no replay {}", x),
    }
    let mut w = std::fs::File::create(out).expect("create");
    writeln!(w, "{} {}", n, rep.calls).unwrap();
    for b in &rep.bad { writeln!(w, "{}", b).unwrap(); }
}
