//! History independence: the same call, after other histories, in other
//! orders, on reused objects, on other threads, in a fresh process.
use crate::dates;
use crate::ev::{call, ev, Out};
use crate::gen_cal;
use crate::gen_num::{angle, height, lat, xy};
use crate::rng::{nudge, Rng};
use std::collections::HashMap;
use std::process::Command;
use tofas::calendar::*;
use tofas::common::*;
use tofas::delta_at::DeltaAt;
use tofas::earth::{self, EarthPosVel};
use tofas::ellipsoid::*;
use tofas::frames::{self, PrecessionNutation};
use tofas::time::*;
use tofas::{fundargs, locator};
use tofas_extras::sun_angle::*;

/// A call: function name and numeric arguments.
#[derive(Clone, PartialEq)]
pub struct Job { pub name: &'static str, pub a: Vec<f64> }

const ERR: u64 = 0xE0E0_0000_0000_0000;

#[derive(Default)]
pub struct Pool {
    conv: HashMap<Vec<u64>, EllipsoidConverter>,
    sun: HashMap<Vec<u64>, SunAngleCalculator>,
}

fn b(v: f64) -> u64 { if v.is_nan() { 0x7ff8_0000_0000_0000 } else { v.to_bits() } }
fn bs(v: &[f64]) -> Vec<u64> { v.iter().map(|&x| b(x)).collect() }
fn bm(m: &Mat3) -> Vec<u64> { m.iter().flatten().map(|&x| b(x)).collect() }
fn date3(a: &[f64]) -> GregorianDate { GregorianDate { year: a[0] as i32, month: a[1] as i32, day: a[2] as i32 } }
fn text(s: String) -> Vec<u64> { s.bytes().map(|c| c as u64).collect() }
fn cal(r: Result<Vec<u64>, CalendarError>) -> Vec<u64> {
    match r { Ok(v) => v, Err(e) => { let mut v = vec![ERR]; v.extend(text(gen_cal::cal_err(&e).to_string())); v } }
}

fn sun_params(a: &[f64]) -> SunAngleParameters {
    let mut p = SunAngleParameters::default();
    p.date = date3(a);
    p.time = HMS::new(a[3] as u8, a[4] as u8, a[5]);
    p.position = Geodetic360 { lat: a[6], lon: a[7], height: a[8] };
    p
}
fn sun_bits(q: &SunAngleResult) -> Vec<u64> {
    let mut v = bs(&[q.jd0, q.jd1, q.delta_s, q.utc.0.0, q.utc.0.1, q.dat, q.tai.0.0, q.tai.0.1, q.tt.0.0, q.tt.0.1, q.ut1.0.0, q.ut1.0.1,
        q.era, q.sza]);
    v.extend(bs(&q.p)); v.extend(bs(&q.earth)); v.extend(bs(&q.sun_e));
    v
}

pub fn run(j: &Job, pool: Option<&mut Pool>) -> Vec<u64> {
    let a = &j.a;
    call(|| match j.name {
        "new" => cal(GregorianDate::new(a[0] as i32, a[1] as i32, a[2] as i32).map(|g| vec![g.year as u64, g.month as u64, g.day as u64])),
        "to_julian" => { let (x, y) = date3(a).to_julian(); bs(&[x, y]) }
        "from_julian" => cal(GregorianDate::from_julian(a[0], a[1]).map(|(g, f)| vec![g.year as u64, g.month as u64, g.day as u64, b(f)])),
        "from_fraction" => cal(HMS::from_fraction_of_day(a[0]).map(|t| vec![t.hour as u64, t.minute as u64, b(t.second)])),
        "to_fraction" => vec![b(HMS::new(a[0] as u8, a[1] as u8, a[2]).to_fraction_of_day())],
        "dt_from" => cal(GregorianDateHMS::from_julian(a[0], a[1]).map(|g|
            vec![g.date.year as u64, g.date.month as u64, g.date.day as u64, g.hms.hour as u64, g.hms.minute as u64, b(g.hms.second)])),
        "show" => text(format!("{}", GregorianDateHMS { date: date3(a), hms: HMS::new(a[3] as u8, a[4] as u8, a[5]) })),
        "show_pos" => text(format!("{}", Geodetic { elong: a[0], phi: a[1], height: a[2] })),
        "delta_at" | "delta_at_drift" => match date3(a).delta_at(a[3]) { Ok(Some(v)) => vec![b(v)], Ok(None) => vec![ERR + 1], Err(_) => vec![ERR + 2] },
        "utc_tai" => { let t = TAI::from_utc_delta_at(UTC((a[0], a[1])), a[2]); bs(&[t.0.0, t.0.1]) }
        "tai_tt" => { let t: TT = TAI((a[0], a[1])).into(); bs(&[t.0.0, t.0.1]) }
        "tt_tdb" => { let t = TDB::from_tt(TT((a[0], a[1])), a[2]); bs(&[t.0.0, t.0.1]) }
        "ut1_tt" => { let t = TT::from_ut1(UT1((a[0], a[1])), a[2]); bs(&[t.0.0, t.0.1]) }
        "tt_ut1" => { let t = UT1::from_tt(TT((a[0], a[1])), a[2]); bs(&[t.0.0, t.0.1]) }
        "anp" => vec![b(anp(a[0]))],
        "era" => vec![b(earth::rotation_angle(UT1((a[0], a[1]))))],
        "rotation" => bm(&Mat3::rotation(a[0] as usize, a[1])),
        "angle" => vec![b([a[0], a[1], a[2]].angle([a[3], a[4], a[5]]))],
        "nutation" => { let (p, q) = frames::nutation(TT((a[0], a[1]))); bs(&[p, q]) }
        "precession_rate" => { let (p, q) = frames::precession_rate(TT((a[0], a[1]))); bs(&[p, q]) }
        "obliquity" => vec![b(frames::mean_obliquity(TT((a[0], a[1]))))],
        "bias_prec" => { let (p, q, r) = frames::bias_and_precession(TT((a[0], a[1]))); let mut v = bm(&p); v.extend(bm(&q)); v.extend(bm(&r)); v }
        "numat" => bm(&frames::nutation_matrix(a[0], a[1], a[2])),
        "pn" => bm(&frames::precession_nutation(TT((a[0], a[1])))),
        "pn_with" => text(format!("{:?}", PrecessionNutation::from_tt_with_nutation(TT((a[0], a[1])), a[2], a[3]))),
        "fundargs" => { let t = a[0]; bs(&[fundargs::l03(t), fundargs::lp03(t), fundargs::f03(t), fundargs::d03(t), fundargs::om03(t),
            fundargs::ve03(t), fundargs::e03(t), fundargs::pa03(t)]) }
        "cio" => vec![b(locator::cio(TT((a[0], a[1])), a[2], a[3]))],
        "c2i" => bm(&frames::celestial_to_intermediate(TT((a[0], a[1])))),
        "c2ixy" => bm(&frames::celestial_to_intermediate_with_bpn_and_xy(TT((a[0], a[1])), a[2], a[3])),
        "c2ixys" => bm(&frames::celestial_to_intermediate_from_xys(a[0], a[1], a[2])),
        "pom" => bm(&earth::polar_motion_matrix(a[0], a[1], a[2])),
        "c2t" => bm(&frames::celestial_to_terrestrial(TT((a[0], a[1])), UT1((a[2], a[3])), a[4], a[5])),
        "epv" => { let e: EarthPosVel = TDB((a[0], a[1])).into();
            let mut v = bs(&e.heliocentric.p); v.extend(bs(&e.heliocentric.v)); v.extend(bs(&e.barycentric.p)); v.extend(bs(&e.barycentric.v));
            v.push(e.warning.is_some() as u64); v }
        "to360" => { let g: Geodetic360 = Geodetic { elong: a[0], phi: a[1], height: a[2] }.into(); bs(&[g.lon, g.lat, g.height]) }
        "torad" => { let g: Geodetic = Geodetic360 { lon: a[0], lat: a[1], height: a[2] }.into(); bs(&[g.elong, g.phi, g.height]) }
        "zenith" => bs(&Geodetic { elong: a[0], phi: a[1], height: a[2] }.zenith()),
        "forward" | "inverse" => {
            let fresh;
            let mut pool = pool;
            let c: &EllipsoidConverter = match pool.as_mut() {
                Some(p) => {
                    let k = bs(&a[..2]);
                    if !p.conv.contains_key(&k) {
                        match EllipsoidConverter::new(&Ellipsoid { a: a[0], f: a[1] }) { Ok(c) => { p.conv.insert(k.clone(), c); } Err(_) => return vec![ERR] }
                    }
                    &p.conv[&k]
                }
                None => match EllipsoidConverter::new(&Ellipsoid { a: a[0], f: a[1] }) { Ok(c) => { fresh = c; &fresh } Err(_) => return vec![ERR] },
            };
            if j.name == "forward" {
                match c.geodetic_to_geocentric(&Geodetic { elong: a[2], phi: a[3], height: a[4] }) { Ok(v) => bs(&v), Err(_) => vec![ERR] }
            } else {
                let g = c.geocentric_to_geodetic(&[a[2], a[3], a[4]]);
                bs(&[g.elong, g.phi, g.height])
            }
        }
        "sun" => {
            let mut pool = pool;
            match pool.as_mut() {
                Some(p) => {
                    let c = p.sun.entry(bs(&a[..9])).or_insert_with(|| SunAngleCalculator::new(&sun_params(a)));
                    sun_bits(&c.compute(a[9]))
                }
                None => sun_bits(&SunAngleCalculator::new(&sun_params(a)).compute(a[9])),
            }
        }
        "sun_text" => {
            let ps = sun_params(a);
            let q = SunAngleCalculator::new(&ps).compute(a[9]);
            text(format!("{}", SunAngleResultBundle { parameters: &ps, result: &q }))
        }
        x => panic!("unknown job {}", x),
    }).unwrap_or_else(|p| { let mut v = vec![ERR + 9]; v.extend(text(p)); v })
}

/// What a call answers in a process of its own.
pub fn alone(exe: &std::path::Path, seed: u64, n: usize, i: usize) -> String { last(exe, seed, n, &[(i, false)]) }

/// What the last of these calls (and whether each is made on a kept object)
/// answers in a process that makes no others.
pub fn last(exe: &std::path::Path, seed: u64, n: usize, calls: &[(usize, bool)]) -> String {
    let mut c = Command::new(exe);
    c.args(["cold", &seed.to_string(), &n.to_string()]);
    for (i, kept) in calls { c.arg(format!("{}{}", if *kept { "+" } else { "" }, i)); }
    // nothing of this process's surroundings is there: other settings, another
    // place and time zone
    c.env_clear().env("TZ", "Asia/Kathmandu").env("LC_ALL", "de_DE.UTF-8").env("LANG", "ar_EG.UTF-8").env("HOME", "/nonexistent").env("RUST_BACKTRACE", "0").current_dir("/");
    let o = c.output().expect("cold process");
    let t = String::from_utf8_lossy(&o.stdout).trim().to_string();
    if o.status.success() && !t.is_empty() { t } else { format!("process ended: {}", o.status) }
}

pub fn digest(v: &[u64]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in v { for i in 0..8 { h ^= (x >> (8*i)) & 255; h = h.wrapping_mul(0x100000001b3); } }
    format!("{:016x}.{}", h, v.len())
}

/// Variations of one call that are easily confused with it: one argument
/// changed, slightly or entirely, arguments exchanged, signs changed, the
/// same sum split otherwise.
fn family(r: &mut Rng, j: &Job, real: &[usize], jobs: &mut Vec<Job>) {
    let put = |jobs: &mut Vec<Job>, a: Vec<f64>| { let k = Job { name: j.name, a }; if !jobs.contains(&k) { jobs.push(k) } };
    put(jobs, j.a.clone());
    for &i in real {
        let mut a = j.a.clone(); a[i] = nudge(a[i], 1 + r.below(3) as i64); put(jobs, a);
        let mut a = j.a.clone(); a[i] += r.sym(1e-3); put(jobs, a);
        let mut a = j.a.clone(); a[i] = a[i]*(1.0 + 0.001*r.f()) + 1e-9; put(jobs, a);
        if r.coin() { let mut a = j.a.clone(); a[i] = -a[i]; put(jobs, a); }
    }
    if real.len() >= 2 {
        let (p, q) = (real[0], real[1]);
        let mut a = j.a.clone(); a.swap(p, q); put(jobs, a);
        let h = r.int(1, 50) as f64;
        let mut a = j.a.clone(); a[p] += h; a[q] -= h; put(jobs, a);
        let mut a = j.a.clone(); a[p] += 0.5; put(jobs, a);
    }
}

/// The calls of a run, from its seed.
pub fn jobs(seed: u64, n: usize) -> Vec<Vec<Job>> {
    let mut r = Rng::new(seed ^ 0xC24);
    let r = &mut r;
    let mut all: Vec<Vec<Job>> = Vec::new();
    for _ in 0..n {
        let all = &mut all;
        macro_rules! fam { ($r:expr, $name:expr, $a:expr, $real:expr) => {{
            let mut v = Vec::new();
            family($r, &Job { name: $name, a: $a }, $real, &mut v);
            all.push(v);
        }} }
        // far dates, on either side
        for sign in [-1.0, 1.0] {
            let (a, q) = if r.coin() { (dates::DJ00, sign*r.logsym(4.7, 6.7).abs()) } else { (dates::DJ00 + sign*r.range(5e4, 5e6).round(), r.f()) };
            for name in ["nutation", "precession_rate", "obliquity", "bias_prec", "pn", "c2i", "epv"] { fam!(r, name, vec![a, q], &[0, 1]); }
        }
        let (a, q) = dates::date(r, 50000.0);
        for name in ["nutation", "precession_rate", "obliquity", "bias_prec", "pn", "c2i", "epv", "era", "tai_tt"] { fam!(r, name, vec![a, q], &[0, 1]); }
        let (a, q) = dates::date(r, 50000.0);
        for name in ["utc_tai", "tt_tdb", "ut1_tt", "tt_ut1"] { let d = r.sym(100.0); fam!(r, name, vec![a, q, d], &[0, 1, 2]); }
        let (x, y) = xy(r);
        fam!(r, "cio", vec![a, q, x, y], &[0, 1, 2, 3]);
        fam!(r, "c2ixy", vec![a, q, x, y], &[0, 1, 2, 3]);
        let s = r.sym(1e-5);
        fam!(r, "c2ixys", vec![x, y, s], &[0, 1, 2]);
        let v: Vec<f64> = (0..6).map(|_| angle(r)).collect();
        fam!(r, "pom", vec![v[0], v[1], v[2]], &[0, 1, 2]);
        fam!(r, "numat", vec![v[0], v[1], v[2]], &[0, 1, 2]);
        let (u1, u2) = dates::date(r, 50000.0);
        fam!(r, "c2t", vec![a, q, u1, u2, v[3]*1e-6, v[4]*1e-6], &[0, 1, 2, 3, 4, 5]);
        fam!(r, "pn_with", vec![a, q, v[0]*1e-5, v[1]*1e-5], &[0, 1, 2, 3]);
        fam!(r, "fundargs", vec![v[5]], &[0]);
        fam!(r, "anp", vec![v[4]*10.0], &[0]);
        let axis = r.below(3) as f64;
        fam!(r, "rotation", vec![axis, v[1]], &[1]);
        fam!(r, "angle", v.clone(), &[0, 1, 2, 3, 4, 5]);
        let (p1, p2) = gen_cal::julian(r);
        fam!(r, "from_julian", vec![p1, p2], &[0, 1]);
        fam!(r, "dt_from", vec![p1, p2], &[0, 1]);
        let f = gen_cal::fraction(r);
        fam!(r, "from_fraction", vec![f], &[0]);
        let (y, m, d) = (r.int(1955, 2030) as f64, r.int(1, 12) as f64, r.int(1, 28) as f64);
        let (hh, mm, ss) = (r.int(0, 23) as f64, r.int(0, 59) as f64, gen_cal::seconds(r));
        for (dy, dm, dd) in [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (-4.0, 0.0, 0.0), (28.0, 0.0, 0.0)] {
            let m2 = if m + dm > 12.0 { 1.0 } else { m + dm };
            let dt = [y + dy, m2, d + dd];
            fam!(r, "new", dt.to_vec(), &[]);
            fam!(r, "to_julian", dt.to_vec(), &[]);
            fam!(r, "delta_at", vec![dt[0], dt[1], dt[2], f], &[3]);
            fam!(r, "show", vec![dt[0], dt[1], dt[2], hh, mm, ss], &[5]);
        }
        // the years in which the difference drifts, as a function of its own
        let (dy, df) = (r.int(1960, 1971) as f64, 0.05 + 0.9*r.f());
        fam!(r, "delta_at_drift", vec![dy, m, d, df], &[3]);
        fam!(r, "to_fraction", vec![hh, mm, ss], &[2]);
        let (el, ph, h) = (angle(r), lat(r), height(r));
        fam!(r, "to360", vec![el, ph, h], &[0, 1, 2]);
        fam!(r, "show_pos", vec![el, ph, h], &[0, 1, 2]);
        fam!(r, "zenith", vec![el, ph, h], &[0, 1, 2]);
        fam!(r, "torad", vec![el*57.3, ph*57.3, h], &[0, 1, 2]);
        let (ea, ef) = if r.coin() { (6378137.0, 1.0/298.257223563) } else { (r.range(1e6, 1e7), r.f()*0.005) };
        let mut v = Vec::new();
        family(r, &Job { name: "forward", a: vec![ea, ef, el, ph, h] }, &[2, 3, 4, 0, 1], &mut v);
        let p = [r.sym(2e7), r.sym(2e7), r.sym(2e7)];
        family(r, &Job { name: "inverse", a: vec![ea, ef, p[0], p[1], p[2]] }, &[2, 3, 4, 0, 1], &mut v);
        all.push(v);
        let mut v = Vec::new();
        let sp = vec![y, m, d, hh, mm, ss, r.sym(90.0), r.sym(180.0), r.range(0.0, 9000.0), r.sym(5000.0)];
        family(r, &Job { name: "sun", a: sp.clone() }, &[9, 5, 6, 7, 8], &mut v);
        let mut s2 = sp.clone(); s2[2] += if s2[2] > 20.0 { -3.0 } else { 3.0 };
        family(r, &Job { name: "sun", a: s2 }, &[9], &mut v);
        for k in 0..6 { let mut s = sp.clone(); s[9] += 60.0*k as f64; v.push(Job { name: "sun", a: s.clone() }); s[9] = -s[9]; v.push(Job { name: "sun", a: s }); }
        let mut t: Vec<Job> = v.iter().take(6).cloned().map(|mut j| { j.name = "sun_text"; j }).collect();
        v.append(&mut t);
        let mut u: Vec<Job> = Vec::new();
        for j in v { if !u.contains(&j) { u.push(j) } }
        all.push(u);
    }
    all
}

extern "C" {
    fn sched_getcpu() -> i32;
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
}

/// From here on this process may use the processor it is on, and no other.
fn one_processor() {
    let mut mask = [0u64; 16];
    unsafe {
        let k = sched_getcpu().max(0) as usize % 1024;
        mask[k/64] = 1 << (k % 64);
        sched_setaffinity(0, std::mem::size_of_val(&mask), mask.as_ptr());
    }
}

/// A few calls, all that this process makes.
pub fn cold(seed: u64, n: usize, calls: &[String]) {
    let all: Vec<Job> = jobs(seed, n).into_iter().flatten().collect();
    one_processor();
    let mut pool = Pool::default();
    let mut v = Vec::new();
    for c in calls {
        let j = &all[c.trim_start_matches('+').parse::<usize>().unwrap()];
        v = run(j, if c.starts_with('+') { Some(&mut pool) } else { None });
    }
    println!("{}", digest(&v));
}

/// The distinct answers of each thread.
fn put_distinct(log: &mut Vec<(usize, usize, &'static str, String)>, seq: &mut usize, phase: &'static str, logs: Vec<Vec<(usize, Vec<u64>)>>) {
    for l in logs { for (i, v) in l { log.push((i, *seq, phase, digest(&v))); *seq += 1; } }
}

pub fn c24(seed: u64, n: usize, len: usize, out: &mut Out) {
    let wear = 35000*n;         // beyond 2^16 in the smallest run
    let fams = jobs(seed, n);
    let mut base = Vec::new();
    let mut k = 0;
    for f in &fams { base.push(k); k += f.len(); }
    let flat: Vec<Job> = fams.iter().flatten().cloned().collect();
    // (key, sequence number, phase, digest)
    let mut log: Vec<(usize, usize, &'static str, String)> = Vec::new();
    let mut seq = 0;

    // Every call at once, early in the life of this process
    let born = std::time::Instant::now();
    for (i, j) in flat.iter().enumerate() { log.push((i, seq, "early", digest(&run(j, None)))); seq += 1; }

    // Each call alone, in a fresh process
    let exe = std::env::current_exe().expect("exe");
    let idx: Vec<usize> = (0..flat.len()).collect();
    let colds: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = idx.chunks(flat.len()/8 + 1).map(|c| { let exe = exe.clone(); s.spawn(move || {
            c.iter().map(|&i| {
                (i, alone(&exe, seed, n, i))
            }).collect::<Vec<_>>()
        }) }).collect();
        hs.into_iter().map(|h| h.join().expect("cold thread")).collect()
    });
    for c in colds { for (i, d) in c { log.push((i, seq, "alone", d)); seq += 1; } }

    // One after another, in several orders, on fresh and on reused objects
    let mut r = Rng::new(seed ^ 0x5EC);
    let mut pool = Pool::default();
    let mut go = |i: usize, reuse: bool, log: &mut Vec<(usize, usize, &'static str, String)>, seq: &mut usize| {
        let d = digest(&run(&flat[i], if reuse { Some(&mut pool) } else { None }));
        log.push((i, *seq, if reuse { "reused" } else { "sequence" }, d));
        *seq += 1;
    };
    for (f, fam) in fams.iter().enumerate() {
        // neighbours back to back: A B A, on reused objects too
        let m = fam.len();
        for i in 0..m {
            let j = (i + 1 + r.below(m as u64) as usize) % m;
            for x in [i, j, i] { go(base[f] + x, false, &mut log, &mut seq); }
            if matches!(fam[i].name, "forward" | "inverse" | "sun") {
                for x in [i, j, i, i] { go(base[f] + x, true, &mut log, &mut seq); }
            }
        }
    }
    for i in (0..flat.len()).rev() { go(i, i % 2 == 0, &mut log, &mut seq); }
    for _ in 0..len {
        let i = r.below(flat.len() as u64) as usize;
        let reuse = r.coin();
        go(i, reuse, &mut log, &mut seq);
        if r.below(4) == 0 {
            let f = fams.len() - 1 - base.iter().rev().position(|&x| x <= i).unwrap();
            let j = base[f] + r.below(fams[f].len() as u64) as usize;
            go(j, reuse, &mut log, &mut seq);
            go(i, reuse, &mut log, &mut seq);
        }
    }
    // The same call very many times
    for _ in 0..40 {
        let i = r.below(flat.len() as u64) as usize;
        let first = digest(&run(&flat[i], None));
        for _ in 0..500 {
            let d = digest(&run(&flat[i], None));
            if d != first { log.push((i, seq, "repeated", d)); seq += 1; break; }
        }
        log.push((i, seq, "repeated", first)); seq += 1;
    }
    // Many threads at once
    for round in 0..3u64 {
        let logs: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..16u64).map(|t| { let flat = &flat; let fams = &fams; let base = &base; s.spawn(move || {
                let mut r = Rng::new(seed ^ (round << 8) ^ t ^ 0x7EAD);
                let mut pool = Pool::default();
                let mut v = Vec::new();
                // threads of a round share a few families, so that they collide
                let mut shared = Rng::new(seed ^ (round << 8) ^ 0xFA);
                let hot: Vec<usize> = (0..6).map(|_| shared.below(fams.len() as u64) as usize).collect();
                for q in 0..len/8 {
                    let f = if q % 2 == 0 { r.pick(&hot) } else { r.below(fams.len() as u64) as usize };
                    let i = base[f] + r.below(fams[f].len() as u64) as usize;
                    let reuse = r.coin();
                    v.push((i, digest(&run(&flat[i], if reuse { Some(&mut pool) } else { None }))));
                }
                v
            }) }).collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        for l in logs { for (i, d) in l { log.push((i, seq, "threads", d)); seq += 1; } }
    }
    // Every function very many times, a few calls of it interleaved, on a
    // kept object where there is one; different functions side by side.
    let mut names: Vec<(&'static str, Vec<usize>)> = Vec::new();
    for (i, j) in flat.iter().enumerate() {
        match names.iter_mut().find(|x| x.0 == j.name) { Some(x) => x.1.push(i), None => names.push((j.name, vec![i])) }
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let worn: Vec<Vec<(usize, &'static str, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|_| { let (names, flat, next) = (&names, &flat, &next); s.spawn(move || {
            let mut v = Vec::new();
            loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let (name, is) = match names.get(k) { Some(x) => x, None => break };
                let kept = matches!(*name, "forward" | "inverse" | "sun");
                let mut pool = Pool::default();
                let few: Vec<usize> = (0..3).map(|q| (q*is.len()/3 + seed as usize) % is.len()).collect();
                let mut first: Vec<Option<Vec<u64>>> = vec![None; is.len()];
                let mut bad = 0;
                // cheap functions, all their calls in turn, beyond 2^20 times
                let from = std::time::Instant::now();
                for q in 0..16*wear {
                    if q >= wear && q % 1024 == 0 && from.elapsed().as_millis() > 700 { break; }
                    let w = if q >= wear { q % is.len() } else { few[if q % 7 == 3 { 1 } else if q % 5 == 4 { 2 } else { 0 }] };
                    let i = is[w];
                    let got = run(&flat[i], if kept && q % 16 != 15 { Some(&mut pool) } else { None });
                    match &first[w] {
                        None => { v.push((i, "worn", digest(&got))); first[w] = Some(got); }
                        Some(f) => if *f != got && bad < 4 { bad += 1; v.push((i, "worn", digest(&got))); }
                    }
                }
            }
            v
        }) }).collect();
        hs.into_iter().map(|h| h.join().expect("worn thread")).collect()
    });
    for l in worn { for (i, p, d) in l { log.push((i, seq, p, d)); seq += 1; } }
    // Every function on all threads at once, on the calls of one family
    for (_, is) in &names {
        let is: Vec<usize> = is.iter().take(12).cloned().collect();
        let go = std::sync::Barrier::new(8);
        let logs: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8usize).map(|t| { let (flat, is, go) = (&flat, &is, &go); s.spawn(move || {
                let mut first: HashMap<usize, Vec<u64>> = HashMap::new();
                let mut v = Vec::new();
                let mut bad = 0;
                go.wait();
                for q in 0..wear/32 {
                    let i = is[(q*(2*t + 1) + t) % is.len()];
                    let got = run(&flat[i], None);
                    match first.get(&i) {
                        None => { v.push((i, digest(&got))); first.insert(i, got); }
                        Some(f) => if *f != got && bad < 4 { bad += 1; v.push((i, digest(&got))); }
                    }
                }
                v
            }) }).collect();
            hs.into_iter().map(|h| h.join().expect("storm thread")).collect()
        });
        for l in logs { for (i, d) in l { log.push((i, seq, "storm", d)); seq += 1; } }
    }
    // Every function by a crowd, many more threads than there are processors,
    // for long enough that threads are suspended in the middle of a call
    for (_, is) in &names {
        let is: Vec<usize> = is.iter().take(5).cloned().collect();
        let go = std::sync::Barrier::new(64);
        let logs: Vec<Vec<(usize, Vec<u64>)>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..64usize).map(|t| { let (flat, is, go) = (&flat, &is, &go); s.spawn(move || {
                let mut first: HashMap<usize, Vec<u64>> = HashMap::new();
                let mut v = Vec::new();
                go.wait();
                let from = std::time::Instant::now();
                let mut q = t;
                while v.len() < 20 && (first.len() < is.len() || from.elapsed().as_millis() < 40) {
                    q += 1;
                    let i = is[q % is.len()];
                    let got = run(&flat[i], None);
                    match first.get(&i) {
                        None => { v.push((i, got.clone())); first.insert(i, got); }
                        Some(f) => if *f != got { v.push((i, got)); }
                    }
                }
                v
            }) }).collect();
            hs.into_iter().map(|h| h.join().expect("crowd thread")).collect()
        });
        put_distinct(&mut log, &mut seq, "crowd", logs);
    }
    // Very many threads, with names and without, one after another, each
    // calling every function once
    let one: Vec<usize> = names.iter().map(|(_, is)| is[seed as usize % is.len()]).collect();
    let brief: Vec<Vec<(usize, Vec<u64>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8usize).map(|w| { let (flat, one) = (&flat, &one); s.spawn(move || {
            let mut seen: Vec<(usize, Vec<u64>)> = Vec::new();
            for t in 0..wear/8 {
                let b = std::thread::Builder::new();
                let b = if t % 3 == 0 { b.name(format!("thread-{}", t*8 + w)) } else { b };
                let got = std::thread::scope(|z| b.spawn_scoped(z, || one.iter().map(|&i| (i, run(&flat[i], None))).collect::<Vec<_>>()).expect("spawn").join().expect("brief thread"));
                if t == 0 || seen.len() < 100 { for g in got { if !seen.contains(&g) { seen.push(g); } } }
            }
            seen
        }) }).collect();
        hs.into_iter().map(|h| h.join().expect("spawning thread")).collect()
    });
    put_distinct(&mut log, &mut seq, "brief", brief);
    // Every call again, late in the life of this process
    let age = std::time::Duration::from_secs(if n >= 12 { 30 } else { 9 });
    if born.elapsed() < age { std::thread::sleep(age - born.elapsed()); }
    for (i, j) in flat.iter().enumerate() { log.push((i, seq, "late", digest(&run(j, None)))); seq += 1; }

    // By call, its answer alone first, then in the order observed
    log.sort_by_key(|x| (x.0, x.2 != "alone", x.1));
    for (i, s, phase, d) in log {
        let j = &flat[i];
        let mut e = ev("call").i("key", i as i64).i("seq", s as i64).s("phase", phase).s("out", &d).s("name", j.name);
        if phase == "alone" { e = e.ss("args", &j.a.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>()); }
        out.put(e);
    }
}
