//! Every computation on every kind of argument, ordinary and extreme; the
//! published constants, defaults and messages.
use crate::dates::days_in;
use crate::ev::{call, ev, Ev, Out};
use crate::gen_cal::{cal_err, year};
use crate::rng::{nudge, Rng};
use tofas::calendar::*;
use tofas::common::*;
use tofas::delta_at::{DeltaAt, DeltaAtError};
use tofas::earth::{self, EarthPosVel};
use tofas::ellipsoid::*;
use tofas::frames;
use tofas::time::*;
use tofas::{fundargs, locator};
use tofas_extras::sun_angle::*;

/// Any double at all.
fn wild(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 0.0, -0.0]),
        1 => f64::from_bits(r.u64()),
        2 => r.logsym(-300.0, 300.0),
        _ => finite(r, 15.0),
    }
}
/// A finite number of magnitude at most 10^top.
fn finite(r: &mut Rng, top: f64) -> f64 {
    let m = 10f64.powf(top);
    match r.below(9) {
        0 => r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, -0.5, f64::MIN_POSITIVE, 5e-324, -5e-324, 2451545.0, 2400000.5, PI, TWO_PI]).clamp(-m, m),
        1 => r.logsym(-300.0, top),
        2 => r.logsym(-20.0, top),
        3 => r.logsym(-3.0, top).round(),
        4 => nudge(r.int(-1000, 1000) as f64, r.int(-1, 1)).clamp(-m, m),
        5 => (2f64.powi(r.int(-60, 60) as i32)*r.pick(&[1.0, -1.0])).clamp(-m, m),
        6 => m*r.pick(&[1.0, -1.0]),
        _ => r.logsym(0.0, top),
    }
}

pub fn total(r: &mut Rng, out: &mut Out, n: usize) {
    for _ in 0..n {
        // (name, outcome, numbers)
        let mut put = |name: &str, args: &[f64], res: Result<Result<Vec<f64>, &'static str>, String>| {
            let e: Ev = ev("answer").s("name", name).ss("args", &args.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>());
            out.put(match res {
                Ok(Ok(v)) => e.s("res", "ok").fs("out", &v),
                Ok(Err(x)) => e.s("res", x).fs("out", &[]),
                Err(p) => e.s("res", "panic").s("msg", &p).fs("out", &[]),
            });
        };
        let fl = |m: &Mat3| m.iter().flatten().cloned().collect::<Vec<f64>>();
        // What may be refused is asked with anything
        let (a, b) = (wild(r), wild(r));
        put("from_julian", &[a, b], call(|| GregorianDate::from_julian(a, b).map(|(g, f)| vec![g.year as f64, g.month as f64, g.day as f64, f]).map_err(|e| cal_err(&e))));
        put("dt_from", &[a, b], call(|| GregorianDateHMS::from_julian(a, b).map(|g| vec![g.date.year as f64, g.hms.hour as f64, g.hms.minute as f64, g.hms.second]).map_err(|e| cal_err(&e))));
        let f = wild(r);
        put("from_fraction", &[f], call(|| HMS::from_fraction_of_day(f).map(|t| vec![t.hour as f64, t.minute as f64, t.second]).map_err(|e| cal_err(&e))));
        let (y, m, d) = (r.u64() as i32, if r.coin() { r.u64() as i32 } else { r.int(0, 13) as i32 }, if r.coin() { r.u64() as i32 } else { r.int(0, 32) as i32 });
        put("new", &[y as f64, m as f64, d as f64], call(|| GregorianDate::new(y, m, d).map(|g| vec![g.year as f64, g.month as f64, g.day as f64]).map_err(|e| cal_err(&e))));
        let y = year(r).max(-4799); let m = r.int(1, 12); let d = r.int(1, days_in(y, m));
        let g = GregorianDate { year: y as i32, month: m as i32, day: d as i32 };
        put("to_julian", &[y as f64, m as f64, d as f64], call(|| { let (a, b) = g.to_julian(); Ok(vec![a, b]) }));
        put("delta_at", &[y as f64, m as f64, d as f64, f], call(|| match g.delta_at(f) {
            Ok(Some(v)) => Ok(vec![v]), Ok(None) => Ok(vec![]), Err(DeltaAtError::BadFract) => Err("BadFract"),
            #[allow(unreachable_patterns)]
            Err(_) => Err("other") }));
        let (a, b) = (wild(r), wild(r));
        put("converter", &[a, b], call(|| EllipsoidConverter::new(&Ellipsoid { a, f: b }).map(|_| vec![]).map_err(|_| "refused")));
        // Everything else with finite numbers
        let (hh, mm, s) = (r.int(0, 255), r.int(0, 255), finite(r, 15.0));
        put("to_fraction", &[hh as f64, mm as f64, s], call(|| Ok(vec![HMS::new(hh as u8, mm as u8, s).to_fraction_of_day()])));
        put("show", &[y as f64, m as f64, d as f64, hh as f64, mm as f64, s], call(|| {
            let t = format!("{}", GregorianDateHMS { date: g, hms: HMS::new(hh as u8, mm as u8, s) }); Ok(vec![t.len() as f64]) }));
        let (a, b, o) = (finite(r, 12.0), finite(r, 12.0), finite(r, 12.0));
        put("utc_tai", &[a, b, o], call(|| { let t = TAI::from_utc_delta_at(UTC((a, b)), o); Ok(vec![t.0.0, t.0.1, t.total()]) }));
        put("tai_tt", &[a, b], call(|| { let t: TT = TAI((a, b)).into(); Ok(vec![t.0.0, t.0.1, t.total()]) }));
        put("tt_tdb", &[a, b, o], call(|| { let t = TDB::from_tt(TT((a, b)), o); Ok(vec![t.0.0, t.0.1]) }));
        put("ut1_tt", &[a, b, o], call(|| { let t = TT::from_ut1(UT1((a, b)), o); Ok(vec![t.0.0, t.0.1]) }));
        put("tt_ut1", &[a, b, o], call(|| { let t = UT1::from_tt(TT((a, b)), o); Ok(vec![t.0.0, t.0.1, t.total()]) }));
        let (p, q, w) = (finite(r, 15.0), finite(r, 15.0), finite(r, 15.0));
        let z = finite(r, 307.0);
        put("anp", &[z], call(|| Ok(vec![anp(z)])));
        put("era", &[a, b], call(|| Ok(vec![earth::rotation_angle(UT1((a, b)))])));
        put("pom", &[p, q, w], call(|| Ok(fl(&earth::polar_motion_matrix(p, q, w)))));
        let k = r.below(3) as usize;
        put("rotation", &[k as f64, p], call(|| Ok(fl(&Mat3::rotation(k, p)))));
        let u = [finite(r, 100.0), finite(r, 100.0), finite(r, 100.0)];
        let v = [finite(r, 100.0), finite(r, 100.0), finite(r, 100.0)];
        put("vectors", &[u[0], u[1], u[2], v[0], v[1], v[2], p], call(|| Ok([u.add(v), u.sub(v), Vector::neg(u), u.scale(p), [u.dot(v), u.norm(), 0.0]].concat())));
        let mx = |t: Vec3| abs(t[0]).max(abs(t[1])).max(abs(t[2]));
        if mx(u) > 1e-100 && mx(v) > 1e-100 { put("angle", &[u[0], u[1], u[2], v[0], v[1], v[2]], call(|| Ok([&[u.angle(v)][..], &u.normalize()[..]].concat()))); }
        put("nutation", &[a, b], call(|| { let (x, y) = frames::nutation(TT((a, b))); Ok(vec![x, y]) }));
        put("precession_rate", &[a, b], call(|| { let (x, y) = frames::precession_rate(TT((a, b))); Ok(vec![x, y]) }));
        put("mean_obliquity", &[a, b], call(|| Ok(vec![frames::mean_obliquity(TT((a, b)))])));
        put("bias_and_precession", &[a, b], call(|| { let (x, y, z) = frames::bias_and_precession(TT((a, b))); Ok([fl(&x), fl(&y), fl(&z)].concat()) }));
        put("nutation_matrix", &[p, q, w], call(|| Ok(fl(&frames::nutation_matrix(p, q, w)))));
        put("precession_nutation", &[a, b], call(|| Ok(fl(&frames::precession_nutation(TT((a, b)))))));
        let t = finite(r, 9.0);
        put("fundargs", &[t], call(|| Ok(vec![fundargs::l03(t), fundargs::lp03(t), fundargs::f03(t), fundargs::d03(t), fundargs::om03(t),
            fundargs::ve03(t), fundargs::e03(t), fundargs::pa03(t)])));
        let u0 = r.f();
        let (rho, th) = (r.pick(&[u0, 1e-300, 0.0, 0.999999]), r.sym(4.0));
        let (x, y2) = (rho*th.cos(), rho*th.sin());
        put("cio", &[a, b, x, y2], call(|| Ok(vec![locator::cio(TT((a, b)), x, y2)])));
        put("c2ixys", &[x, y2, p], call(|| Ok(fl(&frames::celestial_to_intermediate_from_xys(x, y2, p)))));
        put("c2ixy", &[a, b, x, y2], call(|| Ok(fl(&frames::celestial_to_intermediate_with_bpn_and_xy(TT((a, b)), x, y2)))));
        put("c2i", &[a, b], call(|| Ok(fl(&frames::celestial_to_intermediate(TT((a, b)))))));
        let (c, e) = (finite(r, 12.0), finite(r, 12.0));
        put("c2t", &[a, b, c, e, p, q], call(|| Ok(fl(&frames::celestial_to_terrestrial(TT((a, b)), UT1((c, e)), p, q)))));
        put("epv", &[a, b], call(|| { let e: EarthPosVel = TDB((a, b)).into();
            Ok([e.heliocentric.p, e.heliocentric.v, e.barycentric.p, e.barycentric.v].concat()) }));
        put("to360", &[p, q, w], call(|| { let g: Geodetic360 = Geodetic { elong: p, phi: q, height: w }.into(); Ok(vec![g.lon, g.lat, g.height]) }));
        put("torad", &[p, q, w], call(|| { let g: Geodetic = Geodetic360 { lon: p, lat: q, height: w }.into(); Ok(vec![g.elong, g.phi, g.height]) }));
        put("show_pos", &[p, q, w], call(|| { let t = format!("{}", Geodetic { elong: p, phi: q, height: w }); Ok(vec![t.len() as f64]) }));
        put("zenith", &[p, q], call(|| Ok(Geodetic { elong: p, phi: q, height: w }.zenith().to_vec())));
        let flat = r.f()*0.9;
        let (ea, ef) = (10f64.powf(r.range(-3.0, 12.0)), r.pick(&[0.0, 1.0/298.257223563, flat, 5e-324]));
        put("forward", &[ea, ef, p, q, w], call(|| match EllipsoidConverter::new(&Ellipsoid { a: ea, f: ef }) {
            Ok(c) => c.geodetic_to_geocentric(&Geodetic { elong: p, phi: q, height: w }).map(|v| v.to_vec()).map_err(|_| "refused"),
            Err(_) => Err("refused") }));
        let far = [finite(r, 12.0), finite(r, 12.0), finite(r, 12.0)];
        let name = if far.iter().map(|x| x*x).sum::<f64>().sqrt() >= 6257000.0 { "inverse" } else { "inverse_deep" };
        put(name, &far, call(|| { let g = EllipsoidConverter::new(&WGS84).map_err(|_| "refused")?.geocentric_to_geodetic(&far); Ok(vec![g.elong, g.phi, g.height]) }));
        let (hh, mm, s) = (r.int(0, 23), r.int(0, 59), 60.0*r.f());
        put("sun", &[g.year as f64, m as f64, d as f64, hh as f64, mm as f64, s, p, q, w, o], call(|| {
            let mut ps = SunAngleParameters::default();
            ps.date = g; ps.time = HMS::new(hh as u8, mm as u8, s); ps.position = Geodetic360 { lat: p, lon: q, height: w };
            let x = SunAngleCalculator::new(&ps).compute(o);
            let t = format!("{}", SunAngleResultBundle { parameters: &ps, result: &x });
            Ok(vec![x.jd0, x.jd1, x.delta_s, x.p[0], x.p[1], x.p[2], x.utc.0.0, x.utc.0.1, x.dat, x.tai.0.0, x.tai.0.1, x.tt.0.0, x.tt.0.1,
                x.ut1.0.0, x.ut1.0.1, x.era, x.earth[0], x.earth[1], x.earth[2], x.sun_e[0], x.sun_e[1], x.sun_e[2], x.sza, t.len() as f64]) }));
    }
}

pub fn published(r: &mut Rng, out: &mut Out, n: usize) {
    let mut c = |name: &str, v: f64| out.put(ev("constant").s("name", name).f("v", v));
    c("AUM", earth::AUM); c("MJD_ZERO", MJD_ZERO); c("YEAR_MIN", YEAR_MIN as f64); c("DJ_MIN", DJ_MIN); c("DJ_MAX", DJ_MAX);
    c("D2S", D2S); c("DJY", DJY); c("DJ00", DJ00); c("DJC", DJC); c("DTAT", DTAT);
    c("PI", PI); c("DEGREE", DEGREE); c("EPSILON", EPSILON); c("TWO_PI", TWO_PI); c("AS2R", AS2R); c("MAS2R", MAS2R); c("TURNAS", TURNAS);
    c("WGS84.a", WGS84.a); c("WGS84.f", WGS84.f);
    for i in 0..n {
        let e = |n: &str, x: f64, v: Result<f64, String>| { let e = ev("elementary").s("name", n).f("x", x); match v {
            Ok(v) => e.s("res", "ok").f("v", v),
            Err(p) => e.s("res", "panic").s("msg", &p).f("v", f64::NAN) } };
        // arguments without an answer, and halves and whole numbers to the last digit
        let q = match i % 8 { 0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, 3 => nudge(r.int(-9, 9) as f64*0.5, r.int(-1, 1)),
            4 => nudge(r.pick(&[1.0, -1.0]), r.int(-2, 2)), 5 => 1.0 + r.f(), 6 => -r.logsym(-6.0, 6.0).abs(), _ => nudge(4503599627370496.0*r.pick(&[0.5, 1.0, 2.0, -0.5, -1.0]), r.int(-2, 2)) };
        let q = if q.abs() < 1e-6 { 0.0 } else { q };
        for (n, v) in [("sqrt", call(|| sqrt(q))), ("acos", call(|| acos(q))), ("asin", call(|| asin(q))), ("abs", call(|| abs(q))), ("floor", call(|| floor(q))), ("round", call(|| round(q))), ("atan", call(|| atan(q)))] {
            out.put(e(n, q, v));
        }
        let x = match i % 8 { 6 => r.logsym(0.0, 15.0), 7 => r.int(-1_000_000_000, 1_000_000_000) as f64*PI*r.pick(&[0.25, 0.5, 1.0, 2.0]), 0 => r.int(-20, 20) as f64, 1 => r.int(-40, 40) as f64*0.5, 2 => nudge(r.int(-8, 8) as f64*PI/4.0, r.int(-2, 2)), 3 => r.logsym(-6.0, 6.0), 4 => r.sym(100.0), _ => r.sym(4.0) };
        let x = if x.abs() < 1e-6 { 0.0 } else { x };
        let p = x.abs();
        let u = match i % 4 { 0 => r.pick(&[-1.0, 1.0, 0.0, -0.0, 0.5, -0.5]), 1 => (1.0 - 10f64.powf(r.range(-16.0, -1.0)))*r.pick(&[-1.0, 1.0]), _ => r.sym(1.0) };
        let y = match i % 5 { 0 => r.pick(&[0.0, 1.0, -1.0]), 1 => r.logsym(-6.0, 15.0), _ => r.sym(5.0) };
        out.put(e("sqrt", p, call(|| sqrt(p)))); out.put(e("sq", x, call(|| sq(x)))); out.put(e("sin", x, call(|| sin(x)))); out.put(e("cos", x, call(|| cos(x))));
        out.put(e("tan", x, call(|| tan(x)))); out.put(e("atan", x, call(|| atan(x)))); out.put(e("atan2", x, call(|| atan2(y, x))).f("y", y));
        out.put(e("acos", u, call(|| acos(u)))); out.put(e("asin", u, call(|| asin(u))));
        out.put(e("abs", x, call(|| abs(x)))); out.put(e("floor", x, call(|| floor(x)))); out.put(e("round", x, call(|| round(x))));
    }
    out.put(match call(SunAngleParameters::default) {
        Ok(p) => ev("default").s("res", "ok").i("y", p.date.year as i64).i("m", p.date.month as i64).i("d", p.date.day as i64)
            .i("hh", p.time.hour as i64).i("mm", p.time.minute as i64).f("s", p.time.second)
            .f("lat", p.position.lat).f("lon", p.position.lon).f("height", p.position.height),
        Err(x) => ev("default").s("res", "panic").s("msg", &x),
    });
    let mut m = |name: &str, t: Result<String, String>| out.put(match t {
        Ok(t) => ev("message").s("name", name).s("res", "ok").s("text", &t),
        Err(p) => ev("message").s("name", name).s("res", "panic").s("text", &p) });
    m("BadYear", call(|| format!("{}", CalendarError::BadYear)));
    m("BadMonth", call(|| format!("{}", CalendarError::BadMonth)));
    m("BadDay", call(|| format!("{}", CalendarError::BadDay)));
    m("BadJulian", call(|| format!("{}", CalendarError::BadJulian)));
    m("BadFract", call(|| format!("{}", CalendarError::BadFract)));
    m("DeltaAt.BadFract", call(|| format!("{}", DeltaAtError::BadFract)));
    m("InvalidRadius", call(|| format!("{}", EllipsoidError::InvalidRadius)));
    m("InvalidFlattening", call(|| format!("{}", EllipsoidError::InvalidFlattening)));
    m("BadEccentricity", call(|| format!("{}", EllipsoidError::BadEccentricity)));
    m("BadCoordinates", call(|| format!("{}", EllipsoidError::BadCoordinates)));
}
