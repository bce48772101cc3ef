//! Angles, rotations, vectors, models, ephemeris, ellipsoid.
use crate::dates;
use crate::ev::{call, ev, Ev, Out};
use crate::rng::{nudge, spice, Rng};
use tofas::common::*;
use tofas::earth::{self, EarthPosVel, EarthPosVelWarning};
use tofas::ellipsoid::*;
use tofas::frames::{self, PrecessionNutation};
use tofas::fundargs;
use tofas::locator;
use tofas::time::{TDB, TT, UT1};

const MIL: f64 = 365250.0;
const TAU: f64 = std::f64::consts::TAU;
const NAN3: [[f64;3];3] = [[f64::NAN;3];3];

fn f1(e: Ev, k: &str, v: Result<f64, String>) -> Ev {
    match v { Ok(v) => e.s("res", "ok").f(k, v), Err(p) => e.s("res", "panic").s("msg", &p).f(k, f64::NAN) }
}
fn v1(e: Ev, k: &str, v: Result<[f64;3], String>) -> Ev {
    match v { Ok(v) => e.s("res", "ok").fs(k, &v), Err(p) => e.s("res", "panic").s("msg", &p).fs(k, &[f64::NAN;3]) }
}
fn m1(e: Ev, k: &str, v: Result<Mat3, String>) -> Ev {
    match v { Ok(v) => e.s("res", "ok").m(k, &v), Err(p) => e.s("res", "panic").s("msg", &p).m(k, &NAN3) }
}

/// Angles: everyday ones, around multiples of a quarter turn, tiny, large.
pub fn angle(r: &mut Rng) -> f64 {
    if r.below(16) == 0 { let hi = if r.coin() { 6.0 } else { 15.0 }; return r.logsym(3.0, hi); }
    match r.below(9) {
        8 => { let k = r.int(-720, 720); let k = if r.coin() { k } else { 15*(k/15) }; nudge((k as f64).to_radians(), if r.coin() { 0 } else { r.int(-2, 2) }) }
        0 => nudge(r.int(-12, 12) as f64*TAU/4.0, r.int(-2, 2)),
        1 => r.logsym(-20.0, 0.0),
        2 => r.sym(1000.0),
        3 => r.pick(&[0.0, -0.0, TAU, -TAU, TAU/2.0, -TAU/2.0, TAU/4.0, -TAU/4.0]),
        4 => nudge(r.int(-1000, 1000) as f64*TAU, r.int(-2, 2)),
        _ => r.sym(2.0*TAU),
    }
}

pub fn c09(r: &mut Rng, out: &mut Out, n: usize) {
    for i in 0..n {
        let a = if i % 4 == 0 { r.logsym(-25.0, 9.0) } else if i % 64 == 1 { r.logsym(9.0, 18.0) } else { angle(r) };
        out.put(f1(ev("anp").f("a", a), "v", call(|| anp(a))));
    }
    for &a in &[0.0, -0.0, TAU, -TAU, 5e-324, -5e-324, -1e-17, -4.4e-16, -8.9e-16, 1e-300, -1e-300, 2.0*TAU, -3.0*TAU, 1e9, -1e9] {
        for k in -2..=2 { let a = nudge(a, k); out.put(f1(ev("anp").f("a", a), "v", call(|| anp(a)))); }
    }
    for i in 0..2*n {
        let span = match i % 4 { 0 => 3652500.0, 1 => 36525.0, _ => MIL };
        let (a, b) = if i % 16 == 0 { let x = r.range(-2.0e6, 4.0e6); (x, r.range(-2.0e6, 4.0e6) - x) } else { dates::date(r, span) };
        let mut v = [a, b];
        if (a + b - dates::DJ00).abs() < 3.0e6 && i % 8 == 5 { spice(r, 5.0e6, &mut v); }
        let (a, b) = if (v[0] + v[1] - dates::DJ00).abs() <= 3652500.0 { (v[0], v[1]) } else { (a, b) };
        out.put(f1(ev("era").f("a", a).f("b", b), "v", call(|| earth::rotation_angle(UT1((a, b))))));
    }
}

fn any_mat(r: &mut Rng) -> Mat3 {
    match r.below(4) {
        0 => { let mut m = [[0.0;3];3]; for row in m.iter_mut() { for x in row.iter_mut() { *x = r.int(-3, 3) as f64; } } m }
        1 => Mat3::rotation(r.below(3) as usize, angle(r)),
        _ => { let mut m = [[0.0;3];3]; for row in m.iter_mut() { for x in row.iter_mut() { *x = r.sym(10.0); } } m }
    }
}
fn any_vec(r: &mut Rng) -> Vec3 {
    match r.below(6) {
        0 => [r.int(-3, 3) as f64, r.int(-3, 3) as f64, r.int(-3, 3) as f64],
        1 => { let s = 10f64.powf(r.range(-3.0, 11.0)); [r.sym(s), r.sym(s), r.sym(s)] }
        2 => { let mut v = [0.0;3]; v[r.below(3) as usize] = r.sym(10.0); v }
        3 => { let mut v = [r.logsym(-6.0, 6.0), r.logsym(-6.0, 6.0), r.logsym(-6.0, 6.0)]; v[r.below(3) as usize] = 0.0; v }
        _ => [r.sym(10.0), r.sym(10.0), r.sym(10.0)],
    }
}

pub fn c10(r: &mut Rng, out: &mut Out, n: usize) {
    out.put(m1(ev("identity"), "m", call(Mat3::identity)));
    out.put(m1(ev("zero"), "m", call(Mat3::zero)));
    for i in 0..n {
        let axis = i % 3;
        let mut v = [angle(r)];
        spice(r, 1e9, &mut v);
        let [th] = v;
        out.put(m1(ev("rotation").i("axis", axis as i64).f("th", th), "m", call(|| Mat3::rotation(axis, th))));
        let ph = angle(r);
        out.put(m1(ev("rot2").i("axis", axis as i64).f("th", th).f("ph", ph), "m",
            call(|| Mat3::rotation(axis, th).compose(&Mat3::rotation(axis, ph)))));
        let (a, b, x) = (any_mat(r), any_mat(r), any_vec(r));
        out.put(m1(ev("compose").m("a", &a).m("b", &b), "m", call(|| a.compose(&b))));
        out.put(m1(ev("transpose").m("a", &a), "m", call(|| a.transpose())));
        out.put(v1(ev("apply").m("a", &a).fs("x", &x), "v", call(|| a.apply(x))));
        out.put(v1(ev("apply2").m("a", &a).m("b", &b).fs("x", &x), "v", call(|| a.compose(&b).apply(x))));
    }
}

pub fn c11(r: &mut Rng, out: &mut Out, n: usize) {
    for i in 0..n {
        let a = any_vec(r);
        let mut b = match i % 8 {
            0 => a,
            1 => [-a[0], -a[1], -a[2]],
            2 => { let k = 10f64.powf(r.range(-6.0, 6.0)); [k*a[0], k*a[1], k*a[2]] }
            3 => { let k = -(10f64.powf(r.range(-6.0, 6.0))); [k*a[0], k*a[1], k*a[2]] }
            4 => [a[0] + r.logsym(-12.0, -3.0), a[1] + r.logsym(-12.0, -3.0), a[2] + r.logsym(-12.0, -3.0)],
            5 => [-a[0] + r.logsym(-12.0, -3.0), -a[1], -a[2] + r.logsym(-12.0, -3.0)],
            _ => any_vec(r),
        };
        if b == [0.0;3] { b = [1.0, 0.0, 0.0]; }
        let c = match r.below(4) { 0 => r.int(-3, 3) as f64, 1 => r.logsym(-6.0, 6.0), _ => r.sym(10.0) };
        out.put(v1(ev("add").fs("a", &a).fs("b", &b), "v", call(|| a.add(b))));
        out.put(v1(ev("sub").fs("a", &a).fs("b", &b), "v", call(|| a.sub(b))));
        out.put(v1(ev("neg").fs("a", &a), "v", call(|| Vector::neg(a))));
        out.put(v1(ev("scale").fs("a", &a).f("c", c), "v", call(|| a.scale(c))));
        out.put(f1(ev("dot").fs("a", &a).fs("b", &b), "v", call(|| a.dot(b))));
        out.put(f1(ev("norm").fs("a", &a), "v", call(|| a.norm())));
        if a != [0.0;3] {
            out.put(v1(ev("normalize").fs("a", &a), "v", call(|| a.normalize())));
            out.put(f1(ev("angle").fs("a", &a).fs("b", &b), "v", call(|| a.angle(b))));
            out.put(f1(ev("angle").fs("a", &b).fs("b", &a), "v", call(|| b.angle(a))));
        }
    }
}

pub fn c12(r: &mut Rng, out: &mut Out, n: usize) {
    for i in 0..n {
        let (a, b) = dates::date(r, if i % 4 == 0 { 36525.0 } else { MIL });
        let (p, q) = match call(|| frames::nutation(TT((a, b)))) { Ok(v) => v, Err(_) => (f64::NAN, f64::NAN) };
        out.put(ev("nutation").f("a", a).f("b", b).f("dpsi", p).f("deps", q));
        let (a, b) = dates::date(r, MIL);
        let (p, q) = match call(|| frames::precession_rate(TT((a, b)))) { Ok(v) => v, Err(_) => (f64::NAN, f64::NAN) };
        out.put(ev("precession_rate").f("a", a).f("b", b).f("dpsi", p).f("deps", q));
        let (a, b) = dates::date(r, MIL);
        out.put(f1(ev("mean_obliquity").f("a", a).f("b", b), "v", call(|| frames::mean_obliquity(TT((a, b))))));
        // the nutation that the full model reports
        let (a, b) = dates::date(r, MIL);
        out.put(f1(ev("pn_dpsi").f("a", a).f("b", b), "v", call(|| { let p: PrecessionNutation = TT((a, b)).into(); p.dpsi })));
    }
    let v = match call(frames::frame_bias) { Ok((a, b, c)) => [a, b, c], Err(_) => [f64::NAN;3] };
    out.put(ev("frame_bias").fs("v", &v));
}

/// A matrix field of the model structure, from its debug representation
/// (the fields are private): present only if the text shows it.
fn debug_field(text: &str, name: &str) -> Option<Vec<f64>> {
    let k = text.find(&format!(" {}: ", name))?;
    let rest = &text[k + name.len() + 3..];
    let end = if rest.starts_with('[') { rest.find("]]")? } else { rest.find(|c| c == ',' || c == ' ')? };
    rest[..end].split(',').map(|x| x.trim_matches(|c| c == '[' || c == ']' || c == ' ').parse().ok()).collect()
}

pub fn c13(r: &mut Rng, out: &mut Out, n: usize) {
    for i in 0..n {
        let span = if i % 4 == 0 { 36525.0 } else { MIL };
        let (a, b) = dates::date(r, span);
        let e = ev("bias_and_precession").f("a", a).f("b", b);
        out.put(match call(|| frames::bias_and_precession(TT((a, b)))) {
            Ok((rb, rp, rbp)) => e.s("res", "ok").m("rb", &rb).m("rp", &rp).m("rbp", &rbp),
            Err(p) => e.s("res", "panic").s("msg", &p).m("rb", &NAN3).m("rp", &NAN3).m("rbp", &NAN3),
        });
        let (ea, dp, de) = match i % 3 {
            0 => (0.409 + r.sym(0.01), r.sym(1e-4), r.sym(5e-5)),
            1 => (r.sym(1.5), r.sym(0.1), r.sym(0.1)),
            _ => (angle(r), angle(r), angle(r)),
        };
        let mut v = [ea, dp, de];
        spice(r, 1e9, &mut v);
        let [ea, dp, de] = v;
        out.put(m1(ev("nutation_matrix").f("epsa", ea).f("dpsi", dp).f("deps", de), "m",
            call(|| frames::nutation_matrix(ea, dp, de))));
        let (a, b) = dates::date(r, span);
        out.put(m1(ev("precession_nutation").f("a", a).f("b", b), "m", call(|| frames::precession_nutation(TT((a, b))))));
        // The model with a given nutation
        let (a, b) = dates::date(r, span);
        let (dp, de) = match i % 4 { 0 | 1 => (r.sym(1e-4), r.sym(5e-5)), 2 => (r.sym(0.1), r.sym(0.1)), _ => (angle(r), angle(r)) };
        let mut v = [dp, de];
        spice(r, 1e9, &mut v);
        let [dp, de] = v;
        let e = ev("pn_with").f("a", a).f("b", b).f("dpsi", dp).f("deps", de);
        match call(|| PrecessionNutation::from_tt_with_nutation(TT((a, b)), dp, de)) {
            Ok(p) => {
                let text = format!("{:?}", p);
                let mut e = e.s("res", "ok").f("odpsi", p.dpsi);
                for k in ["rb", "rp", "rbp", "rn", "rbpn"] {
                    let v = debug_field(&text, k).filter(|v| v.len() == 9);
                    let m = match &v { Some(v) => [[v[0], v[1], v[2]], [v[3], v[4], v[5]], [v[6], v[7], v[8]]], None => NAN3 };
                    e = e.b(&format!("has_{}", k), v.is_some()).m(k, &m);
                }
                out.put(e);
            }
            Err(p) => {
                let mut e = e.s("res", "panic").s("msg", &p).f("odpsi", f64::NAN);
                for k in ["rb", "rp", "rbp", "rn", "rbpn"] { e = e.b(&format!("has_{}", k), true).m(k, &NAN3); }
                out.put(e);
            }
        }
    }
}

pub fn xy(r: &mut Rng) -> (f64, f64) {
    let (x, y) = xy_plain(r);
    let mut v = [x, y];
    spice(r, 1.0, &mut v);
    if v[0]*v[0] + v[1]*v[1] < 1.0 - 1e-6 { (v[0], v[1]) } else { (x, y) }
}
fn xy_plain(r: &mut Rng) -> (f64, f64) {
    match r.below(9) {
        0 => (r.pick(&[0.0, -0.0]), r.pick(&[0.0, -0.0])),
        1 => (r.logsym(-12.0, -3.0), r.pick(&[0.0, -0.0])),
        2 => (r.pick(&[0.0, -0.0]), r.logsym(-12.0, -3.0)),
        3 => (r.logsym(-20.0, -3.0), r.logsym(-20.0, -3.0)),
        4 => (r.sym(0.7), r.sym(0.7)),
        7 => { let rho = if r.coin() { r.f() } else { 1.0 - 10f64.powf(r.range(-6.0, -1.0)) }; let e = angle(r); (rho*e.cos(), rho*e.sin()) }
        5 => (-(r.f()*0.1), -(r.f()*0.1)),
        _ => (r.sym(0.01), r.sym(0.01)),
    }
}

pub fn c14(r: &mut Rng, out: &mut Out, n: usize) {
    for i in 0..n {
        let t = match i % 5 {
            0 => r.sym(1.0), 1 => r.logsym(-9.0, 1.0), 2 => if r.coin() { r.pick(&[0.0, 1.0, -1.0, 10.0, -10.0, 0.5]) } else { r.int(-400, 400) as f64*0.125 }, 3 => r.sym(100.0),
            _ => r.sym(10.0),
        };
        let v = call(|| [fundargs::l03(t), fundargs::lp03(t), fundargs::f03(t), fundargs::d03(t), fundargs::om03(t),
            fundargs::ve03(t), fundargs::e03(t), fundargs::pa03(t)]);
        let e = ev("fundargs").f("t", t);
        out.put(match v {
            Ok(v) => e.s("res", "ok").fs("v", &v),
            Err(p) => e.s("res", "panic").s("msg", &p).fs("v", &[f64::NAN;8]),
        });
    }
    for i in 0..n {
        let (a, b) = dates::date(r, if i % 4 == 0 { 36525.0 } else { MIL });
        let (x, y) = if i % 6 == 0 { let mut v = [r.sym(1.0), r.sym(1.0)]; spice(r, 1.0, &mut v); (v[0], v[1]) } else { xy(r) };
        out.put(f1(ev("cio").f("a", a).f("b", b).f("x", x).f("y", y), "v", call(|| locator::cio(TT((a, b)), x, y))));
    }
}

fn some_rotation(r: &mut Rng) -> Mat3 {
    Mat3::rotation(0, angle(r)).compose(&Mat3::rotation(1, angle(r))).compose(&Mat3::rotation(2, angle(r)))
}

pub fn c15(r: &mut Rng, out: &mut Out, n: usize) {
    for i in 0..n {
        let span = if i % 4 == 0 { 36525.0 } else { MIL };
        let (x, y) = xy(r);
        let s = match r.below(3) { 0 => 0.0, 1 => r.sym(1e-6), _ => angle(r) };
        let mut v = [s];
        spice(r, 1e9, &mut v);
        let [s] = v;
        out.put(m1(ev("c2ixys").f("x", x).f("y", y).f("s", s), "m", call(|| frames::celestial_to_intermediate_from_xys(x, y, s))));
        let (a, b) = dates::date(r, span);
        let (x, y) = xy(r);
        out.put(m1(ev("c2ixy").f("a", a).f("b", b).f("x", x).f("y", y), "m",
            call(|| frames::celestial_to_intermediate_with_bpn_and_xy(TT((a, b)), x, y))));
        let (a, b) = dates::date(r, span);
        let bpn = if i % 5 == 0 { Mat3::identity() } else {
            Mat3::rotation(0, r.sym(0.1)).compose(&Mat3::rotation(1, r.sym(0.1))).compose(&Mat3::rotation(2, angle(r))) };
        out.put(m1(ev("c2ibpn").f("a", a).f("b", b).m("bpn", &bpn), "m",
            call(|| frames::celestial_to_intermediate_with_bpn(TT((a, b)), &bpn))));
        let m = some_rotation(r);
        let (px, py) = match call(|| frames::xy_from_bpn(&m)) { Ok(v) => v, Err(_) => (f64::NAN, f64::NAN) };
        out.put(ev("bpn2xy").m("bpn", &m).f("x", px).f("y", py));
        let (a, b) = dates::date(r, span);
        out.put(m1(ev("c2i").f("a", a).f("b", b), "m", call(|| frames::celestial_to_intermediate(TT((a, b))))));
        let (xp, yp, sp) = match i % 4 {
            0 => (0.0, 0.0, 0.0), 1 => (r.sym(3e-6), r.sym(3e-6), r.sym(1e-9)), 2 => (angle(r), angle(r), angle(r)),
            _ => (r.sym(1.0), r.sym(1.0), r.sym(1.0)),
        };
        let mut v = [xp, yp, sp];
        spice(r, 1e9, &mut v);
        let [xp, yp, sp] = v;
        out.put(m1(ev("pom").f("xp", xp).f("yp", yp).f("sp", sp), "m", call(|| earth::polar_motion_matrix(xp, yp, sp))));
        let (p, q, th) = (some_rotation(r), some_rotation(r), angle(r));
        let mut v = [th];
        spice(r, 1e9, &mut v);
        let [th] = v;
        out.put(m1(ev("c2tcio").m("c2i", &p).f("era", th).m("pom", &q), "m",
            call(|| frames::celestial_to_terrestrial_from_cio_components(&p, th, &q))));
        let (ta, tb) = dates::date(r, span);
        let (ua, ub) = if i % 2 == 0 { (ta, tb - 0.0007*r.f()) } else { dates::date(r, span) };
        let (xp, yp) = if i % 3 == 0 { (0.0, 0.0) } else if i % 3 == 1 { (r.sym(3e-6), r.sym(3e-6)) } else { (r.sym(1.0), r.sym(1.0)) };
        let mut v = [xp, yp];
        spice(r, 1e6, &mut v);
        let [xp, yp] = v;
        out.put(m1(ev("c2t").f("ta", ta).f("tb", tb).f("ua", ua).f("ub", ub).f("xp", xp).f("yp", yp), "m",
            call(|| frames::celestial_to_terrestrial(TT((ta, tb)), UT1((ua, ub)), xp, yp))));
    }
}

fn epv_event(out: &mut Out, a: f64, b: f64, series: bool) {
    let e = ev(if series { "epv" } else { "epv_warn" }).f("a", a).f("b", b);
    out.put(match call(|| { let e: EarthPosVel = TDB((a, b)).into(); e }) {
        Ok(p) => e.s("res", "ok").fs("ph", &p.heliocentric.p).fs("vh", &p.heliocentric.v)
            .fs("pb", &p.barycentric.p).fs("vb", &p.barycentric.v)
            .s("warn", match p.warning { None => "none", Some(EarthPosVelWarning::DateOutOfRange) => "range",
                #[allow(unreachable_patterns)]
                _ => "other" }),
        Err(p) => { let z = [f64::NAN;3]; e.s("res", "panic").s("msg", &p).fs("ph", &z).fs("vh", &z).fs("pb", &z).fs("vb", &z).s("warn", "panic") }
    });
}

pub fn c16(r: &mut Rng, out: &mut Out, n: usize) {
    for i in 0..n {
        let span = match i % 8 { 6 => MIL, 7 => 50.0, _ => 36525.0 };
        let (a, b) = if i == 0 { (2451545.0, 0.0) } else { dates::date(r, span) };
        epv_event(out, a, b, true);
    }
    for s in [-1.0, 1.0] {
        for k in -3..=3 {
            for (a, b) in [(2451545.0 + s*36525.0, 0.0), (2451545.0, s*36525.0), (s*36525.0, 2451545.0), (2400000.5, 51544.5 + s*36525.0)] {
                epv_event(out, a, nudge(b, k), false);
                epv_event(out, nudge(a, k), b, false);
                epv_event(out, a, b + k as f64*1e-7, false);
                epv_event(out, a, b + k as f64*0.3, false);
            }
            for g in [0.0, 0.5f64.powi(20), 0.5f64.powi(10), 0.5] {
                let q = 365.25*r.int(-600, 600) as f64;
                epv_event(out, 2451545.0 + q, s*36525.0 - q + if k == 0 { 0.0 } else { k as f64*91.3125 }, false);
                let h = r.int(-3_000_000, 3_000_000) as f64;
                epv_event(out, h, 2451545.0 + s*36525.0 - h + k as f64*g, false);
                epv_event(out, h + k as f64*g, 2451545.0 + s*36525.0 - h, false);
            }
        }
    }
    for _ in 0..2*n { let span = if r.coin() { 73050.0 } else { MIL }; let (a, b) = dates::date(r, span); epv_event(out, a, b, false); }
}

pub fn c17(r: &mut Rng, out: &mut Out, n: usize) {
    for i in 0..n {
        let span = match i % 8 { 6 => MIL, 7 => 50.0, _ => 36525.0 };
        let (a, b) = dates::date(r, span);
        epv_event(out, a, b, true);
    }
    // Finite differences: positions a step before and after
    for _ in 0..n {
        let (d, f) = dates::day_frac(r, 36500.0);
        let h = 0.25;
        let get = |x: f64| call(|| { let e: EarthPosVel = TDB((d, x)).into(); e });
        let e = ev("epv_diff").f("a", d).f("b", f).f("h", h);
        if let (Ok(p), Ok(q), Ok(o)) = (get(f - h), get(f + h), get(f)) {
            out.put(e.s("res", "ok").fs("h0", &p.heliocentric.p).fs("h1", &q.heliocentric.p).fs("vh", &o.heliocentric.v)
                .fs("b0", &p.barycentric.p).fs("b1", &q.barycentric.p).fs("vb", &o.barycentric.v));
        } else {
            let z = [f64::NAN;3];
            out.put(e.s("res", "panic").fs("h0", &z).fs("h1", &z).fs("vh", &z).fs("b0", &z).fs("b1", &z).fs("vb", &z));
        }
    }
}

fn any_ellipsoid(r: &mut Rng) -> (f64, f64) {
    match r.below(5) {
        0 => (6378137.0, 1.0/298.257223563),
        1 => (6378137.0, r.pick(&[0.0, -0.0])),
        2 => (10f64.powf(r.range(-1.0, 9.0)), r.f()*0.9999),
        3 => (10f64.powf(r.range(5.0, 8.0)), r.f()*0.1),
        _ => (6378136.6, 1.0/298.25642),
    }
}
pub fn lat(r: &mut Rng) -> f64 {
    match r.below(9) {
        8 => { let k = r.int(-90, 90); let k = if r.coin() { k } else { 5*(k/5) }; (k as f64).to_radians() }
        0 => r.pick(&[0.0, -0.0, TAU/4.0, -TAU/4.0, TAU/8.0, -TAU/8.0]),
        1 => nudge(TAU/4.0, -r.int(0, 3)),
        2 => -nudge(TAU/4.0, -r.int(0, 3)),
        3 => r.logsym(-12.0, -1.0),
        4 => { let e = 10f64.powf(r.range(-12.0, -1.0)); if r.coin() { TAU/4.0 - e } else { e - TAU/4.0 } }
        _ => r.sym(TAU/4.0),
    }
}
pub fn height(r: &mut Rng) -> f64 {
    match r.below(7) {
        6 => { let k = r.pick(&[1.0, 10.0, 100.0, 1000.0]); r.int(-99, 999) as f64*k }
        0 => 0.0, 1 => r.sym(9000.0), 2 => 10f64.powf(r.range(0.0, 9.0)), 3 => -(r.f()*100000.0), 4 => r.logsym(-3.0, 4.0),
        _ => r.range(-100000.0, 1e6),
    }
}

pub fn c18(r: &mut Rng, out: &mut Out, n: usize) {
    for i in 0..n {
        let (a, f) = any_ellipsoid(r);
        let (el, ph, h) = (angle(r), if r.below(8) == 0 { angle(r) } else { lat(r) }, height(r));
        let mut v = [el, ph];
        spice(r, 1e9, &mut v);
        let [el, ph] = v;
        let mut v = [h, el, ph];
        if h.abs() < 1e8 { spice(r, 1e5, &mut v[..1]); }
        let h = v[0];
        let gd = Geodetic { elong: el, phi: ph, height: h };
        let e = ev("forward").f("ea", a).f("ef", f).f("elong", el).f("phi", ph).f("height", h);
        let res = call(|| EllipsoidConverter::new(&Ellipsoid { a, f }).map(|c| c.geodetic_to_geocentric(&gd)));
        out.put(match res {
            Ok(Ok(Ok(v))) => e.s("res", "ok").fs("v", &v),
            Ok(_) => e.s("res", "error").fs("v", &[f64::NAN;3]),
            Err(p) => e.s("res", "panic").s("msg", &p).fs("v", &[f64::NAN;3]),
        });
        if i % 2 == 0 {
            out.put(v1(ev("zenith").f("elong", el).f("phi", ph), "v", call(|| gd.zenith())));
        }
        if i % 3 == 0 {
            // a turn more of longitude
            let k = r.int(-3, 3) as f64;
            let g2 = Geodetic { elong: el + k*TAU, phi: ph, height: h };
            let c = EllipsoidConverter::new(&Ellipsoid { a, f });
            let e = ev("turn").f("ea", a).f("ef", f).f("elong", el).f("phi", ph).f("turns", k).f("height", h);
            let res = call(|| match c { Ok(c) => (c.geodetic_to_geocentric(&gd).ok(), c.geodetic_to_geocentric(&g2).ok()), Err(_) => (None, None) });
            out.put(match res {
                Ok((Some(u), Some(v))) => e.s("res", "ok").fs("u", &u).fs("v", &v),
                Ok(_) => e.s("res", "error").fs("u", &[f64::NAN;3]).fs("v", &[f64::NAN;3]),
                Err(p) => e.s("res", "panic").s("msg", &p).fs("u", &[f64::NAN;3]).fs("v", &[f64::NAN;3]),
            });
        }
    }
}

pub fn c19(r: &mut Rng, out: &mut Out, n: usize) {
    let mut one = |a: f64, f: f64, p: [f64;3]| {
        let e = ev("inverse").f("ea", a).f("ef", f).fs("p", &p);
        let res = call(|| EllipsoidConverter::new(&Ellipsoid { a, f }).map(|c| c.geocentric_to_geodetic(&p)));
        out.put(match res {
            Ok(Ok(g)) => e.s("res", "ok").f("elong", g.elong).f("phi", g.phi).f("height", g.height),
            Ok(Err(_)) => e.s("res", "error").f("elong", f64::NAN).f("phi", f64::NAN).f("height", f64::NAN),
            Err(p) => e.s("res", "panic").s("msg", &p).f("elong", f64::NAN).f("phi", f64::NAN).f("height", f64::NAN),
        });
    };
    let wgs = (WGS84.a, WGS84.f);
    for i in 0..n {
        let (a, f) = match i % 5 {
            0 => (10f64.powf(r.range(6.5, 8.0)), r.f()*0.005),
            1 => (6378137.0, r.pick(&[0.0, 0.005, 1.0/298.25642, 0.001])),
            _ => wgs,
        };
        // A point: along the normal at a latitude, from below the surface to far away
        let b = a*(1.0 - f);
        let ph = lat(r);
        let el = match r.below(4) { 0 => r.int(-4, 4) as f64*TAU/8.0, 1 => nudge(TAU/2.0, -r.int(0, 2)), _ => r.sym(TAU/2.0) };
        let h = match r.below(6) { 0 => 0.0, 1 => -r.f()*99000.0, 2 => 10f64.powf(r.range(0.0, 8.99)), 3 => r.sym(9000.0), 4 => r.f()*1e9, _ => r.range(0.0, 1e6) };
        let nn = a*a/((a*ph.cos()).powi(2) + (b*ph.sin()).powi(2)).sqrt();
        let p = (nn + h)*ph.cos();
        let z = (nn*(b/a)*(b/a) + h)*ph.sin();
        let p = match r.below(10) {
            0 => [0.0, 0.0, z], 1 => [p*el.cos(), p*el.sin(), 0.0], 2 => [p, 0.0, z], 3 => [-p, 0.0, z], 4 => [0.0, p, z], 5 => [0.0, -p, z],
            _ => [p*el.cos(), p*el.sin(), z],
        };
        let mut p = p;
        if i % 16 == 3 {
            let (k, l) = (r.below(3) as usize, r.below(3) as usize);
            p[k] = match r.below(6) { 0 => p[k].round(), 1 => p[k].round() + 0.5, 2 => p[l], 3 => -p[l], 4 => 0.5 - p[l], _ => r.sym(1.0) };
        }
        // stay in the domain: points projected to the equator or the axis keep a sensible distance
        let d = (p[0]*p[0] + p[1]*p[1] + p[2]*p[2]).sqrt();
        if d < b - 99999.0 { continue; }
        one(a, f, p);
    }
    let b = wgs.0*(1.0 - wgs.1);
    for s in [1.0, -1.0] {
        for h in [-90000.0, 0.0, 1.0, 1e3, 1e6, 1e9] {
            one(wgs.0, wgs.1, [0.0, 0.0, s*(b + h)]);
            one(wgs.0, wgs.1, [-0.0, 0.0, s*(b + h)]);
            for p in [1e-12, 1e-9, 1e-6, 1e-3, 1.0, 1000.0] {
                one(wgs.0, wgs.1, [p, 0.0, s*(b + h)]);
                one(wgs.0, wgs.1, [-p, p, s*(b + h)]);
            }
            one(wgs.0, wgs.1, [s*(wgs.0 + h), 0.0, 0.0]);
            one(wgs.0, wgs.1, [0.0, s*(wgs.0 + h), -0.0]);
            for z in [1e-9, 1e-6, 1e-3, 1.0] { one(wgs.0, wgs.1, [wgs.0 + h, 0.0, s*z]); }
        }
    }
}

pub fn c20(r: &mut Rng, out: &mut Out, n: usize) {
    let mut one = |a: f64, f: f64| {
        let e = ev("converter").f("ea", a).f("ef", f).b("azero", a == 0.0).b("apos", a > 0.0).b("fneg", f < 0.0);
        let res = call(|| EllipsoidConverter::new(&Ellipsoid { a, f }).map(|c| *c.ellipsoid()));
        out.put(match res {
            Ok(Ok(el)) => e.s("res", "ok").f("ra", el.a).f("rf", el.f),
            Ok(Err(x)) => e.s("res", match x {
                EllipsoidError::InvalidRadius => "InvalidRadius",
                EllipsoidError::InvalidFlattening => "InvalidFlattening",
                EllipsoidError::BadEccentricity => "BadEccentricity",
                EllipsoidError::BadCoordinates => "BadCoordinates",
                #[allow(unreachable_patterns)]
                _ => "other" }).f("ra", f64::NAN).f("rf", f64::NAN),
            Err(p) => e.s("res", "panic").s("msg", &p).f("ra", f64::NAN).f("rf", f64::NAN),
        });
    };
    let avals = [f64::NAN, f64::NEG_INFINITY, -1e300, -6378137.0, -1.0, -1e-300, -5e-324, -0.0, 0.0,
        5e-324, 1e-310, f64::MIN_POSITIVE, 1e-300, 1e-160, 1e-10, 1.0, 6378137.0, 1e8, 1e160, 1e300, f64::MAX];
    let fvals = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1e300, -1.0, -0.1, -1e-300, -5e-324, -0.0, 0.0, 5e-324, 1e-300,
        1.0/298.257223563, 0.1, 0.5, 0.9, 0.999, 0.999999, 1.0 - 1e-7, 1.0 - 1e-9, 1.0 - 1e-10, 1.0 - 1e-12, 0.9999999999999999, 1.0,
        1.0000000000000002, 1.5, 2.0, 3.0, 298.257223563, 1e300];
    for a in avals { for f in fvals { one(a, f); } }
    for k in 24..=45 { for a in [1.0, 6378137.0, 1e-8, f64::NAN, -1.0] { one(a, 1.0 - 2f64.powi(-k)); one(a, 1.0 - 3.0*2f64.powi(-k - 1)); } }
    for _ in 0..n {
        let a = match r.below(6) { 0 | 1 => r.logsym(-8.0, 12.0), 2 => 10f64.powf(r.range(-323.3, 308.2)), _ => 10f64.powf(r.range(-8.0, 12.0)) };
        let f = match r.below(5) { 0 => r.logsym(-12.0, 3.0), 1 => 1.0 - 10f64.powf(r.range(-14.0, -1.0)), 2 => 1.0 + r.f(), 3 => nudge(r.pick(&[0.0, 1.0]), r.int(-3, 3)), _ => r.f() };
        one(a, f);
    }
}

pub fn c21(r: &mut Rng, out: &mut Out, n: usize) {
    for i in 0..n {
        let el = match i % 5 {
            0 => nudge(r.int(-4, 4) as f64*TAU/2.0, r.int(-3, 3)),
            1 => r.int(-720, 720) as f64*TAU/360.0,
            2 => r.sym(20.0),
            _ => r.sym(TAU/2.0),
        };
        let el = if i % 23 == 0 { r.logsym(1.0, 6.0) } else { el };
        let ph = match i % 4 { 0 => r.int(-90, 90) as f64*TAU/360.0, 1 => r.sym(10.0), _ => lat(r) };
        let h = height(r);
        let mut v = [el, ph, h];
        spice(r, 6000.0, &mut v);
        let [el, ph, h] = v;
        let gd = Geodetic { elong: el, phi: ph, height: h };
        let e = ev("to360").f("elong", el).f("phi", ph).f("height", h);
        out.put(match call(|| { let a: Geodetic360 = (&gd).into(); let b: Geodetic360 = gd.into(); (a, b) }) {
            Ok((a, b)) => e.s("res", "ok").f("lon", a.lon).f("lat", a.lat).f("oh", a.height).b("same", a == b),
            Err(p) => e.s("res", "panic").s("msg", &p).f("lon", 0.0).f("lat", 0.0).f("oh", 0.0).b("same", true),
        });
        let (lo, la) = match i % 4 {
            0 => (r.int(-4, 4) as f64*90.0, r.int(-1, 1) as f64*90.0),
            1 => (nudge(180.0*r.int(-2, 2) as f64, r.int(-2, 2)), nudge(90.0*r.int(-1, 1) as f64, r.int(-2, 2))),
            2 => (if i % 64 == 2 { r.logsym(2.0, 6.0) } else { r.sym(1000.0) }, r.sym(1000.0)),
            _ => if i % 8 < 4 { (r.sym(180.0), r.sym(90.0)) } else { (r.int(-36, 36) as f64*15.0, r.int(-36, 36) as f64*2.5) },
        };
        let mut v = [lo, la, h];
        spice(r, 1000.0, &mut v);
        let [lo, la, h] = v;
        let g3 = Geodetic360 { lon: lo, lat: la, height: h };
        let e = ev("torad").f("lon", lo).f("lat", la).f("height", h);
        out.put(match call(|| { let a: Geodetic = (&g3).into(); let b: Geodetic = g3.into(); (a, b) }) {
            Ok((a, b)) => e.s("res", "ok").f("elong", a.elong).f("phi", a.phi).f("oh", a.height).b("same", a == b),
            Err(p) => e.s("res", "panic").s("msg", &p).f("elong", 0.0).f("phi", 0.0).f("oh", 0.0).b("same", true),
        });
    }
}
