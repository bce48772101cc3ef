//! Generators of dates shared by the areas.
use crate::rng::{nudge, split, Rng};

pub const DJ00: f64 = 2451545.0;

pub fn leap(y: i64) -> bool { y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0) }
pub fn days_in(y: i64, m: i64) -> i64 {
    match m { 4 | 6 | 9 | 11 => 30, 2 => if leap(y) { 29 } else { 28 }, _ => 31 }
}

/// The Julian date of the midnight that begins a Gregorian day.
pub fn day_number(y: i64, m: i64, d: i64) -> f64 {
    let (y, m) = if m < 3 { (y - 1, m + 12) } else { (y, m) };
    (365*y + y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400) + (153*(m - 3) + 2)/5 + d) as f64 + 1721118.5
}

/// A day (integer or half-integer Julian date) and a fraction of day, within
/// `span` days of J2000, rich in special instants.
pub fn day_frac(r: &mut Rng, span: f64) -> (f64, f64) {
    let day = match r.below(9) {
        0 => DJ00 + r.int(-3, 3) as f64,
        1 => DJ00 + r.int(-36525, 36525) as f64,
        2 => 2415020.0 + r.int(-2, 2) as f64,
        3 => DJ00 - r.f()*span,
        4 => DJ00 + r.f()*span,
        5 => match r.below(4) {
            // whole centuries and years, the ends of the span
            0 => { let c = (span/36525.0).floor() as i64; DJ00 + 36525.0*r.int(-c, c) as f64 }
            1 => { let c = (span/365.25).floor() as i64; DJ00 + 365.25*r.int(-c, c) as f64 }
            2 => DJ00 + r.pick(&[-1.0, 1.0])*(span - r.int(0, 3) as f64),
            _ => DJ00 + r.logsym(0.0, span.log10()),
        },
        _ => DJ00 + r.sym(span),
    };
    let day = (day*2.0).round()/2.0;
    let frac = match r.below(10) {
        8 => { let n = r.pick(&[24, 1440, 86400]); r.int(0, n - 1) as f64/n as f64 }
        9 => r.int(1, 127) as f64/128.0,
        0 => 0.0, 1 => 0.5, 2 => 0.25,
        3 => nudge(1.0, -1), 4 => 10f64.powf(r.range(-17.0, -1.0)),
        _ => r.f(),
    };
    (day, frac)
}

/// A two-part date within `span` days of J2000.
pub fn date(r: &mut Rng, span: f64) -> (f64, f64) {
    let (d, f) = day_frac(r, span);
    // parts that nearly cancel
    if r.below(16) == 0 {
        let k = r.logsym(5.0, 8.0).round();
        return if r.coin() { (d - k, f + k) } else { (f + k, d - k) };
    }
    let (a, b) = split(r, d, f);
    if b == 0.0 && r.coin() { (a, -0.0) } else if a == 0.0 && r.coin() { (-0.0, b) } else { (a, b) }
}
