//! Encoding of observed values into the terms of the specification.
//!
//! A double becomes an Fx number (spec/Fx.tla): `[s,l0,l1,...]`, base 2^15
//! limbs with five of them after the binary point; NaN is `[2]`, infinities
//! are `[3]` and `[-3]`.  A nonzero double below 2^-75 becomes +/-2^-75, so
//! that its sign is kept.

pub fn fx(v: f64) -> String {
    if v.is_nan() { return "[2]".into(); }
    if v.is_infinite() { return if v > 0.0 { "[3]".into() } else { "[-3]".into() }; }
    let bits = v.to_bits();
    let exp = ((bits >> 52) & 0x7ff) as i32;
    let frac = bits & ((1u64 << 52) - 1);
    let (mut m, e) = if exp == 0 { (frac, -1074) } else { (frac | (1u64 << 52), exp - 1075) };
    let sh = e + 75;
    let mut limbs: Vec<u32> = Vec::new();
    if sh < 0 {
        m = if -sh >= 64 { 0 } else { m >> (-sh) };
        while m != 0 { limbs.push((m & 32767) as u32); m >>= 15; }
    } else {
        let zl = (sh/15) as usize;
        let r = (sh % 15) as u32;
        limbs.resize(zl, 0);
        let mut w = (m as u128) << r;
        while w != 0 { limbs.push((w & 32767) as u32); w >>= 15; }
        if limbs.iter().all(|&x| x == 0) { limbs.clear(); }
    }
    if limbs.is_empty() {
        if v == 0.0 { return "[0]".into(); }
        limbs.push(1);
    }
    let mut s = String::with_capacity(8*limbs.len());
    s.push_str(if v < 0.0 { "[-1" } else { "[1" });
    for l in limbs { s.push(','); s.push_str(&l.to_string()); }
    s.push(']');
    s
}

pub fn fxs(v: &[f64]) -> String {
    let p: Vec<String> = v.iter().map(|&x| fx(x)).collect();
    format!("[{}]", p.join(","))
}

pub fn mat(m: &[[f64;3];3]) -> String {
    format!("[{},{},{}]", fxs(&m[0]), fxs(&m[1]), fxs(&m[2]))
}

pub fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 || ((c as u32) > 126 && (c as u32) < 65536) => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
