//! Event records: one JSON object per observed call, one per line.
use crate::enc;
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

enum Val { F(f64), Fs(Vec<f64>), M([[f64;3];3]), I(i64), S(String), Ss(Vec<String>), B(bool), Raw(String) }
pub struct Ev(String, Vec<(String, Val)>);
pub fn ev(op: &str) -> Ev { Ev(op.into(), Vec::with_capacity(8)) }
impl Ev {
    fn put(mut self, k: &str, v: Val) -> Self { self.1.push((k.into(), v)); self }
    pub fn f(self, k: &str, v: f64) -> Self { self.put(k, Val::F(v)) }
    pub fn fs(self, k: &str, v: &[f64]) -> Self { self.put(k, Val::Fs(v.to_vec())) }
    pub fn m(self, k: &str, v: &[[f64;3];3]) -> Self { self.put(k, Val::M(*v)) }
    pub fn i(self, k: &str, v: i64) -> Self { self.put(k, Val::I(v)) }
    pub fn s(self, k: &str, v: &str) -> Self { self.put(k, Val::S(v.into())) }
    pub fn ss(self, k: &str, v: &[String]) -> Self { self.put(k, Val::Ss(v.to_vec())) }
    pub fn b(self, k: &str, v: bool) -> Self { self.put(k, Val::B(v)) }
    pub fn raw(self, k: &str, v: &str) -> Self { self.put(k, Val::Raw(v.into())) }
    pub fn done(&self) -> String {
        let mut r = format!("{{\"op\":{}", enc::jstr(&self.0));
        for (k, v) in &self.1 {
            let t = match v {
                Val::F(v) => enc::fx(*v),
                Val::Fs(v) => enc::fxs(v),
                Val::M(v) => enc::mat(v),
                Val::I(v) => v.to_string(),
                Val::S(v) => enc::jstr(v),
                Val::Ss(v) => { let p: Vec<String> = v.iter().map(|x| enc::jstr(x)).collect(); format!("[{}]", p.join(",")) }
                Val::B(v) => v.to_string(),
                Val::Raw(v) => v.clone(),
            };
            r.push_str(",\""); r.push_str(k); r.push_str("\":"); r.push_str(&t);
        }
        r.push('}');
        r
    }
    /// Numbers that tell apart events which are written differently; the
    /// second is the same when numbers differ by roundings only (mostly).
    fn digest(&self) -> (u64, u64) { (self.digest_of(false), self.digest_of(true)) }
    fn digest_of(&self, coarse: bool) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut eat = |v: u64| { h = (h ^ v).wrapping_mul(0x100000001b3); h ^= h >> 29; h = h.wrapping_mul(0xBF58476D1CE4E5B9); h ^= h >> 32; };
        let bits = |v: f64| if v.is_nan() { 1 } else if coarse {
            if v.abs() < 1.0 { (v*1e10 + 0.37).floor() as i64 as u64 } else { (v.to_bits() + 0x155555) >> 22 }
        } else if v == 0.0 { 0 } else { v.to_bits() };
        fn text(v: &str) -> u64 { v.bytes().fold(7u64, |h, c| h.wrapping_mul(0x100000001b3) ^ c as u64) }
        eat(text(&self.0));
        for (_, v) in &self.1 {
            match v {
                Val::F(v) => eat(bits(*v)),
                Val::Fs(v) => { eat(v.len() as u64); for x in v { eat(bits(*x)); } }
                Val::M(v) => for x in v.iter().flatten() { eat(bits(*x)); },
                Val::I(v) => eat(*v as u64),
                Val::S(v) | Val::Raw(v) => eat(text(v)),
                Val::Ss(v) => { eat(v.len() as u64); for x in v { eat(text(x)); } }
                Val::B(v) => eat(*v as u64),
            }
        }
        h
    }
}

/// What becomes of the events.
pub enum Use {
    /// All of them are written.
    Keep,
    /// Only their digests are.
    Digest(Vec<(u64, u64)>),
    /// Only those whose digest is not the one given are written, at most so
    /// many of an operation for each of the two digests; a session is written
    /// whole.
    Unlike { digests: Vec<(u64, u64)>, limit: usize, kept: HashMap<(String, bool), usize>, session: Vec<Ev>, unlike: [bool;2], whole: bool },
}
pub struct Out { pub lines: Vec<String>, pub n: usize, pub unlike: usize, to: Use }
impl Out {
    pub fn new() -> Self { Out::with(Use::Keep) }
    pub fn with(to: Use) -> Self { Out { lines: Vec::new(), n: 0, unlike: 0, to } }
    pub fn unlike(digests: Vec<(u64, u64)>, limit: usize, whole: bool) -> Self {
        Out::with(Use::Unlike { digests, limit, kept: HashMap::new(), session: Vec::new(), unlike: [false;2], whole })
    }
    pub fn put(&mut self, e: Ev) {
        let i = self.n;
        self.n += 1;
        if let Use::Unlike { whole: true, .. } = self.to { if e.0 == "new" { self.end_session(); } }
        match &mut self.to {
            Use::Keep => self.lines.push(e.done()),
            Use::Digest(v) => v.push(e.digest()),
            Use::Unlike { digests, limit, kept, session, unlike, whole } => {
                let (fine, coarse) = e.digest();
                let (f, c) = digests.get(i).cloned().unwrap_or((0, 0));
                if f != fine { self.unlike += 1; }
                if *whole {
                    unlike[0] |= f != fine;
                    unlike[1] |= c != coarse;
                    session.push(e);
                } else if f != fine {
                    let k = kept.entry((e.0.clone(), c != coarse)).or_insert(0);
                    *k += 1;
                    if *k <= *limit { self.lines.push(e.done()); }
                }
            }
        }
    }
    fn end_session(&mut self) {
        if let Use::Unlike { kept, session, unlike, limit, .. } = &mut self.to {
            if unlike[0] {
                let k = kept.entry(("new".into(), unlike[1])).or_insert(0);
                *k += 1;
                if *k <= *limit { self.lines.extend(session.iter().map(|e| e.done())); }
            }
            session.clear();
            *unlike = [false;2];
        }
    }
    pub fn finish(&mut self) -> &[(u64, u64)] {
        if let Use::Unlike { whole: true, .. } = self.to { self.end_session(); }
        match &self.to { Use::Digest(v) => v, _ => &[] }
    }
}

thread_local!{ pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

/// Run a call of the code under test.  A panic is an observation.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i);
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
