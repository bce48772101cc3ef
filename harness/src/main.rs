//! Conformance driver: calls the real library and records what it answers,
//! in the terms of the specification; replays behaviours of the
//! specification on the real library.
mod dates;
mod enc;
mod ev;
mod gen_app;
mod gen_cal;
mod gen_num;
mod gen_total;
mod pure;
mod replay;
mod rng;

use ev::Out;
use rng::Rng;
use std::io::Write;

fn write(path: &str, lines: &[String]) {
    let f = std::fs::File::create(path).expect("create");
    let mut w = std::io::BufWriter::new(f);
    for l in lines { w.write_all(l.as_bytes()).unwrap(); w.write_all(b"\n").unwrap(); }
}

fn main() {
    ev::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("gen") => {
            // gen PROPERTY OUT SEED N TOOLDIR [digest | unlike DIGESTS LIMIT whole|apart]
            let (id, path, seed, n) = (&a[2], &a[3], a[4].parse::<u64>().unwrap(), a[5].parse::<usize>().unwrap());
            let mut rng = Rng::new(seed.wrapping_mul(1000003) ^ id.bytes().fold(7u64, |h, c| h.wrapping_mul(31) ^ c as u64));
            let r = &mut rng;
            let mut out = match a.get(7).map(|x| x.as_str()) {
                Some("digest") => Out::with(ev::Use::Digest(Vec::new())),
                Some("unlike") => {
                    let d = std::fs::read(&a[8]).expect("digests").chunks(16).map(|c| { let v = u128::from_le_bytes(c.try_into().unwrap()); (v as u64, (v >> 64) as u64) }).collect();
                    Out::unlike(d, a[9].parse().unwrap(), a[10] == "whole")
                }
                _ => Out::new(),
            };
            match id.as_str() {
                "C01" => gen_cal::c01(r, &mut out, n),
                "C02" => gen_cal::c02(r, &mut out, n),
                "C03" => gen_cal::c03(r, &mut out, n),
                "C04" => gen_cal::c04(r, &mut out, n),
                "C05" => gen_cal::c05(r, &mut out, n),
                "C06" => gen_app::c06(r, &mut out, n),
                "C07" => gen_cal::c07(r, &mut out, n),
                "C08" => gen_cal::c08(r, &mut out, n),
                "C09" => gen_num::c09(r, &mut out, n),
                "C10" => gen_num::c10(r, &mut out, n),
                "C11" => gen_num::c11(r, &mut out, n),
                "C12" => gen_num::c12(r, &mut out, n),
                "C13" => gen_num::c13(r, &mut out, n),
                "C14" => gen_num::c14(r, &mut out, n),
                "C15" => gen_num::c15(r, &mut out, n),
                "C16" => gen_num::c16(r, &mut out, n),
                "C17" => gen_num::c17(r, &mut out, n),
                "C18" => gen_num::c18(r, &mut out, n),
                "C19" => gen_num::c19(r, &mut out, n),
                "C20" => gen_num::c20(r, &mut out, n),
                "C21" => gen_num::c21(r, &mut out, n),
                "C22" => gen_app::sun(r, &mut out, n, 6),
                "C22s" => gen_app::sun_shifts(r, &mut out, n),
                "C23" => gen_app::sun(r, &mut out, n, 2),
                "C22w" | "C23w" => gen_app::sun_requests(r, &mut out, n, &a[7]),
                "C23p" => gen_app::sun_pairs(r, &mut out, n),
                "C24" => pure::c24(seed, n, 600*n, &mut out),
                "C25" => gen_app::c25(r, &mut out, n, &a[6]),
                "C26" => gen_total::total(r, &mut out, n),
                "C27" => gen_total::published(r, &mut out, n),
                "C28" => gen_cal::c28(r, &mut out, n),
                x => panic!("no generator {}", x),
            }
            let digests = out.finish();
            if !digests.is_empty() {
                let bytes: Vec<u8> = digests.iter().flat_map(|d| (d.0 as u128 | (d.1 as u128) << 64).to_le_bytes()).collect();
                std::fs::write(path, bytes).expect("digests");
            } else {
                if a.len() > 7 { println!("{} {}", out.n, out.unlike); }
                write(path, &out.lines);
            }
        }
        Some("cold") => pure::cold(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4..]),
        Some("replay") => replay::main(&a[2], &a[3], &a[4], a[5].parse().unwrap(), a[6].parse().unwrap()),
        _ => { eprintln!("usage: driver gen|cold|replay ..."); std::process::exit(2) }
    }
}
