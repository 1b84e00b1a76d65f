//! C02: identification strings.
use crate::fields::{base, check_path};
use crate::gen::*;
use crate::machine::*;
use crate::model::*;
use crate::report::*;
use raw_cpuid::CpuId;

/// What an accessor of a string type must also satisfy beyond its value: the
/// slice is valid UTF-8 and lies inside the value it was borrowed from, and
/// Display shows it.
pub fn memory(rd: &Rd, rep: &mut Report) {
    let m = rd.machine();
    let inside = |s: &str, lo: usize, len: usize, fallback: &str| {
        let p = s.as_ptr() as usize;
        (p >= lo && p + s.len() <= lo + len) || s == fallback || s.is_empty()
    };
    let r = guard(|| {
        let mut bad = Vec::new();
        let c = CpuId::with_cpuid_reader(rd.clone());
        macro_rules! one {
            ($v:expr, $name:literal, $fb:literal) => {
                if let Some(x) = $v {
                    let s = x.as_str();
                    let bytes = unsafe { std::slice::from_raw_parts(s.as_ptr(), s.len()) };
                    if std::str::from_utf8(bytes).is_err() {
                        bad.push((concat!($name, ":not-utf8"), format!("{:x?}", bytes)));
                    } else {
                        if !inside(s, &x as *const _ as usize, std::mem::size_of_val(&x), $fb) {
                            bad.push((concat!($name, ":outside"), format!("{:?}", s)));
                        }
                        let t = x.as_str().to_string();
                        if s != t {
                            bad.push((concat!($name, ":unstable"), format!("{:?} then {:?}", s, t)));
                        }
                    }
                }
            };
        }
        one!(c.get_vendor_info(), "vendor_info", "InvalidVendorString");
        one!(c.get_processor_brand_string(), "processor_brand_string", "Invalid Processor Brand String");
        one!(c.get_soc_vendor_info().and_then(|s| s.get_vendor_brand()), "soc_vendor_brand", "InvalidSoCVendorString");
        if let Some(v) = c.get_vendor_info() {
            let d = format!("{}", v);
            if d != v.as_str() {
                bad.push(("vendor_info:display", format!("{:?} shown as {:?}", v.as_str(), d)));
            }
        }
        if let Some(v) = c.get_soc_vendor_info().and_then(|s| s.get_vendor_brand()) {
            let d = format!("{}", v);
            if d != v.as_str() {
                bad.push(("soc_vendor_brand:display", format!("{:?} shown as {:?}", v.as_str(), d)));
            }
        }
        bad
    });
    match r {
        Err(e) => rep.viol("strings:panic", || e, m),
        Ok(b) => {
            for (sig, d) in b {
                rep.viol(sig, || d, m);
            }
        }
    }
    rep.count("string slices checked for validity and bounds", 3);
}

fn check(rd: &Rd, ps: &[Path<Rd>], rep: &mut Report) {
    for (i, p) in ps.iter().enumerate() {
        if p.has_prop("C02") {
            check_path(p, i, "C02", rd, rep);
        }
    }
    memory(rd, rep);
}

pub fn workload(seed: u64, job: usize, n: usize, rep: &mut Report) {
    let ps = paths::<Rd>();
    let mut rng = Rng::new(seed, 200 + job as u64);
    let rd = Rd::new(base(INTEL, Dflt::Zero));
    for _ in 0..n {
        let (a, b, c) = (fill(&mut rng, 12), fill(&mut rng, 48), fill(&mut rng, 48));
        rd.with(|m| place(m, &a, &b, &c));
        current(|| format!("strings\n{}", rd.machine().describe()));
        check(&rd, &ps, rep);
        rep.count("string contents", 1);
    }
}

/// For an interpreter: the library's own work on each content, little else.
pub fn small(seed: u64, n: usize, rep: &mut Report) {
    let mut rng = Rng::new(seed, 222);
    let mut edge = pieces();
    edge.sort_by_key(|p| std::cmp::Reverse(p.len()));
    for k in 0..n {
        let (mut a, mut b, mut c) = (fill(&mut rng, 12), fill(&mut rng, 48), fill(&mut rng, 48));
        // an edge sequence cut by, or touching, the end or the start
        let p = &edge[k % edge.len()];
        for v in [&mut a, &mut b, &mut c] {
            let (n, keep) = (v.len(), 1 + k / 2 % p.len());
            match k % 4 {
                0 => v[n - keep..].copy_from_slice(&p[..keep]),
                1 => v[..p.len()].copy_from_slice(p),
                2 => v.fill(0xff),
                _ => {}
            }
        }
        let mut m = base(INTEL, Dflt::Zero);
        place(&mut m, &a, &b, &c);
        memory(&Rd::new(m), rep);
        rep.eval(Some(mix(seed) ^ k as u64));
        rep.count("string contents interpreted", 1);
    }
}

/// Each byte value at each position of each string.
fn positions(seed: u64, job: usize, rep: &mut Report) {
    let ps = paths::<Rd>();
    let mut rng = Rng::new(seed, 250 + job as u64);
    let rd = Rd::new(base(INTEL, Dflt::Zero));
    for pos in 0..48 {
        for x in 0..=255u8 {
            if x as usize % 8 != job {
                continue;
            }
            for bg in [b'A', 0, b' ', 1] {
                let mk = |n: usize, rng: &mut Rng| -> Vec<u8> {
                    let mut v: Vec<u8> = (0..n).map(|k| match bg {
                        b'A' => b'A' + (k % 26) as u8,
                        1 => 0x21 + rng.below(0x5e) as u8,
                        b => b,
                    }).collect();
                    v[pos % n] = x;
                    v
                };
                let (a, b, c) = (mk(12, &mut rng), mk(48, &mut rng), mk(48, &mut rng));
                rd.with(|m| place(m, &a, &b, &c));
                check(&rd, &ps, rep);
            }
        }
    }
    // each multi-byte piece at each offset
    for p in pieces() {
        for off in 0..48usize {
            if off % 8 != job {
                continue;
            }
            let mk = |n: usize, fillb: u8| -> Vec<u8> {
                let mut v = vec![fillb; n];
                for (k, b) in p.iter().enumerate() {
                    if off % n + k < n {
                        v[off % n + k] = *b;
                    }
                }
                v
            };
            for f in [b'x', b' ', 0] {
                let (a, b, c) = (mk(12, f), mk(48, f), mk(48, f));
                rd.with(|m| place(m, &a, &b, &c));
                check(&rd, &ps, rep);
                rep.count("multi-byte sequences placed", 1);
            }
        }
    }
    if job == 0 {
        rep.exhaustive.push("each byte value at each position of each string on four backgrounds".into());
    }
}

pub fn run(seed: u64, thorough: bool) -> Report {
    let n = if thorough { 400 } else { 64 };
    let mut rep = shards("C02", 8 + n + 1, |i, rep| {
        if i < 8 {
            positions(seed, i, rep)
        } else if i < 8 + n {
            workload(seed, i, 2000, rep)
        } else {
            let ps = paths::<Rd>();
            let mut g = Gen::new(seed, 77);
            for _ in 0..4000 {
                let rd = Rd::new(g.machine());
                check(&rd, &ps, rep);
            }
        }
    });
    rep.rule = "An evaluation is one identification string decoded from one CPU and compared with the byte-level reference (order, NUL cut, trimming, fallback); the returned slice is also checked to be valid UTF-8 lying inside the value. Contents: each byte at each position, each UTF-8 edge sequence at each offset (crossing register boundaries), random mixtures. Non-trivial: a non-zero source register; distinct by (string, registers).".into();
    rep
}
