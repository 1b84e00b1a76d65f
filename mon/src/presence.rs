//! C03: structures appear exactly when the CPU advertises them.
use crate::gen::*;
use crate::machine::*;
use crate::model::*;
use crate::report::*;
use raw_cpuid::CpuId;

pub fn check_machine(rd: &Rd, qs: &[Query<Rd>], rep: &mut Report) {
    let m = rd.machine();
    rd.set_budget(200_000);
    let cpu = match guard(|| CpuId::with_cpuid_reader(rd.clone())) {
        Ok(c) => c,
        Err(e) => {
            rep.viol("construction:panic", || e, m);
            return;
        }
    };
    let mut mask = 0u64;
    for (i, q) in qs.iter().enumerate() {
        let want = (q.present)(m);
        mask |= (want as u64) << i;
        match guard(|| (q.get)(&cpu)) {
            Err(e) => rep.viol(&format!("{}:panic", q.id), || e, m),
            Ok(got) if got != want => rep.viol(
                &format!("{}:{}", q.id, if got { "unadvertised" } else { "absent" }),
                || format!("query {} returned {}, the CPU (vendor {:?}, max leaves {:#x}/{:#x}) {} it", q.id, if got { "a structure" } else { "nothing" }, m.vend(), m.max_basic(), m.max_ext(), if want { "advertises" } else { "does not advertise" }),
                m,
            ),
            _ => {}
        }
    }
    rep.count("queries compared", qs.len() as u64);
    rep.count("structures returned", mask.count_ones() as u64);
    let key = mix(mask) ^ mix(m.max_basic() as u64 | (m.max_ext() as u64) << 32) ^ mix(u64::from_le_bytes(m.vendor_bytes()[0..8].try_into().unwrap()));
    // non-trivial: at least one structure present and one absent
    rep.eval(if mask != 0 && mask.count_ones() < qs.len() as u32 { Some(key) } else { None });
    rep.sample(|| format!("vendor={:?} max={:#x}/{:#x}: {} of {} structures present, as advertised", m.vend(), m.max_basic(), m.max_ext(), mask.count_ones(), qs.len()));
}

pub fn run(seed: u64, thorough: bool) -> Report {
    let mut vendors: Vec<[u8; 12]> = VENDORS.iter().map(|v| **v).collect();
    for base in [INTEL, AMD, HYGON] {
        for b in 0..96 {
            let mut t = *base;
            t[b / 8] ^= 1 << (b % 8);
            vendors.push(t);
        }
        for r in [4, 8] {
            let mut t = *base;
            t.rotate_left(r);
            vendors.push(t);
        }
    }
    let mut basics: Vec<u32> = (0..0x28).collect();
    basics.extend([0x7f, 0xff, 0x100, 0x10007, 0x3fff_ffff, 0x4000_0010, 0x7fff_ffff, 0x8000_0000, 0x8000_0004, u32::MAX]);
    let mut exts: Vec<u32> = (0x8000_0000..0x8000_002A).collect();
    exts.extend([0, 1, 2, 0x1f, 0x26, 0x7fff_ffff, 0x8000_00ff, 0x8001_0001, 0xc000_0004, u32::MAX]);
    let nv = vendors.len();
    let nrand = if thorough { 400 } else { 40 };
    let seeds = if thorough { 6 } else { 2 };
    shards_with(nv, nrand, seeds, seed, &vendors, &basics, &exts, thorough)
}

#[allow(clippy::too_many_arguments)]
fn shards_with(nv: usize, nrand: usize, seeds: usize, seed: u64, vendors: &[[u8; 12]], basics: &[u32], exts: &[u32], thorough: bool) -> Report {
    let mut rep = shards("C03", nv + nrand + 12, |i, rep| {
        let qs = queries::<Rd>();
        if i < nv {
            let v = &vendors[i];
            let listed = i < VENDORS.len();
            let mut g = Gen::new(seed, 300 + i as u64);
            for k in 0..seeds {
                let mut m = if k == 0 { Machine::new(Dflt::Ones) } else { g.synthetic() };
                if k == 0 {
                    m.put(0, 0, Regs::default());
                }
                m.set_vendor(v);
                let rd = Rd::new(m);
                for &b in basics {
                    rd.with(|m| m.upd(0, 0, |r| r.a = b));
                    for &e in exts {
                        if !listed && !(b == 0x1f || b == 9 || e == 0x8000_0026 || e == 0x8000_000A || thorough) {
                            continue;
                        }
                        rd.with(|m| m.upd(0x8000_0000, 0, |r| r.a = e));
                        check_machine(&rd, &qs, rep);
                    }
                }
            }
        } else if i < nv + 12 {
            // every bit of every register that can decide presence
            let v = VENDORS[i - nv];
            let mut rng = Rng::new(seed, 3300 + i as u64);
            for bg in [Dflt::Zero, Dflt::Ones, Dflt::Noise(rng.u64())] {
                let m = crate::fields::base(v, bg);
                let rd = Rd::new(m.clone());
                for (l, s) in [(0u32, 0u32), (1, 0), (7, 0), (7, 1), (0x12, 0), (0x12, 1), (0xF, 0), (0xF, 1), (0x10, 0), (0x17, 0), (0x4000_0000, 0), (0x4000_0001, 0), (0x8000_0000, 0), (0x8000_0001, 0), (0x8000_000A, 0), (0x8000_0020, 0), (3, 0), (4, 0), (0x8000_001D, 0)] {
                    for reg in 0..4 {
                        let orig = m.get(l, s).get(reg);
                        for b in 0..32 {
                            rd.with(|m| m.upd(l, s, |r| r.set(reg, orig ^ 1 << b)));
                            check_machine(&rd, &qs, rep);
                            rep.count("registers with one flipped bit", 1);
                        }
                        for x in [0u32, 1, 2, 3, 4, 5, 6, 0x4000_0000, 0x4000_0010, 0x8000_0000, u32::MAX] {
                            rd.with(|m| m.upd(l, s, |r| r.set(reg, x)));
                            check_machine(&rd, &qs, rep);
                        }
                        rd.with(|m| m.upd(l, s, |r| r.set(reg, orig)));
                    }
                }
            }
        } else {
            let mut g = Gen::new(seed, 600 + i as u64);
            for _ in 0..1000 {
                let rd = Rd::new(g.machine());
                current(|| format!("queries on a random CPU\n{}", rd.machine().describe()));
                check_machine(&rd, &qs, rep);
            }
        }
    });
    rep.rule = "An evaluation is one CPU on which all 50 queries (39 of the decoder, 11 of nested structures) are compared with the advertised leaves and prerequisites: 12 vendor strings and 294 near-misses of the recognised ones x maximum basic leaf x maximum extended leaf, every bit of every register that can decide presence, and random/recorded/mutated CPUs. Non-trivial: some structures present and some absent; distinct by (vendor, maxima, set present).".into();
    rep
}
