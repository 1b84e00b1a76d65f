//! C02, C04-C08, C18, C19: every accessor against the manual, on CPUs whose
//! register contents are walked, exhausted per field and randomised.
use crate::gen::*;
use crate::machine::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;
use raw_cpuid::CpuId;

fn low8(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::I(a), V::I(b)) => *a == *b & 0xff,
        _ => false,
    }
}

fn subst(c: &crate::types::Ctx) -> bool {
    c.s.iter().any(|r| r.a | r.b | r.c | r.d != 0)
}

/// The oracle: one structure of one CPU, every accessor that belongs to
/// `prop`. `skip` says which accessors the model knows to be undefined here.
pub fn check_path(p: &Path<Rd>, pi: usize, prop: &str, rd: &Rd, rep: &mut Report) -> bool {
    let m = rd.machine();
    if !(p.present)(m) || !(p.vendor_ok)(m.vend()) {
        return false;
    }
    let ctx = p.ctx(m);
    rd.set_budget(100_000);
    let cpu = match guard(|| CpuId::with_cpuid_reader(rd.clone())) {
        Ok(c) => c,
        Err(e) => {
            rep.eval(None);
            rep.viol(&format!("{}:panic", p.id), || e.clone(), m);
            return true;
        }
    };
    let mut n = 0u64;
    let mut bad: Vec<(usize, V)> = Vec::new();
    let r = {
        let mut out = |i: usize, v: V| {
            n += 1;
            if v != (p.want)(i, &ctx) {
                bad.push((i, v));
            }
        };
        (p.eval)(&cpu, &|i| (prop == "*" || p.info[i].props.contains(&prop)) && (p.defined)(i, &ctx), &mut out)
    };
    let mut k = mix(pi as u64 ^ (m.vend() as u64) << 32);
    for r in &ctx.s {
        k = mix(k ^ (r.a as u64) << 32 ^ r.b as u64);
        k = mix(k ^ (r.c as u64) << 32 ^ r.d as u64);
    }
    match r {
        Err(e) => {
            rep.eval(None);
            rep.viol(&format!("{}:panic", p.id), || e, m);
        }
        Ok(false) => {
            rep.eval(None);
            rep.viol(&format!("{}:absent", p.id), || "the CPU advertises this structure but the query returned nothing".into(), m);
        }
        Ok(true) => {
            rep.eval(if subst(&ctx) { Some(k) } else { None });
            rep.count("accessor values compared", n);
            rep.sample(|| format!("{} vendor={:?} registers={:x?} -> {} accessors agree", p.id, m.vend(), ctx.s, n));
        }
    }
    for (i, v) in bad {
        let want = (p.want)(i, &ctx);
        let tail = match &v {
            V::S(s) if s.starts_with("PANIC") => ":panic",
            _ if low8(&v, &want) => ":low8",
            _ => "",
        };
        rep.viol(
            &format!("{}.{}{}", p.id, p.info[i].name, tail),
            || format!("{}::{} returned {:?}, the manuals give {:?} for registers {:x?} on vendor {:?}", p.id, p.info[i].name, v, want, ctx.s, m.vend()),
            m,
        );
    }
    true
}

pub fn base(vendor: &[u8; 12], d: Dflt) -> Machine {
    let mut m = Machine::new(d);
    m.put(0, 0, Regs::new(0x24, 0, 0, 0));
    m.put(0x8000_0000, 0, Regs::new(0x8000_0028, 0, 0, 0));
    m.set_vendor(vendor);
    m
}

pub fn check_machine(prop: &str, rd: &Rd, paths: &[Path<Rd>], rep: &mut Report) {
    for (i, p) in paths.iter().enumerate() {
        if p.has_prop(prop) {
            check_path(p, i, prop, rd, rep);
        }
    }
}

const WALK_VENDORS: [&[u8; 12]; 5] = [INTEL, AMD, HYGON, b"CentaurHauls", b"GenuineIotel"];

fn walk(prop: &str, pi: usize, seed: u64, thorough: bool, rep: &mut Report) {
    let paths = paths::<Rd>();
    let p = &paths[pi];
    let mut rng = Rng::new(seed, 7000 + pi as u64);
    let mut bgs = vec![Dflt::Zero, Dflt::Ones, Dflt::Noise(rng.u64()), Dflt::Noise(rng.u64())];
    if thorough {
        for _ in 0..12 {
            bgs.push(Dflt::Noise(rng.u64()));
        }
    }
    for v in WALK_VENDORS {
        for &bg in &bgs {
            let mut m = base(v, bg);
            if !(p.vendor_ok)(m.vend()) {
                continue;
            }
            (p.prep)(&mut m);
            // cells written explicitly, so that a change is one bit
            for &(l, s) in p.cells {
                let r = m.get(l, s);
                m.put(l, s, r);
            }
            let rd = Rd::new(m.clone());
            current(|| format!("bit walk of {} vendor {:?} background {:?}\n{}", p.id, v, bg, m.describe()));
            check_path(p, pi, prop, &rd, rep);
            for &(l, s) in p.cells {
                for reg in 0..4 {
                    if l == 0 && reg == 0 {
                        continue;
                    }
                    let orig = m.get(l, s).get(reg);
                    // one bit flipped
                    for b in 0..32 {
                        rd.with(|m| m.upd(l, s, |r| r.set(reg, orig ^ 1 << b)));
                        if check_path(p, pi, prop, &rd, rep) {
                            rep.count("registers with one flipped bit", 1);
                        }
                    }
                    // aligned 8-bit windows
                    let full = matches!(bg, Dflt::Zero | Dflt::Noise(_)) || thorough;
                    if full && (v == INTEL || v == AMD || thorough) {
                        for w in (0..=24).step_by(4) {
                            for x in 0..256u32 {
                                rd.with(|m| m.upd(l, s, |r| r.set(reg, orig & !(255 << w) | x << w)));
                                check_path(p, pi, prop, &rd, rep);
                            }
                        }
                    }
                    // register extremes
                    for x in [0u32, 1, u32::MAX, u32::MAX - 1, 0x7fff_ffff, 0x8000_0000, 0xffff, 0xffff_0000, 0x10000] {
                        rd.with(|m| m.upd(l, s, |r| r.set(reg, x)));
                        check_path(p, pi, prop, &rd, rep);
                    }
                    rd.with(|m| m.upd(l, s, |r| r.set(reg, orig)));
                }
            }
        }
    }
}

fn exhaust(prop: &str, pi: usize, seed: u64, thorough: bool, rep: &mut Report) {
    let paths = paths::<Rd>();
    let p = &paths[pi];
    let mut rng = Rng::new(seed, 8000 + pi as u64);
    let mut done: Vec<(usize, usize, u32, u32)> = Vec::new();
    for inf in p.info.iter().filter(|i| i.props.contains(&prop) && !i.bit) {
        let Some((slot, reg, lo, hi)) = inf.field else { continue };
        let w = hi - lo + 1;
        if w <= 8 || w > if thorough { 20 } else { 16 } || done.contains(&(slot, reg, lo, hi)) {
            continue;
        }
        done.push((slot, reg, lo, hi));
        let (l, s) = p.cells[slot];
        for v in [INTEL, AMD, b"CentaurHauls"] {
            let mut m = base(v, Dflt::Noise(rng.u64()));
            if !(p.vendor_ok)(m.vend()) {
                continue;
            }
            (p.prep)(&mut m);
            for &(l, s) in p.cells {
                let r = m.get(l, s);
                m.put(l, s, r);
            }
            let rd = Rd::new(m);
            for x in 0..1u32 << w {
                rd.with(|m| m.set_bits(l, s, reg, lo, hi, x));
                check_path(p, pi, prop, &rd, rep);
            }
            if !thorough {
                break;
            }
        }
        rep.exhaustive.push(format!("{}.{}: all {} values", p.id, inf.name, 1u64 << w));
    }
}

fn random(prop: &str, job: u64, n: usize, seed: u64, rep: &mut Report) {
    let paths = paths::<Rd>();
    let mut g = Gen::new(seed, 9000 + job);
    for _ in 0..n {
        let m = g.machine();
        let rd = Rd::new(m);
        current(|| format!("random CPU\n{}", rd.machine().describe()));
        rep.count("random CPUs", 1);
        check_machine(prop, &rd, &paths, rep);
        for (i, p) in paths.iter().enumerate() {
            if p.has_prop(prop) && !(p.present)(rd.machine()) && g.rng.chance(1, 4) {
                let mut m = rd.machine().clone();
                if !(p.vendor_ok)(m.vend()) {
                    let v = *g.rng.pick(&[INTEL, AMD, HYGON, VENDORS[3]]);
                    m.set_vendor(&v);
                }
                if !(p.vendor_ok)(m.vend()) {
                    continue;
                }
                (p.prep)(&mut m);
                check_path(p, i, prop, &Rd::new(m), rep);
            }
        }
    }
}

/// C08: the whole input space of the derivation.
fn signatures(rep: &mut Report, chunk: u32) {
    let paths = paths::<Rd>();
    let p = paths.iter().find(|p| p.id == "feature_info").unwrap();
    let names = ["family_id", "model_id", "base_family_id", "base_model_id", "extended_family_id", "extended_model_id", "stepping_id"];
    let idx: Vec<usize> = names.iter().map(|n| p.info.iter().position(|i| i.name == *n).unwrap()).collect();
    let mut rng = Rng::new(1, chunk as u64);
    for v in [INTEL, AMD, HYGON, b"CentaurHauls"] {
        let mut m = base(v, Dflt::Zero);
        let r0 = m.get(0, 0);
        for lo in 0..0x1_0000u32 {
            // chunk: extended family high nibble; the rest enumerated
            let bf = lo >> 12;
            let bm = lo >> 8 & 15;
            let xm = lo >> 4 & 15;
            let xf = (lo & 15) | chunk << 4;
            let noise = rng.u32() & 0xf000_f00f;
            let a = noise | xf << 20 | xm << 16 | bf << 8 | bm << 4;
            let rd = move |l: u32, _s: u32| match l {
                0 => to_res(r0),
                1 => to_res(Regs::new(a, 0, 0, 0)),
                _ => to_res(Regs::default()),
            };
            let got = guard(|| {
                let c = CpuId::with_cpuid_fn(rd);
                c.get_feature_info().map(|f| {
                    [f.family_id(), f.model_id(), f.base_family_id(), f.base_model_id(), f.extended_family_id(), f.extended_model_id(), f.stepping_id()]
                })
            });
            m.put(1, 0, Regs::new(a, 0, 0, 0));
            let ctx = p.ctx(&m);
            rep.eval(Some(mix((m.vend() as u64) << 40 | (v[0] as u64) << 32 | (a & 0x0fff_0ff0) as u64)));
            rep.count("accessor values compared", 7);
            match got {
                Ok(Some(g)) => {
                    for (k, &i) in idx.iter().enumerate() {
                        let w = (p.want)(i, &ctx);
                        if g[k].to_v() != w {
                            rep.viol(&format!("feature_info.{}", names[k]), || format!("{} = {} for signature {:#010x} on {:?}; the derivation rule gives {:?}", names[k], g[k], a, m.vend(), w), &m);
                        }
                    }
                }
                Ok(None) => rep.viol("feature_info:absent", || "no feature information".into(), &m),
                Err(e) => {
                    let what = if e.contains("overflow") { "feature_info.family_id:panic" } else { "feature_info:panic" };
                    rep.viol(what, || format!("signature {:#010x} on {:?}: {}", a, m.vend(), e), &m)
                }
            }
        }
    }
    rep.exhaustive.push("base family x base model x extended family x extended model x {Intel, AMD, Hygon, other}".into());
}

/// C18: published signatures, their one-bit neighbours, and the frequency
/// leaf threshold.
fn hypervisors(seed: u64, thorough: bool, rep: &mut Report) {
    let paths = paths::<Rd>();
    let pi = paths.iter().position(|p| p.id == "hypervisor_info").unwrap();
    let p = &paths[pi];
    let mut rng = Rng::new(seed, 18);
    let mut maxes = vec![1u32, 2, 0x3fff_ffff, 0x4000_0000, 0x4000_0001, 0x4000_000e, 0x4000_000f, 0x4000_0010, 0x4000_0011, 0x4000_0012, 0x4000_0100, 0x7fff_ffff, 0x8000_0000, 0xc000_0010, u32::MAX];
    for b in 0..32 {
        maxes.push(0x4000_0010 ^ 1 << b);
    }
    if thorough {
        maxes.extend(0x4000_0000..0x4000_0400);
    }
    let mut sigs: Vec<[u8; 12]> = Vec::new();
    for (s, _) in crate::types::HYPERVISORS {
        sigs.push(*s);
        for b in 0..96 {
            let mut t = *s;
            t[b / 8] ^= 1 << (b % 8);
            sigs.push(t);
        }
        // registers exchanged
        for rot in [4, 8] {
            let mut t = *s;
            t.rotate_left(rot);
            sigs.push(t);
        }
        let mut t = *s;
        t.swap(0, 4);
        sigs.push(t);
        for i in 0..12 {
            let mut t = *s;
            t[i] = 0;
            sigs.push(t);
            t[i] = b' ';
            sigs.push(t);
            let mut t = *s;
            t[i] = t[i].to_ascii_uppercase();
            sigs.push(t);
            let mut t = *s;
            t[i] = t[i].to_ascii_lowercase();
            sigs.push(t);
        }
        sigs.push({
            let mut t = *s;
            t.make_ascii_lowercase();
            t
        });
    }
    sigs.push([0; 12]);
    sigs.push([0xff; 12]);
    // other published signatures, not identified by the library
    for s in [b"prl hyperv\0\0", b" lrpepyh  vr", b"VBoxVBoxVBox", b"SRESRESRESRE", b"Apple VZ\0\0\0\0", b"OpenBSDVMM58", b"EVMMEVMMEVMM", b"UnisysSpar64"] {
        sigs.push(*s);
    }
    for _ in 0..if thorough { 20000 } else { 1000 } {
        let mut t = [0; 12];
        for b in t.iter_mut() {
            *b = rng.u32() as u8
        }
        sigs.push(t);
    }
    for (k, s) in sigs.iter().enumerate() {
        for (j, &mx) in maxes.iter().enumerate() {
            if !thorough && k > 110 && (j + k) % 5 != 0 {
                continue;
            }
            let v = if k % 2 == 0 { INTEL } else { AMD };
            let mut m = base(v, if j % 2 == 0 { Dflt::Noise(rng.u64()) } else { Dflt::Zero });
            m.set_bit(1, 0, RC, 31, true);
            let w = |i: usize| u32::from_le_bytes([s[i], s[i + 1], s[i + 2], s[i + 3]]);
            m.put(0x4000_0000, 0, Regs::new(mx, w(0), w(4), w(8)));
            m.put(0x4000_0010, 0, Regs::new(rng.reg(), rng.reg(), rng.u32(), rng.u32()));
            check_path(p, pi, "C18", &Rd::new(m), rep);
            rep.count("signature/maximum-leaf pairs", 1);
        }
    }
}

/// C19: products and sums at their extremes.
fn combined(seed: u64, thorough: bool, rep: &mut Report) {
    let paths = paths::<Rd>();
    let mut rng = Rng::new(seed, 19);
    let ex = [0u32, 1, 2, 3, 0xfff, 0x1000, 0xf_ffff, 0x10_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_f000, u32::MAX - 1, u32::MAX, 24_000_000, 25_000_000, 19_200_000];
    for id in ["tsc_info", "epc_section", "processor_serial", "sgx_info"] {
        let Some(pi) = paths.iter().position(|p| p.id == id) else { panic!("no path {}", id) };
        let p = &paths[pi];
        let (l, s) = *p.cells.last().unwrap();
        for &a in &ex {
            for &b in &ex {
                for &c in &ex {
                    let mut m = base(INTEL, Dflt::Noise(a as u64 ^ 5));
                    (p.prep)(&mut m);
                    m.put(l, s, Regs::new(a, b, c, rng.pick(&ex)));
                    (p.prep)(&mut m);
                    check_path(p, pi, "C19", &Rd::new(m), rep);
                }
            }
        }
        for _ in 0..if thorough { 400_000 } else { 20_000 } {
            let mut m = base(INTEL, Dflt::Zero);
            for &(l, s) in p.cells {
                m.put(l, s, rng.regs());
            }
            (p.prep)(&mut m);
            check_path(p, pi, "C19", &Rd::new(m), rep);
        }
    }
}

pub fn run(prop: &str, seed: u64, thorough: bool) -> Report {
    let ps = paths::<Rd>();
    let mine: Vec<usize> = (0..ps.len()).filter(|&i| ps[i].has_prop(prop)).collect();
    let naccs: usize = mine.iter().map(|&i| ps[i].info.iter().filter(|x| x.props.contains(&prop)).count()).sum();
    drop(ps);
    let nrand = if thorough { 400 } else { 40 };
    let k = mine.len();
    let special = match prop {
        "C08" => 16,
        "C18" | "C19" => 1,
        _ => 0,
    };
    let mut rep = shards(prop, special + 2 * k + nrand, |i, rep| {
        if i < special {
            match prop {
                "C08" => signatures(rep, i as u32),
                "C18" => hypervisors(seed, thorough, rep),
                _ => combined(seed, thorough, rep),
            }
        } else if i < special + k {
            walk(prop, mine[i - special], seed, thorough, rep)
        } else if i < special + 2 * k {
            exhaust(prop, mine[i - special - k], seed, thorough, rep)
        } else {
            random(prop, (i - special - 2 * k) as u64, 1000, seed, rep)
        }
    });
    rep.count("structures monitored", k as u64);
    rep.count("accessors monitored", naccs as u64);
    rep.rule = "An evaluation is one structure decoded from one CPU, with every accessor of this property compared with the manual's bit assignment. CPUs: per structure, every bit of its registers flipped and every aligned 8-bit window exhausted on zero, all-ones and noise backgrounds per vendor; fields up to 16 bits exhausted; random, recorded and mutated CPUs. Non-trivial: at least one of the structure's registers is non-zero; distinct by (structure, vendor class, registers).".into();
    rep
}
