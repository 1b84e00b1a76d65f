//! C09, C10: sub-leaf enumerations and cache descriptors.
use crate::gen::*;
use crate::machine::*;
use crate::model::*;
use crate::report::*;
use crate::types as ty;
use crate::types::{Acc, Ctx};
use crate::val::*;
use raw_cpuid::{self as rc, CpuId};

/// Save-state components Intel/AMD define, by the register that enumerates
/// them (SDM vol. 1 ch. 13, APM vol. 3 leaf 0xD).
const XCR0_KNOWN: u32 = 0b10_0110_0000_0010_1111_1111 & 0x6_22ff;
const XSS_KNOWN: u32 = 1 << 8 | 0x1_fc00;

struct Xs {
    acc: Vec<Acc<rc::ExtendedState>>,
}
pub struct Oracle {
    cp: Vec<Acc<rc::CacheParameter>>,
    tl: Vec<Acc<rc::ExtendedTopologyLevel>>,
    xs: Xs,
    epc: Vec<Acc<rc::EpcSection>>,
    dat: Vec<Acc<rc::DatInfo>>,
    ect: Vec<Acc<rc::ExtendedCpuTopologyLevel>>,
}

impl Oracle {
    pub fn new() -> Oracle {
        Oracle {
            cp: ty::cache_parameter::<Rd>(),
            tl: ty::extended_topology_level::<Rd>(),
            xs: Xs { acc: ty::extended_state::<Rd>() },
            epc: ty::epc_section::<Rd>(),
            dat: ty::dat_info::<Rd>(),
            ect: ty::extended_cpu_topology_level::<Rd>(),
        }
    }
}

const CAP: u32 = 10_000;

/// The sub-leaves a terminator-ended enumeration reports.
fn until(m: &Machine, leaf: u32, from: u32, ok: fn(Regs) -> bool) -> Option<Vec<u32>> {
    let mut v = Vec::new();
    for s in from..from + CAP {
        if !ok(m.get(leaf, s)) {
            return Some(v);
        }
        v.push(s);
    }
    None // not finite within the cap: outside the property
}

pub fn expected_cache(m: &Machine) -> Option<(u32, Vec<u32>)> {
    let l = m.cache_leaf()?;
    Some((l, until(m, l, 0, |r| (1..=3).contains(&(r.a & 31)))?))
}
pub fn expected_topo(m: &Machine, leaf: u32) -> Option<Vec<u32>> {
    if !m.has(leaf) {
        return None;
    }
    until(m, leaf, 0, |r| (1..=5).contains(&(r.c >> 8 & 255)))
}
pub fn expected_sgx(m: &Machine) -> Option<Vec<u32>> {
    if !(m.has(0x12) && m.has(7) && m.bit(7, 0, RB, 2)) {
        return None;
    }
    until(m, 0x12, 2, |r| r.a & 15 == 1)
}
pub fn expected_ect(m: &Machine) -> Option<Vec<u32>> {
    if !m.has(0x8000_0026) {
        return None;
    }
    until(m, 0x8000_0026, 0, |r| r.c >> 8 & 255 != 0)
}
pub fn expected_dat(m: &Machine) -> Option<Vec<u32>> {
    if !m.has(0x18) {
        return None;
    }
    let max = m.get(0x18, 0).a;
    if max > CAP {
        return None;
    }
    Some((0..=max).filter(|&s| m.get(0x18, s).d & 31 != 0).collect())
}
pub fn expected_soc(m: &Machine) -> Option<Vec<u32>> {
    if !m.has(0x17) {
        return None;
    }
    let max = m.get(0x17, 0).a;
    if max <= 3 || max > CAP {
        return None;
    }
    Some((4..=max).collect())
}

fn drive<T>(name: &str, rd: &Rd, it: Result<Option<Box<dyn Iterator<Item = T> + '_>>, String>, subs: &[u32], leaf: u32, rep: &mut Report, mut item: impl FnMut(&T, u32) -> Option<String>) {
    let m = rd.machine();
    let regs: Vec<Regs> = subs.iter().map(|&s| m.get(leaf, s)).collect();
    let mut key = mix(leaf as u64);
    for (s, r) in subs.iter().zip(&regs) {
        key = mix(key ^ mix(*s as u64) ^ mix((r.a as u64) << 32 | r.b as u64) ^ mix((r.c as u64) << 32 | r.d as u64).rotate_left(9));
    }
    rep.eval(if !subs.is_empty() { Some(key) } else { None });
    rep.count(&format!("{} walks", name), 1);
    rep.count(&format!("{} entries compared", name), subs.len() as u64);
    rep.max(&format!("max {} entries in one walk", name), subs.len() as u64);
    let mut it = match it {
        Err(e) => return rep.viol(&format!("{}:panic", name), || e, m),
        Ok(None) => return rep.viol(&format!("{}:absent", name), || "iterator not returned although the leaf is advertised".into(), m),
        Ok(Some(it)) => it,
    };
    let mut k = 0usize;
    loop {
        let x = match guard(|| it.next()) {
            Err(e) => return rep.viol(&format!("{}:panic", name), || e, m),
            Ok(x) => x,
        };
        match x {
            None => {
                if k < subs.len() {
                    rep.viol(&format!("{}:short", name), || format!("{} entries yielded, the CPU reports sub-leaves {:?} of leaf {:#x}", k, subs, leaf), m);
                }
                return;
            }
            Some(x) => {
                if k >= subs.len() {
                    return rep.viol(&format!("{}:extra", name), || format!("an entry yielded after the end of the enumeration; the CPU reports sub-leaves {:?} of leaf {:#x}", subs, leaf), m);
                }
                match guard(|| item(&x, subs[k])) {
                    Err(e) => return rep.viol(&format!("{}:panic", name), || e, m),
                    Ok(Some(e)) => return rep.viol(&format!("{}:entry", name), || format!("entry {} is not sub-leaf {} of leaf {:#x}: {}", k, subs[k], leaf, e), m),
                    Ok(None) => {}
                }
                k += 1;
            }
        }
    }
}

fn cmp<T>(accs: &[Acc<T>], x: &T, ctx: &Ctx) -> Option<String> {
    for a in accs {
        let got = (a.get)(x);
        let want = a.want.eval(ctx);
        if got != want {
            return Some(format!("{} = {:?}, its registers {:x?} give {:?}", a.name, got, ctx.s, want));
        }
    }
    None
}

pub fn check_machine(o: &Oracle, rd: &Rd, rep: &mut Report) {
    let m = rd.machine();
    let v = m.vend();
    rd.set_budget(1_000_000);
    let cpu = match guard(|| CpuId::with_cpuid_reader(rd.clone())) {
        Ok(c) => c,
        Err(e) => return rep.viol("construction:panic", || e, m),
    };
    let ctx = |l: u32, s: u32| Ctx::new(vec![m.get(l, s)], v);
    macro_rules! bx {
        ($e:expr) => {
            guard(|| $e.map(|i| Box::new(i) as Box<dyn Iterator<Item = _>>))
        };
    }
    if let Some((l, subs)) = expected_cache(m) {
        drive("cache parameters", rd, bx!(cpu.get_cache_parameters()), &subs, l, rep, |x, s| cmp(&o.cp, x, &ctx(l, s)));
    }
    if let Some(subs) = expected_topo(m, 0xB) {
        drive("extended topology", rd, bx!(cpu.get_extended_topology_info()), &subs, 0xB, rep, |x, s| cmp(&o.tl, x, &ctx(0xB, s)));
    }
    if let Some(subs) = expected_topo(m, 0x1F) {
        drive("extended topology v2", rd, bx!(cpu.get_extended_topology_info_v2()), &subs, 0x1F, rep, |x, s| cmp(&o.tl, x, &ctx(0x1F, s)));
    }
    if let Some(subs) = expected_sgx(m) {
        drive("SGX sections", rd, bx!(cpu.get_sgx_info().map(|x| x.iter())), &subs, 0x12, rep, |x, s| {
            let rc::SgxSectionInfo::Epc(e) = x;
            cmp(&o.epc, e, &ctx(0x12, s))
        });
    }
    if let Some(subs) = expected_dat(m) {
        drive("address translation", rd, bx!(cpu.get_deterministic_address_translation_info()), &subs, 0x18, rep, |x, s| cmp(&o.dat, x, &ctx(0x18, s)));
    }
    if let Some(subs) = expected_soc(m) {
        drive("SoC attributes", rd, bx!(cpu.get_soc_vendor_info().and_then(|x| x.get_vendor_attributes())), &subs, 0x17, rep, |x: &rc::CpuIdResult, s| {
            let w = to_res(m.get(0x17, s)).to_v();
            if x.to_v() != w {
                Some(format!("registers {:?}, expected {:?}", x.to_v(), w))
            } else {
                None
            }
        });
    }
    if let Some(subs) = expected_ect(m) {
        drive("extended CPU topology", rd, bx!(cpu.get_extended_cpu_topology()), &subs, 0x8000_0026, rep, |x, s| cmp(&o.ect, x, &ctx(0x8000_0026, s)));
    }
    if m.has(0xD) {
        states(o, m, &cpu, rep);
    }
    ways(rd, &cpu, rep);
}

/// The enumerations that end, consumed in ways chosen by the CPU's contents.
fn ways(rd: &Rd, cpu: &Cpu, rep: &mut Report) {
    let m = rd.machine();
    let mut rng = Rng::new(m.fingerprint(), 0xada);
    if !rng.chance(1, 4) {
        return;
    }
    let few = 3;
    macro_rules! go {
        ($f:ident, $name:expr, $get:expr) => {
            crate::adapt::$f($name, few, &mut rng, &|| $get, |x| format!("{:?}", x), m, rep)
        };
    }
    if expected_cache(m).is_some() {
        go!(probe_clone, "cache parameters", cpu.get_cache_parameters());
    }
    if expected_topo(m, 0xB).is_some() {
        go!(probe_clone, "extended topology", cpu.get_extended_topology_info());
    }
    if expected_topo(m, 0x1F).is_some() {
        go!(probe_clone, "extended topology v2", cpu.get_extended_topology_info_v2());
    }
    if expected_sgx(m).is_some() {
        let s = cpu.get_sgx_info();
        go!(probe_clone, "SGX sections", s.as_ref().map(|x| x.iter()));
    }
    if expected_dat(m).is_some() {
        go!(probe_clone, "address translation", cpu.get_deterministic_address_translation_info());
    }
    if expected_soc(m).is_some() {
        let s = cpu.get_soc_vendor_info();
        go!(probe, "SoC attributes", s.as_ref().and_then(|x| x.get_vendor_attributes()));
    }
    if expected_ect(m).is_some() {
        go!(probe_clone, "extended CPU topology", cpu.get_extended_cpu_topology());
    }
    if m.has(0xD) {
        let s = cpu.get_extended_state_info();
        go!(probe_clone, "save-state components", s.as_ref().map(|x| x.iter()));
    }
}

/// Save-state components: the architecturally known ones must appear, bits
/// that are not set must not, other set bits may.
fn states(o: &Oracle, m: &Machine, cpu: &Cpu, rep: &mut Report) {
    let name = "save-state components";
    let xcr0 = m.get(0xD, 0).a;
    let xss = m.get(0xD, 1).c;
    let must = ((xcr0 & XCR0_KNOWN) | (xss & XSS_KNOWN)) & !3;
    let may = (xcr0 | xss) & !3;
    rep.eval(if may != 0 { Some(mix((xcr0 as u64) << 32 | xss as u64) ^ m.fingerprint()) } else { None });
    rep.count(&format!("{} walks", name), 1);
    let got = guard(|| cpu.get_extended_state_info().map(|x| x.iter().take(100).collect::<Vec<_>>()));
    let v = match got {
        Err(e) => return rep.viol(&format!("{}:panic", name), || e, m),
        Ok(None) => return rep.viol(&format!("{}:absent", name), || "no save-state information".into(), m),
        Ok(Some(v)) => v,
    };
    rep.count(&format!("{} entries compared", name), v.len() as u64);
    let mut prev = 1;
    let mut seen = 0u32;
    for x in &v {
        let s = x.subleaf;
        if s <= prev || s > 31 {
            return rep.viol(&format!("{}:order", name), || format!("sub-leaf {} after sub-leaf {}", s, prev), m);
        }
        prev = s;
        seen |= 1 << s;
        if may >> s & 1 == 0 {
            return rep.viol(&format!("{}:extra", name), || format!("component {} yielded; XCR0 mask {:#x}, XSS mask {:#x}", s, xcr0, xss), m);
        }
        let mut c = Ctx::new(vec![m.get(0xD, s)], m.vend());
        c.aux = s as u64;
        match guard(|| cmp(&o.xs.acc, x, &c)) {
            Err(e) => return rep.viol(&format!("{}:panic", name), || e, m),
            Ok(Some(e)) => return rep.viol(&format!("{}:entry", name), || format!("component {}: {}", s, e), m),
            Ok(None) => {}
        }
    }
    if must & !seen != 0 {
        rep.viol(&format!("{}:short", name), || format!("components {:#x} missing; XCR0 mask {:#x}, XSS mask {:#x}, yielded {:#x}", must & !seen, xcr0, xss, seen), m);
    }
}

pub fn run_c09(seed: u64, thorough: bool) -> Report {
    let n = if thorough { 800 } else { 100 };
    let mut rep = shards("C09", n + 8, |i, rep| {
        let o = Oracle::new();
        if i < 8 {
            let mut rng = Rng::new(seed, 99 + i as u64);
            // exhaustive terminators: every type byte at every early position
            for v in [INTEL, AMD, HYGON, b"CentaurHauls"] {
                for pos in 0..if thorough { 12 } else { 6 } {
                    for t in 0..256u32 {
                        if t % 8 != i as u32 {
                            continue;
                        }
                        let mut m = crate::fields::base(v, Dflt::Noise(rng.u64()));
                        m.set_bit(7, 0, RB, 2, true);
                        for s in 0..=pos + 1 {
                            for l in [4u32, 0x8000_001D] {
                                m.upd(l, s, |r| r.a = r.a & !31 | if s < pos { 1 + s % 3 } else if s == pos { t & 31 } else { 0 });
                            }
                            for l in [0xBu32, 0x1F] {
                                m.upd(l, s, |r| r.c = r.c & !0xff00 | if s < pos { 1 + s % 5 } else if s == pos { t } else { 0 } << 8);
                            }
                            m.upd(0x8000_0026, s, |r| r.c = r.c & !0xff00 | if s < pos { 1 + s % 5 } else if s == pos { t } else { 0 } << 8);
                            m.upd(0x12, 2 + s, |r| r.a = r.a & !15 | if s < pos { 1 } else if s == pos { t & 15 } else { 0 });
                            m.upd(0x18, s, |r| r.d = r.d & !31 | if s == pos { t & 31 } else { rng.below(4) });
                        }
                        m.upd(0x18, 0, |r| r.a = pos + 1);
                        m.upd(0x17, 0, |r| r.a = t);
                        let rd = Rd::new(m);
                        current(|| format!("enumerations\n{}", rd.machine().describe()));
                        check_machine(&o, &rd, rep);
                        rep.count("terminator cases", 1);
                    }
                }
            }
            // single and paired save-state bits
            for a in 0..33u32 {
                for b in 0..33u32 {
                    if (a + b) % 8 != i as u32 {
                        continue;
                    }
                    let mut m = crate::fields::base(INTEL, Dflt::Noise(rng.u64()));
                    let bit = |x: u32| if x == 32 { 0 } else { 1u32 << x };
                    m.upd(0xD, 0, |r| r.a = bit(a));
                    m.upd(0xD, 1, |r| r.c = bit(b));
                    states(&o, &m, &CpuId::with_cpuid_reader(Rd::new(m.clone())), rep);
                    m.upd(0xD, 0, |r| r.a = bit(a) | bit(b));
                    m.upd(0xD, 1, |r| r.c = 0);
                    states(&o, &m, &CpuId::with_cpuid_reader(Rd::new(m.clone())), rep);
                    m.upd(0xD, 1, |r| r.c = bit(a) | bit(b));
                    m.upd(0xD, 0, |r| r.a = 0);
                    states(&o, &m, &CpuId::with_cpuid_reader(Rd::new(m.clone())), rep);
                    m.upd(0xD, 0, |r| r.a = !bit(a));
                    m.upd(0xD, 1, |r| r.c = !bit(b));
                    states(&o, &m, &CpuId::with_cpuid_reader(Rd::new(m.clone())), rep);
                    rep.count("save-state mask cases", 4);
                }
            }
        } else {
            let mut g = Gen::new(seed, 2000 + i as u64);
            for _ in 0..250 {
                let mut m = g.machine();
                if g.rng.chance(2, 3) {
                    // make every enumeration visible
                    m.at_least(0x1f);
                    m.at_least(0x8000_0026);
                    m.set_bit(7, 0, RB, 2, true);
                }
                if g.rng.chance(1, 10) {
                    // long enumerations: more entries than any 8-bit counter holds
                    let k = g.rng.range(250, 600);
                    for s in 0..k {
                        for (l, from) in [(4u32, 0), (0x8000_001D, 0), (0xB, 0), (0x1F, 0), (0x8000_0026, 0), (0x12, 2), (0x18, 0), (0x17, 4)] {
                            let x = g.rng.regs();
                            m.put(l, from + s, x);
                            m.upd(l, from + s, |r| match l {
                                4 | 0x8000_001D => r.a = r.a & !31 | if s + 1 == k { 0 } else { 1 },
                                0xB | 0x1F => r.c = r.c & !0xff00 | if s + 1 == k { 0 } else { 0x200 },
                                0x8000_0026 => r.c = r.c & !0xff00 | if s + 1 == k { 0 } else { 0x200 },
                                0x12 => r.a = r.a & !15 | if s + 1 == k { 0 } else { 1 },
                                _ => {}
                            });
                        }
                    }
                    m.upd(0x18, 0, |r| r.a = k - 1);
                    m.upd(0x17, 0, |r| r.a = k);
                    rep.count("long enumerations", 1);
                }
                let rd = Rd::new(m);
                current(|| format!("enumerations of a random CPU\n{}", rd.machine().describe()));
                check_machine(&o, &rd, rep);
                rep.count("random CPUs", 1);
            }
        }
    });
    rep.rule = "An evaluation is one walk of one sub-leaf iterator, compared entry by entry (every accessor of every entry) with the sub-leaves the CPU reports as valid. CPUs: every type byte at each early position per enumeration with noise behind the terminator, single and paired save-state bits, random/recorded/mutated trees, and trees of 250-600 entries. Non-trivial: at least one valid entry; distinct by (leaf, sub-leaves, registers).".into();
    rep
}

// --------------------------------------------------------------------- C10

/// The descriptors Intel documents for leaf 2 (SDM vol. 2A, table 3-12):
/// code, kind, description.
pub fn descriptors() -> &'static [(u8, &'static str, &'static str)] {
    crate::desc::TABLE
}

/// Descriptor bytes of leaf 2, in register order.
fn bytes(r: Regs) -> Vec<u8> {
    let mut v = Vec::new();
    for (i, x) in [r.a, r.b, r.c, r.d].into_iter().enumerate() {
        if x >> 31 == 1 {
            continue; // register holds no descriptors
        }
        for (j, b) in x.to_le_bytes().into_iter().enumerate() {
            if i == 0 && j == 0 {
                continue;
            }
            v.push(b);
        }
    }
    v
}

pub fn check_desc(rd: &Rd, rep: &mut Report) {
    let m = rd.machine();
    if !m.has_not_amd(2) {
        return;
    }
    let r = m.get(2, 0);
    let mut want: Vec<(u8, &str, &str)> = Vec::new();
    for b in bytes(r) {
        if let Some(d) = descriptors().iter().find(|d| d.0 == b && b != 0) {
            want.push(*d);
        }
    }
    rep.eval(if want.is_empty() { None } else { Some(mix((r.a as u64) << 32 | r.b as u64) ^ mix(mix((r.c as u64) << 32 | r.d as u64))) });
    rep.count("descriptors expected", want.len() as u64);
    rd.set_budget(1000);
    let got = guard(|| {
        let c = CpuId::with_cpuid_reader(rd.clone());
        c.get_cache_info().map(|it| it.take(64).map(|x| (x.num, format!("{:?}", x.typ), x.desc().to_string(), x.to_string())).collect::<Vec<_>>())
    });
    let got = match got {
        Err(e) => return rep.viol("cache_info:panic", || e, m),
        Ok(None) => return rep.viol("cache_info:absent", || "leaf 2 advertised but no descriptors returned".into(), m),
        Ok(Some(v)) => v,
    };
    for g in &got {
        match descriptors().iter().find(|d| d.0 == g.0) {
            None => return rep.viol(&format!("undocumented:{:#04x}", g.0), || format!("descriptor {:#04x} is reported but not documented", g.0), m),
            Some(d) => {
                if d.1 != g.1 {
                    return rep.viol(&format!("kind:{:#04x}", g.0), || format!("descriptor {:#04x} reported as {}, documented as {}", g.0, g.1, d.1), m);
                }
                if !same_text(d.2, &g.2) {
                    return rep.viol(&format!("text:{:#04x}", g.0), || format!("descriptor {:#04x} described as {:?}, documented as {:?}", g.0, g.2, d.2), m);
                }
            }
        }
    }
    let mut a: Vec<u8> = want.iter().map(|x| x.0).collect();
    let mut b: Vec<u8> = got.iter().map(|x| x.0).collect();
    a.sort();
    b.sort();
    let mut rng = Rng::new(m.fingerprint(), 0xada);
    rd.set_budget(10_000);
    let c = CpuId::with_cpuid_reader(rd.clone());
    crate::adapt::probe_clone("cache descriptors", 1, &mut rng, &|| c.get_cache_info(), |x| format!("{:?}", x), m, rep);
    if a != b {
        for x in 1..=255u8 {
            let (n, k) = (a.iter().filter(|y| **y == x).count(), b.iter().filter(|y| **y == x).count());
            if n != k {
                let sig = format!("{}:{:#04x}", if k < n { "missing" } else { "extra" }, x);
                rep.viol(&sig, || format!("descriptor {:#04x} occurs {} times in registers {:x?} and is reported {} times; reported {:02x?}", x, n, r, k, b), m);
            }
        }
    }
    rep.sample(|| format!("{:x?} -> {:02x?}", r, b));
}

/// Descriptions agree up to spacing, case and punctuation.
fn same_text(a: &str, b: &str) -> bool {
    let f = |s: &str| s.chars().filter(|c| c.is_alphanumeric()).flat_map(|c| c.to_lowercase()).collect::<String>();
    f(a) == f(b)
}

pub fn run_c10(seed: u64, thorough: bool) -> Report {
    let n = if thorough { 512 } else { 64 };
    let mut rep = shards("C10", n + 16, |i, rep| {
        let mut m = crate::fields::base(INTEL, Dflt::Zero);
        m.set_vendor(if i % 2 == 0 { INTEL } else { b"CentaurHauls" });
        let rd = Rd::new(m);
        if i < 16 {
            // every byte at every position, on several backgrounds
            let mut rng = Rng::new(seed, 10 + i as u64);
            if i == 0 {
                rep.exhaustive.push("each byte value at each of the 15 descriptor positions, on empty, known and mixed backgrounds".into());
            }
            for b in 0..=255u8 {
                if b as usize % 16 != i {
                    continue;
                }
                for pos in 0..16usize {
                    for bg in 0..6 {
                        let mut w = [0u8; 16];
                        for (k, x) in w.iter_mut().enumerate() {
                            *x = match bg {
                                0 => 0,
                                1 => 0x63,
                                2 => if k % 4 == 3 { 0x01 } else { descriptors()[rng.below(descriptors().len() as u32) as usize].0 },
                                3 => rng.u32() as u8 & 0x7f,
                                4 => 0x07, // undocumented
                                _ => rng.u32() as u8,
                            };
                        }
                        w[pos] = b;
                        rd.with(|m| m.put(2, 0, from16(&w)));
                        check_desc(&rd, rep);
                    }
                }
            }
        } else {
            let mut rng = Rng::new(seed, 4000 + i as u64);
            for _ in 0..4000 {
                let mut w = [0u8; 16];
                let style = rng.below(5);
                for (k, x) in w.iter_mut().enumerate() {
                    *x = match style {
                        0 => rng.u32() as u8,
                        1 => descriptors()[rng.below(descriptors().len() as u32) as usize].0,
                        2 => if rng.chance(1, 3) { 0 } else { descriptors()[rng.below(descriptors().len() as u32) as usize].0 },
                        3 => if rng.chance(1, 3) { rng.u32() as u8 } else { descriptors()[rng.below(descriptors().len() as u32) as usize].0 },
                        _ => [0x05, 0xff, 0xf0, 0xb5][rng.below(4) as usize],
                    };
                    if k % 4 == 3 && rng.chance(4, 5) {
                        *x &= 0x7f;
                    }
                }
                rd.with(|m| m.put(2, 0, from16(&w)));
                check_desc(&rd, rep);
            }
        }
    });
    rep.rule = "An evaluation is one content of leaf 2 whose reported descriptors (as a multiset, with kind and description) are compared with the documented table. Non-trivial: the registers hold at least one documented descriptor; distinct by the four registers.".into();
    rep
}

fn from16(w: &[u8; 16]) -> Regs {
    let g = |i: usize| u32::from_le_bytes([w[i], w[i + 1], w[i + 2], w[i + 3]]);
    Regs::new(g(0), g(4), g(8), g(12))
}

/// Every enumeration of the CPU ends within `cap` sub-leaves.
pub fn all_finite(m: &Machine, cap: usize) -> bool {
    let ok = |x: Option<Vec<u32>>, absent: bool| absent || x.is_some_and(|v| v.len() <= cap);
    let span = |leaf: u32, n: u32| !m.has(leaf) || (n as usize) <= cap * 4;
    ok(expected_cache(m).map(|x| x.1), m.cache_leaf().is_none())
        && ok(expected_topo(m, 0xB), !m.has(0xB))
        && ok(expected_topo(m, 0x1F), !m.has(0x1F))
        && ok(expected_sgx(m), !(m.has(7) && m.has(0x12) && m.bit(7, 0, RB, 2)))
        && ok(expected_ect(m), !m.has(0x8000_0026))
        && span(0x18, m.get(0x18, 0).a)
        && span(0x17, m.get(0x17, 0).a)
}
