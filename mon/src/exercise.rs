//! C01: nothing the decoder offers panics, overflows or fails to end.
use crate::gen::*;
use crate::iters;
use crate::machine::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;
use raw_cpuid::{self as rc, CpuId};

/// Is the enumeration behind this section finite (and short) on this CPU?
fn finite(m: &Machine, sec: &str) -> bool {
    let short = |x: Option<Vec<u32>>| x.is_some_and(|v| v.len() < ITEM_CAP - 1);
    match sec {
        "cache_parameters" => short(iters::expected_cache(m).map(|x| x.1)),
        "extended_topology_info" => short(iters::expected_topo(m, 0xB)),
        "extended_topology_info_v2" => short(iters::expected_topo(m, 0x1F)),
        "sgx_info.iter" => short(iters::expected_sgx(m)),
        "extended_cpu_topology" => short(iters::expected_ect(m)),
        "deterministic_address_translation_info" => short(iters::expected_dat(m)),
        "soc_vendor_info.vendor_attributes" => m.get(0x17, 0).a < ITEM_CAP as u32,
        "soc_vendor_info" => true, // debug rendering does not walk
        "CpuId" => ["cache_parameters", "extended_topology_info", "extended_topology_info_v2", "sgx_info.iter", "extended_cpu_topology", "deterministic_address_translation_info"]
            .iter()
            .all(|s| !present_iter(m, s) || finite(m, s)),
        "sgx_info" => finite(m, "sgx_info.iter"),
        _ => true,
    }
}
fn present_iter(m: &Machine, sec: &str) -> bool {
    match sec {
        "cache_parameters" => m.cache_leaf().is_some(),
        "extended_topology_info" => m.has(0xB),
        "extended_topology_info_v2" => m.has(0x1F),
        "sgx_info.iter" => m.has(7) && m.bit(7, 0, RB, 2) && m.has(0x12),
        "extended_cpu_topology" => m.has(0x8000_0026),
        _ => m.has(0x18),
    }
}

fn judge(rows: &[Row], m: &Machine, rep: &mut Report) {
    for r in rows {
        if let V::S(s) = &r.v {
            if let Some(p) = s.strip_prefix("PANIC: ") {
                if p.contains("budget exceeded") && !finite(m, r.sec) {
                    rep.count("endless enumerations left alone (outside the property)", 1);
                    continue;
                }
                let kind = if p.contains("budget") { "endless" } else { "panic" };
                rep.viol(&format!("{}.{}:{}", r.sec, r.name, kind), || format!("{}[{}].{}: {}", r.sec, r.idx, r.name, p), m);
            } else if s == "CAP" && finite(m, r.sec) {
                rep.viol(&format!("{}:endless", r.sec), || format!("more than {} entries from a finite enumeration", ITEM_CAP), m);
            }
        }
    }
}

pub fn check_machine(d: &DumpModel<Rd>, rd: &Rd, text: bool, rep: &mut Report) {
    let m = rd.machine();
    rd.set_budget(5_000);
    let cpu = match guard(|| CpuId::with_cpuid_reader(rd.clone())) {
        Ok(c) => c,
        Err(e) => {
            rep.eval(None);
            return rep.viol("construction:panic", || e, m);
        }
    };
    let mut rows = Vec::with_capacity(2048);
    for i in 0..d.d.len() {
        rd.set_budget(20_000);
        d.section(i, &cpu, text, &mut rows);
    }
    if text {
        rd.set_budget(100_000);
        rows.push(Row { sec: "CpuId", idx: 0, name: "{:?}", v: gv(|| V::S(format!("{:?}", cpu))) });
    }
    let present = rows.iter().filter(|r| r.name == "present" && r.v == V::B(true)).count();
    rep.eval(if present > 0 { Some(m.fingerprint()) } else { None });
    rep.count("values obtained without a panic", rows.len() as u64);
    rep.count("structures and iterators obtained", present as u64);
    if text {
        rep.count("bytes of debug and display text rendered", rows.iter().map(|r| if let V::S(s) = &r.v { s.len() as u64 } else { 0 }).sum());
    }
    rep.sample(|| format!("vendor={:?} max={:#x}/{:#x}: {} structures, {} values", m.vend(), m.max_basic(), m.max_ext(), present, rows.len()));
    judge(&rows, m, rep);
    misuse(&cpu, rd, rep);
}

/// Iterators asked again after their end, cloned, counted.
fn misuse(cpu: &Cpu, rd: &Rd, rep: &mut Report) {
    let m = rd.machine();
    fn again<I: Iterator>(sec: &str, get: impl FnOnce() -> Option<I>, m: &Machine, rd: &Rd, rep: &mut Report) {
        if !finite(m, sec) {
            return;
        }
        rd.set_budget(50_000);
        let r = guard(|| {
            if let Some(mut it) = get() {
                let mut n = 0;
                let _ = it.size_hint();
                while it.next().is_some() && n < ITEM_CAP {
                    n += 1;
                }
                if m.dflt == Dflt::Zero {
                    for _ in 0..3 {
                        let _ = it.next();
                    }
                }
                true
            } else {
                false
            }
        });
        match r {
            Ok(true) => rep.count("iterators asked again after their end", 1),
            Ok(false) => {}
            Err(e) => rep.viol(&format!("{}:after-end", sec), || e, m),
        }
    }
    again("cache_info", || cpu.get_cache_info(), m, rd, rep);
    again("cache_parameters", || cpu.get_cache_parameters(), m, rd, rep);
    again("extended_topology_info", || cpu.get_extended_topology_info(), m, rd, rep);
    again("extended_topology_info_v2", || cpu.get_extended_topology_info_v2(), m, rd, rep);
    again("extended_state_info.iter", || cpu.get_extended_state_info().map(|x| x.iter()), m, rd, rep);
    again("deterministic_address_translation_info", || cpu.get_deterministic_address_translation_info(), m, rd, rep);
    again("soc_vendor_info.vendor_attributes", || cpu.get_soc_vendor_info().and_then(|s| s.get_vendor_attributes()), m, rd, rep);
}

pub fn run(seed: u64, thorough: bool) -> Report {
    let leaves: Vec<(u32, u32)> = {
        let mut v: Vec<(u32, u32)> = BASIC_LEAVES.iter().map(|&l| (l, 0)).collect();
        v.extend(ext_leaves().into_iter().map(|l| (l, 0)));
        v.extend([(7, 1), (0xD, 1), (0xD, 2), (0xD, 9), (0xF, 1), (0x10, 1), (0x10, 2), (0x10, 3), (0x12, 1), (0x12, 2), (0x14, 1), (0x17, 1), (0x17, 3), (0x18, 1), (0x8000_0020, 1), (0x8000_0020, 2), (0x8000_0020, 3), (0x8000_0020, 5), (0x4000_0000, 0), (0x4000_0010, 0), (4, 1), (0xB, 1), (0x1F, 1), (0x8000_001D, 1), (0x8000_0026, 1)]);
        v
    };
    let nl = leaves.len();
    let nrand = if thorough { 1200 } else { 120 };
    let mut rep = shards("C01", nl + nrand, |i, rep| {
        let d = dumpers::<Rd>();
        if i < nl {
            // every register of every leaf at every extreme
            let (l, s) = leaves[i];
            let mut rng = Rng::new(seed, 100 + i as u64);
            for v in [INTEL, AMD, b"CentaurHauls"] {
                for bg in [Dflt::Zero, Dflt::Ones, Dflt::Noise(rng.u64())] {
                    let mut m = crate::fields::base(v, bg);
                    if bg != Dflt::Zero {
                        // enumerations end early
                        for (l, s, r) in [(4u32, 2u32, 0), (0x8000_001D, 2, 0), (0xB, 2, 2), (0x1F, 2, 2), (0x8000_0026, 2, 2), (0x12, 4, 0)] {
                            m.upd(l, s, |x| x.set(r, 0));
                        }
                        m.upd(0x17, 0, |r| r.a = 5);
                        m.upd(0x18, 0, |r| r.a = 5);
                    }
                    let rd = Rd::new(m.clone());
                    for reg in 0..4 {
                        if (l == 0 || l == 0x8000_0000) && reg == 0 {
                            continue;
                        }
                        let orig = m.get(l, s).get(reg);
                        let mut vals: Vec<u32> = vec![0, u32::MAX, u32::MAX - 1, 0x7fff_ffff, 0xff, 0xff00, 0xff_0000, 0xff00_0000, 0xfff, 0xffff, 0xffff_0000, 0xf000_0000, 0x0fff_0000];
                        for b in 0..32 {
                            vals.push(1 << b);
                            if thorough {
                                vals.push(orig ^ 1 << b);
                                vals.push(!(1 << b));
                            }
                        }
                        for x in vals {
                            rd.with(|m| m.upd(l, s, |r| r.set(reg, x)));
                            current(|| format!("exercising a CPU\n{}", rd.machine().describe()));
                            check_machine(&d, &rd, x == 0 || x == u32::MAX || thorough, rep);
                            rep.count("register extremes", 1);
                        }
                        rd.with(|m| m.upd(l, s, |r| r.set(reg, orig)));
                    }
                }
            }
        } else {
            let mut g = Gen::new(seed, 5000 + i as u64);
            for k in 0..200 {
                let mut m = g.machine();
                if k % 10 == 0 {
                    // nothing but noise or ones
                    let v = g.vendor();
                    m = Machine::new(if k % 20 == 0 { Dflt::Ones } else { Dflt::Noise(g.rng.u64()) });
                    m.set_vendor(&v);
                }
                if k % 10 == 1 || k % 10 == 6 {
                    g.strings(&mut m);
                    m.at_least(0x8000_0004);
                }
                let rd = Rd::new(m);
                current(|| format!("exercising a random CPU\n{}", rd.machine().describe()));
                check_machine(&d, &rd, true, rep);
                rep.count("random CPUs", 1);
            }
        }
    });
    // values not tied to a CPU
    for n in 0..=255u8 {
        for typ in [rc::CacheInfoType::General, rc::CacheInfoType::Cache, rc::CacheInfoType::TLB, rc::CacheInfoType::STLB, rc::CacheInfoType::DTLB, rc::CacheInfoType::Prefetch] {
            let r = guard(|| {
                let c = rc::CacheInfo { num: n, typ };
                (c.desc().len(), format!("{} {:?}", c, c).len())
            });
            rep.eval(Some(mix(n as u64)));
            if let Err(e) = r {
                rep.viol(&format!("CacheInfo({:#x}):panic", n), || e, &Machine::new(Dflt::Zero));
            }
        }
    }
    rep.rule = "An evaluation is one CPU on which every query, every accessor of every structure, every iterator (to its end and beyond) and - for random CPUs - every Debug/Display rendering is executed under overflow checks with panics and reads counted. CPUs: every register of every leaf at every single bit and at extremes on zero, all-ones and noise backgrounds for three vendors; random, recorded, mutated and unstructured CPUs; two enumerations of 2^32 sub-leaves. Non-trivial: at least one structure was returned; distinct by full register contents.".into();
    rep
}
