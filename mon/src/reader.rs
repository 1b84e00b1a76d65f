//! C11: results come from the decoder's own reader and nothing else.
use crate::gen::*;
use crate::iters;
use crate::machine::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;
use raw_cpuid::{CpuId, CpuIdReader, CpuIdResult};

const IDENT: [u32; 5] = [0, 1, 7, 0x8000_0000, 0x8000_0001];

fn leaves_of(sec: &str, qs: &[Query<Rd>]) -> Vec<u32> {
    let top = sec.split('.').next().unwrap();
    qs.iter().filter(|q| q.id == top).flat_map(|q| q.leaves.iter().copied()).collect()
}

fn fresh(rd: &Rd, rep: &mut Report) -> Option<Cpu> {
    rd.set_budget(1_000_000);
    match guard(|| CpuId::with_cpuid_reader(rd.clone())) {
        Ok(c) => Some(c),
        Err(e) => {
            rep.viol("construction:panic", || e, rd.machine());
            None
        }
    }
}

fn text_of(rows: &[Row]) -> u64 {
    rows.iter().fold(0, |h, r| mix(h ^ mix(r.idx as u64)) ^ r.sec.len() as u64)
}

/// Requests made per section stay within the documented leaves, with sub-leaf
/// numbers and order a function of the reader's answers.
fn requests(d: &DumpModel<Rd>, allowed: &[Vec<u32>], rd: &Rd, rep: &mut Report) {
    let m = rd.machine();
    rd.start_log();
    let Some(c) = fresh(rd, rep) else { return };
    let log = rd.take_log();
    if let Some(x) = log.iter().find(|x| !IDENT.contains(&x.0)) {
        rep.viol("construction:foreign-leaf", || format!("constructing the decoder read leaf {:#x}.{}", x.0, x.1), m);
    }
    for (i, s) in d.d.iter().enumerate() {
        for text in [false, true] {
            let mut out = Vec::new();
            rd.set_budget(100_000);
            rd.start_log();
            d.section(i, &c, text, &mut out);
            let log = rd.take_log();
            rep.count("reader requests checked", log.len() as u64);
            for x in &log {
                if !IDENT.contains(&x.0) && !allowed[i].contains(&x.0) {
                    rep.viol(&format!("{}:foreign-leaf", s.sec), || format!("obtaining and reading {} requested leaf {:#x}.{}", s.sec, x.0, x.1), m);
                    break;
                }
            }
        }
    }
}

/// A CPU that agrees only on the leaves a section may depend on gives the
/// same section.
fn irrelevance(d: &DumpModel<Rd>, allowed: &[Vec<u32>], rd: &Rd, rng: &mut Rng, rep: &mut Report) {
    let m = rd.machine();
    let Some(c) = fresh(rd, rep) else { return };
    let i = rng.below(d.d.len() as u32) as usize;
    let mut m2 = Machine::new(m.dflt);
    for (k, v) in &m.map {
        let l = (*k >> 32) as u32;
        if IDENT.contains(&l) || allowed[i].contains(&l) {
            m2.map.insert(*k, *v);
        } else {
            let x = rng.regs();
            m2.map.insert(*k, x);
        }
    }
    let rd2 = Rd::new(m2);
    let Some(c2) = fresh(&rd2, rep) else { return };
    let (mut a, mut b) = (Vec::new(), Vec::new());
    rd.set_budget(100_000);
    d.section(i, &c, false, &mut a);
    rd2.set_budget(100_000);
    d.section(i, &c2, false, &mut b);
    rep.count("sections compared under unrelated changes", 1);
    if let Some(x) = diff(&a, &b) {
        rep.viol(&format!("{}:irrelevant-leaf", d.d[i].sec), || format!("changing only unrelated leaves changed the result: {}", x), m);
    }
}

fn repeat(d: &DumpModel<Rd>, a: &Rd, b: &Rd, text: bool, rep: &mut Report) {
    let Some(ca) = fresh(a, rep) else { return };
    let solo = d.dump(&ca, text);
    let Some(cb) = fresh(b, rep) else { return };
    let solo_b = d.dump(&cb, text);
    // again, on the same decoder
    a.set_budget(1_000_000);
    let again = d.dump(&ca, text);
    if let Some(x) = diff(&solo, &again) {
        rep.viol("repeat", || format!("asking again gave another answer: {}", x), a.machine());
    }
    // a clone, and a fresh decoder over an equal reader
    a.set_budget(1_000_000);
    let cl = ca.clone();
    if let Some(x) = diff(&solo, &d.dump(&cl, text)) {
        rep.viol("clone", || format!("a clone of the decoder gave another answer: {}", x), a.machine());
    }
    // section by section, alternating between two decoders over unlike CPUs
    a.set_budget(1_000_000);
    b.set_budget(1_000_000);
    let (mut ra, mut rb) = (Vec::new(), Vec::new());
    for i in 0..d.d.len() {
        d.section(i, &ca, text, &mut ra);
        d.section(d.d.len() - 1 - i, &cb, text, &mut rb);
        let _ = guard(|| CpuId::with_cpuid_reader(if i % 2 == 0 { b.clone() } else { a.clone() }));
    }
    if let Some(x) = diff(&solo[..ra.len().min(solo.len())], &ra) {
        rep.viol("interleaved", || format!("interleaving with another decoder changed an answer: {}", x), a.machine());
    }
    let (mut sb, mut tb) = (solo_b, rb);
    sb.retain(|r| r.sec != "CpuId");
    sb.sort_by_key(|r| (r.sec, r.idx, r.name));
    tb.sort_by_key(|r| (r.sec, r.idx, r.name));
    if let Some(x) = diff(&sb, &tb) {
        rep.viol("interleaved", || format!("interleaving with another decoder changed an answer: {}", x), b.machine());
    }
    rep.count("decoder pairs interleaved", 1);
    rep.count("values compared", solo.len() as u64 * 5);
    rep.eval(Some(text_of(&solo) ^ a.machine().fingerprint() ^ b.machine().fingerprint().rotate_left(7)));
    rep.sample(|| format!("{} values unchanged when repeated, cloned and interleaved with a CPU of {} values", solo.len(), sb.len()));
}

/// Iterators of two decoders advanced in turn, and cloned midway.
fn iterators(a: &Rd, b: &Rd, rng: &mut Rng, rep: &mut Report) {
    let Some(ca) = fresh(a, rep) else { return };
    let Some(cb) = fresh(b, rep) else { return };
    let (ma, mb) = (a.machine(), b.machine());
    let ok = |m: &Machine, f: fn(&Machine) -> Option<Vec<u32>>| f(m).is_some_and(|v| v.len() < 1000);
    macro_rules! pair {
        ($name:literal, $fin:expr, $get:expr, clone) => {
            pair!(@ $name, $fin, $get, |it, _rng| it.clone())
        };
        ($name:literal, $fin:expr, $get:expr, noclone) => {
            pair!(@ $name, $fin, $get, |it, _rng| it)
        };
        (@ $name:literal, $fin:expr, $get:expr, |$it:ident, $r:ident| $cl:expr) => {
            if ok(ma, $fin) && ok(mb, $fin) {
                let r = guard(|| {
                    let show = |x| format!("{:?}", x);
                    let get = $get;
                    let sa: Vec<String> = get(&ca).into_iter().flatten().map(show).collect();
                    let sb: Vec<String> = get(&cb).into_iter().flatten().map(show).collect();
                    let (mut ia, mut ib) = (get(&ca), get(&cb));
                    let (mut ta, mut tb) = (Vec::new(), Vec::new());
                    let mut live = 3;
                    let mut steps = 0;
                    while live != 0 && steps < 5000 {
                        steps += 1;
                        let _ = get(&ca);
                        if rng.chance(1, 2) {
                            match ia.as_mut().and_then(|i| i.next()) {
                                Some(x) => ta.push(show(x)),
                                None => { live &= !1; ia = None }
                            }
                        } else {
                            match ib.as_mut().and_then(|i| i.next()) {
                                Some(x) => tb.push(show(x)),
                                None => { live &= !2; ib = None }
                            }
                        }
                    }
                    // a clone taken midway yields the same rest
                    let k = if sa.is_empty() { 0 } else { rng.below(sa.len() as u32) as usize };
                    let mut cloned = Vec::new();
                    let mut rest = Vec::new();
                    if let Some(mut $it) = get(&ca) {
                        for _ in 0..k { $it.next(); }
                        let c2 = $cl;
                        cloned = c2.map(show).collect();
                        rest = sa[k..].to_vec();
                    }
                    (sa, sb, ta, tb, cloned, rest)
                });
                match r {
                    Err(e) => rep.viol(concat!($name, ":panic"), || e, ma),
                    Ok((sa, sb, ta, tb, cl, rest)) => {
                        rep.eval(if sa.is_empty() && sb.is_empty() { None } else { Some(mix(ma.fingerprint() ^ $name.len() as u64) ^ mb.fingerprint()) });
                        rep.count("iterator pairs advanced in turn", 1);
                        rep.count("iterator items compared", (sa.len() + sb.len() + cl.len()) as u64);
                        if sa != ta || sb != tb {
                            rep.viol(concat!($name, ":interleaved"), || format!("alone {:?} / {:?}; advanced in turn {:?} / {:?}", sa, sb, ta, tb), ma);
                        }
                        if cl != rest {
                            rep.viol(concat!($name, ":clone"), || format!("rest of the original {:?}, of its clone {:?}", rest, cl), ma);
                        }
                    }
                }
            }
        };
    }
    a.set_budget(10_000_000);
    b.set_budget(10_000_000);
    fn opt(x: Option<Vec<u32>>, absent: bool) -> Option<Vec<u32>> {
        if absent {
            Some(vec![])
        } else {
            x
        }
    }
    pair!("cache_info", |_m| Some(vec![]), |c: &Cpu| c.get_cache_info(), clone);
    pair!("cache_parameters", |m| opt(iters::expected_cache(m).map(|x| x.1), m.cache_leaf().is_none()), |c: &Cpu| c.get_cache_parameters(), clone);
    pair!("extended_topology_info", |m| opt(iters::expected_topo(m, 0xB), !m.has(0xB)), |c: &Cpu| c.get_extended_topology_info(), clone);
    pair!("extended_topology_info_v2", |m| opt(iters::expected_topo(m, 0x1F), !m.has(0x1F)), |c: &Cpu| c.get_extended_topology_info_v2(), clone);
    pair!("extended_state_info.iter", |_m| Some(vec![]), |c: &Cpu| c.get_extended_state_info().map(|x| x.iter()), clone);
    pair!("sgx_info.iter", |m| opt(iters::expected_sgx(m), !(m.has(7) && m.has(0x12) && m.bit(7, 0, RB, 2))), |c: &Cpu| c.get_sgx_info().map(|x| x.iter()), clone);
    pair!("deterministic_address_translation_info", |m| opt(iters::expected_dat(m), !m.has(0x18)), |c: &Cpu| c.get_deterministic_address_translation_info(), clone);
    pair!("soc_vendor_info.vendor_attributes", |m| opt(iters::expected_soc(m), !m.has(0x17) || m.get(0x17, 0).a <= 3), |c: &Cpu| c.get_soc_vendor_info().and_then(|x| x.get_vendor_attributes()), noclone);
    pair!("extended_cpu_topology", |m| opt(iters::expected_ect(m), !m.has(0x8000_0026)), |c: &Cpu| c.get_extended_cpu_topology(), clone);
}

/// Values already returned survive any later change of the reader's answers.
fn snapshots(ps: &[Path<Rd>], rd: &Rd, rep: &mut Report) {
    let keep = rd.machine().clone();
    for p in ps {
        if !(p.present)(rd.machine()) {
            continue;
        }
        let Some(c) = fresh(rd, rep) else { return };
        let r = (p.snap)(&c, &mut || {
            rd.with(|m| {
                m.dflt = Dflt::Noise(0x5eed);
                for (_, r) in m.map.iter_mut() {
                    *r = Regs::new(!r.a, !r.b, !r.c, !r.d);
                }
            })
        });
        rd.with(|m| *m = keep.clone());
        if let Some((a, b)) = r {
            rep.count("structures re-read after the reader changed", 1);
            for (i, (x, y)) in a.iter().zip(&b).enumerate() {
                // the frequencies of a hypervisor are fetched when asked for
                if p.id == "hypervisor_info" && p.info[i].name != "identify" {
                    continue;
                }
                if x != y {
                    rep.viol(&format!("{}.{}:changed", p.id, p.info[i].name), || format!("{:?} before and {:?} after the reader's answers changed", x, y), &keep);
                }
            }
        }
    }
}

/// Readers given as functions, references to shared state, and by value
/// behave alike; `cpuid1` means sub-leaf 0.
fn constructions(d: &DumpModel<Rd>, rd: &Rd, rep: &mut Report) {
    let m = rd.machine();
    let Some(c) = fresh(rd, rep) else { return };
    let a = d.dump(&c, false);
    thread_local! {
        static DF: DumpModel<Fr> = dumpers::<Fr>();
    }
    #[derive(Clone)]
    struct Fr(Rd);
    impl CpuIdReader for Fr {
        fn cpuid1(&self, eax: u32) -> CpuIdResult {
            self.0.cpuid2(eax, 0)
        }
        fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
            self.0.cpuid2(eax, ecx)
        }
    }
    rd.set_budget(1_000_000);
    let b = DF.with(|f| f.dump(&CpuId::with_cpuid_reader(Fr(rd.clone())), false));
    if let Some(x) = diff(&a, &b) {
        rep.viol("constructions:reader", || x, m);
    }
    let f = {
        let rd = rd.clone();
        move |l: u32, s: u32| rd.cpuid2(l, s)
    };
    rd.set_budget(1_000_000);
    for (l, s) in [(0u32, 0u32), (4, 3), (7, 1), (0xD, 9), (0x8000_001D, 2), (u32::MAX, u32::MAX)] {
        let w = to_res(m.get(l, s)).to_v();
        let w0 = to_res(m.get(l, 0)).to_v();
        for (what, got, want) in [("cpuid2 of a function", f.cpuid2(l, s).to_v(), &w), ("cpuid1 of a function", f.cpuid1(l).to_v(), &w0), ("cpuid1 of a reader", rd.cpuid1(l).to_v(), &w0)] {
            if got != *want {
                rep.viol("constructions:cpuid1", || format!("{}({:#x}, {}) = {:?}, the reader answers {:?}", what, l, s, got, want), m);
            }
        }
    }
    let cf = CpuId::with_cpuid_fn(f);
    let t = format!("{:?}", cf.get_feature_info().map(|x| (x.family_id(), x.model_id(), x.stepping_id())));
    let u = format!("{:?}", c.get_feature_info().map(|x| (x.family_id(), x.model_id(), x.stepping_id())));
    if t != u {
        rep.viol("constructions:fn", || format!("{} versus {}", t, u), m);
    }
    rep.count("constructions compared", 3);
}

/// Used from several threads whatever the compiler thinks of it: whether it
/// may be is judged by `may_be_shared`, what comes of it by the results and the
/// race detectors.
struct Common<T>(T);
unsafe impl<T> Sync for Common<T> {}
unsafe impl<T> Send for Common<T> {}
impl<T> Common<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

trait HasNot {
    const SEND: bool = false;
    const SYNC: bool = false;
    const UNPIN: bool = false;
}
struct HasSend<T>(std::marker::PhantomData<T>);
struct HasSync<T>(std::marker::PhantomData<T>);
struct HasUnpin<T>(std::marker::PhantomData<T>);
impl<T> HasNot for HasSend<T> {}
impl<T> HasNot for HasSync<T> {}
impl<T> HasNot for HasUnpin<T> {}
#[allow(dead_code)]
impl<T: Send> HasSend<T> {
    const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: Sync> HasSync<T> {
    const SYNC: bool = true;
}
#[allow(dead_code)]
impl<T: Unpin> HasUnpin<T> {
    const UNPIN: bool = true;
}

type Plain = fn(u32, u32) -> CpuIdResult;
macro_rules! free_threaded {
    ($rep:ident: $($t:ty),* $(,)?) => { $(
        let name = stringify!($t).replace("rc::", "").replace(' ', "");
        for (what, yes) in [("moved to", HasSend::<$t>::SEND), ("shared with", HasSync::<$t>::SYNC), ("moved in memory by", HasUnpin::<$t>::UNPIN)] {
            $rep.count("types x auto traits observed", 1);
            if !yes {
                $rep.viol(&format!("threads:{}:{}", name, what), || format!("{} cannot be {} another thread although its reader can", name, what), &Machine::new(Dflt::Zero));
            }
        }
    )* };
}

/// Decoders, iterators and results go where their reader may go.
pub fn may_be_shared(rep: &mut Report) {
    use raw_cpuid as rc;
    free_threaded!(rep: rc::CpuId<Plain>, rc::CpuIdResult, rc::VendorInfo, rc::CacheInfoIter, rc::CacheInfoType, rc::CacheInfo, rc::ProcessorSerial, rc::FeatureInfo,
        rc::CacheParametersIter<Plain>, rc::CacheParameter, rc::CacheType, rc::MonitorMwaitInfo, rc::ThermalPowerInfo, rc::ExtendedFeatures, rc::DirectCacheAccessInfo,
        rc::PerformanceMonitoringInfo, rc::ExtendedTopologyIter<Plain>, rc::ExtendedTopologyLevel, rc::TopologyType, rc::ExtendedStateInfo<Plain>, rc::ExtendedStateIter<Plain>,
        rc::ExtendedRegisterType, rc::ExtendedRegisterStateLocation, rc::ExtendedState, rc::RdtMonitoringInfo<Plain>, rc::L3MonitoringInfo, rc::RdtAllocationInfo<Plain>,
        rc::L3CatInfo, rc::L2CatInfo, rc::MemBwAllocationInfo, rc::SgxInfo<Plain>, rc::SgxSectionIter<Plain>, rc::SgxSectionInfo, rc::EpcSection, rc::ProcessorTraceInfo,
        rc::TscInfo, rc::ProcessorFrequencyInfo, rc::DatIter<Plain>, rc::DatInfo, rc::DatType, rc::SoCVendorInfo<Plain>, rc::SoCVendorAttributesIter<Plain>, rc::SoCVendorBrand,
        rc::HypervisorInfo<Plain>, rc::Hypervisor, rc::ExtendedProcessorFeatureIdentifiers, rc::ProcessorBrandString, rc::L1CacheTlbInfo, rc::L2And3CacheTlbInfo,
        rc::Associativity, rc::ApmInfo, rc::ProcessorCapacityAndFeatureInfo, rc::SvmFeatures, rc::Tlb1gbPageInfo, rc::PerformanceOptimizationInfo,
        rc::InstructionBasedSamplingCapabilities, rc::ProcessorTopologyInfo, rc::MemoryEncryptionInfo, rc::PqosExtendedFeatureInfo<Plain>,
        rc::L3MemoryBandwidthEnforcementInformation, rc::BandwidthMonitoringEventCounters, rc::AssignableBandwidthMonitoringCounterInfo, rc::ExtendedFeatureIdentification2,
        rc::ExtendedPerformanceMonitoringDebug, rc::MultiKeyEncryptedMemoryCapabilities, rc::ExtendedCpuTopologyIter<Plain>, rc::ExtendedCpuTopologyLevel, rc::HierarchyLevelType);
    #[cfg(any(target_arch = "x86_64", target_arch = "x86"))]
    free_threaded!(rep: rc::CpuId<rc::CpuIdReaderNative>, rc::CpuIdReaderNative);
    rep.eval(Some(mix(0x5e4d)));
}

/// Many threads, each with decoders of its own over shared read-only CPUs.
/// Without logging or budgets a read touches no shared mutable memory.
pub fn threads(seed: u64, rounds: usize, machines: usize, rep: &mut Report) {
    let d = dumpers::<Rd>();
    let mut g = Gen::new(seed, 0x7ead);
    let rds: Vec<Rd> = std::iter::repeat_with(|| g.machine())
        .filter(|m| {
            // only finite enumerations: there is no read budget here
            iters::all_finite(m, 2000)
        })
        .take(machines)
        .map(Rd::frozen)
        .collect();
    let alone: Vec<Vec<Row>> = rds.iter().map(|r| d.dump(&CpuId::with_cpuid_reader(r.clone()), false)).collect();
    let n = 8;
    let go = std::sync::Barrier::new(n);
    // one decoder of each CPU that all threads use by reference, not asked
    // anything before
    let shared: Vec<Common<Cpu>> = rds.iter().map(|r| Common(CpuId::with_cpuid_reader(r.clone()))).collect();
    let res: Vec<(u64, Vec<(String, usize)>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (rds, alone, go, shared) = (&rds, &alone, &go, &shared);
                s.spawn(move || {
                    enroll();
                    let d = dumpers::<Rd>();
                    let mut rng = Rng::new(seed, 900 + t as u64);
                    let mut bad: Vec<(String, usize)> = Vec::new();
                    let mut vals = 0u64;
                    go.wait();
                    for round in 0..rounds {
                        tick();
                        let k = rng.below(rds.len() as u32) as usize;
                        if round % 2 == 0 {
                            let rows = d.dump(&shared[k].get(), false);
                            vals += rows.len() as u64;
                            if let Some(x) = diff(&alone[k], &rows) {
                                if bad.len() < 20 {
                                    bad.push((format!("of a shared decoder: {}", x), k));
                                }
                            }
                        }
                        // constructions overlap across threads
                        let c = match guard(|| CpuId::with_cpuid_reader(rds[k].clone())) {
                            Ok(c) => c,
                            Err(e) => {
                                bad.push((e, k));
                                continue;
                            }
                        };
                        if rng.chance(1, 4) {
                            std::thread::yield_now();
                        }
                        let rows = d.dump(&c, false);
                        vals += rows.len() as u64;
                        if let Some(x) = diff(&alone[k], &rows) {
                            if bad.len() < 20 {
                                bad.push((x, k));
                            }
                        }
                    }
                    retire();
                    (vals, bad)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (vals, bad) in res {
        rep.count("values decoded by concurrent threads and compared", vals);
        for (x, k) in bad {
            rep.viol("threads", || format!("alone versus among threads: {}", x), rds[k].machine());
        }
    }
    rep.eval(Some(mix(seed)));
    rep.count("concurrent dumps", (n * rounds) as u64);
    rep.count("dumps of decoders shared between threads", (n * ((rounds + 1) / 2)) as u64);
    rep.max("max threads", n as u64);
}

/// A reader that answers with the help of a decoder of its own, of another
/// CPU, and does the same with it as is being done with the outer one.
fn nested(d: &DumpModel<Rd>, rd: &Rd, inner: &Rd, rep: &mut Report) {
    use std::cell::{Cell, RefCell};
    use std::rc::Rc;
    for r in [rd, inner] {
        r.set_budget(u64::MAX);
        if !iters::all_finite(r.machine(), 64) {
            return;
        }
    }
    let alone = |r: &Rd| -> Vec<Vec<Row>> {
        let c = CpuId::with_cpuid_reader(r.clone());
        (0..d.d.len())
            .map(|i| {
                let mut v = Vec::new();
                d.section(i, &c, true, &mut v);
                v
            })
            .collect()
    };
    let base = alone(rd).concat();
    let base2 = alone(inner);
    let sec = Rc::new(Cell::new(None));
    let bad: Rc<RefCell<Option<String>>> = Default::default();
    let n = Rc::new(Cell::new(0u64));
    let (s2, b2, n2, inn) = (sec.clone(), bad.clone(), n.clone(), inner.clone());
    let d2 = dumpers::<Rd>();
    rd.hook(Some(Box::new(move |_, _| {
        n2.set(n2.get() + 1);
        let c = CpuId::with_cpuid_reader(inn.clone());
        if let Some(i) = s2.get() {
            let mut v = Vec::new();
            d2.section(i, &c, true, &mut v);
            if let Some(x) = diff(&base2[i], &v) {
                b2.borrow_mut().get_or_insert(x);
            }
        }
    })));
    let got = waits_for_nothing(|| {
        guard(|| {
            let c = CpuId::with_cpuid_reader(rd.clone());
            let mut out = Vec::new();
            for i in 0..d.d.len() {
                sec.set(Some(i));
                d.section(i, &c, true, &mut out);
                tick();
            }
            out
        })
    });
    rd.hook(None);
    rep.eval(Some(mix(rd.machine().fingerprint()) ^ inner.machine().fingerprint() ^ 0x4e57));
    rep.count("decoders run inside another's reader", n.get());
    match got {
        Err(e) => rep.viol("nested:panic", || e, rd.machine()),
        Ok(v) => {
            if let Some(x) = diff(&base, &v) {
                rep.viol("nested:outer", || format!("over a reader that uses a decoder of {} itself: {}", inner.machine().describe(), x), rd.machine());
            }
        }
    }
    let bad = bad.borrow_mut().take();
    if let Some(x) = bad {
        rep.viol("nested:inner", || format!("inside the reader of another decoder: {}", x), inner.machine());
    }
}

/// One CPU of the random workload, alone (replay).
pub fn check_machine(rd: &Rd, seed: u64, rep: &mut Report) {
    let d = dumpers::<Rd>();
    let qs = queries::<Rd>();
    let ps = paths::<Rd>();
    let allowed: Vec<Vec<u32>> = d.d.iter().map(|s| leaves_of(s.sec, &qs)).collect();
    let mut rng = Rng::new(seed, 1);
    let other = Rd::new(Gen::new(seed, 3).machine());
    requests(&d, &allowed, rd, rep);
    irrelevance(&d, &allowed, rd, &mut rng, rep);
    snapshots(&ps, rd, rep);
    constructions(&d, rd, rep);
    repeat(&d, rd, &other, true, rep);
    nested(&d, rd, &other, rep);
    iterators(rd, &other, &mut rng, rep);
}

pub fn run(seed: u64, thorough: bool) -> Report {
    let n = if thorough { 400 } else { 48 };
    let mut rep = shards("C11", n, |i, rep| {
        let d = dumpers::<Rd>();
        let qs = queries::<Rd>();
        let ps = paths::<Rd>();
        let allowed: Vec<Vec<u32>> = d.d.iter().map(|s| leaves_of(s.sec, &qs)).collect();
        let mut g = Gen::new(seed, 11_000 + i as u64);
        let mut rng = Rng::new(seed, 12_000 + i as u64);
        let mut prev = Rd::new(g.machine());
        for k in 0..40 {
            let rd = Rd::new(g.machine());
            current(|| format!("reader discipline\n{}", rd.machine().describe()));
            requests(&d, &allowed, &rd, rep);
            irrelevance(&d, &allowed, &rd, &mut rng, rep);
            repeat(&d, &rd, &prev, k % 8 == 0, rep);
            iterators(&rd, &prev, &mut rng, rep);
            if k % 8 == 1 {
                current(|| format!("a decoder inside the reader of another\n{}", rd.machine().describe()));
                nested(&d, &rd, &prev, rep);
            }
            if k % 4 == 0 {
                snapshots(&ps, &rd, rep);
                constructions(&d, &rd, rep);
            }
            prev = rd;
        }
    });
    let mut r2 = Report::new("C11");
    may_be_shared(&mut r2);
    threads(seed, if thorough { 4000 } else { 300 }, 24, &mut r2);
    rep.merge(r2);
    rep.rule = "An evaluation is one pair of decoders over unlike CPUs interleaved section by section and compared with each alone, one pair of iterators advanced in turn and cloned midway, or one concurrent run. Further monitors: every reader request is checked against the leaves the section is documented to use, sections are recomputed after all other leaves changed, structures are re-read after every answer of the reader changed. Non-trivial: at least one structure or entry was returned; distinct by both CPUs' register contents.".into();
    rep
}
