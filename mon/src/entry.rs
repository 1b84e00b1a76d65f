//! C21: equivalent ways of asking. One CPU is put behind readers of different
//! forms, and asked through every entry point that is documented or named as
//! equivalent to another.
#![allow(deprecated)]
use crate::gen::*;
use crate::machine::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;
use raw_cpuid::{self as rc, CpuId, CpuIdReader, CpuIdResult};
use std::cell::RefCell;

thread_local! {
    static CPU: RefCell<Option<Rd>> = const { RefCell::new(None) };
    static CALLS: RefCell<Vec<(u32, u32)>> = const { RefCell::new(Vec::new()) };
}

/// A plain function as a reader.
fn function(a: u32, c: u32) -> CpuIdResult {
    CPU.with(|x| x.borrow().as_ref().unwrap().cpuid2(a, c))
}

/// A reader that defines both methods, and is large and neither `Copy` nor
/// free of padding.
#[derive(Clone)]
struct Bulky {
    _front: u8,
    rd: Rd,
    _pad: Vec<u8>,
    _back: [u64; 40],
}
impl CpuIdReader for Bulky {
    fn cpuid1(&self, a: u32) -> CpuIdResult {
        self.rd.cpuid2(a, 0)
    }
    fn cpuid2(&self, a: u32, c: u32) -> CpuIdResult {
        self.rd.cpuid2(a, c)
    }
}

/// A reader without size.
#[derive(Clone, Copy)]
struct Empty;
impl CpuIdReader for Empty {
    fn cpuid2(&self, a: u32, c: u32) -> CpuIdResult {
        function(a, c)
    }
}

struct Forms<F: CpuIdReader> {
    make: fn(&Rd) -> F,
    rd: DumpModel<Rd>,
    closure: DumpModel<F>,
    fun: DumpModel<fn(u32, u32) -> CpuIdResult>,
    bulky: DumpModel<Bulky>,
    empty: DumpModel<Empty>,
}

fn closure(rd: &Rd) -> impl CpuIdReader + Fn(u32, u32) -> CpuIdResult + 'static {
    let rd = rd.clone();
    move |a, c| rd.cpuid2(a, c)
}

fn of<F: CpuIdReader + 'static>(make: fn(&Rd) -> F) -> Forms<F> {
    Forms { make, rd: dumpers(), closure: dumpers(), fun: dumpers(), bulky: dumpers(), empty: dumpers() }
}

/// The models of all forms, built once per thread that needs them.
pub struct Judge(Box<dyn Fn(&Rd, &mut Report)>);
impl Judge {
    pub fn new() -> Judge {
        let f = of(closure);
        Judge(Box::new(move |rd, rep| forms(&f, rd, rep)))
    }
    pub fn check_machine(&self, m: &Machine, rep: &mut Report) {
        let rd = Rd::new(m.clone());
        aliases(&rd, rep);
        (self.0)(&rd, rep);
    }
}

fn forms<F: CpuIdReader + 'static>(f: &Forms<F>, rd: &Rd, rep: &mut Report) {
    let text = false;
    let m = rd.machine();
    CPU.with(|x| *x.borrow_mut() = Some(rd.clone()));
    let fresh = || rd.set_budget(2_000_000);
    let get = |what: &str, g: &dyn Fn() -> Vec<Row>, rep: &mut Report| -> Option<Vec<Row>> {
        fresh();
        match guard(g) {
            Ok(v) => Some(v),
            Err(e) => {
                rep.viol("construction:panic", || format!("{}: {}", what, e), m);
                None
            }
        }
    };
    let Some(want) = get("with_cpuid_reader", &|| f.rd.dump(&CpuId::with_cpuid_reader(rd.clone()), text), rep) else { return };
    let bulky = || Bulky { _front: 1, rd: rd.clone(), _pad: vec![7; 3], _back: [u64::MAX; 40] };
    let ways: Vec<(&str, Box<dyn Fn() -> Vec<Row> + '_>)> = vec![
        ("with_cpuid_fn over a reader type", Box::new(|| f.rd.dump(&CpuId::with_cpuid_fn(rd.clone()), text))),
        ("a function pointer", Box::new(|| f.fun.dump(&CpuId::with_cpuid_fn(function as fn(u32, u32) -> CpuIdResult), text))),
        ("a reader type that defines cpuid1 and is large", Box::new(|| f.bulky.dump(&CpuId::with_cpuid_reader(bulky()), text))),
        ("a reader type without size", Box::new(|| f.empty.dump(&CpuId::with_cpuid_reader(Empty), text))),
        ("a closure (with_cpuid_reader)", Box::new(|| f.closure.dump(&CpuId::with_cpuid_reader((f.make)(rd)), text))),
        ("a closure (with_cpuid_fn)", Box::new(|| f.closure.dump(&CpuId::with_cpuid_fn((f.make)(rd)), text))),
        ("a copy of a decoder", Box::new(|| {
            let c = CpuId::with_cpuid_fn(Empty);
            let d = By(&c).dup();
            let _ = d.get_vendor_info();
            f.empty.dump(&c, text)
        })),
        ("a decoder that has been moved and boxed", Box::new(|| {
            let c = CpuId::with_cpuid_reader(bulky());
            let b = Box::new(c);
            let c = vec![*b].pop().unwrap();
            f.bulky.dump(&c, text)
        })),
    ];
    for (what, g) in &ways {
        let Some(got) = get(what, g, rep) else { continue };
        rep.eval(Some(mix(m.fingerprint() ^ mix(what.len() as u64 ^ (what.as_bytes()[3] as u64) << 8))));
        rep.count("values compared between reader forms", want.len() as u64);
        if let Some(x) = diff(&want, &got) {
            rep.viol(&format!("form:{}", what), || format!("a decoder over {} differs from one built by with_cpuid_reader over the reader type: {}", what, x), m);
        }
    }
    rep.sample(|| format!("{} values equal behind 8 forms of reader", want.len()));
}

/// `cpuid1` of a reader that does not define it.
fn one_argument(seed: u64, n: u32, rep: &mut Report) {
    let mut rng = Rng::new(seed, 31_000);
    let m = Machine::new(Dflt::Noise(seed));
    let rd = Rd::new(m.clone());
    CPU.with(|x| *x.borrow_mut() = Some(rd.clone()));
    let log = |a: u32, c: u32| {
        CALLS.with(|x| x.borrow_mut().push((a, c)));
        to_res(m.get(a, c))
    };
    let mut leaves: Vec<u32> = (0..0x40).chain(0x4000_0000..0x4000_0020).chain(0x8000_0000..0x8000_0040).chain([u32::MAX, 0x7fff_ffff, 0xc000_0000, 0x2000_0000]).collect();
    leaves.extend((0..32).map(|b| 1u32 << b));
    leaves.extend((0..n).map(|_| rng.u32()));
    for l in leaves {
        rd.set_budget(1000);
        let want = to_res(m.get(l, 0)).to_v();
        let r = guard(|| {
            CALLS.with(|x| x.borrow_mut().clear());
            let a = log.cpuid1(l).to_v();
            let calls = CALLS.with(|x| x.borrow().clone());
            let s = rng.u32();
            let b = CpuIdReader::cpuid2(&log, l, s).to_v();
            let all = CALLS.with(|x| x.borrow().clone());
            (a, b, Empty.cpuid1(l).to_v(), (function as fn(u32, u32) -> CpuIdResult).cpuid1(l).to_v(), calls, all, s)
        });
        let (a, b, e, f, calls, all, s) = match r {
            Err(e) => {
                rep.viol("cpuid1:panic", || e, &m);
                continue;
            }
            Ok(x) => x,
        };
        for (who, x) in [("a closure", &a), ("a reader type", &e), ("a function", &f)] {
            if *x != want {
                rep.viol("cpuid1:value", || format!("cpuid1({:#x}) of {} is {:?}, cpuid2({:#x}, 0) is {:?}", l, who, x, l, want), &m);
            }
        }
        if calls != [(l, 0)] {
            rep.viol("cpuid1:calls", || format!("cpuid1({:#x}) of a closure called it with {:x?}", l, calls), &m);
        }
        if b != to_res(m.get(l, s)).to_v() || all.last() != Some(&(l, s)) || all.len() != calls.len() + 1 {
            rep.viol("cpuid2:calls", || format!("cpuid2({:#x}, {:#x}) of a closure called it with {:x?} and gave {:?}", l, s, &all[calls.len()..], b), &m);
        }
        rep.eval(Some(mix(l as u64 ^ 0xc1)));
        rep.count("leaves asked with one argument", 1);
    }
}

/// Conversions from numbers, against the accessors and the manual.
fn conversions(seed: u64, thorough: bool, part: u32, parts: u32, rep: &mut Report) {
    let m = Machine::new(Dflt::Zero);
    let reg = |x: u32| match x {
        2 => "Avx".to_string(),
        3 => "MpxBndregs".into(),
        4 => "MpxBndcsr".into(),
        5 => "Avx512Opmask".into(),
        6 => "Avx512ZmmHi256".into(),
        7 => "Avx512ZmmHi16".into(),
        8 => "Pt".into(),
        9 => "Pkru".into(),
        13 => "Hdc".into(),
        x => format!("Unknown({})", x),
    };
    let one = |x: u32, rep: &mut Report| {
        let t = match guard(|| format!("{:?}", rc::ExtendedRegisterType::from(x))) {
            Err(e) => return rep.viol("ExtendedRegisterType:panic", || format!("from({}): {}", x, e), &m),
            Ok(t) => t,
        };
        if t != reg(x) {
            rep.viol("ExtendedRegisterType:from", || format!("ExtendedRegisterType::from({}) is {}, expected {}", x, t, reg(x)), &m);
        }
        rep.eval(Some(mix(x as u64 ^ 0xf0 << 32)));
        rep.count("numbers converted", 1);
    };
    let mut rng = Rng::new(seed, 32_000 + part as u64);
    if part == 0 {
        for x in (0..70_000).chain((0..32).flat_map(|b| [(1u32 << b).wrapping_sub(1), 1 << b, (1u32 << b) + 2])) {
            one(x, rep);
        }
        let level = |x: u8| match x {
            0 => "Reserved".to_string(),
            1 => "Core".into(),
            2 => "Complex".into(),
            3 => "Die".into(),
            4 => "Socket".into(),
            x => format!("Unknown({})", x),
        };
        for x in 0..=255u8 {
            match guard(|| {
                let y: rc::HierarchyLevelType = x.into();
                match y {
                    rc::HierarchyLevelType::Reserved => "Reserved".to_string(),
                    rc::HierarchyLevelType::Core => "Core".into(),
                    rc::HierarchyLevelType::Complex => "Complex".into(),
                    rc::HierarchyLevelType::Die => "Die".into(),
                    rc::HierarchyLevelType::Socket => "Socket".into(),
                    rc::HierarchyLevelType::Unknown(n) => format!("Unknown({})", n),
                }
            }) {
                Err(e) => rep.viol("HierarchyLevelType:panic", || format!("from({}): {}", x, e), &m),
                Ok(t) if t != level(x) => rep.viol("HierarchyLevelType:from", || format!("HierarchyLevelType::from({}) is {}, expected {}", x, t, level(x)), &m),
                Ok(_) => {}
            }
            rep.eval(Some(mix(x as u64 ^ 0xf1 << 32)));
            rep.count("numbers converted", 1);
        }
        rep.exhaustive.push("HierarchyLevelType::from: all 256 values".into());
    }
    for _ in 0..if thorough { 8_000_000 } else { 200_000 } / parts {
        let s = rng.below(32);
        let x = rng.u32() >> s;
        one(x, rep);
    }
}

/// Old names against new ones, on one CPU.
fn aliases(rd: &Rd, rep: &mut Report) {
    let m = rd.machine();
    rd.set_budget(10_000);
    let r = guard(|| {
        let c = CpuId::with_cpuid_reader(rd.clone());
        let mut v: Vec<(&str, V, V)> = Vec::new();
        if let Some(x) = c.get_vendor_info() {
            v.push(("VendorInfo::as_string and as_str", x.as_string().to_v(), x.as_str().to_v()));
            v.push(("VendorInfo's display and as_str", format!("{}", x).to_v(), x.as_str().to_v()));
        }
        if let Some(x) = c.get_extended_feature_info() {
            v.push(("has_av512vbmi2 and has_avx512vbmi2", x.has_av512vbmi2().to_v(), x.has_avx512vbmi2().to_v()));
        }
        if let Some(x) = c.get_soc_vendor_info().and_then(|x| x.get_vendor_brand()) {
            v.push(("SoCVendorBrand::as_string and as_str", x.as_string().to_v(), x.as_str().to_v()));
            v.push(("SoCVendorBrand's display and as_str", format!("{}", x).to_v(), x.as_str().to_v()));
        }
        if let Some(x) = c.get_processor_serial() {
            let all = x.serial_all();
            v.push(("serial and serial_all", (x.serial() as u128).to_v(), (all & u64::MAX as u128).to_v()));
            v.push(("serial_lower and serial_all", (x.serial_lower() as u128).to_v(), (all & u32::MAX as u128).to_v()));
            v.push(("serial_middle and serial_all", (x.serial_middle() as u128).to_v(), (all >> 32 & u32::MAX as u128).to_v()));
            v.push(("serial_upper and serial_all", (x.serial_upper() as u128).to_v(), (all >> 64).to_v()));
        }
        if let Some(x) = c.get_extended_cpu_topology() {
            for l in x.take(8) {
                let t = l.level_type();
                v.push(("level_type and its number", format!("{:?}", t).to_v(), format!("{:?}", rc::HierarchyLevelType::from((m.get(0x8000_0026, 0).c >> 8) as u8)).to_v()));
                break;
            }
        }
        if let Some(x) = c.get_extended_state_info() {
            for l in x.iter().take(40) {
                v.push(("register and its number", format!("{:?}", l.register()).to_v(), format!("{:?}", rc::ExtendedRegisterType::from(l.subleaf)).to_v()));
            }
        }
        v
    });
    match r {
        Err(e) => rep.viol("aliases:panic", || e, m),
        Ok(v) => {
            rep.eval(if v.is_empty() { None } else { Some(mix(m.fingerprint() ^ 0xa11a)) });
            for (what, a, b) in v {
                rep.count("equivalent accessors compared", 1);
                if a != b {
                    rep.viol(&format!("alias:{}", what), || format!("{} disagree: {:?} and {:?}", what, a, b), m);
                }
            }
        }
    }
}

pub fn run(seed: u64, thorough: bool) -> Report {
    let n = if thorough { 200 } else { 24 };
    let k = 8;
    let mut rep = shards("C21", n + k + 1, |i, rep| {
        if i == n + k {
            return one_argument(seed, if thorough { 1_000_000 } else { 30_000 }, rep);
        }
        if i >= n {
            return conversions(seed, thorough, (i - n) as u32, k as u32, rep);
        }
        let judge = Judge::new();
        let mut g = Gen::new(seed, 30_000 + i as u64);
        for j in 0..60 {
            let mut m = g.machine();
            if g.rng.chance(1, 2) {
                m.at_least(0x1f);
                m.at_least(0x8000_0026);
            }
            crate::corpus::settle(&mut m);
            current(|| format!("reader forms\n{}", m.describe()));
            if j % 4 == 0 {
                judge.check_machine(&m, rep);
            }
            for _ in 0..6 {
                let mut x = m.clone();
                crate::corpus::flip(&mut x, &mut g.rng);
                aliases(&Rd::new(x), rep);
            }
            rep.count("random CPUs", 1);
        }
    });
    rep.rule = "An evaluation is one CPU asked through two equivalent entry points: the full list of its values behind another form of reader (closure, function pointer, large or empty type, with_cpuid_reader or with_cpuid_fn, copied or moved decoder), its deprecated and its current accessors, one leaf asked with one and with two arguments, or one number converted. Distinct by CPU contents and entry point.".into();
    rep
}

/// A copy where the type can be copied, a clone elsewhere.
struct By<'a, T>(&'a T);
impl<T: Copy> By<'_, T> {
    #[allow(dead_code)]
    fn dup(&self) -> T {
        *self.0
    }
}
#[allow(dead_code)]
trait ByClone {
    type Of;
    fn dup(&self) -> Self::Of;
}
impl<T: Clone> ByClone for By<'_, T> {
    type Of = T;
    fn dup(&self) -> T {
        self.0.clone()
    }
}
