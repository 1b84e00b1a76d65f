//! C12: serialization round trips and replay of recordings.
use crate::gen::Gen;
use crate::machine::*;
use crate::model::*;
use crate::report::*;
use raw_cpuid::{CpuId, CpuIdReader, CpuIdResult};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// Passes requests on and writes down the answers.
#[derive(Clone)]
struct Recorder<R: CpuIdReader>(R, Rc<RefCell<Vec<(u32, u32, CpuIdResult)>>>);
impl<R: CpuIdReader> CpuIdReader for Recorder<R> {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        let r = self.0.cpuid2(eax, ecx);
        self.1.borrow_mut().push((eax, ecx, r));
        r
    }
}

/// Answers from a recording; a request that is not in it is noted.
#[derive(Clone)]
struct Replay(Rc<HashMap<(u32, u32), CpuIdResult>>, Rc<RefCell<Vec<(u32, u32)>>>);
impl CpuIdReader for Replay {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        match self.0.get(&(eax, ecx)) {
            Some(r) => *r,
            None => {
                self.1.borrow_mut().push((eax, ecx));
                CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 }
            }
        }
    }
}

fn same(a: &CpuIdResult, b: &CpuIdResult) -> bool {
    a.eax == b.eax && a.ebx == b.ebx && a.ecx == b.ecx && a.edx == b.edx
}

fn nomachine() -> Machine {
    Machine::new(Dflt::Zero)
}

fn roundtrip(x: Regs, r: &mut Report) {
    let o = to_res(x);
    r.eval(Some(mix((x.a as u64) << 32 | x.b as u64) ^ mix(mix((x.c as u64) << 32 | x.d as u64))));
    let mut chk = |fmt: &str, back: Result<CpuIdResult, String>| {
        let ok = matches!(&back, Ok(b) if same(b, &o));
        if !ok {
            let mut m = nomachine();
            m.put(0, 0, x);
            r.viol(&format!("roundtrip:{}", fmt), || format!("{:x?} comes back from {} as {:x?}", x, fmt, back), &m);
        }
    };
    let g = |f: &dyn Fn() -> Result<CpuIdResult, String>| guard(f).unwrap_or_else(Err);
    chk("JSON", g(&|| {
        let t = serde_json::to_string(&o).map_err(|e| e.to_string())?;
        serde_json::from_str(&t).map_err(|e| format!("{} from {}", e, t))
    }));
    chk("pretty JSON", g(&|| {
        let t = serde_json::to_vec_pretty(&o).map_err(|e| e.to_string())?;
        serde_json::from_slice(&t).map_err(|e| e.to_string())
    }));
    chk("JSON value", g(&|| {
        let t = serde_json::to_value(o).map_err(|e| e.to_string())?;
        serde_json::from_value(t).map_err(|e| e.to_string())
    }));
    chk("JSON reader", g(&|| {
        let t = serde_json::to_string(&o).map_err(|e| e.to_string())?;
        serde_json::from_reader(t.as_bytes()).map_err(|e| e.to_string())
    }));
    chk("bincode", g(&|| {
        let t = bincode::serialize(&o).map_err(|e| e.to_string())?;
        bincode::deserialize(&t).map_err(|e| e.to_string())
    }));
    chk("bincode (big endian, varint)", g(&|| {
        use bincode::Options;
        let c = || bincode::DefaultOptions::new().with_big_endian().with_varint_encoding();
        let t = c().serialize(&o).map_err(|e| e.to_string())?;
        c().deserialize(&t).map_err(|e| e.to_string())
    }));
}

/// Records everything a decoder over `m` says, sends the recording through
/// the format and replays it.
fn replay(d0: &DumpModel<Rd>, d1: &DumpModel<Recorder<Rd>>, d2: &DumpModel<Replay>, m: &Machine, r: &mut Report) {
    current(|| format!("replay\n{}", m.describe()));
    let rd = Rd::new(m.clone());
    rd.set_budget(40_000_000);
    let orig = match guard(|| CpuId::with_cpuid_reader(rd.clone())) {
        Ok(c) => d0.dump(&c, true),
        Err(_) => return,
    };
    let log = Rc::new(RefCell::new(Vec::new()));
    let rec = Recorder(rd.clone(), log.clone());
    let seen = match guard(|| CpuId::with_cpuid_reader(rec)) {
        Ok(c) => d1.dump(&c, true),
        Err(e) => return r.viol("panic:recording", || e, m),
    };
    r.eval(Some(m.fingerprint()));
    r.count("recordings replayed", 1);
    if let Some(x) = diff(&orig, &seen) {
        r.viol("recording", || format!("a recording reader changes the results: {}", x), m);
    }
    let mut list = log.borrow().clone();
    let mut have = std::collections::HashSet::new();
    list.retain(|x| have.insert((x.0, x.1)));
    r.count("recorded answers", list.len() as u64);
    r.max("max answers in one recording", list.len() as u64);
    let json = serde_json::to_string(&list).ok().and_then(|t| serde_json::from_str::<Vec<(u32, u32, CpuIdResult)>>(&t).ok());
    let bin = bincode::serialize(&list).ok().and_then(|t| bincode::deserialize::<Vec<(u32, u32, CpuIdResult)>>(&t).ok());
    for (fmt, back) in [("JSON", json), ("bincode", bin)] {
        let back = match back {
            Some(b) => b,
            None => {
                r.viol(&format!("recording:{}", fmt), || format!("the recording does not survive {}", fmt), m);
                continue;
            }
        };
        if back.len() != list.len() || !back.iter().zip(&list).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && same(&a.2, &b.2)) {
            r.viol(&format!("recording:{}", fmt), || format!("the recording changes in {}", fmt), m);
        }
        let map: HashMap<_, _> = back.iter().map(|x| ((x.0, x.1), x.2)).collect();
        let missing = Rc::new(RefCell::new(Vec::new()));
        let re = match guard(|| CpuId::with_cpuid_reader(Replay(Rc::new(map), missing.clone()))) {
            Ok(c) => d2.dump(&c, true),
            Err(e) => {
                r.viol("panic:replay", || e, m);
                continue;
            }
        };
        if let Some(x) = diff(&orig, &re) {
            r.viol("replay", || format!("replaying a {} recording: {}", fmt, x), m);
        }
        if !missing.borrow().is_empty() {
            r.viol("replay:requests", || format!("the replay asks for {:x?}, which the recorded run did not", missing.borrow()), m);
        }
    }
}

pub struct Replayer(DumpModel<Rd>, DumpModel<Recorder<Rd>>, DumpModel<Replay>);
impl Replayer {
    pub fn new() -> Replayer {
        Replayer(dumpers::<Rd>(), dumpers::<Recorder<Rd>>(), dumpers::<Replay>())
    }
    pub fn check(&self, m: &Machine, r: &mut Report) {
        replay(&self.0, &self.1, &self.2, m, r)
    }
}

pub fn run(seed: u64, thorough: bool) -> Report {
    let n = if thorough { 64 } else { 16 };
    let (regs, machines) = if thorough { (20_000, 250) } else { (3_000, 25) };
    let mut r = shards("C12", n, |i, r| {
        let mut g = Gen::new(seed, 12_000 + i as u64);
        if i == 0 {
            for k in 0..4 {
                for b in 0..32 {
                    for base in [0u32, u32::MAX] {
                        let mut x = Regs::new(base, base, base, base);
                        x.set(k, base ^ 1 << b);
                        roundtrip(x, r);
                    }
                }
            }
            r.count("single-bit patterns", 256);
        }
        for _ in 0..regs {
            let x = g.rng.regs();
            roundtrip(x, r);
        }
        r.count("register quadruples", regs);
        let (d0, d1, d2) = (dumpers::<Rd>(), dumpers::<Recorder<Rd>>(), dumpers::<Replay>());
        for k in 0..machines {
            let m = g.machine();
            replay(&d0, &d1, &d2, &m, r);
            if k == 0 {
                r.sample(|| format!("vendor {:?}, leaf 1 {:x?}, max leaves {:#x}/{:#x}", String::from_utf8_lossy(&m.vendor_bytes()), m.get(1, 0), m.max_basic(), m.max_ext()));
            }
        }
    });
    r.rule = "A case is a register quadruple sent through JSON (text, pretty, value, reader) and bincode (two configurations) and compared register by register, or a synthetic CPU whose every answer is recorded, serialized, deserialized and replayed, with all results and renderings compared; distinct quadruples and CPUs are counted.".into();
    r
}
