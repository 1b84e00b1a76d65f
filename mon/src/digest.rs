//! C17: one build's results, as a list of digests that another build of the
//! same sources must reproduce.
use crate::fields::base;
use crate::gen::Gen;
use crate::machine::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;
use raw_cpuid::CpuId;
use std::fmt::Write;

const WHOLE: usize = 32;

fn hash_v(h: u64, v: &V) -> u64 {
    let s = format!("{:?}", v);
    s.bytes().fold(mix(h), |h, b| (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3))
}

/// The CPU of a case: the same in every build.
fn machine(seed: u64, job: usize, idx: usize, paths: &[Path<Rd>]) -> Machine {
    let mut g = Gen::new(seed ^ 0x17, (job * 1_000_000 + idx) as u64);
    if job < WHOLE {
        return match idx {
            0 if job < 4 => Machine::new([Dflt::Zero, Dflt::Ones, Dflt::Noise(seed), Dflt::Noise(!seed)][job]),
            _ => g.machine(),
        };
    }
    let p = &paths[job - WHOLE];
    let v = [INTEL, AMD, HYGON, b"CentaurHauls"][idx % 4];
    let mut m = base(v, if idx % 3 == 0 { Dflt::Zero } else { Dflt::Noise(g.rng.u64()) });
    (p.prep)(&mut m);
    for &(l, s) in p.cells {
        if l != 0 {
            let r = g.rng.regs();
            m.put(l, s, r);
        }
    }
    (p.prep)(&mut m);
    m
}

/// CPUs of the coverage-guided corpus, and some that combine their cells.
fn corpus_machine(c: &crate::corpus::Corpus, seed: u64, chunk: usize, idx: usize) -> Machine {
    let n = 16.min(c.items.len() - 16 * chunk);
    let mut m = if idx < n { c.items[16 * chunk + idx].m.clone() } else { c.combined(&mut Rng::new(seed, (chunk * 100 + idx) as u64)) };
    crate::corpus::settle(&mut m);
    m
}

fn rows_of(job: usize, m: &Machine, paths: &[Path<Rd>], d: &DumpModel<Rd>, f: &mut dyn FnMut(&dyn Fn() -> String, &V)) {
    let rd = Rd::new(m.clone());
    rd.set_budget(200_000);
    let c = match guard(|| CpuId::with_cpuid_reader(rd.clone())) {
        Ok(c) => c,
        Err(e) => return f(&|| "construction".into(), &V::S(format!("PANIC: {}", e))),
    };
    if job < WHOLE || job >= WHOLE + paths.len() {
        for r in d.dump(&c, false) {
            f(&|| format!("{}[{}].{}", r.sec, r.idx, r.name), &r.v);
        }
    } else {
        let p = &paths[job - WHOLE];
        let r = (p.eval)(&c, &|_| true, &mut |i, v| f(&|| format!("{}.{}", p.id, p.info[i].name), &v));
        f(&|| format!("{}: present", p.id), &V::S(format!("{:?}", r)));
    }
}

fn params(thorough: bool) -> (usize, usize) {
    if thorough {
        (400, 4000)
    } else {
        (40, 250)
    }
}

/// Writes `job idx digest fingerprint-of-registers values` for every case.
pub fn run(seed: u64, thorough: bool, few: usize, out: &str) {
    let np = paths::<Rd>().len();
    let (mut nw, mut nf) = params(thorough);
    if few > 0 {
        (nw, nf) = (few, few);
    }
    let corpus = crate::corpus::load_corpus();
    let guided = corpus.items.len().div_ceil(16);
    let r = shards("C17", WHOLE + np + guided, |job, rep| {
        let ps = paths::<Rd>();
        let d = dumpers::<Rd>();
        let mut t = String::new();
        let cases = match job {
            _ if job >= WHOLE + np => 16.min(corpus.items.len() - 16 * (job - WHOLE - np)) + 4,
            _ if job < WHOLE => nw,
            _ => nf,
        };
        for idx in 0..cases {
            tick();
            let m = if job >= WHOLE + np { corpus_machine(&corpus, seed, job - WHOLE - np, idx) } else { machine(seed, job, idx, &ps) };
            current(|| format!("build comparison\n{}", m.describe()));
            let (mut h, mut n) = (0u64, 0u64);
            rows_of(job, &m, &ps, &d, &mut |_, v| {
                n += 1;
                h = hash_v(h, v);
            });
            writeln!(t, "{} {} {:016x} {:016x} {}", job, idx, h, m.fingerprint(), n).unwrap();
        }
        rep.count("cases", 1);
        TEXTS.lock().unwrap().push((job, t));
    });
    let _ = r;
    TEXTS.lock().unwrap().sort_by_key(|t| t.0);
    let mut text = String::new();
    for t in TEXTS.lock().unwrap().iter() {
        text += &t.1;
    }
    std::fs::write(out, text).unwrap();
}

static TEXTS: std::sync::Mutex<Vec<(usize, String)>> = std::sync::Mutex::new(Vec::new());

/// All values of one case, for locating a difference.
pub fn one(seed: u64, job: usize, idx: usize) {
    let (ps, d) = (paths::<Rd>(), dumpers::<Rd>());
    let m = if job >= WHOLE + ps.len() { corpus_machine(&crate::corpus::load_corpus(), seed, job - WHOLE - ps.len(), idx) } else { machine(seed, job, idx, &ps) };
    println!("{}---", m.describe());
    rows_of(job, &m, &ps, &d, &mut |n, v| println!("{} = {:?}", n(), v));
}
