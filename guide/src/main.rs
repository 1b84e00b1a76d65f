//! Coverage-guided workload: evolves CPUs on which the instrumented library
//! takes edges, and satisfies comparisons, that no CPU before them did. The
//! CPUs found are written out for the monitors of every property to judge;
//! nothing is judged here.
//!
//! guide --seed N --n ITERATIONS --out FILE --stats FILE
#[path = "../../mon/src/noeffects.rs"]
#[allow(dead_code)]
mod effects;
mod faults {
    pub fn text(_: std::fmt::Arguments) {}
}
#[path = "../../mon/src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../mon/src/machine.rs"]
#[allow(dead_code)]
mod machine;
#[path = "../../mon/src/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../mon/src/terminal.rs"]
mod terminal;
#[path = "../../mon/src/types.rs"]
#[allow(dead_code)]
mod types;
#[path = "../../mon/src/val.rs"]
#[allow(dead_code)]
mod val;

mod cov;

use cov::Cmp;
use gen::*;
use machine::*;
use model::*;
use probe::{Dyn, Source};
use raw_cpuid::{CpuId, CpuIdReader, CpuIdResult};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

struct Src(Rd);
impl Source for Src {
    fn answer(&self, a: u32, c: u32) -> CpuIdResult {
        self.0.cpuid2(a, c)
    }
}

type Texts = Vec<(Vec<u8>, Vec<u8>)>;

struct Entry {
    m: Machine,
    cells: Vec<(u32, u32)>,
    cmps: Vec<Cmp>,
    texts: Texts,
}

struct Ran {
    edges: Vec<(u32, u8)>,
    cmps: Vec<Cmp>,
    texts: Texts,
    cells: Vec<(u32, u32)>,
}

/// What is evolved: the index of a section of the decoder, or one of these.
const RAW: usize = 1001;
const REPORT: usize = 1002;
const WHOLE: usize = 1000;

fn name_of(d: &DumpModel<Dyn>, sec: usize) -> &'static str {
    match sec {
        RAW => "raw",
        REPORT => "report",
        WHOLE => "CpuId",
        _ => d.d[sec].sec,
    }
}

/// Keeps what is printed short.
fn bounded(m: &Machine) -> Machine {
    let mut m = m.clone();
    for start in [0u32, 0x4000_0000, 0x8000_0000] {
        let a = m.get(start, 0).a;
        if a >= start && a - start > 60 {
            m.upd(start, 0, |r| r.a = start + (a - start) % 61);
        }
    }
    m
}

/// One section of the decoder on one CPU.
fn exec(d: &DumpModel<Dyn>, sec: usize, m: &Machine, text: bool) -> Ran {
    let rd = Rd::new(if sec == RAW { bounded(m) } else { m.clone() });
    rd.set_budget(if sec == REPORT { 300 } else { 2_000 });
    rd.start_log();
    let r = Dyn(Arc::new(Src(rd.clone())));
    let mut rows = Vec::new();
    cov::start();
    match sec {
        #[cfg(feature = "display")]
        RAW => drop(guard(|| probe::raw(r))),
        #[cfg(feature = "display")]
        REPORT => drop(guard(|| probe::report(CpuId::with_cpuid_reader(r)))),
        #[cfg(not(feature = "display"))]
        RAW | REPORT => (),
        WHOLE => drop(guard(|| format!("{:?}", CpuId::with_cpuid_reader(r)))),
        _ => {
            cov::pause();
            if let Ok(c) = guard(|| CpuId::with_cpuid_reader(r)) {
                cov::start();
                d.section(sec, &c, text, &mut rows);
            }
        }
    }
    cov::pause();
    let (edges, cmps, texts) = cov::taken();
    let mut cells = rd.take_log();
    cells.sort();
    cells.dedup();
    cells.truncate(if sec >= WHOLE { 120 } else { 48 });
    Ran { edges, cmps, texts, cells }
}

/// Numbers and texts written in the library's sources: values that some
/// decision may depend on.
#[derive(Default)]
struct Dict {
    nums: Vec<u32>,
    texts: Vec<Vec<u8>>,
}

fn dict(dir: &str) -> Dict {
    let mut d = Dict::default();
    let mut files: Vec<_> = std::fs::read_dir(dir).map(|x| x.flatten().map(|f| f.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let Ok(t) = std::fs::read_to_string(&f) else { continue };
        for line in t.lines() {
            let line = line.trim();
            if line.starts_with("//") || line.starts_with("desc:") {
                continue;
            }
            for (i, part) in line.split('"').enumerate() {
                if i % 2 == 1 && (2..=48).contains(&part.len()) && part.is_ascii() && !d.texts.iter().any(|x| x == part.as_bytes()) {
                    d.texts.push(part.as_bytes().to_vec());
                }
            }
            for w in line.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
                let w = w.replace('_', "").to_lowercase();
                let w = ["u8", "u16", "u32", "u64", "usize", "i32"].iter().find_map(|x| w.strip_suffix(x).map(str::to_string)).unwrap_or(w);
                let n = match (w.strip_prefix("0x"), w.strip_prefix("0b")) {
                    (Some(h), _) => u64::from_str_radix(h, 16).ok(),
                    (_, Some(b)) => u64::from_str_radix(b, 2).ok(),
                    _ if w.starts_with(|c: char| c.is_ascii_digit()) => w.parse().ok(),
                    _ => None,
                };
                match n {
                    Some(n) if n > 15 && n <= u32::MAX as u64 && !d.nums.contains(&(n as u32)) => d.nums.push(n as u32),
                    _ => (),
                }
            }
        }
    }
    d
}

/// The register words that carry the texts of a CPU, in reading order.
fn text_words(m: &Machine, cells: &[(u32, u32)]) -> Vec<Vec<(u32, u32, usize)>> {
    let _ = m;
    let all = |v: &[(u32, u32)]| v.iter().flat_map(|&(l, s)| (0..4).map(move |r| (l, s, r))).collect::<Vec<_>>();
    let mut v = vec![vec![(0, 0, RB), (0, 0, RD), (0, 0, RC)]];
    let has = |l: u32, s: u32| cells.contains(&(l, s));
    if has(0x8000_0002, 0) {
        v.push(all(&[(0x8000_0002, 0), (0x8000_0003, 0), (0x8000_0004, 0)]));
    }
    if has(0x17, 0) {
        v.push(all(&[(0x17, 1), (0x17, 2), (0x17, 3)]));
    }
    if has(0x4000_0000, 0) {
        v.push(vec![(0x4000_0000, 0, RB), (0x4000_0000, 0, RC), (0x4000_0000, 0, RD)]);
    }
    v
}

fn get_text(m: &Machine, w: &[(u32, u32, usize)]) -> Vec<u8> {
    w.iter().flat_map(|&(l, s, r)| m.get(l, s).get(r).to_le_bytes()).collect()
}
fn put_text(m: &mut Machine, w: &[(u32, u32, usize)], t: &[u8]) {
    for (k, &(l, s, r)) in w.iter().enumerate() {
        let b: Vec<u8> = (0..4).map(|i| t.get(4 * k + i).copied().unwrap_or(0)).collect();
        m.upd(l, s, |x| x.set(r, u32::from_le_bytes([b[0], b[1], b[2], b[3]])));
    }
}

fn bucket(n: u8) -> u64 {
    match n {
        0..=3 => n as u64,
        4..=7 => 4,
        8..=15 => 5,
        16..=31 => 6,
        32..=127 => 7,
        _ => 8,
    }
}

/// Only the cells that the section reads, so that what matters stays visible.
fn shrink(m: &Machine, cells: &[(u32, u32)]) -> Machine {
    let mut n = Machine::new(m.dflt);
    for &(l, s) in cells.iter().chain(&[(0, 0), (1, 0), (7, 0), (0x8000_0000, 0), (0x8000_0001, 0)]) {
        n.put(l, s, m.get(l, s));
    }
    n
}

struct Evolve<'a> {
    d: &'a DumpModel<Dyn>,
    sec: usize,
    g: Gen,
    corpus: Vec<Entry>,
    feats: HashSet<u64>,
    best: HashMap<u64, u32>,
    solved: HashSet<(u64, u64)>,
    consts: Vec<u64>,
    edges: HashSet<u32>,
    dict: &'a Dict,
}

impl Evolve<'_> {
    fn offer(&mut self, m: Machine, text: bool) {
        let r = exec(self.d, self.sec, &m, text);
        let mut fresh = false;
        for &(g, n) in &r.edges {
            fresh |= self.feats.insert((g as u64) << 8 | bucket(n));
            self.edges.insert(g);
        }
        let mut left: Vec<Cmp> = Vec::new();
        for c in &r.cmps {
            if c.a == c.b {
                fresh |= self.solved.insert((c.pc, c.a)) && c.bits >= 8;
                continue;
            }
            if c.bits >= 16 {
                let dist = (c.a ^ c.b).count_ones();
                let b = self.best.entry(c.pc).or_insert(65);
                if dist < *b {
                    *b = dist;
                    fresh = true;
                }
            }
            if left.len() < 512 && !left.contains(c) {
                left.push(*c);
            }
            if self.consts.len() < 600 && !self.consts.contains(&c.a) {
                self.consts.push(c.a);
            }
        }
        let mut texts = Vec::new();
        for t in r.texts {
            let h = |x: &[u8]| x.iter().fold(7u64, |h, b| mix(h ^ *b as u64));
            if t.0 == t.1 {
                fresh |= self.solved.insert((0, h(&t.0)));
            } else if texts.len() < 16 && !texts.contains(&t) {
                texts.push(t);
            }
        }
        if fresh && self.corpus.len() < 3000 {
            let m = if self.sec == RAW { bounded(&m) } else { shrink(&m, &r.cells) };
            self.corpus.push(Entry { m, cells: r.cells, cmps: left, texts });
        }
    }

    /// Makes a byte string that was compared equal to the other one, or
    /// writes a text from the sources where the CPU reports texts.
    fn retext(&mut self, k: usize, m: &mut Machine) {
        if self.g.rng.chance(1, 4) {
            return self.g.strings(m);
        }
        let e = &self.corpus[k];
        let rng = &mut self.g.rng;
        let words = text_words(m, &e.cells);
        if !e.texts.is_empty() && rng.chance(2, 3) {
            let (a, b) = &e.texts[rng.below(e.texts.len() as u32) as usize];
            for (have, want) in [(a, b), (b, a)] {
                for w in &words {
                    let mut t = get_text(m, w);
                    if let Some(p) = t.windows(have.len()).position(|x| x == &have[..]) {
                        t[p..p + want.len()].copy_from_slice(want);
                        put_text(m, w, &t);
                        return;
                    }
                }
            }
        }
        if self.dict.texts.is_empty() {
            return;
        }
        let lit = self.dict.texts[rng.below(self.dict.texts.len() as u32) as usize].clone();
        let w = &words[rng.below(words.len() as u32) as usize];
        let mut t = get_text(m, w);
        match rng.below(4) {
            0 => t = lit,
            1 => {
                t = vec![b' '; t.len()];
                let n = lit.len().min(t.len());
                t[..n].copy_from_slice(&lit[..n])
            }
            2 => {
                let mut u = lit.clone();
                u.extend([b' ']);
                u.extend(t);
                t = u
            }
            _ => {
                let n = lit.len().min(t.len());
                let at = rng.below((t.len() - n) as u32 + 1) as usize;
                t[at..at + n].copy_from_slice(&lit[..n])
            }
        }
        put_text(m, w, &t)
    }

    /// Makes one side of a comparison that failed equal to the other, by
    /// changing a register field that holds the first.
    fn answer(&mut self, k: usize, m: &mut Machine) {
        let e = &self.corpus[k];
        if e.cmps.is_empty() || e.cells.is_empty() {
            return;
        }
        let rng = &mut self.g.rng;
        let mut c = e.cmps[rng.below(e.cmps.len() as u32) as usize];
        for _ in 0..4 {
            if !self.solved.contains(&(c.pc, c.a)) {
                break;
            }
            c = e.cmps[rng.below(e.cmps.len() as u32) as usize];
        }
        let (mut want, mut have) = (c.a, c.b);
        if rng.chance(1, 8) {
            std::mem::swap(&mut want, &mut have);
        }
        match rng.below(8) {
            0 => want = want.wrapping_add(1),
            1 => want = want.wrapping_sub(1),
            2 => {
                want = want.wrapping_sub(1);
                have = have.wrapping_sub(1)
            }
            _ => {}
        }
        if c.bits > 32 && (want >> 32 != 0 || have >> 32 != 0) {
            // two registers
            let (wl, wh) = (want as u32, (want >> 32) as u32);
            let (hl, hh) = (have as u32, (have >> 32) as u32);
            for &(l, s) in &e.cells {
                let mut r = m.get(l, s);
                for i in 0..4 {
                    if r.get(i) == hl {
                        r.set(i, wl)
                    } else if r.get(i) == hh {
                        r.set(i, wh)
                    }
                }
                m.put(l, s, r);
            }
            return;
        }
        let (want, have) = (want as u32, have as u32);
        let w = (32 - (want | have).leading_zeros()).max(1);
        let mask = ((1u64 << w) - 1) as u32;
        let mut places = Vec::new();
        for &(l, s) in &e.cells {
            for i in 0..4 {
                let r = m.get(l, s).get(i);
                for sh in 0..=32 - w {
                    if (r >> sh) & mask == have {
                        places.push((l, s, i, sh));
                    }
                }
                // compared in place, under a mask
                if have != 0 && r & have == have {
                    places.push((l, s, i, 0));
                }
            }
        }
        if places.is_empty() {
            let &(l, s) = &e.cells[rng.below(e.cells.len() as u32) as usize];
            places.push((l, s, rng.below(4) as usize, rng.below(33 - w)));
        }
        let p = places[rng.below(places.len() as u32) as usize];
        m.upd(p.0, p.1, |r| {
            let v = r.get(p.2);
            r.set(p.2, v & !(mask << p.3) | (want & mask) << p.3)
        });
    }

    fn mutate(&mut self, k: usize) -> Machine {
        let mut m = self.corpus[k].m.clone();
        let n = match self.g.rng.below(8) {
            0..=4 => 1,
            5 | 6 => 2,
            _ => 4,
        };
        for _ in 0..n {
            let cells = self.corpus[k].cells.clone();
            let op = self.g.rng.below(17);
            if op == 16 {
                let worth = !self.corpus[k].texts.is_empty() || cells.iter().any(|c| matches!(c.0, 0x8000_0002 | 0x17 | 0x4000_0000));
                if worth || self.g.rng.chance(1, 8) {
                    self.retext(k, &mut m);
                    continue;
                }
            }
            if op < 7 || op == 16 {
                self.answer(k, &mut m);
                continue;
            }
            let (l, s) = if cells.is_empty() { (1, 0) } else { cells[self.g.rng.below(cells.len() as u32) as usize] };
            let reg = self.g.rng.below(4) as usize;
            match op {
                7 | 8 => {
                    let b = self.g.rng.below(32);
                    m.upd(l, s, |r| r.set(reg, r.get(reg) ^ 1 << b))
                }
                9 => {
                    let v = self.g.rng.reg();
                    m.upd(l, s, |r| r.set(reg, v))
                }
                10 => {
                    let (sh, v) = (8 * self.g.rng.below(4), self.g.rng.below(256));
                    m.upd(l, s, |r| r.set(reg, r.get(reg) & !(255 << sh) | v << sh))
                }
                11 if !self.consts.is_empty() => {
                    let c = if !self.dict.nums.is_empty() && self.g.rng.chance(1, 2) {
                        self.dict.nums[self.g.rng.below(self.dict.nums.len() as u32) as usize]
                    } else {
                        self.consts[self.g.rng.below(self.consts.len() as u32) as usize] as u32
                    };
                    let w = (32 - c.leading_zeros()).max(1);
                    let sh = if self.g.rng.chance(1, 2) { 0 } else { self.g.rng.below(33 - w) };
                    let mask = (((1u64 << w) - 1) as u32) << sh;
                    let whole = self.g.rng.chance(1, 2);
                    m.upd(l, s, |r| r.set(reg, if whole { c << sh } else { r.get(reg) & !mask | c << sh }))
                }
                12 => {
                    let sig = if self.consts.is_empty() || self.g.rng.chance(1, 2) {
                        self.g.signature()
                    } else {
                        // a displayed family and model that the library asks about
                        let n = self.consts.len() as u32;
                        let f = self.consts[self.g.rng.below(n) as usize] as u32 & 0x1ff;
                        let d = self.consts[self.g.rng.below(n) as usize] as u32 & 0xff;
                        let (bf, xf) = if f >= 15 { (15, f - 15) } else { (f, 0) };
                        (xf & 255) << 20 | (d >> 4) << 16 | bf << 8 | (d & 15) << 4 | self.g.rng.below(16)
                    };
                    m.upd(1, 0, |r| r.a = sig)
                }
                13 => {
                    let v = self.g.vendor();
                    m.set_vendor(&v)
                }
                14 => {
                    let (a, b) = (self.g.max_basic(), self.g.max_ext());
                    if self.g.rng.chance(1, 2) {
                        m.upd(0, 0, |r| r.a = a)
                    } else {
                        m.upd(0x8000_0000, 0, |r| r.a = b)
                    }
                }
                _ => {
                    // a cell of another CPU that the section read
                    let o = self.g.rng.below(self.corpus.len() as u32) as usize;
                    let e = &self.corpus[o];
                    if !e.cells.is_empty() {
                        let (l, s) = e.cells[self.g.rng.below(e.cells.len() as u32) as usize];
                        let r = e.m.get(l, s);
                        m.put(l, s, r);
                    }
                }
            }
        }
        m
    }

    fn run(&mut self, n: usize) {
        for v in [INTEL, AMD, HYGON, b"CentaurHauls"] {
            for dflt in [Dflt::Zero, Dflt::Noise(7)] {
                let mut m = Machine::new(dflt);
                m.put(0, 0, Regs::new(0x24, 0, 0, 0));
                m.put(0x8000_0000, 0, Regs::new(0x8000_0028, 0, 0, 0));
                m.set_vendor(v);
                self.offer(m, true);
            }
            for mut m in recorded() {
                m.set_vendor(v);
                self.offer(m, true);
            }
        }
        for _ in 0..24 {
            let m = self.g.synthetic();
            self.offer(m, true);
        }
        for i in 0..n {
            if self.corpus.is_empty() {
                break;
            }
            let len = self.corpus.len() as u32;
            let k = if self.g.rng.chance(1, 3) { len - 1 - self.g.rng.below(len.min(8)) } else { self.g.rng.below(len) } as usize;
            let m = if i % 64 == 63 { self.g.machine() } else { self.mutate(k) };
            self.offer(m, i % 8 == 0);
        }
    }
}

fn arg(name: &str, dflt: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned()).unwrap_or(dflt.to_string())
}

/// (leaf, sub-leaf, answer) values that the native entry points compare with.
fn native(seed: u64, n: usize) -> (Vec<(u32, u32)>, Vec<u32>, HashSet<u32>) {
    let mut rng = Rng::new(seed, 33_000);
    let mut inputs = vec![(0u32, 0u32)];
    let (mut consts, mut feats, mut edges) = (Vec::new(), HashSet::new(), HashSet::new());
    for _ in 0..n {
        let k = rng.below(inputs.len() as u32) as usize;
        let (mut l, mut s) = inputs[k];
        let word = |rng: &mut Rng, consts: &[u32]| if consts.is_empty() || rng.chance(1, 3) { rng.reg() } else { rng.pick(consts) };
        match rng.below(6) {
            0 | 1 => l = word(&mut rng, &consts),
            2 | 3 => s = word(&mut rng, &consts),
            4 => {
                l = word(&mut rng, &consts);
                s = word(&mut rng, &consts)
            }
            _ => l = rng.pick(&[0u32, 0x4000_0000, 0x8000_0000]) + rng.below(0x30),
        }
        cov::start();
        let _ = guard(|| probe::native(l, s));
        cov::pause();
        let (e, c, _) = cov::taken();
        let mut fresh = false;
        for (g, k) in e {
            edges.insert(g);
            fresh |= feats.insert((g as u64, bucket(k)));
        }
        for x in c {
            for v in [x.a, x.b] {
                if consts.len() < 200 && v <= u32::MAX as u64 && !consts.contains(&(v as u32)) {
                    consts.push(v as u32)
                }
            }
            if x.a == x.b {
                fresh |= feats.insert((x.pc, x.a | 1 << 40));
            }
        }
        if fresh && inputs.len() < 200 {
            inputs.push((l, s))
        }
    }
    (inputs, consts, edges)
}

fn silent() {
    unsafe {
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
    }
}

struct Done {
    task: usize,
    text: String,
    kept: usize,
    edges: HashSet<u32>,
    solved: usize,
    feats: usize,
    runs: usize,
}

fn main() {
    if std::env::args().count() == 1 {
        // keeps the instances
        println!("{}", probe::roots(Dyn(Arc::new(Src(Rd::new(Machine::new(Dflt::Zero)))))).len());
        return;
    }
    install_hook();
    if arg("--only", "") == "report" {
        terminal::on_terminal();
    }
    let seed: u64 = arg("--seed", "1").parse().unwrap_or(1);
    let n: usize = arg("--n", "2000").parse().unwrap_or(2000);
    let only = arg("--only", "");
    let dic = dict(&arg("--sources", ""));
    // (what, island, iterations); the slow ones first
    let mut tasks: Vec<(usize, usize, usize)> = Vec::new();
    match only.as_str() {
        "raw" => {
            silent();
            tasks.extend((0..8).map(|i| (RAW, i, n)))
        }
        "report" => {
            silent();
            tasks.extend((0..8).map(|i| (REPORT, i, n)))
        }
        "native" => (),
        _ => {
            const SLOW: [&str; 9] = ["cache_info", "deterministic_address_translation_info", "extended_cpu_topology", "cache_parameters", "soc_vendor_info.vendor_attributes", "extended_state_info.iter", "extended_topology_info", "extended_topology_info_v2", "feature_info"];
            let d = dumpers::<Dyn>();
            tasks.extend((0..4).map(|i| (WHOLE, i, n / 8)));
            let mut rest: Vec<usize> = (0..d.d.len()).collect();
            rest.sort_by_key(|&i| SLOW.iter().position(|x| *x == d.d[i].sec).unwrap_or(99));
            tasks.extend(rest.into_iter().map(|i| (i, 0, n)));
        }
    }
    let next = AtomicUsize::new(0);
    let done: Mutex<Vec<Done>> = Mutex::new(Vec::new());
    let cores = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    std::thread::scope(|s| {
        for _ in 0..cores {
            s.spawn(|| {
                let d = dumpers::<Dyn>();
                loop {
                    let task = next.fetch_add(1, Ordering::SeqCst);
                    if task >= tasks.len() {
                        break;
                    }
                    let (sec, island, n) = tasks[task];
                    let t = std::time::Instant::now();
                    let g = Gen::new(seed, 31_000 + sec as u64 + 5000 * island as u64);
                    let mut e = Evolve { d: &d, sec, g, corpus: Vec::new(), feats: HashSet::new(), best: HashMap::new(), solved: HashSet::new(), consts: Vec::new(), edges: HashSet::new(), dict: &dic };
                    e.run(n);
                    let name = name_of(&d, sec);
                    let mut text = String::new();
                    for x in &e.corpus {
                        text += &format!("@ {}\n{}", name, x.m.describe());
                    }
                    if std::env::var("GUIDE_VERBOSE").is_ok() {
                        eprintln!("{} corpus {} edges {} solved {} consts {} {:?}", name, e.corpus.len(), e.edges.len(), e.solved.len(), e.consts.len(), t.elapsed());
                    }
                    done.lock().unwrap().push(Done { task, text, kept: e.corpus.len(), edges: e.edges, solved: e.solved.len(), feats: e.feats.len(), runs: n + 44 });
                }
            });
        }
    });
    let mut v = done.into_inner().unwrap();
    v.sort_by_key(|x| x.task);
    let mut edges: HashSet<u32> = HashSet::new();
    let mut text = String::new();
    let (mut ncpu, mut nsolved, mut nfeat, mut nrun) = (0, 0, 0, 0);
    for x in &v {
        text += &x.text;
        ncpu += x.kept;
        nsolved += x.solved;
        nfeat += x.feats;
        nrun += x.runs;
        edges.extend(&x.edges);
    }
    if only == "native" {
        let (inputs, consts, e) = native(seed, n);
        edges.extend(e);
        for (l, s) in &inputs {
            text += &format!("@ native {:x} {:x}\n", l, s);
        }
        for c in consts.iter().chain(&dic.nums) {
            text += &format!("@ answer {:x}\n", c);
        }
        nrun += n;
        nfeat += inputs.len();
        nsolved += consts.len();
    }
    std::fs::write(arg("--out", "/dev/stdout"), text).unwrap();
    std::fs::write(
        arg("--stats", "/dev/stderr"),
        format!(
            "{{\"library edges instrumented\":{},\"library edges taken\":{},\"comparisons satisfied\":{},\"edge and count features\":{},\"decodes while evolving\":{},\"CPUs kept\":{}}}\n",
            cov::guards(),
            edges.len(),
            nsolved,
            nfeat,
            nrun,
            ncpu
        ),
    )
    .unwrap();
}
