//! The synthetic CPU: what every leaf/sub-leaf answers, and the instrumented
//! reader through which the library sees it.
use raw_cpuid::{CpuId, CpuIdReader, CpuIdResult};
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord, Hash)]
pub struct Regs {
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub d: u32,
}
impl Regs {
    pub fn new(a: u32, b: u32, c: u32, d: u32) -> Regs {
        Regs { a, b, c, d }
    }
    pub fn get(&self, r: usize) -> u32 {
        [self.a, self.b, self.c, self.d][r]
    }
    pub fn set(&mut self, r: usize, v: u32) {
        match r {
            0 => self.a = v,
            1 => self.b = v,
            2 => self.c = v,
            _ => self.d = v,
        }
    }
}
pub const RA: usize = 0;
pub const RB: usize = 1;
pub const RC: usize = 2;
pub const RD: usize = 3;

/// What cells that are not listed answer.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dflt {
    Zero,
    Ones,
    /// A pseudo-random function of (seed, leaf, sub-leaf): a read of a wrong
    /// leaf or sub-leaf gives unrelated data.
    Noise(u64),
}

#[derive(Default, Clone)]
pub struct MixH(u64);
impl Hasher for MixH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = mix(x);
    }
}
type Map = HashMap<u64, Regs, BuildHasherDefault<MixH>>;

pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

#[derive(Clone, Copy)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        Rng(mix(seed ^ mix(stream)))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: u32) -> u32 {
        ((self.u32() as u64 * n as u64) >> 32) as u32
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, n: u32, of: u32) -> bool {
        self.below(of) < n
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u32) as usize]
    }
    /// A register value: random, sparse, dense or from a list of extremes.
    pub fn reg(&mut self) -> u32 {
        match self.below(10) {
            0 => 0,
            1 => u32::MAX,
            2 => 1 << self.below(32),
            3 => !(1 << self.below(32)),
            4 => self.u32() & self.u32() & self.u32(),
            5 => self.u32() | self.u32() | self.u32(),
            6 => self.pick(&[
                0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_0000, 0x0000_ffff, 0x0101_0101,
                0xfefe_fefe, 0x8080_8080, 0x7f7f_7f7f, 0xffff_fffe, 1, 2, 3, 0xff, 0x100, 0x1ff,
                0x00ff_ff00, 0x0f0f_0f0f, 0xf0f0_f0f0, 0x5555_5555, 0xaaaa_aaaa,
            ]),
            _ => self.u32(),
        }
    }
    pub fn regs(&mut self) -> Regs {
        Regs { a: self.reg(), b: self.reg(), c: self.reg(), d: self.reg() }
    }
}

fn key(leaf: u32, sub: u32) -> u64 {
    (leaf as u64) << 32 | sub as u64
}

#[derive(Clone)]
pub struct Machine {
    pub dflt: Dflt,
    pub map: Map,
}

pub const INTEL: &[u8; 12] = b"GenuineIntel";
pub const AMD: &[u8; 12] = b"AuthenticAMD";
pub const HYGON: &[u8; 12] = b"HygonGenuine";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Vend {
    Intel,
    Amd,
    Other,
}

fn le(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}

impl Machine {
    pub fn new(dflt: Dflt) -> Machine {
        Machine { dflt, map: Map::default() }
    }
    pub fn get(&self, leaf: u32, sub: u32) -> Regs {
        if let Some(r) = self.map.get(&key(leaf, sub)) {
            return *r;
        }
        match self.dflt {
            Dflt::Zero => Regs::default(),
            Dflt::Ones => Regs::new(u32::MAX, u32::MAX, u32::MAX, u32::MAX),
            Dflt::Noise(s) => {
                let x = mix(s ^ mix(key(leaf, sub)));
                let y = mix(x ^ 0xABCD_EF01);
                Regs::new(x as u32, (x >> 32) as u32, y as u32, (y >> 32) as u32)
            }
        }
    }
    pub fn put(&mut self, leaf: u32, sub: u32, r: Regs) {
        self.map.insert(key(leaf, sub), r);
    }
    pub fn upd(&mut self, leaf: u32, sub: u32, f: impl FnOnce(&mut Regs)) {
        let mut r = self.get(leaf, sub);
        f(&mut r);
        self.put(leaf, sub, r);
    }
    pub fn set_vendor(&mut self, v: &[u8; 12]) {
        self.upd(0, 0, |r| {
            r.b = le(&v[0..4]);
            r.d = le(&v[4..8]);
            r.c = le(&v[8..12]);
        });
    }
    pub fn vendor_bytes(&self) -> [u8; 12] {
        let r = self.get(0, 0);
        let mut o = [0u8; 12];
        o[0..4].copy_from_slice(&r.b.to_le_bytes());
        o[4..8].copy_from_slice(&r.d.to_le_bytes());
        o[8..12].copy_from_slice(&r.c.to_le_bytes());
        o
    }
    pub fn vend(&self) -> Vend {
        let v = self.vendor_bytes();
        if &v == INTEL {
            Vend::Intel
        } else if &v == AMD || &v == HYGON {
            Vend::Amd
        } else {
            Vend::Other
        }
    }
    pub fn max_basic(&self) -> u32 {
        self.get(0, 0).a
    }
    pub fn max_ext(&self) -> u32 {
        self.get(0x8000_0000, 0).a
    }
    /// Is the leaf inside the advertised range (no vendor rule)?
    pub fn in_range(&self, leaf: u32) -> bool {
        if leaf >= 0x8000_0000 {
            leaf <= self.max_ext()
        } else {
            leaf <= self.max_basic()
        }
    }
    pub fn at_least(&mut self, leaf: u32) {
        if leaf >= 0x8000_0000 {
            if self.max_ext() < leaf {
                self.upd(0x8000_0000, 0, |r| r.a = leaf);
            }
        } else if self.max_basic() < leaf {
            self.upd(0, 0, |r| r.a = leaf);
        }
    }
    pub fn bit(&self, leaf: u32, sub: u32, reg: usize, bit: u32) -> bool {
        self.get(leaf, sub).get(reg) >> bit & 1 == 1
    }
    pub fn set_bit(&mut self, leaf: u32, sub: u32, reg: usize, bit: u32, on: bool) {
        self.upd(leaf, sub, |r| {
            let v = r.get(reg) & !(1 << bit) | (on as u32) << bit;
            r.set(reg, v)
        });
    }
    pub fn bits(&self, leaf: u32, sub: u32, reg: usize, lo: u32, hi: u32) -> u32 {
        let v = self.get(leaf, sub).get(reg) as u64;
        ((v >> lo) & ((1u64 << (hi - lo + 1)) - 1)) as u32
    }
    pub fn set_bits(&mut self, leaf: u32, sub: u32, reg: usize, lo: u32, hi: u32, val: u32) {
        let mask = (((1u64 << (hi - lo + 1)) - 1) << lo) as u32;
        self.upd(leaf, sub, |r| {
            let v = r.get(reg) & !mask | (((val as u64) << lo) as u32 & mask);
            r.set(reg, v)
        });
    }
    /// Listing for replay files: default rule and explicit cells.
    pub fn describe(&self) -> String {
        let mut cells: Vec<_> = self.map.iter().collect();
        cells.sort();
        let mut s = format!("default={:?}\n", self.dflt);
        for (k, r) in cells {
            s += &format!(
                "{:08x}.{:x} eax={:08x} ebx={:08x} ecx={:08x} edx={:08x}\n",
                k >> 32, *k as u32, r.a, r.b, r.c, r.d
            );
        }
        s
    }
    pub fn fingerprint(&self) -> u64 {
        let mut h = match self.dflt {
            Dflt::Zero => 1,
            Dflt::Ones => 2,
            Dflt::Noise(s) => mix(s),
        };
        for (k, r) in &self.map {
            h ^= mix(mix(*k) ^ mix((r.a as u64) << 32 | r.b as u64) ^ mix(mix((r.c as u64) << 32 | r.d as u64)));
        }
        h
    }
}

/// State shared by all clones of a reader. Every decoder under test runs on
/// one thread, except in the concurrency monitor, which sets `frozen` so that
/// a read touches nothing mutable (and so adds no synchronisation that could
/// hide a race of the library).
pub struct Inner {
    m: UnsafeCell<Machine>,
    log: UnsafeCell<Vec<(u32, u32)>>,
    logging: UnsafeCell<bool>,
    reads: UnsafeCell<u64>,
    budget: UnsafeCell<u64>,
    /// The one read that fails (counted in `reads`), if any.
    fault: UnsafeCell<u64>,
    /// A second machine that answers some of the reads.
    other: UnsafeCell<Option<(Machine, Turns)>>,
    /// Called with every request before it is answered.
    hook: UnsafeCell<Option<Hook>>,
    frozen: bool,
}
pub type Hook = Box<dyn Fn(u32, u32)>;
/// Which reads the second machine answers, counted from when it was set.
#[derive(Clone, Copy, Debug)]
pub enum Turns {
    Bits(u64),
    From(u64),
}
unsafe impl Sync for Inner {}
unsafe impl Send for Inner {}

#[derive(Clone)]
pub struct Rd(Arc<Inner>);

/// Payload of the panic raised by the reader when a query asks for more
/// sub-leaves than any finite enumeration of the synthetic CPU has.
pub struct BudgetExceeded;

/// Payload of the panic of a reader that fails once.
pub struct ReaderFailed;

pub type Cpu = CpuId<Rd>;

pub fn to_res(r: Regs) -> CpuIdResult {
    CpuIdResult { eax: r.a, ebx: r.b, ecx: r.c, edx: r.d }
}

impl CpuIdReader for Rd {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        let i = &*self.0;
        crate::effects::pause(|| unsafe {
            if !i.frozen {
                *i.reads.get() += 1;
                if *i.logging.get() {
                    (*i.log.get()).push((eax, ecx));
                }
                if *i.budget.get() == 0 {
                    std::panic::panic_any(BudgetExceeded);
                }
                *i.budget.get() -= 1;
                if *i.reads.get() > *i.fault.get() {
                    *i.fault.get() = u64::MAX;
                    std::panic::panic_any(ReaderFailed);
                }
                if let Some(h) = &*i.hook.get() {
                    h(eax, ecx);
                }
                if let Some((m, t)) = &*i.other.get() {
                    let n = *i.reads.get() - 1;
                    if match t {
                        Turns::Bits(b) => b >> (n % 64) & 1 == 1,
                        Turns::From(k) => n >= *k,
                    } {
                        return to_res(m.get(eax, ecx));
                    }
                }
            }
            to_res((*i.m.get()).get(eax, ecx))
        })
    }
}

impl Rd {
    pub fn new(m: Machine) -> Rd {
        Rd::mk(m, false)
    }
    pub fn frozen(m: Machine) -> Rd {
        Rd::mk(m, true)
    }
    fn mk(m: Machine, frozen: bool) -> Rd {
        Rd(Arc::new(Inner {
            m: UnsafeCell::new(m),
            log: UnsafeCell::new(Vec::new()),
            logging: UnsafeCell::new(false),
            reads: UnsafeCell::new(0),
            budget: UnsafeCell::new(u64::MAX),
            fault: UnsafeCell::new(u64::MAX),
            other: UnsafeCell::new(None),
            hook: UnsafeCell::new(None),
            frozen,
        }))
    }
    pub fn machine(&self) -> &Machine {
        unsafe { &*self.0.m.get() }
    }
    pub fn with(&self, f: impl FnOnce(&mut Machine)) {
        assert!(!self.0.frozen);
        f(unsafe { &mut *self.0.m.get() })
    }
    pub fn start_log(&self) {
        unsafe {
            (*self.0.log.get()).clear();
            *self.0.logging.get() = true;
        }
    }
    pub fn take_log(&self) -> Vec<(u32, u32)> {
        unsafe {
            *self.0.logging.get() = false;
            std::mem::take(&mut *self.0.log.get())
        }
    }
    pub fn set_budget(&self, n: u64) {
        unsafe { *self.0.budget.get() = n }
    }
    /// The k-th read from now on (0: the next) fails, once.
    pub fn fail_at(&self, k: Option<u64>) {
        unsafe { *self.0.fault.get() = k.map_or(u64::MAX, |k| self.reads() + k) }
    }
    pub fn share(&self, other: Option<(Machine, Turns)>) {
        unsafe {
            *self.0.reads.get() = 0;
            *self.0.other.get() = other
        }
    }
    pub fn hook(&self, h: Option<Hook>) {
        unsafe { *self.0.hook.get() = h }
    }
    pub fn reads(&self) -> u64 {
        unsafe { *self.0.reads.get() }
    }
}
