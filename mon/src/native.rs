//! C16: the native path, observed at the instruction itself.
//!
//! With CPUID faulting on (or, where that is missing, by single-stepping) each
//! CPUID instruction the library executes traps into a handler here, which
//! sees the inputs in EAX and ECX and answers for a synthetic CPU of the
//! calling thread. Independently, the real instruction is executed by this
//! file's own assembly on a pinned core and the library's answers are
//! compared with it.
use crate::gen::Gen;
use crate::machine::*;
use crate::model::*;
use crate::report::*;
use raw_cpuid::{CpuId, CpuIdReader, CpuIdReaderNative, CpuIdResult};
use std::cell::Cell;

#[derive(Clone, Copy, Default)]
struct Seen {
    execs: u64,
    last: (u32, u32),
    outs: Regs,
    steps: u64,
    stop: bool,
}
thread_local! {
    static EMU: Cell<*const Machine> = const { Cell::new(std::ptr::null()) };
    static SEEN: Cell<Seen> = const { Cell::new(Seen { execs: 0, last: (0, 0), outs: Regs { a: 0, b: 0, c: 0, d: 0 }, steps: 0, stop: false }) };
}

unsafe fn emulate(g: &mut [libc::greg_t; 23]) -> bool {
    let m = EMU.with(|e| e.get());
    let ip = g[libc::REG_RIP as usize] as *const u8;
    if m.is_null() || *ip != 0x0f || *ip.add(1) != 0xa2 {
        return false;
    }
    let (l, s) = (g[libc::REG_RAX as usize] as u32, g[libc::REG_RCX as usize] as u32);
    let r = (*m).get(l, s);
    g[libc::REG_RAX as usize] = r.a as i64;
    g[libc::REG_RBX as usize] = r.b as i64;
    g[libc::REG_RCX as usize] = r.c as i64;
    g[libc::REG_RDX as usize] = r.d as i64;
    g[libc::REG_RIP as usize] += 2;
    SEEN.with(|x| {
        let mut y = x.get();
        y.execs += 1;
        y.last = (l, s);
        y.outs = r;
        x.set(y);
    });
    true
}

extern "C" fn on_segv(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(ctx as *mut libc::ucontext_t);
        if !emulate(&mut uc.uc_mcontext.gregs) {
            // a fault of another kind: let it end the process
            libc::signal(libc::SIGSEGV, libc::SIG_DFL);
        }
    }
}
extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(ctx as *mut libc::ucontext_t);
        while emulate(&mut uc.uc_mcontext.gregs) {}
        SEEN.with(|x| {
            let mut y = x.get();
            y.steps += 1;
            if y.stop {
                uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
            }
            x.set(y);
        });
    }
}

fn handler(sig: i32, f: extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void)) {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = f as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(sig, &sa, std::ptr::null_mut());
    }
}

fn cpuid_faulting(on: bool) -> bool {
    // ARCH_SET_CPUID: 0 makes CPUID fault in this thread
    unsafe { libc::syscall(libc::SYS_arch_prctl, 0x1012, !on as u64) == 0 }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum How {
    Fault,
    Step,
}

/// Runs `f` on this thread with every CPUID instruction answered by `m`.
fn on_cpu<T>(how: How, m: &Machine, f: impl FnOnce() -> T) -> (T, Seen) {
    SEEN.with(|s| s.set(Seen::default()));
    EMU.with(|e| e.set(m));
    let r = match how {
        How::Fault => {
            assert!(cpuid_faulting(true));
            let r = f();
            assert!(cpuid_faulting(false));
            r
        }
        How::Step => {
            unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq", "nop") };
            let r = f();
            SEEN.with(|s| {
                let mut y = s.get();
                y.stop = true;
                s.set(y);
            });
            unsafe { std::arch::asm!("nop", "nop") };
            r
        }
    };
    EMU.with(|e| e.set(std::ptr::null()));
    (r, SEEN.with(|s| s.get()))
}

/// The instruction itself.
pub fn own(leaf: u32, sub: u32) -> Regs {
    let (a, b, c, d): (u32, u32, u32, u32);
    unsafe {
        std::arch::asm!("mov {t:r}, rbx", "cpuid", "xchg {t:r}, rbx", t = out(reg) b, inout("eax") leaf => a, inout("ecx") sub => c, out("edx") d);
    }
    Regs::new(a, b, c, d)
}
#[derive(Clone)]
pub struct Own;
impl CpuIdReader for Own {
    fn cpuid2(&self, l: u32, s: u32) -> CpuIdResult {
        to_res(own(l, s))
    }
}

fn regs(r: CpuIdResult) -> Regs {
    Regs::new(r.eax, r.ebx, r.ecx, r.edx)
}

const ENTRIES: usize = 13;
/// The library's native entry points; returns the name, the sub-leaf the call
/// stands for and its answer.
fn call(k: usize, l: u32, s: u32) -> (&'static str, u32, Regs) {
    match k {
        0 => ("native_cpuid::cpuid_count", s, regs(raw_cpuid::native_cpuid::cpuid_count(l, s))),
        1 => ("cpuid!(leaf)", 0, regs(raw_cpuid::cpuid!(l))),
        2 => ("cpuid!(leaf, sub)", s, regs(raw_cpuid::cpuid!(l, s))),
        3 => ("cpuid!(u64, u64)", s, regs(raw_cpuid::cpuid!(l as u64, s as u64))),
        4 => ("cpuid!(i32)", 0, regs(raw_cpuid::cpuid!(l as i32))),
        5 => ("CpuIdReaderNative::cpuid1", 0, regs(CpuIdReaderNative.cpuid1(l))),
        6 => ("CpuIdReaderNative::cpuid2", s, regs(CpuIdReaderNative.cpuid2(l, s))),
        7 => {
            let f: &dyn CpuIdReaderDyn = &CpuIdReaderNative;
            ("CpuIdReaderNative as a generic reader", s, regs(f.two(l, s)))
        }
        11 => ("cpuid!(i64, i64)", s, regs(raw_cpuid::cpuid!(l as i64, s as i64))),
        8..=10 => {
            // arguments that are something else when evaluated again
            let (mut na, mut nb, mut leaf, mut sub) = (0, 0, l, s);
            let mut a = || {
                na += 1;
                std::mem::replace(&mut leaf, l ^ 0x41)
            };
            let mut b = || {
                nb += 1;
                std::mem::replace(&mut sub, s ^ 0x41)
            };
            let (name, sub, r, once) = match k {
                8 => ("cpuid!(leaf argument with an effect)", 0, regs(raw_cpuid::cpuid!(a())), [1, 0]),
                9 => ("cpuid!(leaf, sub argument with an effect)", s, regs(raw_cpuid::cpuid!(l, b())), [0, 1]),
                _ => ("cpuid!(arguments with effects)", s, regs(raw_cpuid::cpuid!(a(), b())), [1, 1]),
            };
            if [na, nb] != once {
                return ("cpuid!: an argument is not evaluated exactly once; the inverted answer", sub, Regs::new(!r.a, !r.b, !r.c, !r.d));
            }
            (name, sub, r)
        }
        _ => {
            let f: &dyn CpuIdReaderDyn = &CpuIdReaderNative;
            ("CpuIdReaderNative as a generic reader, leaf only", 0, regs(f.one(l)))
        }
    }
}
trait CpuIdReaderDyn {
    fn one(&self, l: u32) -> CpuIdResult;
    fn two(&self, l: u32, s: u32) -> CpuIdResult;
}
impl<R: CpuIdReader> CpuIdReaderDyn for R {
    fn one(&self, l: u32) -> CpuIdResult {
        self.cpuid1(l)
    }
    fn two(&self, l: u32, s: u32) -> CpuIdResult {
        self.cpuid2(l, s)
    }
}

fn leaf_of(g: &mut Gen) -> u32 {
    let r = &mut g.rng;
    match r.below(8) {
        0 => r.below(0x30),
        1 => 0x8000_0000 + r.below(0x30),
        2 => 0x4000_0000 + r.below(0x20),
        3 => 1 << r.below(32),
        4 => u32::MAX - r.below(3),
        5 => r.pick(&[0x7fff_ffff, 0xffff, 0x10000, 0xff, 0x100, 0xC000_0000, 0xC000_0001, 0x8086_0000, 0x2000_0000]),
        _ => r.u32(),
    }
}
fn sub_of(g: &mut Gen) -> u32 {
    let r = &mut g.rng;
    match r.below(6) {
        0 => 0,
        1 => r.below(8),
        2 => r.below(64),
        3 => 1 << r.below(32),
        4 => u32::MAX - r.below(3),
        _ => r.u32(),
    }
}

/// One native entry point on an emulated CPU.
fn primitive(how: How, k: usize, l: u32, s: u32, m: &Machine, rep: &mut Report) {
    let ((name, sub, got), seen) = on_cpu(how, m, || call(k, l, s));
    let want = m.get(l, sub);
    rep.eval(Some(mix((l as u64) << 32 | s as u64) ^ k as u64));
    rep.count("CPUID instructions intercepted", seen.execs);
    if got != want {
        rep.viol(
            &format!("{}:answer", name),
            || {
                format!(
                    "{} for leaf {:#x} sub-leaf {:#x} returned {:x?}; the CPU answers {:x?} for these inputs ({} CPUID instructions executed, the last with EAX={:#x} ECX={:#x} answering {:x?})",
                    name, l, sub, got, want, seen.execs, seen.last.0, seen.last.1, seen.outs
                )
            },
            m,
        );
    }
    rep.sample(|| format!("{}: leaf {:#x} sub-leaf {:#x}: {} intercepted, inputs EAX={:#x} ECX={:#x}, answer {:x?}", name, l, sub, seen.execs, seen.last.0, seen.last.1, got));
}

/// Every native entry point on a CPU whose every (leaf, sub-leaf) answers
/// differently, and differently each time.
fn primitives(how: How, g: &mut Gen, n: usize, rep: &mut Report) {
    for i in 0..n {
        let epoch = g.rng.u64();
        let mut m = Machine::new(Dflt::Noise(epoch));
        let (l, s) = (leaf_of(g), sub_of(g));
        if g.rng.chance(1, 4) {
            let x = g.rng.regs();
            m.put(l, s, x);
        }
        let k = if i < 4 * ENTRIES { i % ENTRIES } else { g.rng.below(ENTRIES as u32) as usize };
        primitive(how, k, l, s, &m, rep);
    }
}

/// Inputs and answers that occur as numbers in the sources, or that the
/// native entry points were seen to compare with something.
pub fn guided(seed: u64, c: &crate::corpus::Corpus) -> Report {
    let fault = cpuid_faulting(true) && cpuid_faulting(false);
    let how = if fault { How::Fault } else { How::Step };
    let chunk = 32;
    let n = c.inputs.len() + c.answers.len();
    let mut rep = shards("C16", n.div_ceil(chunk), |j, rep| {
        let mut g = Gen::new(seed, 18_000 + j as u64);
        for i in j * chunk..((j + 1) * chunk).min(n) {
            for k in 0..ENTRIES {
                let m = Machine::new(Dflt::Noise(g.rng.u64()));
                if let Some(&(l, s)) = c.inputs.get(i) {
                    primitive(how, k, l, s, &m, rep);
                    continue;
                }
                let x = c.answers[i - c.inputs.len()];
                for (l, s) in [(x, 0), (x, 1), (x, g.rng.reg()), (x, x), (0, x), (1, x), (4, x), (7, x), (0xD, x), (0x8000_001D, x), (g.rng.reg(), x)] {
                    primitive(how, k, l, s, &m, rep);
                }
                let (l, s) = (leaf_of(&mut g), sub_of(&mut g));
                for r in 0..4 {
                    let mut m = m.clone();
                    m.upd(l, s, |c| c.set(r, x));
                    m.upd(l, 0, |c| c.set(r, x));
                    primitive(how, k, l, s, &m, rep);
                }
                rep.count("guided inputs and answers", 1);
            }
            tick();
        }
    });
    let cpus = c.items.len().div_ceil(chunk);
    rep.merge(shards("C16", if fault { cpus } else { 0 }, |j, rep| {
        let dn = dumpers::<CpuIdReaderNative>();
        let dr = dumpers::<Rd>();
        let mut rng = Rng::new(seed, 19_000 + j as u64);
        for i in 0..4 {
            let mut m = c.combined(&mut rng);
            crate::corpus::settle(&mut m);
            decoder(How::Fault, &dn, &dr, &m, j + i, rep);
            rep.count("CPUs from the coverage-guided corpus judged", 1);
        }
    }));
    rep
}

/// A decoder built natively on an emulated CPU against one over a reader of
/// the same CPU.
fn decoders(how: How, g: &mut Gen, n: usize, rep: &mut Report) {
    let dn = dumpers::<CpuIdReaderNative>();
    let dr = dumpers::<Rd>();
    for k in 0..n {
        let m = g.machine();
        if crate::iters::all_finite(&m, 400) {
            decoder(how, &dn, &dr, &m, k, rep);
        }
    }
}

fn decoder(how: How, dn: &DumpModel<CpuIdReaderNative>, dr: &DumpModel<Rd>, m: &Machine, k: usize, rep: &mut Report) {
    current(|| format!("native decoder\n{}", m.describe()));
    let rd = Rd::new(m.clone());
    rd.set_budget(10_000_000);
    let want = match guard(|| CpuId::with_cpuid_reader(rd.clone())) {
        Ok(c) => dr.dump(&c, k % 16 == 0),
        Err(_) => return,
    };
    let (got, seen) = on_cpu(how, m, || match guard(|| if k % 2 == 0 { CpuId::new() } else { CpuId::default() }) {
        Ok(c) => Ok(dn.dump(&c, k % 16 == 0)),
        Err(e) => Err(e),
    });
    rep.count("CPUID instructions intercepted", seen.execs);
    rep.count("native decoders compared on emulated CPUs", 1);
    rep.eval(Some(m.fingerprint()));
    match got {
        Err(e) => rep.viol("native:panic", || e, m),
        Ok(got) => {
            rep.count("values compared on emulated CPUs", got.len() as u64);
            if let Some(x) = diff(&got, &want) {
                rep.viol("native:decoder", || format!("native versus reader of the same CPU: {}", x), m);
            }
        }
    }
    tick();
}

pub fn allowed() -> Vec<usize> {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&s), &mut s) != 0 {
            return vec![];
        }
        (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &s)).collect()
    }
}
pub fn pin(core: usize) -> bool {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(core, &mut s);
        libc::sched_setaffinity(0, std::mem::size_of_val(&s), &s) == 0
    }
}

pub fn unpin(cores: &[usize]) {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        for c in cores {
            libc::CPU_SET(*c, &mut s);
        }
        libc::sched_setaffinity(0, std::mem::size_of_val(&s), &s);
    }
}

/// The real CPU, on one core.
fn real(core: usize, g: &mut Gen, extra: usize, rep: &mut Report) {
    let nobody = Machine::new(Dflt::Zero);
    if !pin(core) {
        rep.count("cores that could not be pinned", 1);
        return;
    }
    rep.count("cores compared with the real instruction", 1);
    let mut ins: Vec<(u32, u32)> = Vec::new();
    for start in [0u32, 0x4000_0000, 0x8000_0000] {
        let max = own(start, 0).a;
        let end = if max >= start && max - start < 0x200 { max + 2 } else { start + 4 };
        for l in start..=end {
            for s in 0..4 {
                ins.push((l, s));
            }
        }
    }
    for l in [4u32, 7, 0xB, 0xD, 0xF, 0x10, 0x12, 0x14, 0x17, 0x18, 0x1F, 0x8000_001D, 0x8000_0026] {
        for s in 4..40 {
            ins.push((l, s));
        }
    }
    for _ in 0..extra {
        ins.push((leaf_of(g), sub_of(g)));
    }
    for (i, (l, s)) in ins.into_iter().enumerate() {
        let k = i % ENTRIES;
        let sub = if [1, 4, 5, 8, 12].contains(&k) { 0 } else { s };
        let mut verdict = None;
        for _try in 0..6 {
            let before = own(l, sub);
            let (name, _, got) = call(k, l, s);
            let after = own(l, sub);
            if got == before || got == after {
                verdict = Some(true);
                break;
            }
            if before == after {
                // one more look: a register that changes by itself would
                // not stay put three times
                let again = [call(k, l, s).2, own(l, sub), call(k, l, s).2, own(l, sub)];
                if again[1] == before && again[3] == before && again[0] != before && again[2] != before {
                    rep.viol(&format!("{}:real", name), || format!("{} for leaf {:#x} sub-leaf {:#x} returned {:x?}; the instruction yields {:x?}", name, l, sub, got, before), &nobody);
                    verdict = Some(false);
                    break;
                }
            }
        }
        rep.eval(Some(mix((l as u64) << 32 | sub as u64) ^ mix(1 + k as u64) ^ core as u64));
        match verdict {
            Some(_) => rep.count("answers compared with the real instruction", 1),
            None => rep.count("answers too volatile to compare", 1),
        }
    }
    // whole decoders
    let (dn, dw) = (dumpers::<CpuIdReaderNative>(), dumpers::<Own>());
    let mut done = false;
    for t in 0..8 {
        let a = dw.dump(&CpuId::with_cpuid_reader(Own), true);
        let n = dn.dump(&if t % 2 == 0 { CpuId::new() } else { CpuId::default() }, true);
        let b = dw.dump(&CpuId::with_cpuid_reader(Own), true);
        if a != b {
            continue;
        }
        done = true;
        rep.count("real decoder values compared", n.len() as u64);
        rep.eval(Some(mix(core as u64 + 77)));
        match diff(&n, &a) {
            None => break,
            // twice in a row the same disagreement with a steady CPU
            Some(x) if t >= 1 => {
                rep.viol("native:real-decoder", || x, &nobody);
                break;
            }
            _ => {}
        }
    }
    if !done {
        rep.count("decoders too volatile to compare", 1);
    }
}

/// A decoder created before its thread moves to another CPU answers, for each
/// structure asked for afterwards, from the CPU it then runs on.
fn migration(how: How, g: &mut Gen, n: usize, rep: &mut Report) {
    let dn = dumpers::<CpuIdReaderNative>();
    let dr = dumpers::<Rd>();
    for _ in 0..n {
        let m = g.machine();
        let mut m2 = m.clone();
        // the other core of the same package: identification, maxima and
        // enumerations agree; the identifiers differ
        let id = g.rng.u32() & 0xff;
        m2.set_bits(1, 0, RB, 24, 31, id);
        let x = g.rng.u32();
        m2.upd(0x8000_001E, 0, |r| r.a = x);
        m2.upd(0x8000_001E, 0, |r| r.b = r.b & !0xff | (x & 0xff));
        if !crate::iters::all_finite(&m, 400) || !crate::iters::all_finite(&m2, 400) {
            continue;
        }
        let rd = Rd::new(m.clone());
        let Ok(c) = guard(|| CpuId::with_cpuid_reader(rd.clone())) else { continue };
        rd.with(|x| *x = m2.clone());
        let want = dr.dump(&c, false);
        let (c, s1) = on_cpu(how, &m, || guard(CpuId::new));
        let Ok(c) = c else { continue };
        let (got, s2) = on_cpu(how, &m2, || dn.dump(&c, false));
        rep.count("CPUID instructions intercepted", s1.execs + s2.execs);
        rep.count("decoders asked after moving to another core", 1);
        rep.eval(Some(m.fingerprint() ^ m2.fingerprint().rotate_left(3)));
        if let Some(x) = diff(&got, &want) {
            rep.viol("native:migration", || format!("native versus reader after moving cores: {}", x), &m2);
        }
        tick();
    }
}

pub fn run(seed: u64, thorough: bool) -> Report {
    // cached in the standard library before any emulation
    let _ = std::is_x86_feature_detected!("avx2");
    handler(libc::SIGSEGV, on_segv);
    handler(libc::SIGTRAP, on_trap);
    let fault = cpuid_faulting(true) && cpuid_faulting(false);
    let (prims, decs) = if thorough { (200_000, 800) } else { (8_000, 60) };
    let jobs = 8;
    let mut rep = shards("C16", jobs, |i, rep| {
        let mut g = Gen::new(seed, 16_000 + i as u64);
        if fault {
            primitives(How::Fault, &mut g, prims, rep);
            decoders(How::Fault, &mut g, decs, rep);
            migration(How::Fault, &mut g, decs, rep);
        }
        primitives(How::Step, &mut g, prims / 20, rep);
    });
    rep.count(if fault { "CPUID faulting available" } else { "CPUID faulting not available; single-stepped" }, 1);
    let cores = allowed();
    let n = if thorough { cores.len() } else { cores.len().min(4) };
    let r2 = shards("C16", n, |i, rep| {
        let mut g = Gen::new(seed, 17_000 + i as u64);
        real(cores[i], &mut g, if thorough { 20_000 } else { 1000 }, rep);
        // the worker may run another job next
        unpin(&cores);
    });
    rep.merge(r2);
    rep.rule = "An evaluation is one native query (by function, macro or reader) whose four registers are compared with what the CPU answered to the intercepted or independently executed CPUID instruction for the same inputs, or one natively built decoder dumped and compared with a decoder over a reader of the same (emulated or real) CPU. Non-trivial: all; distinct by inputs and entry point, or by CPU.".into();
    rep
}
