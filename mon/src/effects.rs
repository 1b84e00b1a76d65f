//! C22: what decoding does besides returning values.
//!
//! A child process decodes CPUs while everything it could do to its
//! surroundings is observed: a global allocator counts allocations, a seccomp
//! filter turns every system call into a signal, CPUID and RDTSC fault, and
//! around each call into the library the floating-point control state is
//! compared and the stack below is painted. Only what happens inside a call
//! into the library counts (`lib`), minus the reader and the monitor's own
//! conversions (`pause`).
use crate::gen::*;
use crate::machine::*;
use crate::model::*;
use crate::report::*;
use raw_cpuid::{CpuId, CpuIdReader, CpuIdReaderNative, CpuIdResult};
use std::alloc::{GlobalAlloc, Layout, System};
use std::fmt::Write;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering::Relaxed};

/// Set only in the (single-threaded) children.
static MODE: AtomicBool = AtomicBool::new(false);
static ARMED: AtomicBool = AtomicBool::new(false);
static ARENA: AtomicUsize = AtomicUsize::new(0);
static ARENA_END: AtomicUsize = AtomicUsize::new(0);
static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());

const KINDS: usize = 9;
const WHAT: [&str; KINDS] = [
    "allocates memory",
    "makes a system call",
    "executes CPUID instead of asking the reader",
    "reads the time-stamp counter",
    "changes the floating-point control state",
    "changes the flags register's direction or alignment-check flag",
    "uses more than 64 KiB of stack",
    "frees memory",
    "reads the environment",
];
const STACK: usize = 64 * 1024;

#[repr(C)]
struct Found {
    count: u64,
    sec: (usize, usize),
    name: (usize, usize),
    machine: u64,
    info: u64,
}
/// Written by the child, read by its parent.
#[repr(C)]
struct Shared {
    calls: u64,
    painted: u64,
    deepest: u64,
    deepest_sec: (usize, usize),
    own_calls: u64,
    own_allocs: u64,
    finished: u64,
    machine: u64,
    n: usize,
    found: [Found; 64],
    kind: [usize; 64],
}

static SEC: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static SEC_LEN: AtomicUsize = AtomicUsize::new(0);
static NAME: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static NAME_LEN: AtomicUsize = AtomicUsize::new(0);

/// What the next calls into the library are about.
#[inline]
pub fn at(sec: &'static str, name: &'static str) {
    SEC.store(sec.as_ptr() as *mut u8, Relaxed);
    SEC_LEN.store(sec.len(), Relaxed);
    NAME.store(name.as_ptr() as *mut u8, Relaxed);
    NAME_LEN.store(name.len(), Relaxed);
}

fn note(kind: usize, info: u64) {
    let s = SHARED.load(Relaxed);
    if s.is_null() {
        return;
    }
    let s = unsafe { &mut *s };
    let sec = (SEC.load(Relaxed) as usize, SEC_LEN.load(Relaxed));
    let name = (NAME.load(Relaxed) as usize, NAME_LEN.load(Relaxed));
    for i in 0..s.n {
        if s.kind[i] == kind && s.found[i].sec == sec {
            s.found[i].count += 1;
            return;
        }
    }
    if s.n < s.found.len() {
        s.kind[s.n] = kind;
        s.found[s.n] = Found { count: 1, sec, name, machine: s.machine, info };
        s.n += 1;
    }
}

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if MODE.load(Relaxed) {
            if ARMED.load(Relaxed) {
                note(0, l.size() as u64);
            }
            let a = ARENA.load(Relaxed);
            if a != 0 {
                let p = (a + l.align() - 1) & !(l.align() - 1);
                if p + l.size() > ARENA_END.load(Relaxed) {
                    return std::ptr::null_mut();
                }
                ARENA.store(p + l.size(), Relaxed);
                return p as *mut u8;
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if MODE.load(Relaxed) {
            if ARMED.load(Relaxed) {
                note(7, l.size() as u64);
            }
            return;
        }
        System.dealloc(p, l)
    }
}

extern "C" {
    static environ: *const *const libc::c_char;
}
/// In place of the C library's, also for the standard library.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    if MODE.load(Relaxed) && ARMED.load(Relaxed) {
        note(8, name as u64);
    }
    let n = libc::strlen(name);
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        if libc::strncmp(*e, name, n) == 0 && *(*e).add(n) == b'=' as libc::c_char {
            return (*e).add(n + 1) as *mut libc::c_char;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}

/// Runs the monitor's own code within a call into the library.
#[inline]
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    if !MODE.load(Relaxed) {
        return f();
    }
    let was = ARMED.swap(false, Relaxed);
    let r = f();
    ARMED.store(was, Relaxed);
    r
}

/// Nothing counts any more until the next call (a panic is on its way).
pub fn disarm() {
    ARMED.store(false, Relaxed);
}

fn control() -> (u32, u16, u64) {
    let (mut mx, mut cw, fl) = (0u32, 0u16, 0u64);
    #[cfg(target_arch = "x86_64")]
    let fl = unsafe {
        let mut fl = fl;
        std::arch::asm!("stmxcsr [{m}]", "fnstcw [{c}]", m = in(reg) &mut mx, c = in(reg) &mut cw);
        std::arch::asm!("pushfq", "pop {}", out(reg) fl);
        fl
    };
    // not the sticky exception flags
    let _ = (&mut mx, &mut cw);
    (mx & !0x3f, cw, fl & (1 << 10 | 1 << 18))
}

struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        ARMED.store(false, Relaxed);
    }
}

/// A call into the library.
#[inline]
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    if !MODE.load(Relaxed) {
        return f();
    }
    watched(f)
}
fn watched<T>(f: impl FnOnce() -> T) -> T {
    unsafe { (*SHARED.load(Relaxed)).calls += 1 };
    let before = control();
    let off = Off;
    ARMED.store(true, Relaxed);
    let r = f();
    ARMED.store(false, Relaxed);
    drop(off);
    let after = control();
    if (before.0, before.1) != (after.0, after.1) {
        note(4, (after.0 as u64) << 16 | after.1 as u64);
    }
    if before.2 != after.2 {
        note(5, after.2);
    }
    r
}

const PAGE: usize = 4096;
const PAINTED: usize = 64;
static PATTERN: [u8; PAGE] = [0xA5; PAGE];

/// A call into the library whose use of the stack is measured.
#[inline]
pub fn deep<T>(f: impl FnOnce() -> T) -> T {
    if !MODE.load(Relaxed) {
        return f();
    }
    // a page below this frame for the functions that paint and look
    let mark = 0u8;
    let here = std::hint::black_box(&mark as *const u8 as usize - PAGE) & !(PAGE - 1);
    paint(here);
    let r = watched(f);
    let used = look(here);
    let s = unsafe { &mut *SHARED.load(Relaxed) };
    s.painted += 1;
    if used as u64 > s.deepest {
        s.deepest = used as u64;
        s.deepest_sec = (SEC.load(Relaxed) as usize, SEC_LEN.load(Relaxed));
    }
    if used > STACK {
        note(6, used as u64);
    }
    r
}
#[inline(never)]
fn paint(top: usize) {
    unsafe { std::ptr::write_bytes((top - PAINTED * PAGE) as *mut u8, 0xA5, PAINTED * PAGE) };
}
#[inline(never)]
fn look(top: usize) -> usize {
    for k in (1..=PAINTED).rev() {
        let page = unsafe { std::slice::from_raw_parts((top - k * PAGE) as *const u8, PAGE) };
        if page != &PATTERN[..] {
            return (k + 1) * PAGE;
        }
    }
    PAGE
}

struct Buf {
    len: usize,
    lost: usize,
    b: [u8; 1 << 20],
}
static BUF: std::sync::Mutex<Buf> = std::sync::Mutex::new(Buf { len: 0, lost: 0, b: [0; 1 << 20] });
struct Pen<'a>(&'a mut Buf);
impl std::fmt::Write for Pen<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let b = &mut *self.0;
        let n = s.len().min(b.b.len() - b.len);
        b.b[b.len..b.len + n].copy_from_slice(&s.as_bytes()[..n]);
        b.len += n;
        b.lost += s.len() - n;
        Ok(())
    }
}

/// Renders into a buffer that is there already, so that the rendering itself
/// need not allocate.
pub fn text(a: std::fmt::Arguments) -> String {
    if !MODE.load(Relaxed) {
        return std::fmt::format(a);
    }
    let mut g = BUF.lock().unwrap_or_else(|e| e.into_inner());
    let b = &mut *g;
    b.len = 0;
    deep(|| {
        let _ = Pen(b).write_fmt(a);
    });
    String::from_utf8_lossy(&b.b[..b.len]).into_owned()
}

// ------------------------------------------------------------------ the child

extern "C" fn on_syscall(_: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let g = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        // si_syscall lies behind the address of the call
        let nr = *((info as *const u8).add(24) as *const i32);
        if ARMED.load(Relaxed) {
            note(1, nr as u64);
        } else {
            (*SHARED.load(Relaxed)).own_calls += 1;
        }
        g[libc::REG_RAX as usize] = if nr as i64 == libc::SYS_write { g[libc::REG_RDX as usize] } else { -(libc::ENOSYS as i64) };
    }
}

static TICKS: AtomicUsize = AtomicUsize::new(1);

extern "C" fn on_fault(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let g = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        let ip = g[libc::REG_RIP as usize] as *const u8;
        let (kind, len) = match (*ip, *ip.add(1), *ip.add(2)) {
            (0x0f, 0xa2, _) => (2, 2),
            (0x0f, 0x31, _) => (3, 2),
            (0x0f, 0x01, 0xf9) => (3, 3),
            _ => {
                libc::signal(libc::SIGSEGV, libc::SIG_DFL);
                return;
            }
        };
        if ARMED.load(Relaxed) {
            note(kind, g[libc::REG_RAX as usize] as u64 & 0xffff_ffff);
        }
        if kind == 2 {
            for r in [libc::REG_RAX, libc::REG_RBX, libc::REG_RCX, libc::REG_RDX] {
                g[r as usize] = 0;
            }
        } else {
            // time passes quickly, so that nobody waits for long
            g[libc::REG_RAX as usize] = 0;
            g[libc::REG_RDX as usize] = TICKS.fetch_add(1, Relaxed) as i64;
        }
        g[libc::REG_RIP as usize] += len;
    }
}

fn handler(sig: i32, f: extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void)) {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = f as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(sig, &sa, std::ptr::null_mut());
    }
}

/// From here on every system call but those that end the process or return
/// from a signal is a signal.
fn trap_system_calls() -> bool {
    const LD_NR: u16 = 0x20; // BPF_LD | BPF_W | BPF_ABS
    const JEQ: u16 = 0x15; // BPF_JMP | BPF_JEQ | BPF_K
    const RET: u16 = 0x06;
    let f = |code, jt, jf, k| libc::sock_filter { code, jt, jf, k };
    let prog = [
        f(LD_NR, 0, 0, 0),
        f(JEQ, 3, 0, libc::SYS_exit_group as u32),
        f(JEQ, 2, 0, libc::SYS_exit as u32),
        f(JEQ, 1, 0, libc::SYS_rt_sigreturn as u32),
        f(RET, 0, 0, 0x0003_0000), // SECCOMP_RET_TRAP
        f(RET, 0, 0, 0x7fff_0000), // SECCOMP_RET_ALLOW
    ];
    let p = libc::sock_fprog { len: prog.len() as u16, filter: prog.as_ptr() as *mut _ };
    unsafe { libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && libc::prctl(libc::PR_SET_SECCOMP, 2, &p as *const _, 0, 0) == 0 }
}

struct Watch {
    calls: bool,
    cpuid: bool,
    tsc: bool,
}

/// What this sandbox can observe, tried in a child each.
fn able() -> Watch {
    let try_it = |f: &dyn Fn() -> bool| unsafe {
        match libc::fork() {
            0 => libc::_exit(if f() { 0 } else { 1 }),
            pid if pid > 0 => {
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                st == 0
            }
            _ => false,
        }
    };
    let map = shared();
    SHARED.store(map, Relaxed);
    let own = |k: usize| unsafe { (0..(*map).n).any(|i| (*map).kind[i] == k) };
    MODE.store(false, Relaxed);
    let calls = try_it(&|| {
        handler(libc::SIGSYS, on_syscall);
        let ok = trap_system_calls();
        ARMED.store(true, Relaxed);
        unsafe { libc::syscall(libc::SYS_getppid) };
        ok
    }) && own(1);
    let cpuid = try_it(&|| {
        handler(libc::SIGSEGV, on_fault);
        let ok = cpuid_faults();
        ARMED.store(true, Relaxed);
        crate::native::own(0, 0);
        ok
    }) && own(2);
    let tsc = try_it(&|| {
        handler(libc::SIGSEGV, on_fault);
        let ok = tsc_faults();
        ARMED.store(true, Relaxed);
        unsafe { std::arch::x86_64::_rdtsc() };
        ok
    }) && own(3);
    ARMED.store(false, Relaxed);
    Watch { calls, cpuid, tsc }
}
fn cpuid_faults() -> bool {
    unsafe { libc::syscall(libc::SYS_arch_prctl, 0x1012, 0u64) == 0 }
}
fn tsc_faults() -> bool {
    unsafe { libc::prctl(libc::PR_SET_TSC, libc::PR_TSC_SIGSEGV, 0, 0, 0) == 0 }
}

fn shared() -> *mut Shared {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut Shared
    }
}

const ARENA_SIZE: usize = 4 << 30;

/// Runs `f` in a watched child; its findings, and whether it finished.
fn watch(w: &Watch, native: bool, f: impl FnOnce(&mut Shared)) -> (*mut Shared, i32) {
    let map = shared();
    unsafe {
        let pid = libc::fork();
        if pid != 0 {
            let mut st = -1;
            if pid > 0 {
                libc::waitpid(pid, &mut st, 0);
            }
            return (map, st);
        }
        SHARED.store(map, Relaxed);
        let a = libc::mmap(std::ptr::null_mut(), ARENA_SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(a != libc::MAP_FAILED);
        ARENA.store(a as usize, Relaxed);
        ARENA_END.store(a as usize + ARENA_SIZE, Relaxed);
        handler(libc::SIGSYS, on_syscall);
        handler(libc::SIGSEGV, on_fault);
        if w.tsc {
            tsc_faults();
        }
        if w.cpuid && !native {
            cpuid_faults();
        }
        if w.calls {
            trap_system_calls();
        }
        MODE.store(true, Relaxed);
        f(&mut *map);
        MODE.store(false, Relaxed);
        (*map).finished = 1;
        libc::_exit(0);
    }
}

fn str_of((p, n): (usize, usize)) -> &'static str {
    // strings of the program itself, at the same place in every process
    if p == 0 {
        return "";
    }
    unsafe { std::str::from_utf8(std::slice::from_raw_parts(p as *const u8, n)).unwrap_or("?") }
}

fn collect(map: *mut Shared, st: i32, ms: &[Machine], how: &str, rep: &mut Report) {
    let s = unsafe { &*map };
    let any = Machine::new(Dflt::Zero);
    if s.finished == 0 {
        let m = ms.get(s.machine as usize).unwrap_or(&any);
        rep.viol("effects:child", || format!("a process that decoded CPUs {} ended with status {:#x}", how, st), m);
    }
    for i in 0..s.n {
        let f = &s.found[i];
        let (k, sec, name) = (s.kind[i], str_of(f.sec), str_of(f.name));
        let m = ms.get(f.machine as usize).unwrap_or(&any);
        rep.viol(
            &format!("{}:{}", sec, WHAT[k]),
            || format!("{} {} ({}): {} {} ({})", sec, name, how, WHAT[k], ["bytes", "number", "leaf", "EAX", "MXCSR.CW", "flags", "bytes", "bytes", "address"][k], f.info),
            m,
        );
    }
    rep.count("calls into the library watched", s.calls);
    rep.count("calls whose use of the stack was measured", s.painted);
    rep.count("system calls of the monitor itself", s.own_calls);
    rep.max("max bytes of stack used by a call", s.deepest);
    if s.deepest > 0 && rep.samples.len() < 4 {
        rep.sample(|| format!("deepest stack in a batch: {} bytes in {} ({})", s.deepest, str_of(s.deepest_sec), how));
    }
    unsafe { libc::munmap(map as *mut libc::c_void, std::mem::size_of::<Shared>()) };
}

#[inline(never)]
fn use_stack(x: u8) -> u64 {
    let mut a = [x; STACK + PAGE];
    std::hint::black_box(&mut a);
    a.iter().map(|x| *x as u64).sum()
}

/// Does each of these on purpose, in a child, and counts those noticed.
fn self_test(w: &Watch, rep: &mut Report) {
    let (map, _) = watch(w, false, |_| {
        at("control", "");
        lib(|| drop(std::hint::black_box(Box::new(1u8))));
        if w.calls {
            lib(|| unsafe { libc::syscall(libc::SYS_getppid) });
        }
        if w.cpuid {
            lib(|| crate::native::own(1, 0));
        }
        if w.tsc {
            lib(|| unsafe { std::arch::x86_64::_rdtsc() });
        }
        let mut mx = 0u32;
        lib(|| unsafe {
            std::arch::asm!("stmxcsr [{m}]", "xor dword ptr [{m}], 0x8000", "ldmxcsr [{m}]", m = in(reg) &mut mx);
        });
        unsafe { std::arch::asm!("xor dword ptr [{m}], 0x8000", "ldmxcsr [{m}]", m = in(reg) &mut mx) };
        lib(|| unsafe { std::arch::asm!("std") });
        unsafe { std::arch::asm!("cld") };
        lib(|| std::hint::black_box(std::env::var_os("A")));
        std::hint::black_box(deep(|| use_stack(std::hint::black_box(3))));
    });
    let s = unsafe { &*map };
    let seen: Vec<usize> = (0..s.n).map(|i| s.kind[i]).collect();
    for (k, what) in WHAT.iter().enumerate() {
        let expect = [true, w.calls, w.cpuid, w.tsc, true, true, true, true, true][k];
        assert_eq!(seen.contains(&k), expect, "self-test of the effects monitor: {}", what);
    }
    rep.count("effects caused on purpose and noticed", seen.len() as u64);
}

/// What a dump does not ask for.
fn extras<R: CpuIdReader>(c: &CpuId<R>) {
    let show = |sec: &'static str, a: std::fmt::Arguments| {
        at(sec, "{}");
        std::mem::forget(guard(|| text(a)));
    };
    if let Ok(Some(v)) = guard(|| c.get_vendor_info()) {
        show("vendor_info", format_args!("{} {:>20} {:.3}", v, v, v));
    }
    if let Ok(Some(v)) = guard(|| c.get_soc_vendor_info()) {
        if let Ok(Some(b)) = guard(|| v.get_vendor_brand()) {
            show("soc_vendor_brand", format_args!("{} {:>60} {:.3}", b, b, b));
        }
    }
    if let Ok(Some(v)) = guard(|| c.get_l1_cache_and_tlb_info()) {
        show("associativity", format_args!("{} {}", v.dcache_associativity(), v.itlb_4k_associativity()));
    }
    if let Ok(Some(v)) = guard(|| c.get_l2_l3_cache_and_tlb_info()) {
        show("associativity", format_args!("{} {}", v.l2cache_associativity(), v.l3cache_associativity()));
    }
    if let Ok(Some(v)) = guard(|| c.get_extended_state_info()) {
        for s in v.iter() {
            show("extended_register_type", format_args!("{} {:?}", s.register(), s.location()));
        }
    }
    if let Ok(Some(v)) = guard(|| c.get_cache_parameters()) {
        v.take(3).for_each(|x| show("cache_type", format_args!("{}", x.cache_type())));
    }
    if let Ok(Some(v)) = guard(|| c.get_extended_topology_info()) {
        v.take(3).for_each(|x| show("topology_type", format_args!("{}", x.level_type())));
    }
    if let Ok(Some(v)) = guard(|| c.get_deterministic_address_translation_info()) {
        v.take(3).for_each(|x| show("dat_type", format_args!("{}", x.cache_type())));
    }
    if let Ok(Some(v)) = guard(|| c.get_extended_cpu_topology()) {
        v.take(3).for_each(|x| show("hierarchy_level_type", format_args!("{}", x.level_type())));
    }
    at("CpuIdResult", "");
    let r = CpuIdResult { eax: 1, ebx: 2, ecx: 3, edx: 4 };
    std::mem::forget(text(format_args!("{:?} {:#?} {}", r, r, lib(|| r.all_zero() || r == r.clone()))));
}

pub fn run(seed: u64, shard: usize, thorough: bool) -> Report {
    let mut rep = Report::new("C22");
    rep.rule = "A call into the library by a watched process; distinct: CPUs by register contents.".into();
    let mut g = Gen::new(seed, 53_000 + shard as u64);
    let w = able();
    for (on, what) in [(w.calls, "system calls"), (w.cpuid, "CPUID"), (w.tsc, "the time-stamp counter")] {
        rep.count(&format!("{}: {}", what, if on { "trapped" } else { "could not be trapped here" }), 1);
    }
    self_test(&w, &mut rep);
    let c = crate::corpus::load_corpus();
    let mut ms: Vec<Machine> = Vec::new();
    let n = if thorough { 3000 } else { 320 };
    for k in 0..n {
        let mut m = match (k, k % 3) {
            (0..=5, _) => recorded()[(k + 6 * shard) % recorded().len()].clone(),
            (_, 0) if !c.items.is_empty() => c.items[g.rng.below(c.items.len() as u32) as usize].m.clone(),
            (_, 1) if !c.items.is_empty() => c.combined(&mut g.rng),
            _ => g.machine(),
        };
        if g.rng.chance(1, 4) {
            crate::corpus::flip(&mut m, &mut g.rng);
        }
        crate::corpus::settle(&mut m);
        if crate::iters::all_finite(&m, 400) {
            ms.push(m);
        }
    }
    // long enumerations: neither memory nor stack may grow with them
    for d in [Dflt::Zero, Dflt::Noise(g.rng.u64())] {
        for l in [0x17u32, 0x18] {
            let mut m = crate::fields::base(INTEL, d);
            m.at_least(0x1f);
            let x = g.rng.u32();
            m.put(l, 0, Regs::new(20_000 + x % 5000, x, x, 0));
            crate::corpus::settle_but(&mut m, Some(l));
            ms.push(m);
        }
    }
    let dr = dumpers::<Rd>();
    let dn = dumpers::<CpuIdReaderNative>();
    for (b, chunk) in ms.chunks(16).enumerate() {
        let rds: Vec<Rd> = chunk.iter().map(|m| Rd::new(m.clone())).collect();
        let (map, st) = watch(&w, false, |s| {
            for (k, rd) in rds.iter().enumerate() {
                s.machine = k as u64;
                rd.set_budget(3_000_000);
                at("CpuId", "with_cpuid_reader");
                if let Ok(c) = guard(|| deep(|| CpuId::with_cpuid_reader(rd.clone()))) {
                    let text = chunk[k].map.get(&(0x17u64 << 32)).is_none_or(|r| r.a < 5000) && chunk[k].map.get(&(0x18u64 << 32)).is_none_or(|r| r.a < 5000);
                    let rows = dr.dump(&c, text);
                    std::mem::forget(rows);
                    extras(&c);
                    at("CpuId", "clone");
                    let d = deep(|| c.clone());
                    std::mem::forget((c, d));
                }
            }
        });
        collect(map, st, chunk, "of a reader", &mut rep);
        for m in chunk {
            rep.eval(Some(m.fingerprint()));
        }
        if b % 8 == 0 {
            let (map, st) = watch(&w, true, |_| {
                at("CpuId", "new");
                for _ in 0..2 {
                    let c = deep(CpuId::new);
                    std::mem::forget(dn.dump(&c, true));
                    std::mem::forget(deep(CpuId::default));
                    at("cpuid!", "");
                    std::hint::black_box(deep(|| (raw_cpuid::cpuid!(0), raw_cpuid::cpuid!(4, 1), raw_cpuid::native_cpuid::cpuid_count(7, 0), CpuIdReaderNative.cpuid1(1), CpuIdReaderNative.cpuid2(0xd, 1))));
                }
            });
            collect(map, st, &[], "natively", &mut rep);
        }
    }
    rep.count("CPUs decoded by watched processes", ms.len() as u64);
    rep
}
