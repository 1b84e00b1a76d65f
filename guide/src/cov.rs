//! What the instrumented library reports about the section being run by the
#![allow(suspicious_runtime_symbol_definitions)]
//! calling thread: edges taken and operands compared.
use std::arch::global_asm;
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicU32, Ordering};

static GUARDS: AtomicU32 = AtomicU32::new(0);

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Cmp {
    pub pc: u64,
    pub a: u64,
    pub b: u64,
    pub bits: u8,
}

pub const MAX_CMPS: usize = 30_000;

pub struct Trace {
    pub on: bool,
    pub hit: Vec<u8>,
    pub touched: Vec<u32>,
    pub cmps: Vec<Cmp>,
    pub texts: Vec<(Vec<u8>, Vec<u8>)>,
    seen: Vec<(Cmp, u32)>,
    turn: u32,
}

struct Slot(UnsafeCell<Trace>);
thread_local! {
    static T: Slot = const { Slot(UnsafeCell::new(Trace { on: false, hit: Vec::new(), touched: Vec::new(), cmps: Vec::new(), texts: Vec::new(), seen: Vec::new(), turn: 0 })) };
}

fn with<X>(f: impl FnOnce(&mut Trace) -> X) -> Option<X> {
    T.try_with(|t| f(unsafe { &mut *t.0.get() })).ok()
}

pub fn guards() -> u32 {
    GUARDS.load(Ordering::SeqCst)
}
pub fn start() {
    with(|t| {
        if t.hit.is_empty() {
            t.hit = vec![0; guards() as usize + 1];
        }
        for &g in &t.touched {
            t.hit[g as usize] = 0;
        }
        t.touched.clear();
        t.cmps.clear();
        t.texts.clear();
        t.seen.resize(1 << 14, (Cmp { pc: 0, a: 0, b: 0, bits: 0 }, 0));
        t.turn += 1;
        t.on = true;
    });
}
/// Stops the recording.
pub fn pause() {
    with(|t| t.on = false);
}
/// Edges with hit counts (saturating), comparisons, byte strings compared.
#[allow(clippy::type_complexity)]
pub fn taken() -> (Vec<(u32, u8)>, Vec<Cmp>, Vec<(Vec<u8>, Vec<u8>)>) {
    with(|t| (t.touched.iter().map(|&g| (g, t.hit[g as usize])).collect(), std::mem::take(&mut t.cmps), std::mem::take(&mut t.texts))).unwrap_or_default()
}

/// Comparisons of byte strings go through these (they replace libc's).
unsafe fn bytes(a: *const u8, b: *const u8, n: usize) -> i32 {
    if (2..=64).contains(&n) {
        with(|t| {
            if t.on && t.texts.len() < 64 {
                t.on = false;
                let copy = |p: *const u8| (0..n).map(|i| unsafe { *p.add(i) }).collect::<Vec<u8>>();
                t.texts.push((copy(a), copy(b)));
                t.on = true;
            }
        });
    }
    let mut i = 0;
    while i < n {
        let (x, y) = unsafe { (*a.add(i), *b.add(i)) };
        if x != y {
            return x as i32 - y as i32;
        }
        i += 1;
    }
    0
}
#[no_mangle]
unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    unsafe { bytes(a, b, n) }
}
#[no_mangle]
unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    unsafe { bytes(a, b, n) }
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            *p = GUARDS.fetch_add(1, Ordering::SeqCst) + 1;
            p = p.add(1);
        }
    }
}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let g = unsafe { *g };
    with(|t| {
        if t.on {
            let h = &mut t.hit[g as usize];
            if *h == 0 {
                t.touched.push(g);
            }
            *h = h.saturating_add(1);
        }
    });
}

fn cmp(a: u64, b: u64, pc: u64, bits: u8) {
    with(|t| {
        if t.on && t.cmps.len() < MAX_CMPS {
            let c = Cmp { pc, a, b, bits };
            let h = (pc ^ a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_mul(0xC2B2_AE3D_27D4_EB4F)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            // seen already (or hashed over, then recorded again)
            let s = &mut t.seen[(h >> 50) as usize];
            if *s != (c, t.turn) {
                *s = (c, t.turn);
                t.cmps.push(c);
            }
        }
    });
}
macro_rules! cmps {
    ($($f:ident $t:ty, $n:literal;)*) => { $( #[no_mangle] extern "C" fn $f(a: $t, b: $t, pc: u64) { cmp(a as u64, b as u64, pc, $n) } )* };
}
cmps! {
    guide_cmp1 u8, 8;
    guide_cmp2 u16, 16;
    guide_cmp4 u32, 32;
    guide_cmp8 u64, 64;
}
#[no_mangle]
unsafe extern "C" fn guide_switch(v: u64, cases: *const u64, pc: u64) {
    let n = unsafe { *cases } as usize;
    let bits = unsafe { *cases.add(1) } as u8;
    for i in 0..n.min(40) {
        cmp(unsafe { *cases.add(2 + i) }, v, pc.wrapping_add(i as u64), bits);
    }
}

// The return address, as third argument, names the comparison.
global_asm!(
    ".macro tramp from to",
    ".globl \\from",
    ".type \\from,@function",
    "\\from: mov rdx, [rsp]",
    "jmp \\to",
    ".endm",
    "tramp __sanitizer_cov_trace_cmp1 guide_cmp1",
    "tramp __sanitizer_cov_trace_cmp2 guide_cmp2",
    "tramp __sanitizer_cov_trace_cmp4 guide_cmp4",
    "tramp __sanitizer_cov_trace_cmp8 guide_cmp8",
    "tramp __sanitizer_cov_trace_const_cmp1 guide_cmp1",
    "tramp __sanitizer_cov_trace_const_cmp2 guide_cmp2",
    "tramp __sanitizer_cov_trace_const_cmp4 guide_cmp4",
    "tramp __sanitizer_cov_trace_const_cmp8 guide_cmp8",
    "tramp __sanitizer_cov_trace_switch guide_switch",
);
