//! A program with no operating system under it but `write` and `exit`: no
//! standard library, no C library, no allocator, no start-up code. It prints
//! what `hosted` prints. With a third argument it locks itself so that any
//! other system call ends it.
#![no_std]
#![no_main]
#![allow(unknown_lints, suspicious_runtime_symbol_definitions)]
mod all;
mod work;
use core::arch::global_asm;
use core::fmt::Write;

#[cfg(target_arch = "x86_64")]
global_asm!(".globl _start", "_start:", "xor ebp, ebp", "mov rdi, rsp", "and rsp, -16", "call {main}", "ud2", main = sym main);

#[cfg(target_arch = "x86")]
global_asm!(".globl _start", "_start:", "xor ebp, ebp", "mov eax, esp", "and esp, -16", "sub esp, 12", "push eax", "call {main}", "ud2", main = sym main);

#[cfg(target_arch = "x86_64")]
mod sys {
    pub const WRITE: usize = 1;
    pub const EXIT: usize = 60;
    pub const PRCTL: usize = 157;
    pub unsafe fn call(n: usize, a: usize, b: usize, c: usize) -> isize {
        let r: isize;
        core::arch::asm!("syscall", inout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") 0usize, in("r8") 0usize, out("rcx") _, out("r11") _);
        r
    }
}
#[cfg(target_arch = "x86")]
mod sys {
    pub const WRITE: usize = 4;
    pub const EXIT: usize = 1;
    pub const PRCTL: usize = 172;
    pub unsafe fn call(n: usize, a: usize, b: usize, c: usize) -> isize {
        let r: isize;
        core::arch::asm!("push esi", "xor esi, esi", "int 0x80", "pop esi", inout("eax") n as isize => r, in("ebx") a, in("ecx") b, in("edx") c, in("edi") 0usize);
        r
    }
}
use sys::{call, EXIT, PRCTL, WRITE};
fn exit(code: usize) -> ! {
    unsafe {
        call(EXIT, code, 0, 0);
    }
    loop {}
}

struct Out;
impl Write for Out {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        unsafe { call(WRITE, 1, s.as_ptr() as usize, s.len()) };
        Ok(())
    }
}

extern "C" fn main(sp: *const usize) -> ! {
    let arg = |i: usize| unsafe {
        let (mut p, mut v) = (*sp.add(1 + i) as *const u8, 0u64);
        if i >= *sp {
            return 1;
        }
        while *p != 0 {
            v = v.wrapping_mul(10).wrapping_add((*p - b'0') as u64);
            p = p.add(1);
        }
        v
    };
    // PR_SET_SECCOMP, SECCOMP_MODE_STRICT
    let locked = unsafe { call(PRCTL, 22, 1, 0) } == 0;
    for k in 0..arg(2) {
        let c = raw_cpuid::CpuId::with_cpuid_reader(work::Fake(work::mix(arg(1) ^ k << 20)));
        let ((d, t), (v, u)) = (work::decode(&c), work::values(&c));
        let _ = writeln!(Out, "{:016x} {} {:016x} {}", d, t, v, u);
    }
    if *(unsafe { &*sp }) > 3 {
        native();
    }
    let _ = writeln!(Out, "{}", if locked { "locked" } else { "open" });
    exit(0)
}

/// The processor's registers, read here.
fn here(l: u32, s: u32) -> [u32; 4] {
    #[cfg(target_arch = "x86")]
    use core::arch::x86::__cpuid_count;
    #[cfg(target_arch = "x86_64")]
    use core::arch::x86_64::__cpuid_count;
    #[allow(unused_unsafe)]
    let r = unsafe { __cpuid_count(l, s) };
    [r.eax, r.ebx, r.ecx, r.edx]
}

/// Reads of the processor through the crate, between two of our own.
fn native() {
    let (mut n, mut steady, mut bad) = (0, 0, 0);
    let c = raw_cpuid::CpuId::new();
    let top = |x: u32| here(x, 0)[0].wrapping_sub(x).min(0x40) + 2;
    for base in [0u32, 0x4000_0000, 0x8000_0000, 0xfff0_0000] {
        for l in (base..base + top(base)).chain([base | 0xffff]) {
            for s in [0, 1, 2, 3, 4, 5, 8, 17, 63, 0x7fff_ffff, 0x8000_0000, u32::MAX] {
                let mut worst = None;
                for _ in 0..3 {
                    let a = here(l, s);
                    let x = raw_cpuid::cpuid!(l, s);
                    let b = here(l, s);
                    n += 1;
                    worst = if a == b { Some((a, [x.eax, x.ebx, x.ecx, x.edx])) } else { None };
                    if let Some((a, x)) = worst {
                        if a == x {
                            break;
                        }
                    }
                }
                if let Some((a, x)) = worst {
                    steady += 1;
                    if a != x {
                        bad += 1;
                        if bad < 20 {
                            let _ = writeln!(Out, "bad leaf {:x} sub-leaf {:x}: the processor says {:x?}, the crate {:x?}", l, s, a, x);
                        }
                    }
                }
            }
        }
    }
    let v = here(0, 0);
    let mut name = [0; 12];
    for (k, x) in [v[1], v[3], v[2]].iter().enumerate() {
        name[4 * k..4 * k + 4].copy_from_slice(&x.to_le_bytes());
    }
    let told = c.get_vendor_info();
    if told.as_ref().map(|x| x.as_str().as_bytes()) != core::str::from_utf8(&name).ok().map(|x| x.as_bytes()) && v != [0; 4] {
        let _ = writeln!(Out, "bad vendor {:x?} of {:x?}", told, name);
    }
    let _ = writeln!(Out, "native {} {}", n, steady);
}

#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    let _ = writeln!(Out, "panic {}", i);
    exit(101)
}

// what the compiler expects of every target
#[cfg(target_arch = "x86_64")]
mod mem {
    use core::arch::asm;
    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _);
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        if (d as usize).wrapping_sub(s as usize) >= n {
            return memcpy(d, s, n);
        }
        asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.add(n).sub(1) => _, inout("rsi") s.add(n).sub(1) => _);
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8);
        d
    }
}
#[cfg(target_arch = "x86")]
global_asm!(
    ".globl memcpy", "memcpy:", "push esi", "push edi", "mov edi, [esp+12]", "mov esi, [esp+16]", "mov ecx, [esp+20]", "mov eax, edi", "rep movsb", "pop edi", "pop esi", "ret",
    ".globl memmove", "memmove:", "push esi", "push edi", "mov edi, [esp+12]", "mov esi, [esp+16]", "mov ecx, [esp+20]", "mov edx, edi", "mov eax, edi", "sub edx, esi", "cmp edx, ecx", "jae 2f",
    "lea edi, [edi+ecx-1]", "lea esi, [esi+ecx-1]", "std", "rep movsb", "cld", "jmp 3f", "2: rep movsb", "3: pop edi", "pop esi", "ret",
    ".globl memset", "memset:", "push edi", "mov edi, [esp+8]", "mov eax, [esp+12]", "mov ecx, [esp+16]", "mov edx, edi", "rep stosb", "mov eax, edx", "pop edi", "ret",
);
#[no_mangle]
unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i < n {
        let (x, y) = (core::ptr::read_volatile(a.add(i)), core::ptr::read_volatile(b.add(i)));
        if x != y {
            return x as i32 - y as i32;
        }
        i += 1;
    }
    0
}
#[no_mangle]
unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    memcmp(a, b, n)
}
#[no_mangle]
extern "C" fn rust_eh_personality() {}
#[no_mangle]
extern "C" fn _Unwind_Resume() -> ! {
    exit(102)
}
