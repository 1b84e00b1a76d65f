//! Long enumerations, up to the longest a CPU can report: 2^32 sub-leaves.
//!
//!   walk KIND LENGTH...
//!
//! enumerates a CPU whose enumeration has LENGTH entries, each carrying its
//! own sub-leaf, with further entries beyond the end. Prints a line
//! `ok KIND LENGTH READS` or `bad KIND LENGTH READS TEXT` per length.
use raw_cpuid::{CpuId, CpuIdResult, SgxSectionInfo};
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Cache,
    CacheAmd,
    Topo,
    Topo2,
    Ect,
    Sgx,
    Dat,
    Sparse,
    Soc,
}
use Kind::*;
const KINDS: [(&str, Kind); 9] = [("cache", Cache), ("cacheamd", CacheAmd), ("topo", Topo), ("topo2", Topo2), ("ect", Ect), ("sgx", Sgx), ("dat", Dat), ("sparse", Sparse), ("soc", Soc)];

const Z: CpuIdResult = CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 };

/// The answer of a CPU with `n` entries of one kind.
fn answer(kind: Kind, n: u64, l: u32, s: u32) -> CpuIdResult {
    let vendor = if kind == CacheAmd { [0x6874_7541, 0x444d_4163, 0x6974_6e65] } else { [0x756e_6547, 0x6c65_746e, 0x4965_6e69] };
    let at = s as u64;
    match (kind, l) {
        (_, 0) => CpuIdResult { eax: 0x20, ebx: vendor[0], ecx: vendor[1], edx: vendor[2] },
        (_, 0x8000_0000) => CpuIdResult { eax: 0x8000_0026, ..Z },
        (_, 7) => CpuIdResult { ebx: 4, ..Z },
        (Cache, 4) | (CacheAmd, 0x8000_001D) => CpuIdResult { eax: if at == n { 0 } else { 0x21 }, ecx: s, ..Z },
        (Topo, 0xB) | (Topo2, 0x1F) | (Ect, 0x8000_0026) => CpuIdResult { eax: 1, ebx: s, ecx: if at == n { 0 } else { 0x100 }, edx: s },
        (Sgx, 0x12) if s >= 2 => CpuIdResult { eax: s << 12 | (at != n + 2) as u32, ebx: s >> 20, ..Z },
        // n + 1 sub-leaves, of which every third one is valid
        (Dat, 0x18) => CpuIdResult { eax: n as u32, ecx: s, edx: (s % 3 == 1 || s == u32::MAX) as u32, ..Z },
        (Sparse, 0x18) => CpuIdResult { eax: n as u32, ecx: s, edx: (s == 7 || at == n) as u32, ..Z },
        // attributes 4..=n
        (Soc, 0x17) => match s {
            0 => CpuIdResult { eax: n as u32, ..Z },
            _ => CpuIdResult { ecx: s, ..Z },
        },
        _ => Z,
    }
}

/// Entries that came in order.
fn walk(kind: Kind, n: u64, reads: &Rc<Cell<u64>>) -> Result<(), String> {
    let r2 = reads.clone();
    let rd = move |l: u32, s: u32| {
        let r = r2.get() + 1;
        r2.set(r);
        if r > 3 * n + 1000 {
            panic!("does not end: {} reads for an enumeration of {}", r, n);
        }
        answer(kind, n, l, s)
    };
    let c = CpuId::with_cpuid_fn(rd);
    let mut got = 0u64;
    let wrong = |got: u64, want: u64, have: u64| Err(format!("entry {} is {}, expected {}", got, have, want));
    macro_rules! see {
        ($want:expr, $have:expr) => {
            if $want != $have {
                return wrong(got, $want, $have);
            }
            got += 1;
        };
    }
    let mut want = 0u64;
    match kind {
        Cache | CacheAmd => {
            for x in c.get_cache_parameters().ok_or("absent")? {
                see!((want + 1) & 0xffff_ffff, x.sets() as u64 & 0xffff_ffff);
                want += 1;
            }
        }
        Topo | Topo2 => {
            let it = if kind == Topo { c.get_extended_topology_info() } else { c.get_extended_topology_info_v2() };
            for x in it.ok_or("absent")? {
                see!(want, x.x2apic_id() as u64);
                want += 1;
            }
        }
        Ect => {
            for x in c.get_extended_cpu_topology().ok_or("absent")? {
                see!(want, x.extended_apic_id() as u64);
                want += 1;
            }
        }
        Sgx => {
            for x in c.get_sgx_info().ok_or("absent")?.iter() {
                let SgxSectionInfo::Epc(x) = x;
                see!((want + 2) << 12, x.physical_base());
                want += 1;
            }
        }
        Dat | Sparse => {
            let valid = |s: u64| if kind == Dat { s % 3 == 1 || s == u32::MAX as u64 } else { s == 7 || s == n };
            for x in c.get_deterministic_address_translation_info().ok_or("absent")? {
                if kind == Dat {
                    while want <= n && !valid(want) {
                        want += 1;
                    }
                } else {
                    want = if want <= 7 && n >= 7 { 7 } else { n };
                }
                see!(want, x.sets() as u64);
                want += 1;
            }
            while kind == Dat && want <= n && !valid(want) {
                want += 1;
            }
        }
        Soc => {
            want = 4;
            for x in c.get_soc_vendor_info().ok_or("absent")?.get_vendor_attributes().into_iter().flatten() {
                see!(want, x.ecx as u64);
                want += 1;
            }
        }
    }
    let end = match kind {
        Dat | Sparse => n + 1,
        Soc => (n + 1).max(4),
        _ => n,
    };
    if want != end {
        return Err(format!("{} entries; it ended at {} of {}", got, want, end));
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let (name, kind) = KINDS.into_iter().find(|k| k.0 == a[1]).expect("no such kind");
    for n in a[2..].iter().map(|x| x.parse::<u64>().unwrap()) {
        let reads = Rc::new(Cell::new(0u64));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| walk(kind, n, &reads)));
        match r {
            Ok(Ok(())) => println!("ok {} {} {}", name, n, reads.get()),
            Ok(Err(e)) => println!("bad {} {} {} {}", name, n, reads.get(), e),
            Err(e) => {
                let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                println!("bad {} {} {} {}", name, n, reads.get(), s)
            }
        }
    }
}
