// Decodes CPUs of a generator and folds everything it is told into digests.
// Used by a program without an operating system and by an ordinary one.
use core::fmt::{self, Write};
use raw_cpuid::{CpuId, CpuIdReader, CpuIdResult};

pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

#[derive(Clone, Copy)]
pub struct Fake(pub u64);
impl CpuIdReader for Fake {
    fn cpuid2(&self, l: u32, s: u32) -> CpuIdResult {
        let a = mix(self.0 ^ ((l as u64) << 32 | s as u64));
        let b = mix(a);
        // some CPUs are dense, some sparse
        let thin = if self.0 & 3 == 0 { mix(b) } else { u64::MAX };
        let (a, b) = (a & thin, b & thin);
        let r = |eax, ebx, ecx, edx| CpuIdResult { eax, ebx, ecx, edx };
        let (w, x, y, z) = (a as u32, (a >> 32) as u32, b as u32, (b >> 32) as u32);
        let v = [[0x756e_6547, 0x6c65_746e, 0x4965_6e69], [0x6874_7541, 0x444d_4163, 0x6974_6e65], [0x6f67_7948, 0x656e_6975, 0x6e65_476e], [x, y, z]][(mix(self.0) & 3) as usize];
        match (l, s) {
            (0, _) => r(0x12 + (w & 15), v[0], v[1], v[2]),
            (0x8000_0000, _) => r(0x8000_0018 + (w & 15), v[0], v[1], v[2]),
            (0x17, 0) | (0x18, 0) => r(w & 63, x, y, z),
            // extremes
            (2..=0x1f, _) | (0x8000_0001..=0x8000_0026, _) if mix(a ^ 7) & 15 == 0 => r(!0, !0, !0, !0),
            // every list ends
            (4, 300..) | (0x8000_001d, 300..) | (0xb, 300..) | (0x1f, 300..) | (0x12, 300..) | (0x8000_0026, 300..) => r(0, 0, 0, 0),
            (0x4000_0000, _) if s & 1 == 0 => r(0x4000_0010, x, y, z),
            _ => r(w, x, y, z),
        }
    }
}

struct Fold(u64, u64);
impl Write for Fold {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        self.1 += s.len() as u64;
        Ok(())
    }
}

macro_rules! each {
    ($f:ident, $it:expr) => {
        if let Some(it) = $it {
            for x in it.take(600) {
                let _ = write!($f, "{:?};", x);
            }
        }
    };
}

/// (digest, bytes of text) of one CPU.
pub fn decode<R: CpuIdReader + 'static>(c: &CpuId<R>) -> (u64, u64) {
    let mut f = Fold(0xcbf2_9ce4_8422_2325, 0);
    let _ = write!(f, "{:?}{:#?}", c, c);
    each!(f, c.get_cache_info());
    each!(f, c.get_cache_parameters());
    each!(f, c.get_extended_topology_info());
    each!(f, c.get_extended_topology_info_v2());
    each!(f, c.get_extended_state_info().map(|x| x.iter()));
    each!(f, c.get_sgx_info().map(|x| x.iter()));
    each!(f, c.get_deterministic_address_translation_info());
    each!(f, c.get_soc_vendor_info().and_then(|x| x.get_vendor_attributes()));
    each!(f, c.get_extended_cpu_topology());
    if let Some(x) = c.get_cache_info() {
        for d in x {
            let _ = write!(f, "{}{}", d, d.desc());
        }
    }
    if let Some(x) = c.get_vendor_info() {
        let _ = write!(f, "{}{}", x, x.as_str());
    }
    if let Some(x) = c.get_processor_brand_string() {
        let _ = write!(f, "{}", x.as_str());
    }
    if let Some(x) = c.get_hypervisor_info() {
        let _ = write!(f, "{:?}{:?}{:?}", x.identify(), x.tsc_frequency(), x.apic_frequency());
    }
    if let Some(x) = c.get_soc_vendor_info().and_then(|x| x.get_vendor_brand()) {
        let _ = write!(f, "{}", x.as_str());
    }
    if let Some(x) = c.get_processor_serial() {
        let _ = write!(f, "{}{}", x.serial(), x.serial_all());
    }
    if let Some(x) = c.get_tsc_info() {
        let _ = write!(f, "{:?}", x.tsc_frequency());
    }
    (f.0, f.1)
}

/// (digest, bytes of text) of the values of one CPU, without the renderings
/// that may differ between hosts.
pub fn values<R: CpuIdReader + 'static>(c: &CpuId<R>) -> (u64, u64) {
    let mut f = Fold(0xcbf2_9ce4_8422_2325, 0);
    crate::all::all(c, &mut f);
    (f.0, f.1)
}
