//! The library's generic code, instantiated for one reader type in a crate
//! that is compiled with coverage instrumentation. (Downstream crates reuse
//! these instances in unoptimised builds.)
use raw_cpuid::{CpuId, CpuIdReader, CpuIdResult};
use std::fmt::Write;
use std::sync::Arc;

pub trait Source: Send + Sync {
    fn answer(&self, eax: u32, ecx: u32) -> CpuIdResult;
}

#[derive(Clone)]
pub struct Dyn(pub Arc<dyn Source>);
impl CpuIdReader for Dyn {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        self.0.answer(eax, ecx)
    }
}

macro_rules! one {
    ($t:ident, $c:ident: $($f:ident)*) => { $( if let Some(x) = $c.$f() { let _ = write!($t, "{:?}", x); } )* };
}
macro_rules! all {
    ($t:ident, $e:expr) => {
        if let Some(mut it) = $e {
            let _ = write!($t, "{:?}", it);
            while let Some(x) = it.next() {
                let _ = write!($t, "{:?}", x);
            }
        }
    };
}

/// Never called; makes the instances exist.
pub fn roots(r: Dyn) -> String {
    let c = CpuId::with_cpuid_reader(r);
    let mut t = format!("{:?}", c);
    one!(t, c: get_vendor_info get_feature_info get_processor_serial get_monitor_mwait_info get_thermal_power_info
        get_extended_feature_info get_direct_cache_access_info get_performance_monitoring_info get_extended_state_info
        get_rdt_monitoring_info get_rdt_allocation_info get_sgx_info get_processor_trace_info get_tsc_info
        get_processor_frequency_info get_soc_vendor_info get_hypervisor_info
        get_extended_processor_and_feature_identifiers get_processor_brand_string get_l1_cache_and_tlb_info
        get_l2_l3_cache_and_tlb_info get_advanced_power_mgmt_info get_processor_capacity_feature_info get_svm_info
        get_tlb_1gb_page_info get_performance_optimization_info get_instruction_based_sampling_capabilities
        get_processor_topology_info get_memory_encryption_info get_pqos_extended_feature_info
        get_extended_feature_identification_2 get_extended_performance_monitoring_and_debug
        get_multi_key_encrypted_memory_capabilities);
    all!(t, c.get_cache_info());
    all!(t, c.get_cache_parameters());
    all!(t, c.get_extended_topology_info());
    all!(t, c.get_extended_topology_info_v2());
    all!(t, c.get_deterministic_address_translation_info());
    if let Some(mut it) = c.get_extended_cpu_topology() {
        while let Some(x) = it.next() {
            let _ = write!(t, "{:?}", x);
        }
    }
    if let Some(x) = c.get_extended_state_info() {
        all!(t, Some(x.iter()));
    }
    if let Some(x) = c.get_sgx_info() {
        all!(t, Some(x.iter()));
    }
    if let Some(x) = c.get_soc_vendor_info() {
        all!(t, x.get_vendor_attributes());
        one!(t, x: get_vendor_brand);
    }
    if let Some(x) = c.get_rdt_monitoring_info() {
        one!(t, x: l3_monitoring);
    }
    if let Some(x) = c.get_rdt_allocation_info() {
        one!(t, x: l3_cat l2_cat memory_bandwidth_allocation);
    }
    if let Some(x) = c.get_pqos_extended_feature_info() {
        one!(t, x: get_l3_memory_bandwidth_enforcement_info get_l3_slow_memory_bandwidth_enforcement_info
            get_bandwidth_monitoring_event_counters_info get_assignable_bandwidth_monitoring_counters_info);
    }
    if let Some(x) = c.get_hypervisor_info() {
        let _ = write!(t, "{:?} {:?} {:?}", x.identify(), x.tsc_frequency(), x.apic_frequency());
    }
    t
}

/// The entry points that execute the instruction.
pub fn native(leaf: u32, sub: u32) -> [u32; 8] {
    use raw_cpuid::{cpuid, CpuIdReaderNative};
    let a = raw_cpuid::native_cpuid::cpuid_count(leaf, sub);
    let b = cpuid!(leaf);
    let c = cpuid!(leaf, sub);
    let d = CpuIdReaderNative.cpuid1(leaf);
    let e = CpuIdReaderNative.cpuid2(leaf, sub);
    [a.eax, b.eax, c.eax, d.eax, e.eax, a.ebx, a.ecx, a.edx]
}

#[cfg(feature = "display")]
pub fn raw(r: Dyn) {
    raw_cpuid::display::raw(r)
}
#[cfg(feature = "display")]
pub fn report(c: CpuId<Dyn>) {
    raw_cpuid::display::markdown(c)
}
