//! What every public structure must report, as a function of the registers it
//! comes from: the register, bit or bit range that the Intel SDM / AMD APM
//! assign to each accessor. Written down independently of the library and
//! evaluated next to it by the monitors.
#![allow(deprecated)]
use crate::machine::*;
use crate::val::*;
use raw_cpuid as rc;
use raw_cpuid::CpuIdReader;

/// The registers one value was decoded from (`s[0]` its own leaf, `s[1..]`
/// further leaves it combines), the vendor, and an auxiliary number.
#[derive(Clone, Debug)]
pub struct Ctx {
    pub s: Vec<Regs>,
    pub vend: Vend,
    pub aux: u64,
}
impl Ctx {
    pub fn new(s: Vec<Regs>, vend: Vend) -> Ctx {
        Ctx { s, vend, aux: 0 }
    }
    pub fn r(&self, slot: usize, reg: usize) -> u32 {
        self.s[slot].get(reg)
    }
    pub fn f(&self, slot: usize, reg: usize, lo: u32, hi: u32) -> u32 {
        ((self.r(slot, reg) as u64 >> lo) & ((1u64 << (hi - lo + 1)) - 1)) as u32
    }
    pub fn bytes(&self, which: &[(usize, usize)]) -> Vec<u8> {
        which.iter().flat_map(|&(s, r)| self.r(s, r).to_le_bytes()).collect()
    }
    /// EAX, EBX, ECX, EDX of the first three slots.
    pub fn all_bytes(&self) -> Vec<u8> {
        (0..12).flat_map(|i| self.r(i / 4, i % 4).to_le_bytes()).collect()
    }
}

pub enum W {
    /// slot, register, bit
    Bit(usize, usize, u32),
    /// the same, but only on AMD/Hygon
    AmdBit(usize, usize, u32),
    /// slot, register, low bit, high bit, addend
    Num(usize, usize, u32, u32, u64),
    Fn(fn(&Ctx) -> V),
}
impl W {
    pub fn eval(&self, c: &Ctx) -> V {
        match *self {
            W::Bit(s, r, b) => V::B(c.f(s, r, b, b) == 1),
            W::AmdBit(s, r, b) => V::B(c.vend == Vend::Amd && c.f(s, r, b, b) == 1),
            W::Num(s, r, lo, hi, add) => n(c.f(s, r, lo, hi) as u64 + add),
            W::Fn(f) => f(c),
        }
    }
}

pub struct Acc<T> {
    pub name: &'static str,
    /// "B" yes/no predicate (C04/C05), "N" numeric or enumerated field
    /// (C06/C07), or explicit property ids.
    pub props: &'static str,
    pub get: fn(&T) -> V,
    pub want: W,
}

pub fn n<T: ToV>(x: T) -> V {
    x.to_v()
}

fn vstr(b: &[u8], bad: &str) -> V {
    s(std::str::from_utf8(b).unwrap_or(bad))
}
fn brand(b: &[u8]) -> V {
    let end = b.iter().position(|&x| x == 0).unwrap_or(b.len());
    s(std::str::from_utf8(&b[..end]).map(|x| x.trim()).unwrap_or("Invalid Processor Brand String"))
}

fn family(c: &Ctx) -> u32 {
    let base = c.f(0, RA, 8, 11);
    let ext = c.f(0, RA, 20, 27);
    if base == 0xf || c.vend == Vend::Other {
        (base + ext).min(255)
    } else {
        base
    }
}
fn model(c: &Ctx) -> u32 {
    let base = c.f(0, RA, 8, 11);
    let m = c.f(0, RA, 4, 7);
    let ext = c.f(0, RA, 16, 19);
    match c.vend {
        Vend::Other => ext << 4 | m,
        Vend::Amd if base == 0xf => ext << 4 | m,
        Vend::Intel if base == 0xf || base == 6 => ext << 4 | m,
        _ => m,
    }
}
fn xreg(sub: u32) -> V {
    s(&match sub {
        2 => "Avx".to_string(),
        3 => "MpxBndregs".into(),
        4 => "MpxBndcsr".into(),
        5 => "Avx512Opmask".into(),
        6 => "Avx512ZmmHi256".into(),
        7 => "Avx512ZmmHi16".into(),
        8 => "Pt".into(),
        9 => "Pkru".into(),
        13 => "Hdc".into(),
        x => format!("Unknown({})", x),
    })
}
fn pt(c: &Ctx, reg: usize, lo: u32, hi: u32) -> V {
    // sub-leaf 1 exists only when sub-leaf 0 EAX says so
    n(if c.r(0, RA) >= 1 { c.f(1, reg, lo, hi) } else { 0 })
}
fn tsc(c: &Ctx) -> V {
    let (den, num, hz) = (c.r(0, RA) as u128, c.r(0, RB) as u128, c.r(0, RC) as u128);
    if den == 0 || num == 0 || hz == 0 {
        V::Absent
    } else {
        n(hz * num / den)
    }
}
pub const HYPERVISORS: [(&[u8; 12], &str); 9] = [
    (b"VMwareVMware", "VMware"),
    (b"XenVMMXenVMM", "Xen"),
    (b"Microsoft Hv", "HyperV"),
    (b"KVMKVMKVM\0\0\0", "KVM"),
    (b"TCGTCGTCGTCG", "QEMU"),
    (b"bhyve bhyve ", "Bhyve"),
    (b"BHyVE BHyVE ", "Bhyve"),
    (b"QNXQVMBSQG\0\0", "QNX"),
    (b"ACRNACRNACRN", "ACRN"),
];
fn hyp(c: &Ctx) -> V {
    let b = c.bytes(&[(0, RB), (0, RC), (0, RD)]);
    for (sig, name) in HYPERVISORS {
        if b == sig {
            return s(name);
        }
    }
    s(&format!("Unknown({}, {}, {})", c.r(0, RB), c.r(0, RC), c.r(0, RD)))
}
fn hypf(c: &Ctx, reg: usize) -> V {
    if c.r(0, RA) >= 0x4000_0010 {
        n(c.r(1, reg))
    } else {
        V::Absent
    }
}
/// AMD 8-bit (L1) associativity.
fn l1(x: u32) -> V {
    s(&match x {
        0 => "Disabled".to_string(),
        1 => "DirectMapped".into(),
        255 => "FullyAssociative".into(),
        k => format!("NWay({})", k),
    })
}
/// AMD 4-bit (L2/L3/1-GiB TLB) associativity.
fn l2(x: u32) -> V {
    s(&match x {
        0 => "Disabled".to_string(),
        1 => "DirectMapped".into(),
        15 => "FullyAssociative".into(),
        3 | 7 | 9 => "Unknown".into(),
        k => format!("NWay({})", [0, 0, 2, 0, 4, 6, 8, 0, 16, 0, 32, 48, 64, 96, 128, 0][k as usize]),
    })
}
fn hier(x: u32) -> V {
    s(&match x {
        0 => "Reserved".to_string(),
        1 => "Core".into(),
        2 => "Complex".into(),
        3 => "Die".into(),
        4 => "Socket".into(),
        k => format!("Unknown({})", k),
    })
}

macro_rules! accs {
    ($name:ident : $t:ty;
     $(bits $bs:literal $br:ident { $($bn:ident $bb:literal),* $(,)? })*
     $(amdbits $als:literal $ar:ident { $($an:ident $ab:literal),* $(,)? })*
     $(nums { $($nn:ident $ns:literal $nr:ident $nl:literal $nh:literal $na:literal),* $(,)? })?
     $(fns { $($fnm:ident $fp:literal |$fc:ident| $fe:expr),* $(,)? })?
    ) => {
        pub fn $name<R: CpuIdReader>() -> Vec<Acc<$t>> {
            let mut v: Vec<Acc<$t>> = Vec::new();
            $($(v.push(Acc { name: stringify!($bn), props: "B", get: |o: &$t| o.$bn().to_v(), want: W::Bit($bs, $br, $bb) });)*)*
            $($(v.push(Acc { name: stringify!($an), props: "B", get: |o: &$t| o.$an().to_v(), want: W::AmdBit($als, $ar, $ab) });)*)*
            $($(v.push(Acc { name: stringify!($nn), props: "N", get: |o: &$t| o.$nn().to_v(), want: W::Num($ns, $nr, $nl, $nh, $na) });)*)?
            $($(v.push(Acc { name: stringify!($fnm), props: $fp, get: |o: &$t| o.$fnm().to_v(), want: W::Fn(|$fc: &Ctx| $fe) });)*)?
            v
        }
    };
}

accs! { vendor_info: rc::VendorInfo;
    fns {
        as_str "C02" |c| vstr(&c.bytes(&[(0, RB), (0, RD), (0, RC)]), "InvalidVendorString"),
        as_string "C02" |c| vstr(&c.bytes(&[(0, RB), (0, RD), (0, RC)]), "InvalidVendorString"),
    }
}
accs! { processor_serial: rc::ProcessorSerial;
    fns {
        serial_lower "N C19" |c| n(c.r(1, RC)),
        serial_middle "N C19" |c| n(c.r(1, RD)),
        serial_upper "N C19" |c| n(c.r(0, RA)),
        serial "C19" |c| n((c.r(1, RD) as u64) << 32 | c.r(1, RC) as u64),
        serial_all "C19" |c| n((c.r(0, RA) as u128) << 64 | (c.r(1, RD) as u128) << 32 | c.r(1, RC) as u128),
    }
}
accs! { feature_info: rc::FeatureInfo;
    bits 0 RC {
        has_sse3 0, has_pclmulqdq 1, has_ds_area 2, has_monitor_mwait 3, has_cpl 4, has_vmx 5,
        has_smx 6, has_eist 7, has_tm2 8, has_ssse3 9, has_cnxtid 10, has_fma 12,
        has_cmpxchg16b 13, has_pdcm 15, has_pcid 17, has_dca 18, has_sse41 19, has_sse42 20,
        has_x2apic 21, has_movbe 22, has_popcnt 23, has_tsc_deadline 24, has_aesni 25,
        has_xsave 26, has_oxsave 27, has_avx 28, has_f16c 29, has_rdrand 30, has_hypervisor 31,
    }
    bits 0 RD {
        has_fpu 0, has_vme 1, has_de 2, has_pse 3, has_tsc 4, has_msr 5, has_pae 6, has_mce 7,
        has_cmpxchg8b 8, has_apic 9, has_sysenter_sysexit 11, has_mtrr 12, has_pge 13,
        has_mca 14, has_cmov 15, has_pat 16, has_pse36 17, has_psn 18, has_clflush 19, has_ds 21,
        has_acpi 22, has_mmx 23, has_fxsave_fxstor 24, has_sse 25, has_sse2 26, has_ss 27,
        has_htt 28, has_tm 29, has_pbe 31,
    }
    nums {
        extended_family_id 0 RA 20 27 0,
        extended_model_id 0 RA 16 19 0,
        base_family_id 0 RA 8 11 0,
        base_model_id 0 RA 4 7 0,
        stepping_id 0 RA 0 3 0,
        brand_index 0 RB 0 7 0,
        cflush_cache_line_size 0 RB 8 15 0,
        initial_local_apic_id 0 RB 24 31 0,
        max_logical_processor_ids 0 RB 16 23 0,
    }
    fns {
        family_id "C08" |c| n(family(c)),
        model_id "C08" |c| n(model(c)),
    }
}
accs! { cache_parameter: rc::CacheParameter;
    bits 0 RA { is_self_initializing 8, is_fully_associative 9 }
    bits 0 RD { is_write_back_invalidate 0, is_inclusive 1, has_complex_indexing 2 }
    nums {
        level 0 RA 5 7 0,
        max_cores_for_cache 0 RA 14 25 1,
        max_cores_for_package 0 RA 26 31 1,
        coherency_line_size 0 RB 0 11 1,
        physical_line_partitions 0 RB 12 21 1,
        associativity 0 RB 22 31 1,
    }
    fns {
        cache_type "N" |c| s(["Null", "Data", "Instruction", "Unified", "Reserved"][c.f(0, RA, 0, 4).min(4) as usize]),
        // as far as the host has numbers for it
        sets "N" |c| n((c.r(0, RC) as u64 + 1).min(usize::MAX as u64)),
    }
}
accs! { monitor_mwait_info: rc::MonitorMwaitInfo;
    bits 0 RC { extensions_supported 0, interrupts_as_break_event 1 }
    nums {
        smallest_monitor_line 0 RA 0 15 0,
        largest_monitor_line 0 RB 0 15 0,
        supported_c0_states 0 RD 0 3 0,
        supported_c1_states 0 RD 4 7 0,
        supported_c2_states 0 RD 8 11 0,
        supported_c3_states 0 RD 12 15 0,
        supported_c4_states 0 RD 16 19 0,
        supported_c5_states 0 RD 20 23 0,
        supported_c6_states 0 RD 24 27 0,
        supported_c7_states 0 RD 28 31 0,
    }
}
accs! { thermal_power_info: rc::ThermalPowerInfo;
    bits 0 RA {
        has_dts 0, has_turbo_boost 1, has_arat 2, has_pln 4, has_ecmd 5, has_ptm 6, has_hwp 7,
        has_hwp_notification 8, has_hwp_activity_window 9,
        has_hwp_energy_performance_preference 10, has_hwp_package_level_request 11, has_hdc 13,
        has_turbo_boost3 14, has_hwp_capabilities 15, has_hwp_peci_override 16,
        has_flexible_hwp 17, has_hwp_fast_access_mode 18,
        has_ignore_idle_processor_hwp_request 20,
    }
    bits 0 RC { has_hw_coord_feedback 0, has_energy_bias_pref 3 }
    nums {
        dts_irq_threshold 0 RB 0 3 0,
    }
}
accs! { extended_features: rc::ExtendedFeatures;
    bits 0 RB {
        has_fsgsbase 0, has_tsc_adjust_msr 1, has_bmi1 3, has_hle 4, has_avx2 5, has_fdp 6,
        has_smep 7, has_bmi2 8, has_rep_movsb_stosb 9, has_invpcid 10, has_rtm 11, has_rdtm 12,
        has_fpu_cs_ds_deprecated 13, has_mpx 14, has_rdta 15, has_rdseed 18, has_adx 19,
        has_smap 20, has_clflushopt 23, has_processor_trace 25, has_sha 29, has_sgx 2,
        has_avx512f 16, has_avx512dq 17, has_avx512_ifma 21, has_avx512pf 26, has_avx512er 27,
        has_avx512cd 28, has_avx512bw 30, has_avx512vl 31, has_clwb 24,
    }
    bits 0 RC {
        has_prefetchwt1 0, has_avx512vbmi 1, has_umip 2, has_pku 3, has_ospke 4, has_waitpkg 5,
        has_av512vbmi2 6, has_avx512vbmi2 6, has_cet_ss 7, has_gfni 8, has_vaes 9,
        has_vpclmulqdq 10, has_avx512vnni 11, has_avx512bitalg 12, has_tme_en 13,
        has_avx512vpopcntdq 14, has_la57 16, has_rdpid 22, has_sgx_lc 30,
    }
    bits 0 RD {
        has_avx512_4vnniw 2, has_avx512_4fmaps 3, has_avx512_vp2intersect 8, has_amx_bf16 22,
        has_avx512_fp16 23, has_amx_tile 24, has_amx_int8 25,
    }
    bits 1 RA {
        has_avx_vnni 4, has_avx512_bf16 5, has_fzrm 10, has_fsrs 11, has_fsrcrs 12,
        has_hreset 22, has_avx_ifma 23, has_lam 26, has_msrlist 27,
        has_invd_disable_post_bios_done 30,
    }
    bits 1 RD {
        has_avx_vnni_int8 4, has_avx_ne_convert 5, has_avx_vnni_int16 10, has_prefetchi 14,
        has_uiret_uif 17, has_cet_sss 18, has_avx10 19,
    }
    nums { mawau_value 0 RC 17 21 0 }
}
accs! { direct_cache_access_info: rc::DirectCacheAccessInfo;
    nums {
        get_dca_cap_value 0 RA 0 31 0,
    }
}
accs! { performance_monitoring_info: rc::PerformanceMonitoringInfo;
    bits 0 RD { has_any_thread_deprecation 15 }
    bits 0 RB {
        is_core_cyc_ev_unavailable 0, is_inst_ret_ev_unavailable 1,
        is_ref_cycle_ev_unavailable 2, is_cache_ref_ev_unavailable 3,
        is_ll_cache_miss_ev_unavailable 4, is_branch_inst_ret_ev_unavailable 5,
        is_branch_midpred_ev_unavailable 6,
    }
    nums {
        version_id 0 RA 0 7 0,
        number_of_counters 0 RA 8 15 0,
        counter_bit_width 0 RA 16 23 0,
        ebx_length 0 RA 24 31 0,
        fixed_function_counters 0 RD 0 4 0,
        fixed_function_counters_bit_width 0 RD 5 12 0,
    }
}
accs! { extended_topology_level: rc::ExtendedTopologyLevel;
    nums {
        processors 0 RB 0 15 0,
        level_number 0 RC 0 7 0,
        x2apic_id 0 RD 0 31 0,
        shift_right_for_next_apic_id 0 RA 0 4 0,
    }
    fns {
        level_type "N" |c| s(["Invalid", "SMT", "Core", "Module", "Tile", "Die", "Invalid"][c.f(0, RC, 8, 15).min(6) as usize]),
    }
}
accs! { extended_state_info: rc::ExtendedStateInfo<R>;
    bits 0 RA {
        xcr0_supports_legacy_x87 0, xcr0_supports_sse_128 1, xcr0_supports_avx_256 2,
        xcr0_supports_mpx_bndregs 3, xcr0_supports_mpx_bndcsr 4, xcr0_supports_avx512_opmask 5,
        xcr0_supports_avx512_zmm_hi256 6, xcr0_supports_avx512_zmm_hi16 7, xcr0_supports_pkru 9,
    }
    bits 1 RC { ia32_xss_supports_pt 8, ia32_xss_supports_hdc 13 }
    bits 1 RA { has_xsaveopt 0, has_xsavec 1, has_xgetbv 2, has_xsaves_xrstors 3 }
    nums {
        xsave_area_size_enabled_features 0 RB 0 31 0,
        xsave_area_size_supported_features 0 RC 0 31 0,
        xsave_size 1 RB 0 31 0,
    }
}
accs! { extended_state: rc::ExtendedState;
    bits 0 RC { is_in_ia32_xss 0, is_compacted_format 1 }
    nums {
        size 0 RA 0 31 0,
        offset 0 RB 0 31 0,
    }
    fns {
        register "N" |c| xreg(c.aux as u32),
        location "N" |c| s(if c.f(0, RC, 0, 0) == 1 { "Ia32Xss" } else { "Xcr0" }),
        is_in_xcr0 "B" |c| V::B(c.f(0, RC, 0, 0) == 0),
    }
}
accs! { rdt_monitoring_info: rc::RdtMonitoringInfo<R>;
    bits 0 RD { has_l3_monitoring 1 }
    nums {
        rmid_range 0 RB 0 31 0,
    }
}
accs! { l3_monitoring_info: rc::L3MonitoringInfo;
    bits 0 RD {
        has_occupancy_monitoring 0, has_total_bandwidth_monitoring 1,
        has_local_bandwidth_monitoring 2,
    }
    nums {
        conversion_factor 0 RB 0 31 0,
        maximum_rmid_range 0 RC 0 31 0,
    }
}
accs! { rdt_allocation_info: rc::RdtAllocationInfo<R>;
    bits 0 RB { has_l3_cat 1, has_l2_cat 2, has_memory_bandwidth_allocation 3 }
}
accs! { l3_cat_info: rc::L3CatInfo;
    bits 0 RC { has_code_data_prioritization 2 }
    nums {
        capacity_mask_length 0 RA 0 4 1,
        isolation_bitmap 0 RB 0 31 0,
        highest_cos 0 RD 0 15 0,
    }
}
accs! { l2_cat_info: rc::L2CatInfo;
    nums {
        capacity_mask_length 0 RA 0 4 1,
        isolation_bitmap 0 RB 0 31 0,
        highest_cos 0 RD 0 15 0,
    }
}
accs! { mem_bw_allocation_info: rc::MemBwAllocationInfo;
    bits 0 RC { has_linear_response_delay 2 }
    nums {
        max_hba_throttling 0 RA 0 11 1,
        highest_cos 0 RD 0 15 0,
    }
}
accs! { sgx_info: rc::SgxInfo<R>;
    bits 0 RA {
        has_sgx1 0, has_sgx2 1, has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext 5,
        has_encls_leaves_etrackc_erdinfo_eldbc_elduc 6,
    }
    nums {
        miscselect 0 RB 0 31 0,
        max_enclave_size_non_64bit 0 RD 0 7 0,
        max_enclave_size_64bit 0 RD 8 15 0,
    }
    fns {
        secs_attributes "C19" |c| V::T(vec![n((c.r(1, RB) as u64) << 32 | c.r(1, RA) as u64), n((c.r(1, RD) as u64) << 32 | c.r(1, RC) as u64)]),
    }
}
accs! { epc_section: rc::EpcSection;
    fns {
        physical_base "C19" |c| n((c.f(0, RB, 0, 19) as u64) << 32 | (c.r(0, RA) & 0xffff_f000) as u64),
        size "C19" |c| n((c.f(0, RD, 0, 19) as u64) << 32 | (c.r(0, RC) & 0xffff_f000) as u64),
    }
}
accs! { processor_trace_info: rc::ProcessorTraceInfo;
    bits 0 RB {
        has_rtit_cr3_match 0, has_configurable_psb_and_cycle_accurate_mode 1,
        has_ip_tracestop_filtering 2, has_mtc_timing_packet_coefi_suppression 3, has_ptwrite 4,
        has_power_event_trace 5,
    }
    bits 0 RC {
        has_topa 0, has_topa_maximum_entries 1, has_single_range_output_scheme 2,
        has_trace_transport_subsystem 3, has_lip_with_cs_base 31,
    }
    fns {
        configurable_address_ranges "N C19" |c| pt(c, RA, 0, 2),
        supported_mtc_period_encodings "N C19" |c| pt(c, RA, 16, 31),
        supported_cycle_threshold_value_encodings "N C19" |c| pt(c, RB, 0, 15),
        supported_psb_frequency_encodings "N C19" |c| pt(c, RB, 16, 31),
    }
}
accs! { tsc_info: rc::TscInfo;
    nums {
        denominator 0 RA 0 31 0,
        numerator 0 RB 0 31 0,
        nominal_frequency 0 RC 0 31 0,
    }
    fns {
        tsc_frequency "C19" |c| tsc(c),
    }
}
accs! { processor_frequency_info: rc::ProcessorFrequencyInfo;
    nums {
        processor_base_frequency 0 RA 0 15 0,
        processor_max_frequency 0 RB 0 15 0,
        bus_frequency 0 RC 0 15 0,
    }
}
accs! { dat_info: rc::DatInfo;
    bits 0 RB { has_4k_entries 0, has_2mb_entries 1, has_4mb_entries 2, has_1gb_entries 3 }
    bits 0 RD { is_fully_associative 8 }
    nums {
        partitioning 0 RB 8 10 0,
        ways 0 RB 16 31 0,
        sets 0 RC 0 31 0,
        cache_level 0 RD 5 7 0,
        max_addressable_ids 0 RD 14 25 1,
    }
    fns {
        cache_type "N" |c| s(["Null", "DataTLB", "InstructionTLB", "UnifiedTLB", "LoadOnly", "StoreOnly", "Unknown"][c.f(0, RD, 0, 4).min(6) as usize]),
    }
}
accs! { soc_vendor_info: rc::SoCVendorInfo<R>;
    nums {
        get_soc_vendor_id 0 RB 0 15 0,
        get_project_id 0 RC 0 31 0,
        get_stepping_id 0 RD 0 31 0,
    }
}
accs! { soc_vendor_brand: rc::SoCVendorBrand;
    fns {
        as_str "C02" |c| vstr(&c.all_bytes(), "InvalidSoCVendorString"),
        as_string "C02" |c| vstr(&c.all_bytes(), "InvalidSoCVendorString"),
    }
}
accs! { hypervisor_info: rc::HypervisorInfo<R>;
    fns {
        identify "C18" |c| hyp(c),
        tsc_frequency "C18" |c| hypf(c, RA),
        apic_frequency "C18" |c| hypf(c, RB),
    }
}
accs! { extended_processor_feature_identifiers: rc::ExtendedProcessorFeatureIdentifiers;
    bits 0 RC { has_lahf_sahf 0, has_lzcnt 5, has_prefetchw 8 }
    bits 0 RD {
        has_syscall_sysret 11, has_execute_disable 20, has_1gib_pages 26, has_rdtscp 27,
        has_64bit_mode 29,
    }
    amdbits 0 RC {
        has_cmp_legacy 1, has_svm 2, has_ext_apic_space 3, has_alt_mov_cr8 4, has_sse4a 6,
        has_misaligned_sse_mode 7, has_osvw 9, has_ibs 10, has_xop 11, has_skinit 12, has_wdt 13,
        has_lwp 15, has_fma4 16, has_tbm 21, has_topology_extensions 22,
        has_perf_cntr_extensions 23, has_nb_perf_cntr_extensions 24,
        has_data_access_bkpt_extension 26, has_perf_tsc 27, has_perf_cntr_llc_extensions 28,
        has_monitorx_mwaitx 29, has_addr_mask_extension 30,
    }
    amdbits 0 RD {
        has_mmx_extensions 22, has_fast_fxsave_fxstor 25, has_amd_3dnow_extensions 30,
        has_3dnow 31,
    }
    nums {
        extended_signature 0 RA 0 31 0,
        pkg_type 0 RB 28 31 0,
        brand_id 0 RB 0 15 0,
    }
}
accs! { processor_brand_string: rc::ProcessorBrandString;
    fns {
        as_str "C02" |c| brand(&c.all_bytes()),
    }
}
accs! { l1_cache_tlb_info: rc::L1CacheTlbInfo;
    nums {
        dtlb_2m_4m_size 0 RA 16 23 0,
        itlb_2m_4m_size 0 RA 0 7 0,
        dtlb_4k_size 0 RB 16 23 0,
        itlb_4k_size 0 RB 0 7 0,
        dcache_size 0 RC 24 31 0,
        dcache_lines_per_tag 0 RC 8 15 0,
        dcache_line_size 0 RC 0 7 0,
        icache_size 0 RD 24 31 0,
        icache_lines_per_tag 0 RD 8 15 0,
        icache_line_size 0 RD 0 7 0,
    }
    fns {
        dtlb_2m_4m_associativity "N" |c| l1(c.f(0, RA, 24, 31)),
        itlb_2m_4m_associativity "N" |c| l1(c.f(0, RA, 8, 15)),
        dtlb_4k_associativity "N" |c| l1(c.f(0, RB, 24, 31)),
        itlb_4k_associativity "N" |c| l1(c.f(0, RB, 8, 15)),
        dcache_associativity "N" |c| l1(c.f(0, RC, 16, 23)),
        icache_associativity "N" |c| l1(c.f(0, RD, 16, 23)),
    }
}
accs! { l2_and3_cache_tlb_info: rc::L2And3CacheTlbInfo;
    nums {
        dtlb_2m_4m_size 0 RA 16 27 0,
        itlb_2m_4m_size 0 RA 0 11 0,
        dtlb_4k_size 0 RB 16 27 0,
        itlb_4k_size 0 RB 0 11 0,
        l2cache_line_size 0 RC 0 7 0,
        l2cache_lines_per_tag 0 RC 8 11 0,
        l2cache_size 0 RC 16 31 0,
        l3cache_line_size 0 RD 0 7 0,
        l3cache_lines_per_tag 0 RD 8 11 0,
        l3cache_size 0 RD 18 31 0,
    }
    fns {
        dtlb_2m_4m_associativity "N" |c| l2(c.f(0, RA, 28, 31)),
        itlb_2m_4m_associativity "N" |c| l2(c.f(0, RA, 12, 15)),
        dtlb_4k_associativity "N" |c| l2(c.f(0, RB, 28, 31)),
        itlb_4k_associativity "N" |c| l2(c.f(0, RB, 12, 15)),
        l2cache_associativity "N" |c| l2(c.f(0, RC, 12, 15)),
        l3cache_associativity "N" |c| l2(c.f(0, RD, 12, 15)),
    }
}
accs! { apm_info: rc::ApmInfo;
    bits 0 RB { has_mca_overflow_recovery 0, has_succor 1, has_hwa 2 }
    bits 0 RD {
        has_ts 0, has_freq_id_ctrl 1, has_volt_id_ctrl 2, has_thermtrip 3, has_tm 4,
        has_100mhz_steps 6, has_hw_pstate 7, has_invariant_tsc 8, has_cpb 9,
        has_ro_effective_freq_iface 10, has_feedback_iface 11, has_power_reporting_iface 12,
    }
    nums {
        cpu_pwr_sample_time_ratio 0 RC 0 31 0,
    }
}
accs! { processor_capacity_and_feature_info: rc::ProcessorCapacityAndFeatureInfo;
    bits 0 RB {
        has_cl_zero 0, has_inst_ret_cntr_msr 1, has_restore_fp_error_ptrs 2, has_invlpgb 3,
        has_rdpru 4, has_mcommit 8, has_wbnoinvd 9, has_int_wbinvd 13,
        has_unsupported_efer_lmsle 20, has_invlpgb_nested 21,
    }
    nums {
        physical_address_bits 0 RA 0 7 0,
        linear_address_bits 0 RA 8 15 0,
        guest_physical_address_bits 0 RA 16 23 0,
        apic_id_size 0 RC 12 15 0,
        num_phys_threads 0 RC 0 7 1,
        invlpgb_max_pages 0 RD 0 15 0,
        max_rdpru_id 0 RD 16 31 0,
    }
    fns {
        perf_tsc_size "N C19" |c| n(40 + 8 * c.f(0, RC, 16, 17)),
        maximum_logical_processors "N C19" |c| n(1u64 << c.f(0, RC, 12, 15)),
    }
}
accs! { svm_features: rc::SvmFeatures;
    bits 0 RD {
        has_nested_paging 0, has_lbr_virtualization 1, has_svm_lock 2, has_nrip 3,
        has_tsc_rate_msr 4, has_vmcb_clean_bits 5, has_flush_by_asid 6, has_decode_assists 7,
        has_pause_filter 10, has_pause_filter_threshold 12, has_avic 13,
        has_vmsave_virtualization 15, has_gif 16, has_gmet 17, has_sss_check 19,
        has_spec_ctrl 20, has_host_mce_override 23, has_tlb_ctrl 24,
    }
    nums {
        revision 0 RA 0 7 0,
        supported_asids 0 RB 0 31 0,
    }
}
accs! { tlb1gb_page_info: rc::Tlb1gbPageInfo;
    nums {
        dtlb_l1_1gb_size 0 RA 16 27 0,
        itlb_l1_1gb_size 0 RA 0 11 0,
        dtlb_l2_1gb_size 0 RB 16 27 0,
        itlb_l2_1gb_size 0 RB 0 11 0,
    }
    fns {
        dtlb_l1_1gb_associativity "N" |c| l2(c.f(0, RA, 28, 31)),
        itlb_l1_1gb_associativity "N" |c| l2(c.f(0, RA, 12, 15)),
        dtlb_l2_1gb_associativity "N" |c| l2(c.f(0, RB, 28, 31)),
        itlb_l2_1gb_associativity "N" |c| l2(c.f(0, RB, 12, 15)),
    }
}
accs! { performance_optimization_info: rc::PerformanceOptimizationInfo;
    bits 0 RA { has_fp128 0, has_movu 1, has_fp256 2 }
}
accs! { instruction_based_sampling_capabilities: rc::InstructionBasedSamplingCapabilities;
    bits 0 RA {
        has_feature_flags 0, has_fetch_sampling 1, has_execution_sampling 2,
        has_read_write_operation_counter 3, has_operation_counter 4,
        has_branch_target_address_reporting 5, has_operation_counter_extended 6,
        has_invalid_rip_indication 7, has_fused_branch_micro_op_indication 8,
        has_l3_miss_filtering 11,
    }
}
accs! { processor_topology_info: rc::ProcessorTopologyInfo;
    nums {
        x2apic_id 0 RA 0 31 0,
        core_id 0 RB 0 7 0,
        node_id 0 RC 0 7 0,
        nodes_per_processor 0 RC 8 10 1,
    }
    fns {
        threads_per_core "N" |c| n((c.f(0, RB, 8, 15) + 1).min(255)),
    }
}
accs! { memory_encryption_info: rc::MemoryEncryptionInfo;
    bits 0 RA {
        has_sme 0, has_sev 1, has_page_flush_msr 2, has_sev_es 3, has_sev_snp 4, has_vmpl 5,
        has_hw_enforced_cache_coh 10, has_64bit_mode 11, has_restricted_injection 12,
        has_alternate_injection 13, has_debug_swap 14, has_prevent_host_ibs 15, has_vte 16,
    }
    nums {
        c_bit_position 0 RB 0 5 0,
        physical_address_reduction 0 RB 6 11 0,
        max_encrypted_guests 0 RC 0 31 0,
        min_sev_no_es_asid 0 RD 0 31 0,
    }
}
accs! { pqos_extended_feature_info: rc::PqosExtendedFeatureInfo<R>;
    bits 0 RB { has_l3mbe 1, has_l3smbe 2, has_bmec 3, has_l3rr 4, has_abmc 5, has_sdciae 6 }
}
accs! { l3_memory_bandwidth_enforcement_information: rc::L3MemoryBandwidthEnforcementInformation;
    nums {
        bandwidth_length 0 RA 0 31 0,
        cos_max 0 RD 0 31 0,
    }
}
accs! { bandwidth_monitoring_event_counters: rc::BandwidthMonitoringEventCounters;
    bits 0 RC {
        has_l3_cache_lcl_bw_fill_mon 0, has_l3_cache_rmt_bw_fill_mon 1,
        has_l3_cache_lcl_bw_nt_wr_mon 2, has_l3_cache_rmt_bw_nt_wr_mon 3,
        has_l3_cache_lcl_slow_bw_fill_mon 4, has_l3_cache_rmt_slow_bw_fill_mon 5,
        has_l3_cache_vic_mon 6,
    }
    nums {
        number_events 0 RB 0 7 0,
    }
}
accs! { assignable_bandwidth_monitoring_counter_info: rc::AssignableBandwidthMonitoringCounterInfo;
    bits 0 RA { has_overflow_bit 8 }
    bits 0 RC { has_select_cos 0 }
    nums {
        counter_size 0 RA 0 7 0,
        max_abmc 0 RB 0 15 0,
    }
}
accs! { extended_feature_identification2: rc::ExtendedFeatureIdentification2;
    bits 0 RA {
        has_no_nested_data_bp 0, has_lfence_always_serializing 2, has_smm_pg_cfg_lock 3,
        has_null_select_clears_base 6, has_upper_address_ignore 7, has_automatic_ibrs 8,
        has_no_smm_ctl_msr 9, has_prefetch_ctl_msr 13, has_cpuid_user_dis 17,
    }
    nums {
        microcode_patch_size 0 RB 0 11 0,
    }
}
accs! { extended_performance_monitoring_debug: rc::ExtendedPerformanceMonitoringDebug;
    bits 0 RA { has_perf_mon_v2 0, has_lbr_stack 1, has_lbr_and_pmc_freeze 2 }
    nums {
        num_perf_ctr_core 0 RB 0 3 0,
        num_lbr_stack_size 0 RB 4 9 0,
        num_perf_ctr_nb 0 RB 10 15 0,
    }
}
accs! { multi_key_encrypted_memory_capabilities: rc::MultiKeyEncryptedMemoryCapabilities;
    bits 0 RA { has_mem_hmk 0 }
    nums {
        max_mem_hmk_encr_key_id 0 RB 0 15 0,
    }
}
accs! { extended_cpu_topology_level: rc::ExtendedCpuTopologyLevel;
    bits 0 RA {
        has_efficiency_ranking_available 29, has_heterogeneous_cores 30,
        has_asymmetric_topology 31,
    }
    nums {
        mask_width 0 RA 0 4 0,
        num_logical_processors 0 RB 0 15 0,
        pwr_efficiency_ranking 0 RB 16 23 0,
        native_mode_id 0 RB 24 27 0,
        core_type 0 RB 28 31 0,
        input_ecx 0 RC 0 7 0,
        extended_apic_id 0 RD 0 31 0,
    }
    fns {
        level_type "N" |c| hier(c.f(0, RC, 8, 15)),
    }
}
