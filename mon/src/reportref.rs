//! The reference of the human-readable report: which sections it has, which
//! rows a section has, and which accessor each label stands for. Labels and
//! accessors were reviewed one by one against the manuals' names; values are
//! shown by this file's own rules.
use crate::show::display_name;
use raw_cpuid::*;

#[derive(Clone, PartialEq, Eq)]
pub enum Tok {
    Text(String),
    Row(Vec<String>),
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Tok::Text(t) => write!(f, "{:?}", t),
            Tok::Row(r) => write!(f, "| {} |", r.join(" | ")),
        }
    }
}

#[derive(Default)]
pub struct Ref {
    pub toks: Vec<Tok>,
}

fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

impl Ref {
    pub fn text(&mut self, s: &str) {
        self.toks.push(Tok::Text(squeeze(s)))
    }
    pub fn row(&mut self, r: Vec<String>) {
        self.toks.push(Tok::Row(r.iter().map(|c| squeeze(c)).collect()))
    }
    fn print_title(&mut self, s: &str) {
        self.text(s)
    }
    fn print_subtitle(&mut self, s: &str) {
        self.text(s)
    }
    fn print_title_attr(&mut self, s: &str, a: &str) {
        self.text(&format!("{} = \"{}\"", s, a))
    }
    fn print_attr(&mut self, s: &str, a: impl std::fmt::Display) {
        self.text(&format!("{} = {}", s, a).replace("**", ""))
    }
    fn print_cpuid_result(&mut self, s: String, a: CpuIdResult) {
        self.text(&format!("{}: eax = {:#x} ebx = {:#x} ecx = {:#x} edx = {:#x}", s, a.eax, a.ebx, a.ecx, a.edx))
    }
    fn table2(&mut self, rows: &[(String, String)]) {
        for (l, v) in rows {
            self.row(vec![l.clone(), v.clone()])
        }
    }
    fn table3(&mut self, rows: &[(String, String, String)]) {
        for (c, l, v) in rows {
            self.row(vec![c.clone(), l.clone(), v.clone()])
        }
    }
}

trait Show {
    fn show(&self) -> String;
}
fn show<T: Show>(x: &T) -> String {
    x.show()
}
impl Show for bool {
    fn show(&self) -> String {
        if *self { "\u{2705}" } else { "\u{274c}" }.to_string()
    }
}
macro_rules! ints { ($($t:ty)*) => { $(impl Show for $t { fn show(&self) -> String { self.to_string() } })* } }
ints!(u8 u16 u32 u64 u128 usize);
impl Show for String {
    fn show(&self) -> String {
        self.clone()
    }
}
macro_rules! named { ($($t:ident)*) => { $(impl Show for $t { fn show(&self) -> String {
    display_name(stringify!($t), &format!("{:?}", self)).unwrap_or_else(|| format!("no name for {:?}", self))
} })* } }
named!(CacheType TopologyType ExtendedRegisterType ExtendedRegisterStateLocation DatType Associativity HierarchyLevelType);
impl Show for Option<SoCVendorBrand> {
    fn show(&self) -> String {
        self.as_ref().map(|b| b.as_str().to_string()).unwrap_or_default()
    }
}
fn tuple<T: Show>(l: &str, x: T) -> (String, String) {
    (l.to_string(), x.show())
}
fn triple<T: Show>(c: &str, l: &str, x: T) -> (String, String, String) {
    (c.to_string(), l.to_string(), x.show())
}

#[allow(deprecated)]
pub fn reference<R: CpuIdReader>(cpuid: &CpuId<R>) -> Vec<Tok> {
    let mut t = Ref::default();
    t.text("CpuId");

    if let Some(info) = cpuid.get_vendor_info() {
        t.print_title_attr("vendor_id (0x00)", info.as_str());
    }

    if let Some(info) = cpuid.get_feature_info() {
        t.print_title("version information (1/eax):");
        t.table2(&[
                tuple("base family", info.base_family_id()),
                tuple("base model", info.base_model_id()),
                tuple("stepping", info.stepping_id()),
                tuple("extended family", info.extended_family_id()),
                tuple("extended model", info.extended_model_id()),
                tuple("family", info.family_id()),
                tuple("model", info.model_id()),
            ],
        );

        t.print_title("miscellaneous (1/ebx):");
        t.table2(&[
                tuple("processor APIC physical id", info.initial_local_apic_id()),
                tuple("max. cpus", info.max_logical_processor_ids()),
                tuple("CLFLUSH line size", info.cflush_cache_line_size()),
                tuple("brand index", info.brand_index()),
            ],
        );

        t.print_title("feature information (1/edx):");
        t.table2(&[
                tuple("fpu", info.has_fpu()),
                tuple("vme", info.has_vme()),
                tuple("de", info.has_de()),
                tuple("pse", info.has_pse()),
                tuple("tsc", info.has_tsc()),
                tuple("msr", info.has_msr()),
                tuple("pae", info.has_pae()),
                tuple("mce", info.has_mce()),
                tuple("cmpxchg8b", info.has_cmpxchg8b()),
                tuple("apic", info.has_apic()),
                tuple("sysenter_sysexit", info.has_sysenter_sysexit()),
                tuple("mtrr", info.has_mtrr()),
                tuple("pge", info.has_pge()),
                tuple("mca", info.has_mca()),
                tuple("cmov", info.has_cmov()),
                tuple("pat", info.has_pat()),
                tuple("pse36", info.has_pse36()),
                tuple("psn", info.has_psn()),
                tuple("clflush", info.has_clflush()),
                tuple("ds", info.has_ds()),
                tuple("acpi", info.has_acpi()),
                tuple("mmx", info.has_mmx()),
                tuple("fxsave_fxstor", info.has_fxsave_fxstor()),
                tuple("sse", info.has_sse()),
                tuple("sse2", info.has_sse2()),
                tuple("ss", info.has_ss()),
                tuple("htt", info.has_htt()),
                tuple("tm", info.has_tm()),
                tuple("pbe", info.has_pbe()),
            ],
        );

        t.print_title("feature information (1/ecx):");
        t.table2(&[
                tuple("sse3", info.has_sse3()),
                tuple("pclmulqdq", info.has_pclmulqdq()),
                tuple("ds_area", info.has_ds_area()),
                tuple("monitor_mwait", info.has_monitor_mwait()),
                tuple("cpl", info.has_cpl()),
                tuple("vmx", info.has_vmx()),
                tuple("smx", info.has_smx()),
                tuple("eist", info.has_eist()),
                tuple("tm2", info.has_tm2()),
                tuple("ssse3", info.has_ssse3()),
                tuple("cnxtid", info.has_cnxtid()),
                tuple("fma", info.has_fma()),
                tuple("cmpxchg16b", info.has_cmpxchg16b()),
                tuple("pdcm", info.has_pdcm()),
                tuple("pcid", info.has_pcid()),
                tuple("dca", info.has_dca()),
                tuple("sse41", info.has_sse41()),
                tuple("sse42", info.has_sse42()),
                tuple("x2apic", info.has_x2apic()),
                tuple("movbe", info.has_movbe()),
                tuple("popcnt", info.has_popcnt()),
                tuple("tsc_deadline", info.has_tsc_deadline()),
                tuple("aesni", info.has_aesni()),
                tuple("xsave", info.has_xsave()),
                tuple("oxsave", info.has_oxsave()),
                tuple("avx", info.has_avx()),
                tuple("f16c", info.has_f16c()),
                tuple("rdrand", info.has_rdrand()),
                tuple("hypervisor", info.has_hypervisor()),
            ],
        );
    }

    if let Some(info) = cpuid.get_cache_info() {
        t.print_title("Cache and TLB information (0x02):");
        let nums: Vec<String> = info
            .clone()
            .map(|cache| format!("{:#x}", cache.num))
            .collect();
        let attrs: Vec<(String, String)> = info
            .zip(nums.iter())
            .map(|(cache, n)| tuple(n, cache.desc().to_string()))
            .collect();
        t.table2(&attrs);
    }

    if let Some(info) = cpuid.get_processor_serial() {
        t.print_title_attr("processor serial number (0x03)",
            format!(
                "{:0>8x}-{:0>8x}-{:0>8x}",
                info.serial_upper(),
                info.serial_middle(),
                info.serial_lower()
            )
            .as_str(),
        );
    }

    if let Some(iter) = cpuid.get_cache_parameters() {
        t.print_title("deterministic cache parameters (0x04):");
        for cache in iter {
            t.print_subtitle(format!("L{} Cache:", cache.level()).as_str());

            let size = (cache.associativity() as u128 * cache.physical_line_partitions() as u128)
                .saturating_mul(cache.coherency_line_size() as u128 * cache.sets() as u128)
                .min(u64::MAX as u128);

            t.table2(&[
                    tuple("cache type", cache.cache_type()),
                    tuple("cache level", cache.level()),
                    tuple(
                        "self-initializing cache level",
                        cache.is_self_initializing(),
                    ),
                    tuple("fully associative cache", cache.is_fully_associative()),
                    tuple("threads sharing this cache", cache.max_cores_for_cache()),
                    tuple("processor cores on this die", cache.max_cores_for_package()),
                    tuple("system coherency line size", cache.coherency_line_size()),
                    tuple("physical line partitions", cache.physical_line_partitions()),
                    tuple("ways of associativity", cache.associativity()),
                    tuple(
                        "WBINVD/INVD acts on lower caches",
                        cache.is_write_back_invalidate(),
                    ),
                    tuple("inclusive to lower caches", cache.is_inclusive()),
                    tuple("complex cache indexing", cache.has_complex_indexing()),
                    tuple("number of sets", cache.sets()),
                    tuple("(size synth.)", size),
                ],
            );
        }
    }

    if let Some(info) = cpuid.get_monitor_mwait_info() {
        t.print_title("MONITOR/MWAIT (0x05):");
        t.table2(&[
                tuple("smallest monitor-line size", info.smallest_monitor_line()),
                tuple("largest monitor-line size", info.largest_monitor_line()),
                tuple("MONITOR/MWAIT exts", info.extensions_supported()),
                tuple(
                    "Interrupts as break-event for MWAIT",
                    info.interrupts_as_break_event(),
                ),
            ],
        );

        t.text("number of CX sub C-states using MWAIT:");
        t.row(["C0", "C1", "C2", "C3", "C4", "C5", "C6", "C7"].iter().map(|x| x.to_string()).collect());
        t.row(vec![
            show(&info.supported_c0_states()), show(&info.supported_c1_states()), show(&info.supported_c2_states()),
            show(&info.supported_c3_states()), show(&info.supported_c4_states()), show(&info.supported_c5_states()),
            show(&info.supported_c6_states()), show(&info.supported_c7_states()),
        ]);
    }

    if let Some(info) = cpuid.get_thermal_power_info() {
        t.print_title("Thermal and Power Management Features (0x06):");
        t.table2(&[
                tuple("digital thermometer", info.has_dts()),
                tuple("Intel Turbo Boost Technology", info.has_turbo_boost()),
                tuple("ARAT always running APIC timer", info.has_arat()),
                tuple("PLN power limit notification", info.has_pln()),
                tuple("ECMD extended clock modulation duty", info.has_ecmd()),
                tuple("PTM package thermal management", info.has_ptm()),
                tuple("HWP base registers", info.has_hwp()),
                tuple("HWP notification", info.has_hwp_notification()),
                tuple("HWP activity window", info.has_hwp_activity_window()),
                tuple(
                    "HWP energy performance preference",
                    info.has_hwp_energy_performance_preference(),
                ),
                tuple(
                    "HWP package level request",
                    info.has_hwp_package_level_request(),
                ),
                tuple("HDC base registers", info.has_hdc()),
                tuple(
                    "Intel Turbo Boost Max Technology 3.0",
                    info.has_turbo_boost3(),
                ),
                tuple("HWP capabilities", info.has_hwp_capabilities()),
                tuple("HWP PECI override", info.has_hwp_peci_override()),
                tuple("flexible HWP", info.has_flexible_hwp()),
                tuple(
                    "IA32_HWP_REQUEST MSR fast access mode",
                    info.has_hwp_fast_access_mode(),
                ),
                tuple(
                    "ignoring idle logical processor HWP req",
                    info.has_ignore_idle_processor_hwp_request(),
                ),
                tuple("digital thermometer threshold", info.dts_irq_threshold()),
                tuple(
                    "hardware coordination feedback",
                    info.has_hw_coord_feedback(),
                ),
                tuple(
                    "performance-energy bias capability",
                    info.has_energy_bias_pref(),
                ),
            ],
        );
    }

    if let Some(info) = cpuid.get_extended_feature_info() {
        t.print_title("Extended feature flags (0x07):");

        t.table2(&[
                tuple("FSGSBASE", info.has_fsgsbase()),
                tuple("IA32_TSC_ADJUST MSR", info.has_tsc_adjust_msr()),
                tuple("SGX: Software Guard Extensions", info.has_sgx()),
                tuple("BMI1", info.has_bmi1()),
                tuple("HLE hardware lock elision", info.has_hle()),
                tuple("AVX2: advanced vector extensions 2", info.has_avx2()),
                tuple("FDP_EXCPTN_ONLY", info.has_fdp()),
                tuple("SMEP supervisor mode exec protection", info.has_smep()),
                tuple("BMI2 instructions", info.has_bmi2()),
                tuple("enhanced REP MOVSB/STOSB", info.has_rep_movsb_stosb()),
                tuple("INVPCID instruction", info.has_invpcid()),
                tuple("RTM: restricted transactional memory", info.has_rtm()),
                tuple("RDT-CMT/PQoS cache monitoring", info.has_rdtm()),
                tuple("deprecated FPU CS/DS", info.has_fpu_cs_ds_deprecated()),
                tuple("MPX: intel memory protection extensions", info.has_mpx()),
                tuple("RDT-CAT/PQE cache allocation", info.has_rdta()),
                tuple(
                    "AVX512F: AVX-512 foundation instructions",
                    info.has_avx512f(),
                ),
                tuple("AVX512-4NNIW: 4NNIW instructions", info.has_avx512_4vnniw()),
                tuple(
                    "AVX512-4FMAPS: 4FMAPS instructions",
                    info.has_avx512_4fmaps(),
                ),
                tuple(
                    "AVX512-VP2INTERSECT: VP2INTERSECT instructions",
                    info.has_avx512_vp2intersect(),
                ),
                tuple("AMX_BF16: AMX_BF16 instructions", info.has_amx_bf16()),
                tuple(
                    "AVX512_FP16: AVX512_FP16 instructions",
                    info.has_avx512_fp16(),
                ),
                tuple("AMX_TILE: Tile Architecture support", info.has_amx_tile()),
                tuple(
                    "AMX_INT8: Tile Computational Operation on 8-bit integers",
                    info.has_amx_int8(),
                ),
                tuple(
                    "AVX512DQ: double & quadword instructions",
                    info.has_avx512dq(),
                ),
                tuple("RDSEED instruction", info.has_rdseed()),
                tuple("ADX instructions", info.has_adx()),
                tuple("SMAP: supervisor mode access prevention", info.has_smap()),
                tuple("AVX512IFMA: fused multiply add", info.has_avx512_ifma()),
                tuple("CLFLUSHOPT instruction", info.has_clflushopt()),
                tuple("CLWB instruction", info.has_clwb()),
                tuple("Intel processor trace", info.has_processor_trace()),
                tuple("AVX512PF: prefetch instructions", info.has_avx512pf()),
                tuple(
                    "AVX512ER: exponent & reciprocal instrs",
                    info.has_avx512er(),
                ),
                tuple("AVX512CD: conflict detection instrs", info.has_avx512cd()),
                tuple("SHA instructions", info.has_sha()),
                tuple("AVX512BW: byte & word instructions", info.has_avx512bw()),
                tuple("AVX512VL: vector length", info.has_avx512vl()),
                tuple("PREFETCHWT1", info.has_prefetchwt1()),
                tuple("UMIP: user-mode instruction prevention", info.has_umip()),
                tuple("PKU protection keys for user-mode", info.has_pku()),
                tuple("OSPKE CR4.PKE and RDPKRU/WRPKRU", info.has_ospke()),
                tuple(
                    "AVX512VNNI: vector neural network instructions",
                    info.has_avx512vnni(),
                ),
                tuple(
                    "BNDLDX/BNDSTX MAWAU value in 64-bit mode",
                    info.mawau_value(),
                ),
                tuple("RDPID: read processor ID", info.has_rdpid()),
                tuple("SGX_LC: SGX launch config", info.has_sgx_lc()),
                tuple(
                    "AVX_VNNI: AVX vector neural network instructions",
                    info.has_avx_vnni(),
                ),
                tuple(
                    "AVX512_BF16: AVX512 BF16 instructions",
                    info.has_avx512_bf16(),
                ),
                tuple("FZRMK: fast zero-length REP MOVSB256", info.has_fzrm()),
                tuple("FSRM: fast short REP STOSB", info.has_fsrs()),
                tuple("FSRCRS: fast short REP CMPSB, REP SCASB", info.has_fsrcrs()),
                tuple("HRESET: HRESET instruction", info.has_hreset()),
                tuple("CET_SSS: CET_SSS support", info.has_cet_sss()),
            ],
        );
    }

    if let Some(info) = cpuid.get_direct_cache_access_info() {
        t.print_title("Direct Cache Access Parameters (0x09):");
        t.print_attr("PLATFORM_DCA_CAP MSR bits", info.get_dca_cap_value());
    }

    if let Some(info) = cpuid.get_performance_monitoring_info() {
        t.print_title("Architecture Performance Monitoring Features (0x0a)");

        t.print_subtitle("Monitoring Hardware Info (0x0a/{eax, edx}):");
        t.table2(&[
                tuple("version ID", info.version_id()),
                tuple(
                    "number of counters per HW thread",
                    info.number_of_counters(),
                ),
                tuple("bit width of counter", info.counter_bit_width()),
                tuple("length of EBX bit vector", info.ebx_length()),
                tuple("number of fixed counters", info.fixed_function_counters()),
                tuple(
                    "bit width of fixed counters",
                    info.fixed_function_counters_bit_width(),
                ),
                tuple("anythread deprecation", info.has_any_thread_deprecation()),
            ],
        );

        t.print_subtitle("Monitoring Hardware Features (0x0a/ebx):");
        t.table2(&[
                tuple(
                    "core cycle event not available",
                    info.is_core_cyc_ev_unavailable(),
                ),
                tuple(
                    "instruction retired event not available",
                    info.is_inst_ret_ev_unavailable(),
                ),
                tuple(
                    "reference cycles event not available",
                    info.is_ref_cycle_ev_unavailable(),
                ),
                tuple(
                    "last-level cache ref event not available",
                    info.is_cache_ref_ev_unavailable(),
                ),
                tuple(
                    "last-level cache miss event not avail",
                    info.is_ll_cache_miss_ev_unavailable(),
                ),
                tuple(
                    "branch inst retired event not available",
                    info.is_branch_inst_ret_ev_unavailable(),
                ),
                tuple(
                    "branch mispred retired event not available",
                    info.is_branch_midpred_ev_unavailable(),
                ),
            ],
        );
    }

    if let Some(info) = cpuid.get_extended_topology_info() {
        t.print_title("x2APIC features / processor topology (0x0b):");

        for level in info {
            t.print_subtitle(format!("level {}:", level.level_number()).as_str());
            t.table2(&[
                    tuple("level type", level.level_type()),
                    tuple("bit width of level", level.shift_right_for_next_apic_id()),
                    tuple("number of logical processors at level", level.processors()),
                    tuple("x2apic id of current processor", level.x2apic_id()),
                ],
            );
        }
    }

    if let Some(info) = cpuid.get_extended_state_info() {
        t.print_title("Extended Register State (0x0d/0):");

        t.print_subtitle("XCR0/IA32_XSS supported states:");
        t.table3(&[
                triple("XCR0", "x87", info.xcr0_supports_legacy_x87()),
                triple("XCR0", "SSE state", info.xcr0_supports_sse_128()),
                triple("XCR0", "AVX state", info.xcr0_supports_avx_256()),
                triple("XCR0", "MPX BNDREGS", info.xcr0_supports_mpx_bndregs()),
                triple("XCR0", "MPX BNDCSR", info.xcr0_supports_mpx_bndcsr()),
                triple("XCR0", "AVX-512 opmask", info.xcr0_supports_avx512_opmask()),
                triple(
                    "XCR0",
                    "AVX-512 ZMM_Hi256",
                    info.xcr0_supports_avx512_zmm_hi256(),
                ),
                triple(
                    "XCR0",
                    "AVX-512 Hi16_ZMM",
                    info.xcr0_supports_avx512_zmm_hi16(),
                ),
                triple("IA32_XSS", "PT", info.ia32_xss_supports_pt()),
                triple("XCR0", "PKRU", info.xcr0_supports_pkru()),
                //("XCR0", "CET_U state", xxx),
                //("XCR0", "CET_S state", xxx),
                triple("IA32_XSS", "HDC", info.ia32_xss_supports_hdc()),
            ],
        );

        t.table2(&[
                tuple(
                    "bytes required by fields in XCR0",
                    info.xsave_area_size_enabled_features(),
                ),
                tuple(
                    "bytes required by XSAVE/XRSTOR area",
                    info.xsave_area_size_supported_features(),
                ),
            ],
        );

        t.print_subtitle("XSAVE features (0x0d/1):");
        t.table2(&[
                tuple("XSAVEOPT instruction", info.has_xsaveopt()),
                tuple("XSAVEC instruction", info.has_xsavec()),
                tuple("XGETBV instruction", info.has_xgetbv()),
                tuple("XSAVES/XRSTORS instructions", info.has_xsaves_xrstors()),
                tuple("SAVE area size [Bytes]", info.xsave_size()),
            ],
        );

        for state in info.iter() {
            t.print_subtitle(format!("{} features (0x0d/{}):", show(&state.register()), state.subleaf).as_str(),
            );
            t.table2(&[
                    tuple("save state size [Bytes]", state.size()),
                    tuple("save state byte offset", state.offset()),
                    tuple("supported in IA32_XSS or XCR0", state.location()),
                    tuple(
                        "64-byte alignment in compacted XSAVE",
                        state.is_compacted_format(),
                    ),
                ],
            );
        }
    }

    if let Some(info) = cpuid.get_rdt_monitoring_info() {
        t.print_title("Quality of Service Monitoring Resource Type (0x0f/0):",
        );
        t.table2(&[
                tuple("Maximum range of RMID", info.rmid_range()),
                tuple("L3 cache QoS monitoring", info.has_l3_monitoring()),
            ],
        );

        if let Some(rmid) = info.l3_monitoring() {
            t.print_subtitle("L3 Cache Quality of Service Monitoring (0x0f/1):");

            t.table2(&[
                    tuple(
                        "Conversion factor from IA32_QM_CTR to bytes",
                        rmid.conversion_factor(),
                    ),
                    tuple("Maximum range of RMID", rmid.maximum_rmid_range()),
                    tuple("L3 occupancy monitoring", rmid.has_occupancy_monitoring()),
                    tuple(
                        "L3 total bandwidth monitoring",
                        rmid.has_total_bandwidth_monitoring(),
                    ),
                    tuple(
                        "L3 local bandwidth monitoring",
                        rmid.has_local_bandwidth_monitoring(),
                    ),
                ],
            );
        }
    }

    if let Some(info) = cpuid.get_rdt_allocation_info() {
        t.print_title("Resource Director Technology Allocation (0x10/0)");
        t.table2(&[
                tuple("L3 cache allocation technology", info.has_l3_cat()),
                tuple("L2 cache allocation technology", info.has_l2_cat()),
                tuple(
                    "memory bandwidth allocation",
                    info.has_memory_bandwidth_allocation(),
                ),
            ],
        );

        if let Some(l3_cat) = info.l3_cat() {
            t.print_subtitle("L3 Cache Allocation Technology (0x10/1):");
            t.table2(&[
                    tuple("length of capacity bit mask", l3_cat.capacity_mask_length()),
                    tuple(
                        "Bit-granular map of isolation/contention",
                        l3_cat.isolation_bitmap(),
                    ),
                    tuple(
                        "code and data prioritization",
                        l3_cat.has_code_data_prioritization(),
                    ),
                    tuple("highest COS number", l3_cat.highest_cos()),
                ],
            );
        }
        if let Some(l2_cat) = info.l2_cat() {
            t.print_subtitle("L2 Cache Allocation Technology (0x10/2):");
            t.table2(&[
                    tuple("length of capacity bit mask", l2_cat.capacity_mask_length()),
                    tuple(
                        "Bit-granular map of isolation/contention",
                        l2_cat.isolation_bitmap(),
                    ),
                    tuple("highest COS number", l2_cat.highest_cos()),
                ],
            );
        }
        if let Some(mem) = info.memory_bandwidth_allocation() {
            t.print_subtitle("Memory Bandwidth Allocation (0x10/3):");
            t.table2(&[
                    tuple("maximum throttling value", mem.max_hba_throttling()),
                    tuple("delay values are linear", mem.has_linear_response_delay()),
                    tuple("highest COS number", mem.highest_cos()),
                ],
            );
        }
    }

    if let Some(info) = cpuid.get_sgx_info() {
        t.print_title("SGX - Software Guard Extensions (0x12/{0,1}):");

        t.table2(&[
                tuple("SGX1", info.has_sgx1()),
                tuple("SGX2", info.has_sgx2()),
                tuple(
                    "SGX ENCLV E*VIRTCHILD, ESETCONTEXT",
                    info.has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext(),
                ),
                tuple(
                    "SGX ENCLS ETRACKC, ERDINFO, ELDBC, ELDUC",
                    info.has_encls_leaves_etrackc_erdinfo_eldbc_elduc(),
                ),
                tuple("MISCSELECT", info.miscselect()),
                tuple(
                    "MaxEnclaveSize_Not64 (log2)",
                    info.max_enclave_size_non_64bit(),
                ),
                tuple("MaxEnclaveSize_64 (log2)", info.max_enclave_size_64bit()),
            ],
        );

        for (idx, leaf) in info.iter().enumerate() {
            let SgxSectionInfo::Epc(section) = leaf;
            t.print_subtitle(format!("Enclave Page Cache (0x12/{})", idx + 2).as_str(),
            );
            t.table2(&[
                    tuple("physical base address", section.physical_base()),
                    tuple("size", section.size()),
                ],
            );
        }
    }

    if let Some(info) = cpuid.get_processor_trace_info() {
        t.print_title("Intel Processor Trace (0x14):");
        t.table2(&[
                tuple(
                    "IA32_RTIT_CR3_MATCH is accessible",
                    info.has_rtit_cr3_match(),
                ),
                tuple(
                    "configurable PSB & cycle-accurate",
                    info.has_configurable_psb_and_cycle_accurate_mode(),
                ),
                tuple(
                    "IP & TraceStop filtering; PT preserve",
                    info.has_ip_tracestop_filtering(),
                ),
                tuple(
                    "MTC timing packet; suppress COFI-based",
                    info.has_mtc_timing_packet_coefi_suppression(),
                ),
                tuple("PTWRITE", info.has_ptwrite()),
                tuple("power event trace", info.has_power_event_trace()),
                tuple("ToPA output scheme", info.has_topa()),
                tuple(
                    "ToPA can hold many output entries",
                    info.has_topa_maximum_entries(),
                ),
                tuple(
                    "single-range output scheme support",
                    info.has_single_range_output_scheme(),
                ),
                tuple(
                    "output to trace transport",
                    info.has_trace_transport_subsystem(),
                ),
                tuple(
                    "IP payloads have LIP values & CS",
                    info.has_lip_with_cs_base(),
                ),
                tuple(
                    "configurable address ranges",
                    info.configurable_address_ranges(),
                ),
                tuple(
                    "supported MTC periods bitmask",
                    info.supported_mtc_period_encodings(),
                ),
                tuple(
                    "supported cycle threshold bitmask",
                    info.supported_cycle_threshold_value_encodings(),
                ),
                tuple(
                    "supported config PSB freq bitmask",
                    info.supported_psb_frequency_encodings(),
                ),
            ],
        );
    }

    if let Some(info) = cpuid.get_tsc_info() {
        t.print_title("Time Stamp Counter/Core Crystal Clock Information (0x15):",
        );
        t.table2(&[
                tuple(
                    "TSC/clock ratio",
                    format!("{} / {}", info.numerator(), info.denominator()),
                ),
                tuple("nominal core crystal clock", info.nominal_frequency()),
            ],
        );
    }

    if let Some(info) = cpuid.get_processor_frequency_info() {
        t.print_title("Processor Frequency Information (0x16):");
        t.table2(&[
                tuple("Core Base Frequency (MHz)", info.processor_base_frequency()),
                tuple(
                    "Core Maximum Frequency (MHz)",
                    info.processor_max_frequency(),
                ),
                tuple("Bus (Reference) Frequency (MHz)", info.bus_frequency()),
            ],
        );
    }

    if let Some(dat_iter) = cpuid.get_deterministic_address_translation_info() {
        for (idx, info) in dat_iter.enumerate() {
            t.print_title(format!(
                    "Deterministic Address Translation Structure (0x18/{}):",
                    idx
                )
                .as_str(),
            );
            t.table2(&[
                    tuple("number of sets", info.sets()),
                    tuple("4 KiB page size entries", info.has_4k_entries()),
                    tuple("2 MiB page size entries", info.has_2mb_entries()),
                    tuple("4 MiB page size entries", info.has_4mb_entries()),
                    tuple("1 GiB page size entries", info.has_1gb_entries()),
                    tuple("partitioning", info.partitioning()),
                    tuple("ways of associativity", info.ways()),
                    tuple("translation cache type", info.cache_type()),
                    tuple("translation cache level", info.cache_level()),
                    tuple("fully associative", info.is_fully_associative()),
                    tuple(
                        "maximum number of addressible IDs",
                        info.max_addressable_ids(),
                    ),
                    tuple(
                        "maximum number of addressible IDs",
                        info.max_addressable_ids(),
                    ),
                ],
            );
        }
    }

    if let Some(info) = cpuid.get_soc_vendor_info() {
        t.print_title("System-on-Chip (SoC) Vendor Info (0x17):");
        t.table2(&[
                tuple("Vendor ID", info.get_soc_vendor_id()),
                tuple("Project ID", info.get_project_id()),
                tuple("Stepping ID", info.get_stepping_id()),
                tuple("Vendor Brand", info.get_vendor_brand()),
            ],
        );

        if let Some(iter) = info.get_vendor_attributes() {
            for (idx, attr) in iter.enumerate() {
                t.print_cpuid_result(format!("0x17 {:#x}", idx + 4), attr);
            }
        }
    }

    if let Some(info) = cpuid.get_processor_brand_string() {
        t.print_attr("Processor Brand String",
            format!("\"**{}**\"", info.as_str()),
        );
    }

    if let Some(info) = cpuid.get_l1_cache_and_tlb_info() {
        t.print_title("L1 TLB 2/4 MiB entries (0x8000_0005/eax):");
        t.table2(&[
                tuple("iTLB #entries", info.itlb_2m_4m_size()),
                tuple("iTLB associativity", info.itlb_2m_4m_associativity()),
                tuple("dTLB #entries", info.dtlb_2m_4m_size()),
                tuple("dTLB associativity", info.dtlb_2m_4m_associativity()),
            ],
        );

        t.print_title("L1 TLB 4 KiB entries (0x8000_0005/ebx):");
        t.table2(&[
                tuple("iTLB #entries", info.itlb_4k_size()),
                tuple("iTLB associativity", info.itlb_4k_associativity()),
                tuple("dTLB #entries", info.dtlb_4k_size()),
                tuple("dTLB associativity", info.dtlb_4k_associativity()),
            ],
        );

        t.print_title("L1 dCache (0x8000_0005/ecx):");
        t.table2(&[
                tuple("line size [Bytes]", info.dcache_line_size()),
                tuple("lines per tag", info.dcache_lines_per_tag()),
                tuple("associativity", info.dcache_associativity()),
                tuple("size [KiB]", info.dcache_size()),
            ],
        );

        t.print_title("L1 iCache (0x8000_0005/edx):");
        t.table2(&[
                tuple("line size [Bytes]", info.icache_line_size()),
                tuple("lines per tag", info.icache_lines_per_tag()),
                tuple("associativity", info.icache_associativity()),
                tuple("size [KiB]", info.icache_size()),
            ],
        );
    }

    if let Some(info) = cpuid.get_l2_l3_cache_and_tlb_info() {
        t.print_title("L2 TLB 2/4 MiB entries (0x8000_0006/eax):");
        t.table2(&[
                tuple("iTLB #entries", info.itlb_2m_4m_size()),
                tuple("iTLB associativity", info.itlb_2m_4m_associativity()),
                tuple("dTLB #entries", info.dtlb_2m_4m_size()),
                tuple("dTLB associativity", info.dtlb_2m_4m_associativity()),
            ],
        );

        t.print_title("L2 TLB 4 KiB entries (0x8000_0006/ebx):");
        t.table2(&[
                tuple("iTLB #entries", info.itlb_4k_size()),
                tuple("iTLB associativity", info.itlb_4k_associativity()),
                tuple("dTLB #entries", info.dtlb_4k_size()),
                tuple("dTLB associativity", info.dtlb_4k_associativity()),
            ],
        );

        t.print_title("L2 Cache (0x8000_0006/ecx):");
        t.table2(&[
                tuple("line size [Bytes]", info.l2cache_line_size()),
                tuple("lines per tag", info.l2cache_lines_per_tag()),
                tuple("associativity", info.l2cache_associativity()),
                tuple("size [KiB]", info.l2cache_size()),
            ],
        );

        t.print_title("L3 Cache (0x8000_0006/edx):");
        t.table2(&[
                tuple("line size [Bytes]", info.l3cache_line_size()),
                tuple("lines per tag", info.l3cache_lines_per_tag()),
                tuple("associativity", info.l3cache_associativity()),
                tuple("size [KiB]", info.l3cache_size() as usize * 512),
            ],
        );
    }

    if let Some(info) = cpuid.get_advanced_power_mgmt_info() {
        t.print_title("RAS Capability (0x8000_0007/ebx):");
        t.table2(&[
                tuple("MCA overflow recovery", info.has_mca_overflow_recovery()),
                tuple("SUCCOR", info.has_succor()),
                tuple("HWA: hardware assert", info.has_hwa()),
            ],
        );

        t.print_title("Advanced Power Management (0x8000_0007/ecx):");
        t.print_attr("Ratio of Compute Unit Power Acc. sample period to TSC",
            info.cpu_pwr_sample_time_ratio(),
        );

        t.print_title("Advanced Power Management (0x8000_0007/edx):");
        t.table2(&[
                tuple("TS: temperature sensing diode", info.has_ts()),
                tuple("FID: frequency ID control", info.has_freq_id_ctrl()),
                tuple("VID: voltage ID control", info.has_volt_id_ctrl()),
                tuple("TTP: thermal trip", info.has_thermtrip()),
                tuple("TM: thermal monitor", info.has_tm()),
                tuple("100 MHz multiplier control", info.has_100mhz_steps()),
                tuple("hardware P-State control", info.has_hw_pstate()),
                tuple("Invariant TSC", info.has_invariant_tsc()),
                tuple("CPB: core performance boost", info.has_cpb()),
                tuple(
                    "read-only effective frequency interface",
                    info.has_ro_effective_freq_iface(),
                ),
                tuple("processor feedback interface", info.has_feedback_iface()),
                tuple("APM power reporting", info.has_power_reporting_iface()),
            ],
        );
    }

    if let Some(info) = cpuid.get_processor_capacity_feature_info() {
        t.print_title("Physical Address and Linear Address Size (0x8000_0008/eax):",
        );
        t.table2(&[
                tuple(
                    "maximum physical address [Bits]",
                    info.physical_address_bits(),
                ),
                tuple(
                    "maximum linear (virtual) address [Bits]",
                    info.linear_address_bits(),
                ),
                tuple(
                    "maximum guest physical address [Bits]",
                    info.guest_physical_address_bits(),
                ),
            ],
        );

        t.print_title("Extended Feature Extensions ID (0x8000_0008/ebx):");
        t.table2(&[
                tuple("CLZERO", info.has_cl_zero()),
                tuple("instructions retired count", info.has_inst_ret_cntr_msr()),
                tuple(
                    "always save/restore error pointers",
                    info.has_restore_fp_error_ptrs(),
                ),
                tuple("RDPRU", info.has_rdpru()),
                tuple("INVLPGB", info.has_invlpgb()),
                tuple("MCOMMIT", info.has_mcommit()),
                tuple("WBNOINVD", info.has_wbnoinvd()),
                tuple("WBNOINVD/WBINVD interruptible", info.has_int_wbinvd()),
                tuple("EFER.LMSLE unsupported", info.has_unsupported_efer_lmsle()),
                tuple("INVLPGB with nested paging", info.has_invlpgb_nested()),
            ],
        );

        t.print_title("Size Identifiers (0x8000_0008/ecx):");
        t.table2(&[
                tuple("Logical processors", info.num_phys_threads()),
                tuple("APIC core ID size", info.apic_id_size()),
                tuple("Max. logical processors", info.maximum_logical_processors()),
                tuple("Perf. TSC size [Bits]", info.perf_tsc_size()),
            ],
        );

        t.print_title("Size Identifiers (0x8000_0008/edx):");
        t.table2(&[
                tuple("RDPRU max. input value", info.max_rdpru_id()),
                tuple("INVLPGB max. #pages", info.invlpgb_max_pages()),
            ],
        );
    }

    if let Some(info) = cpuid.get_svm_info() {
        t.print_title("SVM Secure Virtual Machine (0x8000_000a/eax):");
        t.print_attr("Revision", info.revision());

        t.print_title("SVM Secure Virtual Machine (0x8000_000a/edx):");
        t.table2(&[
                tuple("nested paging", info.has_nested_paging()),
                tuple("LBR virtualization", info.has_lbr_virtualization()),
                tuple("SVM lock", info.has_svm_lock()),
                tuple("NRIP", info.has_nrip()),
                tuple("MSR based TSC rate control", info.has_tsc_rate_msr()),
                tuple("VMCB clean bits support", info.has_vmcb_clean_bits()),
                tuple("flush by ASID", info.has_flush_by_asid()),
                tuple("decode assists", info.has_decode_assists()),
                tuple("pause intercept filter", info.has_pause_filter()),
                tuple("pause filter threshold", info.has_pause_filter_threshold()),
                tuple("AVIC: virtual interrupt controller", info.has_avic()),
                tuple(
                    "virtualized VMLOAD/VMSAVE",
                    info.has_vmsave_virtualization(),
                ),
                tuple("GIF: virtual global interrupt flag", info.has_gif()),
                tuple("GMET: guest mode execute trap", info.has_gmet()),
                tuple("SPEC_CTRL virtualization", info.has_spec_ctrl()),
                tuple("Supervisor shadow-stack restrictions", info.has_sss_check()),
                tuple("#MC intercept", info.has_host_mce_override()),
                tuple("INVLPGB/TLBSYNC virtualization", info.has_tlb_ctrl()),
            ],
        );
    }

    if let Some(info) = cpuid.get_tlb_1gb_page_info() {
        t.print_title("TLB 1-GiB Pages Info (0x8000_0019):");
        t.table2(&[
                tuple("L1 iTLB #entries", info.itlb_l1_1gb_size()),
                tuple("L1 iTLB associativity", info.itlb_l1_1gb_associativity()),
                tuple("L1 dTLB #entries", info.dtlb_l1_1gb_size()),
                tuple("L1 dTLB associativity", info.dtlb_l1_1gb_associativity()),
                tuple("L2 iTLB #entries", info.itlb_l2_1gb_size()),
                tuple("L2 iTLB associativity", info.itlb_l2_1gb_associativity()),
                tuple("L2 dTLB #entries", info.dtlb_l2_1gb_size()),
                tuple("L2 dTLB associativity", info.dtlb_l2_1gb_associativity()),
            ],
        );
    }

    if let Some(info) = cpuid.get_performance_optimization_info() {
        t.print_title("Performance Optimization Info (0x8000_001a):");
        t.table2(&[
                tuple("128-bits width the internal FP/SIMD", info.has_fp128()),
                tuple(
                    "MOVU SSE are efficient more than MOVL/MOVH",
                    info.has_movu(),
                ),
                tuple("256-bits width the internal FP/SIMD", info.has_fp256()),
            ],
        );
    }

    if let Some(info) = cpuid.get_instruction_based_sampling_capabilities() {
        t.print_title("Instruction-Based Sampling Capabilities (0x8000_001b):",
        );
        t.table2(&[
                tuple("IBS feature flags valid", info.has_feature_flags()),
                tuple("IBS fetch sampling supporte", info.has_fetch_sampling()),
                tuple(
                    "IBS execution sampling supported",
                    info.has_execution_sampling(),
                ),
                tuple(
                    "Read write of op counter supported",
                    info.has_read_write_operation_counter(),
                ),
                tuple("Op counting mode supported", info.has_operation_counter()),
                tuple(
                    "Branch target address reporting supported",
                    info.has_branch_target_address_reporting(),
                ),
                tuple(
                    "IbsOpCurCnt and IbsOpMaxCnt extend by 7 bits",
                    info.has_operation_counter_extended(),
                ),
                tuple(
                    "Invalid RIP indication supported",
                    info.has_invalid_rip_indication(),
                ),
                tuple(
                    "Fused branch micro-op indication supported",
                    info.has_fused_branch_micro_op_indication(),
                ),
                tuple(
                    "L3 Miss Filtering for IBS supported",
                    info.has_l3_miss_filtering(),
                ),
            ],
        );
    }

    if let Some(info) = cpuid.get_processor_topology_info() {
        t.print_title("Processor Topology Info (0x8000_001e):");
        t.table2(&[
                tuple("x2APIC ID", info.x2apic_id()),
                tuple("Core ID", info.core_id()),
                tuple("Threads per core", info.threads_per_core()),
                tuple("Node ID", info.node_id()),
                tuple("Nodes per processor", info.nodes_per_processor()),
            ],
        );
    }

    if let Some(info) = cpuid.get_memory_encryption_info() {
        t.print_title("Memory Encryption Support (0x8000_001f):");
        t.table2(&[
                tuple("SME: Secure Memory Encryption", info.has_sme()),
                tuple("SEV: Secure Encrypted Virtualization", info.has_sev()),
                tuple("Page Flush MSR", info.has_page_flush_msr()),
                tuple("SEV-ES: Encrypted State", info.has_sev_es()),
                tuple("SEV Secure Nested Paging", info.has_sev_snp()),
                tuple("VM Permission Levels", info.has_vmpl()),
                tuple(
                    "Hardware cache coherency across encryption domains",
                    info.has_hw_enforced_cache_coh(),
                ),
                tuple("SEV guests only with 64-bit host", info.has_64bit_mode()),
                tuple("Restricted injection", info.has_restricted_injection()),
                tuple("Alternate injection", info.has_alternate_injection()),
                tuple(
                    "Full debug state swap for SEV-ES guests",
                    info.has_debug_swap(),
                ),
                tuple(
                    "Disallowing IBS use by the host supported",
                    info.has_prevent_host_ibs(),
                ),
                tuple("Virtual Transparent Encryption", info.has_vte()),
                tuple("C-bit position in page-table", info.c_bit_position()),
                tuple(
                    "Physical address bit reduction",
                    info.physical_address_reduction(),
                ),
                tuple(
                    "Max. simultaneouslys encrypted guests",
                    info.max_encrypted_guests(),
                ),
                tuple(
                    "Minimum ASID value for SEV guest",
                    info.min_sev_no_es_asid(),
                ),
            ],
        );
    }

    if let Some(info) = cpuid.get_pqos_extended_feature_info() {
        t.print_title("Platform Quality of Service (0x8000_0020/0):");
        t.table2(&[
                tuple("Memory Bandwidth Enforcement", info.has_l3mbe()),
                tuple("Slow Memory Bandwidth Enforcement", info.has_l3smbe()),
                tuple("Bandwidth Monitoring Event Configuration", info.has_bmec()),
                tuple("L3 Range Reservation", info.has_l3rr()),
                tuple("Assignable Bandwidth Monitoring Counters", info.has_abmc()),
                tuple(
                    "Smart Data Cache Injection (SDCI) Allocation Enforcement",
                    info.has_sdciae(),
                ),
            ],
        );
        if let Some(info) = info.get_l3_memory_bandwidth_enforcement_info() {
            t.print_title("L3 Memory Bandwidth Enforcement Information (0x8000_0020/1):",
            );
            t.table2(&[
                    tuple("Bandwidth Length", info.bandwidth_length()),
                    tuple("COS Number", info.cos_max()),
                ],
            );
        }
        if let Some(info) = info.get_l3_slow_memory_bandwidth_enforcement_info() {
            t.print_title("L3 Slow Memory Bandwidth Enforcement Information (0x8000_0020/2):",
            );
            t.table2(&[
                    tuple("Bandwidth Length", info.bandwidth_length()),
                    tuple("COS Number", info.cos_max()),
                ],
            );
        }
        if let Some(info) = info.get_bandwidth_monitoring_event_counters_info() {
            t.print_title("Bandwidth Monitoring Event Counters Information (0x8000_0020/3):",
            );
            t.table2(&[
                    tuple(
                        "Number of configurable bandwidth events",
                        info.number_events(),
                    ),
                    tuple(
                        "Reads to local DRAM memory",
                        info.has_l3_cache_lcl_bw_fill_mon(),
                    ),
                    tuple(
                        "Reads to remote DRAM memory",
                        info.has_l3_cache_rmt_bw_fill_mon(),
                    ),
                    tuple(
                        "Non-temporal writes to local memory",
                        info.has_l3_cache_lcl_bw_nt_wr_mon(),
                    ),
                    tuple(
                        "Non-temporal writes to remote memory",
                        info.has_l3_cache_rmt_bw_nt_wr_mon(),
                    ),
                    tuple(
                        "Reads to local memory identified as 'Slow Memory'",
                        info.has_l3_cache_lcl_slow_bw_fill_mon(),
                    ),
                    tuple(
                        "Reads to remote memory identified as 'Slow Memory'",
                        info.has_l3_cache_rmt_slow_bw_fill_mon(),
                    ),
                    tuple(
                        "Dirty victim writes to all types of memory”.",
                        info.has_l3_cache_vic_mon(),
                    ),
                ],
            );
        }
        if let Some(info) = info.get_assignable_bandwidth_monitoring_counters_info() {
            t.print_title("Assignable Bandwidth Monitoring Counters Information (0x8000_0020/5):",
            );
            t.table2(&[
                    tuple(
                        "Indicates that QM_CTR bit 61 is an overflow bit",
                        info.has_overflow_bit(),
                    ),
                    tuple(
                        "QM_CTR counter width, offset from 24 bits",
                        info.counter_size(),
                    ),
                    tuple("Maximum supported ABMC counter ID", info.max_abmc()),
                    tuple(
                        "Bandwidth counters can be configured",
                        info.has_select_cos(),
                    ),
                ],
            );
        }
    }

    if let Some(info) = cpuid.get_extended_feature_identification_2() {
        t.print_title("Extended Feature Identification (0x8000_0021):");
        t.table2(&[
                tuple("Processor ignores nested data breakpoints", info.has_no_nested_data_bp()),
                tuple("LFENCE is always dispatch serializing", info.has_lfence_always_serializing()),
                tuple("SMM paging configuration lock supported", info.has_smm_pg_cfg_lock()),
                tuple("Null segment selector loads also clear the destination segment register base and limit", info.has_null_select_clears_base()),
                tuple("Upper Address Ignore is supported", info.has_upper_address_ignore()),
                tuple("Automatic IBRS", info.has_automatic_ibrs()),
                tuple("SMM_CTL MSR (C001_0116h) is not supporte", info.has_no_smm_ctl_msr()),
                tuple("Prefetch control MSR supporte", info.has_prefetch_ctl_msr()),
                tuple("CPUID disable for non-privileged softwar", info.has_cpuid_user_dis()),
                tuple("The size of the Microcode patch in 16-byte multiples", info.microcode_patch_size()),
            ],
        );
    }

    if let Some(info) = cpuid.get_extended_performance_monitoring_and_debug() {
        t.print_title("Extended Performance Monitoring and Debug (0x8000_0022):",
        );
        t.table2(&[
                tuple(
                    "Performance Monitoring Version 2 supported",
                    info.has_perf_mon_v2(),
                ),
                tuple("Last Branch Record Stack supported", info.has_lbr_stack()),
                tuple("LbrAndPmcFreeze", info.has_lbr_and_pmc_freeze()),
                tuple(
                    "Number of Core Performance Counters",
                    info.num_perf_ctr_core(),
                ),
                tuple(
                    "Number of Last Branch Record Stack entries",
                    info.num_lbr_stack_size(),
                ),
                tuple(
                    "Number of Northbridge Performance Monitor Counters",
                    info.num_perf_ctr_nb(),
                ),
            ],
        );
    }

    if let Some(info) = cpuid.get_multi_key_encrypted_memory_capabilities() {
        t.print_title("Multi-Key Encrypted Memory Capabilities (0x8000_0023):",
        );
        t.table2(&[
                tuple(
                    "Secure Host Multi-Key Memory (MEM-HMK) Encryption Mode Supported",
                    info.has_mem_hmk(),
                ),
                tuple("MaxMemHmkEncrKeyID", info.max_mem_hmk_encr_key_id()),
            ],
        );
    }

    if let Some(info) = cpuid.get_extended_cpu_topology() {
        for (level, info) in info.enumerate() {
            t.print_title(&format!("Extended CPU Topology (0x8000_0026/{level}):"),
            );
            t.table2(&[
                    tuple("Mask Width", info.mask_width()),
                    tuple(
                        "Efficiency Ranking Available",
                        info.has_efficiency_ranking_available(),
                    ),
                    tuple("Heterogeneous Cores", info.has_heterogeneous_cores()),
                    tuple("Asymmetric Topology", info.has_asymmetric_topology()),
                    tuple(
                        "Number of logical processors at the current hierarchy level",
                        info.num_logical_processors(),
                    ),
                    tuple(
                        "Static efficiency ranking between cores of a specific core type",
                        info.pwr_efficiency_ranking(),
                    ),
                    tuple("Native Mode Id", info.native_mode_id()),
                    tuple("Core Type", info.core_type()),
                    tuple("Level Type", info.level_type()),
                    tuple(
                        "Extended APIC ID of the logical processo",
                        info.extended_apic_id(),
                    ),
                ],
            );
        }
    }
    t.toks
}
