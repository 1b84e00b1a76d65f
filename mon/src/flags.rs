//! The names under which feature sets list their members, with the register
//! bit of each: (structure, rendered field, leaf, sub-leaf, register, members).
//! Taken down once from the published bit assignments; not derived from the
//! library at run time.
use crate::machine::*;

pub struct FlagSet {
    pub sec: &'static str,
    pub field: &'static str,
    pub cell: (u32, u32),
    pub reg: usize,
    pub names: &'static [(&'static str, u32)],
}

pub const FLAGS: &[FlagSet] = &[
    FlagSet { sec: "feature_info", field: "edx_ecx", cell: (0x1, 0), reg: RC, names: &[
        ("SSE3", 0), ("PCLMULQDQ", 1), ("DTES64", 2), ("MONITOR", 3), ("DSCPL", 4), ("VMX", 5), ("SMX", 6),
        ("EIST", 7), ("TM2", 8), ("SSSE3", 9), ("CNXTID", 10), ("FMA", 12), ("CMPXCHG16B", 13), ("PDCM", 15),
        ("PCID", 17), ("DCA", 18), ("SSE41", 19), ("SSE42", 20), ("X2APIC", 21), ("MOVBE", 22),
        ("POPCNT", 23), ("TSC_DEADLINE", 24), ("AESNI", 25), ("XSAVE", 26), ("OSXSAVE", 27), ("AVX", 28),
        ("F16C", 29), ("RDRAND", 30), ("HYPERVISOR", 31),
    ] },
    FlagSet { sec: "feature_info", field: "edx_ecx", cell: (0x1, 0), reg: RD, names: &[
        ("FPU", 0), ("VME", 1), ("DE", 2), ("PSE", 3), ("TSC", 4), ("MSR", 5), ("PAE", 6), ("MCE", 7),
        ("CX8", 8), ("APIC", 9), ("SEP", 11), ("MTRR", 12), ("PGE", 13), ("MCA", 14), ("CMOV", 15),
        ("PAT", 16), ("PSE36", 17), ("PSN", 18), ("CLFSH", 19), ("DS", 21), ("ACPI", 22), ("MMX", 23),
        ("FXSR", 24), ("SSE", 25), ("SSE2", 26), ("SS", 27), ("HTT", 28), ("TM", 29), ("PBE", 31),
    ] },
    FlagSet { sec: "thermal_power_info", field: "eax", cell: (0x6, 0), reg: RA, names: &[
        ("DTS", 0), ("TURBO_BOOST", 1), ("ARAT", 2), ("RESERVED_3", 3), ("PLN", 4), ("ECMD", 5), ("PTM", 6),
        ("HWP", 7), ("HWP_NOTIFICATION", 8), ("HWP_ACTIVITY_WINDOW", 9),
        ("HWP_ENERGY_PERFORMANCE_PREFERENCE", 10), ("HWP_PACKAGE_LEVEL_REQUEST", 11), ("RESERVED_12", 12),
        ("HDC", 13), ("TURBO_BOOST_3", 14), ("HWP_CAPABILITIES", 15), ("HWP_PECI_OVERRIDE", 16),
        ("FLEXIBLE_HWP", 17), ("HWP_REQUEST_MSR_FAST_ACCESS", 18), ("RESERVED_19", 19),
        ("IGNORE_IDLE_PROCESSOR_HWP_REQUEST", 20),
    ] },
    FlagSet { sec: "thermal_power_info", field: "ecx", cell: (0x6, 0), reg: RC, names: &[
        ("HW_COORD_FEEDBACK", 0), ("ENERGY_BIAS_PREF", 3),
    ] },
    FlagSet { sec: "extended_feature_info", field: "ebx", cell: (0x7, 0), reg: RB, names: &[
        ("FSGSBASE", 0), ("ADJUST_MSR", 1), ("SGX", 2), ("BMI1", 3), ("HLE", 4), ("AVX2", 5), ("FDP", 6),
        ("SMEP", 7), ("BMI2", 8), ("REP_MOVSB_STOSB", 9), ("INVPCID", 10), ("RTM", 11), ("RDTM", 12),
        ("DEPRECATE_FPU_CS_DS", 13), ("MPX", 14), ("RDTA", 15), ("AVX512F", 16), ("AVX512DQ", 17),
        ("RDSEED", 18), ("ADX", 19), ("SMAP", 20), ("AVX512_IFMA", 21), ("CLFLUSHOPT", 23), ("CLWB", 24),
        ("PROCESSOR_TRACE", 25), ("AVX512PF", 26), ("AVX512ER", 27), ("AVX512CD", 28), ("SHA", 29),
        ("AVX512BW", 30), ("AVX512VL", 31),
    ] },
    FlagSet { sec: "extended_feature_info", field: "ecx", cell: (0x7, 0), reg: RC, names: &[
        ("PREFETCHWT1", 0), ("AVX512VBMI", 1), ("UMIP", 2), ("PKU", 3), ("OSPKE", 4), ("WAITPKG", 5),
        ("AVX512VBMI2", 6), ("CETSS", 7), ("GFNI", 8), ("VAES", 9), ("VPCLMULQDQ", 10), ("AVX512VNNI", 11),
        ("AVX512BITALG", 12), ("TMEEN", 13), ("AVX512VPOPCNTDQ", 14), ("LA57", 16), ("RDPID", 22),
        ("SGX_LC", 30),
    ] },
    FlagSet { sec: "extended_feature_info", field: "edx", cell: (0x7, 0), reg: RD, names: &[
        ("AVX512_4VNNIW", 2), ("AVX512_4FMAPS", 3), ("AVX512_VP2INTERSECT", 8), ("AMX_BF16", 22),
        ("AVX512_FP16", 23), ("AMX_TILE", 24), ("AMX_INT8", 25),
    ] },
    FlagSet { sec: "extended_feature_info", field: "eax1", cell: (0x7, 1), reg: RA, names: &[
        ("AVX_VNNI", 4), ("AVX512_BF16", 5), ("FZRM", 10), ("FSRS", 11), ("FSRCRS", 12), ("HRESET", 22),
        ("AVX_IFMA", 23), ("LAM", 26), ("MSRLIST", 27), ("INVD_DISABLE_POST_BIOS_DONE", 30),
    ] },
    FlagSet { sec: "extended_feature_info", field: "edx1", cell: (0x7, 1), reg: RD, names: &[
        ("AVX_VNNI_INT8", 4), ("AVX_NE_CONVERT", 5), ("AVX_VNNI_INT16", 10), ("PREFETCHI", 14),
        ("UIRET_UIF", 17), ("CET_SSS", 18), ("AVX10", 19),
    ] },
    FlagSet { sec: "performance_monitoring_info", field: "ebx", cell: (0xa, 0), reg: RB, names: &[
        ("CORE_CYC_EV_UNAVAILABLE", 0), ("INST_RET_EV_UNAVAILABLE", 1), ("REF_CYC_EV_UNAVAILABLE", 2),
        ("CACHE_REF_EV_UNAVAILABLE", 3), ("LL_CACHE_MISS_EV_UNAVAILABLE", 4),
        ("BRANCH_INST_RET_EV_UNAVAILABLE", 5), ("BRANCH_MISPRED_EV_UNAVAILABLE", 6),
    ] },
    FlagSet { sec: "extended_state_info", field: "eax", cell: (0xd, 0), reg: RA, names: &[
        ("LEGACY_X87", 0), ("SSE128", 1), ("AVX256", 2), ("MPX_BNDREGS", 3), ("MPX_BNDCSR", 4),
        ("AVX512_OPMASK", 5), ("AVX512_ZMM_HI256", 6), ("AVX512_ZMM_HI16", 7), ("PKRU", 9),
        ("IA32_XSS_HDC", 13), ("AMX_TILECFG", 17), ("AMX_TILEDATA", 18),
    ] },
    FlagSet { sec: "extended_state_info", field: "ecx1", cell: (0xd, 1), reg: RC, names: &[
        ("PT", 8), ("PASID", 10), ("CET_USER", 11), ("CET_SUPERVISOR", 12), ("HDC", 13), ("UINTR", 14),
        ("LBR", 15), ("HWP", 16),
    ] },
    FlagSet { sec: "extended_processor_and_feature_identifiers", field: "ecx_features", cell: (0x80000001, 0), reg: RC, names: &[
        ("LAHF_SAHF", 0), ("CMP_LEGACY", 1), ("SVM", 2), ("EXT_APIC_SPACE", 3), ("ALTMOVCR8", 4),
        ("LZCNT", 5), ("SSE4A", 6), ("MISALIGNSSE", 7), ("PREFETCHW", 8), ("OSVW", 9), ("IBS", 10),
        ("XOP", 11), ("SKINIT", 12), ("WDT", 13), ("LWP", 15), ("FMA4", 16), ("TBM", 21), ("TOPEXT", 22),
        ("PERFCTREXT", 23), ("PERFCTREXTNB", 24), ("DATABRKPEXT", 26), ("PERFTSC", 27),
        ("PERFCTREXTLLC", 28), ("MONITORX", 29), ("ADDRMASKEXT", 30),
    ] },
    FlagSet { sec: "extended_processor_and_feature_identifiers", field: "edx_features", cell: (0x80000001, 0), reg: RD, names: &[
        ("SYSCALL_SYSRET", 11), ("EXECUTE_DISABLE", 20), ("MMXEXT", 22), ("FFXSR", 25), ("GIB_PAGES", 26),
        ("RDTSCP", 27), ("I64BIT_MODE", 29), ("THREEDNOWEXT", 30), ("THREEDNOW", 31),
    ] },
    FlagSet { sec: "advanced_power_mgmt_info", field: "ebx", cell: (0x80000007, 0), reg: RB, names: &[
        ("MCAOVFLRECOV", 0), ("SUCCOR", 1), ("HWA", 2),
    ] },
    FlagSet { sec: "advanced_power_mgmt_info", field: "edx", cell: (0x80000007, 0), reg: RD, names: &[
        ("TS", 0), ("FID", 1), ("VID", 2), ("TTP", 3), ("TM", 4), ("MHZSTEPS100", 6), ("HWPSTATE", 7),
        ("INVTSC", 8), ("CPB", 9), ("EFFFREQRO", 10), ("PROCFEEDBACKIF", 11), ("PROCPWRREPORT", 12),
    ] },
    FlagSet { sec: "processor_capacity_feature_info", field: "ebx", cell: (0x80000008, 0), reg: RB, names: &[
        ("CLZERO", 0), ("INST_RETCNT_MSR", 1), ("RSTR_FP_ERR_PTRS", 2), ("INVLPGB", 3), ("RDPRU", 4),
        ("MCOMMIT", 8), ("WBNOINVD", 9), ("INT_WBINVD", 13), ("EFER_LMSLE_UNSUPP", 20),
        ("INVLPGB_NESTED", 21),
    ] },
    FlagSet { sec: "svm_info", field: "edx", cell: (0x8000000a, 0), reg: RD, names: &[
        ("NP", 0), ("LBR_VIRT", 1), ("SVML", 2), ("NRIPS", 3), ("TSC_RATE_MSR", 4), ("VMCB_CLEAN", 5),
        ("FLUSH_BY_ASID", 6), ("DECODE_ASSISTS", 7), ("PAUSE_FILTER", 10), ("PAUSE_FILTER_THRESHOLD", 12),
        ("AVIC", 13), ("VMSAVE_VIRT", 15), ("VGIF", 16), ("GMET", 17), ("SSS_CHECK", 19), ("SPEC_CTRL", 20),
        ("HOST_MCE_OVERRIDE", 23), ("TLB_CTL", 24),
    ] },
    FlagSet { sec: "performance_optimization_info", field: "eax", cell: (0x8000001a, 0), reg: RA, names: &[
        ("FP128", 0), ("MOVU", 1), ("FP256", 2),
    ] },
    FlagSet { sec: "instruction_based_sampling_capabilities", field: "eax", cell: (0x8000001b, 0), reg: RA, names: &[
        ("IBSFFV", 0), ("FETCH_SAM", 1), ("OP_SAM", 2), ("RD_WR_OP_CNT", 3), ("OP_CNT", 4), ("BRN_TRGT", 5),
        ("OP_CNT_EXT", 6), ("RIP_INVALID_CHK", 7), ("OP_BRN_FUSE", 8), ("IBS_L3_MISS_FILTERING", 11),
    ] },
    FlagSet { sec: "memory_encryption_info", field: "eax", cell: (0x8000001f, 0), reg: RA, names: &[
        ("SME", 0), ("SEV", 1), ("PAGE_FLUSH_MSR", 2), ("SEV_ES", 3), ("SEV_SNP", 4), ("VMPL", 5),
        ("HWENFCACHECOH", 10), ("HOST64", 11), ("RESTINJECT", 12), ("ALTINJECT", 13), ("DBGSWP", 14),
        ("PREVHOSTIBS", 15), ("VTE", 16),
    ] },
    FlagSet { sec: "pqos_extended_feature_info", field: "ebx", cell: (0x80000020, 0), reg: RB, names: &[
        ("L3MBE", 1), ("L3SMBE", 2), ("BMEC", 3), ("L3RR", 4), ("ABMC", 5), ("SDCIAE", 6),
    ] },
    FlagSet { sec: "pqos_extended_feature_info.bmec", field: "ecx", cell: (0x80000020, 3), reg: RC, names: &[
        ("L3_CACHE_LCL_BW_FILL_MON", 0), ("L3_CACHE_RMT_BW_FILL_MON", 1), ("L3_CACHE_LCL_BW_NT_WR_MON", 2),
        ("L3_CACHE_RMT_BW_NT_WR_MON", 3), ("L3_CACHE_LCL_SLOW_BW_FILL_MON", 4),
        ("L3_CACHE_RMT_SLOW_BW_FILL_MON", 5), ("L3_CACHE_VIC_MON", 6),
    ] },
    FlagSet { sec: "pqos_extended_feature_info.abmc", field: "ecx", cell: (0x80000020, 5), reg: RC, names: &[
        ("SELECT_COS", 0),
    ] },
    FlagSet { sec: "extended_feature_identification_2", field: "eax", cell: (0x80000021, 0), reg: RA, names: &[
        ("NO_NESTED_DATA_BP", 0), ("LFENCE_ALWAYS_SERIALIZING", 2), ("SMM_PG_CFG_LOCK", 3),
        ("NULL_SELECT_CLEARS_BASE", 6), ("UPPER_ADDRESS_IGNORE", 7), ("AUTOMATIC_IBRS", 8),
        ("NO_SMM_CTL_MSR", 9), ("PREFETCH_CTL_MSR", 13), ("CPUID_USER_DIS", 17),
    ] },
    FlagSet { sec: "extended_performance_monitoring_and_debug", field: "eax", cell: (0x80000022, 0), reg: RA, names: &[
        ("PERF_MON_V2", 0), ("LBR_STACK", 1), ("LBR_AND_PMC_FREEZE", 2),
    ] },
    FlagSet { sec: "multi_key_encrypted_memory_capabilities", field: "eax", cell: (0x80000023, 0), reg: RA, names: &[
        ("MEM_HMK", 0),
    ] },
];
