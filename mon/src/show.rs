//! How enumerated values are named in Display output, from the debug name.
/// `ty` is the type, `dbg` its Debug text.
pub fn display_name(ty: &str, dbg: &str) -> Option<String> {
    let arg = |p: &str| dbg.strip_prefix(p).and_then(|x| x.strip_suffix(')')).map(|x| x.to_string());
    let t: &[(&str, &str)] = match ty {
        "CacheType" => &[("Null", "Null"), ("Data", "Data"), ("Instruction", "Instruction"), ("Unified", "Unified"), ("Reserved", "Reserved")],
        "TopologyType" => &[("Invalid", "Invalid"), ("SMT", "SMT"), ("Core", "Core"), ("Module", "Module"), ("Tile", "Tile"), ("Die", "Die")],
        "ExtendedRegisterType" => {
            if let Some(x) = arg("Unknown(") {
                return Some(format!("Unknown({})", x));
            }
            &[
                ("Avx", "AVX/YMM"),
                ("MpxBndregs", "MPX BNDREGS"),
                ("MpxBndcsr", "MPX BNDCSR"),
                ("Avx512Opmask", "AVX-512 opmask"),
                ("Avx512ZmmHi256", "AVX-512 ZMM_Hi256"),
                ("Avx512ZmmHi16", "AVX-512 Hi16_ZMM"),
                ("Pkru", "PKRU"),
                ("Pt", "PT"),
                ("Hdc", "HDC"),
            ]
        }
        "ExtendedRegisterStateLocation" => &[("Xcr0", "XCR0 (user state)"), ("Ia32Xss", "IA32_XSS (supervisor state)")],
        "DatType" => &[
            ("Null", "invalid (0)"),
            ("DataTLB", "Data TLB"),
            ("InstructionTLB", "Instruction TLB"),
            ("UnifiedTLB", "Unified TLB"),
            ("LoadOnly", "Load Only"),
            ("StoreOnly", "Store Only"),
            ("Unknown", "Unknown"),
        ],
        "Associativity" => {
            if let Some(x) = arg("NWay(") {
                return Some(format!("NWay({})", x));
            }
            &[
                ("Disabled", "Disabled"),
                ("DirectMapped", "Direct mapped"),
                ("FullyAssociative", "Fully associative"),
                ("Unknown", "Unknown (check leaf 0x8000_001d)"),
            ]
        }
        "HierarchyLevelType" => {
            if let Some(x) = arg("Unknown(") {
                return Some(format!("Unknown ({})", x));
            }
            &[("Reserved", "Reserved (0)"), ("Core", "Core (1)"), ("Complex", "Complex (2)"), ("Die", "DIE (3)"), ("Socket", "Socket (4)")]
        }
        _ => return None,
    };
    t.iter().find(|x| x.0 == dbg).map(|x| x.1.to_string())
}
