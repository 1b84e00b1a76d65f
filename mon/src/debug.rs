//! C15: what Debug and Display print, against what the accessors return.
use crate::flags::FLAGS;
use crate::gen::Gen;
use crate::machine::*;
use crate::model::*;
use crate::report::*;
use crate::show::display_name;
use crate::val::*;
use raw_cpuid::{self as rc, CpuId};
use std::collections::BTreeMap;

/// Splits text at top-level commas (outside brackets and string literals).
fn split_top(t: &str, sep: char) -> Vec<&str> {
    let (mut depth, mut start, mut quote, mut escd) = (0i32, 0usize, false, false);
    let mut out = Vec::new();
    for (i, ch) in t.char_indices() {
        if quote {
            match ch {
                _ if escd => escd = false,
                '\\' => escd = true,
                '"' => quote = false,
                _ => (),
            }
            continue;
        }
        match ch {
            '"' => quote = true,
            '(' | '[' | '{' => depth += 1,
            ')' | ']' | '}' => depth -= 1,
            c if c == sep && depth == 0 => {
                out.push(t[start..i].trim());
                start = i + ch.len_utf8();
            }
            _ => (),
        }
    }
    let last = t[start..].trim();
    if !last.is_empty() {
        out.push(last);
    }
    out
}

/// `Name { a: 1, b: X(..) }` -> its fields.
pub fn fields(t: &str) -> Option<Vec<(String, String)>> {
    let t = t.trim();
    let open = t.find('{')?;
    if t[..open].contains(['(', '[', '"']) {
        return None;
    }
    let body = t[open + 1..].trim_end().strip_suffix('}')?;
    let mut v = Vec::new();
    for part in split_top(body, ',') {
        let (n, x) = part.split_once(':')?;
        v.push((n.trim().to_string(), x.trim().to_string()));
    }
    Some(v)
}

/// `[a, b, c]` -> elements.
pub fn elements(t: &str) -> Option<Vec<String>> {
    let b = t.trim().strip_prefix('[')?.strip_suffix(']')?;
    Some(split_top(b, ',').iter().map(|x| x.to_string()).collect())
}

/// `Flags(A | B | 0x40)` -> names (numbers left out).
fn flag_names(t: &str) -> Option<Vec<String>> {
    let t = t.trim();
    // a bare number is not a feature set
    if t.starts_with(|c: char| c.is_ascii_digit()) {
        return None;
    }
    let inner = match t.find('(') {
        Some(i) => t[i + 1..].strip_suffix(')')?,
        None => t,
    };
    Some(
        inner
            .split('|')
            .map(|x| x.trim().to_string())
            .filter(|x| !x.is_empty() && x != "(empty)" && !x.starts_with(|c: char| c.is_ascii_digit()))
            .collect(),
    )
}

fn shows(raw: &str, v: &V) -> bool {
    match v {
        V::Absent => raw == "None",
        V::B(b) => raw == b.to_string() || raw == format!("Some({})", b),
        V::I(i) => {
            let num = |x: &str| -> Option<i128> {
                match x.strip_prefix("0x") {
                    Some(h) => i128::from_str_radix(h, 16).ok(),
                    None => x.parse().ok(),
                }
            };
            let inner = raw.strip_prefix("Some(").and_then(|x| x.strip_suffix(')')).unwrap_or(raw);
            num(inner) == Some(*i)
        }
        V::S(s) => {
            let q = format!("{:?}", s);
            raw == s || raw == one_line(s) || raw == q || raw == format!("Some({})", s) || raw == format!("Some({})", q)
        }
        V::T(t) => {
            let inner = raw.strip_prefix('(').and_then(|x| x.strip_suffix(')'));
            match inner {
                None => false,
                Some(i) => {
                    let p = split_top(i, ',');
                    p.len() == t.len() && p.iter().zip(t).all(|(a, b)| shows(a, b))
                }
            }
        }
    }
}

const LISTS: [&str; 8] = [
    "cache_info",
    "cache_parameters",
    "extended_topology_info",
    "extended_topology_info_v2",
    "extended_state_info.iter",
    "sgx_info.iter",
    "deterministic_address_translation_info",
    "extended_cpu_topology",
];

/// Fields that show a whole structure or enumeration: (structure, field, what).
const NESTED: [(&str, &str, &str); 8] = [
    ("extended_state_info", "extended_state_iter", "extended_state_info.iter"),
    ("sgx_info", "sgx_section_iter", "sgx_info.iter"),
    ("rdt_monitoring_info", "l3_monitoring", "rdt_monitoring_info.l3_monitoring"),
    ("rdt_allocation_info", "l3_cat", "rdt_allocation_info.l3_cat"),
    ("rdt_allocation_info", "l2_cat", "rdt_allocation_info.l2_cat"),
    ("rdt_allocation_info", "memory_bandwidth_allocation", "rdt_allocation_info.memory_bandwidth_allocation"),
    ("soc_vendor_info", "vendor_brand", "soc_vendor_info.vendor_brand"),
    ("soc_vendor_info", "vendor_attributes", "soc_vendor_info.vendor_attributes"),
];

/// Fields named differently from the accessor they show.
const ALIAS: [(&str, &str, &str); 7] = [
    ("vendor_info", "brand_string", "as_str"),
    ("extended_topology_info", "number", "level_number"),
    ("extended_topology_info", "type", "level_type"),
    ("extended_topology_info", "next_apic_id", "shift_right_for_next_apic_id"),
    ("extended_topology_info_v2", "number", "level_number"),
    ("extended_topology_info_v2", "type", "level_type"),
    ("extended_topology_info_v2", "next_apic_id", "shift_right_for_next_apic_id"),
];

fn check_struct(sec: &str, text: &str, vals: &BTreeMap<&str, &V>, texts: Option<&BTreeMap<&str, String>>, m: &Machine, r: &mut Report) {
    let fs = match fields(text) {
        Some(f) => f,
        None => return,
    };
    for (name, raw) in &fs {
        let get = format!("get_{}", name);
        let alias = ALIAS.iter().find(|a| a.0 == sec && a.1 == name).map(|a| a.2);
        let v = vals.get(name.as_str()).or_else(|| vals.get(get.as_str())).or_else(|| alias.and_then(|a| vals.get(a)));
        if let Some(v) = v {
            r.eval(Some(mix(hash(sec) ^ mix(hash(name) ^ mix(hash(raw))))));
            r.count("fields compared with their accessor", 1);
            if !shows(raw, v) {
                r.viol(&format!("{}.{}", sec, name), || format!("{} renders {} as {} but the accessor returns {:?}", sec, name, raw, v), m);
            }
        }
        let nested = texts.and_then(|t| NESTED.iter().find(|n| n.0 == sec && n.1 == name).map(|n| t.get(n.2)));
        if let Some(want) = nested {
            r.eval(None);
            r.count("nested structures compared", 1);
            let ok = match want {
                None => raw == "None",
                Some(w) => raw == w || raw == &format!("Some({})", w),
            };
            if !ok {
                r.viol(&format!("{}.{}", sec, name), || format!("{} renders {} as {} but it is {:?}", sec, name, raw, want), m);
            }
        }
        let sets: Vec<_> = FLAGS.iter().filter(|f| f.sec == sec && f.field == name).collect();
        if !sets.is_empty() {
            if let Some(got) = flag_names(raw) {
                for f in &sets {
                    let v = m.get(f.cell.0, f.cell.1).get(f.reg);
                    for (n, b) in f.names {
                        let want = (v >> b & 1) as usize;
                        let have = got.iter().filter(|x| x == n).count();
                        r.eval(None);
                        if have != want {
                            r.viol(&format!("{}.{}:{}", sec, name, n), || format!("{} lists {} {} times; bit {} is {} ({})", sec, n, have, b, want, raw), m);
                        }
                    }
                }
                r.count("feature sets compared", 1);
                // nothing else is listed (multi-bit masks aside)
                for g in &got {
                    if g != "MAWAU" && !sets.iter().any(|f| f.names.iter().any(|x| x.0 == g)) {
                        r.count("names not in the reference", 1);
                    }
                }
            }
        }
    }
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// Structures, items, lists and the decoder: each rendering against what the
/// accessors, the iterators and the queries return.
fn renderings(rows: &[Row], m: &Machine, r: &mut Report) {
    // texts by section (structure or list)
    let mut texts: BTreeMap<&str, String> = BTreeMap::new();
    let mut cpu_text = String::new();
    let mut i = 0;
    while i < rows.len() {
        if rows[i].name == "{:?}" {
            if let V::S(s) = &rows[i].v {
                if rows[i].sec == "CpuId" {
                    cpu_text = s.clone();
                } else if !texts.contains_key(rows[i].sec) {
                    // the first text of a section is the structure or list
                    let list = LISTS.contains(&rows[i].sec) || rows[i].sec == "soc_vendor_info.vendor_attributes";
                    if !list || rows[i - 1].name == "present" {
                        texts.insert(rows[i].sec, s.clone());
                    }
                }
            }
        }
        i += 1;
    }
    // structures and items
    let mut vals: BTreeMap<&str, &V> = BTreeMap::new();
    let mut key = ("", u32::MAX);
    let mut list: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    for (i, row) in rows.iter().enumerate() {
        if (row.sec, row.idx) != key {
            key = (row.sec, row.idx);
            vals.clear();
        }
        if row.name == "{:?}" && row.sec != "CpuId" {
            if let V::S(s) = &row.v {
                let whole = rows[i - 1].name == "present" && LISTS.contains(&row.sec);
                if whole {
                    vals.clear();
                    continue;
                }
                check_struct(row.sec, s, &vals, Some(&texts), m, r);
                if LISTS.contains(&row.sec) {
                    list.entry(row.sec).or_default().push(s.clone());
                }
            }
        } else if row.name == "{}" {
            // CacheInfo: "{} {:?}"
            if let V::S(s) = &row.v {
                let desc = vals.get("desc").map(|v| match v {
                    V::S(s) => s.clone(),
                    _ => String::new(),
                });
                let num = vals.get("num").map(|v| match v {
                    V::I(i) => format!("{:x}", i),
                    _ => String::new(),
                });
                if let (Some(desc), Some(num)) = (desc, num) {
                    r.eval(None);
                    if !s.contains(&desc) || !s.to_lowercase().contains(&num) {
                        r.viol("cache_info:display", || format!("descriptor 0x{} ({}) is displayed as {}", num, desc, s), m);
                    }
                    if let Some(p) = s.find("CacheInfo {") {
                        check_struct(row.sec, &s[p..], &vals, Some(&texts), m, r);
                        list.entry(row.sec).or_default().push(s[p..].to_string());
                    }
                }
            }
        } else {
            vals.insert(row.name, &row.v);
        }
    }
    // lists show exactly their items
    for sec in LISTS {
        if let Some(t) = texts.get(sec) {
            if let Some(e) = elements(t) {
                let items = list.get(sec).cloned().unwrap_or_default();
                r.eval(None);
                r.count("lists compared", 1);
                r.count("list items", items.len() as u64);
                if e != items {
                    r.viol(&format!("list:{}", sec), || format!("{} renders as {} but yields {:?}", sec, t, items), m);
                }
            }
        }
    }
    // the decoder shows each structure exactly when its query returns it
    if let Some(fs) = fields(&cpu_text) {
        for (name, raw) in &fs {
            let present = rows.iter().find(|x| x.sec == name && x.name == "present").map(|x| x.v == V::B(true));
            if let Some(p) = present {
                r.eval(None);
                r.count("structures in the decoder's rendering", 1);
                let ok = if !p {
                    raw == "None"
                } else {
                    match texts.get(name.as_str()) {
                        Some(t) => raw == &format!("Some({})", t) || raw == t,
                        None => raw != "None",
                    }
                };
                if !ok {
                    r.viol(
                        &format!("CpuId.{}", name),
                        || format!("the decoder renders {} as {} but the query returns {}", name, raw, if p { texts.get(name.as_str()).cloned().unwrap_or_default() } else { "nothing".into() }),
                        m,
                    );
                }
            }
        }
    }
}

/// A rendering without its layout: white space outside string literals and
/// commas before a closing bracket.
pub fn one_line(t: &str) -> String {
    let mut o = String::with_capacity(t.len());
    let (mut quote, mut escd) = (false, false);
    for ch in t.chars() {
        if quote {
            o.push(ch);
            match ch {
                _ if escd => escd = false,
                '\\' => escd = true,
                '"' => quote = false,
                _ => (),
            }
            continue;
        }
        match ch {
            c if c.is_whitespace() => (),
            ')' | ']' | '}' => {
                if o.ends_with(',') {
                    o.pop();
                }
                o.push(ch)
            }
            '"' => {
                quote = true;
                o.push(ch)
            }
            _ => o.push(ch),
        }
    }
    o
}

pub fn check_machine(d: &DumpModel<Rd>, m: &Machine, r: &mut Report) {
    current(|| format!("Debug output of a synthetic CPU\n{}", m.describe()));
    let rd = Rd::new(m.clone());
    rd.set_budget(40_000_000);
    let c = match guard(|| CpuId::with_cpuid_reader(rd.clone())) {
        Ok(c) => c,
        Err(e) => return r.viol("panic:with_cpuid_reader", || e, m),
    };
    let plain = d.dump(&c, false);
    let rows = d.dump(&c, true);
    let again = d.dump(&c, false);
    r.eval(Some(m.fingerprint()));
    r.count("CPUs", 1);
    if let Some(x) = diff(&plain, &again) {
        r.viol("disturbed", || format!("results differ after rendering: {}", x), m);
    }
    for row in &rows {
        if let V::S(s) = &row.v {
            if s.starts_with("PANIC: ") {
                r.viol(&format!("panic:{}.{}", row.sec, row.name), || s.clone(), m);
            }
        }
    }
    renderings(&rows, m, r);
    // the same, laid out over several lines
    let rows: Vec<Row> = rows
        .iter()
        .filter(|x| x.name != "{:?}" && x.name != "{}")
        .map(|x| match (x.name, &x.v) {
            ("{:#?}", V::S(s)) => Row { name: "{:?}", v: V::S(one_line(s)), ..x.clone() },
            _ => x.clone(),
        })
        .collect();
    renderings(&rows, m, r);
    r.count("CPUs also rendered with {:#?}", 1);
    // Display of the identification strings
    let mut disp = |what: &str, got: Result<String, String>, want: Result<String, String>| {
        r.eval(None);
        if got != want {
            r.viol(&format!("display:{}", what), || format!("{} displays as {:?} but is {:?}", what, got, want), m);
        }
    };
    if let Ok(Some(v)) = guard(|| c.get_vendor_info()) {
        disp("vendor_info", guard(|| format!("{}", v)), guard(|| v.as_str().to_string()));
    }
    if let Ok(Some(v)) = guard(|| c.get_soc_vendor_info().and_then(|s| s.get_vendor_brand())) {
        disp("soc_vendor_brand", guard(|| format!("{}", v)), guard(|| v.as_str().to_string()));
    }
    if let Ok(Some(v)) = guard(|| c.get_processor_brand_string()) {
        let _ = guard(|| format!("{:#?}", v));
        r.count("brand strings", 1);
    }
    // Debug of raw results
    for (k, l) in [0u32, 0, 1, 1, 7, 7, 0xD, 0xD].into_iter().enumerate() {
        let x = m.get(l, 0);
        let t = if k % 2 == 0 { format!("{:?}", to_res(x)) } else { format!("{:#?}", to_res(x)) };
        let w = [("eax", x.a), ("ebx", x.b), ("ecx", x.c), ("edx", x.d)];
        r.eval(None);
        match fields(&t) {
            Some(f) => {
                for (n, v) in w {
                    if let Some(raw) = f.iter().find(|k| k.0 == n) {
                        if !shows(&raw.1, &V::I(v as i128)) {
                            r.viol(&format!("CpuIdResult.{}", n), || format!("{:?} renders as {}", x, t), m);
                        }
                    }
                }
            }
            None => r.viol("CpuIdResult", || format!("{:?} renders as {}", x, t), m),
        }
    }
}

/// Every case of every enumerated type.
pub fn names(r: &mut Report) {
    let m = Machine::new(Dflt::Zero);
    macro_rules! chk {
        ($ty:literal, $($e:expr),*) => { $({
            let x = $e;
            crate::faults::text(format_args!("{0:?} {0} {0:#?} {0:>20}", x));
            let (d, s) = (format!("{:?}", x), format!("{}", x));
            r.eval(Some(hash(&format!("{}::{}", $ty, d))));
            r.count("enumeration values displayed", 1);
            if display_name($ty, &d).as_deref() != Some(s.as_str()) {
                r.viol(&format!("display:{}::{}", $ty, d), || format!("{}::{} displays as {:?}, not {:?}", $ty, d, s, display_name($ty, &d)), &m);
            }
        })* };
    }
    use rc::*;
    chk!("CacheType", CacheType::Null, CacheType::Data, CacheType::Instruction, CacheType::Unified, CacheType::Reserved);
    chk!("TopologyType", TopologyType::Invalid, TopologyType::SMT, TopologyType::Core, TopologyType::Module, TopologyType::Tile, TopologyType::Die);
    chk!(
        "ExtendedRegisterType",
        ExtendedRegisterType::Avx,
        ExtendedRegisterType::MpxBndregs,
        ExtendedRegisterType::MpxBndcsr,
        ExtendedRegisterType::Avx512Opmask,
        ExtendedRegisterType::Avx512ZmmHi256,
        ExtendedRegisterType::Avx512ZmmHi16,
        ExtendedRegisterType::Pkru,
        ExtendedRegisterType::Pt,
        ExtendedRegisterType::Hdc
    );
    for k in [0, 1, 10, 17, 31, u32::MAX] {
        chk!("ExtendedRegisterType", ExtendedRegisterType::Unknown(k));
    }
    chk!("ExtendedRegisterStateLocation", ExtendedRegisterStateLocation::Xcr0, ExtendedRegisterStateLocation::Ia32Xss);
    chk!("DatType", DatType::Null, DatType::DataTLB, DatType::InstructionTLB, DatType::UnifiedTLB, DatType::LoadOnly, DatType::StoreOnly, DatType::Unknown);
    chk!("Associativity", Associativity::Disabled, Associativity::DirectMapped, Associativity::FullyAssociative, Associativity::Unknown);
    for k in 0..=255 {
        chk!("Associativity", Associativity::NWay(k));
    }
    chk!("HierarchyLevelType", HierarchyLevelType::Reserved, HierarchyLevelType::Core, HierarchyLevelType::Complex, HierarchyLevelType::Die, HierarchyLevelType::Socket);
    for k in 5..=255 {
        chk!("HierarchyLevelType", HierarchyLevelType::Unknown(k));
    }
}

pub fn run(seed: u64, thorough: bool) -> Report {
    let n = if thorough { 64 } else { 8 };
    let per = if thorough { 400 } else { 300 };
    let mut r = shards("C15", n, |i, r| {
        let d = dumpers::<Rd>();
        let mut g = Gen::new(seed, 15_000 + i as u64);
        for k in 0..per {
            let m = if k % 4 == 0 { g.synthetic() } else { g.machine() };
            check_machine(&d, &m, r);
            if k == 0 && i < 4 {
                r.sample(|| format!("vendor {:?}, leaf 1 {:x?}, max leaves {:#x}/{:#x}", String::from_utf8_lossy(&m.vendor_bytes()), m.get(1, 0), m.max_basic(), m.max_ext()));
            }
        }
        // single-bit patterns for the feature sets
        let mut m = Machine::new(Dflt::Zero);
        m.set_vendor([INTEL, AMD][i % 2]);
        m.upd(0, 0, |r| r.a = 0x24);
        m.upd(0x8000_0000, 0, |r| r.a = 0x8000_0026);
        m.set_bit(0x8000_0001, 0, RC, 2, true);
        m.set_bits(0x8000_0020, 0, RB, 0, 31, 0x2e);
        for (k, f) in FLAGS.iter().enumerate() {
            if k % n != i {
                continue;
            }
            for b in 0..32 {
                for inv in [false, true] {
                    let mut x = m.clone();
                    let old = x.get(f.cell.0, f.cell.1).get(f.reg);
                    x.upd(f.cell.0, f.cell.1, |r| r.set(f.reg, if inv { !(1 << b) } else { old & !(1 << b) | 1 << b }));
                    let rd = Rd::new(x.clone());
                    let c = CpuId::with_cpuid_reader(rd);
                    let mut rows = Vec::new();
                    for (s, q) in d.d.iter().enumerate() {
                        if q.sec == f.sec {
                            d.section(s, &c, true, &mut rows);
                        }
                    }
                    for row in &rows {
                        if let ("{:?}", V::S(t)) = (row.name, &row.v) {
                            check_struct(f.sec, t, &BTreeMap::new(), None, &x, r);
                        }
                    }
                }
            }
        }
        if i == 0 {
            names(r);
        }
    });
    r.rule = "A case is one rendered field, feature set, list, nested structure or enumeration value of a synthetic or recorded-and-mutated CPU, compared with the accessor of the same name, the set bits, the items yielded or the query; non-trivial cases are distinct (structure, field, text) triples and distinct CPUs.".into();
    r
}
