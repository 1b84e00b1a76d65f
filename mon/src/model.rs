//! The reference model: which structures a CPU has, where their registers
//! live, and uniform access to everything the library says about a CPU.
#![allow(deprecated)]
use crate::effects::{at, deep, disarm, lib};
use crate::machine::*;
use crate::types as ty;
use crate::types::{Acc, Ctx};
use crate::val::*;
use raw_cpuid::{self as rc, CpuId, CpuIdReader};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    pub static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Panics are recorded, not printed.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        disarm();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else if i.payload().is::<BudgetExceeded>() {
            "reader budget exceeded (does not terminate)".to_string()
        } else if i.payload().is::<ReaderFailed>() {
            "the reader failed".to_string()
        } else {
            "?".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{} [{}]", msg, loc));
    }));
}

fn text(a: std::fmt::Arguments) -> String {
    crate::faults::text(a);
    crate::effects::text(a)
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()))
}

pub fn gv(f: impl FnOnce() -> V) -> V {
    match guard(f) {
        Ok(v) => v,
        Err(e) => V::S(format!("PANIC: {}", e)),
    }
}

// ---------------------------------------------------------------- presence

impl Machine {
    /// Leaf supported for every vendor.
    pub fn has(&self, leaf: u32) -> bool {
        self.in_range(leaf)
    }
    /// Leaf supported, but not defined on AMD/Hygon.
    pub fn has_not_amd(&self, leaf: u32) -> bool {
        self.in_range(leaf) && self.vend() != Vend::Amd
    }
    pub fn cache_leaf(&self) -> Option<u32> {
        if self.has_not_amd(4) {
            Some(4)
        } else if self.vend() == Vend::Amd && self.has(0x8000_001D) {
            Some(0x8000_001D)
        } else {
            None
        }
    }
}

fn p_sgx(m: &Machine) -> bool {
    m.has(7) && m.bit(7, 0, RB, 2) && m.has(0x12)
}
fn p_hyp(m: &Machine) -> bool {
    m.has(1) && m.bit(1, 0, RC, 31) && m.get(0x4000_0000, 0).a > 0
}
fn p_svm(m: &Machine) -> bool {
    m.vend() == Vend::Amd && m.has(0x8000_0001) && m.bit(0x8000_0001, 0, RC, 2) && m.has(0x8000_000A)
}
fn p_brand(m: &Machine) -> bool {
    m.has(0x8000_0002) && m.has(0x8000_0003) && m.has(0x8000_0004)
}

/// One query of the decoder (or of a structure it returned).
pub struct Query<R: CpuIdReader> {
    pub id: &'static str,
    pub leaves: &'static [u32],
    pub present: fn(&Machine) -> bool,
    pub get: fn(&CpuId<R>) -> bool,
}

macro_rules! q {
    ($v:ident, $id:literal, [$($l:literal),*], |$m:ident| $p:expr, |$c:ident| $g:expr) => {
        $v.push(Query { id: $id, leaves: &[$($l),*], present: |$m: &Machine| $p, get: |$c: &CpuId<R>| $g });
    };
}

pub fn queries<R: CpuIdReader>() -> Vec<Query<R>> {
    let mut v: Vec<Query<R>> = Vec::new();
    q!(v, "vendor_info", [0], |m| m.has(0), |c| c.get_vendor_info().is_some());
    q!(v, "feature_info", [1], |m| m.has(1), |c| c.get_feature_info().is_some());
    q!(v, "cache_info", [2], |m| m.has_not_amd(2), |c| c.get_cache_info().is_some());
    q!(v, "processor_serial", [1, 3], |m| m.has_not_amd(3), |c| c.get_processor_serial().is_some());
    q!(v, "cache_parameters", [4, 0x8000001D], |m| m.cache_leaf().is_some(), |c| c.get_cache_parameters().is_some());
    q!(v, "monitor_mwait_info", [5], |m| m.has(5), |c| c.get_monitor_mwait_info().is_some());
    q!(v, "thermal_power_info", [6], |m| m.has(6), |c| c.get_thermal_power_info().is_some());
    q!(v, "extended_feature_info", [7], |m| m.has(7), |c| c.get_extended_feature_info().is_some());
    q!(v, "direct_cache_access_info", [9], |m| m.has_not_amd(9), |c| c.get_direct_cache_access_info().is_some());
    q!(v, "performance_monitoring_info", [0xA], |m| m.has_not_amd(0xA), |c| c.get_performance_monitoring_info().is_some());
    q!(v, "extended_topology_info", [0xB], |m| m.has(0xB), |c| c.get_extended_topology_info().is_some());
    q!(v, "extended_topology_info_v2", [0x1F], |m| m.has(0x1F), |c| c.get_extended_topology_info_v2().is_some());
    q!(v, "extended_state_info", [0xD], |m| m.has(0xD), |c| c.get_extended_state_info().is_some());
    q!(v, "rdt_monitoring_info", [0xF], |m| m.has(0xF), |c| c.get_rdt_monitoring_info().is_some());
    q!(v, "rdt_allocation_info", [0x10], |m| m.has(0x10), |c| c.get_rdt_allocation_info().is_some());
    q!(v, "sgx_info", [7, 0x12], |m| p_sgx(m), |c| c.get_sgx_info().is_some());
    q!(v, "processor_trace_info", [0x14], |m| m.has(0x14), |c| c.get_processor_trace_info().is_some());
    q!(v, "tsc_info", [0x15], |m| m.has(0x15), |c| c.get_tsc_info().is_some());
    q!(v, "processor_frequency_info", [0x16], |m| m.has(0x16), |c| c.get_processor_frequency_info().is_some());
    q!(v, "soc_vendor_info", [0x17], |m| m.has(0x17), |c| c.get_soc_vendor_info().is_some());
    q!(v, "deterministic_address_translation_info", [0x18], |m| m.has(0x18), |c| c.get_deterministic_address_translation_info().is_some());
    q!(v, "hypervisor_info", [1, 0x40000000, 0x40000010], |m| p_hyp(m), |c| c.get_hypervisor_info().is_some());
    q!(v, "extended_processor_and_feature_identifiers", [0x80000001], |m| m.has(0x8000_0001), |c| c.get_extended_processor_and_feature_identifiers().is_some());
    q!(v, "processor_brand_string", [0x80000002, 0x80000003, 0x80000004], |m| p_brand(m), |c| c.get_processor_brand_string().is_some());
    q!(v, "l1_cache_and_tlb_info", [0x80000005], |m| m.vend() == Vend::Amd && m.has(0x8000_0005), |c| c.get_l1_cache_and_tlb_info().is_some());
    q!(v, "l2_l3_cache_and_tlb_info", [0x80000006], |m| m.has(0x8000_0006), |c| c.get_l2_l3_cache_and_tlb_info().is_some());
    q!(v, "advanced_power_mgmt_info", [0x80000007], |m| m.has(0x8000_0007), |c| c.get_advanced_power_mgmt_info().is_some());
    q!(v, "processor_capacity_feature_info", [0x80000008], |m| m.has(0x8000_0008), |c| c.get_processor_capacity_feature_info().is_some());
    q!(v, "svm_info", [0x80000001, 0x8000000A], |m| p_svm(m), |c| c.get_svm_info().is_some());
    q!(v, "tlb_1gb_page_info", [0x80000019], |m| m.has(0x8000_0019), |c| c.get_tlb_1gb_page_info().is_some());
    q!(v, "performance_optimization_info", [0x8000001A], |m| m.has(0x8000_001A), |c| c.get_performance_optimization_info().is_some());
    q!(v, "instruction_based_sampling_capabilities", [0x8000001B], |m| m.has(0x8000_001B), |c| c.get_instruction_based_sampling_capabilities().is_some());
    q!(v, "processor_topology_info", [0x8000001E], |m| m.has(0x8000_001E), |c| c.get_processor_topology_info().is_some());
    q!(v, "memory_encryption_info", [0x8000001F], |m| m.has(0x8000_001F), |c| c.get_memory_encryption_info().is_some());
    q!(v, "pqos_extended_feature_info", [0x80000020], |m| m.has(0x8000_0020), |c| c.get_pqos_extended_feature_info().is_some());
    q!(v, "extended_feature_identification_2", [0x80000021], |m| m.has(0x8000_0021), |c| c.get_extended_feature_identification_2().is_some());
    q!(v, "extended_performance_monitoring_and_debug", [0x80000022], |m| m.has(0x8000_0022), |c| c.get_extended_performance_monitoring_and_debug().is_some());
    q!(v, "multi_key_encrypted_memory_capabilities", [0x80000023], |m| m.has(0x8000_0023), |c| c.get_multi_key_encrypted_memory_capabilities().is_some());
    q!(v, "extended_cpu_topology", [0x80000026], |m| m.has(0x8000_0026), |c| c.get_extended_cpu_topology().is_some());
    // nested structures
    q!(v, "rdt_monitoring_info.l3_monitoring", [0xF], |m| m.has(0xF) && m.bit(0xF, 0, RD, 1), |c| c.get_rdt_monitoring_info().is_some_and(|r| r.l3_monitoring().is_some()));
    q!(v, "rdt_allocation_info.l3_cat", [0x10], |m| m.has(0x10) && m.bit(0x10, 0, RB, 1), |c| c.get_rdt_allocation_info().is_some_and(|r| r.l3_cat().is_some()));
    q!(v, "rdt_allocation_info.l2_cat", [0x10], |m| m.has(0x10) && m.bit(0x10, 0, RB, 2), |c| c.get_rdt_allocation_info().is_some_and(|r| r.l2_cat().is_some()));
    q!(v, "rdt_allocation_info.memory_bandwidth_allocation", [0x10], |m| m.has(0x10) && m.bit(0x10, 0, RB, 3), |c| c.get_rdt_allocation_info().is_some_and(|r| r.memory_bandwidth_allocation().is_some()));
    q!(v, "soc_vendor_info.vendor_brand", [0x17], |m| m.has(0x17) && m.get(0x17, 0).a >= 3, |c| c.get_soc_vendor_info().is_some_and(|r| r.get_vendor_brand().is_some()));
    q!(v, "soc_vendor_info.vendor_attributes", [0x17], |m| m.has(0x17) && m.get(0x17, 0).a > 3, |c| c.get_soc_vendor_info().is_some_and(|r| r.get_vendor_attributes().is_some()));
    q!(v, "pqos_extended_feature_info.l3mbe", [0x80000020], |m| m.has(0x8000_0020) && m.bit(0x8000_0020, 0, RB, 1), |c| c.get_pqos_extended_feature_info().is_some_and(|r| r.get_l3_memory_bandwidth_enforcement_info().is_some()));
    q!(v, "pqos_extended_feature_info.l3smbe", [0x80000020], |m| m.has(0x8000_0020) && m.bit(0x8000_0020, 0, RB, 2), |c| c.get_pqos_extended_feature_info().is_some_and(|r| r.get_l3_slow_memory_bandwidth_enforcement_info().is_some()));
    q!(v, "pqos_extended_feature_info.bmec", [0x80000020], |m| m.has(0x8000_0020) && m.bit(0x8000_0020, 0, RB, 3), |c| c.get_pqos_extended_feature_info().is_some_and(|r| r.get_bandwidth_monitoring_event_counters_info().is_some()));
    q!(v, "pqos_extended_feature_info.abmc", [0x80000020], |m| m.has(0x8000_0020) && m.bit(0x8000_0020, 0, RB, 5), |c| c.get_pqos_extended_feature_info().is_some_and(|r| r.get_assignable_bandwidth_monitoring_counters_info().is_some()));
    v
}

// ------------------------------------------------------------------- paths

pub struct Info {
    pub name: &'static str,
    pub props: Vec<&'static str>,
    /// For single-field accessors: (slot, register, lo, hi).
    pub field: Option<(usize, usize, u32, u32)>,
    pub bit: bool,
}

/// A way to reach one value of one structure type, with the cells (leaf,
/// sub-leaf) its registers come from.
pub struct Path<R: CpuIdReader> {
    pub id: &'static str,
    pub cells: &'static [(u32, u32)],
    pub vendor_ok: fn(Vend) -> bool,
    pub present: fn(&Machine) -> bool,
    pub prep: fn(&mut Machine),
    pub aux: u64,
    pub info: Vec<Info>,
    /// Does the CPU define this accessor's bits at all?
    pub defined: Box<dyn Fn(usize, &Ctx) -> bool>,
    /// Every accessor's value before and after `mutate` runs, from one object.
    pub snap: Box<dyn Fn(&CpuId<R>, &mut dyn FnMut()) -> Option<(Vec<V>, Vec<V>)>>,
    /// Calls back with every accessor's value; false if there is no object.
    pub eval: Box<dyn Fn(&CpuId<R>, &dyn Fn(usize) -> bool, &mut dyn FnMut(usize, V)) -> Result<bool, String>>,
    pub want: Box<dyn Fn(usize, &Ctx) -> V>,
    /// The structure of two decoders, compared; None if one has none, or if
    /// the type cannot be compared.
    pub eq: fn(&CpuId<R>, &CpuId<R>) -> Option<Same>,
    /// The structure and its clone: every accessor's value of both, and their
    /// comparison. None if there is no object or it cannot be cloned.
    pub dup: Box<dyn Fn(&CpuId<R>) -> Option<Cloned>>,
}

pub struct Cloned {
    pub original: Vec<V>,
    pub clone: Vec<V>,
    pub same: Option<Same>,
}

/// What `==` and `!=` say about two values.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Same {
    pub eq: bool,
    pub ne: bool,
    /// With the operands exchanged.
    pub eq_back: bool,
    /// The first with itself.
    pub own: bool,
}

/// Compares values of types that can be compared (method resolution picks the
/// less indirect implementation if its bound holds).
pub struct Pair<'a, T>(pub &'a T, pub &'a T);
pub trait Comparable {
    fn same(&self) -> Option<Same>;
}
impl<T: PartialEq> Comparable for Pair<'_, T> {
    fn same(&self) -> Option<Same> {
        #[allow(clippy::eq_op)]
        Some(Same { eq: self.0 == self.1, ne: self.0 != self.1, eq_back: self.1 == self.0, own: self.0 == self.0 })
    }
}
pub trait Opaque {
    fn same(&self) -> Option<Same>;
}
impl<T> Opaque for &Pair<'_, T> {
    fn same(&self) -> Option<Same> {
        None
    }
}

/// Clones values of types that can be cloned.
pub struct Orig<'a, T>(pub &'a T);
pub trait Clonable<T> {
    fn dup(&self) -> Option<T>;
}
impl<T: Clone> Clonable<T> for Orig<'_, T> {
    fn dup(&self) -> Option<T> {
        Some(self.0.clone())
    }
}
pub trait Unique<T> {
    fn dup(&self) -> Option<T>;
}
impl<T> Unique<T> for &Orig<'_, T> {
    fn dup(&self) -> Option<T> {
        None
    }
}

impl<R: CpuIdReader> Path<R> {
    pub fn ctx(&self, m: &Machine) -> Ctx {
        Ctx { s: self.cells.iter().map(|&(l, s)| m.get(l, s)).collect(), vend: m.vend(), aux: self.aux }
    }
    pub fn has_prop(&self, p: &str) -> bool {
        self.info.iter().any(|i| i.props.contains(&p))
    }
}

fn any_v(_: Vend) -> bool {
    true
}
fn not_amd(v: Vend) -> bool {
    v != Vend::Amd
}
fn amd(v: Vend) -> bool {
    v == Vend::Amd
}

#[allow(clippy::too_many_arguments)]
fn mk<R: CpuIdReader + 'static, T: 'static>(
    id: &'static str,
    cells: &'static [(u32, u32)],
    ext: bool,
    aux: u64,
    vendor_ok: fn(Vend) -> bool,
    present: fn(&Machine) -> bool,
    prep: fn(&mut Machine),
    accs: fn() -> Vec<Acc<T>>,
    obj: fn(&CpuId<R>) -> Option<T>,
    eq: fn(&CpuId<R>, &CpuId<R>) -> Option<Same>,
    copy: fn(&CpuId<R>) -> Option<(T, T, Option<Same>)>,
) -> Path<R> {
    let accs = accs();
    let info: Vec<Info> = accs
        .iter()
        .map(|a| {
            let mut props = Vec::new();
            for p in a.props.split(' ') {
                match (p, ext) {
                    ("B", false) => props.push("C04"),
                    ("B", true) => props.push("C05"),
                    ("N", false) => props.push("C06"),
                    ("N", true) => props.push("C07"),
                    (p, _) => props.push(p),
                }
            }
            // the numbers C08 combines are part of it
            if id == "feature_info" && (a.name.contains("family") || a.name.contains("model") || a.name == "stepping_id") && !props.contains(&"C08") {
                props.push("C08");
            }
            let (field, bit) = match a.want {
                ty::W::Bit(s, r, b) | ty::W::AmdBit(s, r, b) => (Some((s, r, b, b)), true),
                ty::W::Num(s, r, lo, hi, _) => (Some((s, r, lo, hi)), false),
                ty::W::Fn(_) => (None, false),
            };
            Info { name: a.name, props, field, bit }
        })
        .collect();
    let accs = std::rc::Rc::new(accs);
    let accs2 = accs.clone();
    let accs3 = accs.clone();
    let accs4 = accs.clone();
    // leaf 7 sub-leaf 1 exists only when sub-leaf 0 EAX reports it
    let slot1: Vec<bool> = info.iter().map(|i| id == "extended_feature_info" && matches!(i.field, Some((1, ..)))).collect();
    Path {
        id,
        cells,
        vendor_ok,
        present,
        prep,
        aux,
        info,
        defined: Box::new(move |i, c| !(slot1[i] && c.r(0, RA) == 0)),
        snap: Box::new(move |c, mutate| {
            let o = guard(|| obj(c)).ok()??;
            let a: Vec<V> = accs3.iter().map(|a| gv(|| (a.get)(&o))).collect();
            mutate();
            let b: Vec<V> = accs3.iter().map(|a| gv(|| (a.get)(&o))).collect();
            Some((a, b))
        }),
        eval: Box::new(move |c, sel, out| {
            let o = guard(|| obj(c))?;
            match o {
                None => Ok(false),
                Some(o) => {
                    for (i, a) in accs.iter().enumerate() {
                        if sel(i) {
                            let v = gv(|| (a.get)(&o));
                            out(i, v);
                        }
                    }
                    Ok(true)
                }
            }
        }),
        want: Box::new(move |i, c| accs2[i].want.eval(c)),
        eq,
        dup: Box::new(move |c| {
            let (a, b, same) = copy(c)?;
            let f = |x: &T| accs4.iter().map(|a| gv(|| (a.get)(x))).collect();
            Some(Cloned { original: f(&a), clone: f(&b), same })
        }),
    }
}

fn xs_item<R: CpuIdReader, const N: u32>(c: &CpuId<R>) -> Option<rc::ExtendedState> {
    c.get_extended_state_info()?.iter().find(|x| x.subleaf == N)
}

fn force_cache_type(m: &mut Machine, leaf: u32) {
    let t = m.bits(leaf, 0, RA, 0, 4);
    if t == 0 || t > 3 {
        m.set_bits(leaf, 0, RA, 0, 4, 1 + (t & 1));
    }
}
fn force_topo(m: &mut Machine, leaf: u32) {
    let t = m.bits(leaf, 0, RC, 8, 15);
    if t == 0 || t > 5 {
        m.set_bits(leaf, 0, RC, 8, 15, 1 + t % 5);
    }
}

macro_rules! path {
    ($v:ident, $id:literal, [$(($l:literal, $s:literal)),*], $ext:literal, $aux:literal, $vend:ident, |$m:ident| $p:expr, |$m2:ident| $prep:expr, $accs:ident, |$c:ident| $g:expr) => {
        $v.push(mk($id, &[$(($l, $s)),*], $ext, $aux, $vend, |$m: &Machine| $p, |$m2: &mut Machine| { $prep; }, ty::$accs::<R>, |$c: &CpuId<R>| $g, |a: &CpuId<R>, b: &CpuId<R>| {
            let get = |$c: &CpuId<R>| $g;
            let (a, b) = (get(a)?, get(b)?);
            #[allow(clippy::needless_borrow)]
            (&Pair(&a, &b)).same()
        }, |$c: &CpuId<R>| {
            let get = |$c: &CpuId<R>| $g;
            let a = get($c)?;
            #[allow(clippy::needless_borrow)]
            let b = (&Orig(&a)).dup()?;
            #[allow(clippy::needless_borrow)]
            let s = (&Pair(&a, &b)).same();
            Some((a, b, s))
        }));
    };
}

pub fn paths<R: CpuIdReader + 'static>() -> Vec<Path<R>> {
    let mut v: Vec<Path<R>> = Vec::new();
    path!(v, "vendor_info", [(0, 0)], false, 0, any_v, |_m| true, |_m| (), vendor_info, |c| c.get_vendor_info());
    path!(v, "feature_info", [(1, 0)], false, 0, any_v, |m| m.has(1), |m| m.at_least(1), feature_info, |c| c.get_feature_info());
    path!(v, "processor_serial", [(1, 0), (3, 0)], false, 0, not_amd, |m| m.has_not_amd(3), |m| m.at_least(3), processor_serial, |c| c.get_processor_serial());
    path!(v, "cache_parameter(4)", [(4, 0)], false, 0, not_amd, |m| m.has_not_amd(4) && (1..=3).contains(&m.bits(4, 0, RA, 0, 4)), |m| { m.at_least(4); force_cache_type(m, 4) }, cache_parameter, |c| c.get_cache_parameters()?.next());
    path!(v, "cache_parameter(8000001D)", [(0x8000001D, 0)], true, 0, amd, |m| m.vend() == Vend::Amd && m.has(0x8000_001D) && (1..=3).contains(&m.bits(0x8000_001D, 0, RA, 0, 4)), |m| { m.at_least(0x8000_001D); force_cache_type(m, 0x8000_001D) }, cache_parameter, |c| c.get_cache_parameters()?.next());
    path!(v, "monitor_mwait_info", [(5, 0)], false, 0, any_v, |m| m.has(5), |m| m.at_least(5), monitor_mwait_info, |c| c.get_monitor_mwait_info());
    path!(v, "thermal_power_info", [(6, 0)], false, 0, any_v, |m| m.has(6), |m| m.at_least(6), thermal_power_info, |c| c.get_thermal_power_info());
    // sub-leaf 1 of leaf 7 is only meaningful when sub-leaf 0 reports it
    path!(v, "extended_feature_info", [(7, 0), (7, 1)], false, 0, any_v, |m| m.has(7), |m| { m.at_least(7); if m.get(7, 0).a == 0 { m.upd(7, 0, |r| r.a = 1) } }, extended_features, |c| c.get_extended_feature_info());
    path!(v, "direct_cache_access_info", [(9, 0)], false, 0, not_amd, |m| m.has_not_amd(9), |m| m.at_least(9), direct_cache_access_info, |c| c.get_direct_cache_access_info());
    path!(v, "performance_monitoring_info", [(0xA, 0)], false, 0, not_amd, |m| m.has_not_amd(0xA), |m| m.at_least(0xA), performance_monitoring_info, |c| c.get_performance_monitoring_info());
    path!(v, "extended_topology_level(B)", [(0xB, 0)], false, 0, any_v, |m| m.has(0xB) && (1..=5).contains(&m.bits(0xB, 0, RC, 8, 15)), |m| { m.at_least(0xB); force_topo(m, 0xB) }, extended_topology_level, |c| c.get_extended_topology_info()?.next());
    path!(v, "extended_topology_level(1F)", [(0x1F, 0)], false, 0, any_v, |m| m.has(0x1F) && (1..=5).contains(&m.bits(0x1F, 0, RC, 8, 15)), |m| { m.at_least(0x1F); force_topo(m, 0x1F) }, extended_topology_level, |c| c.get_extended_topology_info_v2()?.next());
    path!(v, "extended_state_info", [(0xD, 0), (0xD, 1)], false, 0, any_v, |m| m.has(0xD), |m| m.at_least(0xD), extended_state_info, |c| c.get_extended_state_info());
    path!(v, "extended_state(2)", [(0xD, 2)], false, 2, any_v, |m| m.has(0xD) && m.bit(0xD, 0, RA, 2), |m| { m.at_least(0xD); m.set_bit(0xD, 0, RA, 2, true) }, extended_state, |c| xs_item::<R, 2>(c));
    path!(v, "extended_state(3)", [(0xD, 3)], false, 3, any_v, |m| m.has(0xD) && m.bit(0xD, 0, RA, 3), |m| { m.at_least(0xD); m.set_bit(0xD, 0, RA, 3, true) }, extended_state, |c| xs_item::<R, 3>(c));
    path!(v, "extended_state(4)", [(0xD, 4)], false, 4, any_v, |m| m.has(0xD) && m.bit(0xD, 0, RA, 4), |m| { m.at_least(0xD); m.set_bit(0xD, 0, RA, 4, true) }, extended_state, |c| xs_item::<R, 4>(c));
    path!(v, "extended_state(5)", [(0xD, 5)], false, 5, any_v, |m| m.has(0xD) && m.bit(0xD, 0, RA, 5), |m| { m.at_least(0xD); m.set_bit(0xD, 0, RA, 5, true) }, extended_state, |c| xs_item::<R, 5>(c));
    path!(v, "extended_state(6)", [(0xD, 6)], false, 6, any_v, |m| m.has(0xD) && m.bit(0xD, 0, RA, 6), |m| { m.at_least(0xD); m.set_bit(0xD, 0, RA, 6, true) }, extended_state, |c| xs_item::<R, 6>(c));
    path!(v, "extended_state(7)", [(0xD, 7)], false, 7, any_v, |m| m.has(0xD) && m.bit(0xD, 0, RA, 7), |m| { m.at_least(0xD); m.set_bit(0xD, 0, RA, 7, true) }, extended_state, |c| xs_item::<R, 7>(c));
    path!(v, "extended_state(8)", [(0xD, 8)], false, 8, any_v, |m| m.has(0xD) && m.bit(0xD, 1, RC, 8), |m| { m.at_least(0xD); m.set_bit(0xD, 1, RC, 8, true) }, extended_state, |c| xs_item::<R, 8>(c));
    path!(v, "extended_state(9)", [(0xD, 9)], false, 9, any_v, |m| m.has(0xD) && m.bit(0xD, 0, RA, 9), |m| { m.at_least(0xD); m.set_bit(0xD, 0, RA, 9, true) }, extended_state, |c| xs_item::<R, 9>(c));
    path!(v, "extended_state(13)", [(0xD, 13)], false, 13, any_v, |m| m.has(0xD) && m.bit(0xD, 1, RC, 13), |m| { m.at_least(0xD); m.set_bit(0xD, 1, RC, 13, true) }, extended_state, |c| xs_item::<R, 13>(c));
    path!(v, "rdt_monitoring_info", [(0xF, 0)], false, 0, any_v, |m| m.has(0xF), |m| m.at_least(0xF), rdt_monitoring_info, |c| c.get_rdt_monitoring_info());
    path!(v, "l3_monitoring", [(0xF, 1)], false, 0, any_v, |m| m.has(0xF) && m.bit(0xF, 0, RD, 1), |m| { m.at_least(0xF); m.set_bit(0xF, 0, RD, 1, true) }, l3_monitoring_info, |c| c.get_rdt_monitoring_info()?.l3_monitoring());
    path!(v, "rdt_allocation_info", [(0x10, 0)], false, 0, any_v, |m| m.has(0x10), |m| m.at_least(0x10), rdt_allocation_info, |c| c.get_rdt_allocation_info());
    path!(v, "l3_cat", [(0x10, 1)], false, 0, any_v, |m| m.has(0x10) && m.bit(0x10, 0, RB, 1), |m| { m.at_least(0x10); m.set_bit(0x10, 0, RB, 1, true) }, l3_cat_info, |c| c.get_rdt_allocation_info()?.l3_cat());
    path!(v, "l2_cat", [(0x10, 2)], false, 0, any_v, |m| m.has(0x10) && m.bit(0x10, 0, RB, 2), |m| { m.at_least(0x10); m.set_bit(0x10, 0, RB, 2, true) }, l2_cat_info, |c| c.get_rdt_allocation_info()?.l2_cat());
    path!(v, "memory_bandwidth_allocation", [(0x10, 3)], false, 0, any_v, |m| m.has(0x10) && m.bit(0x10, 0, RB, 3), |m| { m.at_least(0x10); m.set_bit(0x10, 0, RB, 3, true) }, mem_bw_allocation_info, |c| c.get_rdt_allocation_info()?.memory_bandwidth_allocation());
    path!(v, "sgx_info", [(0x12, 0), (0x12, 1)], false, 0, any_v, |m| p_sgx(m), |m| { m.at_least(0x12); m.set_bit(7, 0, RB, 2, true) }, sgx_info, |c| c.get_sgx_info());
    path!(v, "epc_section", [(0x12, 2)], false, 0, any_v, |m| p_sgx(m) && m.bits(0x12, 2, RA, 0, 3) == 1, |m| { m.at_least(0x12); m.set_bit(7, 0, RB, 2, true); m.set_bits(0x12, 2, RA, 0, 3, 1) }, epc_section, |c| match c.get_sgx_info()?.iter().next()? { rc::SgxSectionInfo::Epc(e) => Some(e) });
    path!(v, "processor_trace_info", [(0x14, 0), (0x14, 1)], false, 0, any_v, |m| m.has(0x14), |m| m.at_least(0x14), processor_trace_info, |c| c.get_processor_trace_info());
    path!(v, "tsc_info", [(0x15, 0)], false, 0, any_v, |m| m.has(0x15), |m| m.at_least(0x15), tsc_info, |c| c.get_tsc_info());
    path!(v, "processor_frequency_info", [(0x16, 0)], false, 0, any_v, |m| m.has(0x16), |m| m.at_least(0x16), processor_frequency_info, |c| c.get_processor_frequency_info());
    path!(v, "soc_vendor_info", [(0x17, 0)], false, 0, any_v, |m| m.has(0x17), |m| m.at_least(0x17), soc_vendor_info, |c| c.get_soc_vendor_info());
    path!(v, "soc_vendor_brand", [(0x17, 1), (0x17, 2), (0x17, 3)], false, 0, any_v, |m| m.has(0x17) && m.get(0x17, 0).a >= 3, |m| { m.at_least(0x17); if m.get(0x17, 0).a < 3 { m.upd(0x17, 0, |r| r.a = 3) } }, soc_vendor_brand, |c| c.get_soc_vendor_info()?.get_vendor_brand());
    path!(v, "dat_info", [(0x18, 0)], false, 0, any_v, |m| m.has(0x18) && m.bits(0x18, 0, RD, 0, 4) != 0, |m| { m.at_least(0x18); if m.bits(0x18, 0, RD, 0, 4) == 0 { m.set_bits(0x18, 0, RD, 0, 4, 2) } }, dat_info, |c| c.get_deterministic_address_translation_info()?.next());
    path!(v, "hypervisor_info", [(0x40000000, 0), (0x40000010, 0)], false, 0, any_v, |m| p_hyp(m), |m| { m.at_least(1); m.set_bit(1, 0, RC, 31, true); if m.get(0x4000_0000, 0).a == 0 { m.upd(0x4000_0000, 0, |r| r.a = 0x4000_0001) } }, hypervisor_info, |c| c.get_hypervisor_info());
    path!(v, "extended_processor_and_feature_identifiers", [(0x80000001, 0)], true, 0, any_v, |m| m.has(0x8000_0001), |m| m.at_least(0x8000_0001), extended_processor_feature_identifiers, |c| c.get_extended_processor_and_feature_identifiers());
    path!(v, "processor_brand_string", [(0x80000002, 0), (0x80000003, 0), (0x80000004, 0)], true, 0, any_v, |m| p_brand(m), |m| m.at_least(0x8000_0004), processor_brand_string, |c| c.get_processor_brand_string());
    path!(v, "l1_cache_and_tlb_info", [(0x80000005, 0)], true, 0, amd, |m| m.vend() == Vend::Amd && m.has(0x8000_0005), |m| m.at_least(0x8000_0005), l1_cache_tlb_info, |c| c.get_l1_cache_and_tlb_info());
    path!(v, "l2_l3_cache_and_tlb_info", [(0x80000006, 0)], true, 0, any_v, |m| m.has(0x8000_0006), |m| m.at_least(0x8000_0006), l2_and3_cache_tlb_info, |c| c.get_l2_l3_cache_and_tlb_info());
    path!(v, "advanced_power_mgmt_info", [(0x80000007, 0)], true, 0, any_v, |m| m.has(0x8000_0007), |m| m.at_least(0x8000_0007), apm_info, |c| c.get_advanced_power_mgmt_info());
    path!(v, "processor_capacity_feature_info", [(0x80000008, 0)], true, 0, any_v, |m| m.has(0x8000_0008), |m| m.at_least(0x8000_0008), processor_capacity_and_feature_info, |c| c.get_processor_capacity_feature_info());
    path!(v, "svm_info", [(0x8000000A, 0)], true, 0, amd, |m| p_svm(m), |m| { m.at_least(0x8000_000A); m.set_bit(0x8000_0001, 0, RC, 2, true) }, svm_features, |c| c.get_svm_info());
    path!(v, "tlb_1gb_page_info", [(0x80000019, 0)], true, 0, any_v, |m| m.has(0x8000_0019), |m| m.at_least(0x8000_0019), tlb1gb_page_info, |c| c.get_tlb_1gb_page_info());
    path!(v, "performance_optimization_info", [(0x8000001A, 0)], true, 0, any_v, |m| m.has(0x8000_001A), |m| m.at_least(0x8000_001A), performance_optimization_info, |c| c.get_performance_optimization_info());
    path!(v, "instruction_based_sampling_capabilities", [(0x8000001B, 0)], true, 0, any_v, |m| m.has(0x8000_001B), |m| m.at_least(0x8000_001B), instruction_based_sampling_capabilities, |c| c.get_instruction_based_sampling_capabilities());
    path!(v, "processor_topology_info", [(0x8000001E, 0)], true, 0, any_v, |m| m.has(0x8000_001E), |m| m.at_least(0x8000_001E), processor_topology_info, |c| c.get_processor_topology_info());
    path!(v, "memory_encryption_info", [(0x8000001F, 0)], true, 0, any_v, |m| m.has(0x8000_001F), |m| m.at_least(0x8000_001F), memory_encryption_info, |c| c.get_memory_encryption_info());
    path!(v, "pqos_extended_feature_info", [(0x80000020, 0)], true, 0, any_v, |m| m.has(0x8000_0020), |m| m.at_least(0x8000_0020), pqos_extended_feature_info, |c| c.get_pqos_extended_feature_info());
    path!(v, "l3mbe", [(0x80000020, 1)], true, 0, any_v, |m| m.has(0x8000_0020) && m.bit(0x8000_0020, 0, RB, 1), |m| { m.at_least(0x8000_0020); m.set_bit(0x8000_0020, 0, RB, 1, true) }, l3_memory_bandwidth_enforcement_information, |c| c.get_pqos_extended_feature_info()?.get_l3_memory_bandwidth_enforcement_info());
    path!(v, "l3smbe", [(0x80000020, 2)], true, 0, any_v, |m| m.has(0x8000_0020) && m.bit(0x8000_0020, 0, RB, 2), |m| { m.at_least(0x8000_0020); m.set_bit(0x8000_0020, 0, RB, 2, true) }, l3_memory_bandwidth_enforcement_information, |c| c.get_pqos_extended_feature_info()?.get_l3_slow_memory_bandwidth_enforcement_info());
    path!(v, "bmec", [(0x80000020, 3)], true, 0, any_v, |m| m.has(0x8000_0020) && m.bit(0x8000_0020, 0, RB, 3), |m| { m.at_least(0x8000_0020); m.set_bit(0x8000_0020, 0, RB, 3, true) }, bandwidth_monitoring_event_counters, |c| c.get_pqos_extended_feature_info()?.get_bandwidth_monitoring_event_counters_info());
    path!(v, "abmc", [(0x80000020, 5)], true, 0, any_v, |m| m.has(0x8000_0020) && m.bit(0x8000_0020, 0, RB, 5), |m| { m.at_least(0x8000_0020); m.set_bit(0x8000_0020, 0, RB, 5, true) }, assignable_bandwidth_monitoring_counter_info, |c| c.get_pqos_extended_feature_info()?.get_assignable_bandwidth_monitoring_counters_info());
    path!(v, "extended_feature_identification_2", [(0x80000021, 0)], true, 0, any_v, |m| m.has(0x8000_0021), |m| m.at_least(0x8000_0021), extended_feature_identification2, |c| c.get_extended_feature_identification_2());
    path!(v, "extended_performance_monitoring_and_debug", [(0x80000022, 0)], true, 0, any_v, |m| m.has(0x8000_0022), |m| m.at_least(0x8000_0022), extended_performance_monitoring_debug, |c| c.get_extended_performance_monitoring_and_debug());
    path!(v, "multi_key_encrypted_memory_capabilities", [(0x80000023, 0)], true, 0, any_v, |m| m.has(0x8000_0023), |m| m.at_least(0x8000_0023), multi_key_encrypted_memory_capabilities, |c| c.get_multi_key_encrypted_memory_capabilities());
    path!(v, "extended_cpu_topology_level", [(0x80000026, 0)], true, 0, any_v, |m| m.has(0x8000_0026) && m.bits(0x8000_0026, 0, RC, 8, 15) != 0, |m| { m.at_least(0x8000_0026); if m.bits(0x8000_0026, 0, RC, 8, 15) == 0 { m.set_bits(0x8000_0026, 0, RC, 8, 15, 2) } }, extended_cpu_topology_level, |c| c.get_extended_cpu_topology()?.next());
    v
}

// -------------------------------------------------------------------- dump

/// Everything a decoder says about a CPU, as a flat list.
#[derive(Clone, PartialEq, Eq)]
pub struct Row {
    pub sec: &'static str,
    pub idx: u32,
    pub name: &'static str,
    pub v: V,
}
impl std::fmt::Debug for Row {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}[{}].{} = {:?}", self.sec, self.idx, self.name, self.v)
    }
}

pub const ITEM_CAP: usize = 4096;

pub struct Dumper<R: CpuIdReader> {
    pub sec: &'static str,
    run: Box<dyn Fn(&CpuId<R>, &mut Vec<Row>, bool)>,
}

pub struct DumpModel<R: CpuIdReader> {
    pub d: Vec<Dumper<R>>,
}

/// A call that makes or advances something.
#[inline]
fn enter<T>(sec: &'static str, f: impl FnOnce() -> T) -> T {
    at(sec, "");
    deep(f)
}

fn rows<T>(sec: &'static str, idx: u32, accs: &[Acc<T>], o: &T, out: &mut Vec<Row>) {
    for a in accs {
        at(sec, a.name);
        let v = gv(|| lib(|| (a.get)(o)));
        out.push(Row { sec, idx, name: a.name, v });
    }
}

fn one<R: CpuIdReader + 'static, T: std::fmt::Debug + 'static>(sec: &'static str, accs: Vec<Acc<T>>, get: fn(&CpuId<R>) -> Option<T>) -> Dumper<R> {
    Dumper {
        sec,
        run: Box::new(move |c, out, txt| match guard(|| enter(sec, || get(c))) {
            Err(e) => out.push(Row { sec, idx: 0, name: "present", v: V::S(format!("PANIC: {}", e)) }),
            Ok(None) => out.push(Row { sec, idx: 0, name: "present", v: V::B(false) }),
            Ok(Some(o)) => {
                out.push(Row { sec, idx: 0, name: "present", v: V::B(true) });
                rows(sec, 0, &accs, &o, out);
                if txt {
                    out.push(Row { sec, idx: 0, name: "{:?}", v: gv(|| V::S(text(format_args!("{:?}", o)))) });
                    out.push(Row { sec, idx: 0, name: "{:#?}", v: gv(|| V::S(text(format_args!("{:#?}", o)))) });
                }
            }
        }),
    }
}

type Texts<I> = (fn(&I) -> Option<String>, fn(&I) -> Option<String>);

fn many<R: CpuIdReader + 'static, I: Iterator + 'static>(
    sec: &'static str,
    get: fn(&CpuId<R>) -> Option<I>,
    item: impl Fn(u32, &I::Item, &mut Vec<Row>, bool) + 'static,
    (plain, pretty): Texts<I>,
) -> Dumper<R> {
    Dumper {
        sec,
        run: Box::new(move |c, out, txt| match guard(|| enter(sec, || get(c))) {
            Err(e) => out.push(Row { sec, idx: 0, name: "present", v: V::S(format!("PANIC: {}", e)) }),
            Ok(None) => out.push(Row { sec, idx: 0, name: "present", v: V::B(false) }),
            Ok(Some(mut it)) => {
                out.push(Row { sec, idx: 0, name: "present", v: V::B(true) });
                if txt {
                    if let Some(t) = match guard(|| plain(&it)) {
                        Ok(t) => t,
                        Err(e) => Some(format!("PANIC: {}", e)),
                    } {
                        out.push(Row { sec, idx: 0, name: "{:?}", v: V::S(t) });
                    }
                    if let Some(t) = match guard(|| pretty(&it)) {
                        Ok(t) => t,
                        Err(e) => Some(format!("PANIC: {}", e)),
                    } {
                        out.push(Row { sec, idx: 0, name: "{:#?}", v: V::S(t) });
                    }
                }
                let mut i = 0u32;
                loop {
                    match guard(|| enter(sec, || it.next())) {
                        Err(e) => {
                            out.push(Row { sec, idx: i, name: "next", v: V::S(format!("PANIC: {}", e)) });
                            break;
                        }
                        Ok(None) => break,
                        Ok(Some(x)) => item(i, &x, out, txt),
                    }
                    i += 1;
                    if i as usize >= ITEM_CAP {
                        out.push(Row { sec, idx: i, name: "next", v: V::S("CAP".into()) });
                        break;
                    }
                }
                out.push(Row { sec, idx: 0, name: "len", v: V::I(i as i128) });
            }
        }),
    }
}

fn items<T: 'static>(sec: &'static str, accs: Vec<Acc<T>>) -> impl Fn(u32, &T, &mut Vec<Row>, bool) + 'static {
    move |i, x, out, _txt| rows(sec, i, &accs, x, out)
}
fn items_dbg<T: std::fmt::Debug + 'static>(sec: &'static str, accs: Vec<Acc<T>>) -> impl Fn(u32, &T, &mut Vec<Row>, bool) + 'static {
    move |i, x, out, txt| {
        rows(sec, i, &accs, x, out);
        if txt {
            out.push(Row { sec, idx: i, name: "{:?}", v: gv(|| V::S(text(format_args!("{:?}", x)))) });
            out.push(Row { sec, idx: i, name: "{:#?}", v: gv(|| V::S(text(format_args!("{:#?}", x)))) });
        }
    }
}
fn dbg_it<T: std::fmt::Debug>() -> Texts<T> {
    (|x| Some(text(format_args!("{:?}", x))), |x| Some(text(format_args!("{:#?}", x))))
}

pub fn dumpers<R: CpuIdReader + 'static>() -> DumpModel<R> {
    let mut d: Vec<Dumper<R>> = Vec::new();
    d.push(one("vendor_info", ty::vendor_info::<R>(), |c| c.get_vendor_info()));
    d.push(one("feature_info", ty::feature_info::<R>(), |c| c.get_feature_info()));
    d.push(many(
        "cache_info",
        |c: &CpuId<R>| c.get_cache_info(),
        |i, x: &rc::CacheInfo, out, txt| {
            let sec = "cache_info";
            out.push(Row { sec, idx: i, name: "num", v: x.num.to_v() });
            out.push(Row { sec, idx: i, name: "typ", v: x.typ.to_v() });
            out.push(Row { sec, idx: i, name: "desc", v: gv(|| lib(|| x.desc()).to_v()) });
            if txt {
                out.push(Row { sec, idx: i, name: "{}", v: gv(|| V::S(text(format_args!("{} {:?}", x, x)))) });
                out.push(Row { sec, idx: i, name: "{:#?}", v: gv(|| V::S(text(format_args!("{:#?}", x)))) });
            }
        },
        dbg_it(),
    ));
    d.push(one("processor_serial", ty::processor_serial::<R>(), |c| c.get_processor_serial()));
    d.push(many("cache_parameters", |c: &CpuId<R>| c.get_cache_parameters(), items_dbg("cache_parameters", ty::cache_parameter::<R>()), dbg_it()));
    d.push(one("monitor_mwait_info", ty::monitor_mwait_info::<R>(), |c| c.get_monitor_mwait_info()));
    d.push(one("thermal_power_info", ty::thermal_power_info::<R>(), |c| c.get_thermal_power_info()));
    d.push(one("extended_feature_info", ty::extended_features::<R>(), |c| c.get_extended_feature_info()));
    d.push(one("direct_cache_access_info", ty::direct_cache_access_info::<R>(), |c| c.get_direct_cache_access_info()));
    d.push(one("performance_monitoring_info", ty::performance_monitoring_info::<R>(), |c| c.get_performance_monitoring_info()));
    d.push(many("extended_topology_info", |c: &CpuId<R>| c.get_extended_topology_info(), items_dbg("extended_topology_info", ty::extended_topology_level::<R>()), dbg_it()));
    d.push(many("extended_topology_info_v2", |c: &CpuId<R>| c.get_extended_topology_info_v2(), items_dbg("extended_topology_info_v2", ty::extended_topology_level::<R>()), dbg_it()));
    d.push(one("extended_state_info", ty::extended_state_info::<R>(), |c| c.get_extended_state_info()));
    let xs = ty::extended_state::<R>();
    d.push(many(
        "extended_state_info.iter",
        |c: &CpuId<R>| c.get_extended_state_info().map(|x| x.iter()),
        move |i, x: &rc::ExtendedState, out, txt| {
            let sec = "extended_state_info.iter";
            out.push(Row { sec, idx: i, name: "subleaf", v: x.subleaf.to_v() });
            rows(sec, i, &xs, x, out);
            if txt {
                out.push(Row { sec, idx: i, name: "{:?}", v: gv(|| V::S(text(format_args!("{:?}", x)))) });
                out.push(Row { sec, idx: i, name: "{:#?}", v: gv(|| V::S(text(format_args!("{:#?}", x)))) });
            }
        },
        dbg_it(),
    ));
    d.push(one("rdt_monitoring_info", ty::rdt_monitoring_info::<R>(), |c| c.get_rdt_monitoring_info()));
    d.push(one("rdt_monitoring_info.l3_monitoring", ty::l3_monitoring_info::<R>(), |c| c.get_rdt_monitoring_info()?.l3_monitoring()));
    d.push(one("rdt_allocation_info", ty::rdt_allocation_info::<R>(), |c| c.get_rdt_allocation_info()));
    d.push(one("rdt_allocation_info.l3_cat", ty::l3_cat_info::<R>(), |c| c.get_rdt_allocation_info()?.l3_cat()));
    d.push(one("rdt_allocation_info.l2_cat", ty::l2_cat_info::<R>(), |c| c.get_rdt_allocation_info()?.l2_cat()));
    d.push(one("rdt_allocation_info.memory_bandwidth_allocation", ty::mem_bw_allocation_info::<R>(), |c| c.get_rdt_allocation_info()?.memory_bandwidth_allocation()));
    d.push(one("sgx_info", ty::sgx_info::<R>(), |c| c.get_sgx_info()));
    let epc = ty::epc_section::<R>();
    d.push(many(
        "sgx_info.iter",
        |c: &CpuId<R>| c.get_sgx_info().map(|x| x.iter()),
        move |i, x: &rc::SgxSectionInfo, out, txt| {
            let rc::SgxSectionInfo::Epc(e) = x;
            rows("sgx_info.iter", i, &epc, e, out);
            if txt {
                out.push(Row { sec: "sgx_info.iter", idx: i, name: "{:?}", v: gv(|| V::S(text(format_args!("{:?}", x)))) });
                out.push(Row { sec: "sgx_info.iter", idx: i, name: "{:#?}", v: gv(|| V::S(text(format_args!("{:#?}", x)))) });
            }
        },
        dbg_it(),
    ));
    d.push(one("processor_trace_info", ty::processor_trace_info::<R>(), |c| c.get_processor_trace_info()));
    d.push(one("tsc_info", ty::tsc_info::<R>(), |c| c.get_tsc_info()));
    d.push(one("processor_frequency_info", ty::processor_frequency_info::<R>(), |c| c.get_processor_frequency_info()));
    d.push(one("soc_vendor_info", ty::soc_vendor_info::<R>(), |c| c.get_soc_vendor_info()));
    d.push(one("soc_vendor_info.vendor_brand", ty::soc_vendor_brand::<R>(), |c| c.get_soc_vendor_info()?.get_vendor_brand()));
    d.push(many(
        "soc_vendor_info.vendor_attributes",
        |c: &CpuId<R>| c.get_soc_vendor_info()?.get_vendor_attributes(),
        |i, x: &rc::CpuIdResult, out, _| out.push(Row { sec: "soc_vendor_info.vendor_attributes", idx: i, name: "regs", v: x.to_v() }),
        dbg_it(),
    ));
    d.push(many("deterministic_address_translation_info", |c: &CpuId<R>| c.get_deterministic_address_translation_info(), items_dbg("deterministic_address_translation_info", ty::dat_info::<R>()), dbg_it()));
    d.push(one("hypervisor_info", ty::hypervisor_info::<R>(), |c| c.get_hypervisor_info()));
    d.push(one("extended_processor_and_feature_identifiers", ty::extended_processor_feature_identifiers::<R>(), |c| c.get_extended_processor_and_feature_identifiers()));
    d.push(one("processor_brand_string", ty::processor_brand_string::<R>(), |c| c.get_processor_brand_string()));
    d.push(one("l1_cache_and_tlb_info", ty::l1_cache_tlb_info::<R>(), |c| c.get_l1_cache_and_tlb_info()));
    d.push(one("l2_l3_cache_and_tlb_info", ty::l2_and3_cache_tlb_info::<R>(), |c| c.get_l2_l3_cache_and_tlb_info()));
    d.push(one("advanced_power_mgmt_info", ty::apm_info::<R>(), |c| c.get_advanced_power_mgmt_info()));
    d.push(one("processor_capacity_feature_info", ty::processor_capacity_and_feature_info::<R>(), |c| c.get_processor_capacity_feature_info()));
    d.push(one("svm_info", ty::svm_features::<R>(), |c| c.get_svm_info()));
    d.push(one("tlb_1gb_page_info", ty::tlb1gb_page_info::<R>(), |c| c.get_tlb_1gb_page_info()));
    d.push(one("performance_optimization_info", ty::performance_optimization_info::<R>(), |c| c.get_performance_optimization_info()));
    d.push(one("instruction_based_sampling_capabilities", ty::instruction_based_sampling_capabilities::<R>(), |c| c.get_instruction_based_sampling_capabilities()));
    d.push(one("processor_topology_info", ty::processor_topology_info::<R>(), |c| c.get_processor_topology_info()));
    d.push(one("memory_encryption_info", ty::memory_encryption_info::<R>(), |c| c.get_memory_encryption_info()));
    d.push(one("pqos_extended_feature_info", ty::pqos_extended_feature_info::<R>(), |c| c.get_pqos_extended_feature_info()));
    d.push(one("pqos_extended_feature_info.l3mbe", ty::l3_memory_bandwidth_enforcement_information::<R>(), |c| c.get_pqos_extended_feature_info()?.get_l3_memory_bandwidth_enforcement_info()));
    d.push(one("pqos_extended_feature_info.l3smbe", ty::l3_memory_bandwidth_enforcement_information::<R>(), |c| c.get_pqos_extended_feature_info()?.get_l3_slow_memory_bandwidth_enforcement_info()));
    d.push(one("pqos_extended_feature_info.bmec", ty::bandwidth_monitoring_event_counters::<R>(), |c| c.get_pqos_extended_feature_info()?.get_bandwidth_monitoring_event_counters_info()));
    d.push(one("pqos_extended_feature_info.abmc", ty::assignable_bandwidth_monitoring_counter_info::<R>(), |c| c.get_pqos_extended_feature_info()?.get_assignable_bandwidth_monitoring_counters_info()));
    d.push(one("extended_feature_identification_2", ty::extended_feature_identification2::<R>(), |c| c.get_extended_feature_identification_2()));
    d.push(one("extended_performance_monitoring_and_debug", ty::extended_performance_monitoring_debug::<R>(), |c| c.get_extended_performance_monitoring_and_debug()));
    d.push(one("multi_key_encrypted_memory_capabilities", ty::multi_key_encrypted_memory_capabilities::<R>(), |c| c.get_multi_key_encrypted_memory_capabilities()));
    d.push(many("extended_cpu_topology", |c: &CpuId<R>| c.get_extended_cpu_topology(), items_dbg("extended_cpu_topology", ty::extended_cpu_topology_level::<R>()), (|_| None, |_| None)));
    DumpModel { d }
}

impl<R: CpuIdReader + 'static> DumpModel<R> {
    /// All rows; with `text` also every Debug/Display rendering.
    pub fn dump(&self, c: &CpuId<R>, txt: bool) -> Vec<Row> {
        let mut out = Vec::with_capacity(1024);
        for d in &self.d {
            (d.run)(c, &mut out, txt);
        }
        if txt {
            at("CpuId", "");
            out.push(Row { sec: "CpuId", idx: 0, name: "{:?}", v: gv(|| V::S(text(format_args!("{:?}", c)))) });
            out.push(Row { sec: "CpuId", idx: 0, name: "{:#?}", v: gv(|| V::S(text(format_args!("{:#?}", c)))) });
        }
        out
    }
    pub fn section(&self, i: usize, c: &CpuId<R>, text: bool, out: &mut Vec<Row>) {
        (self.d[i].run)(c, out, text);
    }
}

pub fn diff(a: &[Row], b: &[Row]) -> Option<String> {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            return Some(format!("{:?}  versus  {:?}", x, y));
        }
    }
    if a.len() != b.len() {
        return Some(format!("{} versus {} rows", a.len(), b.len()));
    }
    None
}
