//! Values as observed through accessors, independent of the integer type an
//! accessor happens to return.
use crate::effects::pause;
use raw_cpuid as rc;
use std::fmt;

#[derive(Clone, PartialEq, Eq)]
pub enum V {
    Absent,
    B(bool),
    I(i128),
    S(String),
    T(Vec<V>),
}
impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            V::Absent => write!(f, "None"),
            V::B(b) => write!(f, "{}", b),
            V::I(i) => write!(f, "{} (0x{:x})", i, i),
            V::S(s) => write!(f, "{:?}", s),
            V::T(v) => f.debug_list().entries(v).finish(),
        }
    }
}
pub fn s(x: &str) -> V {
    pause(|| V::S(x.to_string()))
}

pub trait ToV {
    fn to_v(&self) -> V;
}
macro_rules! ints { ($($t:ty)*) => { $(impl ToV for $t { fn to_v(&self) -> V { V::I(*self as i128) } })* } }
ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 isize);
impl ToV for bool {
    fn to_v(&self) -> V {
        V::B(*self)
    }
}
impl ToV for str {
    fn to_v(&self) -> V {
        s(self)
    }
}
impl<T: ToV + ?Sized> ToV for &T {
    fn to_v(&self) -> V {
        (**self).to_v()
    }
}
impl ToV for String {
    fn to_v(&self) -> V {
        s(self)
    }
}
impl<T: ToV> ToV for Option<T> {
    fn to_v(&self) -> V {
        match self {
            None => V::Absent,
            Some(x) => x.to_v(),
        }
    }
}
impl<A: ToV, B: ToV> ToV for (A, B) {
    fn to_v(&self) -> V {
        pause(|| V::T(vec![self.0.to_v(), self.1.to_v()]))
    }
}
macro_rules! dbg {
    ($fmt:literal; $($t:ty),*) => { $(impl ToV for $t { fn to_v(&self) -> V { pause(|| {
        crate::faults::text(format_args!($fmt, self));
        V::S(format!("{:?}", self))
    }) } })* }
}
dbg!("{0:?} {0} {0:#?}"; rc::CacheType, rc::TopologyType, rc::ExtendedRegisterType, rc::ExtendedRegisterStateLocation, rc::DatType, rc::Associativity, rc::HierarchyLevelType);
dbg!("{0:?} {0:#?}"; rc::Hypervisor, rc::CacheInfoType);
impl ToV for rc::CpuIdResult {
    fn to_v(&self) -> V {
        crate::faults::text(format_args!("{0:?} {0:#?}", self));
        pause(|| V::T(vec![self.eax.to_v(), self.ebx.to_v(), self.ecx.to_v(), self.edx.to_v()]))
    }
}
