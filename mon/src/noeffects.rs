//! Where effects are not watched.
#[inline]
pub fn at(_: &'static str, _: &'static str) {}
#[inline]
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    f()
}
#[inline]
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    f()
}
#[inline]
pub fn deep<T>(f: impl FnOnce() -> T) -> T {
    f()
}
pub fn disarm() {}
pub fn text(a: std::fmt::Arguments) -> String {
    std::fmt::format(a)
}
