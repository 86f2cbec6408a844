// The actions of acts.rs behind erased pointers, for the two-thread exploration.
include!("acts.rs");

pub fn units(_: bool, _: bool) -> usize {
    0
}
pub fn run(_: usize, _: &mut Cx) {}

pub fn size() -> usize {
    std::mem::size_of::<T>()
}
pub fn put(at: *mut u8, text: &str) {
    let s = mc_core::build!(T, text, 0);
    unsafe { (at as *mut T).write(s) }
}
#[inline(never)]
pub fn go(k: usize, at: *mut u8, out: &mut Out) {
    perform(k, unsafe { &mut *(at as *mut T) }, &|| {}, out)
}
pub fn name(k: usize) -> &'static str {
    ACTS[k].0
}
pub fn table() -> crate::Table {
    crate::Table { ty: TY, key: KEY, size: size(), put, go, name, starts: starts(), n: NACTS }
}
