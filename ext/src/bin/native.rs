#[global_allocator]
static ALLOC: mc_core::engine::Counting = mc_core::engine::Counting;
use arraystring::prelude::*;
mc_core::usual!("../../body/native.rs");
fn main() {
    mc_core::ext::main(&all_bodies(), &["replace_range", "drain", "push", "insert", "constructor", "constructor from list"], "argument types: all contents up to 4 bytes and shaped ones up to 255, every std range type over boundary positions, every std text type")
}
