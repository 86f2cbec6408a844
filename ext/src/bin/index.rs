#[global_allocator]
static ALLOC: mc_core::engine::Counting = mc_core::engine::Counting;
use arraystring::prelude::*;
mc_core::usual!("../../body/index.rs");
fn main() {
    mc_core::ext::main(&all_bodies(), &["index", "index_mut", "mutable view"], "index: every content up to 5 bytes and shaped ones up to 255; every pair of u8 positions for one text per capacity, positions around the text and the limits for the others; 6 range forms")
}
