#[global_allocator]
static ALLOC: mc_core::engine::Counting = mc_core::engine::Counting;
use arraystring::prelude::*;
mc_core::usual!("../../body/inf.rs");
fn main() {
    mc_core::ext::main(&all_bodies(), &["truncating constructor", "strict constructor", "extend"], "never-ending iterators: 9 cycles of characters and of texts after 0..4 other items; 200000 items asked for counts as not ending; ending iterators over texts around the capacity with 9 honest styles of size hint, one resuming after its end")
}
