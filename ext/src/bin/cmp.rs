#[global_allocator]
static ALLOC: mc_core::engine::Counting = mc_core::engine::Counting;
use arraystring::prelude::*;
mc_core::usual!("../../body/cmp.rs");
fn main() {
    mc_core::ext::main(&all_bodies(), &["equality", "order", "equality with str", "hash", "map lookup", "sorting", "drain comparison", "copying"], "pairs of texts: every text of up to 3 bytes over five characters for capacities up to 4, texts differing in one place for the others; leftovers of every kind")
}
