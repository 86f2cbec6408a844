#[global_allocator]
static ALLOC: mc_core::engine::Counting = mc_core::engine::Counting;
use arraystring::prelude::*;
mc_core::usual!("../../body/fmtx.rs");
fn main() {
    mc_core::ext::main(&all_bodies(), &["Display", "Debug", "failing sink", "to_string/write!"], "formatting: every content up to 5 bytes and shaped ones up to 255; widths and precisions around the text, 5 fills, 4 alignments, flags; sinks failing at every byte; leftovers of every kind")
}
