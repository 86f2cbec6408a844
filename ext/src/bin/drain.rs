#[global_allocator]
static ALLOC: mc_core::engine::Counting = mc_core::engine::Counting;
use arraystring::prelude::*;
mc_core::usual!("../../body/drain.rs");
fn main() {
    mc_core::ext::main(
        &all_bodies(),
        &["drain", "next/next_back", "as_str/size_hint", "consuming adaptors"],
        "drain walks: all contents up to 6 bytes and shaped ones up to 255, ranges on all boundaries (9 per long text), every front/back word for pieces up to 6 characters",
    )
}
