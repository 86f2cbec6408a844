#[global_allocator]
static ALLOC: mc_core::engine::Counting = mc_core::engine::Counting;
use arraystring::prelude::*;
mc_core::usual!("../../body/adv.rs");
fn main() {
    mc_core::ext::main(&all_bodies(), &["lying size hint", "resuming iterator", "panicking iterator", "panicking closure", "changing text", "changing range", "formatting that fails", "use afterwards", "changing units"], "misbehaving callers: contents up to 4 bytes and shaped ones up to 255; 7 size hints; resuming or panicking at every item; every triple of answers of as_ref (one panics); ranges answering twice")
}
