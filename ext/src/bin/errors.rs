#[global_allocator]
static ALLOC: mc_core::engine::Counting = mc_core::engine::Counting;
use arraystring::prelude::*;
mc_core::bodies!("../../body/errors.rs";
    t2 2 ArrayString<2>, t5 5 ArrayString<5>, t63 63 ArrayString<63>, t255 255 ArrayString<255>, cache 256 CacheString);
fn main() {
    mc_core::ext::main(&all_bodies(), &["relations", "text", "conversion", "std error", "obtained from a call"], "error values by every route (variants, conversions, failing calls of every kind), all pairs; every unpaired surrogate in 6 contexts; every invalid byte sequence of up to 3 bytes (third byte from a boundary set unless deep), longer ones behind 0..300 bytes of text")
}
