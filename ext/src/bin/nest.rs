#[global_allocator]
static ALLOC: mc_core::engine::Counting = mc_core::engine::Counting;
use arraystring::prelude::*;
mc_core::bodies!("../../body/nest.rs";
    t2 2 ArrayString<2>, t5 5 ArrayString<5>, t8 8 ArrayString<8>, t23 23 ArrayString<23>, t63 63 ArrayString<63>, t255 255 ArrayString<255>, cache 256 CacheString);
fn main() {
    mc_core::ext::main(&all_bodies(), &["nested", "in sequence", "copies"], "52 actions on up to 4 contents of 7 types; every other action on a neighbouring string before it, after it and inside each of its callbacks; the same on copies and clones")
}
