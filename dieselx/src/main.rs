#[global_allocator]
static ALLOC: mc_core::engine::Counting = mc_core::engine::Counting;
use arraystring::prelude::*;
mc_core::bodies!("../body/dieselx.rs";
    t1 1 ArrayString<1>, t2 2 ArrayString<2>, t3 3 ArrayString<3>, t5 5 ArrayString<5>, t8 8 ArrayString<8>, t16 16 ArrayString<16>,
    t63 63 ArrayString<63>, t64 64 ArrayString<64>, t128 128 ArrayString<128>, t255 255 ArrayString<255>, cache 256 CacheString);
fn main() {
    mc_core::ext::main(&all_bodies(), &["write", "read", "round trip", "null", "expression", "history", "wire value"], "diesel: a real in-memory SQLite database; texts of 0..=cap+9 and 256..600 bytes in every storage class, written and read typed as the string and as std String, in every position (tuple, struct, option, expression, bind, returning); every sequence of table operations up to the stated depth against a map model; PostgreSQL and MySQL wire values, valid and invalid")
}
