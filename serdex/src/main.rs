#[global_allocator]
static ALLOC: mc_core::engine::Counting = mc_core::engine::Counting;
use arraystring::prelude::*;
mc_core::bodies!("../body/serdex.rs";
    t1 1 ArrayString<1>, t2 2 ArrayString<2>, t3 3 ArrayString<3>, t4 4 ArrayString<4>, t5 5 ArrayString<5>, t7 7 ArrayString<7>, t8 8 ArrayString<8>,
    t16 16 ArrayString<16>, t23 23 ArrayString<23>, t31 31 ArrayString<31>, t32 32 ArrayString<32>, t63 63 ArrayString<63>, t64 64 ArrayString<64>,
    t127 127 ArrayString<127>, t128 128 ArrayString<128>, t200 200 ArrayString<200>, t254 254 ArrayString<254>, t255 255 ArrayString<255>, cache 256 CacheString);
fn main() {
    mc_core::ext::main(&all_bodies(), &["serialize", "round trip", "any data model value", "JSON text", "JSON bytes", "bincode bytes", "nested"], "serde: every serializer event for every content, both human-readable settings; a deserializer delivering every kind of value of the data model, texts of 0..=cap+9 and 256..600 bytes, every byte sequence over 9 noteworthy bytes up to 4 long, alone and behind texts up to and past the capacity; every JSON string body over a 12-token alphabet up to 5 tokens; every JSON document over a 16-byte alphabet up to 4 bytes; bincode lengths and payloads; nested in options, sequences, maps, structs, enums")
}
