//! One eighth of the capacities (split over crates so that they compile in parallel).
#[cfg(feature = "all")]
mc_core::caps!(c8 8 c16 16 c24 24 c32 32 c40 40 c48 48 c56 56 c64 64 c72 72 c80 80 c88 88 c96 96 c104 104 c112 112 c120 120 c128 128 c136 136 c144 144 c152 152 c160 160 c168 168 c176 176 c184 184 c192 192 c200 200 c208 208 c216 216 c224 224 c232 232 c240 240 c248 248);
#[cfg(not(feature = "all"))]
mc_core::caps!(c8 8 c16 16 c32 32 c64 64 c128 128 c192 192 c200 200);
