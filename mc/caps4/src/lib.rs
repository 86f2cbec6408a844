//! One eighth of the capacities (split over crates so that they compile in parallel).
#[cfg(feature = "all")]
mc_core::caps!(c4 4 c12 12 c20 20 c28 28 c36 36 c44 44 c52 52 c60 60 c68 68 c76 76 c84 84 c92 92 c100 100 c108 108 c116 116 c124 124 c132 132 c140 140 c148 148 c156 156 c164 164 c172 172 c180 180 c188 188 c196 196 c204 204 c212 212 c220 220 c228 228 c236 236 c244 244 c252 252);
#[cfg(not(feature = "all"))]
mc_core::caps!(c4 4 c12 12 c100 100);
