//! One eighth of the capacities (split over crates so that they compile in parallel).
#[cfg(feature = "all")]
mc_core::caps!(c6 6 c14 14 c22 22 c30 30 c38 38 c46 46 c54 54 c62 62 c70 70 c78 78 c86 86 c94 94 c102 102 c110 110 c118 118 c126 126 c134 134 c142 142 c150 150 c158 158 c166 166 c174 174 c182 182 c190 190 c198 198 c206 206 c214 214 c222 222 c230 230 c238 238 c246 246 c254 254);
#[cfg(not(feature = "all"))]
mc_core::caps!(c6 6 c254 254);
