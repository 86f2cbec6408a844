//! One eighth of the capacities (split over crates so that they compile in parallel).
#[cfg(feature = "all")]
mc_core::caps!(c5 5 c13 13 c21 21 c29 29 c37 37 c45 45 c53 53 c61 61 c69 69 c77 77 c85 85 c93 93 c101 101 c109 109 c117 117 c125 125 c133 133 c141 141 c149 149 c157 157 c165 165 c173 173 c181 181 c189 189 c197 197 c205 205 c213 213 c221 221 c229 229 c237 237 c245 245 c253 253);
#[cfg(not(feature = "all"))]
mc_core::caps!(c5 5 c253 253);
