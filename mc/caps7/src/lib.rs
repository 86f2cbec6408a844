//! One eighth of the capacities (split over crates so that they compile in parallel).
#[cfg(feature = "all")]
mc_core::caps!(c7 7 c15 15 c23 23 c31 31 c39 39 c47 47 c55 55 c63 63 c71 71 c79 79 c87 87 c95 95 c103 103 c111 111 c119 119 c127 127 c135 135 c143 143 c151 151 c159 159 c167 167 c175 175 c183 183 c191 191 c199 199 c207 207 c215 215 c223 223 c231 231 c239 239 c247 247 c255 255);
#[cfg(not(feature = "all"))]
mc_core::caps!(c7 7 c31 31 c63 63 c127 127 c191 191 c255 255);
