//! One eighth of the capacities (split over crates so that they compile in parallel).
#[cfg(feature = "all")]
mc_core::caps!(c2 2 c10 10 c18 18 c26 26 c34 34 c42 42 c50 50 c58 58 c66 66 c74 74 c82 82 c90 90 c98 98 c106 106 c114 114 c122 122 c130 130 c138 138 c146 146 c154 154 c162 162 c170 170 c178 178 c186 186 c194 194 c202 202 c210 210 c218 218 c226 226 c234 234 c242 242 c250 250);
#[cfg(not(feature = "all"))]
mc_core::caps!(c2 2 c10 10);
