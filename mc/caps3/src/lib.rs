//! One eighth of the capacities (split over crates so that they compile in parallel).
#[cfg(feature = "all")]
mc_core::caps!(c3 3 c11 11 c19 19 c27 27 c35 35 c43 43 c51 51 c59 59 c67 67 c75 75 c83 83 c91 91 c99 99 c107 107 c115 115 c123 123 c131 131 c139 139 c147 147 c155 155 c163 163 c171 171 c179 179 c187 187 c195 195 c203 203 c211 211 c219 219 c227 227 c235 235 c243 243 c251 251);
#[cfg(not(feature = "all"))]
mc_core::caps!(c3 3 c11 11);
