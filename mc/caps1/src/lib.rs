//! One eighth of the capacities (split over crates so that they compile in parallel).
#[cfg(feature = "all")]
mc_core::caps!(c1 1 c9 9 c17 17 c25 25 c33 33 c41 41 c49 49 c57 57 c65 65 c73 73 c81 81 c89 89 c97 97 c105 105 c113 113 c121 121 c129 129 c137 137 c145 145 c153 153 c161 161 c169 169 c177 177 c185 185 c193 193 c201 201 c209 209 c217 217 c225 225 c233 233 c241 241 c249 249);
#[cfg(not(feature = "all"))]
mc_core::caps!(c1 1 c9 9 c33 33 c65 65 c129 129);
