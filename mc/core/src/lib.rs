pub mod engine;
pub mod ext;
pub mod gen;
pub mod judge;
pub mod model;
pub mod target;
