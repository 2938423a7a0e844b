//! Runtime monitors for `normalize_interval`: workloads drive the real crate,
//! an independent reference model shadows every call, and the monitors compare
//! what the library does with what the model says.
pub mod prog;
pub mod rng;
pub mod rset;
pub mod dom;
pub mod mon;
pub mod ivs;
pub mod sel;
pub mod grid;
pub mod trk;
