//! Shared machinery of the runtime monitors: deterministic randomness, the
//! task runner and its verdict bookkeeping, adversarial input generators and
//! the independent big-integer reference models.
pub mod big;
pub mod fields;
pub mod formats;
pub mod gen;
pub mod h2c;
pub mod iso;
pub mod run;
pub mod tower;
pub use big::*;
pub use run::*;
pub mod curves;
pub use curves::*;
pub use gen::Gen;
pub use tower::{Tower, R2, RN};
