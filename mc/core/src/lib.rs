//! Explorer, reference model and reporting shared by all checks. Does not depend on the code under test.
pub mod bits;
pub mod explore;
pub mod model;
pub mod report;
pub mod values;
pub use bits::Bits;
pub use explore::{explore, Chooser};
pub use model::{Scalar, Val};
pub use report::{guard, Local, Out, Runner};
