//! Schemas, their reference model, bindings to generated code and the drivers that explore it.
pub mod ast;
pub mod bind;
pub mod codec;
pub mod drv;
pub mod orders;
pub mod refuse;
pub mod rules;
pub mod syntax;
pub mod rtops;
pub mod units;
pub mod vals;
