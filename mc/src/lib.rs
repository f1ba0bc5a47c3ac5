//! Shared machinery of the model checks: the bounded universe of interaction terms, the
//! independent denotational oracle, the parallel exhaustive driver and the report writer.
pub mod lang;
pub mod report;
pub mod rngctl;
pub mod scratch;
pub mod universe;
pub mod cli;
pub mod dot;
pub mod petri;
pub mod hif;
pub mod syntax;
pub mod sd;
