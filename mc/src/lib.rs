//! Bounded exhaustive exploration of `iri-string` against reference models.
pub mod builder;
pub mod en;
pub mod gens;
pub mod grammar;
pub mod report;
pub mod rfc;
pub mod shows;
pub mod spaces;
pub mod tpl;
pub use report::Ctx;
