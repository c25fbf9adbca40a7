//! Reference models, enumerators and the exploration runner. Nothing in this crate depends on
//! miniserde, so nothing here can inherit a miniserde defect.
pub mod alloc;
pub mod gen;
pub mod num;
pub mod pda;
pub mod run;
pub mod rv;
