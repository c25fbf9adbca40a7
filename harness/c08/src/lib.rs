//! Only so that cargo builds what the enumerated definitions are compiled against.
pub use mc_noop as _;
pub use miniserde as _;
