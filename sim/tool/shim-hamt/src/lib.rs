//! Stands in for hamt, which is not available offline.
pub use plist::Map;
