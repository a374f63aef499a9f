//! Stands in for miniserde with derives that do nothing.
pub use miniserde::de::Deserialize;
pub use miniserde::ser::Serialize;
pub use miniserde::{__private, de, json, make_place, ser, Error, Result};
pub use stub::{Deserialize, Serialize};
