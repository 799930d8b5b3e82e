//! hashbrown's maps, with the observable behaviour only.
pub use stdf::collections::{hash_map, hash_set, HashMap, HashSet};
