pub use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
pub use std::sync::Arc;

pub use rand::prelude::{IndexedRandom, SliceRandom};
pub use rand::Rng as _;

pub use crate::ctx::{catch, drain_panics, Ctx, Rng};
pub use butane::db::BackendConnection as _;
pub use butane::db::ConnectionMethods as _;
pub use crate::gen::*;
pub use crate::lane::{connect, connect_async, rt, Db, Lane, Raw};
