pub mod bad;
pub mod ctx;
pub mod lane;
pub mod models;
pub mod gen;
pub mod oracle;
pub mod fixture;
pub use ctx::{catch, Ctx, Rng};
pub use lane::{Db, Lane, Raw};
pub mod prelude;
pub mod values;
pub mod window;
pub mod ops;
pub mod sanrun;
pub mod schema;
pub mod evolve;
