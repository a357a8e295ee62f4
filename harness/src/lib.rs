pub mod checks;
pub mod cmp;
pub mod engine;
pub mod fuzzgen;
pub mod gen;
pub mod layout;
pub mod refparse;
pub mod textfmt;
pub mod world;
pub mod scratch;
pub mod progen;
pub mod supervise;
