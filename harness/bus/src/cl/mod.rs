//! The real broker and real clients.
pub mod api;
pub mod calls;
pub mod chans;
pub mod disc;
pub mod events;
pub mod exec;
pub mod gen;
pub mod intro;
pub mod listen;
pub mod stop;
pub mod term;
pub mod vers;
pub mod world;
