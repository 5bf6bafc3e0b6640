#[cfg(feature = "corpus")]
#[path = "../../gen/src/generated.rs"]
mod generated;
#[cfg(feature = "corpus")]
mod more;
