//! Literals that must not compile, among some that must, one per line of the
//! file named by the environment at build time (see driver/literals.js).
fn main() {}

include!(env!("BAD_LITERALS"));
