//! Literals evaluated by the compiler: prints the values of the literals in
//! the file named by the environment at build time (see driver/literals.js).
use harness::{run, Tok};

fn show<T: Tok>(i: usize, x: T) {
    println!("{i} {}", run(|| x));
}

fn main() {
    lits();
}

include!(env!("GOOD_LITERALS"));
