#![feature(pattern)]
#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_assignments, unused_parens, unused_braces, non_snake_case, unreachable_code, unused_must_use)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
/// string equality is equality of the characters; std functions on integers
pub mod prel {
    use vstd::prelude::*;
    pub broadcast axiom fn str_ext(a: &str, b: &str)
        ensures #[trigger] (a@) == #[trigger] (b@) ==> a == b;
    pub assume_specification [u64::div_ceil] (a: u64, b: u64) -> (r: u64)
        requires b != 0,
        ensures r as int == (a as int + b as int - 1) / (b as int),
    ;
}
} // verus!
