#![allow(unused, nonstandard_style, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {
//@include prelude.inc
//@include structures.inc
//@include parser_all.inc
} // verus!
fn main() {}
