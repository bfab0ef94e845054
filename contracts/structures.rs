#![allow(unused, non_camel_case_types, non_snake_case, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {
//@include prelude.inc
//@include structures_fns.inc
} // verus!
fn main() {}
