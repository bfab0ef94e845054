#![allow(unused, non_camel_case_types, non_snake_case, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {
//@include prelude.inc
//@item structures::Id
//@item structures::Attribute
//@include attr_common.inc
//@inline graphviz::attributes
pub mod attributes {
use super::*;
//@ctors graphviz::attributes C14
}
} // verus!
fn main() {}
