#![allow(unused, non_camel_case_types, non_snake_case, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {
//@include prelude.inc
//@include structures.inc
//@include printer_spec.inc
pub mod m_print { use super::*;
//@include printer_impl.inc
}
pub use m_print::*;
} // verus!
fn main() {}
