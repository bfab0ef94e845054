#![allow(unused, nonstandard_style, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {
//@include prelude.inc
//@include structures.inc
//@include parser_all.inc
//@include printer_spec.inc
pub mod m_round { use super::*;
//@include round.inc
}
pub use m_round::*;
pub mod m_print { use super::*;
//@include printer_impl.inc
}
pub use m_print::*;
//@include round_end.inc
} // verus!
fn main() {}
