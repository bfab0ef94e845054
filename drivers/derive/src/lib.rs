//! Types of every shape the derive takes; check.py takes the compiler's expansion of this crate.
#![allow(unused, non_camel_case_types)]
use dot_generator::*;
use dot_structures::*;
use into_attr::IntoAttribute;
use into_attr_derive::IntoAttribute;

#[derive(Debug, PartialEq, IntoAttribute)]
pub enum one {
    only,
}
#[derive(Debug, PartialEq, IntoAttribute)]
pub enum last_ {
    type_,
    type__,
    _x,
    __,
    plain,
}
#[derive(Debug, PartialEq, IntoAttribute)]
pub enum Kind {
    Alpha,
    b_eta,
    c3,
    static_,
    CamelCase_,
    z,
}
#[derive(Debug, PartialEq, IntoAttribute)]
pub enum shape {
    box_,
    polygon,
    ellipse,
    invis,
}
#[derive(Debug, PartialEq, IntoAttribute)]
pub struct of_text(pub String);
#[derive(Debug, PartialEq, IntoAttribute)]
pub struct of_number(pub f32);
#[derive(Debug, PartialEq, IntoAttribute)]
pub struct of_whole(pub i32);
#[derive(Debug, PartialEq, IntoAttribute)]
pub struct of_yes(pub bool);
#[derive(Debug, PartialEq, IntoAttribute)]
pub struct of_big(pub u64);
#[derive(Debug, PartialEq, IntoAttribute)]
pub struct of_label_(pub String);
