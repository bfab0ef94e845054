//! C14: every attribute constructor, with its own key and the given value.
use crate::gen::Rng;
use crate::{fail, on, Case, Res};
use graphviz_rust::attributes::*;
use graphviz_rust::dot_structures::{Attribute, Id};
use graphviz_rust::into_attr::IntoAttribute;

/// a value of a type, and the text that shows it
trait Value: Sized {
    fn pick(r: &mut Rng) -> (Self, String);
    /// a text that shows some value of the type
    fn shows(t: &str) -> bool;
}
impl Value for String {
    fn pick(r: &mut Rng) -> (Self, String) {
        let n = r.up(6);
        let s: String = (0..n).map(|_| r.bit(3).unwrap_or_default() + *r.pick(&["\\l", "a", "\"x y\"", "_", "é", " ", "<b>", "1", "\\n", "\"", "box_", ":", ""])).collect();
        (s.clone(), s)
    }
    fn shows(_: &str) -> bool {
        true
    }
}
impl Value for bool {
    fn pick(r: &mut Rng) -> (Self, String) {
        if r.chance(1, 2) {
            (true, "true".into())
        } else {
            (false, "false".into())
        }
    }
    fn shows(t: &str) -> bool {
        t == "true" || t == "false"
    }
}
impl Value for i32 {
    fn pick(r: &mut Rng) -> (Self, String) {
        let k = *r.pick(&[0, 1, -1, 7, i32::MAX, i32::MIN, 1000]);
        let v = if r.chance(1, 2) { k } else { r.next() as i32 };
        (v, v.to_string())
    }
    fn shows(t: &str) -> bool {
        t.parse::<i32>().is_ok()
    }
}
impl Value for f32 {
    fn pick(r: &mut Rng) -> (Self, String) {
        let k = *r.pick(&[0.0f32, 1.0, -1.5, 0.1, 1e10, 1e-9, f32::MAX, 14.0, 96.0, -0.25]);
        let v = if r.chance(1, 2) { k } else { f32::from_bits(r.next() as u32) };
        (v, format!("{v}"))
    }
    fn shows(t: &str) -> bool {
        t.parse::<f32>().is_ok()
    }
}
impl Value for color_name {
    fn pick(r: &mut Rng) -> (Self, String) {
        let mut c = colors();
        let i = r.up(c.len());
        let (v, t) = c.swap_remove(i);
        (v, t.to_string())
    }
    fn shows(t: &str) -> bool {
        colors().iter().any(|c| c.1 == t)
    }
}
fn is(input: String, got: Attribute, key: &str, value: &str) -> Result<(), crate::Fail> {
    let want = Attribute(Id::Plain(key.into()), Id::Plain(value.into()));
    if got == want {
        Ok(())
    } else {
        fail(input, format!("{want:?}"), format!("{got:?}"))
    }
}
macro_rules! one {
    ($r:expr, $owner:ident, $name:ident, $ty:ident, $call:expr, $key:expr) => {{
        let mut d = String::new();
        for _ in 0..4 {
            let (v, t) = <$ty as Value>::pick($r);
            on(&format!("{}({t:?})", $call));
            is(format!("{}({t:?})", $call), $owner::$name(v), $key, &t)?;
            d += &format!("{}({t:?}) ", $call);
        }
        Ok(Case { desc: d, nontrivial: true })
    }};
}
macro_rules! dflt {
    ($name:ident, $ty:ident, $key:expr) => {{
        let Attribute(k, v) = $name::default().into_attr();
        match (&k, &v) {
            (Id::Plain(a), Id::Plain(b)) if a == $key && <$ty as Value>::shows(b) => {}
            _ => return fail(format!("the default of {}", $key), format!("key {} and a value", $key), format!("{k:?} = {v:?}")),
        }
        Ok(Case { desc: format!("default of {}", $key), nontrivial: true })
    }};
}
macro_rules! all {
    ($owner:ident, $name:ident, $vals:expr, $call:expr, $key:expr) => {{
        let mut n = 0;
        for (v, t) in $vals {
            let d = format!("{}({v:?})", $call);
            on(&d);
            is(d, $owner::$name(v), $key, t)?;
            n += 1;
        }
        Ok(Case { desc: format!("{}, all {n} values", $call), nontrivial: true })
    }};
}
macro_rules! edflt {
    ($name:ident, $vals:expr, $key:expr) => {{
        let d = format!("{:?}", $name::default());
        let Attribute(k, v) = $name::default().into_attr();
        let ok = matches!((&k, &v), (Id::Plain(a), Id::Plain(b)) if a == $key && $vals.iter().any(|x| x.1 == b.as_str() && x.0 == $name::default()));
        if !ok {
            return fail(format!("the default of {}", $key), "one of its values", format!("{d}: {k:?} = {v:?}"));
        }
        Ok(Case { desc: format!("default of {}", $key), nontrivial: true })
    }};
}
include!("keys_table.rs");

pub fn c14(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed, "c14", i);
    let n = ALL.len() as u64;
    match i % (n + 2) {
        k if k < n => ALL[k as usize](&mut r),
        k if k == n => {
            for (v, t) in colors() {
                let d = format!("{v:?}");
                on(&d);
                if v.to_string() != t {
                    return fail(d, t, v.to_string());
                }
                is(format!("color_name::{d} as an attribute"), v.into_attr(), "color_name", t)?;
            }
            for (k, (v, t)) in colors().into_iter().enumerate() {
                let d = format!("a color attribute from {v:?}");
                let (key, a) = match k % 3 {
                    0 => ("color", EdgeAttributes::color(v)),
                    1 => ("fillcolor", NodeAttributes::fillcolor(v)),
                    _ => ("bgcolor", SubgraphAttributes::bgcolor(v)),
                };
                is(d, a, key, t)?;
            }
            Ok(Case { desc: "all colors".into(), nontrivial: true })
        }
        _ => {
            let ((a, x), (b, y)) = (<f32 as Value>::pick(&mut r), <f32 as Value>::pick(&mut r));
            let d = format!("margin_separate({x}, {y})");
            on(&d);
            is(d.clone(), NodeAttributes::margin_separate(a, b), "margin", &format!("{x},{y}"))?;
            Ok(Case { desc: d, nontrivial: true })
        }
    }
}
