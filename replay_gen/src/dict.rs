//! Literals of the code under check that the code it was written for does not have: a condition on an
//! unusual value names that value, so the random inputs also draw from these.
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub strs: Vec<String>,
    pub nums: Vec<usize>,
}
/// lines of VERIF_DICT: `s` and the text in hexadecimal, or `n` and a number
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        for l in std::env::var("VERIF_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default().lines() {
            if let Some(h) = l.strip_prefix('s') {
                let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
                d.strs.extend(String::from_utf8(b));
            } else if let Some(n) = l.strip_prefix('n') {
                d.nums.extend(n.parse::<usize>());
            }
        }
        d
    })
}
/// one of the texts, once in `den` times
pub fn bit(up: &mut dyn FnMut(usize) -> usize, den: usize) -> Option<String> {
    let d = dict();
    if d.strs.is_empty() || up(den) != 0 {
        return None;
    }
    let s = d.strs[up(d.strs.len())].clone();
    Some(match up(8) {
        0 => format!("{s}{s}"),
        1 => s.to_uppercase(),
        2 => s.to_lowercase(),
        _ => s,
    })
}
/// a number near one of the numbers, not above `max`, once in `den` times
pub fn num(up: &mut dyn FnMut(usize) -> usize, den: usize, max: usize) -> Option<usize> {
    let d = dict();
    if d.nums.is_empty() || up(den) != 0 {
        return None;
    }
    let n = (d.nums[up(d.nums.len())] + up(3)).saturating_sub(1);
    if n > max { None } else { Some(n) }
}
