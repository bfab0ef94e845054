//! A printer context as a list of builder calls, and the options it must amount to.
use crate::gen::Rng;
use crate::text::{fmt_value, Opts};
use graphviz_rust::dot_structures::Id;
use graphviz_rust::printer::PrinterContext;

#[derive(Clone, Debug)]
pub enum Op {
    Inline,
    Semi,
    Multi,
    NoComma,
    Step(usize),
    Sep(String),
    Width(usize),
    Fmt(Id, u8),
}
#[derive(Clone, Debug)]
pub struct Ctx {
    /// explicit constructor arguments, or the default context
    pub new: Option<(bool, usize, String, usize)>,
    pub ops: Vec<Op>,
}
pub const BLANKS: [&str; 8] = ["\n", "\r\n", "\n\n", " ", "\t", " \n\t", "\n  ", ""];
impl Ctx {
    pub fn random(r: &mut Rng, layout_only: bool, odd_sep: bool) -> Ctx {
        let sep = |r: &mut Rng| -> String {
            if let Some(s) = r.bit(10).filter(|s| odd_sep || s.chars().all(|c| matches!(c, ' ' | '\t' | '\n')) || s == "\r\n") {
                s
            } else if odd_sep && r.chance(1, 6) {
                r.pick(&[" ~ ", "|", "é", "%%\n"]).to_string()
            } else {
                r.pick(&BLANKS).to_string()
            }
        };
        let step = |r: &mut Rng| -> usize {
            match r.num(5, 400) {
                Some(n) => n,
                None => match r.up(20) {
                    0 => *r.pick(&[16, 17, 33, 64, 130]),
                    _ => r.up(9),
                },
            }
        };
        let new = if r.chance(1, 3) { Some((!layout_only && r.chance(1, 2), step(r), sep(r), *r.pick(&[0, 5, 20, 90, 500]))) } else { None };
        let n = r.up(6);
        let mut ops = vec![];
        for _ in 0..n {
            ops.push(match r.up(10) {
                0 => Op::Inline,
                1 if !layout_only => Op::Semi,
                2 | 3 | 1 => Op::Multi,
                4 => Op::NoComma,
                5 | 6 => Op::Step(step(r)),
                7 => Op::Sep(sep(r)),
                _ => {
                    let w = r.num(4, 100000).unwrap_or(r.up(60));
                    Op::Width(*r.pick(&[0, 1, w, 30, 90, 91, 120, 1000, usize::MAX]))
                }
            });
        }
        Ctx { new, ops }
    }
    pub fn build(&self) -> PrinterContext {
        let mut c = match &self.new {
            None => PrinterContext::default(),
            Some((a, b, s, w)) => PrinterContext::new(*a, *b, s.clone(), *w),
        };
        for o in &self.ops {
            match o {
                Op::Inline => c.always_inline(),
                Op::Semi => c.with_semi(),
                Op::Multi => c.with_node_mult_attr_s_l(),
                Op::NoComma => c.with_no_node_mult_attr_s_l_comma(),
                Op::Step(n) => c.with_indent_step(*n),
                Op::Sep(s) => c.with_line_sep(s.clone()),
                Op::Width(n) => c.with_inline_size(*n),
                Op::Fmt(i, k) => {
                    let k = *k;
                    c.with_attr_value_printer(i.clone(), Box::new(move |v: &str, s: &str, i: &str, n: usize| fmt_value(k, v, s, i, n)))
                }
            };
        }
        c
    }
    pub fn opts(&self) -> Opts {
        let mut o = match &self.new {
            None => Opts { semi: false, multi: false, comma: true, step: 2, ls: "\n".into(), width: 90, fmts: vec![] },
            Some((a, b, s, w)) => Opts { semi: *a, multi: false, comma: true, step: *b, ls: s.clone(), width: *w, fmts: vec![] },
        };
        for p in &self.ops {
            match p {
                Op::Inline => o.ls = String::new(),
                Op::Semi => o.semi = true,
                Op::Multi => o.multi = true,
                Op::NoComma => o.comma = false,
                Op::Step(n) => o.step = *n,
                Op::Sep(s) => o.ls = s.clone(),
                Op::Width(n) => o.width = *n,
                Op::Fmt(i, k) => o.fmts.push((i.clone(), *k)),
            }
        }
        o
    }
}
