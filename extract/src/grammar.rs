//! `//@grammar M`: the parser functions pest generated for the grammar, as data.
//!
//! pest turns each grammar rule into one function over its parser state.  This reads those functions
//! from the expansion and writes each as a term of the type `G` of contracts/peg.inc, whose
//! interpreter `run` is the contract assumed for pest's combinators.  Anything else is an error.
use crate::find;
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::*;

fn t(e: &impl ToTokens) -> String {
    find::squash(&e.to_token_stream().to_string())
}
fn bx(s: String) -> String {
    format!("Box::new({s})")
}
/// can the term fail?
#[derive(PartialEq, Clone, Copy)]
enum K {
    Never,
    Maybe,
}
struct Tr<'a> {
    names: Vec<String>,
    fns: &'a [ItemFn],
    /// the rules the contracts speak of; others are written out where they are called
    known: &'a HashSet<String>,
    open: std::cell::RefCell<Vec<String>>,
}
type R = std::result::Result<(String, K), String>;

impl Tr<'_> {
    fn closure<'a>(&self, e: &'a Expr) -> std::result::Result<&'a Expr, String> {
        match e {
            Expr::Closure(c) if c.inputs.len() == 1 && t(&c.inputs[0]) == "state" => Ok(strip(&c.body)),
            _ => Err(format!("not a state closure: {}", t(e))),
        }
    }
    /// `seq`: directly inside `sequence`, which restores the position when any part fails
    fn expr(&self, e: &Expr, seq: bool) -> R {
        match strip(e) {
            Expr::Block(b) => self.block(&b.block, seq),
            Expr::Call(c) => {
                let f = t(&c.func);
                if c.args.len() != 1 || t(&c.args[0]) != "state" {
                    return Err(format!("call {}", t(c)));
                }
                let n = f.rsplit("::").next().unwrap().to_string();
                let ok = f == format!("self::{n}") || f == format!("super::visible::{n}") || f == format!("super::hidden::{n}");
                if !ok || !self.names.contains(&n) {
                    return Err(format!("call of {f}"));
                }
                if !self.known.contains(&n) && !self.open.borrow().contains(&n) {
                    let b = &self.fns.iter().find(|x| x.sig.ident == n).unwrap().block;
                    self.open.borrow_mut().push(n);
                    let r = self.block(b, false);
                    self.open.borrow_mut().pop();
                    return r;
                }
                Ok((format!("G::Call(Rl::{n})"), if n == "skip" { K::Never } else { K::Maybe }))
            }
            Expr::MethodCall(m) => self.method(m, seq),
            e => Err(format!("expression {}", t(e))),
        }
    }
    fn method(&self, m: &ExprMethodCall, seq: bool) -> R {
        let name = m.method.to_string();
        let on_state = t(&m.receiver) == "state";
        let a = |i: usize| m.args.iter().nth(i).ok_or(format!("argument of {name}"));
        if !on_state {
            let (x, kx) = self.expr(&m.receiver, seq)?;
            return match name.as_str() {
                "and_then" => {
                    let (y, ky) = self.expr(self.closure(a(0)?)?, seq)?;
                    if !seq && ky == K::Maybe {
                        return Err("a sequence that does not restore the position".into());
                    }
                    Ok((format!("G::Cat({}, {})", bx(x), bx(y)), if kx == K::Never { ky } else { K::Maybe }))
                }
                "or_else" => {
                    // the first alternative must leave the position as it was when it fails
                    let (x, _) = self.expr(&m.receiver, false)?;
                    let (y, ky) = self.expr(self.closure(a(0)?)?, false)?;
                    Ok((format!("G::Alt({}, {})", bx(x), bx(y)), if kx == K::Never { K::Never } else { ky }))
                }
                _ => Err(format!("method {name}")),
            };
        }
        Ok(match name.as_str() {
            "match_string" => (format!("G::Str({})", lit_seq(a(0)?)?), K::Maybe),
            "match_range" => match a(0)? {
                Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                    (format!("G::Rng({}, {})", t(r.start.as_ref().ok_or("range")?), t(r.end.as_ref().ok_or("range")?)), K::Maybe)
                }
                e => return Err(format!("range {}", t(e))),
            },
            "skip" if t(a(0)?) == "1" => ("G::Any".into(), K::Maybe),
            "start_of_input" => ("G::Soi".into(), K::Maybe),
            "end_of_input" => ("G::Eoi".into(), K::Maybe),
            "sequence" => self.expr(self.closure(a(0)?)?, true)?,
            "optional" => (format!("G::Opt({})", bx(self.expr(self.closure(a(0)?)?, false)?.0)), K::Never),
            "repeat" => (format!("G::Star({})", bx(self.expr(self.closure(a(0)?)?, false)?.0)), K::Never),
            "lookahead" => {
                let (x, _) = self.expr(self.closure(a(1)?)?, true)?;
                match t(a(0)?).as_str() {
                    "false" => (format!("G::Not({})", bx(x)), K::Maybe),
                    "true" => (format!("G::And({})", bx(x)), K::Maybe),
                    x => return Err(format!("lookahead {x}")),
                }
            }
            "rule" => {
                let r = t(a(0)?);
                let (x, k) = self.expr(self.closure(a(1)?)?, false)?;
                (format!("G::Tag({r}, {})", bx(x)), k)
            }
            "atomic" => {
                let at = match t(a(0)?).rsplit("::").next().unwrap() {
                    "Atomic" => "At::A",
                    "CompoundAtomic" => "At::C",
                    "NonAtomic" => "At::N",
                    x => return Err(format!("atomicity {x}")),
                };
                let (x, k) = self.expr(self.closure(a(1)?)?, seq)?;
                (format!("G::Atom({at}, {})", bx(x)), k)
            }
            _ => return Err(format!("method {name}")),
        })
    }
    fn block(&self, b: &Block, seq: bool) -> R {
        let mut st: Vec<&Stmt> = b.stmts.iter().collect();
        // a recursion guard that is off unless a limit is set
        if st.len() == 2 && t(st[0]) == "letstate=state.check_stack_limit()?;" {
            st.remove(0);
        }
        if st.len() != 1 {
            return Err(format!("block {}", t(b)));
        }
        match st[0] {
            Stmt::Expr(Expr::If(i), None) => {
                let c = t(&i.cond);
                let els = i.else_branch.as_ref().map(|e| t(&e.1)).unwrap_or_default();
                if c == "state.atomicity()==::pest::Atomicity::NonAtomic" && els == "{Ok(state)}" {
                    let (x, k) = self.block(&i.then_branch, seq)?;
                    return Ok((format!("G::NonAt({})", bx(x)), k));
                }
                Err(format!("if {c}"))
            }
            Stmt::Expr(e, None) => self.expr(e, seq),
            s => Err(format!("statement {}", t(s))),
        }
    }
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        Expr::Block(b) if b.block.stmts.len() == 1 && b.label.is_none() => match &b.block.stmts[0] {
            Stmt::Expr(x, None) if !matches!(x, Expr::If(_)) => strip(x),
            _ => e,
        },
        e => e,
    }
}
fn lit_seq(e: &Expr) -> std::result::Result<String, String> {
    match strip(e) {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Ok(s.value().chars().fold("Seq::<char>::empty()".to_string(), |a, c| format!("{a}.push({c:?})"))),
        e => Err(format!("not a literal: {}", t(e))),
    }
}

/// the names after `prefix` in a text
pub fn mentioned(text: &str, prefix: &str) -> HashSet<String> {
    text.match_indices(prefix)
        .filter(|(i, _)| !text[..*i].ends_with(|c: char| c.is_alphanumeric() || c == '_'))
        .map(|(i, _)| text[i + prefix.len()..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect())
        .collect()
}
pub fn emit(srcs: &HashMap<String, File>, p: &str, known: &HashSet<String>) -> std::result::Result<(String, String), String> {
    let mut path: Vec<&str> = p.split("::").collect();
    let f = srcs.get(path.remove(0)).ok_or("grammar: no such source")?;
    let items = find::module(f, &path)?;
    let parse = items
        .iter()
        .find_map(|i| match i {
            Item::Impl(im) if im.trait_.as_ref().map(|x| x.1.segments.last().map(|s| s.ident == "Parser").unwrap_or(false)).unwrap_or(false) => im.items.iter().find_map(|x| match x {
                ImplItem::Fn(f) if f.sig.ident == "parse" => Some(f),
                _ => None,
            }),
            _ => None,
        })
        .ok_or("grammar: no pest parser")?;
    // the functions of the rules
    let mut fns: Vec<ItemFn> = vec![];
    let mut dispatch: Vec<(String, String)> = vec![];
    for s in &parse.block.stmts {
        match s {
            Stmt::Item(Item::Mod(m)) => collect(m, &mut fns),
            Stmt::Expr(e, None) => {
                // ::pest::state(input, |state| match rule { Rule::x => rules::x(state), .. })
                let Expr::Call(c) = e else { return Err("grammar: entry".into()) };
                if t(&c.func) != "::pest::state" || t(&c.args[0]) != "input" {
                    return Err("grammar: entry call".into());
                }
                let Expr::Closure(cl) = &c.args[1] else { return Err("grammar: entry closure".into()) };
                let Expr::Match(m) = strip(&cl.body) else { return Err("grammar: entry match".into()) };
                if t(&m.expr) != "rule" {
                    return Err("grammar: entry scrutinee".into());
                }
                for a in &m.arms {
                    dispatch.push((t(&a.pat), t(&a.body)));
                }
            }
            _ => {}
        }
    }
    let all: Vec<String> = fns.iter().map(|f| f.sig.ident.to_string()).collect();
    let tr = Tr { names: all.clone(), fns: &fns, known, open: Default::default() };
    let mut bodies: Vec<(String, String)> = vec![];
    for f in &fns {
        let n = f.sig.ident.to_string();
        if f.sig.inputs.len() != 1 {
            return Err(format!("grammar: {n}"));
        }
        if known.contains(&n) || dispatch.iter().any(|d| d.0 == format!("Rule::{n}") && known.contains(&n)) {
            bodies.push((n.clone(), tr.block(&f.block, false).map_err(|e| format!("grammar rule {n}: {e}"))?.0));
        }
    }
    // a rule that calls itself cannot be written out: it keeps its name
    loop {
        let more: Vec<String> = all.iter().filter(|n| !bodies.iter().any(|b| b.0 == **n) && bodies.iter().any(|b| mentioned(&b.1, "Rl::").contains(*n))).cloned().collect();
        if more.is_empty() {
            break;
        }
        for n in more {
            let f = fns.iter().find(|f| f.sig.ident == n).unwrap();
            bodies.push((n.clone(), tr.block(&f.block, false).map_err(|e| format!("grammar rule {n}: {e}"))?.0));
        }
    }
    // a rule the contracts speak of that the grammar no longer has: nothing calls it
    let mut gone: Vec<String> = known.iter().filter(|n| !all.contains(n)).cloned().collect();
    gone.sort();
    for n in gone {
        bodies.push((n, "G::Not(Box::new(G::Opt(Box::new(G::Eoi))))".into()));
    }
    let names: Vec<String> = bodies.iter().map(|b| b.0.clone()).collect();
    let mut out = String::new();
    out.push_str("pub ghost enum Rl { ");
    out.push_str(&names.join(", "));
    out.push_str(" }\n");
    let mut arms = String::new();
    let mut terms: HashMap<String, Expr> = HashMap::new();
    for (n, g) in &bodies {
        out.push_str(&format!("pub open spec fn g_{n}() -> G {{ {g} }}\n"));
        terms.insert(n.clone(), parse_str(g).map_err(|e| format!("grammar term {n}: {e}"))?);
        arms.push_str(&format!("Rl::{n} => g_{n}(), "));
    }
    out.push_str(&format!("pub open spec fn body(r: Rl) -> G {{ match r {{ {arms} }} }}\n"));
    out.push_str(&tables(&names, &terms));
    let mut arms = String::new();
    for (pat, b) in &dispatch {
        let n = b.strip_prefix("rules::").and_then(|x| x.strip_suffix("(state)")).ok_or(format!("grammar: dispatch {b}"))?;
        if names.iter().any(|x| x == n) {
            arms.push_str(&format!("{pat} => Rl::{n}, "));
        }
    }
    arms.push_str(&format!("_ => Rl::{}, ", names[0]));
    out.push_str(&format!("pub open spec fn entry(r: Rule) -> Rl {{ match r {{ {arms} }} }}\n"));
    Ok((out, format!("{{\"path\":\"grammar of {p} ({} rule functions)\",\"trusted\":null,\"loops\":0,\"inlined\":[]}}", names.len())))
}
/// Which rules cannot succeed without taking something, and an order of the rules in which each rule
/// calls only earlier ones before anything is taken.  Both are only claims: ok_all proves them.
fn tables(names: &[String], terms: &HashMap<String, Expr>) -> String {
    let mut nnr: HashMap<&str, bool> = names.iter().map(|n| (n.as_str(), true)).collect();
    loop {
        let mut changed = false;
        for n in names {
            let v = takes(&terms[n], &nnr);
            if nnr[n.as_str()] && !v {
                nnr.insert(n, false);
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    let mut order: Vec<String> = vec![];
    let mut seen: Vec<String> = vec![];
    fn visit(n: &str, terms: &HashMap<String, Expr>, nnr: &HashMap<&str, bool>, seen: &mut Vec<String>, order: &mut Vec<String>) {
        if seen.iter().any(|x| x == n) {
            return;
        }
        seen.push(n.to_string());
        let mut calls = vec![];
        first(&terms[n], nnr, &mut calls);
        for c in calls {
            visit(&c, terms, nnr, seen, order);
        }
        order.push(n.to_string());
    }
    for n in names {
        visit(n, terms, &nnr, &mut seen, &mut order);
    }
    let a: String = names.iter().map(|n| format!("Rl::{n} => {}, ", nnr[n.as_str()])).collect();
    let b: String = order.iter().enumerate().map(|(i, n)| format!("Rl::{n} => {i}, ")).collect();
    let c: String = names.iter().map(|n| format!("Rl::{n} => {{ assert(ok(g_{n}(), rank(Rl::{n}))) by (compute); assert(nnr(Rl::{n}) ==> nn(g_{n}())) by (compute); }} ")).collect();
    let top = order.len();
    format!("pub open spec fn nnr(r: Rl) -> bool {{ match r {{ {a} }} }}\npub open spec fn rank(r: Rl) -> int {{ match r {{ {b} }} }}\npub open spec fn ranks() -> int {{ {top} }}\npub proof fn ok_all(r: Rl) ensures ok(body(r), rank(r)), nnr(r) ==> nn(body(r)), 0 <= rank(r) < ranks() {{ match r {{ {c} }} }}\n")
}
fn ctor(e: &Expr) -> (String, Vec<&Expr>) {
    match e {
        Expr::Call(c) => {
            let f = t(&c.func);
            if f == "Box::new" {
                return ctor(&c.args[0]);
            }
            (f, c.args.iter().collect())
        }
        e => (t(e), vec![]),
    }
}
/// success takes at least one character
fn takes(e: &Expr, nnr: &HashMap<&str, bool>) -> bool {
    let (f, a) = ctor(e);
    match f.as_str() {
        "G::Str" => t(a[0]).contains("push"),
        "G::Rng" | "G::Any" => true,
        "G::Cat" => takes(a[0], nnr) || takes(a[1], nnr),
        "G::Alt" => takes(a[0], nnr) && takes(a[1], nnr),
        "G::Call" => t(a[0]).strip_prefix("Rl::").and_then(|n| nnr.get(n).copied()).unwrap_or(false),
        "G::Tag" | "G::Atom" => takes(a[1], nnr),
        _ => false,
    }
}
/// the rules called before anything is taken
fn first(e: &Expr, nnr: &HashMap<&str, bool>, out: &mut Vec<String>) {
    let (f, a) = ctor(e);
    match f.as_str() {
        "G::Cat" => {
            first(a[0], nnr, out);
            if !takes(a[0], nnr) {
                first(a[1], nnr, out);
            }
        }
        "G::Alt" => {
            first(a[0], nnr, out);
            first(a[1], nnr, out);
        }
        "G::Star" | "G::Opt" | "G::Not" | "G::And" | "G::NonAt" => first(a[0], nnr, out),
        "G::Call" => out.push(t(a[0]).trim_start_matches("Rl::").to_string()),
        "G::Tag" | "G::Atom" => first(a[1], nnr, out),
        _ => {}
    }
}
fn collect(m: &ItemMod, out: &mut Vec<ItemFn>) {
    if let Some((_, items)) = &m.content {
        for i in items {
            match i {
                Item::Fn(f) => out.push(f.clone()),
                Item::Mod(m) => collect(m, out),
                _ => {}
            }
        }
    }
}
