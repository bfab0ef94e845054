//! Source-level rewrites that bring an expanded Rust body into the subset Verus accepts.
//! Every rewrite is meaning-preserving by the definition of the construct it replaces; the helpers
//! they call (`v_*`) carry the contract of the library function they stand for.
use crate::find::Found;
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
pub struct LoopInfo {
    pub id: usize,
    pub it: Option<String>,
    pub acc: Option<String>,
    pub muts: Vec<String>,
}

pub struct Ctx<'a> {
    pub locals: HashSet<String>,
    pub loops: Vec<LoopInfo>,
    pub literals: Vec<String>,
    /// loop variables that count: an invariant ties them to what they run over
    pub counting: HashSet<String>,
    pub inline_fns: &'a HashMap<String, Found>,
    pub inline_methods: &'a HashMap<String, Found>,
    pub exclude: HashSet<String>,
    pub counter: usize,
    pub inline_stack: Vec<String>,
    pub result_mode: bool,
    /// return types of functions and methods of the sources, by name
    pub rets: &'a HashMap<String, String>,
    /// constants by name
    pub consts: &'a HashMap<String, Expr>,
    /// family of the local variables whose initialiser tells it
    pub local_res: HashMap<String, bool>,
    pub errors: Vec<String>,
    pub used: Vec<String>,
}

pub fn strip_parens(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_parens(&p.expr),
        Expr::Group(g) => strip_parens(&g.expr),
        Expr::Block(b) if b.block.stmts.len() == 1 && b.label.is_none() && b.attrs.is_empty() => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => strip_parens(e),
            _ => e,
        },
        e => e,
    }
}

fn path_ends(e: &Expr, names: &[&str]) -> bool {
    if let Expr::Path(p) = e {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        segs.len() >= names.len() && segs[segs.len() - names.len()..].iter().zip(names).all(|(a, b)| a == b)
    } else {
        false
    }
}

/// puts a literal in the place of a name (and of what the name refers to)
struct PutLit(String, Expr);
impl syn::visit_mut::VisitMut for PutLit {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut x = strip_parens(e);
        while let Expr::Unary(u) = x {
            if !matches!(u.op, UnOp::Deref(_)) {
                break;
            }
            x = strip_parens(&u.expr);
        }
        if single_ident(x).as_deref() == Some(self.0.as_str()) {
            *e = self.1.clone();
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

/// no effect, and no way to panic
fn pure(e: &Expr) -> bool {
    match strip_parens(e) {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => pure(&f.base),
        Expr::Reference(r) => r.mutability.is_none() && pure(&r.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_) | UnOp::Deref(_)) && pure(&u.expr),
        Expr::Binary(b) => {
            matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)) && pure(&b.left) && pure(&b.right)
        }
        Expr::Match(m) => pure(&m.expr) && m.arms.iter().all(|a| pure(&a.body) && a.guard.as_ref().map_or(true, |g| pure(&g.1))),
        Expr::If(i) => pure(&i.cond) && matches!(i.then_branch.stmts.as_slice(), [Stmt::Expr(e, None)] if pure(e)) && i.else_branch.as_ref().map_or(true, |b| pure(&b.1)),
        Expr::Block(b) => matches!(b.block.stmts.as_slice(), [Stmt::Expr(e, None)] if pure(e)),
        Expr::Array(a) => a.elems.iter().all(pure),
        Expr::Tuple(a) => a.elems.iter().all(pure),
        Expr::Call(c) => (path_ends(&c.func, &["Some"]) || path_ends(&c.func, &["Ok"])) && c.args.iter().all(pure),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            (n.starts_with("is_") || matches!(n.as_str(), "len" | "as_str" | "as_ref" | "as_slice" | "eq" | "ne" | "contains" | "starts_with" | "ends_with" | "to_string" | "clone" | "iter" | "chars" | "bytes" | "as_bytes" | "first" | "last" | "any" | "all"))
                && pure(&m.receiver)
                && m.args.iter().all(|a| match strip_parens(a) {
                    Expr::Closure(c) => pure(&c.body),
                    a => pure(a),
                })
        }
        _ => false,
    }
}

pub fn single_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => Some(p.path.segments[0].ident.to_string()),
        _ => None,
    }
}

/// parsed `format_args!( "lit", args.. )`
pub struct FormatArgs {
    pub pieces: Vec<Piece>,
    pub args: Vec<Expr>,
}
pub enum Piece {
    Lit(String),
    Arg(usize, bool), // debug?
}

pub fn parse_format(m: &Macro) -> std::result::Result<FormatArgs, String> {
    struct P(Vec<(Option<Ident>, Expr)>);
    impl syn::parse::Parse for P {
        fn parse(i: syn::parse::ParseStream) -> Result<Self> {
            let mut v = vec![];
            while !i.is_empty() {
                let name = if i.peek(Ident) && i.peek2(Token![=]) && !i.peek2(Token![==]) {
                    let n: Ident = i.parse()?;
                    let _: Token![=] = i.parse()?;
                    Some(n)
                } else {
                    None
                };
                v.push((name, i.parse()?));
                if !i.is_empty() {
                    let _: Token![,] = i.parse()?;
                }
            }
            Ok(P(v))
        }
    }
    let p: P = m.parse_body().map_err(|e| e.to_string())?;
    let mut es = p.0;
    if es.is_empty() {
        return Err("format_args without template".into());
    }
    let (_, f) = es.remove(0);
    let lit = match &f {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
        _ => return Err("format template is not a literal".into()),
    };
    let mut args: Vec<Expr> = vec![];
    let mut names: HashMap<String, usize> = HashMap::new();
    for (n, e) in es {
        if let Some(n) = n {
            names.insert(n.to_string(), args.len());
        }
        args.push(e);
    }
    let mut pieces = vec![];
    let mut cur = String::new();
    let c: Vec<char> = lit.chars().collect();
    let mut i = 0;
    let mut next = 0;
    while i < c.len() {
        if c[i] == '{' {
            if i + 1 < c.len() && c[i + 1] == '{' {
                cur.push('{');
                i += 2;
                continue;
            }
            let mut j = i + 1;
            let mut inner = String::new();
            while j < c.len() && c[j] != '}' {
                inner.push(c[j]);
                j += 1;
            }
            let (name, spec) = match inner.split_once(':') {
                Some((a, b)) => (a.trim().to_string(), b.trim().to_string()),
                None => (inner.trim().to_string(), String::new()),
            };
            let debug = match spec.as_str() {
                "" => false,
                "?" => true,
                s => return Err(format!("format specification {s:?}")),
            };
            let idx = if name.is_empty() {
                next += 1;
                next - 1
            } else if let Ok(n) = name.parse::<usize>() {
                n
            } else if let Some(n) = names.get(&name) {
                *n
            } else {
                let id = format_ident!("{}", name);
                args.push(parse_quote!(#id));
                names.insert(name, args.len() - 1);
                args.len() - 1
            };
            if !cur.is_empty() {
                pieces.push(Piece::Lit(std::mem::take(&mut cur)));
            }
            pieces.push(Piece::Arg(idx, debug));
            i = j + 1;
        } else if c[i] == '}' {
            cur.push('}');
            i += 2;
        } else {
            cur.push(c[i]);
            i += 1;
        }
    }
    if !cur.is_empty() {
        pieces.push(Piece::Lit(cur));
    }
    Ok(FormatArgs { pieces, args })
}

struct PatIdents(Vec<String>);
impl<'a> Visit<'a> for PatIdents {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}
pub fn bound_names(b: &Block) -> HashSet<String> {
    let mut v = PatIdents(vec![]);
    v.visit_block(b);
    v.0.into_iter().filter(|s| s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false)).collect()
}
pub fn pat_names(p: &Pat) -> Vec<String> {
    let mut v = PatIdents(vec![]);
    v.visit_pat(p);
    v.0
}

/// outer variables a loop body changes, in order
struct Muts {
    seen: Vec<String>,
    inner: HashSet<String>,
}
fn root_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(_) => single_ident(e),
        Expr::Field(f) => root_ident(&f.base),
        Expr::Index(f) => root_ident(&f.expr),
        Expr::Paren(p) => root_ident(&p.expr),
        Expr::Reference(r) => root_ident(&r.expr),
        Expr::Unary(u) => root_ident(&u.expr),
        _ => None,
    }
}
impl Muts {
    fn add(&mut self, e: &Expr) {
        if let Some(n) = root_ident(e) {
            if !self.inner.contains(&n) && !self.seen.contains(&n) {
                self.seen.push(n);
            }
        }
    }
}
impl<'a> Visit<'a> for Muts {
    fn visit_expr_assign(&mut self, e: &'a ExprAssign) {
        self.add(&e.left);
        syn::visit::visit_expr_assign(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'a ExprBinary) {
        if matches!(e.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_)) {
            self.add(&e.left);
        }
        syn::visit::visit_expr_binary(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'a ExprMethodCall) {
        let m = e.method.to_string();
        if matches!(m.as_str(), "push" | "push_str" | "append" | "extend" | "next" | "v_next" | "insert" | "pop" | "truncate" | "arg" | "args") {
            self.add(&e.receiver);
        }
        syn::visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_reference(&mut self, e: &'a ExprReference) {
        if e.mutability.is_some() {
            self.add(&e.expr);
        }
        syn::visit::visit_expr_reference(self, e);
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.inner.insert(p.ident.to_string());
    }
}

impl<'a> Ctx<'a> {
    fn fresh(&mut self, base: &str) -> Ident {
        self.counter += 1;
        format_ident!("__{}{}", base, self.counter)
    }

    fn err(&mut self, m: String) {
        self.errors.push(m);
    }

    fn new_loop(&mut self, body: &Block, it: Option<String>, acc: Option<String>, extra: &[&Expr]) -> Stmt {
        let id = self.loops.len();
        let mut m = Muts { seen: vec![], inner: bound_names(body) };
        for e in extra {
            m.visit_expr(e);
        }
        m.visit_block(body);
        let ex = self.exclude.clone();
        let muts = m.seen.into_iter().filter(|s| !ex.contains(s) && Some(s) != it.as_ref() && Some(s) != acc.as_ref()).collect();
        self.loops.push(LoopInfo { id, it, acc, muts });
        let inv = format_ident!("__VINV_{}__", id);
        parse_quote!(#inv;)
    }

    fn is_closure1(e: &Expr) -> Option<(&Pat, &Expr)> {
        if let Expr::Closure(c) = strip_parens(e) {
            if c.inputs.len() == 1 {
                return Some((&c.inputs[0], &c.body));
            }
        }
        None
    }

    /// applies `f` (closure or function path) to `arg`
    /// the value of a closure body: its `return` and `?` leave the closure, not the function
    fn closure_body(&mut self, b: &Expr) -> Expr {
        let mut blk: Block = match strip_parens(b) {
            Expr::Block(x) => x.block.clone(),
            e => parse_quote!({ #e }),
        };
        if has_return(&blk) {
            elim_return_block(&mut blk);
        }
        if has_try(&blk) {
            let res = true;
            elim_try_block(&mut blk, res);
        }
        if has_return(&blk) || has_try(&blk) {
            self.err("a closure with an early exit the rewriting does not reach".into());
        }
        Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk })
    }

    fn apply(&mut self, f: &Expr, arg: Expr) -> Expr {
        match strip_parens(f) {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                // a literal takes the place of the parameter
                let mut l = strip_parens(&arg);
                while let Expr::Reference(r) = l {
                    l = strip_parens(&r.expr);
                }
                let mut q = &p;
                while let Pat::Reference(r) = q {
                    q = &r.pat;
                }
                if let (Expr::Lit(ExprLit { lit: Lit::Str(_) | Lit::Char(_), .. }), Pat::Ident(i)) = (l, q) {
                    if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() {
                        let mut body = (*c.body).clone();
                        PutLit(i.ident.to_string(), l.clone()).visit_expr_mut(&mut body);
                        let b = self.closure_body(&body);
                        return parse_quote!({ #b });
                    }
                }
                let b = self.closure_body(&c.body);
                parse_quote!({ let #p = #arg; #b })
            }
            Expr::Closure(c) if c.inputs.is_empty() => {
                let b = self.closure_body(&c.body);
                parse_quote!({ #b })
            }
            // a function of no argument, for the value that is not there
            Expr::Path(p) if matches!(&arg, Expr::Tuple(t) if t.elems.is_empty()) => parse_quote!(#p()),
            Expr::Path(p) => {
                // Type::method on a reference becomes a method-style call resolved by Verus
                parse_quote!(#p(#arg))
            }
            o => {
                self.err(format!("cannot apply {}", o.to_token_stream()));
                arg
            }
        }
    }

    /// is the expression a Result (Some(true)), an Option (Some(false)) or unknown
    fn family(&self, e: &Expr) -> Option<bool> {
        match strip_parens(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "code" | "signal" | "next" | "next_back" | "peek" | "get" | "get_mut" | "first" | "last" | "strip_prefix" | "strip_suffix" | "pop" | "ok" | "err" | "find" | "split_once" | "rsplit_once" | "nth" | "min" | "max"
                    | "position" | "then" | "then_some" | "checked_sub" | "checked_add" | "filter" => Some(false),
                    "output" | "status" | "spawn" | "write_all" | "write_fmt" | "write_str" | "close" | "flush" | "parse" | "map_err" | "ok_or" | "ok_or_else" | "persist" | "keep" => Some(true),
                    "map" | "and_then" | "or_else" | "as_ref" | "as_mut" | "cloned" | "copied" | "or" | "and" | "clone" => self.family(&m.receiver),
                    _ => self.rets.get(&n).and_then(|t| fam_of(t)),
                }
            }
            Expr::Call(c) => {
                if path_ends(&c.func, &["Ok"]) || path_ends(&c.func, &["Err"]) || path_ends(&c.func, &["NamedTempFile", "new"]) {
                    return Some(true);
                }
                if path_ends(&c.func, &["Some"]) {
                    return Some(false);
                }
                match &*c.func {
                    Expr::Path(p) => self.rets.get(&p.path.segments.last().unwrap().ident.to_string()).and_then(|t| fam_of(t)),
                    _ => None,
                }
            }
            Expr::Path(_) => {
                let n = single_ident(strip_parens(e))?;
                if n == "None" {
                    return Some(false);
                }
                self.local_res.get(&n).copied()
            }
            Expr::Match(m) => m.arms.iter().find_map(|a| self.family(&a.body)),
            Expr::If(i) => i.then_branch.stmts.last().and_then(|s| if let Stmt::Expr(e, None) = s { self.family(e) } else { None }),
            Expr::Block(b) => b.block.stmts.last().and_then(|s| if let Stmt::Expr(e, None) = s { self.family(e) } else { None }),
            _ => None,
        }
    }
    fn is_result(&self, e: &Expr) -> bool {
        self.family(e).unwrap_or(self.result_mode)
    }

    fn format_expr(&mut self, m: &Macro) -> Option<Expr> {
        match parse_format(m) {
            Err(e) => {
                self.err(e);
                None
            }
            Ok(f) => {
                let mut stmts: Vec<Stmt> = vec![];
                let mut names = vec![];
                for a in &f.args {
                    let n = self.fresh("fa");
                    let dbg = f.pieces.iter().any(|p| matches!(p, Piece::Arg(i, true) if *i == names.len()));
                    let a2 = strip_parens(a);
                    // nested format_args!("") as argument
                    let inner = match a2 {
                        Expr::Macro(mm) if mm.mac.path.segments.last().unwrap().ident == "format_args" => self.format_expr(&mm.mac)?,
                        Expr::Reference(r) if r.mutability.is_none() => (*r.expr).clone(),
                        e => e.clone(),
                    };
                    if dbg {
                        stmts.push(parse_quote!(let #n = v_debug(&(#inner));));
                    } else {
                        stmts.push(parse_quote!(let #n = v_disp(&(#inner));));
                    }
                    names.push(n);
                }
                let mut acc: Option<Expr> = None;
                for p in &f.pieces {
                    acc = Some(match (acc, p) {
                        (None, Piece::Lit(s)) => parse_quote!(v_str(#s)),
                        (Some(a), Piece::Lit(s)) => parse_quote!(v_cat(#a, #s)),
                        (None, Piece::Arg(i, _)) => {
                            let n = names.get(*i)?;
                            parse_quote!(v_dup(&#n))
                        }
                        (Some(a), Piece::Arg(i, _)) => {
                            let n = names.get(*i)?;
                            parse_quote!(v_cat(#a, &#n))
                        }
                    });
                }
                let r = acc.unwrap_or(parse_quote!(v_str("")));
                Some(parse_quote!({ #(#stmts)* #r }))
            }
        }
    }

    fn inline_body(&mut self, name: &str, f: &Found, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.inline_stack.iter().any(|s| s == name) {
            self.err(format!("recursive function {name} has no contract"));
            return None;
        }
        let mut block = f.block.clone();
        elim_return_block(&mut block);
        if has_try(&block) {
            elim_try_block(&mut block, ret_family(&f.sig));
        }
        if has_return(&block) || has_try(&block) {
            self.err(format!("function {name} without contract has a return inside a loop"));
            return None;
        }
        self.used.push(name.to_string());
        self.locals.extend(bound_names(&block));
        for i in f.sig.inputs.iter() {
            if let FnArg::Typed(t) = i {
                self.locals.extend(pat_names(&t.pat));
            }
        }
        let mut pre: Vec<Stmt> = vec![];
        let mut tmp = vec![];
        let mut ai = 0;
        let mut self_name = None;
        for i in f.sig.inputs.iter() {
            match i {
                FnArg::Receiver(r) => {
                    let s = self.fresh("self");
                    let rc = recv.clone()?;
                    let init: Expr = if r.reference.is_some() {
                        if r.mutability.is_some() {
                            if single_ident(&rc).is_some() {
                                // a `&mut` variable is reborrowed
                                parse_quote!(&mut *#rc)
                            } else {
                                parse_quote!(&mut #rc)
                            }
                        } else {
                            parse_quote!(v_ref(&#rc))
                        }
                    } else {
                        rc
                    };
                    pre.push(parse_quote!(let #s = #init;));
                    self_name = Some(s);
                }
                FnArg::Typed(t) => {
                    let n = self.fresh("arg");
                    let a = args.get(ai)?.clone();
                    let ty = &t.ty;
                    // keep the declared type: it drives the same coercions as the call did
                    if matches!(**ty, Type::ImplTrait(_)) || has_generics(&f.sig) {
                        pre.push(parse_quote!(let #n = #a;));
                    } else {
                        let ty2 = anon_lifetimes(ty);
                        pre.push(parse_quote!(let #n: #ty2 = #a;));
                    }
                    tmp.push((t.pat.clone(), n));
                    ai += 1;
                }
            }
        }
        for (p, n) in tmp {
            pre.push(parse_quote!(let #p = #n;));
        }
        if let Some(s) = self_name {
            struct R(Ident);
            impl VisitMut for R {
                fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                    if p.path.is_ident("self") {
                        p.path = Path::from(self.0.clone());
                    }
                }
                fn visit_macro_mut(&mut self, m: &mut Macro) {
                    let id = self.0.clone();
                    fn sub(ts: proc_macro2::TokenStream, id: &Ident) -> proc_macro2::TokenStream {
                        ts.into_iter()
                            .map(|t| match t {
                                proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(id.clone()),
                                proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), sub(g.stream(), id))),
                                t => t,
                            })
                            .collect()
                    }
                    m.tokens = sub(m.tokens.clone(), &id);
                }
            }
            R(s).visit_block_mut(&mut block);
        }
        let stmts = block.stmts;
        self.inline_stack.push(name.to_string());
        let mut e: Expr = parse_quote!({ #(#pre)* #(#stmts)* });
        self.visit_expr_mut(&mut e);
        self.inline_stack.pop();
        // already visited: protect from a second visit
        Some(Expr::Paren(ExprParen { attrs: vec![parse_quote!(#[v_done])], paren_token: Default::default(), expr: Box::new(e) }))
    }

    fn rewrite(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "format_args" => self.format_expr(&m.mac),
                    _ => {
                        self.err(format!("macro {n}! left in the expansion"));
                        None
                    }
                }
            }
            Expr::Call(c) => {
                if path_ends(&c.func, &["must_use"]) {
                    let a = strip_parens(&c.args[0]).clone();
                    return Some(parse_quote!((#a)));
                }
                for (n, f) in [("replace", "v_mem_replace"), ("take", "v_mem_take"), ("swap", "v_mem_swap")] {
                    if path_ends(&c.func, &["mem", n]) {
                        let f = format_ident!("{f}");
                        let args = &c.args;
                        return Some(parse_quote!(crate::#f(#args)));
                    }
                }
                if path_ends(&c.func, &["fmt", "format"]) {
                    if let Expr::Macro(m) = strip_parens(&c.args[0]) {
                        return self.format_expr(&m.mac);
                    }
                }
                if path_ends(&c.func, &["panicking", "panic_fmt"])
                    || path_ends(&c.func, &["panicking", "panic"])
                    || path_ends(&c.func, &["panicking", "panic_display"])
                    || path_ends(&c.func, &["panicking", "unreachable_display"])
                    || path_ends(&c.func, &["panicking", "unreachable_default_msg"])
                {
                    return Some(parse_quote!(v_panic()));
                }
                if path_ends(&c.func, &["box_assume_init_into_vec_unsafe"]) || path_ends(&c.func, &["into_vec"]) {
                    struct A(Option<ExprArray>);
                    impl<'a> Visit<'a> for A {
                        fn visit_expr_array(&mut self, a: &'a ExprArray) {
                            if self.0.is_none() {
                                self.0 = Some(a.clone());
                            }
                        }
                    }
                    let mut a = A(None);
                    a.visit_expr(&c.args[0]);
                    if let Some(a) = a.0 {
                        return Some(self.vec_lit(&a));
                    }
                }
                if path_ends(&c.func, &["Vec", "new"]) {
                    if let Expr::Path(p) = &*c.func {
                        if p.path.segments.len() > 2 {
                            return Some(parse_quote!(Vec::new()));
                        }
                    }
                }
                if path_ends(&c.func, &["String", "with_capacity"]) {
                    return Some(parse_quote!(String::new()));
                }
                if path_ends(&c.func, &["Vec", "with_capacity"]) {
                    return Some(parse_quote!(Vec::new()));
                }
                if path_ends(&c.func, &["String", "from_utf8_lossy"]) && c.args.len() == 1 {
                    let a = &c.args[0];
                    return Some(parse_quote!(v_lossy(#a)));
                }
                if path_ends(&c.func, &["String", "from"]) && c.args.len() == 1 {
                    let a = &c.args[0];
                    return Some(if matches!(strip_parens(a), Expr::Lit(_)) { parse_quote!(v_str(#a)) } else { parse_quote!(v_str(&(#a))) });
                }
                if let Expr::Path(p) = &*c.func {
                    // `Trait::method(x, ..)`
                    let n = p.path.segments.len();
                    if p.qself.is_none() && n >= 2 && !c.args.is_empty() {
                        let (tr, f) = (p.path.segments[n - 2].ident.to_string(), &p.path.segments[n - 1].ident);
                        let (x, rest) = (&c.args[0], c.args.iter().skip(1).collect::<Vec<_>>());
                        match (tr.as_str(), f.to_string().as_str()) {
                            ("IntoAttribute", "into_attr") | ("DotPrinter", "print") => return Some(parse_quote!((#x).#f(#(#rest),*))),
                            ("ToString", "to_string") | ("ToOwned", "to_owned") | ("Clone", "clone") | ("str", "to_string") | ("String", "as_str") | ("str", "to_owned") => return Some(parse_quote!((#x).#f())),
                            ("Debug", "fmt") if rest.len() == 1 => {
                                let o = rest[0];
                                return Some(parse_quote!((#o).write_str(v_sref(&v_debug(&(#x))))));
                            }
                            ("Display", "fmt") if rest.len() == 1 => {
                                let o = rest[0];
                                return Some(parse_quote!((#o).write_str(v_sref(&v_disp(&(#x))))));
                            }
                            _ => {}
                        }
                    }
                }
                if path_ends(&c.func, &["iter", "once"]) && c.args.len() == 1 {
                    let a = &c.args[0];
                    return Some(parse_quote!(v_once(#a)));
                }
                if let Some(n) = single_ident(&c.func) {
                    if self.locals.contains(&n) && !(self.inline_fns.contains_key(&n) && !self.exclude.contains(&n)) {
                        let f = &c.func;
                        let args = c.args.iter();
                        return Some(parse_quote!(v_call(#f, #(#args),*)));
                    }
                    if let Some(f) = self.inline_fns.get(&n) {
                        let args = c.args.iter().cloned().collect();
                        return self.inline_body(&n, f, None, args);
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                        let n = p.path.segments[1].ident.to_string();
                        if let Some(f) = self.inline_methods.get(&n) {
                            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                            let recv = if f.sig.receiver().is_some() { Some(args.remove(0)) } else { None };
                            return self.inline_body(&n, f, recv, args);
                        }
                    }
                }
                None
            }
            Expr::MethodCall(m) => self.rewrite_method(m),
            Expr::ForLoop(f) => {
                if let Expr::MethodCall(m) = strip_parens(&f.expr) {
                    // `for p in it.map(g)`: the value of g at every element
                    if m.method == "map" && m.args.len() == 1 {
                        let t = self.fresh("el");
                        let app = self.apply(&m.args[0], parse_quote!(#t));
                        let (pat, src, stmts) = (&f.pat, &m.receiver, &f.body.stmts);
                        return Some(parse_quote!(for #t in #src { let #pat = #app; #(#stmts)* }));
                    }
                }
                let n = self.fresh("it");
                let pat = &f.pat;
                let ex = self.iter_source(&f.expr);
                if Self::counts(&f.expr) {
                    self.counting.insert(n.to_string());
                }
                let body = &f.body;
                let inv = self.new_loop(body, Some(n.to_string()), None, &[]);
                let stmts = &body.stmts;
                Some(parse_quote!({
                    let mut #n = #ex;
                    while #n.v_more() { #inv let #pat = #n.v_next(); #(#stmts)* }
                }))
            }
            Expr::While(w) => {
                if let Some(Stmt::Expr(Expr::Path(p), _)) = w.body.stmts.first() {
                    if p.path.segments[0].ident.to_string().starts_with("__VINV_") {
                        return None;
                    }
                }
                if let Expr::Let(l) = &*w.cond {
                    // while let PAT = E  ==> loop with break is not used: only `Some(p) = it.next()`
                    if let (Pat::TupleStruct(ts), Expr::MethodCall(mc)) = (&*l.pat, strip_parens(&l.expr)) {
                        if ts.path.segments.last().unwrap().ident == "Some" && mc.method == "next" && ts.elems.len() == 1 {
                            let it = &mc.receiver;
                            let inv = self.new_loop(&w.body, root_ident(it), None, &[]);
                            let p = &ts.elems[0];
                            let stmts = &w.body.stmts;
                            return Some(parse_quote!(while #it.v_more() { #inv let #p = #it.v_next(); #(#stmts)* }));
                        }
                    }
                    self.err("while let".into());
                    return None;
                }
                let c = &w.cond;
                let inv = self.new_loop(&w.body, peeked(c), None, &[c]);
                let stmts = &w.body.stmts;
                Some(parse_quote!(while #c { #inv #(#stmts)* }))
            }
            Expr::Binary(b) => match b.op {
                BinOp::Eq(_) | BinOp::Ne(_) if text_lit(&b.left).is_some() != text_lit(&b.right).is_some() => {
                    // a text compared with a literal
                    let (x, l) = match text_lit(&b.right) {
                        Some(l) => (&b.left, l),
                        None => (&b.right, text_lit(&b.left).unwrap()),
                    };
                    let mut x = strip_parens(x);
                    while let Expr::Reference(r) = x {
                        x = strip_parens(&r.expr);
                    }
                    let e: Expr = match l {
                        (l, false) => parse_quote!(v_eq(&(#x), #l)),
                        (l, true) => parse_quote!(v_opt_eq(&(#x), #l)),
                    };
                    Some(if matches!(b.op, BinOp::Eq(_)) { e } else { parse_quote!((!#e)) })
                }
                BinOp::AddAssign(_) if stringy(&b.right) => {
                    let (l, r) = (&b.left, &b.right);
                    Some(parse_quote!(v_push(&mut #l, #r)))
                }
                BinOp::AddAssign(_) if matches!(strip_parens(&b.left), Expr::Path(_)) && matches!(strip_parens(&b.right), Expr::Path(_)) => {
                    // text or a number, the types decide
                    let (l, r) = (&b.left, &b.right);
                    Some(parse_quote!(v_add_assign(&mut #l, #r)))
                }
                BinOp::Add(_) if stringy(&b.right) || stringy(&b.left) => {
                    let (l, r) = (&b.left, &b.right);
                    Some(parse_quote!(v_cat(#l, #r)))
                }
                _ => None,
            },
            Expr::Path(p) if p.qself.is_none() => {
                // a constant is its value
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = match segs.len() {
                    1 => segs[0].clone(),
                    n => format!("{}::{}", segs[n - 2], segs[n - 1]),
                };
                if self.locals.contains(&n) {
                    return None;
                }
                let v = self.consts.get(&n).or_else(|| if segs.len() > 1 && segs[segs.len() - 2].starts_with(|c: char| c.is_lowercase()) { self.consts.get(segs.last().unwrap()) } else { None })?.clone();
                Some(parse_quote!((#v)))
            }
            Expr::Match(m) => self.rewrite_str_match(m).or_else(|| split_arms(m)),
            Expr::Index(i) if matches!(strip_parens(&i.index), Expr::Range(ExprRange { limits: RangeLimits::HalfOpen(_), .. })) => {
                let Expr::Range(g) = strip_parens(&i.index) else { return None };
                let x = &i.expr;
                match (&g.start, &g.end) {
                    (Some(a), Some(b)) => Some(parse_quote!((*(#x).v_slice(#a, #b)))),
                    (Some(a), None) => Some(parse_quote!((*(#x).v_from(#a)))),
                    (None, Some(b)) => Some(parse_quote!((*(#x).v_slice(0, #b)))),
                    (None, None) => None,
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => match strip_parens(&r.expr) {
                Expr::Index(i) => match strip_parens(&i.index) {
                    Expr::Range(ExprRange { start: None, end: None, .. }) => {
                        let x = &i.expr;
                        Some(parse_quote!((#x).v_all()))
                    }
                    _ => None,
                },
                _ => None,
            },
            Expr::Loop(l) => {
                if let Some(w) = loop_next(l) {
                    return Some(w);
                }
                self.err("bare loop".into());
                None
            }
            _ => None,
        }
    }

    /// a source that hands out positions
    fn counts(e: &Expr) -> bool {
        match strip_parens(e) {
            Expr::Range(_) => true,
            Expr::MethodCall(m) => m.method == "enumerate",
            _ => false,
        }
    }

    fn iter_source(&mut self, e: &Expr) -> Expr {
        match strip_parens(e) {
            Expr::Reference(r) => {
                let x = &r.expr;
                parse_quote!((#x).v_iter())
            }
            Expr::MethodCall(m) if m.method == "iter" || m.method == "into_iter" => e.clone(),
            Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => {
                let s = self.iter_source(&m.receiver);
                parse_quote!((#s).v_enumerate())
            }
            Expr::MethodCall(m) if m.method == "skip" && m.args.len() == 1 => {
                let (s, n) = (self.iter_source(&m.receiver), &m.args[0]);
                parse_quote!((#s).v_skip(#n))
            }
            Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                let (a, b) = (&r.start, &r.end);
                parse_quote!(v_range(#a, #b))
            }
            Expr::Path(p) => parse_quote!(v_iter_of(#p)),
            o => parse_quote!(v_iter_of(#o)),
        }
    }

    fn vec_lit(&mut self, a: &ExprArray) -> Expr {
        let v = self.fresh("vec");
        let el = a.elems.iter();
        parse_quote!({ let mut #v = Vec::new(); #(#v.push(#el);)* #v })
    }

    /// match on a str with literal patterns
    fn rewrite_str_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        fn lits(p: &Pat) -> Option<Vec<String>> {
            match p {
                Pat::Lit(PatLit { lit: Lit::Str(s), .. }) => Some(vec![s.value()]),
                Pat::Or(o) => {
                    let mut v = vec![];
                    for c in &o.cases {
                        v.extend(lits(c)?);
                    }
                    Some(v)
                }
                Pat::Paren(p) => lits(&p.pat),
                _ => None,
            }
        }
        // Option<&str> with Some("literal")
        fn some_lits(p: &Pat) -> Option<Vec<String>> {
            match p {
                Pat::TupleStruct(t) if t.path.segments.last().unwrap().ident == "Some" && t.elems.len() == 1 => lits(&t.elems[0]),
                Pat::Or(o) => {
                    let mut v = vec![];
                    for c in &o.cases {
                        v.extend(some_lits(c)?);
                    }
                    Some(v)
                }
                _ => None,
            }
        }
        let any = m.arms.iter().any(|a| lits(&a.pat).is_some());
        let any_some = m.arms.iter().any(|a| some_lits(&a.pat).is_some());
        if !any && !any_some {
            return None;
        }
        let s = self.fresh("ms");
        let scrut = &m.expr;
        let mut out: Option<Expr> = None;
        for arm in m.arms.iter().rev() {
            let body = &arm.body;
            let ls = if any { lits(&arm.pat) } else { some_lits(&arm.pat) };
            match ls {
                Some(ls) => {
                    let mut cond: Option<Expr> = None;
                    for l in ls {
                        let c: Expr = if any { parse_quote!(v_eq(#s, #l)) } else { parse_quote!(v_opt_eq(&#s, #l)) };
                        cond = Some(match cond {
                            None => c,
                            Some(p) => parse_quote!(#p || #c),
                        });
                    }
                    let mut cond = cond.unwrap();
                    if let Some((_, g)) = &arm.guard {
                        cond = parse_quote!((#cond) && (#g));
                    }
                    let els = out?;
                    out = Some(parse_quote!(if #cond { #body } else { #els }));
                }
                None => match &arm.pat {
                    Pat::Wild(_) => match &arm.guard {
                        None => out = Some(parse_quote!({ #body })),
                        Some((_, g)) => {
                            let els = out?;
                            out = Some(parse_quote!(if #g { #body } else { #els }))
                        }
                    },
                    Pat::Ident(id) if arm.guard.is_none() && id.subpat.is_none() && id.ident != "None" => out = Some(parse_quote!({ let #id = #s; #body })),
                    Pat::Ident(id) if id.ident == "None" && arm.guard.is_none() => match out {
                        None => out = Some(parse_quote!({ #body })),
                        Some(els) => out = Some(parse_quote!(if #s.is_none() { #body } else { #els })),
                    },
                    _ => {
                        self.err("match on a string with another pattern".into());
                        return None;
                    }
                },
            }
        }
        let o = out?;
        let init: Expr = if any { parse_quote!(v_sref(#scrut)) } else { parse_quote!(#scrut) };
        Some(parse_quote!(match #init { #s => { #o } }))
    }

    fn rewrite_method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let r = &m.receiver;
        let a0 = m.args.first();
        let res = self.is_result(r);
        match name.as_str() {
            "collect" => {
                let inner = match strip_parens(r) {
                    Expr::MethodCall(im) => im,
                    _ => return None,
                };
                let to_string = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().contains("String >") && !t.to_token_stream().to_string().contains("Vec")).unwrap_or(false);
                if to_string {
                    self.err("collect into String".into());
                    return None;
                }
                let it = self.fresh("it");
                let acc = self.fresh("acc");
                if inner.method == "chain" && inner.args.len() == 1 {
                    // one after the other; the first part is there at once
                    let (a, b) = (&inner.receiver, &inner.args[0]);
                    return Some(parse_quote!({ let mut #acc = Vec::new(); #acc.extend(#a); #acc.extend(#b); #acc }));
                }
                if inner.method == "map" {
                    let src = &inner.receiver;
                    let f = inner.args.first()?.clone();
                    if Self::counts(src) {
                        self.counting.insert(it.to_string());
                    }
                    let elem: Expr = parse_quote!(#it.v_next());
                    let app = self.apply(&f, elem);
                    let b: Block = parse_quote!({ let __e = #app; #acc.push(__e); });
                    let inv = self.new_loop(&b, Some(it.to_string()), Some(acc.to_string()), &[]);
                    let st = &b.stmts;
                    let srcx = self.iter_source(src);
                    return Some(parse_quote!({ let mut #it = #srcx; let mut #acc = Vec::new(); while #it.v_more() { #inv #(#st)* } #acc }));
                }
                None
            }
            "last" | "next_back" | "next" if m.args.is_empty() && matches!(strip_parens(r), Expr::MethodCall(i) if i.method == "chars" && i.args.is_empty()) => {
                let Expr::MethodCall(i) = strip_parens(r) else { return None };
                let x = &i.receiver;
                if name == "next" {
                    Some(parse_quote!(v_first(&(#x))))
                } else {
                    Some(parse_quote!(v_last(&(#x))))
                }
            }
            "iter" if m.args.is_empty() => Some(parse_quote!((#r).v_iter())),
            "into_iter" if m.args.is_empty() => Some(parse_quote!((#r).v_into_iter())),
            "join" | "concat" if m.args.len() <= 1 => {
                let sep: Expr = match a0 {
                    Some(e) => match strip_parens(e) {
                        Expr::Reference(r) => {
                            let x = &r.expr;
                            parse_quote!(&(#x))
                        }
                        e => e.clone(),
                    },
                    None => parse_quote!(""),
                };
                let recv: Expr = match strip_parens(r) {
                    // `[a, b, c].join(s)` with the elements written out is their concatenation
                    Expr::Array(a) if !a.elems.is_empty() => {
                        let names: Vec<Ident> = a.elems.iter().map(|_| self.fresh("el")).collect();
                        let vals = a.elems.iter();
                        let s = self.fresh("sep");
                        let first = &names[0];
                        let mut acc: Expr = parse_quote!(v_str(&#first));
                        for n in &names[1..] {
                            acc = parse_quote!(v_cat(v_cat(#acc, #s), &#n));
                        }
                        return Some(parse_quote!({ #(let #names = #vals;)* let #s = #sep; #acc }));
                    }
                    Expr::Array(a) => self.vec_lit(a),
                    e => parse_quote!((#e)),
                };
                Some(parse_quote!(v_join(&#recv, #sep)))
            }
            "push_str" => Some(parse_quote!(v_push(&mut #r, #a0))),
            "push" if matches!(a0.map(strip_parens), Some(Expr::Lit(ExprLit { lit: Lit::Char(_), .. }))) => Some(parse_quote!(v_push_char(&mut #r, #a0))),
            "pop" if m.args.is_empty() => Some(parse_quote!((#r).v_pop())),
            // a copy of an array written out in place
            "to_vec" if matches!(strip_parens(r), Expr::Array(_)) => {
                let Expr::Array(a) = strip_parens(r) else { return None };
                Some(self.vec_lit(a))
            }
            "truncate" if m.args.len() == 1 => Some(parse_quote!((#r).v_truncate(#a0))),
            "ends_with" | "starts_with" if a0.map_or(false, |a| text_lit(a).map_or(false, |l| !l.1)) => {
                let (l, _) = text_lit(a0?).unwrap();
                let v = l.value();
                let mut cs = v.chars();
                if let (Some(c), None) = (cs.next(), cs.next()) {
                    let c = LitChar::new(c, l.span());
                    let f = format_ident!("{}", name);
                    return Some(parse_quote!((#r).#f(#c)));
                }
                let f = format_ident!("{}", if name == "ends_with" { "v_ends" } else { "v_starts" });
                Some(parse_quote!(#f(&(#r), #l)))
            }
            "ends_with" | "starts_with" if !matches!(a0.map(strip_parens), Some(Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))) => { let end = format_ident!("{}", if name == "ends_with" { "v_last" } else { "v_first" }); match strip_parens(a0?) {
                Expr::Closure(c) => {
                    let c = Expr::Closure(c.clone());
                    let t = self.fresh("ch");
                    let app = self.apply(&c, parse_quote!(#t));
                    Some(parse_quote!(match #end(&#r) { Some(#t) => #app, None => false }))
                }
                Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => {
                    let t = self.fresh("ch");
                    Some(parse_quote!(match #end(&#r) { Some(#t) => #t == #c, None => false }))
                }
                Expr::Array(a) => {
                    let t = self.fresh("ch");
                    let el = a.elems.iter();
                    Some(parse_quote!(match #end(&#r) { Some(#t) => false #(|| #t == #el)*, None => false }))
                }
                Expr::Reference(rf) => match strip_parens(&rf.expr) {
                    Expr::Array(a) => {
                        let t = self.fresh("ch");
                        let el = a.elems.iter();
                        Some(parse_quote!(match #end(&#r) { Some(#t) => false #(|| #t == #el)*, None => false }))
                    }
                    _ => None,
                },
                _ => None,
            } },
            "contains" if m.args.len() == 1 && matches!(a0.map(strip_parens), Some(Expr::Lit(ExprLit { lit: Lit::Str(_) | Lit::Char(_), .. }))) => {
                let c = matches!(a0.map(strip_parens), Some(Expr::Lit(ExprLit { lit: Lit::Char(_), .. })));
                let f = format_ident!("{}", if c { "v_has_char" } else { "v_has" });
                Some(parse_quote!(#f(&(#r), #a0)))
            }
            "find" | "position" if m.args.len() == 1 => {
                // over an array written out
                let Expr::MethodCall(i) = strip_parens(r) else { return None };
                let Expr::Array(a) = strip_parens(&i.receiver) else { return None };
                if !i.args.is_empty() || !matches!(i.method.to_string().as_str(), "iter" | "into_iter") {
                    return None;
                }
                let mut e: Expr = parse_quote!(None);
                for (k, x) in a.elems.iter().enumerate().rev() {
                    let x: Expr = if i.method == "iter" { parse_quote!(&#x) } else { x.clone() };
                    let (one, got): (Expr, Expr) = if name == "find" { (self.apply(a0?, parse_quote!(&#x)), x) } else { (self.apply(a0?, x), parse_quote!(#k)) };
                    e = parse_quote!(if #one { Some(#got) } else { #e });
                }
                Some(e)
            }
            "any" | "all" if m.args.len() == 1 => {
                let mut src = strip_parens(r);
                while let Expr::MethodCall(i) = src {
                    if i.args.is_empty() && matches!(i.method.to_string().as_str(), "iter" | "into_iter" | "chars" | "bytes" | "as_bytes" | "keys" | "values" | "copied" | "cloned" | "rev" | "as_slice" | "as_str") {
                        src = strip_parens(&i.receiver);
                    } else {
                        break;
                    }
                }
                if let (Expr::Array(a), Expr::MethodCall(i)) = (src, strip_parens(r)) {
                    // an array written out
                    if i.method == "iter" || i.method == "into_iter" {
                        let any = name == "any";
                        let mut e: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
                        for x in a.elems.iter().rev() {
                            let x: Expr = if i.method == "iter" { parse_quote!(&#x) } else { x.clone() };
                            let one = self.apply(a0?, x);
                            e = if any { parse_quote!(if #one { true } else { #e }) } else { parse_quote!(if #one { #e } else { false }) };
                        }
                        return Some(e);
                    }
                }
                // a question about all elements: either answer is allowed for
                match strip_parens(a0?) {
                    Expr::Closure(c) if pure(src) && pure(&c.body) => Some(parse_quote!(crate::v_arb::<bool>())),
                    Expr::Path(_) if pure(src) => Some(parse_quote!(crate::v_arb::<bool>())),
                    _ => None,
                }
            }
            // a number read from a text: any number, or none
            "parse" if m.args.is_empty() && pure(r) => match &m.turbofish {
                Some(t) => {
                    let a = t.args.first()?;
                    Some(parse_quote!(crate::v_arb::<core::result::Result<#a, ()>>()))
                }
                None => Some(parse_quote!(crate::v_arb::<core::result::Result<_, ()>>())),
            },
            "is_ascii_digit" | "is_ascii_alphabetic" | "is_ascii_alphanumeric" | "is_alphanumeric" | "is_alphabetic" | "is_numeric" | "is_whitespace" | "is_ascii_whitespace" | "is_uppercase" | "is_lowercase"
            | "is_ascii_uppercase" | "is_ascii_lowercase" | "is_ascii_punctuation" | "is_control" | "is_ascii"
                if m.args.is_empty() && pure(r) =>
            {
                Some(parse_quote!(crate::v_arb::<bool>()))
            }
            "repeat" => Some(parse_quote!(v_repeat(#r, #a0))),
            "map" => {
                let t = self.fresh("o");
                let app = self.apply(a0?, parse_quote!(#t));
                if res {
                    Some(parse_quote!(match #r { Ok(#t) => Ok(#app), Err(__e) => Err(__e) }))
                } else {
                    Some(parse_quote!(match #r { Some(#t) => Some(#app), None => None }))
                }
            }
            "map_err" => {
                let t = self.fresh("o");
                let app = self.apply(a0?, parse_quote!(#t));
                Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#t) => Err(#app) }))
            }
            "and_then" => {
                let t = self.fresh("o");
                let app = self.apply(a0?, parse_quote!(#t));
                if res {
                    Some(parse_quote!(match #r { Ok(#t) => #app, Err(__e) => Err(__e) }))
                } else {
                    Some(parse_quote!(match #r { Some(#t) => #app, None => None }))
                }
            }
            "unwrap_or_else" => {
                let t = self.fresh("o");
                let u: Expr = parse_quote!(__e);
                let app = self.apply(a0?, u);
                if res {
                    Some(parse_quote!(match #r { Ok(#t) => #t, Err(__e) => #app }))
                } else {
                    Some(parse_quote!(match #r { Some(#t) => #t, None => #app }))
                }
            }
            "unwrap_or" => {
                let t = self.fresh("o");
                let d = self.fresh("d");
                if res {
                    Some(parse_quote!({ let #d = #a0; match #r { Ok(#t) => #t, Err(_) => #d } }))
                } else if single_ident(a0?).is_some() || matches!(a0?, Expr::Lit(_)) {
                    Some(parse_quote!(match #r { Some(#t) => #t, None => #a0 }))
                } else {
                    Some(parse_quote!({ let #d = #a0; match #r { Some(#t) => #t, None => #d } }))
                }
            }
            "contains" if m.args.len() == 1 => {
                // `[a, b].contains(&x)` with the elements written out
                let r2 = match strip_parens(r) {
                    Expr::Path(_) => self.rewrite(strip_parens(r)),
                    _ => None,
                };
                let arr = match strip_parens(r2.as_ref().unwrap_or(r)) {
                    Expr::Array(a) => a.clone(),
                    Expr::Reference(rf) => match strip_parens(&rf.expr) {
                        Expr::Array(a) => a.clone(),
                        _ => return None,
                    },
                    _ => return None,
                };
                let x = match strip_parens(a0?) {
                    Expr::Reference(rf) => (*rf.expr).clone(),
                    o => parse_quote!(*#o),
                };
                if arr.elems.iter().all(|e| matches!(strip_parens(e), Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))) {
                    let t = self.fresh("in");
                    let x = match strip_parens(a0?) {
                        Expr::Reference(rf) => (*rf.expr).clone(),
                        o => o.clone(),
                    };
                    let el = arr.elems.iter();
                    let x0 = self.fresh("in");
                    let bind: Option<Stmt> = if matches!(strip_parens(&x), Expr::MethodCall(_) | Expr::Call(_)) { Some(parse_quote!(let #x0 = #x;)) } else { None };
                    let x: Expr = if bind.is_some() { parse_quote!(#x0) } else { x };
                    return Some(parse_quote!({ #bind let #t = v_sref(&#x); false #(|| v_eq(#t, #el))* }));
                }
                if arr.elems.iter().all(|e| matches!(strip_parens(e), Expr::Lit(_) | Expr::Path(_))) {
                    let t = self.fresh("in");
                    let el = arr.elems.iter();
                    return Some(parse_quote!({ let #t = #x; false #(|| #t == #el)* }));
                }
                None
            }
            "filter" if m.args.len() == 1 && self.family(r) == Some(false) => {
                let t = self.fresh("o");
                let app = self.apply(a0?, parse_quote!(&#t));
                Some(parse_quote!(match #r { Some(#t) => if #app { Some(#t) } else { None }, None => None }))
            }
            "then" if m.args.len() == 1 => {
                let app = self.apply(a0?, parse_quote!(()));
                Some(parse_quote!(if #r { Some(#app) } else { None }))
            }
            "or_else" if m.args.len() == 1 && self.family(r) == Some(false) => {
                let t = self.fresh("o");
                let app = self.apply(a0?, parse_quote!(()));
                Some(parse_quote!(match #r { Some(#t) => Some(#t), None => #app }))
            }
            "map_or_else" if m.args.len() == 2 && self.family(r) == Some(false) => {
                let t = self.fresh("o");
                let d = self.apply(a0?, parse_quote!(()));
                let app = self.apply(&m.args[1], parse_quote!(#t));
                Some(parse_quote!(match #r { Some(#t) => #app, None => #d }))
            }
            "for_each" if m.args.len() == 1 => {
                let f = match strip_parens(a0?) {
                    Expr::Closure(c) if c.inputs.len() == 1 && !has_return_expr(&c.body) => c.clone(),
                    _ => return None,
                };
                let p = match &f.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let b = &f.body;
                Some(parse_quote!(for #p in #r { #b; }))
            }
            "fold" if m.args.len() == 2 => {
                let f = match strip_parens(&m.args[1]) {
                    Expr::Closure(c) if c.inputs.len() == 2 && !has_return_expr(&c.body) => c.clone(),
                    _ => return None,
                };
                let un = |p: &Pat| match p {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let (pa, px) = (un(&f.inputs[0]), un(&f.inputs[1]));
                let b = &f.body;
                let acc = self.fresh("fold");
                Some(parse_quote!({ let mut #acc = #a0; for #px in #r { let #pa = #acc; #acc = #b; } #acc }))
            }
            "extend" if m.args.len() == 1 => {
                let given: Option<Vec<&Expr>> = match strip_parens(&m.args[0]) {
                    Expr::Array(a) => Some(a.elems.iter().collect()),
                    Expr::Call(c) if c.args.len() == 1 && (path_ends(&c.func, &["iter", "once"]) || single_ident(&c.func).as_deref() == Some("Some")) => Some(vec![&c.args[0]]),
                    _ => None,
                };
                if let Some(g) = given {
                    return Some(parse_quote!({ #(#r.push(#g);)* }));
                }
                if matches!(strip_parens(&m.args[0]), Expr::Call(c) if !path_ends(&c.func, &["v_iter_of"])) {
                    return Some(parse_quote!((#r).v_extend(#a0)));
                }
                let t = self.fresh("ex");
                Some(parse_quote!(for #t in #a0 { #r.push(#t); }))
            }
            "is_none_or" => {
                let t = self.fresh("o");
                let app = self.apply(a0?, parse_quote!(#t));
                Some(parse_quote!(match #r { Some(#t) => #app, None => true }))
            }
            "ok" if m.args.is_empty() && self.family(r) == Some(true) => {
                let t = self.fresh("o");
                Some(parse_quote!(match #r { Ok(#t) => Some(#t), Err(_) => None }))
            }
            "to_lowercase" | "to_ascii_lowercase" if m.args.is_empty() => Some(parse_quote!(v_lower(&(#r)))),
            "eq_ignore_ascii_case" if m.args.len() == 1 => Some(parse_quote!(v_eq_nocase(&(#r), #a0))),
            "write_fmt" if m.args.len() == 1 => {
                if let Expr::Macro(mm) = strip_parens(a0?) {
                    let t = self.format_expr(&mm.mac)?;
                    return Some(parse_quote!((#r).write_str(v_sref(&(#t)))));
                }
                None
            }
            "into_bytes" if m.args.is_empty() => Some(parse_quote!(v_into_bytes(#r))),
            "as_bytes" if m.args.is_empty() => Some(parse_quote!(v_bytes(&(#r)))),
            "strip_suffix" if m.args.len() == 1 => {
                // `x.as_str()` is the same text as `x`; the place outlives the call
                let pl = match strip_parens(r) {
                    Expr::MethodCall(i) if (i.method == "as_str" || i.method == "as_ref") && i.args.is_empty() => strip_parens(&i.receiver).clone(),
                    o => o.clone(),
                };
                let a: Expr = match a0.map(strip_parens) {
                    Some(Expr::Lit(ExprLit { lit: Lit::Char(c), .. })) => {
                        let l = LitStr::new(&c.value().to_string(), c.span());
                        parse_quote!(#l)
                    }
                    Some(o) => o.clone(),
                    None => return None,
                };
                Some(parse_quote!(v_strip_suffix(&(#pl), #a)))
            }
            "map_or" if m.args.len() == 2 => {
                let t = self.fresh("o");
                let d = self.fresh("d");
                let app = self.apply(&m.args[1], parse_quote!(#t));
                Some(parse_quote!({ let #d = #a0; match #r { Some(#t) => #app, None => #d } }))
            }
            "is_some_and" => {
                let t = self.fresh("o");
                let app = self.apply(a0?, parse_quote!(#t));
                Some(parse_quote!(match #r { Some(#t) => #app, None => false }))
            }
            "as_str" | "as_ref" if m.args.is_empty() && matches!(strip_parens(r), Expr::Lit(_)) => Some(parse_quote!(#r)),
            "to_string" | "to_owned" | "into_owned" if m.args.is_empty() => {
                if matches!(strip_parens(r), Expr::Lit(_)) {
                    Some(parse_quote!(v_str(#r)))
                } else {
                    Some(parse_quote!(v_disp(&(#r))))
                }
            }
            "into" if m.args.is_empty() && matches!(strip_parens(r), Expr::Lit(_)) => Some(parse_quote!(v_str(#r))),
            "expect" => Some(parse_quote!((#r).unwrap())),
            _ => {
                if let Some(f) = self.inline_methods.get(&name) {
                    let args = m.args.iter().cloned().collect();
                    return self.inline_body(&name, f, Some((**r).clone()), args);
                }
                None
            }
        }
    }
}

/// a literal, or `Some` of one (true)
fn text_lit(e: &Expr) -> Option<(LitStr, bool)> {
    match strip_parens(e) {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some((s.clone(), false)),
        Expr::Reference(r) => text_lit(&r.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => text_lit(expr),
        Expr::Call(c) if c.args.len() == 1 && single_ident(&c.func).as_deref() == Some("Some") => text_lit(&c.args[0]).map(|l| (l.0, true)),
        _ => None,
    }
}

fn bound(p: &Pat) -> Vec<Ident> {
    struct B(Vec<Ident>);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            if i.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') {
                self.0.push(i.ident.clone());
            }
        }
    }
    let mut b = B(vec![]);
    b.visit_pat(p);
    b.0
}
fn binds(p: &Pat) -> bool {
    !bound(p).is_empty()
}

/// `A { x } | B { x } => e` as two arms: the verifier does not take alternatives that bind mutably
fn split_arms(m: &ExprMatch) -> Option<Expr> {
    struct L(bool);
    impl<'a> Visit<'a> for L {
        fn visit_expr(&mut self, e: &'a Expr) {
            self.0 |= matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_));
            visit::visit_expr(self, e);
        }
    }
    let splits = |a: &Arm| {
        let mut l = L(false);
        l.visit_expr(&a.body);
        matches!(&a.pat, Pat::Or(_)) && binds(&a.pat) && !l.0 && a.body.to_token_stream().to_string().len() < 300
    };
    if !m.arms.iter().any(splits) {
        return None;
    }
    let mut m = m.clone();
    m.arms = m.arms.iter().flat_map(|a| match &a.pat {
        Pat::Or(o) if splits(a) => o.cases.iter().map(|p| Arm { pat: p.clone(), comma: Some(Default::default()), ..a.clone() }).collect(),
        _ => vec![a.clone()],
    }).collect();
    Some(Expr::Match(m))
}

fn fam_of(t: &str) -> Option<bool> {
    let t: String = t.chars().filter(|c| !c.is_whitespace()).collect();
    let head = t.split('<').next().unwrap_or("").rsplit("::").next().unwrap_or("").to_string();
    match head.as_str() {
        "Result" => Some(true),
        "Option" => Some(false),
        _ => None,
    }
}

fn has_generics(s: &Signature) -> bool {
    s.generics.params.iter().any(|p| !matches!(p, GenericParam::Lifetime(_)))
}

fn anon_lifetimes(t: &Type) -> Type {
    struct L;
    impl VisitMut for L {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
    }
    let mut t = t.clone();
    L.visit_type_mut(&mut t);
    t
}

/// `loop { match it.next() { Some(p) => body, None => break } }` and the like: `while let Some(p) = it.next() { body }`
fn loop_next(l: &ExprLoop) -> Option<Expr> {
    fn next(e: &Expr) -> Option<&Expr> {
        match strip_parens(e) {
            x @ Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() => Some(x),
            _ => None,
        }
    }
    fn leaves(e: &Expr) -> bool {
        match e {
            Expr::Break(b) => b.expr.is_none() && b.label.is_none(),
            Expr::Block(b) => b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], Stmt::Expr(e, _) if leaves(e)),
            _ => false,
        }
    }
    if l.label.is_some() {
        return None;
    }
    let st = &l.body.stmts;
    match st.first()? {
        Stmt::Expr(Expr::Match(m), _) if st.len() == 1 && m.arms.len() == 2 => {
            let it = next(&m.expr)?;
            let k = m.arms.iter().position(|a| leaves(&a.body) && (matches!(&a.pat, Pat::Wild(_)) || a.pat.to_token_stream().to_string() == "None"))?;
            let (p, b) = (&m.arms[1 - k].pat, &m.arms[1 - k].body);
            if m.arms.iter().any(|a| a.guard.is_some()) || k == 0 && matches!(&m.arms[0].pat, Pat::Wild(_)) {
                return None;
            }
            Some(parse_quote!(while let #p = #it { #b; }))
        }
        Stmt::Expr(Expr::If(i), _) if st.len() == 1 => {
            let Expr::Let(c) = &*i.cond else { return None };
            let it = next(&c.expr)?;
            if !leaves(&i.else_branch.as_ref()?.1) {
                return None;
            }
            let (p, b) = (&c.pat, &i.then_branch.stmts);
            Some(parse_quote!(while let #p = #it { #(#b)* }))
        }
        Stmt::Local(lo) => {
            let init = lo.init.as_ref()?;
            let it = next(&init.expr)?;
            if !leaves(&init.diverge.as_ref()?.1) {
                return None;
            }
            let (p, b) = (&lo.pat, &st[1..]);
            Some(parse_quote!(while let #p = #it { #(#b)* }))
        }
        _ => None,
    }
}

/// `while x.peek().is_some()`: the iterator x
fn peeked(c: &Expr) -> Option<String> {
    if let Expr::MethodCall(m) = strip_parens(c) {
        if m.method == "is_some" {
            if let Expr::MethodCall(p) = strip_parens(&m.receiver) {
                if p.method == "peek" {
                    return root_ident(&p.receiver);
                }
            }
        }
    }
    None
}
fn stringy(e: &Expr) -> bool {
    match strip_parens(e) {
        Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
        Expr::Reference(r) => r.mutability.is_none(),
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "to_string" | "as_str" | "join" | "print" | "to_owned"),
        Expr::Call(c) => path_ends(&c.func, &["must_use"]) || path_ends(&c.func, &["v_cat"]) || path_ends(&c.func, &["v_str"]) || path_ends(&c.func, &["String", "new"]) || path_ends(&c.func, &["String", "from"]),
        Expr::Binary(b) => matches!(b.op, BinOp::Add(_)) && (stringy(&b.left) || stringy(&b.right)),
        _ => false,
    }
}

impl<'a> VisitMut for Ctx<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Paren(p) = e {
            if !p.attrs.is_empty() {
                p.attrs.clear();
                return;
            }
        }
        let mut n = 0;
        while let Some(x) = self.rewrite(e) {
            *e = x;
            n += 1;
            if n > 50 {
                self.err("rewrite loop".into());
                break;
            }
            if let Expr::Paren(p) = e {
                if !p.attrs.is_empty() {
                    p.attrs.clear();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let mac = m.mac.clone();
            *s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac }), m.semi_token);
        }
        if let Stmt::Local(l) = s {
            // `let (A { x } | B { x }) = e;`
            let pat = match &l.pat {
                Pat::Paren(p) => (*p.pat).clone(),
                p => p.clone(),
            };
            if let (Pat::Or(o), Some(init)) = (&pat, &l.init) {
                let names = bound(&o.cases[0]);
                if init.diverge.is_none() && !names.is_empty() {
                    let e = &init.expr;
                    let arms: Vec<Arm> = o.cases.iter().map(|c| parse_quote!(#c => (#(#names),*),)).collect();
                    *s = parse_quote!(let (#(#names),*) = match #e { #(#arms)* };);
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_lit_mut(&mut self, l: &mut ExprLit) {
        if let Lit::Str(s) = &l.lit {
            let v = s.value();
            if !self.literals.contains(&v) {
                self.literals.push(v);
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        // fully qualified library and crate paths: keep the last two segments at most
        let n = p.segments.len();
        if p.leading_colon.is_some() || (n >= 2 && matches!(p.segments[0].ident.to_string().as_str(), "crate" | "super" | "std" | "core" | "alloc" | "io" | "self")) {
            let keep = if n >= 2 && p.segments[n - 2].ident.to_string().chars().next().unwrap().is_uppercase() { 2 } else { 1 };
            let segs: Vec<PathSegment> = p.segments.iter().skip(n - keep).cloned().collect();
            p.leading_colon = None;
            p.segments = segs.into_iter().collect();
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_if_mut(&mut self, e: &mut ExprIf) {
        e.attrs.clear();
        visit_mut::visit_expr_if_mut(self, e);
    }
    fn visit_expr_match_mut(&mut self, e: &mut ExprMatch) {
        e.attrs.clear();
        visit_mut::visit_expr_match_mut(self, e);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        // binding modes on a matched place: `ref` is what default binding would do on a reference
        visit_mut::visit_pat_ident_mut(self, p);
    }
}

// ---- return elimination ----

pub fn has_return(b: &Block) -> bool {
    struct H(bool);
    impl<'a> Visit<'a> for H {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut h = H(false);
    h.visit_block(b);
    h.0
}

fn has_return_expr(e: &Expr) -> bool {
    expr_has_return(e)
}
fn expr_has_return(e: &Expr) -> bool {
    let b: Block = parse_quote!({ #e });
    has_return(&b)
}

/// rewrites tail `return e` and `if c { ..return x; } rest` into expression form
pub fn elim_return_block(b: &mut Block) {
    // trailing `return x;`
    let n = b.stmts.len();
    for i in 0..n {
        let is_last = i + 1 == n;
        match &b.stmts[i] {
            Stmt::Expr(Expr::Return(r), _) => {
                let v: Expr = match &r.expr {
                    Some(e) => (**e).clone(),
                    None => parse_quote!(()),
                };
                b.stmts.truncate(i);
                b.stmts.push(Stmt::Expr(v, None));
                elim_tail(b);
                return;
            }
            Stmt::Expr(Expr::If(f), _) if !is_last && diverges(&f.then_branch) && expr_has_return(&Expr::If(f.clone())) => {
                let mut f = f.clone();
                let mut rest: Block = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                if let Some((_, els)) = &f.else_branch {
                    let els = els.clone();
                    rest.stmts.insert(0, Stmt::Expr(*els, Some(Default::default())));
                }
                elim_return_block(&mut f.then_branch);
                elim_return_block(&mut rest);
                let c = &f.cond;
                let t = &f.then_branch;
                let e: Expr = parse_quote!(if #c #t else #rest);
                b.stmts.truncate(i);
                b.stmts.push(Stmt::Expr(e, None));
                return;
            }
            _ => {}
        }
    }
    elim_tail(b);
}

fn diverges(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

fn elim_tail(b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        elim_tail_expr(e);
    }
}
fn elim_tail_expr(e: &mut Expr) {
    match e {
        Expr::Return(r) => {
            if let Some(x) = &r.expr {
                *e = (**x).clone();
                elim_tail_expr(e);
            }
        }
        Expr::If(f) => {
            if f.else_branch.is_some() {
                elim_return_block(&mut f.then_branch);
                if let Some((_, x)) = &mut f.else_branch {
                    elim_tail_expr(x);
                }
            }
        }
        Expr::Block(x) => elim_return_block(&mut x.block),
        Expr::Match(m) => {
            for a in &mut m.arms {
                elim_tail_expr(&mut a.body);
            }
        }
        _ => {}
    }
}

// ---- `?` elimination ----

/// does the function return a Result (true) or an Option?
pub fn ret_family(s: &Signature) -> bool {
    match &s.output {
        ReturnType::Type(_, t) => fam_of(&t.to_token_stream().to_string()).unwrap_or(true),
        _ => true,
    }
}

pub fn has_try(b: &Block) -> bool {
    struct H(bool);
    impl<'a> Visit<'a> for H {
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut h = H(false);
    h.visit_block(b);
    h.0
}

/// takes the `?` that is evaluated first in `e` out of it: the operand, with `name` left in its place
fn take_first_try(e: &mut Expr, name: &Ident) -> Option<Expr> {
    if !expr_has_try(e) {
        return None;
    }
    match e {
        Expr::Try(t) => {
            if expr_has_try(&t.expr) {
                return take_first_try(&mut t.expr, name);
            }
            let x = (*t.expr).clone();
            *e = parse_quote!(#name);
            Some(x)
        }
        Expr::Paren(p) => take_first_try(&mut p.expr, name),
        Expr::Field(f) => take_first_try(&mut f.base, name),
        Expr::Reference(r) => take_first_try(&mut r.expr, name),
        Expr::Unary(u) => take_first_try(&mut u.expr, name),
        Expr::MethodCall(m) => {
            if expr_has_try(&m.receiver) {
                return take_first_try(&mut m.receiver, name);
            }
            if !inert(&m.receiver) {
                return None;
            }
            first_of(m.args.iter_mut(), name)
        }
        Expr::Call(c) => first_of(c.args.iter_mut(), name),
        Expr::Match(m) => take_first_try(&mut m.expr, name),
        Expr::Let(l) => take_first_try(&mut l.expr, name),
        _ => None,
    }
}
fn first_of<'a>(it: impl Iterator<Item = &'a mut Expr>, name: &Ident) -> Option<Expr> {
    for a in it {
        if expr_has_try(a) {
            return take_first_try(a, name);
        }
        if !inert(a) {
            return None;
        }
    }
    None
}
fn inert(e: &Expr) -> bool {
    match strip_parens(e) {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Reference(r) => inert(&r.expr),
        Expr::Field(f) => inert(&f.base),
        _ => false,
    }
}
fn expr_has_try(e: &Expr) -> bool {
    let b: Block = parse_quote!({ #e });
    has_try(&b)
}

/// `let p = e?; rest` is `match e { Ok(v) => { let p = v; rest }, Err(e) => Err(e) }` when the block is
/// the value of its function or closure.  (The error conversion is the identity where the types agree;
/// where they do not, the result does not typecheck.)
pub fn elim_try_block(b: &mut Block, res: bool) {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let n = b.stmts.len();
    for i in 0..n {
        let one: Block = Block { brace_token: Default::default(), stmts: vec![b.stmts[i].clone()] };
        if !has_try(&one) {
            continue;
        }
        let is_last = i + 1 == n;
        let name = format_ident!("__t{}", N.fetch_add(1, Ordering::Relaxed));
        let mut st = b.stmts[i].clone();
        // a tail expression that only branches
        if is_last {
            if let Stmt::Expr(e, None) = &mut st {
                let scrut_clean = match &*e {
                    Expr::If(f) => !expr_has_try(&f.cond),
                    Expr::Match(m) => !expr_has_try(&m.expr),
                    Expr::Block(_) => true,
                    _ => false,
                };
                if scrut_clean {
                    elim_try_tail(e, res);
                    b.stmts[i] = st;
                    return;
                }
                if let Expr::Try(t) = e {
                    // `e?` as the tail is not itself a Result
                    let _ = t;
                }
            }
        } else if let Stmt::Expr(Expr::If(f), _) = &st {
            if !expr_has_try(&f.cond) {
                // both branches continue with the rest
                let rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
                let mut f = f.clone();
                let semi = |e: &Expr| Stmt::Expr(e.clone(), Some(Default::default()));
                if let Some(Stmt::Expr(e, None)) = f.then_branch.stmts.last().cloned() {
                    *f.then_branch.stmts.last_mut().unwrap() = semi(&e);
                }
                f.then_branch.stmts.extend(rest.clone());
                let mut els: Block = match &f.else_branch {
                    None => parse_quote!({}),
                    Some((_, e)) => Block { brace_token: Default::default(), stmts: vec![semi(e)] },
                };
                els.stmts.extend(rest);
                elim_try_block(&mut f.then_branch, res);
                elim_try_block(&mut els, res);
                let (c, t) = (&f.cond, &f.then_branch);
                let e: Expr = parse_quote!(if #c #t else #els);
                b.stmts.truncate(i);
                b.stmts.push(Stmt::Expr(e, None));
                return;
            }
        }
        let got = match &mut st {
            Stmt::Local(l) => match &mut l.init {
                Some(init) if init.diverge.is_none() => take_first_try(&mut init.expr, &name),
                _ => None,
            },
            Stmt::Expr(e, _) => {
                if let Expr::If(f) = e {
                    take_first_try(&mut f.cond, &name)
                } else {
                    take_first_try(e, &name)
                }
            }
            _ => None,
        };
        let Some(x) = got else { return };
        let mut rest: Block = Block { brace_token: Default::default(), stmts: vec![st] };
        rest.stmts.extend(b.stmts[i + 1..].to_vec());
        elim_try_block(&mut rest, res);
        let rs = &rest.stmts;
        let e: Expr = if res {
            parse_quote!(match #x { Ok(#name) => { #(#rs)* } Err(__err) => Err(__err) })
        } else {
            parse_quote!(match #x { Some(#name) => { #(#rs)* } None => None })
        };
        b.stmts.truncate(i);
        b.stmts.push(Stmt::Expr(e, None));
        return;
    }
}
fn elim_try_tail(e: &mut Expr, res: bool) {
    match e {
        Expr::If(f) => {
            elim_try_block(&mut f.then_branch, res);
            if let Some((_, x)) = &mut f.else_branch {
                elim_try_tail(x, res);
            }
        }
        Expr::Block(b) => elim_try_block(&mut b.block, res),
        Expr::Match(m) => {
            for a in &mut m.arms {
                let body = &a.body;
                let mut b: Block = match strip_parens(body) {
                    Expr::Block(x) => x.block.clone(),
                    x => parse_quote!({ #x }),
                };
                elim_try_block(&mut b, res);
                a.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
            }
        }
        _ => {}
    }
}
