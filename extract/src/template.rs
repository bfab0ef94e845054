//! Template expansion.
//!
//! Lines starting with `//@` are directives, everything else is copied.
//!   //@fn <path>                 start of a function under contract
//!   //@sig a, b                  canonical parameter names (`self` included), in order
//!   //@ret r                     name of the result
//!   //@opt result                `map`/`and_then` in this body are on Result
//!   //@spec / //@pre / //@post / //@loop [n|*]   sections (several //@loop: alternatives)
//!   //@end
//!   //@item <path>               a struct or enum, fields made public, derives dropped
//!   //@subst <A> => <B>          textual type substitution applied to items and signatures
//!   //@inline <module path>      uncontracted functions of that module may be inlined
//!   //@grammar <module path>     PEG functions generated from pest's expanded rules
use crate::desugar::{self, Ctx};
use crate::find::{self, find_fn, find_item, squash, Found};
use crate::print;
use quote::{format_ident, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default)]
struct FnSpec {
    path: String,
    sig: Vec<String>,
    ret: Option<String>,
    opts: Vec<String>,
    spec: String,
    pre: String,
    post: String,
    loops: Vec<(String, String)>,
}

pub fn expand(srcs: &HashMap<String, File>, tpath: &str, trust: &[String]) -> std::result::Result<(String, String), String> {
    let text = expand_cat(&read_template(tpath)?);
    let mut contracted: HashSet<String> = HashSet::new();
    let mut inline_mods: Vec<String> = vec![];
    for l in text.lines() {
        let l = l.trim();
        if let Some(p) = l.strip_prefix("//@fn ") {
            contracted.insert(p.trim().to_string());
        }
        if let Some(p) = l.strip_prefix("//@inline ") {
            inline_mods.push(p.trim().to_string());
        }
    }
    let mut inline_fns: HashMap<String, Found> = HashMap::new();
    let mut inline_methods: HashMap<String, Found> = HashMap::new();
    for m in &inline_mods {
        collect_inline(srcs, m, &contracted, &mut inline_fns, &mut inline_methods)?;
    }
    let mut out = String::new();
    let mut substs: Vec<(String, String)> = vec![];
    let mut info: Vec<String> = vec![];
    let mut allpre = String::new();
    let mut lines = text.lines().peekable();
    while let Some(l) = lines.next() {
        let t = l.trim();
        if let Some(p) = t.strip_prefix("//@fn ") {
            let mut fs = FnSpec { path: p.trim().to_string(), pre: allpre.clone(), ..Default::default() };
            let mut section = String::new();
            loop {
                let l = lines.next().ok_or("unterminated //@fn")?;
                let t = l.trim();
                if t == "//@end" {
                    break;
                } else if let Some(x) = t.strip_prefix("//@sig ") {
                    fs.sig = x.split(',').map(|s| s.trim().to_string()).collect();
                } else if let Some(x) = t.strip_prefix("//@ret ") {
                    fs.ret = Some(x.trim().to_string());
                } else if let Some(x) = t.strip_prefix("//@opt ") {
                    fs.opts.push(x.trim().to_string());
                } else if let Some(x) = t.strip_prefix("//@") {
                    section = x.trim().to_string();
                    if section.starts_with("loop") {
                        let k = section[4..].trim().to_string();
                        fs.loops.push((if k.is_empty() { "*".into() } else { k }, String::new()));
                    }
                } else {
                    let dst = match section.as_str() {
                        "spec" => &mut fs.spec,
                        "pre" => &mut fs.pre,
                        "post" => &mut fs.post,
                        s if s.starts_with("loop") => &mut fs.loops.last_mut().unwrap().1,
                        "" => continue,
                        s => return Err(format!("unknown section {s}")),
                    };
                    dst.push_str(l);
                    dst.push('\n');
                }
            }
            let (txt, inf) = match emit_fn(srcs, &fs, &substs, &inline_fns, &inline_methods, trust) {
                // a free function or inherent method that is gone: nothing to hold to its contract; callers are held to theirs
                Err(e) if e.contains("lost anchor: function") && !fs.path.contains(" for ") => {
                    (String::new(), format!("{{\"path\":{:?},\"trusted\":\"gone from the source\",\"loops\":0,\"inlined\":[]}}", fs.path))
                }
                r => r?,
            };
            out.push_str(&format!("//@@BEGIN {}\n", fs.path));
            out.push_str(&txt);
            out.push_str(&format!("\n//@@END {}\n", fs.path));
            info.push(inf);
        } else if let Some(p) = t.strip_prefix("//@item ") {
            let mut it = find_item(srcs, p.trim())?.clone();
            if let (Item::Enum(e), true) = (&mut it, p.trim().ends_with("::Rule") && text.contains("//@grammar ")) {
                // a rule the contracts speak of that the grammar no longer has: one more variant, which nothing makes
                let mut more: Vec<String> = crate::grammar::mentioned(&text, "Rule::").into_iter().filter(|n| !e.variants.iter().any(|v| v.ident == n)).collect();
                more.sort();
                for n in more {
                    let n = format_ident!("{}", n);
                    e.variants.push(parse_quote!(#n));
                }
            }
            if derives_eq(srcs, p.trim(), &it) {
                out.push_str("#[derive(PartialEq, Eq, Structural, Clone, Copy)]\n");
            }
            out.push_str(&emit_item(it, &substs));
            out.push('\n');
        } else if let Some(p) = t.strip_prefix("//@debug ") {
            let (txt, inf) = emit_debug(srcs, p.trim())?;
            out.push_str(&txt);
            info.push(inf);
        } else if let Some(p) = t.strip_prefix("//@subst ") {
            let (a, b) = p.split_once("=>").ok_or("bad subst")?;
            substs.push((squash(a), b.trim().to_string()));
        } else if let Some(p) = t.strip_prefix("//@allpre ") {
            allpre = format!("{}\n", p);
        } else if let Some(p) = t.strip_prefix("//@grammar ") {
            let (txt, inf) = crate::grammar::emit(srcs, p.trim(), &crate::grammar::mentioned(&text, "Rl::"))?;
            out.push_str(&txt);
            info.push(inf);
        } else if t.starts_with("//@ctors ") {
            let mut w = t.strip_prefix("//@ctors ").unwrap().split_whitespace();
            let (path, label) = (w.next().unwrap(), w.next().unwrap_or(""));
            let (txt, inf) = emit_ctors(srcs, path, &substs, &allpre, label, &inline_fns, &inline_methods, trust)?;
            out.push_str(&txt);
            info.extend(inf);
        } else if t.starts_with("//@inline ") {
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    // what the characters of each literal are, proved once
    let mut lem = String::new();
    let ls = LITS.lock().unwrap().clone();
    for (n, l) in ls.iter().enumerate() {
        let q = proc_macro2::Literal::string(l).to_string();
        let t = l.chars().fold("nil()".to_string(), |a, c| if a == "nil()" { format!("ch({})", proc_macro2::Literal::character(c)) } else { format!("cat({}, ch({}))", a, proc_macro2::Literal::character(c)) });
        lem.push_str(&format!("pub proof fn lit_{n}() ensures {q}@ == {t} {{ reveal_strlit({q}); reveal(cat); reveal(ch); reveal(nil); assert({q}@ =~= {t}); }}\n"));
    }
    if let Some(i) = out.rfind("} // verus!") {
        out.insert_str(i, &lem);
    }
    let json = format!("[{}]", info.join(",\n"));
    Ok((out, json))
}

static LITS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
fn lit_id(l: &str) -> usize {
    let mut v = LITS.lock().unwrap();
    match v.iter().position(|x| x == l) {
        Some(i) => i,
        None => {
            v.push(l.to_string());
            v.len() - 1
        }
    }
}

/// `cat![a, b, c]` in a template is `cat(cat(a, b), c)`
fn expand_cat(s: &str) -> String {
    let mut s = s.to_string();
    while let Some(i) = s.rfind("cat![") {
        let c: Vec<char> = s[i + 5..].chars().collect();
        let (mut d, mut j, mut parts, mut cur) = (0i32, 0usize, vec![], String::new());
        let mut q = false;
        loop {
            let x = c[j];
            if q {
                cur.push(x);
                if x == '"' {
                    q = false;
                }
            } else if x == '"' {
                q = true;
                cur.push(x);
            } else if d == 0 && x == ']' {
                break;
            } else if d == 0 && x == ',' {
                parts.push(std::mem::take(&mut cur));
            } else {
                if "([{".contains(x) {
                    d += 1;
                } else if ")]}".contains(x) {
                    d -= 1;
                }
                cur.push(x);
            }
            j += 1;
        }
        parts.push(cur);
        let parts: Vec<String> = parts.iter().map(|p| p.trim().to_string()).filter(|p| !p.is_empty()).collect();
        let mut acc = parts[0].clone();
        for p in &parts[1..] {
            acc = format!("cat({}, {})", acc, p);
        }
        let len: usize = c[..=j].iter().map(|x| x.len_utf8()).sum();
        s = format!("{}{}{}", &s[..i], acc, &s[i + 5 + len..]);
    }
    s
}

fn read_template(p: &str) -> std::result::Result<String, String> {
    let dir = std::path::Path::new(p).parent().unwrap().to_path_buf();
    let mut out = String::new();
    for l in std::fs::read_to_string(p).map_err(|e| format!("read {p}: {e}"))?.lines() {
        if let Some(i) = l.trim().strip_prefix("//@include ") {
            out.push_str(&read_template(dir.join(i.trim()).to_str().unwrap())?);
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    Ok(out)
}

/// a private trait of the module
fn own_trait(items: &[&Item], p: &Path) -> bool {
    p.segments.len() == 1 && items.iter().any(|i| matches!(i, Item::Trait(t) if t.ident == p.segments[0].ident && matches!(t.vis, Visibility::Inherited)))
}

fn collect_inline(srcs: &HashMap<String, File>, m: &str, contracted: &HashSet<String>, fns: &mut HashMap<String, Found>, methods: &mut HashMap<String, Found>) -> std::result::Result<(), String> {
    let segs: Vec<&str> = m.split("::").collect();
    let f = srcs.get(segs[0]).ok_or("no source")?;
    let items = find::module(f, &segs[1..])?;
    for i in items.iter().copied() {
        match i {
            Item::Fn(x) => {
                let n = x.sig.ident.to_string();
                if !contracted.contains(&format!("{m}::{n}")) {
                    fns.insert(n, Found { sig: x.sig.clone(), block: (*x.block).clone(), impl_self: None, impl_trait: None });
                }
            }
            Item::Impl(im) if im.trait_.is_none() || im.trait_.as_ref().map(|t| own_trait(&items, &t.1)).unwrap_or(false) => {
                for ii in &im.items {
                    if let ImplItem::Fn(x) = ii {
                        let n = x.sig.ident.to_string();
                        if (contracted.iter().any(|c| c.ends_with(&format!("::{n}"))) || im.trait_.is_some() && methods.contains_key(&n)) {
                            methods.remove(&n);
                            continue;
                        }
                        let path = format!("{m}::<{}>::{n}", find::header(im));
                        if !contracted.iter().any(|c| squash(c) == squash(&path)) {
                            methods.insert(n, Found { sig: x.sig.clone(), block: x.block.clone(), impl_self: Some((*im.self_ty).clone()), impl_trait: None });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// constants the function can name: of its module, of its impl and its own
fn consts_of(srcs: &HashMap<String, File>, path: &str, block: &Block) -> HashMap<String, Expr> {
    let mut m = HashMap::new();
    let ps = find::parse_path(path);
    let mods: Vec<&str> = ps.module.iter().map(|s| s.as_str()).collect();
    let mut add = |m: &mut HashMap<String, Expr>, i: &Item| match i {
        Item::Const(c) => {
            m.insert(c.ident.to_string(), (*c.expr).clone());
        }
        Item::Static(c) if matches!(c.mutability, StaticMutability::None) => {
            m.insert(c.ident.to_string(), (*c.expr).clone());
        }
        Item::Impl(im) if im.trait_.is_none() => {
            for x in &im.items {
                if let ImplItem::Const(c) = x {
                    m.insert(format!("Self::{}", c.ident), c.expr.clone());
                    m.insert(format!("{}::{}", find::header(im), c.ident), c.expr.clone());
                }
            }
        }
        _ => {}
    };
    if let Some(Ok(items)) = srcs.get(&ps.src).map(|f| find::module(f, &mods)) {
        for i in items {
            add(&mut m, i);
        }
    }
    for s in &block.stmts {
        if let syn::Stmt::Item(i) = s {
            add(&mut m, i);
        }
    }
    m
}

/// name -> return type, for names whose functions all return the same family
fn ret_types(srcs: &HashMap<String, File>) -> HashMap<String, String> {
    struct V(HashMap<String, String>);
    impl V {
        fn add(&mut self, s: &Signature) {
            let t = match &s.output {
                ReturnType::Type(_, t) => t.to_token_stream().to_string(),
                _ => "()".into(),
            };
            let n = s.ident.to_string();
            match self.0.get(&n) {
                Some(o) if *o != t => {
                    self.0.insert(n, "?".into());
                }
                _ => {
                    self.0.insert(n, t);
                }
            }
        }
    }
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_item_fn(&mut self, f: &'a ItemFn) {
            self.add(&f.sig);
            syn::visit::visit_item_fn(self, f);
        }
        fn visit_impl_item_fn(&mut self, f: &'a ImplItemFn) {
            self.add(&f.sig);
        }
    }
    use syn::visit::Visit;
    let mut v = V(HashMap::new());
    for f in srcs.values() {
        v.visit_file(f);
    }
    v.0
}

/// `Pairs<'_,Rule>` is `Pairs<Rule>`
fn no_lifetimes(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let (mut o, mut i) = (String::new(), 0);
    while i < c.len() {
        if c[i] == '\'' && i > 0 && matches!(c[i - 1], '<' | ',') {
            i += 1;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            if i < c.len() && c[i] == ',' {
                i += 1;
            }
        } else {
            o.push(c[i]);
            i += 1;
        }
    }
    o
}

struct Subst<'a>(&'a [(String, String)]);
impl<'a> VisitMut for Subst<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = no_lifetimes(&squash(&t.to_token_stream().to_string()));
        for (a, b) in self.0 {
            if no_lifetimes(a) == s {
                *t = syn::parse_str(b).unwrap();
                return;
            }
        }
        if let Type::Path(p) = t {
            let n = p.path.segments.len();
            // io::Result<T> is Result<T, io::Error>, fmt::Result is Result<(), fmt::Error>
            if n > 1 && p.path.segments[n - 2].ident == "fmt" && p.path.segments[n - 1].ident == "Result" && p.path.segments[n - 1].arguments.is_empty() {
                *t = parse_quote!(Result<(), Error>);
                return;
            }
            if n > 1 && p.path.segments[n - 2].ident == "io" && p.path.segments[n - 1].ident == "Result" {
                if let PathArguments::AngleBracketed(a) = &mut p.path.segments[n - 1].arguments {
                    if a.args.len() == 1 {
                        a.args.push(parse_quote!(Error));
                    }
                }
            }
            if n > 1 && p.qself.is_none() {
                let last = p.path.segments[n - 1].clone();
                p.path.leading_colon = None;
                p.path.segments = std::iter::once(last).collect();
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}
use syn::visit_mut;

/// an enum of names alone whose equality is the derived one
fn derives_eq(srcs: &HashMap<String, File>, path: &str, it: &Item) -> bool {
    let Item::Enum(e) = it else { return false };
    if e.variants.len() > 120 || e.variants.iter().any(|v| !v.fields.is_empty()) {
        return false;
    }
    let ps = find::parse_path(path);
    let mods: Vec<&str> = ps.module.iter().map(|s| s.as_str()).collect();
    let Some(Ok(items)) = srcs.get(&ps.src).map(|f| find::module(f, &mods)) else { return false };
    ["PartialEq", "Clone", "Copy"].iter().all(|t| {
        items.iter().any(|i| matches!(i, Item::Impl(im) if find::header(im) == format!("{t}for{}", e.ident) && im.attrs.iter().any(|a| a.path().is_ident("automatically_derived"))))
    })
}

fn emit_item(mut it: Item, substs: &[(String, String)]) -> String {
    Subst(substs).visit_item_mut(&mut it);
    fn pubf(f: &mut Fields) {
        for x in f.iter_mut() {
            x.vis = parse_quote!(pub);
            x.attrs.clear();
        }
    }
    match &mut it {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            pubf(&mut s.fields);
        }
        Item::Enum(e) => {
            e.attrs.clear();
            e.vis = parse_quote!(pub);
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for x in v.fields.iter_mut() {
                    x.attrs.clear();
                }
            }
        }
        _ => {}
    }
    print::text(it.to_token_stream())
}

fn lits_in(s: &str) -> Vec<String> {
    // string literals viewed in a contract: "..."@
    let mut v = vec![];
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\'' {
            // char literal
            if i + 2 < c.len() && c[i + 1] == '\\' {
                i += 4;
                continue;
            } else if i + 2 < c.len() && c[i + 2] == '\'' {
                i += 3;
                continue;
            }
        }
        if c[i] == '"' {
            let mut j = i + 1;
            let mut raw = String::from("\"");
            while j < c.len() && c[j] != '"' {
                if c[j] == '\\' {
                    raw.push(c[j]);
                    j += 1;
                }
                raw.push(c[j]);
                j += 1;
            }
            raw.push('"');
            if let Ok(l) = syn::parse_str::<LitStr>(&raw) {
                v.push(l.value());
            }
            i = j + 1;
        } else {
            i += 1;
        }
    }
    v
}

fn emit_fn(
    srcs: &HashMap<String, File>,
    fs: &FnSpec,
    substs: &[(String, String)],
    inline_fns: &HashMap<String, Found>,
    inline_methods: &HashMap<String, Found>,
    trust: &[String],
) -> std::result::Result<(String, String), String> {
    let f = find_fn(srcs, &fs.path)?;
    if f.sig.asyncness.is_some() || f.sig.unsafety.is_some() {
        return Err(format!("{}: async or unsafe", fs.path));
    }
    let mut trusted = if trust.iter().any(|t| t == &fs.path) { Some("the verifier does not accept its body".to_string()) } else { None };
    let alt: usize = trust.iter().find_map(|t| t.strip_prefix("alt:")?.strip_prefix(fs.path.as_str())?.strip_prefix('=')?.parse().ok()).unwrap_or(0);
    let alts = fs.loops.iter().map(|(k, _)| fs.loops.iter().filter(|(j, _)| j == k).count()).max().unwrap_or(1);
    let mut block = f.block.clone();
    // signature with canonical names
    let mut sig = f.sig.clone();
    Subst(substs).visit_signature_mut(&mut sig);
    if sig.inputs.len() != fs.sig.len() {
        return Err(format!("lost anchor: {} takes {} parameters, its contract names {}", fs.path, sig.inputs.len(), fs.sig.len()));
    }
    block.stmts.retain(|s| !matches!(s, syn::Stmt::Item(Item::Const(_)) | syn::Stmt::Item(Item::Static(_)) | syn::Stmt::Item(Item::Use(_))));
    let mut pre_stmts: Vec<Stmt> = vec![];
    let mut locals = desugar::bound_names(&block);
    for (i, name) in sig.inputs.iter_mut().zip(&fs.sig) {
        if let FnArg::Typed(t) = i {
            let names = desugar::pat_names(&t.pat);
            locals.extend(names.clone());
            let id = format_ident!("{}", name);
            let plain = matches!(&*t.pat, Pat::Ident(p) if p.ident == id && p.mutability.is_none() && p.by_ref.is_none());
            if !plain {
                let p = t.pat.clone();
                pre_stmts.push(parse_quote!(let #p = #id;));
                *t.pat = parse_quote!(#id);
            }
        }
    }
    let name = sig.ident.to_string();
    let own_fns: HashMap<String, Found> = inline_fns.iter().filter(|(k, _)| **k != name || f.impl_self.is_some()).map(|(k, v)| (k.clone(), v.clone())).collect();
    let own_methods: HashMap<String, Found> = inline_methods.iter().filter(|(k, _)| !(**k == name && f.impl_trait.is_none())).map(|(k, v)| (k.clone(), v.clone())).collect();
    let rets = ret_types(srcs);
    let consts = consts_of(srcs, &fs.path, &f.block);
    let mut cx = Ctx {
        rets: &rets,
        consts: &consts,
        local_res: Default::default(),
        locals,
        loops: vec![],
        literals: vec![],
        counting: Default::default(),
        inline_fns: &own_fns,
        inline_methods: &own_methods,
        exclude: fs.sig.iter().cloned().collect(),
        counter: 0,
        inline_stack: vec![],
        result_mode: fs.opts.iter().any(|o| o == "result"),
        errors: vec![],
        used: vec![],
    };
    desugar::elim_return_block(&mut block);
    if desugar::has_try(&block) {
        desugar::elim_try_block(&mut block, desugar::ret_family(&f.sig));
    }
    // function-local items (nested fn) may be inlined too: not supported, reported
    cx.visit_block_mut(&mut block);
    Subst(substs).visit_block_mut(&mut block);
    if !cx.errors.is_empty() && trusted.is_none() {
        trusted = Some(cx.errors.join("; "));
    }
    // text
    let ret_ty = match &sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some(print::text(t.to_token_stream()).trim().to_string()),
    };
    let mut s2 = sig.clone();
    s2.output = ReturnType::Default;
    let vis = if f.impl_trait.is_some() { "" } else { "pub " };
    let mut head = format!("{}{}", vis, print::text(s2.to_token_stream()).trim());
    if let Some(t) = &ret_ty {
        head.push_str(&format!(" -> ({}: {})", fs.ret.clone().unwrap_or("r".into()), t));
    }
    let mut out = String::new();
    if trusted.is_some() {
        out.push_str("#[verifier::external_body]\n");
    } else if !cx.loops.is_empty() {
        out.push_str("#[verifier::loop_isolation(false)]\n");
    }
    out.push_str(&head);
    out.push('\n');
    out.push_str(&fs.spec);
    if trusted.is_some() {
        out.push_str("{ unimplemented!() }\n");
    } else {
        let mut lits: Vec<String> = cx.literals.clone();
        for t in [&fs.spec, &fs.pre, &fs.post].into_iter().chain(fs.loops.iter().map(|l| &l.1)) {
            for l in lits_in(t) {
                if !lits.contains(&l) {
                    lits.push(l);
                }
            }
        }
        let reveal = lits.iter().map(|l| format!("crate::lit_{}();", lit_id(l))).collect::<Vec<_>>().join(" ");
        let mut body = String::from("{\n");
        if !reveal.is_empty() {
            body.push_str(&format!("proof {{ {} }}\n", reveal));
        }
        body.push_str(&fs.pre);
        for p in &pre_stmts {
            body.push_str(&print::text(p.to_token_stream()));
            body.push('\n');
        }
        let inner = print::text(block.to_token_stream());
        let probe = |w: &str| trust.iter().any(|t| t.strip_prefix("probe:") == Some(w));
        if probe("start") {
            body.push_str("proof { assert(false); }\n");
        }
        if probe("end") {
            match (&ret_ty, fs.ret.clone()) {
                (Some(t), r) => {
                    let r = r.unwrap_or("r".into());
                    body.push_str(&format!("let {r}: {t} = {};\nproof {{ assert(false); }}\n{r}", inner.trim()))
                }
                _ => body.push_str(&format!("{};\nproof {{ assert(false); }}\n", inner.trim())),
            }
        } else if fs.post.trim().is_empty() {
            body.push_str(&inner);
        } else if ret_ty.is_some() {
            let r = fs.ret.clone().unwrap_or("r".into());
            body.push_str(&format!("let {}: {} = {};\n{}\n{}", r, ret_ty.clone().unwrap(), inner.trim(), fs.post, r));
        } else {
            body.push_str(&format!("{};\n{}\n", inner.trim(), fs.post));
        }
        body.push_str("\n}\n");
        // loops
        for l in &cx.loops {
            let marker = format!("__VINV_{}__", l.id);
            let pos = body.find(&marker).ok_or("loop marker")?;
            let open = body[..pos].rfind('{').ok_or("loop brace")?;
            let after = pos + marker.len();
            let semi = body[after..].find(';').ok_or("loop semi")? + after + 1;
            // several invariants may be written for one loop; `--alt` says which to use
            let own: Vec<&String> = fs.loops.iter().filter(|(k, _)| *k == l.id.to_string()).map(|x| &x.1).collect();
            let all: Vec<&String> = fs.loops.iter().filter(|(k, _)| k == "*").map(|x| &x.1).collect();
            let own = if own.is_empty() { all } else { own };
            let mut inv = own.get(alt).or(own.first()).map(|s| s.to_string()).unwrap_or_default();
            if inv.trim().is_empty() {
                if let Some(it) = &l.it {
                    inv = format!("invariant true,\n decreases {}@.len(),\n", it);
                }
            }
            let counting = l.it.as_ref().map(|it| cx.counting.contains(it)).unwrap_or(false);
            let range = counting && body.contains(&format!("let mut {} = v_range", l.it.as_ref().unwrap()));
            // `$over(x)`: the loop runs over x
            while let Some(p) = inv.find("$over(") {
                let mut depth = 0;
                let end = inv[p + 5..].char_indices().find(|(_, c)| {
                    depth += (*c == '(') as i32 - (*c == ')') as i32;
                    depth == 0
                }).ok_or("$over")?.0 + p + 5;
                let x = inv[p + 6..end].to_string();
                let text = if range { format!("$it@.len() <= {x}.len()") } else { format!("$it@ == {x}.skip({x}.len() - $it@.len()), $it@.len() <= {x}.len()") };
                inv = format!("{}{}{}", &inv[..p], text, &inv[end + 1..]);
            }
            if counting {
                let it = l.it.as_ref().unwrap();
                let add = format!(" $it.all() == __all_{it}, $it@ == __all_{it}.skip(__all_{it}.len() - $it@.len()), $it@.len() <= __all_{it}.len(),");
                inv = inv.replacen("invariant", &format!("invariant{add}"), 1);
            }
            let mut bad = false;
            if let Some(it) = &l.it {
                inv = inv.replace("$it", it);
            } else if inv.contains("$it") {
                // a hand-written `while x.peek().is_some()` loop: the iterator is the mutated variable with `next`
                inv = inv.replace("$it", l.muts.first().map(|s| s.as_str()).unwrap_or("__none"));
            }
            if let Some(a) = &l.acc {
                inv = inv.replace("$acc", a);
            }
            for (k, m) in l.muts.iter().enumerate() {
                inv = inv.replace(&format!("$m{k}"), m);
            }
            if inv.contains("$acc") {
                inv = inv.replace("$acc", l.muts.first().map(|s| s.as_str()).unwrap_or("__none"));
            }
            if inv.contains('$') {
                bad = true;
            }
            if bad {
                // the loop does not have the shape the invariant talks about
                let mut t2: Vec<String> = trust.to_vec();
                t2.push(fs.path.clone());
                let (txt, inf) = emit_fn(srcs, fs, substs, inline_fns, inline_methods, &t2)?;
                return Ok((txt, inf));
            }
            let mut head = body[..open].to_string();
            if counting {
                let it = l.it.as_ref().unwrap();
                let w = head.rfind("while").ok_or("loop while")?;
                head.insert_str(w, &format!("let ghost __all_{it} = {it}.all(); "));
            }
            body = format!("{}\n{}{{\n{}", head, inv, &body[semi..]);
        }
        out.push_str(&body);
    }
    let info = format!(
        "{{\"path\":{:?},\"trusted\":{},\"loops\":{},\"alts\":{alts},\"inlined\":[{}]}}",
        fs.path,
        match &trusted {
            Some(t) => format!("{:?}", t),
            None => "null".into(),
        },
        cx.loops.len(),
        cx.used.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(",")
    );
    Ok((out, info))
}

/// what the derived `Debug` of an enum of plain variants writes: the name of the variant
fn emit_debug(srcs: &HashMap<String, File>, p: &str) -> std::result::Result<(String, String), String> {
    let it = find_item(srcs, p)?;
    let Item::Enum(e) = it else { return Err(format!("lost anchor: {p} is not an enum")) };
    let ps = find::parse_path(p);
    let mods: Vec<&str> = ps.module.iter().map(|s| s.as_str()).collect();
    let name = e.ident.to_string();
    let derived = find::module(&srcs[&ps.src], &mods)?.iter().any(|i| match i {
        Item::Impl(im) => find::header(im) == format!("Debugfor{name}") && im.attrs.iter().any(|a| a.path().is_ident("automatically_derived")),
        _ => false,
    });
    let plain = e.variants.iter().all(|v| v.fields.is_empty());
    let mut out = format!("impl VDebug for {name} {{ open spec fn dbg(&self) -> Txt {{ ");
    let info = if derived && plain {
        let arms: Vec<String> = e.variants.iter().map(|v| format!("{name}::{} => {:?}@", v.ident, v.ident.to_string())).collect();
        out.push_str(&format!("match *self {{ {} }} }} }}\n", arms.join(", ")));
        format!("{{\"path\":{:?},\"trusted\":null,\"loops\":0,\"inlined\":[]}}", format!("derived Debug of {p}"))
    } else {
        out.push_str(&format!("arbitrary() }} }}\n"));
        format!("{{\"path\":{:?},\"trusted\":\"Debug is not derived\",\"loops\":0,\"inlined\":[]}}", format!("Debug of {p}"))
    };
    Ok((out, info))
}

/// every type with an `IntoAttribute` and every one-argument constructor of the module, each with the contract
/// its own name and argument give it: key = name of the constructor, value = text of the argument
fn emit_ctors(
    srcs: &HashMap<String, File>,
    p: &str,
    substs: &[(String, String)],
    allpre: &str,
    label: &str,
    inline_fns: &HashMap<String, Found>,
    inline_methods: &HashMap<String, Found>,
    trust: &[String],
) -> std::result::Result<(String, Vec<String>), String> {
    let ps = find::parse_path(&format!("{p}::x"));
    let mods: Vec<&str> = ps.module.iter().map(|s| s.as_str()).collect();
    let items = find::module(srcs.get(&ps.src).ok_or("no source")?, &mods)?;
    let (mut out, mut info) = (String::new(), vec![]);
    let headers: Vec<String> = items.iter().filter_map(|i| if let Item::Impl(im) = i { Some(find::header(im)) } else { None }).collect();
    let mut done: HashSet<String> = HashSet::new();
    let mut emit = |fs: FnSpec, out: &mut String, info: &mut Vec<String>| -> std::result::Result<(), String> {
        let (txt, inf) = emit_fn(srcs, &fs, substs, inline_fns, inline_methods, trust)?;
        out.push_str(&format!("//@@BEGIN {}\n{}\n//@@END {}\n", fs.path, txt, fs.path));
        info.push(inf);
        Ok(())
    };
    let attr = |t: &Type| matches!(t, Type::Path(p) if p.path.segments.last().map(|s| s.ident == "Attribute").unwrap_or(false));
    for i in &items {
        let (name, en) = match i {
            Item::Struct(s) => (s.ident.to_string(), false),
            Item::Enum(e) => (e.ident.to_string(), true),
            _ => continue,
        };
        let has = |t: &str| headers.iter().any(|h| *h == format!("{t}for{name}"));
        let owner = headers.iter().any(|h| *h == name);
        if !has("IntoAttribute") && !owner {
            continue;
        }
        match i {
            // a type without values that only names a group of constructors
            Item::Enum(e) if e.variants.is_empty() => out.push_str(&format!("pub struct {name} {{ pub no_value: u8 }}\n")),
            _ => out.push_str(&emit_item((*i).clone(), substs)),
        }
        out.push('\n');
        if has("IntoAttribute") {
            let val = if en {
                let (txt, inf) = emit_debug(srcs, &format!("{p}::{name}"))?;
                out.push_str(&txt);
                info.push(inf);
                "trim_(self.dbg())"
            } else {
                "self.0.disp()"
            };
            out.push_str(&format!("impl {name} {{\n"));
            emit(
                FnSpec {
                    path: format!("{p}::<IntoAttribute for {name}>::into_attr"),
                    sig: vec!["self".into()],
                    ret: Some("r".into()),
                    pre: allpre.to_string(),
                    spec: format!("    ensures is_plain(r.0, {name:?}@), is_plain(r.1, {val}), //#[{label}]\n"),
                    ..Default::default()
                },
                &mut out,
                &mut info,
            )?;
            if has("Display") {
                emit(
                    FnSpec {
                        path: format!("{p}::<Display for {name}>::fmt"),
                        sig: vec!["self".into(), "f".into()],
                        ret: Some("r".into()),
                        opts: vec!["result".into()],
                        pre: allpre.to_string(),
                        spec: format!("    ensures r is Ok ==> final(f)@ == cat(old(f)@, self.disp()), r is Err ==> refused(r->Err_0), //#[{label}]\n"),
                        ..Default::default()
                    },
                    &mut out,
                    &mut info,
                )?;
            }
            if has("Default") {
                emit(
                    FnSpec {
                        path: format!("{p}::<Default for {name}>::default"),
                        ret: Some("r".into()),
                        pre: allpre.to_string(),
                        spec: format!("    ensures true, //#[{label}]\n"),
                        ..Default::default()
                    },
                    &mut out,
                    &mut info,
                )?;
            }
            out.push_str("}\n");
            if has("Display") {
                out.push_str(&format!("impl VDisp for {name} {{ open spec fn disp(&self) -> Txt {{ self.dbg() }} }}\n"));
            }
        }
    }
    // the constructors
    for i in &items {
        let Item::Impl(im) = i else { continue };
        if im.trait_.is_some() {
            continue;
        }
        let owner = find::header(im);
        for ii in &im.items {
            let ImplItem::Fn(f) = ii else { continue };
            let n = f.sig.ident.to_string();
            let ReturnType::Type(_, t) = &f.sig.output else { continue };
            if !attr(t) || !matches!(f.vis, Visibility::Public(_)) || !done.insert(format!("{owner}::{n}")) {
                continue;
            }
            let mut sig = f.sig.clone();
            Subst(substs).visit_signature_mut(&mut sig);
            let types: Vec<Type> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some((*t.ty).clone()) } else { None }).collect();
            if types.len() != sig.inputs.len() {
                continue;
            }
            let (args, key, val): (Vec<String>, String, String) = match types.len() {
                1 => {
                    let tn = squash(&types[0].to_token_stream().to_string());
                    // an enumerated attribute is given as itself; anything else is displayed
                    let v = if tn == n { "trim_(elem.dbg())" } else { "elem.disp()" };
                    (vec!["elem".into()], n.clone(), v.into())
                }
                2 if n.ends_with("_separate") => {
                    (vec!["h".into(), "v".into()], n.trim_end_matches("_separate").to_string(), "cat(cat(h.disp(), \",\"@), v.disp())".into())
                }
                _ => continue,
            };
            out.push_str(&format!("impl {owner} {{\n"));
            emit(
                FnSpec {
                    path: format!("{p}::<{owner}>::{n}"),
                    sig: args,
                    ret: Some("r".into()),
                    pre: allpre.to_string(),
                    spec: format!("    ensures is_plain(r.0, {key:?}@), is_plain(r.1, {val}), //#[{label}]\n"),
                    ..Default::default()
                },
                &mut out,
                &mut info,
            )?;
            out.push_str("}\n");
        }
    }
    Ok((out, info))
}
