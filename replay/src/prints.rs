//! C01-C05, C17: what printing must give.
use crate::ctx::{Ctx, Op};
use crate::gen::{self, Rng};
use crate::text::{self, Toks};
use crate::{fail, on, Case, Res};
use graphviz_rust::dot_structures::*;
use graphviz_rust::printer::{DotPrinter, PrinterContext};

/// any printable graph: chains of any length, ids of any kind
fn any_graph(r: &mut Rng, i: u64) -> Graph {
    let mut sh = gen::shape(r, i);
    sh.short_chains = true;
    gen::graph(r, sh)
}
fn size(g: &Graph) -> usize {
    text::parts(g).2.len()
}
fn show(c: &Ctx, g: &Graph) -> String {
    format!("context: {c:?}\ngraph: {g:#?}")
}
fn print_with(p: &mut PrinterContext, g: &Graph) -> String {
    g.print(p)
}

/// every element of the graph, spelled out once and in order
pub fn c01(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed, "c01", i);
    if i % 8 == 7 {
        return verbatim(&mut r);
    }
    let g = any_graph(&mut r, i);
    let c = if i % 3 == 0 { Ctx { new: None, ops: vec![] } } else { Ctx::random(&mut r, false, false) };
    on(&show(&c, &g));
    let t = if i % 2 == 0 { graphviz_rust::print(g.clone(), &mut c.build()) } else { print_with(&mut c.build(), &g) };
    tokens_match(&c, &g, &t)
}
fn tokens_match(c: &Ctx, g: &Graph, t: &str) -> Res {
    let want = text::graph_tokens(g);
    match text::tokenize(t) {
        Ok(got) if got == want => Ok(Case { desc: t.to_string(), nontrivial: size(g) > 0 }),
        Ok(got) => fail(format!("{}\nprinted: {t:?}", show(c, g)), format!("tokens {want:?}"), format!("tokens {got:?}")),
        Err(e) => fail(format!("{}\nprinted: {t:?}", show(c, g)), format!("tokens {want:?}"), e),
    }
}
/// ids, ports and attributes are written exactly as they are, whatever they hold
fn verbatim(r: &mut Rng) -> Res {
    let raw = |r: &mut Rng| -> String {
        let n = r.up(6);
        (0..n).map(|_| *r.pick(&["a", " ", "\"", "\\", "<", ">", "é", "\n", ":", "=", "[", "1", "-", "{", ";"])).collect()
    };
    let id = |r: &mut Rng| -> Id {
        let s = raw(r);
        match r.up(4) {
            0 => Id::Html(s),
            1 => Id::Escaped(s),
            2 => Id::Plain(s),
            _ => Id::Anonymous(s),
        }
    };
    let mut ctx = PrinterContext::default();
    let a = id(r);
    let b = id(r);
    let d = raw(r);
    let p = match r.up(3) {
        0 => Port(Some(b.clone()), Some(d.clone())),
        1 => Port(None, Some(d.clone())),
        _ => Port(Some(b.clone()), None),
    };
    let n = NodeId(a.clone(), Some(p.clone()));
    let want = text::node_id_text(&n);
    on(&format!("{n:?}"));
    let got = n.print(&mut ctx);
    if got != want {
        return fail(format!("{n:?}"), want, got);
    }
    let at = Attribute(a.clone(), b.clone());
    let got = at.print(&mut ctx);
    let want = format!("{}={}", text::id_text(&a), text::id_text(&b));
    if got != want {
        return fail(format!("{at:?}"), want, got);
    }
    let v = Vertex::N(n.clone());
    let (x, y) = (v.print(&mut ctx), text::node_id_text(&n));
    if x != y {
        return fail(format!("{v:?}"), y, x);
    }
    Ok(Case { desc: format!("{n:?} {at:?}"), nontrivial: true })
}

/// two contexts that differ in layout only give the same tokens
pub fn c02(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed, "c02", i);
    let g = any_graph(&mut r, i);
    let a = Ctx::random(&mut r, true, false);
    let b = Ctx::random(&mut r, true, false);
    on(&format!("{}\nother context: {b:?}", show(&a, &g)));
    let (x, y) = (print_with(&mut a.build(), &g), print_with(&mut b.build(), &g));
    let input = || format!("{}\nother context: {b:?}\nfirst text: {x:?}\nsecond text: {y:?}", show(&a, &g));
    match (text::tokenize(&x), text::tokenize(&y)) {
        (Ok(p), Ok(q)) if p == q => Ok(Case { desc: format!("{x}\n{y}"), nontrivial: x != y }),
        (p, q) => fail(input(), format!("{p:?}"), format!("{q:?}")),
    }
}

/// the operator of every edge is that of the graph being printed
pub fn c03(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed, "c03", i);
    let c = Ctx::random(&mut r, false, false);
    let mut p = c.build();
    let mut before = vec![];
    let mut sh = gen::shape(&mut r, i);
    sh.short_chains = true;
    for _ in 0..r.up(3) {
        let g = gen::graph(&mut r, gen::Shape { depth: 1, width: 2, short_chains: true });
        on(&show(&c, &g));
        print_with(&mut p, &g);
        before.push(g);
    }
    let id = gen::id_or_anon(&mut r);
    let mut stmts = gen::stmts(&mut r, sh);
    let edge = Stmt::Edge(gen::edge(&mut r, sh));
    match r.up(4) {
        // the only edge may be deep inside
        0 => {
            let mut s = edge;
            for _ in 0..1 + r.up(3) {
                let id = gen::id_or_anon(&mut r);
                s = Stmt::Subgraph(Subgraph { id, stmts: vec![s] });
            }
            stmts.retain(|x| matches!(x, Stmt::Attribute(_) | Stmt::Subgraph(_)));
            stmts.push(s);
        }
        1 => {}
        _ => {
            let k = r.up(stmts.len() + 1);
            stmts.insert(k, edge);
        }
    }
    let strict = r.chance(1, 2);
    let g = if r.chance(1, 2) { Graph::Graph { id, strict, stmts } } else { Graph::DiGraph { id, strict, stmts } };
    on(&show(&c, &g));
    let t = print_with(&mut p, &g);
    tokens_match(&c, &g, &t).map_err(|mut e| {
        e.input = format!("printed before with the same context: {before:?}\n{}", e.input);
        e
    })
}

enum El {
    G(Graph),
    S(Stmt),
    E(Edge),
    Sub(Subgraph),
}
impl El {
    fn print(&self, p: &mut PrinterContext) -> String {
        match self {
            El::G(x) => x.print(p),
            El::S(x) => x.print(p),
            El::E(x) => x.print(p),
            El::Sub(x) => x.print(p),
        }
    }
    fn dbg(&self) -> String {
        match self {
            El::G(x) => format!("{x:?}"),
            El::S(x) => format!("{x:?}"),
            El::E(x) => format!("{x:?}"),
            El::Sub(x) => format!("{x:?}"),
        }
    }
}
fn element(r: &mut Rng, i: u64) -> El {
    let mut sh = gen::shape(r, i);
    sh.depth = sh.depth.min(3);
    sh.width = sh.width.min(4);
    sh.short_chains = true;
    match r.up(8) {
        0..=4 => El::G(gen::graph(r, sh)),
        5 => El::S(gen::stmt(r, sh)),
        6 => El::E(gen::edge(r, sh)),
        _ => El::Sub(gen::subgraph(r, sh)),
    }
}
/// what is printed does not depend on what was printed before
pub fn c04(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed, "c04", i);
    let mut c = Ctx::random(&mut r, false, true);
    if r.chance(1, 3) {
        c.ops.push(Op::Fmt(gen::id(&mut r), 0));
    }
    let n = 2 + r.up(4);
    let els: Vec<El> = (0..n).map(|_| element(&mut r, i)).collect();
    let order: Vec<usize> = (0..n + 2).map(|k| if k < n { k } else { r.up(n) }).collect();
    let mut p = c.build();
    let mut di = false;
    let mut log = vec![];
    for k in order {
        let e = &els[k];
        on(&format!("context: {c:?}\nsequence: {log:?}\nelement: {}", e.dbg()));
        let got = e.print(&mut p);
        // a fresh context, put into the same direction
        let mut q = c.build();
        if di {
            Graph::DiGraph { id: Id::Plain("d".into()), strict: false, stmts: vec![] }.print(&mut q);
            // only the direction may remain of that print
            let mut q0 = c.build();
            let probe = Graph::DiGraph { id: Id::Plain("d".into()), strict: true, stmts: vec![Stmt::Node(Node { id: NodeId(Id::Plain("n1".into()), None), attributes: vec![] })] };
            let (a, b) = (probe.print(&mut q0), probe.print(&mut q));
            if a != b {
                return fail(format!("context: {c:?}\nan empty digraph, then {probe:?}"), format!("{a:?}"), format!("{b:?}"));
            }
        }
        let want = e.print(&mut q);
        if want != got {
            return fail(format!("context: {c:?}\nprinted before: {log:?}\nelement: {}", e.dbg()), format!("{want:?}"), format!("{got:?}"));
        }
        if let El::G(g) = e {
            di = matches!(g, Graph::DiGraph { .. });
        }
        log.push(e.dbg());
    }
    Ok(Case { desc: log.join("\n"), nontrivial: true })
}

/// the layout is the documented one, to the character
pub fn c05(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed, "c05", i);
    let c = Ctx::random(&mut r, false, true);
    let o = c.opts();
    let g = any_graph(&mut r, i);
    on(&show(&c, &g));
    let mut p = c.build();
    let got = print_with(&mut p, &g);
    let want = o.graph(&g);
    if got != want {
        return fail(show(&c, &g), format!("{want:?}"), format!("{got:?}"));
    }
    // an edge whose text is about as long as the width
    let sh = gen::Shape { depth: 1, width: 2, short_chains: true };
    let e = gen::edge(&mut r, sh);
    let di = matches!(g, Graph::DiGraph { .. });
    let len = crate::text::Opts { width: 0, ..o.clone() }.edge(&e, 0, di).len();
    for w in [len.saturating_sub(1), len, len + 1] {
        let mut c2 = c.clone();
        c2.ops.push(Op::Width(w));
        let mut p = c2.build();
        if di {
            Graph::DiGraph { id: Id::Plain("d".into()), strict: false, stmts: vec![] }.print(&mut p);
        }
        on(&format!("context: {c2:?}\nedge: {e:?}"));
        let got = e.print(&mut p);
        let want = c2.opts().edge(&e, 0, di);
        if got != want {
            return fail(format!("context: {c2:?} (width {w}, multi-line text of {len} bytes)\nedge: {e:?}"), format!("{want:?}"), format!("{got:?}"));
        }
    }
    Ok(Case { desc: format!("{c:?}\n{got}"), nontrivial: size(&g) > 0 })
}

/// value printers are called for their id, with the right arguments, and change nothing else
pub fn c17(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed, "c17", i);
    let mut g = any_graph(&mut r, i);
    let mut keys = vec![];
    collect(&g, &mut keys);
    let mut c = Ctx::random(&mut r, false, false);
    for k in 0..1 + r.up(4) {
        let key = if !keys.is_empty() && r.chance(4, 5) { r.pick(&keys).clone() } else { gen::id(&mut r) };
        let key = match (r.up(6), &key) {
            // the same text as another kind of id is another id
            (0, Id::Plain(s)) => Id::Escaped(s.clone()),
            (1, Id::Escaped(s)) => Id::Plain(s.clone()),
            _ => key,
        };
        c.ops.insert(r.up(c.ops.len() + 1), Op::Fmt(key.clone(), r.up(4) as u8));
        if k == 0 && r.chance(1, 3) {
            c.ops.push(Op::Fmt(key, r.up(4) as u8));
        }
    }
    if r.chance(1, 2) {
        let (Graph::Graph { stmts, .. } | Graph::DiGraph { stmts, .. }) = &mut g;
        {
            let key = c.opts().fmts[0].0.clone();
            stmts.push(Stmt::Node(Node { id: NodeId(Id::Plain("z".into()), None), attributes: vec![Attribute(key.clone(), gen::id(&mut r)), gen::attr(&mut r)] }));
            stmts.push(Stmt::Attribute(Attribute(key, gen::id(&mut r))));
        }
    }
    on(&show(&c, &g));
    let mut p = c.build();
    let got = print_with(&mut p, &g);
    let want = c.opts().graph(&g);
    if got != want {
        return fail(show(&c, &g), format!("{want:?}"), format!("{got:?}"));
    }
    let plain = Ctx { new: c.new.clone(), ops: c.ops.iter().filter(|o| !matches!(o, Op::Fmt(..))).cloned().collect() };
    let nt = print_with(&mut plain.build(), &g) != got;
    Ok(Case { desc: format!("{c:?}\n{got}"), nontrivial: nt })
}
fn collect(g: &Graph, out: &mut Vec<Id>) {
    fn attrs(v: &[Attribute], out: &mut Vec<Id>) {
        out.extend(v.iter().map(|a| a.0.clone()));
    }
    fn body(v: &[Stmt], out: &mut Vec<Id>) {
        for s in v {
            match s {
                Stmt::Node(n) => attrs(&n.attributes, out),
                Stmt::Subgraph(s) => body(&s.stmts, out),
                Stmt::Attribute(a) => out.push(a.0.clone()),
                Stmt::GAttribute(GraphAttributes::Graph(v) | GraphAttributes::Node(v) | GraphAttributes::Edge(v)) => attrs(v, out),
                Stmt::Edge(e) => {
                    attrs(&e.attributes, out);
                    let vs: Vec<&Vertex> = match &e.ty {
                        EdgeTy::Pair(a, b) => vec![a, b],
                        EdgeTy::Chain(v) => v.iter().collect(),
                    };
                    for v in vs {
                        if let Vertex::S(s) = v {
                            body(&s.stmts, out)
                        }
                    }
                }
            }
        }
    }
    body(text::parts(g).2, out);
}

#[allow(dead_code)]
pub fn toks_of_stmt(s: &Stmt, op: &str) -> Vec<String> {
    let mut t = Toks { out: vec![], op };
    t.stmt(s);
    t.out
}
