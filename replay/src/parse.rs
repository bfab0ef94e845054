//! C06-C11: what parsing must give.
use crate::ctx::Ctx;
use crate::gen::{self, Rng, Shape, COMPASS};
use crate::text::{self, norm, Writer};
use crate::{fail, on, Case, Res};
use graphviz_rust::dot_structures::*;
use graphviz_rust::parse;
use graphviz_rust::printer::DotPrinter;

pub fn c06(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed, "c06", i);
    let sh = gen::shape(&mut r, i);
    let g = gen::graph(&mut r, sh);
    let c = if i % 4 == 0 { Ctx { new: None, ops: vec![] } } else { Ctx::random(&mut r, false, false) };
    on(&format!("context: {c:?}\ngraph: {g:?}"));
    let t = g.print(&mut c.build());
    let input = || format!("context: {c:?}\ngraph: {g:?}\nprinted: {t:?}");
    on(&input());
    match parse(&t) {
        Ok(h) if norm(&h) == norm(&g) => {}
        Ok(h) => return fail(input(), format!("{:?}", norm(&g)), format!("{:?}", norm(&h))),
        Err(e) => return fail(input(), "the graph", format!("error {e}")),
    }
    Ok(Case { desc: t, nontrivial: !text::parts(&g).2.is_empty() })
}

const SOUP: [&str; 64] = [
    "graph", "digraph", "strict", "subgraph", "node", "edge", "{", "}", "{", "}", "[", "]", "=", ":", ";", ",", "->", "--", "-", ">", "<", "\"", "\\", "\\\"", "a", "b1", "_", "n", "ne", "1", "-1", ".5", "1.", "-", ".", " ", "\n", "\r", "\r\n", "\t", "//", "/*", "*/",
    "#", "é", "\u{0}", "\u{feff}", "😀", "<a>", "<<b>>", "\"x\"", "\"\\\"\"", "a=b", "[a=b]", "a->b", "a--b", "a:n", "a:b:ne", "subgraph{}", "{a b}", "graph{}", "node[]", "Graph", "/",
];
/// whatever the text, a result comes back
pub fn c07(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed, "c07", i);
    let s: String = match r.up(6) {
        _ if r.chance(1, 6) && !crate::dict::dict().strs.is_empty() => (0..r.up(8)).map(|_| r.bit(2).unwrap_or(r.pick(&SOUP).to_string())).collect(),
        0 => (0..r.up(12)).map(|_| *r.pick(&SOUP)).collect(),
        1 => {
            let mut s = String::from(*r.pick(&["graph {", "digraph a {", "strict graph {", "graph{a ", "digraph{subgraph{", "graph{a->b["]));
            for _ in 0..r.up(14) {
                s += r.pick(&SOUP);
                if r.chance(1, 3) {
                    s.push(' ');
                }
            }
            if r.chance(2, 3) {
                s.push('}');
            }
            s
        }
        2 => (0..r.up(40)).map(|_| char::from_u32(r.next() as u32 % 0x300).unwrap_or('x')).collect(),
        3 if r.chance(1, 8) => {
            // deep nesting
            let d = 1 + r.up(120);
            let (a, b) = *r.pick(&[("subgraph{", "}"), ("subgraph a {b ", ";}"), ("a -- subgraph {", "}"), ("node [a=<", ">]")]);
            let mut s = String::from("graph{");
            s += &a.repeat(d);
            s += &b.repeat(d);
            s + "}"
        }
        _ => {
            // a valid text, damaged
            let sh = gen::shape(&mut r, i);
            let g = gen::graph(&mut r, Shape { depth: sh.depth.min(3), width: sh.width.min(5), ..sh });
            let t = rendered(&mut r, &g, true);
            let mut c: Vec<char> = t.chars().collect();
            for _ in 0..r.up(5) {
                if c.is_empty() {
                    break;
                }
                let k = r.up(c.len());
                match r.up(4) {
                    0 => {
                        c.remove(k);
                    }
                    1 => {
                        let x: Vec<char> = r.bit(2).unwrap_or(r.pick(&SOUP).to_string()).chars().collect();
                        for (n, y) in x.into_iter().enumerate() {
                            c.insert(k + n, y);
                        }
                    }
                    2 => {
                        let x = c[r.up(c.len())];
                        c[k] = x;
                    }
                    _ => c.truncate(k),
                }
            }
            c.into_iter().collect()
        }
    };
    on(&format!("{s:?}"));
    let ok = match parse(&s) {
        Ok(_) => true,
        Err(e) => {
            if e.is_empty() {
                return fail(format!("{s:?}"), "an error that says something", "an empty error");
            }
            false
        }
    };
    Ok(Case { desc: format!("{ok} {s:?}"), nontrivial: s.len() > 5 })
}

fn rendered(r: &mut Rng, g: &Graph, free: bool) -> String {
    let toks = tokens(r, g, free);
    text::lay_out(r, &toks, free)
}
fn tokens(r: &mut Rng, g: &Graph, free: bool) -> Vec<String> {
    let mut w = Writer { r, out: vec![], op: text::op_of(g), free };
    w.graph(g);
    w.out
}
fn graph(r: &mut Rng, i: u64) -> Graph {
    let sh = gen::shape(r, i);
    gen::graph(r, sh)
}

/// the parsed graph is the written one; anything that is not one whole graph is refused
pub fn c08(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed, "c08", i);
    let g = graph(&mut r, i);
    let free = i % 5 != 0;
    let toks = tokens(&mut r, &g, free);
    let t = text::lay_out(&mut r, &toks, free);
    on(&format!("{t:?}"));
    match parse(&t) {
        Ok(h) if norm(&h) == norm(&g) => {}
        Ok(h) => return fail(format!("{t:?}"), format!("{:?}", norm(&g)), format!("{:?}", norm(&h))),
        Err(e) => return fail(format!("{t:?}"), format!("{:?}", norm(&g)), format!("error {e}")),
    }
    // not one whole graph
    let junk = *r.pick(&["x", "}", "{", ";", "graph {}", "[", "\"q\"", "--", "1", "=", "strict", ":", "]", "node [a=b]"]);
    let plain = text::lay_out(&mut r, &toks, false);
    let bad = match r.up(5) {
        4 => {
            // a keyword of the header is part of a longer word
            let n = toks.iter().take(2).filter(|t| ["strict", "graph", "digraph"].contains(&t.as_str())).count();
            let k = r.up(n);
            let mut t = toks.clone();
            t[k] += r.pick(&["x", "_", "1", "graph"]);
            text::lay_out(&mut r, &t, false)
        }
        0 => format!("{plain} {junk}"),
        1 => format!("{plain}{junk}"),
        2 => format!("{} {plain}", if junk == "strict" { "x" } else { junk }),
        _ => {
            let n = r.up(toks.len());
            text::lay_out(&mut r, &toks[..n], false)
        }
    };
    on(&format!("{bad:?}"));
    if let Ok(h) = parse(&bad) {
        return fail(format!("{bad:?}"), "an error: the text is not one whole graph", format!("{h:?}"));
    }
    Ok(Case { desc: t, nontrivial: !text::parts(&g).2.is_empty() })
}

fn only_stmt(g: Graph) -> Option<Stmt> {
    match g {
        Graph::Graph { mut stmts, .. } | Graph::DiGraph { mut stmts, .. } if stmts.len() == 1 => stmts.pop(),
        _ => None,
    }
}
/// an id, wherever it is written, comes back as itself
pub fn c09(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed, "c09", i);
    let x = match (i % 4, i) {
        (0, _) => Id::Plain(gen::word(&mut r)),
        (1, _) => Id::Plain(gen::numeral(&mut r)),
        (2, _) => Id::Escaped(gen::quoted(&mut r)),
        _ => Id::Html(gen::html(&mut r, 4)),
    };
    let s = text::id_text(&x);
    let compass = COMPASS.contains(&s.as_str());
    let sp = |r: &mut Rng| *r.pick(&["", " ", "\n", "/**/"]);
    let (a, b) = (sp(&mut r), sp(&mut r));
    let glue = matches!(x, Id::Plain(_));
    let req = if glue { " " } else { a };
    let (t, get): (String, fn(Graph) -> Option<Id>) = match r.up(10) {
        0 => (format!("graph{}{s}{b}{{}}", if glue { " " } else { a }), |g| Some(text::parts(&g).0.clone())),
        1 => (format!("strict digraph {s}{b}{{x}}"), |g| Some(text::parts(&g).0.clone())),
        2 => (format!("graph{{{a}{s}{b}}}"), |g| match only_stmt(g)? {
            Stmt::Node(n) => Some(n.id.0),
            _ => None,
        }),
        3 => (format!("graph{{k{a}={b}{s}{a}}}"), |g| match only_stmt(g)? {
            Stmt::Attribute(n) => Some(n.1),
            _ => None,
        }),
        4 => (format!("graph{{{s}{a}={b}v}}"), |g| match only_stmt(g)? {
            Stmt::Attribute(n) => Some(n.0),
            _ => None,
        }),
        5 => (format!("graph{{node[k=v {s}{a}={b}v]}}"), |g| match only_stmt(g)? {
            Stmt::GAttribute(GraphAttributes::Node(mut n)) => Some(n.pop()?.0),
            _ => None,
        }),
        6 => (format!("graph{{x[k{a}={b}{s}{a}; k=v]}}"), |g| match only_stmt(g)? {
            Stmt::Node(n) => Some(n.attributes.into_iter().next()?.1),
            _ => None,
        }),
        7 => (format!("digraph{{x{a}->{b}{s}{a}}}"), |g| match only_stmt(g)? {
            Stmt::Edge(Edge { ty: EdgeTy::Pair(_, Vertex::N(n)), .. }) => Some(n.0),
            _ => None,
        }),
        8 => (format!("graph{{subgraph{req}{s}{b}{{x}}}}"), |g| match only_stmt(g)? {
            Stmt::Subgraph(n) => Some(n.id),
            _ => None,
        }),
        _ => (format!("graph{{x{a}:{b}{s}{a}:{b}ne}}"), |g| match only_stmt(g)? {
            Stmt::Node(n) => n.id.1?.0,
            _ => None,
        }),
    };
    on(&format!("{t:?}"));
    match parse(&t) {
        Err(e) => fail(format!("{t:?}"), format!("{x:?}"), format!("error {e}")),
        Ok(g) => {
            let d = format!("{g:?}");
            match get(g) {
                Some(y) if x == y => Ok(Case { desc: t, nontrivial: s.len() > 1 || compass }),
                y => fail(format!("{t:?}"), format!("{x:?}"), format!("{y:?} in {d}")),
            }
        }
    }
}

/// ports: one part, two parts, compass points and look-alikes
pub fn c10(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed, "c10", i);
    let a = text::gap(&mut r, false);
    let b = text::gap(&mut r, false);
    let c = text::gap(&mut r, false);
    let first = if r.chance(1, 2) {
        let base = *r.pick(&COMPASS);
        match r.up(4) {
            0 => Id::Plain(base.to_string()),
            1 => Id::Plain(format!("{base}{}", r.pick(&["x", "1", "_", "e", "n", "w", "E", "north"]))),
            2 => Id::Escaped(format!("\"{base}\"")),
            _ => Id::Plain(base.to_uppercase()),
        }
    } else {
        gen::id(&mut r)
    };
    let s = text::id_text(&first);
    let (txt, want): (String, Result<Port, ()>) = match r.up(3) {
        0 => {
            let w = match &first {
                Id::Plain(s) if COMPASS.contains(&s.as_str()) => Port(None, Some(s.clone())),
                i => Port(Some(i.clone()), None),
            };
            (format!(":{a}{s}"), Ok(w))
        }
        1 => {
            let d = *r.pick(&COMPASS);
            (format!(":{a}{s}{b}:{c}{d}"), Ok(Port(Some(first), Some(d.to_string()))))
        }
        _ => {
            // a second part that is no compass point
            let d = r.pick(&["x", "north", "nee", "n1", "ne_", "N", "\"n\"", "<n>", "1", "__", "cc", "sww", "_1", "center", "e2"]).to_string();
            (format!(":{a}{s}{b}:{c}{d}"), Err(()))
        }
    };
    let ctx = *r.pick(&["graph{v@}", "graph{v@;}", "graph{v@ [a=b]}", "graph{v@--w}", "graph{w -- v@}", "digraph{w->v@->u}", "digraph{v@->w [a=b]}", "graph{subgraph {v@}}"]);
    let t = ctx.replace('@', &format!("{txt} "));
    on(&format!("{t:?}"));
    match (parse(&t), want) {
        (Ok(g), Ok(p)) => {
            let mut found = vec![];
            find(text::parts(&g).2, &mut found);
            let want = NodeId(Id::Plain("v".into()), Some(p));
            if found.iter().filter(|n| **n == want).count() == 1 && found.iter().filter(|n| n.0 == Id::Plain("v".into())).count() == 1 {
                Ok(Case { desc: t, nontrivial: true })
            } else {
                fail(format!("{t:?}"), format!("{want:?}"), format!("{found:?}"))
            }
        }
        (Err(_), Err(())) => Ok(Case { desc: t, nontrivial: true }),
        (Ok(g), Err(())) => fail(format!("{t:?}"), "an error: the second part of a port is a compass point", format!("{g:?}")),
        (Err(e), Ok(p)) => fail(format!("{t:?}"), format!("{p:?}"), format!("error {e}")),
    }
}
fn find(v: &[Stmt], out: &mut Vec<NodeId>) {
    fn vx(v: &Vertex, out: &mut Vec<NodeId>) {
        match v {
            Vertex::N(n) => out.push(n.clone()),
            Vertex::S(s) => find(&s.stmts, out),
        }
    }
    for s in v {
        match s {
            Stmt::Node(n) => out.push(n.id.clone()),
            Stmt::Subgraph(s) => find(&s.stmts, out),
            Stmt::Edge(e) => match &e.ty {
                EdgeTy::Pair(a, b) => {
                    vx(a, out);
                    vx(b, out);
                }
                EdgeTy::Chain(v) => v.iter().for_each(|x| vx(x, out)),
            },
            _ => {}
        }
    }
}

/// layout does not matter
pub fn c11(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed, "c11", i);
    let g = graph(&mut r, i);
    let plain = rendered(&mut r, &g, false);
    let toks = tokens(&mut r, &g, true);
    let a = text::lay_out(&mut r, &toks, true);
    // the same tokens closed up as far as they can be
    let b: String = {
        let mut s = String::new();
        for (k, t) in toks.iter().enumerate() {
            s += t;
            if k + 1 < toks.len() && text::needs_gap(t, &toks[k + 1]) {
                s.push(' ');
            }
        }
        s
    };
    on(&format!("{a:?}\n{b:?}\n{plain:?}"));
    let p = parse(&plain);
    for t in [&a, &b] {
        let q = parse(t);
        match (&p, &q) {
            (Ok(x), Ok(y)) if norm(x) == norm(y) => {}
            _ => return fail(format!("plain text: {plain:?}\nother layout: {t:?}"), format!("{:?}", p.map(|g| norm(&g))), format!("{:?}", q.map(|g| norm(&g)))),
        }
    }
    Ok(Case { desc: a, nontrivial: toks.len() > 3 })
}
