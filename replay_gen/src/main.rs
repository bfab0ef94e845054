//! Bounded, executable side of the checks for the companion crates (dot-generator, dot-structures,
//! into-attr-derive) as they are in /repo: the failing input for a failed proof obligation, and an audit of
//! what the proofs assume.  It never stands for a proof.
mod cases;
mod dict;
mod rnd;
use dot_structures::*;
use into_attr::IntoAttribute;
use rnd::Rnd;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

/// (input, observed, expected)
type Case = (String, String, String);

fn c15(seed: u64, i: u64) -> Case {
    let mut r = Rnd::new(seed, "C15", i);
    cases::case(i as usize % cases::N, &mut r)
}

fn case_mix(r: &mut Rnd, s: &str) -> String {
    s.chars().map(|c| if r.below(2) == 0 { c.to_ascii_uppercase() } else { c }).collect()
}
fn c16(seed: u64, i: u64) -> Case {
    let mut r = Rnd::new(seed, "C16", i);
    macro_rules! conv {
        ($x:expr, $t:ident, $v:ident) => {{
            let x = $x;
            (format!("{}::from({x:?})", stringify!($t)), format!("{:?}", $t::from(x.clone())), format!("{:?}", $t::$v(x)))
        }};
    }
    match i % 12 {
        0 => {
            let (mut g, s) = (r.graph(2), r.stmt(1));
            let d = format!("({g:?}).add_stmt({s:?})");
            let want = match g.clone() {
                Graph::Graph { id, strict, mut stmts } => {
                    stmts.insert(stmts.len(), s.clone());
                    Graph::Graph { id, strict, stmts }
                }
                Graph::DiGraph { id, strict, mut stmts } => {
                    stmts.insert(stmts.len(), s.clone());
                    Graph::DiGraph { id, strict, stmts }
                }
            };
            g.add_stmt(s);
            (d, format!("{g:?}"), format!("{want:?}"))
        }
        1 => {
            let (mut g, s) = (r.subgraph(2), r.stmt(1));
            let d = format!("({g:?}).add_stmt({s:?})");
            let mut want = g.clone();
            let n = want.stmts.len();
            want.stmts.insert(n, s.clone());
            g.add_stmt(s);
            (d, format!("{g:?}"), format!("{want:?}"))
        }
        2 => conv!(r.node(), Stmt, Node),
        3 => conv!(r.edge(1), Stmt, Edge),
        4 => conv!(r.gattrs(), Stmt, GAttribute),
        5 => conv!(r.attr(), Stmt, Attribute),
        6 => conv!(r.subgraph(1), Stmt, Subgraph),
        7 => conv!(r.node_id(), Vertex, N),
        8 => conv!(r.subgraph(1), Vertex, S),
        9 => {
            let a = r.attrs();
            let (n, want) = match r.below(3) {
                0 => ("graph", GraphAttributes::Graph(a.clone())),
                1 => ("node", GraphAttributes::Node(a.clone())),
                _ => ("edge", GraphAttributes::Edge(a.clone())),
            };
            let n = case_mix(&mut r, n);
            (format!("GraphAttributes::new({n:?}, {a:?})"), format!("{:?}", GraphAttributes::new(&n, a)), format!("{want:?}"))
        }
        10 => {
            let (n, a) = (r.node_id(), r.attrs());
            (format!("Node::new({n:?}, {a:?})"), format!("{:?}", Node::new(n.clone(), a.clone())), format!("{:?}", Node { id: n, attributes: a }))
        }
        _ => {
            let id = r.id();
            let want = match &id {
                Id::Html(v) => "html ".to_string() + v,
                Id::Escaped(v) => "esc ".to_string() + v,
                Id::Plain(v) => v.clone(),
                Id::Anonymous(v) => "anon ".to_string() + v,
            };
            (format!("{id:?}.to_string()"), id.to_string(), want)
        }
    }
}

fn c14(seed: u64, i: u64) -> Case {
    use driver_derive as d;
    let mut r = Rnd::new(seed, "C14", i);
    let t = r.text();
    macro_rules! is {
        ($x:expr, $k:expr, $v:expr) => {{
            let x = $x;
            let s = format!("({x:?}).into_attr()");
            let a = x.into_attr();
            (s, format!("{:?} = {:?}", a.0.to_string(), a.1.to_string()), format!("{:?} = {:?}", $k, $v))
        }};
    }
    match i % 22 {
        0 => is!(d::one::only, "one", "only"),
        1 => is!(d::last_::type_, "last_", "type"),
        2 => is!(d::last_::type__, "last_", "type_"),
        3 => is!(d::last_::_x, "last_", "_x"),
        4 => is!(d::last_::__, "last_", "_"),
        5 => is!(d::last_::plain, "last_", "plain"),
        6 => is!(d::Kind::Alpha, "Kind", "Alpha"),
        7 => is!(d::Kind::b_eta, "Kind", "b_eta"),
        8 => is!(d::Kind::c3, "Kind", "c3"),
        9 => is!(d::Kind::static_, "Kind", "static"),
        10 => is!(d::Kind::CamelCase_, "Kind", "CamelCase"),
        11 => is!(d::Kind::z, "Kind", "z"),
        12 => is!(d::shape::box_, "shape", "box"),
        13 => is!(d::shape::polygon, "shape", "polygon"),
        14 => is!(d::shape::ellipse, "shape", "ellipse"),
        15 => is!(d::shape::invis, "shape", "invis"),
        16 => is!(d::of_text(t.clone()), "of_text", t),
        17 => {
            let f = (r.next() as i32) as f32 / 1000.0;
            is!(d::of_number(f), "of_number", f.to_string())
        }
        18 => is!(d::of_whole(i as i32 - 5), "of_whole", (i as i32 - 5).to_string()),
        19 => is!(d::of_yes(t.len() > 2), "of_yes", (t.len() > 2).to_string()),
        20 => is!(d::of_big(u64::MAX - i), "of_big", (u64::MAX - i).to_string()),
        _ => is!(d::of_label_(t.clone()), "of_label_", t),
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let prop = a[2].clone();
    let f: fn(u64, u64) -> Case = match prop.as_str() {
        "C14" => c14,
        "C15" => c15,
        "C16" => c16,
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(3)
        }
    };
    let seed: u64 = a[3].parse().unwrap();
    let one = |i: u64| match catch_unwind(AssertUnwindSafe(|| f(seed, i))) {
        Ok(c) => c,
        Err(_) => (format!("case {i}"), "panic".to_string(), "a result".to_string()),
    };
    if a[1] == "case" {
        let (d, got, want) = one(a[4].parse().unwrap());
        println!("--- input\n{d}\n--- expected\n{want}\n--- observed\n{got}");
        std::process::exit((got != want) as i32);
    }
    let max: u64 = a[4].parse().unwrap();
    let secs: f64 = a[5].parse().unwrap();
    let t0 = Instant::now();
    let (mut n, mut seen, mut samples, mut bad) = (0u64, HashSet::new(), vec![], None);
    while n < max && t0.elapsed() < Duration::from_secs_f64(secs) {
        let (d, got, want) = one(n);
        if got != want {
            bad = Some((n, d, got, want));
            break;
        }
        if n < 3 {
            samples.push(json(&d.chars().take(400).collect::<String>()));
        }
        seen.insert(d);
        if seen.len() > 400_000 {
            break;
        }
        n += 1;
    }
    let fail = match &bad {
        None => "null".to_string(),
        Some((i, d, got, want)) => {
            std::fs::write(&a[6], format!("property {prop} seed {seed} case {i}\nre-run: replay_gen case {prop} {seed} {i}\n--- input\n{d}\n--- expected\n{want}\n--- observed\n{got}\n")).unwrap();
            format!("{{\"case\":{i},\"input\":{},\"observed\":{}}}", json(&d.chars().take(2000).collect::<String>()), json(&got.chars().take(2000).collect::<String>()))
        }
    };
    println!("{{\"evaluations\":{n},\"distinct\":{},\"samples\":[{}],\"fail\":{fail}}}", seen.len(), samples.join(","));
    std::process::exit(bad.is_some() as i32);
}
