//! Random inputs.  Everything is a function of (seed, index): a case can be run again alone.
use graphviz_rust::dot_structures::*;

#[derive(Clone)]
pub struct Rng(u64, Vec<Id>);
impl Rng {
    pub fn new(seed: u64, tag: &str, index: u64) -> Rng {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in tag.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(h ^ index.wrapping_mul(0xD1B54A32D192ED03), vec![]);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn up(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.up(den) < num
    }
    /// see dict.rs
    pub fn bit(&mut self, den: usize) -> Option<String> {
        crate::dict::bit(&mut |n| self.up(n), den)
    }
    pub fn num(&mut self, den: usize, max: usize) -> Option<usize> {
        crate::dict::num(&mut |n| self.up(n), den, max)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.up(v.len());
        &v[i]
    }
}

pub const COMPASS: [&str; 10] = ["n", "ne", "e", "se", "s", "sw", "w", "nw", "c", "_"];
const KEYWORDS: [&str; 6] = ["graph", "digraph", "node", "edge", "subgraph", "strict"];
const ODD_WORDS: [&str; 46] = [
    "a", "b", "A", "Z", "n", "ne", "nw", "s", "sw", "se", "e", "w", "c", "_", "north", "new", "sea", "cc", "__", "_1", "n1", "ne2", "graph1", "graphs", "node1",
    "nodes", "edge_", "edges", "subgraphs", "subgraph_1", "strict2", "strictly", "digraph1", "x", "y1", "e1", "E", "Ab_9", "nodegraph", "edge1", "label", "color", "shape", "k1", "k2", "k3",
];

pub fn word(r: &mut Rng) -> String {
    loop {
        let lit: String = r.bit(6).unwrap_or_default().chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
        let w = if !lit.is_empty() && !lit.starts_with(|c: char| c.is_ascii_digit()) {
            match r.up(4) {
                0 => format!("{}{}", r.pick(&ODD_WORDS), lit),
                1 => format!("{}{}", lit, r.pick(&ODD_WORDS)),
                _ => lit,
            }
        } else if r.chance(1, 2) {
            r.pick(&ODD_WORDS).to_string()
        } else {
            let len = r.num(6, 400).filter(|n| *n > 0);
            let n = match r.up(10) {
                _ if len.is_some() => len.unwrap(),
                0 => 1,
                1..=6 => 1 + r.up(6),
                7 | 8 => 5 + r.up(20),
                _ => 30 + r.up(70),
            };
            let mut s = String::new();
            for i in 0..n {
                let set: &[u8] = if i == 0 { b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_" } else { b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789" };
                s.push(*r.pick(set) as char);
            }
            s
        };
        if !KEYWORDS.contains(&w.to_lowercase().as_str()) {
            return w;
        }
    }
}
fn digits(r: &mut Rng, min: usize) -> String {
    // now and then longer than any machine number
    let n = min + if r.chance(1, 16) { r.up(60) } else { r.up(4) };
    (0..n).map(|_| (b'0' + r.up(10) as u8) as char).collect()
}
pub fn numeral(r: &mut Rng) -> String {
    let sign = if r.chance(1, 3) { "-" } else { "" };
    if let Some(n) = r.num(6, usize::MAX) {
        return format!("{sign}{n}{}", r.pick(&["", ".", ".0", ".5"]));
    }
    match r.up(4) {
        0 | 1 => format!("{}{}", sign, digits(r, 1)),
        2 => format!("{}{}.{}", sign, digits(r, 1), digits(r, 0)),
        _ => format!("{}.{}", sign, digits(r, 1)),
    }
}
const TEXT: [&str; 44] = [
    "a", "b", "1", " ", "  ", "\n", "\t", "\r", "\r\n", "/", "*", "//", "/*", "*/", "#", "{", "}", "[", "]", ";", ",", "=", "->", "--", "-", ":", "é", "∀", "😀", "'", "graph", "node", "subgraph", "n", "x y", "&amp;", "%", "|", ".", "_", "0", "strict",
    "@", "~",
];
pub fn quoted(r: &mut Rng) -> String {
    let mut s = String::from("\"");
    let w = if r.chance(1, 10) { 40 } else { 7 };
    let n = if r.chance(1, 12) { 0 } else { 1 + r.up(w) };
    for _ in 0..n {
        if let Some(t) = r.bit(5) {
            let mut c = t.chars();
            while let Some(x) = c.next() {
                match x {
                    '"' => s.push_str("\\\""),
                    '\\' => {
                        s.push(x);
                        s.push(c.next().unwrap_or('l'));
                    }
                    _ => s.push(x),
                }
            }
            continue;
        }
        match r.up(12) {
            0 => s.push_str("\\\""),
            1 => s.push_str("\\\\"),
            2 => s.push_str("\\n"),
            3 => s.push_str("<"),
            4 => s.push_str(">"),
            5 => {
                // a backslash escapes whatever comes next
                s.push('\\');
                let t = *r.pick(&["a", " ", "é", "l", "\n", "{", "N"]);
                s.push_str(t)
            }
            _ => {
                let t = *r.pick(&TEXT);
                s.push_str(t)
            }
        }
    }
    s.push('"');
    s
}
pub fn html(r: &mut Rng, depth: usize) -> String {
    let mut s = String::from("<");
    for _ in 0..r.up(5) {
        if depth > 0 && r.chance(1, 3) {
            s.push_str(&html(r, depth - 1));
        } else {
            if let Some(t) = r.bit(5) {
                let mut d = 0;
                let ok = t.chars().all(|c| {
                    d += (c == '<') as i32 - (c == '>') as i32;
                    d >= 0
                });
                let t: String = if ok && d == 0 { t } else { t.chars().filter(|c| *c != '<' && *c != '>').collect() };
                s.push_str(&t);
            }
            let t = *r.pick(&["a", "b r", "/b", "IMG SRC=\"x\"", "\"", "'", "\\", "é", "\n", " ", "#", "//", "/*", "{", "}", "[", "]", ";", "=", "1", "&lt;", "TD PORT=\"f1\"", "--"]);
            s.push_str(t);
        }
    }
    s.push('>');
    s
}

/// an id with a text, of a kind that can be written anywhere an id can
pub fn id(r: &mut Rng) -> Id {
    if !r.1.is_empty() && r.chance(1, 7) {
        // one that occurred before, or its text as another kind of id
        let k = r.up(r.1.len());
        let i = r.1[k].clone();
        return match i {
            Id::Plain(s) if r.chance(1, 4) => Id::Escaped(format!("\"{s}\"")),
            Id::Plain(s) if r.chance(1, 8) => Id::Html(format!("<{s}>")),
            i => i,
        };
    }
    let i = match r.up(10) {
        0..=4 => Id::Plain(word(r)),
        5 | 6 => Id::Plain(numeral(r)),
        7 | 8 => Id::Escaped(quoted(r)),
        _ => Id::Html(html(r, 3)),
    };
    if r.1.len() < 10 {
        r.1.push(i.clone());
    } else if r.chance(1, 2) {
        let k = r.up(10);
        r.1[k] = i.clone();
    }
    i
}
/// a list in which elements may come back
fn listed<T: Clone>(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    for _ in 0..n {
        let x = match v.len() {
            l if l > 0 && r.chance(1, 9) => v[if r.chance(1, 2) { l - 1 } else { r.up(l) }].clone(),
            _ => f(r),
        };
        v.push(x);
    }
    v
}
pub fn id_or_anon(r: &mut Rng) -> Id {
    if r.chance(1, 3) {
        Id::Anonymous(r.next().to_string())
    } else {
        id(r)
    }
}
pub fn port(r: &mut Rng) -> Port {
    match r.up(3) {
        0 => Port(None, Some(r.pick(&COMPASS).to_string())),
        1 => Port(Some(id(r)), Some(r.pick(&COMPASS).to_string())),
        _ => loop {
            let i = id(r);
            if let Id::Plain(s) = &i {
                if COMPASS.contains(&s.as_str()) {
                    continue;
                }
            }
            return Port(Some(i), None);
        },
    }
}
pub fn node_id(r: &mut Rng) -> NodeId {
    let i = id(r);
    if r.chance(1, 3) {
        let p = port(r);
        NodeId(i, Some(p))
    } else {
        NodeId(i, None)
    }
}
pub fn attr(r: &mut Rng) -> Attribute {
    let k = id(r);
    Attribute(k, id(r))
}
pub fn attrs(r: &mut Rng, min: usize) -> Vec<Attribute> {
    let n = match r.up(8) {
        0 | 1 => 0,
        2 | 3 => 1,
        4 | 5 => 2,
        6 => 3,
        _ => 2 + r.up(9),
    };
    let n = r.num(12, 70).unwrap_or(n);
    listed(r, n.max(min), attr)
}

/// what a generated graph may contain
#[derive(Clone, Copy)]
pub struct Shape {
    pub depth: usize,
    pub width: usize,
    /// a chain may have any number of vertices from one (else three or more)
    pub short_chains: bool,
}

pub fn subgraph(r: &mut Rng, sh: Shape) -> Subgraph {
    let id = id_or_anon(r);
    Subgraph { id, stmts: stmts(r, Shape { depth: sh.depth.saturating_sub(1), width: sh.width.saturating_sub(1).max(1), ..sh }) }
}
pub fn vertex(r: &mut Rng, sh: Shape) -> Vertex {
    if sh.depth > 0 && r.chance(1, 4) {
        Vertex::S(subgraph(r, sh))
    } else {
        Vertex::N(node_id(r))
    }
}
pub fn edge(r: &mut Rng, sh: Shape) -> Edge {
    let ty = if r.chance(1, 2) {
        let a = vertex(r, sh);
        let b = if r.chance(1, 12) { a.clone() } else { vertex(r, sh) };
        EdgeTy::Pair(a, b)
    } else {
        let n = if sh.short_chains { 1 + r.up(5) } else { 3 + r.up(4) };
        let n = r.num(12, 70).unwrap_or(n).max(if sh.short_chains { 1 } else { 3 });
        let sh = if n > 8 { Shape { depth: 0, ..sh } } else { sh };
        EdgeTy::Chain(listed(r, n, |r| vertex(r, sh)))
    };
    Edge { ty, attributes: attrs(r, 0) }
}
pub fn gattr(r: &mut Rng) -> GraphAttributes {
    let a = attrs(r, 0);
    match r.up(3) {
        0 => GraphAttributes::Graph(a),
        1 => GraphAttributes::Node(a),
        _ => GraphAttributes::Edge(a),
    }
}
pub fn node(r: &mut Rng) -> Node {
    let id = node_id(r);
    Node { id, attributes: attrs(r, 0) }
}
pub fn stmt(r: &mut Rng, sh: Shape) -> Stmt {
    match r.up(if sh.depth > 0 { 12 } else { 9 }) {
        0 | 1 => Stmt::Node(node(r)),
        2 | 3 => Stmt::Attribute(attr(r)),
        4 | 5 => Stmt::GAttribute(gattr(r)),
        6..=9 => Stmt::Edge(edge(r, sh)),
        _ => Stmt::Subgraph(subgraph(r, sh)),
    }
}
pub fn stmts(r: &mut Rng, sh: Shape) -> Vec<Stmt> {
    let n = r.up(sh.width + 1);
    let n = r.num(12, 70).filter(|_| sh.depth < 2).unwrap_or(n);
    let sh = if n > 8 { Shape { depth: sh.depth.min(1), width: sh.width.min(4), ..sh } } else { sh };
    listed(r, n, |r| stmt(r, sh))
}
pub fn graph(r: &mut Rng, sh: Shape) -> Graph {
    let id = id_or_anon(r);
    let strict = r.chance(1, 2);
    let stmts = stmts(r, sh);
    if r.chance(1, 2) {
        Graph::Graph { id, strict, stmts }
    } else {
        Graph::DiGraph { id, strict, stmts }
    }
}
pub fn shape(r: &mut Rng, index: u64) -> Shape {
    let (depth, width) = match index {
        0..=199 => (0, 1),
        200..=499 => (1, 2),
        _ => match r.up(20) {
            0 => (r.num(1, 40).unwrap_or(8), 1),
            1 => (5, 2),
            2 => (0, 40),
            3 => (1, 20),
            _ => (r.up(4), 1 + r.up(5)),
        },
    };
    Shape { depth, width, short_chains: false }
}
