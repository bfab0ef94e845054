//! Independent reading of the DOT language: what a graph's text must be, which tokens it has, and
//! how a graph may be written down with arbitrary blanks, comments and separators.
use crate::gen::Rng;
use graphviz_rust::dot_structures::*;

pub fn id_text(i: &Id) -> String {
    match i {
        Id::Html(s) | Id::Escaped(s) | Id::Plain(s) => s.clone(),
        Id::Anonymous(_) => String::new(),
    }
}

// ---------------------------------------------------------------- expected tokens
pub struct Toks<'a> {
    pub out: Vec<String>,
    pub op: &'a str,
}
impl<'a> Toks<'a> {
    fn p(&mut self, s: &str) {
        self.out.push(s.to_string());
    }
    fn id(&mut self, i: &Id) {
        if !matches!(i, Id::Anonymous(_)) {
            self.out.push(id_text(i));
        }
    }
    pub fn node_id(&mut self, n: &NodeId) {
        self.id(&n.0);
        if let Some(Port(a, b)) = &n.1 {
            if let Some(a) = a {
                self.p(":");
                self.id(a);
            }
            if let Some(b) = b {
                self.p(":");
                self.p(b);
            }
        }
    }
    pub fn attr(&mut self, a: &Attribute) {
        self.id(&a.0);
        self.p("=");
        self.id(&a.1);
    }
    pub fn attrs(&mut self, v: &[Attribute], always: bool) {
        if v.is_empty() && !always {
            return;
        }
        self.p("[");
        for a in v {
            self.attr(a);
        }
        self.p("]");
    }
    pub fn vertex(&mut self, v: &Vertex) {
        match v {
            Vertex::N(n) => self.node_id(n),
            Vertex::S(s) => self.subgraph(s),
        }
    }
    pub fn subgraph(&mut self, s: &Subgraph) {
        self.p("subgraph");
        self.id(&s.id);
        self.body(&s.stmts);
    }
    pub fn body(&mut self, v: &[Stmt]) {
        self.p("{");
        for s in v {
            self.stmt(s);
        }
        self.p("}");
    }
    pub fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Node(n) => {
                self.node_id(&n.id);
                self.attrs(&n.attributes, false);
            }
            Stmt::Subgraph(s) => self.subgraph(s),
            Stmt::Attribute(a) => self.attr(a),
            Stmt::GAttribute(g) => {
                let (k, v) = match g {
                    GraphAttributes::Graph(v) => ("graph", v),
                    GraphAttributes::Node(v) => ("node", v),
                    GraphAttributes::Edge(v) => ("edge", v),
                };
                self.p(k);
                self.attrs(v, true);
            }
            Stmt::Edge(e) => self.edge(e),
        }
    }
    pub fn edge(&mut self, e: &Edge) {
        let vs: Vec<&Vertex> = match &e.ty {
            EdgeTy::Pair(a, b) => vec![a, b],
            EdgeTy::Chain(v) => v.iter().collect(),
        };
        for (i, v) in vs.iter().enumerate() {
            if i > 0 {
                let o = self.op.to_string();
                self.p(&o);
            }
            self.vertex(v);
        }
        self.attrs(&e.attributes, false);
    }
}
pub fn op_of(g: &Graph) -> &'static str {
    match g {
        Graph::Graph { .. } => "--",
        Graph::DiGraph { .. } => "->",
    }
}
pub fn parts(g: &Graph) -> (&Id, bool, &Vec<Stmt>, bool) {
    match g {
        Graph::Graph { id, strict, stmts } => (id, *strict, stmts, false),
        Graph::DiGraph { id, strict, stmts } => (id, *strict, stmts, true),
    }
}
pub fn graph_tokens(g: &Graph) -> Vec<String> {
    let mut t = Toks { out: vec![], op: op_of(g) };
    let (id, strict, stmts, di) = parts(g);
    if strict {
        t.p("strict");
    }
    t.p(if di { "digraph" } else { "graph" });
    t.id(id);
    t.body(stmts);
    t.out
}

// ---------------------------------------------------------------- tokenizer
fn w0(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_'
}
fn w1(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}
/// the DOT tokens of a text; the optional `;` and `,` are left out
pub fn tokenize(s: &str) -> Result<Vec<String>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        let st = i;
        if x == ' ' || x == '\n' || x == '\t' || x == '\r' {
            i += 1;
            continue;
        }
        if x == ';' || x == ',' {
            i += 1;
            continue;
        }
        if "{}[]=:".contains(x) {
            i += 1;
        } else if x == '-' && i + 1 < c.len() && (c[i + 1] == '-' || c[i + 1] == '>') {
            i += 2;
        } else if x == '"' {
            i += 1;
            loop {
                if i >= c.len() {
                    return Err("unfinished string".into());
                }
                if c[i] == '\\' {
                    i += 2;
                } else if c[i] == '"' {
                    i += 1;
                    break;
                } else {
                    i += 1;
                }
            }
        } else if x == '<' {
            let mut d = 0;
            loop {
                if i >= c.len() {
                    return Err("unfinished html".into());
                }
                if c[i] == '<' {
                    d += 1;
                } else if c[i] == '>' {
                    d -= 1;
                }
                i += 1;
                if d == 0 {
                    break;
                }
            }
        } else if w0(x) {
            while i < c.len() && w1(c[i]) {
                i += 1;
            }
        } else if x == '-' || x == '.' || x.is_ascii_digit() {
            if x == '-' {
                i += 1;
            }
            let a = i;
            while i < c.len() && c[i].is_ascii_digit() {
                i += 1;
            }
            let int = i > a;
            let mut frac = false;
            if i < c.len() && c[i] == '.' {
                i += 1;
                let b = i;
                while i < c.len() && c[i].is_ascii_digit() {
                    i += 1;
                }
                frac = i > b;
            }
            if !int && !frac {
                return Err(format!("odd character at {st}"));
            }
            if i < c.len() && (w1(c[i]) || c[i] == '.') {
                return Err(format!("a numeral runs into the next word at {i}"));
            }
        } else {
            return Err(format!("odd character {x:?} at {st}"));
        }
        out.push(c[st..i.min(c.len())].iter().collect());
    }
    Ok(out)
}

// ---------------------------------------------------------------- expected layout
#[derive(Clone, Debug)]
pub struct Opts {
    pub semi: bool,
    pub multi: bool,
    pub comma: bool,
    pub step: usize,
    pub ls: String,
    pub width: usize,
    /// the ids with a custom value printer, and which one
    pub fmts: Vec<(Id, u8)>,
}
pub fn fmt_value(kind: u8, v: &str, sep: &str, indent: &str, step: usize) -> String {
    match kind {
        0 => format!("<<{v}|{sep:?}|{indent}|{step}>>"),
        1 => format!("\"{}{}\"", v.len(), indent.len()),
        2 => String::new(),
        _ => format!("{v}{sep}{indent}{v}"),
    }
}
impl Opts {
    fn inline(&self) -> bool {
        self.ls.is_empty()
    }
    fn pad(&self, ind: usize) -> String {
        if self.inline() {
            String::new()
        } else {
            " ".repeat(ind)
        }
    }
    pub fn graph(&self, g: &Graph) -> String {
        let (id, strict, stmts, di) = parts(g);
        format!(
            "{}{} {} {{{}{}{}}}",
            if strict { "strict " } else { "" },
            if di { "digraph" } else { "graph" },
            id_text(id),
            self.ls,
            self.body(stmts, self.step, di),
            self.ls
        )
    }
    pub fn body(&self, v: &[Stmt], ind: usize, di: bool) -> String {
        let lines: Vec<String> = v.iter().map(|s| self.stmt(s, ind, di)).collect();
        if !self.inline() {
            return lines.join(&self.ls);
        }
        let mut out = String::new();
        for l in lines {
            match out.chars().last() {
                None | Some(']') | Some('}') | Some(';') => {}
                _ => out.push(' '),
            }
            out += &l;
        }
        out
    }
    pub fn stmt(&self, s: &Stmt, ind: usize, di: bool) -> String {
        let t = match s {
            Stmt::Node(n) => self.node(n, ind),
            Stmt::Subgraph(g) => self.subgraph(g, ind, di),
            Stmt::Attribute(a) => self.attr(a, ind),
            Stmt::GAttribute(g) => self.gattr(g, ind),
            Stmt::Edge(e) => self.edge(e, ind, di),
        };
        format!("{}{}{}", self.pad(ind), t, if self.semi { ";" } else { "" })
    }
    pub fn node(&self, n: &Node, ind: usize) -> String {
        node_id_text(&n.id) + &self.attrs(&n.attributes, ind)
    }
    pub fn gattr(&self, g: &GraphAttributes, ind: usize) -> String {
        let (k, v) = match g {
            GraphAttributes::Graph(v) => ("graph", v),
            GraphAttributes::Node(v) => ("node", v),
            GraphAttributes::Edge(v) => ("edge", v),
        };
        if v.is_empty() {
            format!("{k}[]")
        } else {
            format!("{k}{}", self.attrs(v, ind))
        }
    }
    pub fn attr(&self, a: &Attribute, ind: usize) -> String {
        let v = id_text(&a.1);
        let v = match self.fmts.iter().rev().find(|f| f.0 == a.0) {
            Some((_, k)) => fmt_value(*k, &v, &self.ls, &self.pad(ind), self.step),
            None => v,
        };
        format!("{}={}", id_text(&a.0), v)
    }
    pub fn attrs(&self, v: &[Attribute], ind: usize) -> String {
        if v.is_empty() {
            return String::new();
        }
        let each: Vec<String> = v.iter().map(|a| self.attr(a, ind)).collect();
        if v.len() == 1 || !self.multi {
            return format!("[{}]", each.join(" "));
        }
        let comma = if self.inline() || self.comma { "," } else { "" };
        let deep = self.pad(ind + self.step);
        let mut out = String::from("[");
        for (i, e) in each.iter().enumerate() {
            if i > 0 {
                out += comma;
            }
            out += &self.ls;
            out += &deep;
            out += e;
        }
        out + &self.ls + &self.pad(ind) + "]"
    }
    pub fn subgraph(&self, s: &Subgraph, ind: usize, di: bool) -> String {
        format!("subgraph {} {{{}{}{}{}}}", id_text(&s.id), self.ls, self.body(&s.stmts, ind + self.step, di), self.ls, self.pad(ind))
    }
    fn edge_lines(&self, e: &Edge, ind: usize, di: bool) -> String {
        let op = if di { "->" } else { "--" };
        let (vs, pair): (Vec<&Vertex>, bool) = match &e.ty {
            EdgeTy::Pair(a, b) => (vec![a, b], true),
            EdgeTy::Chain(v) => (v.iter().collect(), false),
        };
        let vs: Vec<String> = vs
            .iter()
            .map(|v| match v {
                Vertex::N(n) => node_id_text(n),
                Vertex::S(s) => self.subgraph(s, ind, di),
            })
            .collect();
        let mut out = vs.join(&format!(" {op} "));
        if pair && !e.attributes.is_empty() {
            out.push(' ');
        }
        out + &self.attrs(&e.attributes, ind)
    }
    pub fn edge(&self, e: &Edge, ind: usize, di: bool) -> String {
        let long = self.edge_lines(e, ind, di);
        if !self.inline() && long.len() <= self.width {
            let o = Opts { ls: String::new(), ..self.clone() };
            return o.edge_lines(e, ind, di);
        }
        long
    }
}
pub fn node_id_text(n: &NodeId) -> String {
    let mut s = id_text(&n.0);
    if let Some(Port(a, b)) = &n.1 {
        if let Some(a) = a {
            s += ":";
            s += &id_text(a);
        }
        if let Some(b) = b {
            s += ":";
            s += b;
        }
    }
    s
}

// ---------------------------------------------------------------- writing with free layout
/// tokens of a graph with the optional separators and attribute groups chosen at random
pub struct Writer<'a> {
    pub r: &'a mut Rng,
    pub out: Vec<String>,
    pub op: &'a str,
    /// choose separators and groups at random (else the plainest form)
    pub free: bool,
}
impl<'a> Writer<'a> {
    fn ch(&mut self, n: usize, d: usize) -> bool {
        self.free && self.r.chance(n, d)
    }
    fn p(&mut self, s: &str) {
        self.out.push(s.to_string());
    }
    fn id(&mut self, i: &Id) {
        if !matches!(i, Id::Anonymous(_)) {
            self.out.push(id_text(i));
        }
    }
    pub fn graph(&mut self, g: &Graph) {
        let (id, strict, stmts, di) = parts(g);
        if strict {
            self.p("strict");
        }
        self.p(if di { "digraph" } else { "graph" });
        self.id(id);
        self.body(stmts);
    }
    fn body(&mut self, v: &[Stmt]) {
        self.p("{");
        for s in v {
            self.stmt(s);
            if self.ch(1, 2) {
                self.p(";");
            }
        }
        self.p("}");
    }
    fn node_id(&mut self, n: &NodeId) {
        let mut t = Toks { out: vec![], op: "" };
        t.node_id(n);
        self.out.extend(t.out);
    }
    fn attrs(&mut self, v: &[Attribute], always: bool) {
        if v.is_empty() && !always && !self.ch(1, 4) {
            return;
        }
        self.p("[");
        for (i, a) in v.iter().enumerate() {
            self.id(&a.0);
            self.p("=");
            self.id(&a.1);
            match if self.free { self.r.up(3) } else { 0 } {
                1 => self.p(","),
                2 => self.p(";"),
                _ => {}
            }
            if i + 1 < v.len() && self.ch(1, 6) {
                self.p("]");
                self.p("[");
            }
        }
        self.p("]");
        if self.ch(1, 8) {
            self.p("[");
            self.p("]");
        }
    }
    fn subgraph(&mut self, s: &Subgraph) {
        self.p("subgraph");
        self.id(&s.id);
        self.body(&s.stmts);
    }
    fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Node(n) => {
                self.node_id(&n.id);
                self.attrs(&n.attributes, false);
            }
            Stmt::Subgraph(s) => self.subgraph(s),
            Stmt::Attribute(a) => {
                self.id(&a.0);
                self.p("=");
                self.id(&a.1);
            }
            Stmt::GAttribute(g) => {
                let (k, v) = match g {
                    GraphAttributes::Graph(v) => ("graph", v),
                    GraphAttributes::Node(v) => ("node", v),
                    GraphAttributes::Edge(v) => ("edge", v),
                };
                self.p(k);
                self.attrs(v, true);
            }
            Stmt::Edge(e) => {
                let vs: Vec<&Vertex> = match &e.ty {
                    EdgeTy::Pair(a, b) => vec![a, b],
                    EdgeTy::Chain(v) => v.iter().collect(),
                };
                for (i, v) in vs.iter().enumerate() {
                    if i > 0 {
                        let o = self.op.to_string();
                        self.p(&o);
                    }
                    match v {
                        Vertex::N(n) => self.node_id(n),
                        Vertex::S(s) => self.subgraph(s),
                    }
                }
                self.attrs(&e.attributes, false);
            }
        }
    }
}
/// two neighbours that need something between them
pub fn needs_gap(a: &str, b: &str) -> bool {
    wordy(a, b)
}
fn wordy(a: &str, b: &str) -> bool {
    let x = a.chars().last().unwrap_or(' ');
    let y = b.chars().next().unwrap_or(' ');
    (w1(x) || x == '.') && (w1(y) || y == '.' || y == '-') && b != "--" && b != "->" && !a.starts_with('"') && !a.starts_with('<')
}
pub fn gap(r: &mut Rng, need: bool) -> String {
    let mut s = String::new();
    let n = if need { 1 + r.up(2) } else { r.up(3) };
    for _ in 0..n {
        if let Some(b) = r.bit(12) {
            // in a comment
            s += &if r.chance(1, 2) { format!("/*{}*/", b.replace("*/", "").replace("*/", "").trim_end_matches('*')) } else { format!("{}{}\n", r.pick(&["//", "#"]), b.replace(['\n', '\r'], "")) };
        }
        let t = *r.pick(&[
            " ", " ", " ", "\n", "\t", "\r\n", "  \n ", "/**/", "/* a */", "/* // \" */", "/***/", "/* / * */", "/*/*/", "/* /* x */", "/*//*/", "// /*\n", "# */\n", "/* # */", "/*\n//\n*/", "/*\r\n*/", "//\r//\n", "/*\t*/", "// c\n", "//\r\n", "# x\n", "#\n", "// \"{[\n", "/* \n */", "# // /* \n", "/* }]; */", "//é\n",
        ]);
        s += t;
    }
    s
}
pub fn lay_out(r: &mut Rng, toks: &[String], free: bool) -> String {
    let mut s = String::new();
    if free {
        s += &gap(r, false);
    }
    for (i, t) in toks.iter().enumerate() {
        s += t;
        if i + 1 < toks.len() {
            let need = wordy(t, &toks[i + 1]);
            if free {
                s += &gap(r, need);
            } else {
                s.push(' ');
            }
        } else if free {
            s += &gap(r, false);
            if r.chance(1, 5) {
                s += *r.pick(&["// end", "# end", "/* end */", "//", "#"]);
            }
        }
    }
    s
}

// ---------------------------------------------------------------- equality up to anonymous names
pub fn norm(g: &Graph) -> Graph {
    fn id(i: &Id) -> Id {
        match i {
            Id::Anonymous(_) => Id::Anonymous(String::new()),
            i => i.clone(),
        }
    }
    fn sub(s: &Subgraph) -> Subgraph {
        Subgraph { id: id(&s.id), stmts: body(&s.stmts) }
    }
    fn vx(v: &Vertex) -> Vertex {
        match v {
            Vertex::S(s) => Vertex::S(sub(s)),
            v => v.clone(),
        }
    }
    fn body(v: &[Stmt]) -> Vec<Stmt> {
        v.iter()
            .map(|s| match s {
                Stmt::Subgraph(s) => Stmt::Subgraph(sub(s)),
                Stmt::Edge(e) => Stmt::Edge(Edge {
                    ty: match &e.ty {
                        EdgeTy::Pair(a, b) => EdgeTy::Pair(vx(a), vx(b)),
                        EdgeTy::Chain(v) => EdgeTy::Chain(v.iter().map(vx).collect()),
                    },
                    attributes: e.attributes.clone(),
                }),
                s => s.clone(),
            })
            .collect()
    }
    match g {
        Graph::Graph { id: i, strict, stmts } => Graph::Graph { id: id(i), strict: *strict, stmts: body(stmts) },
        Graph::DiGraph { id: i, strict, stmts } => Graph::DiGraph { id: id(i), strict: *strict, stmts: body(stmts) },
    }
}
