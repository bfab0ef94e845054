use dot_structures::*;

pub struct Rnd(u64, Vec<String>);
impl Rnd {
    pub fn new(seed: u64, prop: &str, i: u64) -> Self {
        let mut h = seed ^ i.wrapping_mul(0x9E3779B97F4A7C15);
        for b in prop.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rnd(h, vec![]);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn text(&mut self) -> String {
        const W: &[&str] = &["", "a", "b1", "graph", "node", "n", "_x", "1", "-2.5", "\"q\"", "<b>", "a b", "a\"b", "\\", "\n", "é", "日本", "html ", "{}", "{0}", "%s", ";", ",", "strict", "anonymous"];
        if !self.1.is_empty() && self.below(6) == 0 {
            // one that occurred before
            let k = self.below(self.1.len() as u64) as usize;
            return self.1[k].clone();
        }
        let mut s = String::new();
        for _ in 0..self.below(3) + 1 {
            if let Some(b) = crate::dict::bit(&mut |n| self.below(n as u64) as usize, 4) {
                s += &b;
                if self.below(2) == 0 {
                    continue;
                }
            }
            s += W[self.below(W.len() as u64) as usize];
        }
        if self.1.len() < 8 {
            self.1.push(s.clone());
        }
        s
    }
    /// a list in which elements may come back
    fn listed<T: Clone>(&mut self, n: u64, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let mut v: Vec<T> = vec![];
        for _ in 0..n {
            let x = if !v.is_empty() && self.below(8) == 0 { v[v.len() - 1].clone() } else { f(self) };
            v.push(x);
        }
        v
    }
    /// something with a Display
    fn many(&mut self, n: u64) -> u64 {
        crate::dict::num(&mut |n| self.below(n as u64) as usize, 12, 70).map(|n| n as u64).unwrap_or(self.below(n))
    }
    pub fn disp(&mut self) -> String {
        self.text()
    }
    pub fn id(&mut self) -> Id {
        match self.below(4) {
            0 => Id::Plain(self.text()),
            1 => Id::Escaped(self.text()),
            2 => Id::Html(self.text()),
            _ => Id::Anonymous(self.text()),
        }
    }
    pub fn port(&mut self) -> Port {
        let a = if self.below(2) == 0 { None } else { Some(self.id()) };
        let b = if self.below(2) == 0 { None } else { Some(self.text()) };
        Port(a, b)
    }
    pub fn node_id(&mut self) -> NodeId {
        let p = if self.below(2) == 0 { None } else { Some(self.port()) };
        NodeId(self.id(), p)
    }
    pub fn attr(&mut self) -> Attribute {
        Attribute(self.id(), self.id())
    }
    pub fn attrs(&mut self) -> Vec<Attribute> {
        { let n = self.many(4); self.listed(n, |r| r.attr()) }
    }
    pub fn gattrs(&mut self) -> GraphAttributes {
        let a = self.attrs();
        match self.below(3) {
            0 => GraphAttributes::Graph(a),
            1 => GraphAttributes::Node(a),
            _ => GraphAttributes::Edge(a),
        }
    }
    pub fn node(&mut self) -> Node {
        Node { id: self.node_id(), attributes: self.attrs() }
    }
    pub fn vertex(&mut self, d: u64) -> Vertex {
        if d > 0 && self.below(3) == 0 {
            Vertex::S(self.subgraph(d - 1))
        } else {
            Vertex::N(self.node_id())
        }
    }
    pub fn edge(&mut self, d: u64) -> Edge {
        let ty = if self.below(2) == 0 { EdgeTy::Pair(self.vertex(d), self.vertex(d)) } else { EdgeTy::Chain({ let n = self.many(4); self.listed(n, |r| r.vertex(d)) }) };
        Edge { ty, attributes: self.attrs() }
    }
    pub fn stmt(&mut self, d: u64) -> Stmt {
        match self.below(if d == 0 { 3 } else { 5 }) {
            0 => Stmt::Node(self.node()),
            1 => Stmt::Attribute(self.attr()),
            2 => Stmt::GAttribute(self.gattrs()),
            3 => Stmt::Edge(self.edge(d)),
            _ => Stmt::Subgraph(self.subgraph(d - 1)),
        }
    }
    pub fn stmts(&mut self, d: u64) -> Vec<Stmt> {
        { let n = self.many(4); self.listed(n, |r| r.stmt(d)) }
    }
    pub fn subgraph(&mut self, d: u64) -> Subgraph {
        Subgraph { id: self.id(), stmts: self.stmts(d) }
    }
    pub fn graph(&mut self, d: u64) -> Graph {
        let (id, strict, stmts) = (self.id(), self.below(2) == 0, self.stmts(d));
        if self.below(2) == 0 {
            Graph::Graph { id, strict, stmts }
        } else {
            Graph::DiGraph { id, strict, stmts }
        }
    }
}
