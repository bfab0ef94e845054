// ---- parse trees as pest hands them out (assumed contracts) ----
#[verifier::external_body]
pub struct Pair<'i> { p: &'i u8 }
impl<'i> View for Pair<'i> { type V = Tree; uninterp spec fn view(&self) -> Tree; }
#[verifier::external_body]
pub struct Pairs<'i> { p: &'i u8 }
impl<'i> View for Pairs<'i> { type V = Seq<Tree>; uninterp spec fn view(&self) -> Seq<Tree>; }
impl<'i> Pair<'i> {
    #[verifier::external_body]
    pub fn as_rule(&self) -> (r: Rule) ensures r == self@.rule { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'i str) ensures r@ == self@.text { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: Pairs<'i>) ensures r@ == self@.kids { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Pair<'i>) ensures r@ == self@ { unimplemented!() }
}
impl<'i> Pairs<'i> {
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<Pair<'i>>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && r->0@ == self@[0] { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Pair<'i>>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@[0] && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_more(&self) -> (r: bool) ensures r == (self@.len() > 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_next(&mut self) -> (r: Pair<'i>) requires old(self)@.len() > 0
        ensures r@ == old(self)@[0], final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    pub fn v_into_iter(self) -> (r: Pairs<'i>) ensures r == self { self }
    pub fn into_iter(self) -> (r: Pairs<'i>) ensures r == self { self }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Pairs<'i>) ensures r@ == self@ { unimplemented!() }
}
impl<'i> VIterOf for Pairs<'i> { type It = Pairs<'i>; open spec fn yields(self, r: Pairs<'i>) -> bool { r == self } fn v_its(self) -> Pairs<'i> { self } }
impl Id { #[verifier::external_body] pub fn clone(&self) -> (r: Id) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct PestError { e: u8 }
impl PestError {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) { unimplemented!() }
}
pub mod rand {
    #[verifier::external_body]
    pub fn random<T>() -> (r: T) { unimplemented!() }
}
pub open spec fn ends(s: Txt, ty: Rule) -> bool { !(val(G::Call(entry(ty)), s, 0, At::N) is Out) }
pub open spec fn accepts(s: Txt, ty: Rule, k: Seq<Tree>) -> bool { val(G::Call(entry(ty)), s, 0, At::N) matches Res::Ok { kids, .. } && kids == k }
pub open spec fn refuses(s: Txt, ty: Rule) -> bool { val(G::Call(entry(ty)), s, 0, At::N) is Fail }
pub struct DotParser;
impl DotParser {
    /// the code pest generates for the grammar
    #[verifier::external_body]
    pub fn parse<'i>(ty: Rule, s: &'i str) -> (r: Result<Pairs<'i>, PestError>)
        requires ty is file, ends(s@, ty),
        ensures match r { Ok(p) => accepts(s@, ty, p@), Err(_) => refuses(s@, ty) } { unimplemented!() }
}

// ---- what structure each tree stands for ----
pub open spec fn m_id(t: Tree, i: Id) -> bool {
    match i {
        Id::Plain(s) => t.kids[0].rule is plain && s@ == t.text,
        Id::Html(s) => t.kids[0].rule is html && s@ == t.text,
        Id::Escaped(s) => t.kids[0].rule is string_qt && s@ == t.text,
        Id::Anonymous(_) => false,
    }
}
pub open spec fn m_attr(t: Tree, a: Attribute) -> bool { m_id(t.kids[0], a.0) && m_id(t.kids[1], a.1) }
pub open spec fn m_attrs(t: Tree, v: Seq<Attribute>) -> bool { v.len() == t.kids.len() && forall|q: int| 0 <= q < v.len() ==> m_attr(t.kids[q].kids[0], #[trigger] v[q]) }
pub open spec fn m_port(t: Tree, p: Port) -> bool {
    if t.kids.len() == 2 { p.0 is Some && m_id(t.kids[0], p.0->0) && p.1 is Some && p.1->0@ == t.kids[1].text }
    else if t.kids[0].kids[0].rule is plain && point(t.kids[0].text) { p.0 is None && p.1 is Some && p.1->0@ == t.kids[0].text }
    else { p.0 is Some && m_id(t.kids[0], p.0->0) && p.1 is None }
}
pub open spec fn m_nid(t: Tree, n: NodeId) -> bool {
    m_id(t.kids[0], n.0) && if t.kids.len() == 2 { n.1 is Some && m_port(t.kids[1], n.1->0) } else { n.1 is None }
}
pub open spec fn m_node(t: Tree, n: Node) -> bool {
    m_nid(t.kids[0], n.id) && if t.kids.len() == 2 { m_attrs(t.kids[1], n.attributes@) } else { n.attributes@.len() == 0 }
}
pub open spec fn m_gattr(t: Tree, g: GraphAttributes) -> bool {
    match g {
        GraphAttributes::Graph(v) => t.kids[0].text == k_graph() && m_attrs(t.kids[1], v@),
        GraphAttributes::Node(v) => t.kids[0].text == k_node() && m_attrs(t.kids[1], v@),
        GraphAttributes::Edge(v) => t.kids[0].text == k_edge() && m_attrs(t.kids[1], v@),
    }
}
pub open spec fn m_vertex(t: Tree, v: Vertex) -> bool decreases t {
    t.kids.len() > 0 && match v {
        Vertex::N(n) => t.kids[0].rule is node_id && m_nid(t.kids[0], n),
        Vertex::S(s) => t.kids[0].rule is subgraph && m_sub(t.kids[0], s),
    }
}
/// the k-th endpoint of a chain of edges
pub open spec fn end_of(t: Tree, k: int) -> Tree { if k == 0 { t.kids[0] } else { t.kids[k].kids[0] } }
pub open spec fn m_ends(t: Tree, v: Seq<Vertex>) -> bool decreases t {
    v.len() == t.kids.len() && forall|q: int| 0 <= q < t.kids.len() ==> (if q == 0 { m_vertex(t.kids[q], #[trigger] v[q]) } else { t.kids[q].kids.len() > 0 && m_vertex(t.kids[q].kids[0], v[q]) })
}
pub open spec fn m_edge(t: Tree, e: Edge) -> bool decreases t {
    t.kids.len() > 0
    && (match e.ty { EdgeTy::Pair(l, r) => m_ends(t.kids[0], seq![l, r]), EdgeTy::Chain(v) => t.kids[0].kids.len() > 2 && m_ends(t.kids[0], v@) })
    && if t.kids.len() == 2 { m_attrs(t.kids[1], e.attributes@) } else { e.attributes@.len() == 0 }
}
/// a subgraph without a name is given one
pub open spec fn m_sub(t: Tree, s: Subgraph) -> bool decreases t {
    let k = t.kids;
    k.len() > 0 && (if k.len() == 2 { m_id(k[0], s.id) } else { s.id is Anonymous }) && m_body(k[k.len() - 1], s.stmts@)
}
pub open spec fn m_body(t: Tree, v: Seq<Stmt>) -> bool decreases t {
    v.len() == t.kids.len() && forall|q: int| 0 <= q < t.kids.len() ==> m_stmt(t.kids[q], #[trigger] v[q])
}
pub open spec fn m_stmt(t: Tree, s: Stmt) -> bool decreases t {
    t.kids.len() > 0 && match s {
        Stmt::Node(n) => t.kids[0].rule is node && m_node(t.kids[0], n),
        Stmt::Subgraph(g) => t.kids[0].rule is subgraph && m_sub(t.kids[0], g),
        Stmt::Attribute(a) => t.kids[0].rule is bare_attr && m_attr(t.kids[0], a),
        Stmt::GAttribute(g) => t.kids[0].rule is attr_stmt && m_gattr(t.kids[0], g),
        Stmt::Edge(e) => t.kids[0].rule is edge_stmt && m_edge(t.kids[0], e),
    }
}
pub open spec fn m_graph(t: Tree, g: Graph) -> bool {
    let k = t.kids;
    let a = if k[0].rule is strict { 1int } else { 0 };
    let (id, strict, stmts) = match g { Graph::Graph { id, strict, stmts } => (id, strict, stmts@), Graph::DiGraph { id, strict, stmts } => (id, strict, stmts@) };
    strict == (a == 1) && (g is DiGraph) == (k[a].text == k_digraph())
    && (if k[a + 1].rule is id { m_id(k[a + 1], id) } else { id is Anonymous })
    && m_body(k[k.len() - 1], stmts)
}
