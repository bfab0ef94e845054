// ---- two structures that the same tree stands for are equal, but for the names of anonymous subgraphs and graphs ----
pub open spec fn same_id(a: Id, b: Id) -> bool { a == b || (a is Anonymous && b is Anonymous) }
pub open spec fn same_attrs(a: Vec<Attribute>, b: Vec<Attribute>) -> bool { a@ == b@ }
pub open spec fn same_node(a: Node, b: Node) -> bool { a.id == b.id && same_attrs(a.attributes, b.attributes) }
pub open spec fn same_gattr(a: GraphAttributes, b: GraphAttributes) -> bool {
    match (a, b) {
        (GraphAttributes::Graph(v), GraphAttributes::Graph(w)) => same_attrs(v, w),
        (GraphAttributes::Node(v), GraphAttributes::Node(w)) => same_attrs(v, w),
        (GraphAttributes::Edge(v), GraphAttributes::Edge(w)) => same_attrs(v, w),
        _ => false,
    }
}
pub open spec fn same_vertex(a: Vertex, b: Vertex) -> bool decreases a {
    match a { Vertex::N(n) => b == Vertex::N(n), Vertex::S(g) => match b { Vertex::S(h) => same_sub(g, h), _ => false } }
}
pub open spec fn same_sub(a: Subgraph, b: Subgraph) -> bool decreases a { same_id(a.id, b.id) && same_stmts(a.stmts, b.stmts) }
pub open spec fn same_stmts(a: Vec<Stmt>, b: Vec<Stmt>) -> bool decreases a { a@.len() == b@.len() && forall|q: int| 0 <= q < a@.len() ==> same_stmt(#[trigger] a@[q], b@[q]) }
pub open spec fn same_vs(a: Vec<Vertex>, b: Vec<Vertex>) -> bool decreases a { a@.len() == b@.len() && forall|q: int| 0 <= q < a@.len() ==> same_vertex(#[trigger] a@[q], b@[q]) }
pub open spec fn same_ends(a: EdgeTy, b: EdgeTy) -> bool decreases a {
    match a {
        EdgeTy::Pair(l, r) => match b { EdgeTy::Pair(m, s) => same_vertex(l, m) && same_vertex(r, s), _ => false },
        EdgeTy::Chain(v) => match b { EdgeTy::Chain(w) => same_vs(v, w), _ => false },
    }
}
pub open spec fn same_edge(a: Edge, b: Edge) -> bool decreases a { same_ends(a.ty, b.ty) && same_attrs(a.attributes, b.attributes) }
pub open spec fn same_stmt(a: Stmt, b: Stmt) -> bool decreases a {
    match a {
        Stmt::Node(n) => match b { Stmt::Node(m) => same_node(n, m), _ => false },
        Stmt::Subgraph(g) => match b { Stmt::Subgraph(h) => same_sub(g, h), _ => false },
        Stmt::Attribute(x) => b == Stmt::Attribute(x),
        Stmt::GAttribute(g) => match b { Stmt::GAttribute(h) => same_gattr(g, h), _ => false },
        Stmt::Edge(e) => match b { Stmt::Edge(f) => same_edge(e, f), _ => false },
    }
}
pub open spec fn same_graph(a: Graph, b: Graph) -> bool {
    match (a, b) {
        (Graph::Graph { id: i, strict: s, stmts: v }, Graph::Graph { id: j, strict: t, stmts: w }) => same_id(i, j) && s == t && same_stmts(v, w),
        (Graph::DiGraph { id: i, strict: s, stmts: v }, Graph::DiGraph { id: j, strict: t, stmts: w }) => same_id(i, j) && s == t && same_stmts(v, w),
        _ => false,
    }
}
pub proof fn d_id(t: Tree, a: Id, b: Id) requires m_id(t, a), m_id(t, b) ensures a == b { broadcast use string_ext; }
pub proof fn d_attr(t: Tree, a: Attribute, b: Attribute) requires m_attr(t, a), m_attr(t, b) ensures a == b { d_id(t.kids[0], a.0, b.0); d_id(t.kids[1], a.1, b.1); }
pub proof fn d_attrs(t: Tree, a: Seq<Attribute>, b: Seq<Attribute>) requires m_attrs(t, a), m_attrs(t, b) ensures a == b {
    assert forall|q: int| 0 <= q < a.len() implies a[q] == b[q] by { d_attr(t.kids[q].kids[0], a[q], b[q]); }
    assert(a =~= b);
}
pub proof fn d_port(t: Tree, a: Port, b: Port) requires m_port(t, a), m_port(t, b) ensures a == b { broadcast use string_ext; if a.0 is Some { d_id(t.kids[0], a.0->0, b.0->0); } }
pub proof fn d_nid(t: Tree, a: NodeId, b: NodeId) requires m_nid(t, a), m_nid(t, b) ensures a == b { d_id(t.kids[0], a.0, b.0); if t.kids.len() == 2 { d_port(t.kids[1], a.1->0, b.1->0); } }
pub proof fn d_node(t: Tree, a: Node, b: Node) requires m_node(t, a), m_node(t, b) ensures same_node(a, b) {
    d_nid(t.kids[0], a.id, b.id); if t.kids.len() == 2 { d_attrs(t.kids[1], a.attributes@, b.attributes@); } else { assert(a.attributes@ =~= b.attributes@); }
}
pub proof fn d_gattr(t: Tree, a: GraphAttributes, b: GraphAttributes) requires m_gattr(t, a), m_gattr(t, b) ensures same_gattr(a, b) {
    kw_differ();
    let v = match a { GraphAttributes::Graph(v) => v@, GraphAttributes::Node(v) => v@, GraphAttributes::Edge(v) => v@ };
    let w = match b { GraphAttributes::Graph(v) => v@, GraphAttributes::Node(v) => v@, GraphAttributes::Edge(v) => v@ };
    d_attrs(t.kids[1], v, w);
}
pub proof fn d_vertex(t: Tree, a: Vertex, b: Vertex) requires m_vertex(t, a), m_vertex(t, b) ensures same_vertex(a, b) decreases a {
    match a { Vertex::N(n) => { d_nid(t.kids[0], n, b->N_0); }, Vertex::S(g) => { d_subg(t.kids[0], g, b->S_0); } }
}
pub proof fn d_subg(t: Tree, a: Subgraph, b: Subgraph) requires m_sub(t, a), m_sub(t, b) ensures same_sub(a, b) decreases a {
    if t.kids.len() == 2 { d_id(t.kids[0], a.id, b.id); } d_stmts(t.kids[t.kids.len() - 1], a.stmts, b.stmts);
}
pub proof fn d_stmts(t: Tree, a: Vec<Stmt>, b: Vec<Stmt>) requires m_body(t, a@), m_body(t, b@) ensures same_stmts(a, b) decreases a {
    assert forall|q: int| 0 <= q < a@.len() implies same_stmt(#[trigger] a@[q], b@[q]) by { assert(m_stmt(t.kids[q], b@[q])); d_stmt(t.kids[q], a@[q], b@[q]); }
}
pub proof fn d_stmt(t: Tree, a: Stmt, b: Stmt) requires m_stmt(t, a), m_stmt(t, b) ensures same_stmt(a, b) decreases a {
    match a {
        Stmt::Node(n) => { d_node(t.kids[0], n, b->Node_0); },
        Stmt::Subgraph(g) => { d_subg(t.kids[0], g, b->Subgraph_0); },
        Stmt::Attribute(x) => { d_attr(t.kids[0], x, b->Attribute_0); },
        Stmt::GAttribute(g) => { d_gattr(t.kids[0], g, b->GAttribute_0); },
        Stmt::Edge(e) => { d_edge(t.kids[0], e, b->Edge_0); },
    }
}
pub proof fn d_edge(t: Tree, a: Edge, b: Edge) requires m_edge(t, a), m_edge(t, b) ensures same_edge(a, b) decreases a {
    if t.kids.len() == 2 { d_attrs(t.kids[1], a.attributes@, b.attributes@); } else { assert(a.attributes@ =~= b.attributes@); }
    let k = t.kids[0];
    match a.ty {
        EdgeTy::Pair(l, r) => { match b.ty { EdgeTy::Pair(m, s) => { assert(seq![l, r][0] == l && seq![l, r][1] == r && seq![m, s][0] == m && seq![m, s][1] == s); d_vertex(k.kids[0], l, m); d_vertex(k.kids[1].kids[0], r, s); }, _ => { assert(seq![l, r].len() == 2); } } },
        EdgeTy::Chain(v) => { match b.ty { EdgeTy::Chain(w) => {
            assert forall|q: int| 0 <= q < v@.len() implies same_vertex(#[trigger] v@[q], w@[q]) by { assert(if q == 0 { m_vertex(k.kids[q], w@[q]) } else { m_vertex(k.kids[q].kids[0], w@[q]) }); d_vertex(end_of(k, q), v@[q], w@[q]); }
        }, EdgeTy::Pair(m, s) => { assert(seq![m, s].len() == 2); } } },
    }
}
pub proof fn d_graph(t: Tree, a: Graph, b: Graph) requires m_graph(t, a), m_graph(t, b) ensures same_graph(a, b) {
    let k = t.kids; let x = if k[0].rule is strict { 1int } else { 0 };
    let (i, v) = match a { Graph::Graph { id, strict, stmts } => (id, stmts), Graph::DiGraph { id, strict, stmts } => (id, stmts) };
    let (j, w) = match b { Graph::Graph { id, strict, stmts } => (id, stmts), Graph::DiGraph { id, strict, stmts } => (id, stmts) };
    if k[x + 1].rule is id { d_id(k[x + 1], i, j); }
    d_stmts(k[k.len() - 1], v, w);
}
/// whatever parse makes of a writing of g is g
pub proof fn read_back(s: Txt, g: Graph)
    requires writes(s, g)
    ensures !refuses(s, Rule::file), forall|t: Tree, h: Graph| #[trigger] reads(s, t) && #[trigger] m_graph(t, h) ==> same_graph(g, h)
{
    c_file(s, g);
    assert forall|t: Tree, h: Graph| #[trigger] reads(s, t) && #[trigger] m_graph(t, h) implies same_graph(g, h) by { d_graph(t, g, h); }
}
