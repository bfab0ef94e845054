// ---- trees that differ only in blanks and comments stand for the same structure ----
pub proof fn z_id(t: Tree, u: Tree, i: Id) requires eqv(t, u), t.rule is id, shape(t), shape(u), m_id(t, i) ensures m_id(u, i) { made_of(t); made_of(u); assert(eqv(t.kids[0], u.kids[0])); }
pub proof fn z_attr(t: Tree, u: Tree, a: Attribute) requires eqv(t, u), t.rule is bare_attr, shape(t), shape(u), m_attr(t, a) ensures m_attr(u, a) { made_of(t); made_of(u); assert(eqv(t.kids[0], u.kids[0])); assert(eqv(t.kids[1], u.kids[1])); z_id(t.kids[0], u.kids[0], a.0); z_id(t.kids[1], u.kids[1], a.1); }
pub proof fn z_attrs(t: Tree, u: Tree, v: Seq<Attribute>) requires eqv(t, u), t.rule is attr_list, shape(t), shape(u), m_attrs(t, v) ensures m_attrs(u, v) {
    made_of(t); made_of(u);
    assert forall|q: int| 0 <= q < v.len() implies m_attr(u.kids[q].kids[0], #[trigger] v[q]) by {
        let x = t.kids[q]; let y = u.kids[q];
        assert(eqv(x, y)); made_of(x); made_of(y); assert(eqv(x.kids[0], y.kids[0])); z_attr(x.kids[0], y.kids[0], v[q]);
    }
}
pub proof fn z_port(t: Tree, u: Tree, p: Port) requires eqv(t, u), t.rule is port, shape(t), shape(u), m_port(t, p) ensures m_port(u, p) {
    made_of(t); made_of(u); assert(eqv(t.kids[0], u.kids[0])); made_of(t.kids[0]); made_of(u.kids[0]); assert(eqv(t.kids[0].kids[0], u.kids[0].kids[0]));
    if p.0 is Some { z_id(t.kids[0], u.kids[0], p.0->0); }
    if t.kids.len() == 2 { assert(eqv(t.kids[1], u.kids[1])); }
}
pub proof fn z_nid(t: Tree, u: Tree, n: NodeId) requires eqv(t, u), t.rule is node_id, shape(t), shape(u), m_nid(t, n) ensures m_nid(u, n) {
    made_of(t); made_of(u); assert(eqv(t.kids[0], u.kids[0])); z_id(t.kids[0], u.kids[0], n.0);
    if t.kids.len() == 2 { assert(eqv(t.kids[1], u.kids[1])); z_port(t.kids[1], u.kids[1], n.1->0); }
}
pub proof fn z_node(t: Tree, u: Tree, n: Node) requires eqv(t, u), t.rule is node, shape(t), shape(u), m_node(t, n) ensures m_node(u, n) {
    made_of(t); made_of(u); assert(eqv(t.kids[0], u.kids[0])); z_nid(t.kids[0], u.kids[0], n.id);
    if t.kids.len() == 2 { assert(eqv(t.kids[1], u.kids[1])); z_attrs(t.kids[1], u.kids[1], n.attributes@); }
}
pub proof fn z_gattr(t: Tree, u: Tree, g: GraphAttributes) requires eqv(t, u), t.rule is attr_stmt, shape(t), shape(u), m_gattr(t, g) ensures m_gattr(u, g) {
    made_of(t); made_of(u); assert(eqv(t.kids[0], u.kids[0])); assert(eqv(t.kids[1], u.kids[1]));
    let v = match g { GraphAttributes::Graph(v) => v@, GraphAttributes::Node(v) => v@, GraphAttributes::Edge(v) => v@ };
    z_attrs(t.kids[1], u.kids[1], v);
}
pub proof fn z_vertex(t: Tree, u: Tree, v: Vertex) requires eqv(t, u), t.rule is vertex, shape(t), shape(u), m_vertex(t, v) ensures m_vertex(u, v) decreases t {
    made_of(t); made_of(u); assert(eqv(t.kids[0], u.kids[0]));
    match v { Vertex::N(n) => { z_nid(t.kids[0], u.kids[0], n); }, Vertex::S(s) => { z_sub(t.kids[0], u.kids[0], s); } }
}
pub proof fn z_ends(t: Tree, u: Tree, v: Seq<Vertex>) requires eqv(t, u), t.rule is edge, shape(t), shape(u), m_ends(t, v) ensures m_ends(u, v) decreases t {
    made_of(t); made_of(u);
    assert forall|q: int| 0 <= q < u.kids.len() implies (if q == 0 { m_vertex(u.kids[q], #[trigger] v[q]) } else { u.kids[q].kids.len() > 0 && m_vertex(u.kids[q].kids[0], v[q]) }) by {
        let x = t.kids[q]; let y = u.kids[q];
        assert(eqv(x, y));
        if q == 0 { z_vertex(x, y, v[q]); } else { made_of(x); made_of(y); assert(eqv(x.kids[0], y.kids[0])); z_vertex(x.kids[0], y.kids[0], v[q]); }
    }
}
pub proof fn z_edge(t: Tree, u: Tree, e: Edge) requires eqv(t, u), t.rule is edge_stmt, shape(t), shape(u), m_edge(t, e) ensures m_edge(u, e) decreases t {
    made_of(t); made_of(u); assert(eqv(t.kids[0], u.kids[0]));
    match e.ty { EdgeTy::Pair(l, r) => { z_ends(t.kids[0], u.kids[0], seq![l, r]); }, EdgeTy::Chain(v) => { z_ends(t.kids[0], u.kids[0], v@); } }
    if t.kids.len() == 2 { assert(eqv(t.kids[1], u.kids[1])); z_attrs(t.kids[1], u.kids[1], e.attributes@); }
}
pub proof fn z_sub(t: Tree, u: Tree, s: Subgraph) requires eqv(t, u), t.rule is subgraph, shape(t), shape(u), m_sub(t, s) ensures m_sub(u, s) decreases t {
    made_of(t); made_of(u); let n = t.kids.len() - 1; assert(eqv(t.kids[0], u.kids[0])); assert(eqv(t.kids[n], u.kids[n]));
    if n == 1 { z_id(t.kids[0], u.kids[0], s.id); }
    z_body(t.kids[n], u.kids[n], s.stmts@);
}
pub proof fn z_body(t: Tree, u: Tree, v: Seq<Stmt>) requires eqv(t, u), t.rule is body, shape(t), shape(u), m_body(t, v) ensures m_body(u, v) decreases t {
    made_of(t); made_of(u);
    assert forall|q: int| 0 <= q < u.kids.len() implies m_stmt(u.kids[q], #[trigger] v[q]) by { assert(eqv(t.kids[q], u.kids[q])); z_stmt(t.kids[q], u.kids[q], v[q]); }
}
pub proof fn z_stmt(t: Tree, u: Tree, s: Stmt) requires eqv(t, u), t.rule is stmt, shape(t), shape(u), m_stmt(t, s) ensures m_stmt(u, s) decreases t {
    made_of(t); made_of(u);
    let x = t.kids[0]; let y = u.kids[0];
    assert(eqv(x, y));
    match s { Stmt::Node(n) => { z_node(x, y, n); }, Stmt::Subgraph(g) => { z_sub(x, y, g); }, Stmt::Attribute(a) => { z_attr(x, y, a); }, Stmt::GAttribute(g) => { z_gattr(x, y, g); }, Stmt::Edge(e) => { z_edge(x, y, e); } }
}
pub proof fn z_graph(t: Tree, u: Tree, g: Graph) requires eqv(t, u), t.rule is graph, shape(t), shape(u), m_graph(t, g) ensures m_graph(u, g) {
    made_of(t); made_of(u);
    assert forall|q: int| 0 <= q < t.kids.len() implies #[trigger] t.kids[q] == t.kids[q] && eqv(t.kids[q], u.kids[q]) by {}
    let k = t.kids; let l = u.kids;
    let a = if k[0].rule is strict { 1int } else { 0 };
    let (id, stmts) = match g { Graph::Graph { id, strict, stmts } => (id, stmts@), Graph::DiGraph { id, strict, stmts } => (id, stmts@) };
    assert(eqv(k[0], l[0])); assert(eqv(k[a], l[a])); assert(eqv(k[a + 1], l[a + 1])); assert(eqv(k[k.len() - 1], l[k.len() - 1]));
    if k[a + 1].rule is id { z_id(k[a + 1], l[a + 1], id); }
    z_body(k[k.len() - 1], l[k.len() - 1], stmts);
}
