// ---- which texts are writings of a graph, word by word, with any blanks, comments and optional separators ----
// positions are after blanks and comments; -1: the text does not go on like this
pub open spec fn starts(s: Txt, i: int) -> bool { 0 <= i < s.len() && !sign(s[i]) && !arr_at(s, i) }
pub open spec fn arr_at(s: Txt, i: int) -> bool { c_at(s, i, '-') && (c_at(s, i + 1, '>') || c_at(s, i + 1, '-')) }
/// the sign c, and the blanks after it
pub open spec fn sg(s: Txt, i: int, c: char) -> int { if c_at(s, i, c) { skip_end(s, i + 1) } else { -1 } }
/// the word w, and the blanks after it
pub open spec fn wd(s: Txt, i: int, w: Txt) -> int { match lex(s, i) { Some(x) => if s.subrange(i, x) == w { skip_end(s, x) } else { -1 }, None => -1 } }
pub open spec fn q_arr(s: Txt, i: int) -> int { if arr_at(s, i) { skip_end(s, i + 2) } else { -1 } }
pub open spec fn idtok(w: Txt) -> bool { is_plain(w) || (w.len() > 0 && (w[0] == '<' || w[0] == '"')) }
pub open spec fn q_id(s: Txt, i: int, d: Id) -> int {
    match d {
        Id::Plain(x) => if is_plain(x@) { wd(s, i, x@) } else { -1 },
        Id::Html(x) => if x@.len() > 0 && x@[0] == '<' { wd(s, i, x@) } else { -1 },
        Id::Escaped(x) => if x@.len() > 0 && x@[0] == '"' { wd(s, i, x@) } else { -1 },
        Id::Anonymous(_) => -1,
    }
}
/// a lone compass point after a colon is a direction, not a port name
pub open spec fn q_port(s: Txt, i: int, p: Port) -> int {
    match p {
        Port(Some(d), Some(c)) => if point(c@) { wd(s, sg(s, q_id(s, sg(s, i, ':'), d), ':'), c@) } else { -1 },
        Port(None, Some(c)) => if point(c@) { wd(s, sg(s, i, ':'), c@) } else { -1 },
        Port(Some(d), None) => if d is Plain && point(d->Plain_0@) { -1 } else { q_id(s, sg(s, i, ':'), d) },
        Port(None, None) => -1,
    }
}
pub open spec fn q_nid(s: Txt, i: int, n: NodeId) -> int {
    match n.1 { None => q_id(s, i, n.0), Some(p) => q_port(s, q_id(s, i, n.0), p) }
}
pub open spec fn q_bare(s: Txt, i: int, a: Attribute) -> int { q_id(s, sg(s, q_id(s, i, a.0), '='), a.1) }
/// an optional separator
pub open spec fn q_sep(s: Txt, i: int, c: char) -> int { if c_at(s, i, c) { skip_end(s, i + 1) } else { i } }
pub open spec fn q_attr(s: Txt, i: int, a: Attribute) -> int { let j = q_bare(s, i, a); if c_at(s, j, ';') { skip_end(s, j + 1) } else { q_sep(s, j, ',') } }
/// inside brackets: the attributes, in one or more pairs of brackets, to the end of the last
pub open spec fn q_in(s: Txt, i: int, v: Seq<Attribute>) -> int decreases s.len() - i {
    if !(0 <= i < s.len()) { -1 }
    else if s[i] == ']' {
        let j = skip_end(s, i + 1);
        if c_at(s, j, '[') { let k = skip_end(s, j + 1); if i < k <= s.len() { q_in(s, k, v) } else { -1 } }
        else if v.len() == 0 { j } else { -1 }
    }
    else if v.len() == 0 { -1 }
    else { let j = q_attr(s, i, v[0]); if i < j <= s.len() { q_in(s, j, v.skip(1)) } else { -1 } }
}
pub open spec fn q_al(s: Txt, i: int, v: Seq<Attribute>) -> int { q_in(s, sg(s, i, '['), v) }
/// brackets may be left out when there is no attribute
pub open spec fn q_oal(s: Txt, i: int, v: Seq<Attribute>) -> int { if i >= 0 && !c_at(s, i, '[') && v.len() == 0 { i } else { q_al(s, i, v) } }
pub open spec fn q_gattr(s: Txt, i: int, g: GraphAttributes) -> int {
    match g {
        GraphAttributes::Graph(v) => q_al(s, wd(s, i, k_graph()), v@),
        GraphAttributes::Node(v) => q_al(s, wd(s, i, k_node()), v@),
        GraphAttributes::Edge(v) => q_al(s, wd(s, i, k_edge()), v@),
    }
}
/// here begins a subgraph: the word, perhaps a name, and a brace
pub open spec fn sub_head(s: Txt, i: int) -> bool {
    let j = wd(s, i, k_subgraph());
    c_at(s, j, '{') || (starts(s, j) && lex(s, j) is Some && c_at(s, skip_end(s, lex(s, j)->0), '{'))
}
/// here begin the attributes of all nodes, edges or the graph
pub open spec fn mark_head(s: Txt, i: int) -> bool { c_at(s, wd(s, i, k_graph()), '[') || c_at(s, wd(s, i, k_node()), '[') || c_at(s, wd(s, i, k_edge()), '[') }
pub open spec fn q_node(s: Txt, i: int, n: Node) -> int { if mark_head(s, i) || sub_head(s, i) { -1 } else { q_oal(s, q_nid(s, i, n.id), n.attributes@) } }
pub open spec fn q_vertex(s: Txt, i: int, v: Vertex) -> int decreases v, 0nat {
    match v { Vertex::N(n) => if sub_head(s, i) { -1 } else { q_nid(s, i, n) }, Vertex::S(g) => q_subg(s, i, g) }
}
pub open spec fn q_tails(s: Txt, i: int, v: Vec<Vertex>, k: int) -> int decreases v, v@.len() - k {
    if k < 0 || k >= v@.len() { i } else { q_tails(s, q_vertex(s, q_arr(s, i), v@[k]), v, k + 1) }
}
pub open spec fn q_ends(s: Txt, i: int, e: EdgeTy) -> int decreases e, 0nat {
    match e {
        EdgeTy::Pair(l, r) => q_vertex(s, q_arr(s, q_vertex(s, i, l)), r),
        EdgeTy::Chain(v) => if v@.len() > 2 { q_tails(s, q_vertex(s, i, v@[0]), v, 1) } else { -1 },
    }
}
pub open spec fn q_edge(s: Txt, i: int, e: Edge) -> int decreases e, 0nat { q_oal(s, q_ends(s, i, e.ty), e.attributes@) }
pub open spec fn q_subg(s: Txt, i: int, g: Subgraph) -> int decreases g, 0nat {
    let j = wd(s, i, k_subgraph());
    q_body(s, if g.id is Anonymous { j } else { q_id(s, j, g.id) }, g.stmts)
}
pub open spec fn q_body(s: Txt, i: int, v: Vec<Stmt>) -> int decreases v, v@.len() + 1 { sg(s, q_sts(s, sg(s, i, '{'), v, 0), '}') }
pub open spec fn q_sts(s: Txt, i: int, v: Vec<Stmt>, k: int) -> int decreases v, v@.len() - k {
    if k < 0 || k >= v@.len() { i } else { q_sts(s, q_sep(s, q_stmt(s, i, v@[k]), ';'), v, k + 1) }
}
pub open spec fn q_stmt(s: Txt, i: int, t: Stmt) -> int decreases t, 0nat {
    match t {
        Stmt::Node(n) => q_node(s, i, n),
        Stmt::Subgraph(g) => q_subg(s, i, g),
        Stmt::Attribute(a) => q_bare(s, i, a),
        Stmt::GAttribute(g) => q_gattr(s, i, g),
        Stmt::Edge(e) => if mark_head(s, i) { -1 } else { q_edge(s, i, e) },
    }
}
pub open spec fn q_graph(s: Txt, i: int, g: Graph) -> int {
    let (id, strict, stmts) = match g { Graph::Graph { id, strict, stmts } => (id, strict, stmts), Graph::DiGraph { id, strict, stmts } => (id, strict, stmts) };
    let a = if strict { wd(s, i, k_strict()) } else { i };
    let b = wd(s, a, if g is DiGraph { k_digraph() } else { k_graph() });
    q_body(s, if id is Anonymous { b } else { q_id(s, b, id) }, stmts)
}
/// s is g written out
pub open spec fn writes(s: Txt, g: Graph) -> bool { q_graph(s, skip_end(s, 0), g) == s.len() }
