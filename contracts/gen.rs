#![allow(unused, non_camel_case_types, non_snake_case, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {
// generated by tools/mkgen.py
//@include prelude.inc
//@include structures_fns.inc
pub use VDisp as Display;
//@inline gen
pub open spec fn is_anon(i: Id) -> bool { i is Anonymous && i->Anonymous_0@ == ""@ }
pub open spec fn is_plain(i: Id, t: Txt) -> bool { i is Plain && i->Plain_0@ == t }
pub open spec fn is_html(i: Id, t: Txt) -> bool { i is Html && i->Html_0@ == t }
pub open spec fn is_esc(i: Id, t: Txt) -> bool { i is Escaped && i->Escaped_0@ == cat(cat(ch('"'), t), ch('"')) }
//@fn gen::id_none
//@ret r
//@spec
    ensures is_anon(r), //#[C15]
//@pre
    // ""
//@end
//@fn gen::id_plain
//@sig e
//@ret r
//@spec
    ensures is_plain(r, e.disp()), //#[C15]
//@pre
    // ""
//@end
//@fn gen::id_esc
//@sig e
//@ret r
//@spec
    ensures is_esc(r, e.disp()), //#[C15]
//@pre
    // ""
//@end
//@fn gen::id_html
//@sig e
//@ret r
//@spec
    ensures is_html(r, e.disp()), //#[C15]
//@pre
    // ""
//@end
//@fn gen::port_none
//@ret r
//@spec
    ensures r == Port(None, None), //#[C15]
//@pre
    // ""
//@end
//@fn gen::port_dir
//@sig e
//@ret r
//@spec
    ensures r.0 is None, r.1 is Some, r.1->0@ == e.disp(), //#[C15]
//@pre
    // ""
//@end
//@fn gen::port_both
//@sig i, e
//@ret r
//@spec
    ensures r.0 == Some(i), r.1 is Some, r.1->0@ == e.disp(), //#[C15]
//@pre
    // ""
//@end
//@fn gen::port_id
//@sig i
//@ret r
//@spec
    ensures r == Port(Some(i), None), //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_id_none
//@ret r
//@spec
    ensures is_anon(r.0), r.1 is None, //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_id_plain
//@sig e
//@ret r
//@spec
    ensures is_plain(r.0, e.disp()), r.1 is None, //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_id_plain_port
//@sig e, p
//@ret r
//@spec
    ensures is_plain(r.0, e.disp()), r.1 == Some(p), //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_id_esc
//@sig e
//@ret r
//@spec
    ensures is_esc(r.0, e.disp()), r.1 is None, //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_id_esc_port
//@sig e, p
//@ret r
//@spec
    ensures is_esc(r.0, e.disp()), r.1 == Some(p), //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_id_html
//@sig e
//@ret r
//@spec
    ensures is_html(r.0, e.disp()), r.1 is None, //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_id_html_port
//@sig e, p
//@ret r
//@spec
    ensures is_html(r.0, e.disp()), r.1 == Some(p), //#[C15]
//@pre
    // ""
//@end
//@fn gen::attr_plain_plain
//@sig e, v
//@ret r
//@spec
    ensures is_plain(r.0, e.disp()), is_plain(r.1, v.disp()), //#[C15]
//@pre
    // ""
//@end
//@fn gen::attr_plain_esc
//@sig e, v
//@ret r
//@spec
    ensures is_plain(r.0, e.disp()), is_esc(r.1, v.disp()), //#[C15]
//@pre
    // ""
//@end
//@fn gen::attr_plain_html
//@sig e, v
//@ret r
//@spec
    ensures is_plain(r.0, e.disp()), is_html(r.1, v.disp()), //#[C15]
//@pre
    // ""
//@end
//@fn gen::attr_esc_plain
//@sig e, v
//@ret r
//@spec
    ensures is_esc(r.0, e.disp()), is_plain(r.1, v.disp()), //#[C15]
//@pre
    // ""
//@end
//@fn gen::attr_esc_esc
//@sig e, v
//@ret r
//@spec
    ensures is_esc(r.0, e.disp()), is_esc(r.1, v.disp()), //#[C15]
//@pre
    // ""
//@end
//@fn gen::attr_esc_html
//@sig e, v
//@ret r
//@spec
    ensures is_esc(r.0, e.disp()), is_html(r.1, v.disp()), //#[C15]
//@pre
    // ""
//@end
//@fn gen::attr_html_plain
//@sig e, v
//@ret r
//@spec
    ensures is_html(r.0, e.disp()), is_plain(r.1, v.disp()), //#[C15]
//@pre
    // ""
//@end
//@fn gen::attr_html_esc
//@sig e, v
//@ret r
//@spec
    ensures is_html(r.0, e.disp()), is_esc(r.1, v.disp()), //#[C15]
//@pre
    // ""
//@end
//@fn gen::attr_html_html
//@sig e, v
//@ret r
//@spec
    ensures is_html(r.0, e.disp()), is_html(r.1, v.disp()), //#[C15]
//@pre
    // ""
//@end
//@fn gen::stmt_node
//@sig x
//@ret r
//@spec
    ensures r == Stmt::Node(x), //#[C15]
//@pre
    // ""
//@end
//@fn gen::stmt_edge
//@sig x
//@ret r
//@spec
    ensures r == Stmt::Edge(x), //#[C15]
//@pre
    // ""
//@end
//@fn gen::stmt_gattribute
//@sig x
//@ret r
//@spec
    ensures r == Stmt::GAttribute(x), //#[C15]
//@pre
    // ""
//@end
//@fn gen::stmt_attribute
//@sig x
//@ret r
//@spec
    ensures r == Stmt::Attribute(x), //#[C15]
//@pre
    // ""
//@end
//@fn gen::stmt_subgraph
//@sig x
//@ret r
//@spec
    ensures r == Stmt::Subgraph(x), //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_none
//@ret r
//@spec
    ensures is_anon(r.id), r.stmts@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_plain
//@sig e
//@ret r
//@spec
    ensures is_plain(r.id, e.disp()), r.stmts@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_plain_vec
//@sig e, v
//@ret r
//@spec
    ensures is_plain(r.id, e.disp()), r.stmts == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_plain_1
//@sig e, s1
//@ret r
//@spec
    ensures is_plain(r.id, e.disp()), r.stmts@ =~= seq![Stmt::Node(s1)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_plain_3
//@sig e, s1, s2, s3
//@ret r
//@spec
    ensures is_plain(r.id, e.disp()), r.stmts@ =~= seq![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_plain_same
//@sig e, t1, t2, t3
//@ret r
//@spec
    ensures is_plain(r.id, e.disp()), r.stmts@ =~= seq![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_esc
//@sig e
//@ret r
//@spec
    ensures is_esc(r.id, e.disp()), r.stmts@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_esc_vec
//@sig e, v
//@ret r
//@spec
    ensures is_esc(r.id, e.disp()), r.stmts == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_esc_1
//@sig e, s1
//@ret r
//@spec
    ensures is_esc(r.id, e.disp()), r.stmts@ =~= seq![Stmt::Node(s1)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_esc_3
//@sig e, s1, s2, s3
//@ret r
//@spec
    ensures is_esc(r.id, e.disp()), r.stmts@ =~= seq![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_esc_same
//@sig e, t1, t2, t3
//@ret r
//@spec
    ensures is_esc(r.id, e.disp()), r.stmts@ =~= seq![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_html
//@sig e
//@ret r
//@spec
    ensures is_html(r.id, e.disp()), r.stmts@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_html_vec
//@sig e, v
//@ret r
//@spec
    ensures is_html(r.id, e.disp()), r.stmts == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_html_1
//@sig e, s1
//@ret r
//@spec
    ensures is_html(r.id, e.disp()), r.stmts@ =~= seq![Stmt::Node(s1)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_html_3
//@sig e, s1, s2, s3
//@ret r
//@spec
    ensures is_html(r.id, e.disp()), r.stmts@ =~= seq![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_html_same
//@sig e, t1, t2, t3
//@ret r
//@spec
    ensures is_html(r.id, e.disp()), r.stmts@ =~= seq![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_anon_same
//@sig t1, t2, t3
//@ret r
//@spec
    ensures is_anon(r.id), r.stmts@ =~= seq![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_anon_4
//@sig u1, u2, u3, u4
//@ret r
//@spec
    ensures is_anon(r.id), r.stmts@ =~= seq![Stmt::Attribute(u1), Stmt::Edge(u2), Stmt::Attribute(u3), Stmt::Edge(u4)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_anon_1
//@sig s1
//@ret r
//@spec
    ensures is_anon(r.id), r.stmts@ =~= seq![Stmt::Node(s1)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::subgraph_anon_5
//@sig s1, s2, s3, s4, s5
//@ret r
//@spec
    ensures is_anon(r.id), r.stmts@ =~= seq![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3), Stmt::Attribute(s4), Stmt::GAttribute(s5)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::attrs_none
//@ret r
//@spec
    ensures r is Graph, r->Graph_0@ =~= seq![], //#[C15]
//@pre
    // ""
    // "graph", "node", "edge"
    proof { names_differ(); }
//@end
//@fn gen::attrs_graph_vec
//@sig v
//@ret r
//@spec
    ensures r == GraphAttributes::Graph(v), //#[C15]
//@pre
    // ""
    // "graph", "node", "edge"
    proof { names_differ(); }
//@end
//@fn gen::attrs_graph_1
//@sig a1
//@ret r
//@spec
    ensures r is Graph, r->Graph_0@ =~= seq![a1], //#[C15]
//@pre
    // ""
    // "graph", "node", "edge"
    proof { names_differ(); }
//@end
//@fn gen::attrs_graph_3
//@sig a1, a2, a3
//@ret r
//@spec
    ensures r is Graph, r->Graph_0@ =~= seq![a1, a2, a3], //#[C15]
//@pre
    // ""
    // "graph", "node", "edge"
    proof { names_differ(); }
//@end
//@fn gen::attrs_node_vec
//@sig v
//@ret r
//@spec
    ensures r == GraphAttributes::Node(v), //#[C15]
//@pre
    // ""
    // "graph", "node", "edge"
    proof { names_differ(); }
//@end
//@fn gen::attrs_node_1
//@sig a1
//@ret r
//@spec
    ensures r is Node, r->Node_0@ =~= seq![a1], //#[C15]
//@pre
    // ""
    // "graph", "node", "edge"
    proof { names_differ(); }
//@end
//@fn gen::attrs_node_3
//@sig a1, a2, a3
//@ret r
//@spec
    ensures r is Node, r->Node_0@ =~= seq![a1, a2, a3], //#[C15]
//@pre
    // ""
    // "graph", "node", "edge"
    proof { names_differ(); }
//@end
//@fn gen::attrs_edge_vec
//@sig v
//@ret r
//@spec
    ensures r == GraphAttributes::Edge(v), //#[C15]
//@pre
    // ""
    // "graph", "node", "edge"
    proof { names_differ(); }
//@end
//@fn gen::attrs_edge_1
//@sig a1
//@ret r
//@spec
    ensures r is Edge, r->Edge_0@ =~= seq![a1], //#[C15]
//@pre
    // ""
    // "graph", "node", "edge"
    proof { names_differ(); }
//@end
//@fn gen::attrs_edge_3
//@sig a1, a2, a3
//@ret r
//@spec
    ensures r is Edge, r->Edge_0@ =~= seq![a1, a2, a3], //#[C15]
//@pre
    // ""
    // "graph", "node", "edge"
    proof { names_differ(); }
//@end
//@fn gen::node_anon_none
//@ret r
//@spec
    ensures is_anon(r.id.0), r.id.1 is None, r.attributes@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_plain_none
//@sig e
//@ret r
//@spec
    ensures is_plain(r.id.0, e.disp()), r.id.1 is None, r.attributes@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_plain_vec
//@sig e, v
//@ret r
//@spec
    ensures is_plain(r.id.0, e.disp()), r.id.1 is None, r.attributes == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_plain_port_vec
//@sig e, p, v
//@ret r
//@spec
    ensures is_plain(r.id.0, e.disp()), r.id.1 == Some(p), r.attributes == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_plain_1
//@sig e, a1
//@ret r
//@spec
    ensures is_plain(r.id.0, e.disp()), r.id.1 is None, r.attributes@ =~= seq![a1], //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_plain_port_1
//@sig e, p, a1
//@ret r
//@spec
    ensures is_plain(r.id.0, e.disp()), r.id.1 == Some(p), r.attributes@ =~= seq![a1], //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_plain_3
//@sig e, a1, a2, a3
//@ret r
//@spec
    ensures is_plain(r.id.0, e.disp()), r.id.1 is None, r.attributes@ =~= seq![a1, a2, a3], //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_plain_port_3
//@sig e, p, a1, a2, a3
//@ret r
//@spec
    ensures is_plain(r.id.0, e.disp()), r.id.1 == Some(p), r.attributes@ =~= seq![a1, a2, a3], //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_esc_none
//@sig e
//@ret r
//@spec
    ensures is_esc(r.id.0, e.disp()), r.id.1 is None, r.attributes@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_esc_vec
//@sig e, v
//@ret r
//@spec
    ensures is_esc(r.id.0, e.disp()), r.id.1 is None, r.attributes == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_esc_port_vec
//@sig e, p, v
//@ret r
//@spec
    ensures is_esc(r.id.0, e.disp()), r.id.1 == Some(p), r.attributes == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_esc_1
//@sig e, a1
//@ret r
//@spec
    ensures is_esc(r.id.0, e.disp()), r.id.1 is None, r.attributes@ =~= seq![a1], //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_esc_port_1
//@sig e, p, a1
//@ret r
//@spec
    ensures is_esc(r.id.0, e.disp()), r.id.1 == Some(p), r.attributes@ =~= seq![a1], //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_esc_3
//@sig e, a1, a2, a3
//@ret r
//@spec
    ensures is_esc(r.id.0, e.disp()), r.id.1 is None, r.attributes@ =~= seq![a1, a2, a3], //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_esc_port_3
//@sig e, p, a1, a2, a3
//@ret r
//@spec
    ensures is_esc(r.id.0, e.disp()), r.id.1 == Some(p), r.attributes@ =~= seq![a1, a2, a3], //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_html_none
//@sig e
//@ret r
//@spec
    ensures is_html(r.id.0, e.disp()), r.id.1 is None, r.attributes@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_html_vec
//@sig e, v
//@ret r
//@spec
    ensures is_html(r.id.0, e.disp()), r.id.1 is None, r.attributes == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_html_port_vec
//@sig e, p, v
//@ret r
//@spec
    ensures is_html(r.id.0, e.disp()), r.id.1 == Some(p), r.attributes == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_html_1
//@sig e, a1
//@ret r
//@spec
    ensures is_html(r.id.0, e.disp()), r.id.1 is None, r.attributes@ =~= seq![a1], //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_html_port_1
//@sig e, p, a1
//@ret r
//@spec
    ensures is_html(r.id.0, e.disp()), r.id.1 == Some(p), r.attributes@ =~= seq![a1], //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_html_3
//@sig e, a1, a2, a3
//@ret r
//@spec
    ensures is_html(r.id.0, e.disp()), r.id.1 is None, r.attributes@ =~= seq![a1, a2, a3], //#[C15]
//@pre
    // ""
//@end
//@fn gen::node_html_port_3
//@sig e, p, a1, a2, a3
//@ret r
//@spec
    ensures is_html(r.id.0, e.disp()), r.id.1 == Some(p), r.attributes@ =~= seq![a1, a2, a3], //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_2
//@sig l, m
//@ret r
//@spec
    ensures r.ty == EdgeTy::Pair(Vertex::N(l), Vertex::S(m)), r.attributes@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_2_vec
//@sig l, m, v
//@ret r
//@spec
    ensures r.ty == EdgeTy::Pair(Vertex::N(l), Vertex::S(m)), r.attributes == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_2_1
//@sig l, m, a1
//@ret r
//@spec
    ensures r.ty == EdgeTy::Pair(Vertex::N(l), Vertex::S(m)), r.attributes@ =~= seq![a1], //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_2_3
//@sig l, m, a1, a2, a3
//@ret r
//@spec
    ensures r.ty == EdgeTy::Pair(Vertex::N(l), Vertex::S(m)), r.attributes@ =~= seq![a1, a2, a3], //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_2_same
//@sig w1, w2
//@ret r
//@spec
    ensures r.ty == EdgeTy::Pair(Vertex::N(w1), Vertex::N(w2)), r.attributes@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_2_same_2
//@sig w1, w2, a1, a2
//@ret r
//@spec
    ensures r.ty == EdgeTy::Pair(Vertex::N(w1), Vertex::N(w2)), r.attributes@ =~= seq![a1, a2], //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_3
//@sig l, m, n
//@ret r
//@spec
    ensures r.ty is Chain, r.ty->Chain_0@ =~= seq![Vertex::N(l), Vertex::S(m), Vertex::N(n)], r.attributes@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_3_vec
//@sig l, m, n, v
//@ret r
//@spec
    ensures r.ty is Chain, r.ty->Chain_0@ =~= seq![Vertex::N(l), Vertex::S(m), Vertex::N(n)], r.attributes == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_3_1
//@sig l, m, n, a1
//@ret r
//@spec
    ensures r.ty is Chain, r.ty->Chain_0@ =~= seq![Vertex::N(l), Vertex::S(m), Vertex::N(n)], r.attributes@ =~= seq![a1], //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_3_3
//@sig l, m, n, a1, a2, a3
//@ret r
//@spec
    ensures r.ty is Chain, r.ty->Chain_0@ =~= seq![Vertex::N(l), Vertex::S(m), Vertex::N(n)], r.attributes@ =~= seq![a1, a2, a3], //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_3_same
//@sig w1, w2, w3
//@ret r
//@spec
    ensures r.ty is Chain, r.ty->Chain_0@ =~= seq![Vertex::S(w1), Vertex::S(w2), Vertex::S(w3)], r.attributes@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_3_same_2
//@sig w1, w2, w3, a1, a2
//@ret r
//@spec
    ensures r.ty is Chain, r.ty->Chain_0@ =~= seq![Vertex::S(w1), Vertex::S(w2), Vertex::S(w3)], r.attributes@ =~= seq![a1, a2], //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_4
//@sig l, m, n, o
//@ret r
//@spec
    ensures r.ty is Chain, r.ty->Chain_0@ =~= seq![Vertex::N(l), Vertex::S(m), Vertex::N(n), Vertex::S(o)], r.attributes@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_4_vec
//@sig l, m, n, o, v
//@ret r
//@spec
    ensures r.ty is Chain, r.ty->Chain_0@ =~= seq![Vertex::N(l), Vertex::S(m), Vertex::N(n), Vertex::S(o)], r.attributes == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_4_1
//@sig l, m, n, o, a1
//@ret r
//@spec
    ensures r.ty is Chain, r.ty->Chain_0@ =~= seq![Vertex::N(l), Vertex::S(m), Vertex::N(n), Vertex::S(o)], r.attributes@ =~= seq![a1], //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_4_3
//@sig l, m, n, o, a1, a2, a3
//@ret r
//@spec
    ensures r.ty is Chain, r.ty->Chain_0@ =~= seq![Vertex::N(l), Vertex::S(m), Vertex::N(n), Vertex::S(o)], r.attributes@ =~= seq![a1, a2, a3], //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_4_same
//@sig w1, w2, w3, w4
//@ret r
//@spec
    ensures r.ty is Chain, r.ty->Chain_0@ =~= seq![Vertex::N(w1), Vertex::N(w2), Vertex::N(w3), Vertex::N(w4)], r.attributes@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::edge_4_same_2
//@sig w1, w2, w3, w4, a1, a2
//@ret r
//@spec
    ensures r.ty is Chain, r.ty->Chain_0@ =~= seq![Vertex::N(w1), Vertex::N(w2), Vertex::N(w3), Vertex::N(w4)], r.attributes@ =~= seq![a1, a2], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_none
//@sig i
//@ret r
//@spec
    ensures r is Graph, r->Graph_id == i, r->Graph_strict == false, r->Graph_stmts@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_vec
//@sig i, v
//@ret r
//@spec
    ensures r is Graph, r->Graph_id == i, r->Graph_strict == false, r->Graph_stmts == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_1
//@sig i, s1
//@ret r
//@spec
    ensures r is Graph, r->Graph_id == i, r->Graph_strict == false, r->Graph_stmts@ =~= seq![Stmt::Node(s1)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_same
//@sig i, t1, t2, t3
//@ret r
//@spec
    ensures r is Graph, r->Graph_id == i, r->Graph_strict == false, r->Graph_stmts@ =~= seq![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_4
//@sig i, u1, u2, u3, u4
//@ret r
//@spec
    ensures r is Graph, r->Graph_id == i, r->Graph_strict == false, r->Graph_stmts@ =~= seq![Stmt::Attribute(u1), Stmt::Edge(u2), Stmt::Attribute(u3), Stmt::Edge(u4)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_5
//@sig i, s1, s2, s3, s4, s5
//@ret r
//@spec
    ensures r is Graph, r->Graph_id == i, r->Graph_strict == false, r->Graph_stmts@ =~= seq![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3), Stmt::Attribute(s4), Stmt::GAttribute(s5)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_di_none
//@sig i
//@ret r
//@spec
    ensures r is DiGraph, r->DiGraph_id == i, r->DiGraph_strict == false, r->DiGraph_stmts@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_di_vec
//@sig i, v
//@ret r
//@spec
    ensures r is DiGraph, r->DiGraph_id == i, r->DiGraph_strict == false, r->DiGraph_stmts == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_di_1
//@sig i, s1
//@ret r
//@spec
    ensures r is DiGraph, r->DiGraph_id == i, r->DiGraph_strict == false, r->DiGraph_stmts@ =~= seq![Stmt::Node(s1)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_di_same
//@sig i, t1, t2, t3
//@ret r
//@spec
    ensures r is DiGraph, r->DiGraph_id == i, r->DiGraph_strict == false, r->DiGraph_stmts@ =~= seq![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_di_4
//@sig i, u1, u2, u3, u4
//@ret r
//@spec
    ensures r is DiGraph, r->DiGraph_id == i, r->DiGraph_strict == false, r->DiGraph_stmts@ =~= seq![Stmt::Attribute(u1), Stmt::Edge(u2), Stmt::Attribute(u3), Stmt::Edge(u4)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_di_5
//@sig i, s1, s2, s3, s4, s5
//@ret r
//@spec
    ensures r is DiGraph, r->DiGraph_id == i, r->DiGraph_strict == false, r->DiGraph_stmts@ =~= seq![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3), Stmt::Attribute(s4), Stmt::GAttribute(s5)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_strict_none
//@sig i
//@ret r
//@spec
    ensures r is Graph, r->Graph_id == i, r->Graph_strict == true, r->Graph_stmts@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_strict_vec
//@sig i, v
//@ret r
//@spec
    ensures r is Graph, r->Graph_id == i, r->Graph_strict == true, r->Graph_stmts == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_strict_1
//@sig i, s1
//@ret r
//@spec
    ensures r is Graph, r->Graph_id == i, r->Graph_strict == true, r->Graph_stmts@ =~= seq![Stmt::Node(s1)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_strict_same
//@sig i, t1, t2, t3
//@ret r
//@spec
    ensures r is Graph, r->Graph_id == i, r->Graph_strict == true, r->Graph_stmts@ =~= seq![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_strict_4
//@sig i, u1, u2, u3, u4
//@ret r
//@spec
    ensures r is Graph, r->Graph_id == i, r->Graph_strict == true, r->Graph_stmts@ =~= seq![Stmt::Attribute(u1), Stmt::Edge(u2), Stmt::Attribute(u3), Stmt::Edge(u4)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_strict_5
//@sig i, s1, s2, s3, s4, s5
//@ret r
//@spec
    ensures r is Graph, r->Graph_id == i, r->Graph_strict == true, r->Graph_stmts@ =~= seq![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3), Stmt::Attribute(s4), Stmt::GAttribute(s5)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_strict_di_none
//@sig i
//@ret r
//@spec
    ensures r is DiGraph, r->DiGraph_id == i, r->DiGraph_strict == true, r->DiGraph_stmts@ =~= seq![], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_strict_di_vec
//@sig i, v
//@ret r
//@spec
    ensures r is DiGraph, r->DiGraph_id == i, r->DiGraph_strict == true, r->DiGraph_stmts == v, //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_strict_di_1
//@sig i, s1
//@ret r
//@spec
    ensures r is DiGraph, r->DiGraph_id == i, r->DiGraph_strict == true, r->DiGraph_stmts@ =~= seq![Stmt::Node(s1)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_strict_di_same
//@sig i, t1, t2, t3
//@ret r
//@spec
    ensures r is DiGraph, r->DiGraph_id == i, r->DiGraph_strict == true, r->DiGraph_stmts@ =~= seq![Stmt::Node(t1), Stmt::Node(t2), Stmt::Node(t3)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_strict_di_4
//@sig i, u1, u2, u3, u4
//@ret r
//@spec
    ensures r is DiGraph, r->DiGraph_id == i, r->DiGraph_strict == true, r->DiGraph_stmts@ =~= seq![Stmt::Attribute(u1), Stmt::Edge(u2), Stmt::Attribute(u3), Stmt::Edge(u4)], //#[C15]
//@pre
    // ""
//@end
//@fn gen::graph_strict_di_5
//@sig i, s1, s2, s3, s4, s5
//@ret r
//@spec
    ensures r is DiGraph, r->DiGraph_id == i, r->DiGraph_strict == true, r->DiGraph_stmts@ =~= seq![Stmt::Node(s1), Stmt::Edge(s2), Stmt::Subgraph(s3), Stmt::Attribute(s4), Stmt::GAttribute(s5)], //#[C15]
//@pre
    // ""
//@end
} // verus!
fn main() {}
