//! One function per form of the generator macros; generated by tools/mkgen.py.
//! check.py takes the compiler's expansion of this crate: the bodies below as the macros of /repo/dot-generator write them.
#![allow(unused)]
use dot_generator::*;
use dot_structures::*;
use std::fmt::Display;

pub fn id_none() -> Id {
    id!()
}
pub fn id_plain<E: Display>(e: E) -> Id {
    id!(e)
}
pub fn id_esc<E: Display>(e: E) -> Id {
    id!(esc e)
}
pub fn id_html<E: Display>(e: E) -> Id {
    id!(html e)
}
pub fn port_none() -> Port {
    port!()
}
pub fn port_dir<E: Display>(e: E) -> Port {
    port!(, e)
}
pub fn port_both<E: Display>(i: Id, e: E) -> Port {
    port!(i, e)
}
pub fn port_id(i: Id) -> Port {
    port!(i)
}
pub fn node_id_none() -> NodeId {
    node_id!()
}
pub fn node_id_plain<E: Display>(e: E) -> NodeId {
    node_id!(e)
}
pub fn node_id_plain_port<E: Display>(e: E, p: Port) -> NodeId {
    node_id!(e, p)
}
pub fn node_id_esc<E: Display>(e: E) -> NodeId {
    node_id!(esc e)
}
pub fn node_id_esc_port<E: Display>(e: E, p: Port) -> NodeId {
    node_id!(esc e, p)
}
pub fn node_id_html<E: Display>(e: E) -> NodeId {
    node_id!(html e)
}
pub fn node_id_html_port<E: Display>(e: E, p: Port) -> NodeId {
    node_id!(html e, p)
}
pub fn attr_plain_plain<E: Display, F: Display>(e: E, v: F) -> Attribute {
    attr!(e, v)
}
pub fn attr_plain_esc<E: Display, F: Display>(e: E, v: F) -> Attribute {
    attr!(e, esc v)
}
pub fn attr_plain_html<E: Display, F: Display>(e: E, v: F) -> Attribute {
    attr!(e, html v)
}
pub fn attr_esc_plain<E: Display, F: Display>(e: E, v: F) -> Attribute {
    attr!(esc e, v)
}
pub fn attr_esc_esc<E: Display, F: Display>(e: E, v: F) -> Attribute {
    attr!(esc e, esc v)
}
pub fn attr_esc_html<E: Display, F: Display>(e: E, v: F) -> Attribute {
    attr!(esc e, html v)
}
pub fn attr_html_plain<E: Display, F: Display>(e: E, v: F) -> Attribute {
    attr!(html e, v)
}
pub fn attr_html_esc<E: Display, F: Display>(e: E, v: F) -> Attribute {
    attr!(html e, esc v)
}
pub fn attr_html_html<E: Display, F: Display>(e: E, v: F) -> Attribute {
    attr!(html e, html v)
}
pub fn stmt_node(x: Node) -> Stmt {
    stmt!(x)
}
pub fn stmt_edge(x: Edge) -> Stmt {
    stmt!(x)
}
pub fn stmt_gattribute(x: GraphAttributes) -> Stmt {
    stmt!(x)
}
pub fn stmt_attribute(x: Attribute) -> Stmt {
    stmt!(x)
}
pub fn stmt_subgraph(x: Subgraph) -> Stmt {
    stmt!(x)
}
pub fn subgraph_none() -> Subgraph {
    subgraph!()
}
pub fn subgraph_plain<E: Display>(e: E) -> Subgraph {
    subgraph!(e)
}
pub fn subgraph_plain_vec<E: Display>(e: E, v: Vec<Stmt>) -> Subgraph {
    subgraph!(e, v)
}
pub fn subgraph_plain_1<E: Display>(e: E, s1: Node) -> Subgraph {
    subgraph!(e; s1)
}
pub fn subgraph_plain_3<E: Display>(e: E, s1: Node, s2: Edge, s3: Subgraph) -> Subgraph {
    subgraph!(e; s1, s2, s3)
}
pub fn subgraph_plain_same<E: Display>(e: E, t1: Node, t2: Node, t3: Node) -> Subgraph {
    subgraph!(e; t1, t2, t3)
}
pub fn subgraph_esc<E: Display>(e: E) -> Subgraph {
    subgraph!(esc e)
}
pub fn subgraph_esc_vec<E: Display>(e: E, v: Vec<Stmt>) -> Subgraph {
    subgraph!(esc e, v)
}
pub fn subgraph_esc_1<E: Display>(e: E, s1: Node) -> Subgraph {
    subgraph!(esc e; s1)
}
pub fn subgraph_esc_3<E: Display>(e: E, s1: Node, s2: Edge, s3: Subgraph) -> Subgraph {
    subgraph!(esc e; s1, s2, s3)
}
pub fn subgraph_esc_same<E: Display>(e: E, t1: Node, t2: Node, t3: Node) -> Subgraph {
    subgraph!(esc e; t1, t2, t3)
}
pub fn subgraph_html<E: Display>(e: E) -> Subgraph {
    subgraph!(html e)
}
pub fn subgraph_html_vec<E: Display>(e: E, v: Vec<Stmt>) -> Subgraph {
    subgraph!(html e, v)
}
pub fn subgraph_html_1<E: Display>(e: E, s1: Node) -> Subgraph {
    subgraph!(html e; s1)
}
pub fn subgraph_html_3<E: Display>(e: E, s1: Node, s2: Edge, s3: Subgraph) -> Subgraph {
    subgraph!(html e; s1, s2, s3)
}
pub fn subgraph_html_same<E: Display>(e: E, t1: Node, t2: Node, t3: Node) -> Subgraph {
    subgraph!(html e; t1, t2, t3)
}
pub fn subgraph_anon_same(t1: Node, t2: Node, t3: Node) -> Subgraph {
    subgraph!(; t1, t2, t3)
}
pub fn subgraph_anon_4(u1: Attribute, u2: Edge, u3: Attribute, u4: Edge) -> Subgraph {
    subgraph!(; u1, u2, u3, u4)
}
pub fn subgraph_anon_1(s1: Node) -> Subgraph {
    subgraph!(; s1)
}
pub fn subgraph_anon_5(s1: Node, s2: Edge, s3: Subgraph, s4: Attribute, s5: GraphAttributes) -> Subgraph {
    subgraph!(; s1, s2, s3, s4, s5)
}
pub fn attrs_none() -> GraphAttributes {
    attrs!()
}
pub fn attrs_graph_vec(v: Vec<Attribute>) -> GraphAttributes {
    attrs!(graph v)
}
pub fn attrs_graph_1(a1: Attribute) -> GraphAttributes {
    attrs!(graph; a1)
}
pub fn attrs_graph_3(a1: Attribute, a2: Attribute, a3: Attribute) -> GraphAttributes {
    attrs!(graph; a1, a2, a3)
}
pub fn attrs_node_vec(v: Vec<Attribute>) -> GraphAttributes {
    attrs!(node v)
}
pub fn attrs_node_1(a1: Attribute) -> GraphAttributes {
    attrs!(node; a1)
}
pub fn attrs_node_3(a1: Attribute, a2: Attribute, a3: Attribute) -> GraphAttributes {
    attrs!(node; a1, a2, a3)
}
pub fn attrs_edge_vec(v: Vec<Attribute>) -> GraphAttributes {
    attrs!(edge v)
}
pub fn attrs_edge_1(a1: Attribute) -> GraphAttributes {
    attrs!(edge; a1)
}
pub fn attrs_edge_3(a1: Attribute, a2: Attribute, a3: Attribute) -> GraphAttributes {
    attrs!(edge; a1, a2, a3)
}
pub fn node_anon_none() -> Node {
    node!()
}
pub fn node_plain_none<E: Display>(e: E) -> Node {
    node!(e)
}
pub fn node_plain_vec<E: Display>(e: E, v: Vec<Attribute>) -> Node {
    node!(e, v)
}
pub fn node_plain_port_vec<E: Display>(e: E, p: Port, v: Vec<Attribute>) -> Node {
    node!(e => p, v)
}
pub fn node_plain_1<E: Display>(e: E, a1: Attribute) -> Node {
    node!(e; a1)
}
pub fn node_plain_port_1<E: Display>(e: E, p: Port, a1: Attribute) -> Node {
    node!(e => p; a1)
}
pub fn node_plain_3<E: Display>(e: E, a1: Attribute, a2: Attribute, a3: Attribute) -> Node {
    node!(e; a1, a2, a3)
}
pub fn node_plain_port_3<E: Display>(e: E, p: Port, a1: Attribute, a2: Attribute, a3: Attribute) -> Node {
    node!(e => p; a1, a2, a3)
}
pub fn node_esc_none<E: Display>(e: E) -> Node {
    node!(esc e)
}
pub fn node_esc_vec<E: Display>(e: E, v: Vec<Attribute>) -> Node {
    node!(esc e, v)
}
pub fn node_esc_port_vec<E: Display>(e: E, p: Port, v: Vec<Attribute>) -> Node {
    node!(esc e => p, v)
}
pub fn node_esc_1<E: Display>(e: E, a1: Attribute) -> Node {
    node!(esc e; a1)
}
pub fn node_esc_port_1<E: Display>(e: E, p: Port, a1: Attribute) -> Node {
    node!(esc e => p; a1)
}
pub fn node_esc_3<E: Display>(e: E, a1: Attribute, a2: Attribute, a3: Attribute) -> Node {
    node!(esc e; a1, a2, a3)
}
pub fn node_esc_port_3<E: Display>(e: E, p: Port, a1: Attribute, a2: Attribute, a3: Attribute) -> Node {
    node!(esc e => p; a1, a2, a3)
}
pub fn node_html_none<E: Display>(e: E) -> Node {
    node!(html e)
}
pub fn node_html_vec<E: Display>(e: E, v: Vec<Attribute>) -> Node {
    node!(html e, v)
}
pub fn node_html_port_vec<E: Display>(e: E, p: Port, v: Vec<Attribute>) -> Node {
    node!(html e => p, v)
}
pub fn node_html_1<E: Display>(e: E, a1: Attribute) -> Node {
    node!(html e; a1)
}
pub fn node_html_port_1<E: Display>(e: E, p: Port, a1: Attribute) -> Node {
    node!(html e => p; a1)
}
pub fn node_html_3<E: Display>(e: E, a1: Attribute, a2: Attribute, a3: Attribute) -> Node {
    node!(html e; a1, a2, a3)
}
pub fn node_html_port_3<E: Display>(e: E, p: Port, a1: Attribute, a2: Attribute, a3: Attribute) -> Node {
    node!(html e => p; a1, a2, a3)
}
pub fn edge_2(l: NodeId, m: Subgraph) -> Edge {
    edge!(l => m)
}
pub fn edge_2_vec(l: NodeId, m: Subgraph, v: Vec<Attribute>) -> Edge {
    edge!(l => m, v)
}
pub fn edge_2_1(l: NodeId, m: Subgraph, a1: Attribute) -> Edge {
    edge!(l => m; a1)
}
pub fn edge_2_3(l: NodeId, m: Subgraph, a1: Attribute, a2: Attribute, a3: Attribute) -> Edge {
    edge!(l => m; a1, a2, a3)
}
pub fn edge_2_same(w1: NodeId, w2: NodeId) -> Edge {
    edge!(w1 => w2)
}
pub fn edge_2_same_2(w1: NodeId, w2: NodeId, a1: Attribute, a2: Attribute) -> Edge {
    edge!(w1 => w2; a1, a2)
}
pub fn edge_3(l: NodeId, m: Subgraph, n: NodeId) -> Edge {
    edge!(l => m => n)
}
pub fn edge_3_vec(l: NodeId, m: Subgraph, n: NodeId, v: Vec<Attribute>) -> Edge {
    edge!(l => m => n, v)
}
pub fn edge_3_1(l: NodeId, m: Subgraph, n: NodeId, a1: Attribute) -> Edge {
    edge!(l => m => n; a1)
}
pub fn edge_3_3(l: NodeId, m: Subgraph, n: NodeId, a1: Attribute, a2: Attribute, a3: Attribute) -> Edge {
    edge!(l => m => n; a1, a2, a3)
}
pub fn edge_3_same(w1: Subgraph, w2: Subgraph, w3: Subgraph) -> Edge {
    edge!(w1 => w2 => w3)
}
pub fn edge_3_same_2(w1: Subgraph, w2: Subgraph, w3: Subgraph, a1: Attribute, a2: Attribute) -> Edge {
    edge!(w1 => w2 => w3; a1, a2)
}
pub fn edge_4(l: NodeId, m: Subgraph, n: NodeId, o: Subgraph) -> Edge {
    edge!(l => m => n => o)
}
pub fn edge_4_vec(l: NodeId, m: Subgraph, n: NodeId, o: Subgraph, v: Vec<Attribute>) -> Edge {
    edge!(l => m => n => o, v)
}
pub fn edge_4_1(l: NodeId, m: Subgraph, n: NodeId, o: Subgraph, a1: Attribute) -> Edge {
    edge!(l => m => n => o; a1)
}
pub fn edge_4_3(l: NodeId, m: Subgraph, n: NodeId, o: Subgraph, a1: Attribute, a2: Attribute, a3: Attribute) -> Edge {
    edge!(l => m => n => o; a1, a2, a3)
}
pub fn edge_4_same(w1: NodeId, w2: NodeId, w3: NodeId, w4: NodeId) -> Edge {
    edge!(w1 => w2 => w3 => w4)
}
pub fn edge_4_same_2(w1: NodeId, w2: NodeId, w3: NodeId, w4: NodeId, a1: Attribute, a2: Attribute) -> Edge {
    edge!(w1 => w2 => w3 => w4; a1, a2)
}
pub fn graph_none(i: Id) -> Graph {
    graph!(i)
}
pub fn graph_vec(i: Id, v: Vec<Stmt>) -> Graph {
    graph!(i, v)
}
pub fn graph_1(i: Id, s1: Node) -> Graph {
    graph!(i; s1)
}
pub fn graph_same(i: Id, t1: Node, t2: Node, t3: Node) -> Graph {
    graph!(i; t1, t2, t3)
}
pub fn graph_4(i: Id, u1: Attribute, u2: Edge, u3: Attribute, u4: Edge) -> Graph {
    graph!(i; u1, u2, u3, u4)
}
pub fn graph_5(i: Id, s1: Node, s2: Edge, s3: Subgraph, s4: Attribute, s5: GraphAttributes) -> Graph {
    graph!(i; s1, s2, s3, s4, s5)
}
pub fn graph_di_none(i: Id) -> Graph {
    graph!(di i)
}
pub fn graph_di_vec(i: Id, v: Vec<Stmt>) -> Graph {
    graph!(di i, v)
}
pub fn graph_di_1(i: Id, s1: Node) -> Graph {
    graph!(di i; s1)
}
pub fn graph_di_same(i: Id, t1: Node, t2: Node, t3: Node) -> Graph {
    graph!(di i; t1, t2, t3)
}
pub fn graph_di_4(i: Id, u1: Attribute, u2: Edge, u3: Attribute, u4: Edge) -> Graph {
    graph!(di i; u1, u2, u3, u4)
}
pub fn graph_di_5(i: Id, s1: Node, s2: Edge, s3: Subgraph, s4: Attribute, s5: GraphAttributes) -> Graph {
    graph!(di i; s1, s2, s3, s4, s5)
}
pub fn graph_strict_none(i: Id) -> Graph {
    graph!(strict i)
}
pub fn graph_strict_vec(i: Id, v: Vec<Stmt>) -> Graph {
    graph!(strict i, v)
}
pub fn graph_strict_1(i: Id, s1: Node) -> Graph {
    graph!(strict i; s1)
}
pub fn graph_strict_same(i: Id, t1: Node, t2: Node, t3: Node) -> Graph {
    graph!(strict i; t1, t2, t3)
}
pub fn graph_strict_4(i: Id, u1: Attribute, u2: Edge, u3: Attribute, u4: Edge) -> Graph {
    graph!(strict i; u1, u2, u3, u4)
}
pub fn graph_strict_5(i: Id, s1: Node, s2: Edge, s3: Subgraph, s4: Attribute, s5: GraphAttributes) -> Graph {
    graph!(strict i; s1, s2, s3, s4, s5)
}
pub fn graph_strict_di_none(i: Id) -> Graph {
    graph!(strict di i)
}
pub fn graph_strict_di_vec(i: Id, v: Vec<Stmt>) -> Graph {
    graph!(strict di i, v)
}
pub fn graph_strict_di_1(i: Id, s1: Node) -> Graph {
    graph!(strict di i; s1)
}
pub fn graph_strict_di_same(i: Id, t1: Node, t2: Node, t3: Node) -> Graph {
    graph!(strict di i; t1, t2, t3)
}
pub fn graph_strict_di_4(i: Id, u1: Attribute, u2: Edge, u3: Attribute, u4: Edge) -> Graph {
    graph!(strict di i; u1, u2, u3, u4)
}
pub fn graph_strict_di_5(i: Id, s1: Node, s2: Edge, s3: Subgraph, s4: Attribute, s5: GraphAttributes) -> Graph {
    graph!(strict di i; s1, s2, s3, s4, s5)
}
