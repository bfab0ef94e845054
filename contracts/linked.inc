// the conversions of the dot-structures crate that is linked
impl Node {
//@fn structures::<Node>::new
//@sig id, attributes
//@ret r
//@spec
    ensures r == (Node { id, attributes }),
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<Node> for Stmt {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Node) -> Stmt { Stmt::Node(v) }
}
impl From<Node> for Stmt {
//@fn structures::<From<Node> for Stmt>::from
//@sig v
//@ret r
//@spec
    ensures r == Stmt::Node(v),
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<Edge> for Stmt {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Edge) -> Stmt { Stmt::Edge(v) }
}
impl From<Edge> for Stmt {
//@fn structures::<From<Edge> for Stmt>::from
//@sig v
//@ret r
//@spec
    ensures r == Stmt::Edge(v),
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<GraphAttributes> for Stmt {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: GraphAttributes) -> Stmt { Stmt::GAttribute(v) }
}
impl From<GraphAttributes> for Stmt {
//@fn structures::<From<GraphAttributes> for Stmt>::from
//@sig v
//@ret r
//@spec
    ensures r == Stmt::GAttribute(v),
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<Attribute> for Stmt {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Attribute) -> Stmt { Stmt::Attribute(v) }
}
impl From<Attribute> for Stmt {
//@fn structures::<From<Attribute> for Stmt>::from
//@sig v
//@ret r
//@spec
    ensures r == Stmt::Attribute(v),
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<Subgraph> for Stmt {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Subgraph) -> Stmt { Stmt::Subgraph(v) }
}
impl From<Subgraph> for Stmt {
//@fn structures::<From<Subgraph> for Stmt>::from
//@sig v
//@ret r
//@spec
    ensures r == Stmt::Subgraph(v),
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<NodeId> for Vertex {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: NodeId) -> Vertex { Vertex::N(v) }
}
impl From<NodeId> for Vertex {
//@fn structures::<From<NodeId> for Vertex>::from
//@sig v
//@ret r
//@spec
    ensures r == Vertex::N(v),
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<Subgraph> for Vertex {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Subgraph) -> Vertex { Vertex::S(v) }
}
impl From<Subgraph> for Vertex {
//@fn structures::<From<Subgraph> for Vertex>::from
//@sig v
//@ret r
//@spec
    ensures r == Vertex::S(v),
//@end
}
