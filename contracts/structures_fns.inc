//@subst Formatter<'_> => Formatter
//@inline repo_structures
//@item repo_structures::Port
//@item repo_structures::Id
//@item repo_structures::NodeId
//@item repo_structures::Attribute
//@item repo_structures::GraphAttributes
//@item repo_structures::Edge
//@item repo_structures::EdgeTy
//@item repo_structures::Node
//@item repo_structures::Stmt
//@item repo_structures::Subgraph
//@item repo_structures::Vertex
//@item repo_structures::Graph
//@allpre broadcast use {string_ext, txt_norm, txt_lower}; proof { reveal(nil); }

//@include fmt.inc
impl Id {
//@fn repo_structures::<Display for Id>::fmt
//@sig self, f
//@ret r
//@opt result
//@spec
    ensures r is Ok ==> final(f)@ == cat(old(f)@, id_disp(*self)), r is Err ==> refused(r->Err_0), //#[C16]
//@pre
    // "html ", "esc ", "anon "
//@end
}
//@include ga_name.inc
impl GraphAttributes {
//@fn repo_structures::<GraphAttributes>::new
//@sig ty, attrs
//@ret r
//@spec
    requires ga_name(ty@),
    ensures r == ga_of(ty@, attrs), //#[C16]
//@pre
    proof { names_differ(); }
//@end
}
impl Edge {
//@fn repo_structures::<Edge>::add_attr
//@sig self, attr
//@spec
    ensures final(self).attributes@ == old(self).attributes@.push(attr), final(self).ty == old(self).ty, //#[C16]
//@end
}
impl Node {
//@fn repo_structures::<Node>::new
//@sig id, attributes
//@ret r
//@spec
    ensures r == (Node { id, attributes }), //#[C16]
//@end
}
impl Subgraph {
//@fn repo_structures::<Subgraph>::add_stmt
//@sig self, stmt
//@spec
    ensures final(self).stmts@ == old(self).stmts@.push(stmt), final(self).id == old(self).id, //#[C16]
//@end
}
pub open spec fn g_stmts(g: Graph) -> Seq<Stmt> { match g { Graph::Graph { stmts, .. } => stmts@, Graph::DiGraph { stmts, .. } => stmts@ } }
pub open spec fn g_id(g: Graph) -> Id { match g { Graph::Graph { id, .. } => id, Graph::DiGraph { id, .. } => id } }
pub open spec fn g_strict(g: Graph) -> bool { match g { Graph::Graph { strict, .. } => strict, Graph::DiGraph { strict, .. } => strict } }
impl Graph {
//@fn repo_structures::<Graph>::add_stmt
//@sig self, stmt
//@spec
    ensures g_stmts(*final(self)) == g_stmts(*old(self)).push(stmt), //#[C16]
        g_id(*final(self)) == g_id(*old(self)), //#[C16]
        g_strict(*final(self)) == g_strict(*old(self)), //#[C16]
        (*final(self) is Graph) == (*old(self) is Graph), //#[C16]
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<Node> for Stmt {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Node) -> Stmt { Stmt::Node(v) } //#[C16]
}
impl From<Node> for Stmt {
//@fn repo_structures::<From<Node> for Stmt>::from
//@sig v
//@ret r
//@spec
    ensures r == Stmt::Node(v), //#[C16]
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<Edge> for Stmt {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Edge) -> Stmt { Stmt::Edge(v) } //#[C16]
}
impl From<Edge> for Stmt {
//@fn repo_structures::<From<Edge> for Stmt>::from
//@sig v
//@ret r
//@spec
    ensures r == Stmt::Edge(v), //#[C16]
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<GraphAttributes> for Stmt {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: GraphAttributes) -> Stmt { Stmt::GAttribute(v) } //#[C16]
}
impl From<GraphAttributes> for Stmt {
//@fn repo_structures::<From<GraphAttributes> for Stmt>::from
//@sig v
//@ret r
//@spec
    ensures r == Stmt::GAttribute(v), //#[C16]
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<Attribute> for Stmt {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Attribute) -> Stmt { Stmt::Attribute(v) } //#[C16]
}
impl From<Attribute> for Stmt {
//@fn repo_structures::<From<Attribute> for Stmt>::from
//@sig v
//@ret r
//@spec
    ensures r == Stmt::Attribute(v), //#[C16]
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<Subgraph> for Stmt {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Subgraph) -> Stmt { Stmt::Subgraph(v) } //#[C16]
}
impl From<Subgraph> for Stmt {
//@fn repo_structures::<From<Subgraph> for Stmt>::from
//@sig v
//@ret r
//@spec
    ensures r == Stmt::Subgraph(v), //#[C16]
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<NodeId> for Vertex {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: NodeId) -> Vertex { Vertex::N(v) } //#[C16]
}
impl From<NodeId> for Vertex {
//@fn repo_structures::<From<NodeId> for Vertex>::from
//@sig v
//@ret r
//@spec
    ensures r == Vertex::N(v), //#[C16]
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<Subgraph> for Vertex {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Subgraph) -> Vertex { Vertex::S(v) } //#[C16]
}
impl From<Subgraph> for Vertex {
//@fn repo_structures::<From<Subgraph> for Vertex>::from
//@sig v
//@ret r
//@spec
    ensures r == Vertex::S(v), //#[C16]
//@end
}
