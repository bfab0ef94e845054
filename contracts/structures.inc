//@item structures::Id
//@item structures::Port
//@item structures::NodeId
//@item structures::Attribute
//@item structures::GraphAttributes
//@item structures::Edge
//@item structures::EdgeTy
//@item structures::Node
//@item structures::Stmt
//@item structures::Subgraph
//@item structures::Vertex
//@item structures::Graph
