/// the type a name selects; letter case does not matter
pub open spec fn ga_of(ty: Txt, attrs: Vec<Attribute>) -> GraphAttributes {
    let n = lower(ty);
    if n == "graph"@ { GraphAttributes::Graph(attrs) } else if n == "node"@ { GraphAttributes::Node(attrs) } else { GraphAttributes::Edge(attrs) }
}
pub proof fn names_differ()
    ensures "graph"@ != "node"@, "graph"@ != "edge"@, "node"@ != "edge"@,
{ reveal_strlit("graph"); reveal_strlit("node"); reveal_strlit("edge"); assert("graph"@.len() == 5); assert("node"@.len() == 4); assert("edge"@.len() == 4); assert("node"@[0] == 'n'); assert("edge"@[0] == 'e'); }
pub open spec fn ga_name(ty: Txt) -> bool { all_ascii(ty) && (lower(ty) == "graph"@ || lower(ty) == "node"@ || lower(ty) == "edge"@) }
