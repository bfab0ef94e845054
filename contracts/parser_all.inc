//@inline graphviz::parser
//@subst Pair<Rule> => Pair
//@subst Pairs<'_,Rule> => Pairs
//@subst Error<Rule> => PestError
//@item graphviz::parser::Rule
//@include peg.inc
//@grammar graphviz::parser
//@include peg_val.inc
pub mod m_lex { use super::*;
//@include peg_lex.inc
}
pub use m_lex::*;
//@include peg_shape.inc
//@include peg_sound.inc
pub mod m_trees { use super::*;
//@include peg_trees.inc
}
pub use m_trees::*;
pub mod m_sim { use super::*;
//@include peg_sim.inc
}
pub use m_sim::*;
//@include parser_x.inc
//@include peg_same.inc
//@include peg_writes.inc
pub mod m_cplt { use super::*;
//@include peg_cplt.inc
}
pub use m_cplt::*;
//@include ga_name.inc
//@include fmt.inc
//@subst Formatter<'_> => Formatter
//@allpre broadcast use {string_ext};

//@include linked.inc
impl Id {
//@fn structures::<Display for Id>::fmt
//@sig self, f
//@ret r
//@opt result
//@spec
    ensures r is Ok ==> final(f)@ == cat(old(f)@, id_disp(*self)), r is Err ==> refused(r->Err_0), //#[C10]
//@pre
    broadcast use {txt_norm};
//@end
}
impl VDisp for Id { open spec fn disp(&self) -> Txt { id_disp(*self) } }
impl VDisp for PestError { uninterp spec fn disp(&self) -> Txt; }
impl GraphAttributes {
//@fn structures::<GraphAttributes>::new
//@sig ty, attrs
//@ret r
//@spec
    requires ga_name(ty@),
    ensures r == ga_of(ty@, attrs), //#[C08]
//@pre
    proof { names_differ(); broadcast use {txt_norm, txt_lower}; }
//@end
}
pub proof fn kw_lits() ensures "graph"@ == k_graph(), "node"@ == k_node(), "edge"@ == k_edge(), "digraph"@ == k_digraph(), "strict"@ == k_strict(), "subgraph"@ == k_subgraph() {
    reveal_strlit("graph"); reveal_strlit("node"); reveal_strlit("edge"); reveal_strlit("digraph"); reveal_strlit("strict"); reveal_strlit("subgraph");
    assert("graph"@ =~= k_graph()); assert("node"@ =~= k_node()); assert("edge"@ =~= k_edge()); assert("digraph"@ =~= k_digraph()); assert("strict"@ =~= k_strict()); assert("subgraph"@ =~= k_subgraph());
}
pub proof fn low_same(t: Txt) requires forall|q: int| 0 <= q < t.len() ==> 'a' <= #[trigger] t[q] && t[q] <= 'z' ensures lower(t) == t, all_ascii(t) { reveal(lower); reveal(all_ascii); assert(lower(t) =~= t); }
pub proof fn marks(t: Tree)
    requires mark(t.kids[0].text)
    ensures ga_name(t.kids[0].text), t.kids[0].text == "graph"@ || t.kids[0].text == "node"@ || t.kids[0].text == "edge"@,
        k_graph() == "graph"@, k_node() == "node"@, k_edge() == "edge"@,
        forall|v: Vec<Attribute>| m_attrs(t.kids[1], v@) ==> m_gattr(t, #[trigger] ga_of(t.kids[0].text, v))
{
    kw_lits(); low_same(k_graph()); low_same(k_node()); low_same(k_edge()); kw_lens();
    let x = t.kids[0].text;
    assert(lower(x) == x && all_ascii(x));
    assert(k_graph() != k_node() && k_node() != k_edge() && k_graph() != k_edge());
}
pub proof fn all_end(s: Txt) ensures ends(s, Rule::file) { ends_all(Rl::file, s, 0, At::N); }
pub open spec fn whole(s: Txt, k: Seq<Tree>) -> bool { k.len() == 1 && k[0].rule is file && shape(k[0]) && k[0].kids.len() == 2 && k[0].kids[0].rule is graph && parsed(s, k[0].kids[0]) }
pub proof fn accepted(s: Txt, k: Seq<Tree>) requires accepts(s, Rule::file, k) ensures whole(s, k), reads(s, k[0].kids[0]) {
    let n = val_at(G::Call(entry(Rule::file)), s, 0, At::N);
    file_sound(s, n); made_of(k[0]);
}
/// the tree of the graph a text is
pub open spec fn reads(s: Txt, t: Tree) -> bool { parsed(s, t) && exists|k: Seq<Tree>| #[trigger] accepts(s, Rule::file, k) && k.len() == 1 && k[0].kids.len() == 2 && k[0].kids[0] == t }
pub proof fn same_layout(a: Txt, b: Txt, t: Tree, u: Tree, x: Graph) requires alike(a, 0, b, 0), reads(a, t), reads(b, u), m_graph(t, x) ensures m_graph(u, x) {
    file_sim(a, b);
    let k = choose|k: Seq<Tree>| #[trigger] accepts(a, Rule::file, k) && k.len() == 1 && k[0].kids.len() == 2 && k[0].kids[0] == t;
    let l = choose|k: Seq<Tree>| #[trigger] accepts(b, Rule::file, k) && k.len() == 1 && k[0].kids.len() == 2 && k[0].kids[0] == u;
    accepted(a, k); accepted(b, l);
    assert(eqv(k[0], l[0])); assert(eqv(k[0].kids[0], l[0].kids[0]));
    z_graph(t, u, x);
}
pub mod m_det { use super::*;
//@include peg_det.inc
}
pub use m_det::*;
//@fn graphviz::parser::down
//@sig rule
//@ret r
//@spec
    requires rule@.kids.len() > 0,
    ensures r@ == rule@.kids[0], //#[C08]
//@end
//@fn graphviz::parser::process_id
//@sig rule
//@ret r
//@spec
    requires shape(rule@), rule@.rule is id,
    ensures m_id(rule@, r), //#[C09 C08]
//@pre
    proof { made_of(rule@); }
//@end
//@fn graphviz::parser::process_bare_attr
//@sig rule
//@ret r
//@spec
    requires shape(rule@), rule@.rule is bare_attr,
    ensures m_attr(rule@, r), //#[C08]
//@pre
    proof { made_of(rule@); }
//@end
//@fn graphviz::parser::process_attr
//@sig rule
//@ret r
//@spec
    requires shape(rule@), rule@.rule is attr,
    ensures m_attr(rule@.kids[0], r), //#[C08]
//@pre
    proof { made_of(rule@); }
//@end
//@fn graphviz::parser::process_attr_list
//@sig rule
//@ret r
//@spec
    requires shape(rule@), rule@.rule is attr_list,
    ensures m_attrs(rule@, r@), //#[C08]
//@pre
    proof { made_of(rule@); }
//@loop
    invariant shape(rule@), $acc@.len() + $it@.len() == rule@.kids.len(), $it@ == rule@.kids.skip($acc@.len() as int),
        forall|q: int| 0 <= q < $acc@.len() ==> m_attr(rule@.kids[q].kids[0], #[trigger] $acc@[q]),
    decreases $it@.len(),
//@end
/// the ten compass points as text
pub proof fn points()
    ensures "n"@ == e().push('n'), "ne"@ == e().push('n').push('e'), "e"@ == e().push('e'), "se"@ == e().push('s').push('e'), "s"@ == e().push('s'),
        "sw"@ == e().push('s').push('w'), "w"@ == e().push('w'), "nw"@ == e().push('n').push('w'), "c"@ == e().push('c'), "_"@ == e().push('_'),
{
    reveal_strlit("n"); reveal_strlit("ne"); reveal_strlit("e"); reveal_strlit("se"); reveal_strlit("s"); reveal_strlit("sw"); reveal_strlit("w"); reveal_strlit("nw"); reveal_strlit("c"); reveal_strlit("_");
    assert("n"@ =~= e().push('n')); assert("ne"@ =~= e().push('n').push('e')); assert("e"@ =~= e().push('e')); assert("se"@ =~= e().push('s').push('e')); assert("s"@ =~= e().push('s'));
    assert("sw"@ =~= e().push('s').push('w')); assert("w"@ =~= e().push('w')); assert("nw"@ =~= e().push('n').push('w')); assert("c"@ =~= e().push('c')); assert("_"@ =~= e().push('_'));
}
//@fn graphviz::parser::parse_compass_manually
//@sig id
//@ret r
//@spec
    ensures match id { Id::Plain(s) => if point(s@) { r is Some && r->0@ == s@ } else { r is None }, _ => r is None }, //#[C10]
//@pre
    proof { points(); }
//@end
//@fn graphviz::parser::process_port
//@sig port
//@ret r
//@spec
    requires shape(port@), port@.rule is port,
    ensures m_port(port@, r), //#[C10]
//@pre
    proof { made_of(port@); }
//@end
//@fn graphviz::parser::process_node_id
//@sig rule
//@ret r
//@spec
    requires shape(rule@), rule@.rule is node_id,
    ensures m_nid(rule@, r), //#[C08]
//@pre
    proof { made_of(rule@); }
//@end
//@fn graphviz::parser::process_node
//@sig rule
//@ret r
//@spec
    requires shape(rule@), rule@.rule is node,
    ensures m_node(rule@, r), //#[C08]
//@pre
    proof { made_of(rule@); }
//@end
//@fn graphviz::parser::process_attr_stmt
//@sig rule
//@ret r
//@spec
    requires shape(rule@), rule@.rule is attr_stmt,
    ensures m_gattr(rule@, r), //#[C08]
//@pre
    proof { made_of(rule@); marks(rule@); }
//@end
//@fn graphviz::parser::process_subgraph
//@sig rule
//@ret r
//@spec
    requires shape(rule@), rule@.rule is subgraph,
    ensures m_sub(rule@, r), //#[C08]
    decreases rule@, 0nat,
//@pre
    proof { made_of(rule@); }
//@end
//@fn graphviz::parser::process_body
//@sig rule
//@ret r
//@spec
    requires shape(rule@), rule@.rule is body,
    ensures m_body(rule@, r@), //#[C08]
    decreases rule@, 0nat,
//@pre
    proof { made_of(rule@); }
//@loop
    invariant shape(rule@), $acc@.len() + $it@.len() == rule@.kids.len(), $it@ == rule@.kids.skip($acc@.len() as int),
        forall|q: int| 0 <= q < $acc@.len() ==> m_stmt(rule@.kids[q], #[trigger] $acc@[q]),
    decreases $it@.len(),
//@end
//@fn graphviz::parser::process_vertex
//@sig rule
//@ret r
//@spec
    requires shape(rule@), rule@.rule is vertex,
    ensures m_vertex(rule@, r), //#[C08]
    decreases rule@, 0nat,
//@pre
    proof { made_of(rule@); }
//@end
//@fn graphviz::parser::process_edge
//@sig rule
//@ret r
//@spec
    requires shape(rule@), rule@.rule is edge,
    ensures m_ends(rule@, r@), //#[C08]
    decreases rule@, 0nat,
//@pre
    proof { made_of(rule@); }
//@loop
    invariant shape(rule@), $acc@.len() + $it@.len() == rule@.kids.len(), $it@ == rule@.kids.skip($acc@.len() as int),
        forall|q: int| 0 <= q < $acc@.len() ==> (if q == 0 { m_vertex(rule@.kids[q], #[trigger] $acc@[q]) } else { m_vertex(rule@.kids[q].kids[0], $acc@[q]) }), $acc@.len() > 0,
    decreases $it@.len(),
//@end
//@fn graphviz::parser::process_edge_stmt
//@sig rule
//@ret r
//@spec
    requires shape(rule@), rule@.rule is edge_stmt,
    ensures m_edge(rule@, r), //#[C08]
    decreases rule@, 0nat,
//@pre
    proof { made_of(rule@); }
//@end
//@fn graphviz::parser::process_stmt
//@sig rule
//@ret r
//@spec
    requires shape(rule@), rule@.rule is stmt,
    ensures m_stmt(rule@, r), //#[C08]
    decreases rule@, 0nat,
//@pre
    proof { made_of(rule@); }
//@end
//@fn graphviz::parser::process_graph
//@sig rule
//@ret r
//@spec
    requires shape(rule@), rule@.rule is graph,
    ensures m_graph(rule@, r), //#[C08]
//@pre
    proof { made_of(rule@); kw_lens(); kw_lits(); }
//@end
//@fn graphviz::parser::do_parse
//@sig input, ty
//@ret r
//@spec
    requires ty is file, ends(input@, ty),
    ensures match r { Ok(p) => accepts(input@, ty, p@), Err(_) => refuses(input@, ty) }, //#[C08]
//@end
//@fn graphviz::parser::parse
//@sig dot
//@ret r
//@spec
    ensures r matches Ok(g) ==> exists|t: Tree| #[trigger] reads(dot@, t) && m_graph(t, g), //#[C08]
        r is Err ==> refuses(dot@, Rule::file), //#[C08]
//@pre
    proof { all_end(dot@); assert forall|k: Seq<Tree>| #[trigger] accepts(dot@, Rule::file, k) implies whole(dot@, k) && reads(dot@, k[0].kids[0]) by { accepted(dot@, k); } }
//@end
/// the crate's entry point
pub mod top {
use super::*;
use crate as parser;
//@fn graphviz::parse
//@sig dot
//@ret r
//@spec
    ensures r matches Ok(g) ==> exists|t: Tree| #[trigger] reads(dot@, t) && m_graph(t, g), //#[C08]
        r is Err ==> refuses(dot@, Rule::file), //#[C08]
//@end
/// blanks and comments do not matter, by the contract of parse
pub fn two_layouts(a: &str, b: &str) -> (r: (Result<Graph, String>, Result<Graph, String>))
    requires alike(a@, 0, b@, 0)
    ensures match r { (Ok(x), Ok(y)) => exists|t: Tree| #[trigger] m_graph(t, y) && m_graph(t, x), (Err(_), Err(_)) => true, _ => false }, //#[C11]
{
    proof { assert forall|t: Tree, u: Tree, x: Graph| #[trigger] reads(a@, t) && #[trigger] reads(b@, u) && #[trigger] m_graph(t, x) implies m_graph(u, x) by { same_layout(a@, b@, t, u, x); } file_sim(a@, b@); }
    let x = parse(a);
    let y = parse(b);
    (x, y)
}
/// with any blanks and comments, with or without the optional separators, by the contract of parse
pub fn two_writings(a: &str, b: &str, Ghost(g): Ghost<Graph>) -> (r: (Result<Graph, String>, Result<Graph, String>))
    requires writes(a@, g), writes(b@, g)
    ensures r.0 is Ok && r.1 is Ok && same_graph(g, r.0->Ok_0) && same_graph(g, r.1->Ok_0), //#[C11]
{
    proof { read_back(a@, g); read_back(b@, g); }
    let x = parse(a);
    let y = parse(b);
    (x, y)
}
}
