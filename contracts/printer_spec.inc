//@inline graphviz::printer
//@subst HashMap<Id,Box<AttributeValuePrinter>> => VFmtMap
//@subst Box<AttributeValuePrinter> => VFmt
//@item graphviz::printer::PrinterContext

// ---- attribute value printers: any function of its four arguments ----
#[verifier::external_body]
pub struct VFmt { f: u8 }
pub uninterp spec fn fmt_result(f: VFmt, value: Txt, sep: Txt, indent: Txt, step: nat) -> Txt;
pub fn v_call<A: VStr + ?Sized, B: VStr + ?Sized, C: VStr + ?Sized>(f: &VFmt, value: &A, sep: &B, indent: &C, step: usize) -> (r: String)
    ensures r@ == fmt_result(*f, value.sv(), sep.sv(), indent.sv(), step as nat)
{ v_call_(f, v_sref(value), v_sref(sep), v_sref(indent), step) }
#[verifier::external_body]
pub fn v_call_(f: &VFmt, value: &str, sep: &str, indent: &str, step: usize) -> (r: String)
    ensures r@ == fmt_result(*f, value@, sep@, indent@, step as nat) { unimplemented!() }
#[verifier::external_body]
pub struct VFmtMap { m: u8 }
impl View for VFmtMap { type V = Map<Id, VFmt>; uninterp spec fn view(&self) -> Map<Id, VFmt>; }
impl VFmtMap {
    #[verifier::external_body]
    pub fn get(&self, k: &Id) -> (r: Option<&VFmt>)
        ensures self@.contains_key(*k) ==> r == Some(&self@[*k]), !self@.contains_key(*k) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Id) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Id, v: VFmt) -> (r: Option<VFmt>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
pub struct HashMap {}
impl HashMap {
    #[verifier::external_body]
    pub fn new() -> (r: VFmtMap) ensures r@ == Map::<Id, VFmt>::empty() { unimplemented!() }
}

// ---- the context as a mathematical value ----
pub ghost struct Cx {
    pub di: bool, pub semi: bool, pub multi: bool, pub comma: bool,
    pub ind: nat, pub step: nat, pub ls: Txt, pub lsi: Txt, pub lsm: Txt, pub width: nat,
    pub fm: Map<Id, VFmt>,
}
pub open spec fn cv(c: PrinterContext) -> Cx {
    Cx { di: c.is_digraph, semi: c.semi, multi: c.mult_node_attr_on_s_l, comma: c.mult_node_attr_on_s_l_comma,
         ind: c.indent as nat, step: c.indent_step as nat, ls: c.l_s@, lsi: c.l_s_i@, lsm: c.l_s_m@,
         width: c.inline_size as nat, fm: c.attr_value_printers@ }
}
pub open spec fn inv(c: Cx) -> bool { c.lsi == nil() && (c.ls == c.lsi || c.ls == c.lsm) }
pub open spec fn inline(c: Cx) -> bool { c.ls == c.lsi }
pub open spec fn grow(c: Cx) -> Cx { if inline(c) { c } else { Cx { ind: c.ind + c.step, ..c } } }
pub open spec fn one_line(c: Cx) -> Cx { Cx { ls: c.lsi, ..c } }
pub open spec fn ind_txt(c: Cx) -> Txt { if inline(c) { nil() } else { rep_txt(" "@, c.ind) } }

// ---- what each element must print as ----
pub open spec fn t_id(id: Id) -> Txt {
    match id { Id::Html(s) => s@, Id::Escaped(s) => s@, Id::Plain(s) => s@, Id::Anonymous(_) => nil() }
}
pub open spec fn t_port(p: Port) -> Txt {
    match p {
        Port(Some(id), Some(d)) => cat![":"@, t_id(id), ":"@, d@],
        Port(None, Some(d)) => cat![":"@, d@],
        Port(Some(id), None) => cat![":"@, t_id(id)],
        Port(None, None) => nil(),
    }
}
pub open spec fn t_node_id(n: NodeId) -> Txt {
    match n.1 { None => t_id(n.0), Some(p) => cat![t_id(n.0), t_port(p)] }
}
pub open spec fn t_attr(a: Attribute, c: Cx) -> Txt {
    cat![t_id(a.0), "="@, if c.fm.contains_key(a.0) { fmt_result(c.fm[a.0], t_id(a.1), c.ls, ind_txt(c), c.step) } else { t_id(a.1) }]
}
pub open spec fn t_attr_all(v: Seq<Attribute>, c: Cx, n: nat) -> Seq<Txt> decreases n {
    if n == 0 || n > v.len() { seq![] } else { t_attr_all(v, c, (n - 1) as nat).push(t_attr(v[n - 1], c)) }
}
pub open spec fn t_attrs(v: Seq<Attribute>, c: Cx) -> Txt {
    if v.len() == 0 { nil() }
    else if v.len() > 1 && c.multi {
        let d = grow(c);
        cat!["["@, c.ls, ind_txt(d),
            join_txt(t_attr_all(v, c, v.len()), cat![if inline(c) || c.comma { ","@ } else { nil() }, c.ls, ind_txt(d)]),
            c.ls, ind_txt(c), "]"@]
    } else { cat!["["@, join_txt(t_attr_all(v, c, v.len()), " "@), "]"@] }
}
pub open spec fn t_gattr(g: GraphAttributes, c: Cx) -> Txt {
    match g {
        GraphAttributes::Graph(v) => if v@.len() == 0 { "graph[]"@ } else { cat!["graph"@, t_attrs(v@, c)] },
        GraphAttributes::Node(v) => if v@.len() == 0 { "node[]"@ } else { cat!["node"@, t_attrs(v@, c)] },
        GraphAttributes::Edge(v) => if v@.len() == 0 { "edge[]"@ } else { cat!["edge"@, t_attrs(v@, c)] },
    }
}
pub open spec fn t_node(n: Node, c: Cx) -> Txt { cat![t_node_id(n.id), t_attrs(n.attributes@, c)] }
pub open spec fn bond(c: Cx) -> Txt { if c.di { "->"@ } else { "--"@ } }

pub open spec fn t_vertex(v: Vertex, c: Cx) -> Txt decreases v, 0nat {
    match v { Vertex::N(n) => t_node_id(n), Vertex::S(s) => t_subgraph(s, c) }
}
pub open spec fn t_subgraph(s: Subgraph, c: Cx) -> Txt decreases s, 0nat {
    cat!["subgraph "@, t_id(s.id), " {"@, c.ls, t_body(t_stmt_all(s.stmts, grow(c), s.stmts@.len()), c), c.ls, ind_txt(c), "}"@]
}
pub open spec fn t_stmt_all(v: Vec<Stmt>, c: Cx, n: nat) -> Seq<Txt> decreases v, n {
    if n == 0 || n > v@.len() { seq![] } else { t_stmt_all(v, c, (n - 1) as nat).push(t_stmt(v@[n - 1], c)) }
}
pub open spec fn closes(x: char) -> bool { x == ']' || x == '}' || x == ';' }
pub open spec fn line_n(v: Seq<Txt>, n: nat) -> Txt decreases n {
    if n == 0 || n > v.len() { nil() } else {
        let p = line_n(v, (n - 1) as nat);
        cat![if p.len() > 0 && !closes(p.last()) { cat![p, ch(' ')] } else { p }, v[n - 1]]
    }
}
pub open spec fn line_txt(v: Seq<Txt>) -> Txt { line_n(v, v.len()) }
pub open spec fn t_body(v: Seq<Txt>, c: Cx) -> Txt { if inline(c) { line_txt(v) } else { join_txt(v, c.ls) } }
pub open spec fn t_stmt(s: Stmt, c: Cx) -> Txt decreases s, 0nat {
    cat![ind_txt(c), match s {
        Stmt::Node(n) => t_node(n, c),
        Stmt::Subgraph(g) => t_subgraph(g, c),
        Stmt::Attribute(a) => t_attr(a, c),
        Stmt::GAttribute(g) => t_gattr(g, c),
        Stmt::Edge(e) => t_edge(e, c),
    }, if c.semi { ";"@ } else { nil() }]
}
pub open spec fn t_chain(v: Vec<Vertex>, c: Cx, n: nat) -> Txt decreases v, n {
    if n == 0 || n > v@.len() { nil() }
    else if n == 1 { t_vertex(v@[0], c) }
    else { cat![t_chain(v, c, (n - 1) as nat), " "@, bond(c), " "@, t_vertex(v@[n - 1], c)] }
}
pub open spec fn t_vertex_all(v: Vec<Vertex>, c: Cx, n: nat) -> Seq<Txt> decreases n {
    if n == 0 || n > v@.len() { seq![] } else { t_vertex_all(v, c, (n - 1) as nat).push(t_vertex(v@[n - 1], c)) }
}
/// the texts of the vertices joined with the operator, the other way to say t_chain
pub proof fn chain_is_joined(v: Vec<Vertex>, c: Cx, n: nat)
    ensures n <= v@.len() ==> join_txt(t_vertex_all(v, c, n), cat![" "@, bond(c), " "@]) == t_chain(v, c, n) && t_vertex_all(v, c, n).len() == n
    decreases n
{
    if 0 < n <= v@.len() {
        chain_is_joined(v, c, (n - 1) as nat);
        join_step(t_vertex_all(v, c, (n - 1) as nat), t_vertex(v@[n - 1], c), cat![" "@, bond(c), " "@]);
        let (p, o, x) = (t_chain(v, c, (n - 1) as nat), bond(c), t_vertex(v@[n - 1], c));
        assert(cat(cat(p, cat(cat(" "@, o), " "@)), x) == cat(cat(cat(cat(p, " "@), o), " "@), x)) by { broadcast use txt_norm; }
    } else { join_none(cat![" "@, bond(c), " "@]); }
}
pub broadcast proof fn join_pair(s: Seq<Txt>, sep: Txt) requires s.len() == 2 ensures #[trigger] join_txt(s, sep) == cat(cat(s[0], sep), s[1])
{
    join_none(sep); join_step(seq![], s[0], sep); join_step(seq![s[0]], s[1], sep);
    assert(seq![].push(s[0]) =~= seq![s[0]]); assert(s =~= seq![s[0]].push(s[1]));
}
/// only an empty list has an empty text
pub proof fn attrs_len(v: Seq<Attribute>, c: Cx) ensures (t_attrs(v, c).len() == 0) == (v.len() == 0)
{
    reveal(nil); reveal(cat); reveal_strlit("["); reveal_strlit("]");
    assert("["@.len() == 1); assert("]"@.len() == 1);
}
pub proof fn join_none(sep: Txt) ensures join_txt(seq![], sep) == nil() { reveal(nil); reveal_with_fuel(join_txt, 1); }
pub proof fn join_step(p: Seq<Txt>, x: Txt, sep: Txt)
    ensures join_txt(p.push(x), sep) == (if p.len() == 0 { x } else { cat(cat(join_txt(p, sep), sep), x) })
{
    reveal(cat); reveal_with_fuel(join_txt, 2);
    assert(p.push(x).drop_last() =~= p);
}
pub open spec fn t_ends(t: EdgeTy, c: Cx) -> Txt decreases t, 0nat {
    match t {
        EdgeTy::Pair(l, r) => cat![t_vertex(l, c), " "@, bond(c), " "@, t_vertex(r, c)],
        EdgeTy::Chain(v) => t_chain(v, c, v@.len()),
    }
}
pub open spec fn t_edge0(e: Edge, c: Cx) -> Txt decreases e, 0nat {
    cat![t_ends(e.ty, c), if e.ty is Pair && e.attributes@.len() > 0 { " "@ } else { nil() }, t_attrs(e.attributes@, c)]
}
pub open spec fn t_edge(e: Edge, c: Cx) -> Txt decreases e, 1nat {
    if !inline(c) && byte_len(t_edge0(e, c)) <= c.width { t_edge0(e, one_line(c)) } else { t_edge0(e, c) }
}
pub open spec fn t_graph(g: Graph, c0: Cx) -> Txt {
    let c = Cx { di: g is DiGraph, ..c0 };
    let (id, strict, stmts) = match g { Graph::Graph { id, strict, stmts } => (id, strict, stmts), Graph::DiGraph { id, strict, stmts } => (id, strict, stmts) };
    cat![if strict { "strict "@ } else { nil() }, if c.di { "digraph "@ } else { "graph "@ }, t_id(id), " {"@,
        c.ls, t_body(t_stmt_all(stmts, grow(c), stmts@.len()), c), c.ls, "}"@]
}

// ---- the structures that have a text (a port names something, a chain has a vertex) whose
// ---- indentation stays within machine range
pub open spec fn deeper(c: Cx) -> bool { inline(c) || c.ind + c.step <= usize::MAX }
pub open spec fn can_port(p: Port) -> bool { p.0 is Some || p.1 is Some }
pub open spec fn can_node_id(n: NodeId) -> bool { match n.1 { None => true, Some(p) => can_port(p) } }
pub open spec fn can_vertex(v: Vertex, c: Cx) -> bool decreases v { match v { Vertex::N(x) => can_node_id(x), Vertex::S(s) => can_subgraph(s, c) } }
pub open spec fn can_subgraph(s: Subgraph, c: Cx) -> bool decreases s { deeper(c) && can_stmts(s.stmts, grow(c)) }
pub open spec fn can_stmts(v: Vec<Stmt>, c: Cx) -> bool decreases v { forall|i: int| 0 <= i < v@.len() ==> can_stmt(#[trigger] v@[i], c) }
pub open spec fn can_stmt(s: Stmt, c: Cx) -> bool decreases s {
    match s {
        Stmt::Node(x) => deeper(c) && can_node_id(x.id),
        Stmt::Subgraph(g) => can_subgraph(g, c),
        Stmt::Attribute(_) => true,
        Stmt::GAttribute(_) => deeper(c),
        Stmt::Edge(e) => can_edge(e, c),
    }
}
pub open spec fn can_vs(v: Vec<Vertex>, c: Cx) -> bool decreases v { forall|i: int| 0 <= i < v@.len() ==> can_vertex(#[trigger] v@[i], c) }
pub open spec fn can_ends(t: EdgeTy, c: Cx) -> bool decreases t {
    match t { EdgeTy::Pair(l, r) => can_vertex(l, c) && can_vertex(r, c), EdgeTy::Chain(v) => v@.len() > 0 && can_vs(v, c) }
}
pub open spec fn can_edge0(e: Edge, c: Cx) -> bool decreases e, 0nat { deeper(c) && can_ends(e.ty, c) }
pub open spec fn can_edge(e: Edge, c: Cx) -> bool decreases e, 1nat { can_edge0(e, c) && can_edge0(e, one_line(c)) }
pub open spec fn can_graph(g: Graph, c0: Cx) -> bool {
    let c = Cx { di: g is DiGraph, ..c0 };
    deeper(c) && (match g { Graph::Graph { stmts, .. } => can_stmts(stmts, grow(c)), Graph::DiGraph { stmts, .. } => can_stmts(stmts, grow(c)) })
}

