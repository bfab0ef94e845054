//@allpre broadcast use {string_ext, txt_norm}; proof { reveal(nil); }

impl PrinterContext {
//@fn graphviz::printer::<PrinterContext>::always_inline
//@sig self
//@ret r
//@spec
    requires inv(cv(*old(self))),
    ensures *final(r) == *final(self), cv(*r) == (Cx { ls: cv(*old(self)).lsi, lsm: cv(*old(self)).lsi, ..cv(*old(self)) }), //#[C05]
        inv(cv(*r)),
//@end
//@fn graphviz::printer::<PrinterContext>::with_semi
//@sig self
//@ret r
//@spec
    ensures *final(r) == *final(self), cv(*r) == (Cx { semi: true, ..cv(*old(self)) }), //#[C05]
//@end
//@fn graphviz::printer::<PrinterContext>::with_node_mult_attr_s_l
//@sig self
//@ret r
//@spec
    ensures *final(r) == *final(self), cv(*r) == (Cx { multi: true, ..cv(*old(self)) }), //#[C05]
//@end
//@fn graphviz::printer::<PrinterContext>::with_no_node_mult_attr_s_l_comma
//@sig self
//@ret r
//@spec
    ensures *final(r) == *final(self), cv(*r) == (Cx { comma: false, ..cv(*old(self)) }), //#[C05]
//@end
//@fn graphviz::printer::<PrinterContext>::with_indent_step
//@sig self, step
//@ret r
//@spec
    ensures *final(r) == *final(self), cv(*r) == (Cx { step: step as nat, ..cv(*old(self)) }), //#[C05]
//@end
//@fn graphviz::printer::<PrinterContext>::with_line_sep
//@sig self, sep
//@ret r
//@spec
    requires cv(*old(self)).lsi == nil(),
    ensures *final(r) == *final(self), cv(*r) == (Cx { ls: sep@, lsm: sep@, ..cv(*old(self)) }), //#[C05]
        inv(cv(*r)),
//@end
//@fn graphviz::printer::<PrinterContext>::with_inline_size
//@sig self, inline_s
//@ret r
//@spec
    ensures *final(r) == *final(self), cv(*r) == (Cx { width: inline_s as nat, ..cv(*old(self)) }), //#[C05]
//@end
//@fn graphviz::printer::<PrinterContext>::with_attr_value_printer
//@sig self, attr_id, fmt
//@ret r
//@spec
    ensures *final(r) == *final(self), cv(*r) == (Cx { fm: cv(*old(self)).fm.insert(attr_id, fmt), ..cv(*old(self)) }), //#[C17]
//@end
//@fn graphviz::printer::<PrinterContext>::new
//@sig semi, indent_step, line_s, inline_size
//@ret r
//@spec
    ensures inv(cv(r)), //#[C05]
        cv(r) == (Cx { di: false, semi: semi, multi: false, comma: true, ind: 0, step: indent_step as nat, ls: line_s@, lsi: nil(), lsm: line_s@, width: inline_size as nat, fm: Map::empty() }), //#[C05]
//@end
//@fn graphviz::printer::<Default for PrinterContext>::default
//@sig
//@ret r
//@spec
    ensures inv(cv(r)), //#[C05]
        cv(r) == (Cx { di: false, semi: false, multi: false, comma: true, ind: 0, step: 2, ls: "\n"@, lsi: nil(), lsm: "\n"@, width: 90, fm: Map::empty() }), //#[C05]
//@end
//@fn graphviz::printer::<PrinterContext>::indent
//@sig self
//@ret r
//@spec
    ensures r@ == ind_txt(cv(*self)), //#[C05]
//@pre
    proof { let _ = (" "@,); rep_none(" "@); }
//@post
    proof { assert(r@ == ind_txt(cv(*self))); }
//@end
//@fn graphviz::printer::<PrinterContext>::indent_grow
//@sig self
//@spec
    requires inline(cv(*old(self))) || old(self).indent + old(self).indent_step <= usize::MAX,
    ensures cv(*final(self)) == grow(cv(*old(self))), //#[C05]
//@end
//@fn graphviz::printer::<PrinterContext>::indent_shrink
//@sig self
//@spec
    requires inline(cv(*old(self))) || old(self).indent >= old(self).indent_step,
    ensures cv(*final(self)) == (if inline(cv(*old(self))) { cv(*old(self)) } else { Cx { ind: (cv(*old(self)).ind - cv(*old(self)).step) as nat, ..cv(*old(self)) } }), //#[C04]
//@end
//@fn graphviz::printer::<PrinterContext>::is_inline_on
//@sig self
//@ret r
//@spec
    ensures r == inline(cv(*self)), //#[C05]
//@end
//@fn graphviz::printer::<PrinterContext>::inline_mode
//@sig self
//@spec
    ensures cv(*final(self)) == one_line(cv(*old(self))), //#[C05]
//@end
//@fn graphviz::printer::<PrinterContext>::multiline_mode
//@sig self
//@spec
    ensures cv(*final(self)) == (Cx { ls: cv(*old(self)).lsm, ..cv(*old(self)) }), //#[C04]
//@end
}

//@fn graphviz::printer::join_inline
//@sig stmts
//@ret r
//@spec
    ensures r@ == line_txt(views(stmts@)), //#[C01 C02]
//@pre
    proof { let _ = (" "@,); }
//@loop
    invariant $over(stmts@),
        $acc@ == line_n(views(stmts@), (stmts@.len() - $it@.len()) as nat),
    decreases $it@.len(),
//@end


pub trait DotPrinter {
    /// the text this element must print as
    spec fn txt(&self, c: Cx) -> Txt;
    /// it has a text (a port names something, a chain has a vertex)
    spec fn can(&self, c: Cx) -> bool;
    /// the context afterwards
    spec fn post(&self, c: Cx) -> Cx;
    fn print(&self, ctx: &mut PrinterContext) -> (r: String)
        requires inv(cv(*old(ctx))), self.can(cv(*old(ctx))),
        ensures r@ == self.txt(cv(*old(ctx))), cv(*final(ctx)) == self.post(cv(*old(ctx)));
}
impl DotPrinter for Id {
    open spec fn txt(&self, c: Cx) -> Txt { t_id(*self) }
    open spec fn can(&self, c: Cx) -> bool { true }
    open spec fn post(&self, c: Cx) -> Cx { c }
//@fn graphviz::printer::<DotPrinter for Id>::print
//@sig self, ctx
//@ret r
//@spec
    ensures r@ == self.txt(cv(*old(ctx))), //#[C01]
        cv(*final(ctx)) == self.post(cv(*old(ctx))), //#[C04]
//@post
    proof { assert(r@ == self.txt(cv(*old(ctx)))); }
//@end
}
impl DotPrinter for Port {
    open spec fn txt(&self, c: Cx) -> Txt { t_port(*self) }
    open spec fn can(&self, c: Cx) -> bool { can_port(*self) }
    open spec fn post(&self, c: Cx) -> Cx { c }
//@fn graphviz::printer::<DotPrinter for Port>::print
//@sig self, ctx
//@ret r
//@spec
    ensures r@ == self.txt(cv(*old(ctx))), //#[C01]
        cv(*final(ctx)) == self.post(cv(*old(ctx))), //#[C04]
//@pre
    proof { let _ = (":"@,); }
//@post
    proof { assert(r@ == self.txt(cv(*old(ctx)))); }
//@end
}
impl DotPrinter for NodeId {
    open spec fn txt(&self, c: Cx) -> Txt { t_node_id(*self) }
    open spec fn can(&self, c: Cx) -> bool { can_node_id(*self) }
    open spec fn post(&self, c: Cx) -> Cx { c }
//@fn graphviz::printer::<DotPrinter for NodeId>::print
//@sig self, ctx
//@ret r
//@spec
    ensures r@ == self.txt(cv(*old(ctx))), //#[C01]
        cv(*final(ctx)) == self.post(cv(*old(ctx))), //#[C04]
//@post
    proof { assert(r@ == self.txt(cv(*old(ctx)))); }
//@end
}
impl DotPrinter for Attribute {
    open spec fn txt(&self, c: Cx) -> Txt { t_attr(*self, c) }
    open spec fn can(&self, c: Cx) -> bool { true }
    open spec fn post(&self, c: Cx) -> Cx { c }
//@fn graphviz::printer::<DotPrinter for Attribute>::print
//@sig self, ctx
//@ret r
//@spec
    ensures r@ == self.txt(cv(*old(ctx))), //#[C01 C17]
        cv(*final(ctx)) == self.post(cv(*old(ctx))), //#[C04]
//@pre
    proof { let _ = ("="@,); }
//@post
    proof { assert(r@ == self.txt(cv(*old(ctx)))); }
//@end
}
impl DotPrinter for Vec<Attribute> {
    open spec fn txt(&self, c: Cx) -> Txt { t_attrs(self@, c) }
    open spec fn can(&self, c: Cx) -> bool { deeper(c) }
    open spec fn post(&self, c: Cx) -> Cx { c }
//@fn graphviz::printer::<DotPrinter for Vec<Attribute>>::print
//@sig self, ctx
//@ret r
//@spec
    ensures r@ == self.txt(cv(*old(ctx))), //#[C01 C02 C05]
        cv(*final(ctx)) == self.post(cv(*old(ctx))), //#[C04]
//@pre
    proof { let _ = ("["@, ","@, "]"@, " "@); }
//@loop
    invariant $over(self@), inv(cv(*ctx)),
        cv(*ctx) == cv(*old(ctx)),
        $acc@.len() == self@.len() - $it@.len(), views($acc@) =~= t_attr_all(self@, cv(*old(ctx)), (self@.len() - $it@.len()) as nat),
    decreases $it@.len(),
//@post
    proof { assert(r@ == self.txt(cv(*old(ctx)))); assert(cv(*ctx) =~= cv(*old(ctx))); }
//@end
}
impl DotPrinter for GraphAttributes {
    open spec fn txt(&self, c: Cx) -> Txt { t_gattr(*self, c) }
    open spec fn can(&self, c: Cx) -> bool { deeper(c) }
    open spec fn post(&self, c: Cx) -> Cx { c }
//@fn graphviz::printer::<DotPrinter for GraphAttributes>::print
//@sig self, ctx
//@ret r
//@spec
    ensures r@ == self.txt(cv(*old(ctx))), //#[C01]
        cv(*final(ctx)) == self.post(cv(*old(ctx))), //#[C04]
//@pre
    proof { let _ = ("graph[]"@, "node[]"@, "edge[]"@, "graph"@, "node"@, "edge"@); }
//@post
    proof { assert(r@ == self.txt(cv(*old(ctx)))); }
//@end
}
impl DotPrinter for Node {
    open spec fn txt(&self, c: Cx) -> Txt { t_node(*self, c) }
    open spec fn can(&self, c: Cx) -> bool { deeper(c) && can_node_id(self.id) }
    open spec fn post(&self, c: Cx) -> Cx { c }
//@fn graphviz::printer::<DotPrinter for Node>::print
//@sig self, ctx
//@ret r
//@spec
    ensures r@ == self.txt(cv(*old(ctx))), //#[C01]
        cv(*final(ctx)) == self.post(cv(*old(ctx))), //#[C04]
//@post
    proof { assert(r@ == self.txt(cv(*old(ctx)))); }
//@end
}
impl DotPrinter for Vertex {
    open spec fn txt(&self, c: Cx) -> Txt { t_vertex(*self, c) }
    open spec fn can(&self, c: Cx) -> bool { can_vertex(*self, c) }
    open spec fn post(&self, c: Cx) -> Cx { c }
//@fn graphviz::printer::<DotPrinter for Vertex>::print
//@sig self, ctx
//@ret r
//@spec
    ensures r@ == self.txt(cv(*old(ctx))), //#[C01]
        cv(*final(ctx)) == self.post(cv(*old(ctx))), //#[C04]
    decreases *self, 0nat
//@post
    proof { assert(r@ == self.txt(cv(*old(ctx)))); }
//@end
}
impl DotPrinter for Subgraph {
    open spec fn txt(&self, c: Cx) -> Txt { t_subgraph(*self, c) }
    open spec fn can(&self, c: Cx) -> bool { can_subgraph(*self, c) }
    open spec fn post(&self, c: Cx) -> Cx { c }
//@fn graphviz::printer::<DotPrinter for Subgraph>::print
//@sig self, ctx
//@ret r
//@spec
    ensures r@ == self.txt(cv(*old(ctx))), //#[C01 C02 C05]
        cv(*final(ctx)) == self.post(cv(*old(ctx))), //#[C04]
    decreases *self, 0nat
//@pre
    proof { let _ = ("subgraph "@, " {"@, "}"@); }
//@post
    proof { assert(r@ == self.txt(cv(*old(ctx)))); }
//@end
}
impl DotPrinter for Graph {
    open spec fn txt(&self, c: Cx) -> Txt { t_graph(*self, c) }
    open spec fn can(&self, c: Cx) -> bool { can_graph(*self, c) }
    open spec fn post(&self, c: Cx) -> Cx { Cx { di: self is DiGraph, ..c } }
//@fn graphviz::printer::<DotPrinter for Graph>::print
//@sig self, ctx
//@ret r
//@spec
    ensures r@ == self.txt(cv(*old(ctx))), //#[C01 C02 C03 C05]
        cv(*final(ctx)) == self.post(cv(*old(ctx))), //#[C04]
//@pre
    proof { let _ = ("strict "@, "graph "@, "digraph "@, " {"@, "}"@, "graph"@, "digraph"@); reveal_strlit("graph"); reveal_strlit("digraph"); assert("graph"@.len() != "digraph"@.len()); }
//@post
    proof { assert(r@ == self.txt(cv(*old(ctx)))); }
//@end
}
impl DotPrinter for Vec<Stmt> {
    open spec fn txt(&self, c: Cx) -> Txt { t_body(t_stmt_all(*self, c, self@.len()), c) }
    open spec fn can(&self, c: Cx) -> bool { can_stmts(*self, c) }
    open spec fn post(&self, c: Cx) -> Cx { c }
//@fn graphviz::printer::<DotPrinter for Vec<Stmt>>::print
//@sig self, ctx
//@ret r
//@spec
    ensures r@ == self.txt(cv(*old(ctx))), //#[C01 C02 C05]
        cv(*final(ctx)) == self.post(cv(*old(ctx))), //#[C04]
    decreases *self, 0nat
//@loop
    invariant $over(self@), inv(cv(*ctx)),
        cv(*ctx) == cv(*old(ctx)),
        $acc@.len() == self@.len() - $it@.len(), views($acc@) =~= t_stmt_all(*self, cv(*old(ctx)), (self@.len() - $it@.len()) as nat),
    decreases $it@.len(),
//@post
    proof { assert(r@ == self.txt(cv(*old(ctx)))); }
//@end
}
impl DotPrinter for Stmt {
    open spec fn txt(&self, c: Cx) -> Txt { t_stmt(*self, c) }
    open spec fn can(&self, c: Cx) -> bool { can_stmt(*self, c) }
    open spec fn post(&self, c: Cx) -> Cx { c }
//@fn graphviz::printer::<DotPrinter for Stmt>::print
//@sig self, ctx
//@ret r
//@spec
    ensures r@ == self.txt(cv(*old(ctx))), //#[C01 C05]
        cv(*final(ctx)) == self.post(cv(*old(ctx))), //#[C04]
    decreases *self, 0nat
//@pre
    proof { let _ = (";"@,); }
//@post
    proof { assert(r@ == self.txt(cv(*old(ctx)))); }
//@end
}
impl DotPrinter for Edge {
    open spec fn txt(&self, c: Cx) -> Txt { t_edge(*self, c) }
    open spec fn can(&self, c: Cx) -> bool { can_edge(*self, c) }
    open spec fn post(&self, c: Cx) -> Cx { c }
//@fn graphviz::printer::<DotPrinter for Edge>::print
//@sig self, ctx
//@ret r
//@spec
    ensures r@ == self.txt(cv(*old(ctx))), //#[C01 C05 C03]
        cv(*final(ctx)) == self.post(cv(*old(ctx))), //#[C04]
    decreases *self, 1nat
//@post
    proof { assert(r@ == self.txt(cv(*old(ctx)))); }
//@end
}

//@fn graphviz::printer::print_edge
//@sig edge, ctx
//@ret r
//@spec
    requires inv(cv(*old(ctx))), can_edge0(*edge, cv(*old(ctx))),
    ensures r@ == t_edge0(*edge, cv(*old(ctx))), //#[C03 C01]
        cv(*final(ctx)) == cv(*old(ctx)), //#[C04]
    decreases *edge, 0nat
//@pre
    proof { let _ = ("->"@, "--"@, " "@); attrs_len(edge.attributes@, cv(*old(ctx))); }
    broadcast use join_pair;
//@loop
    invariant edge.ty is Chain, $over(edge.ty->Chain_0@), $it@.len() < edge.ty->Chain_0@.len(),
        inv(cv(*ctx)), cv(*ctx) == cv(*old(ctx)),
        $acc@ == t_chain(edge.ty->Chain_0, cv(*old(ctx)), (edge.ty->Chain_0@.len() - $it@.len()) as nat),
    decreases $it@.len(),
//@loop
    invariant edge.ty is Chain, $over(edge.ty->Chain_0@),
        inv(cv(*ctx)), cv(*ctx) == cv(*old(ctx)),
        $acc@ == t_chain(edge.ty->Chain_0, cv(*old(ctx)), (edge.ty->Chain_0@.len() - $it@.len()) as nat),
    decreases $it@.len(),
//@loop
    invariant edge.ty is Chain, $over(edge.ty->Chain_0@),
        inv(cv(*ctx)), cv(*ctx) == cv(*old(ctx)),
        $acc@.len() == edge.ty->Chain_0@.len() - $it@.len(),
        views($acc@) =~= t_vertex_all(edge.ty->Chain_0, cv(*old(ctx)), (edge.ty->Chain_0@.len() - $it@.len()) as nat),
    decreases $it@.len(),
//@post
    proof { if edge.ty is Chain { chain_is_joined(edge.ty->Chain_0, cv(*old(ctx)), edge.ty->Chain_0@.len()); }
        assert(r@ == t_edge0(*edge, cv(*old(ctx)))); }
//@end

//@fn graphviz::print
//@sig graph, ctx
//@ret r
//@spec
    requires inv(cv(*old(ctx))), graph.can(cv(*old(ctx))),
    ensures r@ == graph.txt(cv(*old(ctx))), //#[C01 C02 C03 C05 C17]
        cv(*final(ctx)) == graph.post(cv(*old(ctx))), //#[C04]
//@end
