pub fn print_and_parse(g: Graph, ctx: &mut PrinterContext) -> (r: Result<Graph, String>)
    requires wf_graph(g), plain_cx(cv(*old(ctx))), g.can(cv(*old(ctx))),
    ensures r is Ok, same_graph(g, r->Ok_0), //#[C06]
{
    let ghost c = cv(*ctx);
    proof { prints_ok(g, c); }
    let s = print(g, ctx);
    proof { assert(s@ == t_graph(g, c)); read_back(s@, g); }
    top::parse(s.as_str())
}
/// two layouts of one graph are read as that graph
pub fn print_twice(g: Graph, h: Graph, a: &mut PrinterContext, b: &mut PrinterContext) -> (r: (Result<Graph, String>, Result<Graph, String>))
    requires h == g, wf_graph(g), plain_cx(cv(*old(a))), plain_cx(cv(*old(b))), g.can(cv(*old(a))), g.can(cv(*old(b))),
    ensures r.0 is Ok && r.1 is Ok && same_graph(g, r.0->Ok_0) && same_graph(g, r.1->Ok_0), //#[C02 C06]
{
    let ghost ca = cv(*a);
    let ghost cb = cv(*b);
    proof { prints_ok(g, ca); prints_ok(g, cb); }
    let s = print(g, a);
    let t = print(h, b);
    proof { assert(s@ == t_graph(g, ca)); assert(t@ == t_graph(g, cb)); read_back(s@, g); read_back(t@, g); }
    (top::parse(s.as_str()), top::parse(t.as_str()))
}
