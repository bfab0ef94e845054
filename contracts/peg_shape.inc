// ---- what the pairs of a parse tree are made of: a grammar over words and signs, independent of blanks ----
pub open spec fn leaf(r: Rule) -> bool { r is plain || r is html || r is string_qt || r is compass || r is attr_mark || r is strict || r is graph_ty }
pub open spec fn tt(t: Tree) -> Seq<Txt> { if leaf(t.rule) { t1(t.text) } else { t.toks } }
pub open spec fn x1(c: char) -> Seq<Txt> { t1(e().push(c)) }
pub open spec fn arrow(t: Txt) -> bool { t == e().push('-').push('>') || t == e().push('-').push('-') }
#[verifier::opaque]
pub open spec fn flat(k: Seq<Tree>) -> Seq<Txt> decreases k.len() { if k.len() == 0 { t0() } else { tc(tt(k[0]), flat(k.skip(1))) } }
pub open spec fn wit(m: int, x: Seq<Txt>) -> bool { true }
/// statements, each with or without a semicolon after it
#[verifier::opaque]
pub open spec fn semis(toks: Seq<Txt>, k: Seq<Tree>) -> bool decreases k.len() {
    if k.len() == 0 { toks == t0() } else {
        exists|rest: Seq<Txt>| (toks == tc(tt(k[0]), rest) || toks == tc(tc(tt(k[0]), x1(';')), rest)) && #[trigger] wit(0, rest) && semis(rest, k.skip(1))
    }
}
/// n pairs of brackets around the attributes, in order
#[verifier::opaque]
pub open spec fn groups(toks: Seq<Txt>, k: Seq<Tree>, n: nat) -> bool decreases n {
    if n == 0 { toks == t0() && k.len() == 0 } else {
        exists|m: int, rest: Seq<Txt>| 0 <= m <= k.len() && toks == tc(tc(tc(x1('['), flat(k.take(m))), x1(']')), rest) && #[trigger] wit(m, rest) && groups(rest, k.skip(m), (n - 1) as nat)
    }
}
/// at least lo of them
#[verifier::opaque]
pub open spec fn grouped(toks: Seq<Txt>, k: Seq<Tree>, lo: nat) -> bool { exists|n: nat| n >= lo && #[trigger] groups(toks, k, n) }
pub proof fn grouped_by(toks: Seq<Txt>, k: Seq<Tree>, n: nat, lo: nat) requires groups(toks, k, n), n >= lo ensures grouped(toks, k, lo) { reveal(grouped); }
pub proof fn grouped_n(toks: Seq<Txt>, k: Seq<Tree>, lo: nat) -> (n: nat) requires grouped(toks, k, lo) ensures n >= lo, groups(toks, k, n) { reveal(grouped); choose|n: nat| n >= lo && #[trigger] groups(toks, k, n) }
pub open spec fn all_of(k: Seq<Tree>, r: Rule) -> bool { forall|q: int| 0 <= q < k.len() ==> (#[trigger] k[q]).rule == r }
pub open spec fn shapes(k: Seq<Tree>) -> bool { forall|q: int| 0 <= q < k.len() ==> shape(#[trigger] k[q]) }
#[verifier::opaque]
pub open spec fn local(t: Tree) -> bool {
    let k = t.kids;
    match t.rule {
        Rule::plain => plain_end(t.text, 0) == Some(t.text.len() as int),
        Rule::html => html_end(t.text, 0) == Some(t.text.len() as int),
        Rule::string_qt => str_end(t.text, 0) == Some(t.text.len() as int),
        Rule::compass => point(t.text),
        Rule::attr_mark => mark(t.text),
        Rule::strict => t.text == k_strict(),
        Rule::graph_ty => ty(t.text),
        Rule::id => k.len() == 1 && (k[0].rule is plain || k[0].rule is html || k[0].rule is string_qt) && t.text == k[0].text && t.toks == tt(k[0]),
        Rule::port => 1 <= k.len() <= 2 && k[0].rule is id
            && (k.len() == 1 ==> t.toks == tc(x1(':'), tt(k[0])))
            && (k.len() == 2 ==> k[1].rule is compass && t.toks == tc(tc(tc(x1(':'), tt(k[0])), x1(':')), tt(k[1]))),
        Rule::node_id => 1 <= k.len() <= 2 && k[0].rule is id
            && (k.len() == 1 ==> t.toks == tt(k[0])) && (k.len() == 2 ==> k[1].rule is port && t.toks == tc(tt(k[0]), tt(k[1]))),
        Rule::bare_attr => k.len() == 2 && k[0].rule is id && k[1].rule is id && t.toks == tc(tc(tt(k[0]), x1('=')), tt(k[1])),
        Rule::attr => k.len() == 1 && k[0].rule is bare_attr && (t.toks == tt(k[0]) || t.toks == tc(tt(k[0]), x1(';')) || t.toks == tc(tt(k[0]), x1(','))),
        Rule::attr_list => all_of(k, Rule::attr) && grouped(t.toks, k, 1),
        Rule::node => 1 <= k.len() <= 2 && k[0].rule is node_id
            && (k.len() == 1 ==> t.toks == tt(k[0])) && (k.len() == 2 ==> k[1].rule is attr_list && t.toks == tc(tt(k[0]), tt(k[1]))),
        Rule::attr_stmt => k.len() == 2 && k[0].rule is attr_mark && k[1].rule is attr_list && t.toks == tc(tt(k[0]), tt(k[1])),
        Rule::edge_tail => k.len() == 1 && k[0].rule is vertex && exists|a: Txt| arrow(a) && t.toks == tc(#[trigger] t1(a), tt(k[0])),
        Rule::edge => k.len() >= 2 && k[0].rule is vertex && (forall|q: int| 1 <= q < k.len() ==> (#[trigger] k[q]).rule is edge_tail) && t.toks == flat(k),
        Rule::edge_stmt => 1 <= k.len() <= 2 && k[0].rule is edge
            && (k.len() == 1 ==> t.toks == tt(k[0])) && (k.len() == 2 ==> k[1].rule is attr_list && t.toks == tc(tt(k[0]), tt(k[1]))),
        Rule::vertex => k.len() == 1 && (k[0].rule is node_id || k[0].rule is subgraph) && t.toks == tt(k[0]),
        Rule::subgraph => 1 <= k.len() <= 2
            && (k.len() == 1 ==> k[0].rule is body && t.toks == tc(t1(k_subgraph()), tt(k[0])))
            && (k.len() == 2 ==> k[0].rule is id && k[1].rule is body && t.toks == tc(tc(t1(k_subgraph()), tt(k[0])), tt(k[1]))),
        Rule::stmt => k.len() == 1 && (k[0].rule is attr_stmt || k[0].rule is subgraph || k[0].rule is bare_attr || k[0].rule is edge_stmt || k[0].rule is node) && t.toks == tt(k[0]),
        Rule::body => all_of(k, Rule::stmt) && exists|x: Seq<Txt>| t.toks == tc(tc(x1('{'), x), x1('}')) && #[trigger] semis(x, k),
        Rule::graph => {
            let a = if k.len() > 0 && k[0].rule is strict { 1int } else { 0 };
            let b = if k.len() > a + 1 && k[a + 1].rule is id { 1int } else { 0 };
            k.len() == a + b + 2 && k[a].rule is graph_ty && k[a + b + 1].rule is body && t.toks == flat(k)
        },
        Rule::file => k.len() == 2 && k[0].rule is graph && t.toks == tt(k[0]),
        _ => true,
    }
}
pub open spec fn shape(t: Tree) -> bool decreases t { local(t) && (leaf(t.rule) || forall|q: int| 0 <= q < t.kids.len() ==> shape(#[trigger] t.kids[q])) }
/// the same, without the words: what a function that walks the tree relies on
pub open spec fn parts(t: Tree) -> bool {
    let k = t.kids;
    match t.rule {
        Rule::id => k.len() == 1 && (k[0].rule is plain || k[0].rule is html || k[0].rule is string_qt) && t.text == k[0].text,
        Rule::port => 1 <= k.len() <= 2 && k[0].rule is id && shape(k[0]) && parts0(k[0]) && (k.len() == 2 ==> k[1].rule is compass && shape(k[1])),
        Rule::node_id => 1 <= k.len() <= 2 && k[0].rule is id && shape(k[0]) && (k.len() == 2 ==> k[1].rule is port && shape(k[1])),
        Rule::bare_attr => k.len() == 2 && k[0].rule is id && k[1].rule is id && shape(k[0]) && shape(k[1]),
        Rule::attr => k.len() == 1 && k[0].rule is bare_attr && shape(k[0]),
        Rule::attr_list => all_of(k, Rule::attr) && shapes(k),
        Rule::node => 1 <= k.len() <= 2 && k[0].rule is node_id && shape(k[0]) && (k.len() == 2 ==> k[1].rule is attr_list && shape(k[1])),
        Rule::attr_stmt => k.len() == 2 && k[0].rule is attr_mark && mark(k[0].text) && k[1].rule is attr_list && shape(k[1]),
        Rule::edge_tail => k.len() == 1 && k[0].rule is vertex && shape(k[0]),
        Rule::edge => k.len() >= 2 && k[0].rule is vertex && (forall|q: int| 1 <= q < k.len() ==> (#[trigger] k[q]).rule is edge_tail && k[q].kids.len() == 1 && k[q].kids[0].rule is vertex && shape(k[q].kids[0])) && shapes(k),
        Rule::edge_stmt => 1 <= k.len() <= 2 && k[0].rule is edge && shape(k[0]) && k[0].kids.len() >= 2 && (k.len() == 2 ==> k[1].rule is attr_list && shape(k[1])),
        Rule::vertex => k.len() == 1 && (k[0].rule is node_id || k[0].rule is subgraph) && shape(k[0]),
        Rule::subgraph => 1 <= k.len() <= 2 && (k.len() == 1 ==> k[0].rule is body) && (k.len() == 2 ==> k[0].rule is id && k[1].rule is body) && shapes(k),
        Rule::stmt => k.len() == 1 && (k[0].rule is attr_stmt || k[0].rule is subgraph || k[0].rule is bare_attr || k[0].rule is edge_stmt || k[0].rule is node) && shape(k[0]),
        Rule::body => all_of(k, Rule::stmt) && shapes(k),
        Rule::graph => {
            let a = if k.len() > 0 && k[0].rule is strict { 1int } else { 0 };
            let b = if k.len() > a + 1 && k[a + 1].rule is id { 1int } else { 0 };
            k.len() == a + b + 2 && k[a].rule is graph_ty && ty(k[a].text) && k[a + b + 1].rule is body && shapes(k)
        },
        Rule::file => k.len() == 2 && k[0].rule is graph && shape(k[0]),
        _ => true,
    }
}
pub open spec fn parts0(t: Tree) -> bool { t.kids.len() == 1 && (t.kids[0].rule is plain || t.kids[0].rule is html || t.kids[0].rule is string_qt) && t.text == t.kids[0].text }
pub proof fn made_of(t: Tree) requires shape(t) ensures parts(t) {
    reveal(local); reveal_with_fuel(shape, 3);
    if t.rule is port { assert(shape(t.kids[0])); }
    if t.rule is edge_stmt { assert(shape(t.kids[0])); }
    if t.rule is edge { assert forall|q: int| 1 <= q < t.kids.len() implies (#[trigger] t.kids[q]).rule is edge_tail && t.kids[q].kids.len() == 1 && t.kids[q].kids[0].rule is vertex && shape(t.kids[q].kids[0]) by { assert(shape(t.kids[q])); } }
}
