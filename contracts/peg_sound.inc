// ---- soundness: every pair the grammar makes is made of these, and its text reads as them ----
pub broadcast proof fn kc_len(a: Seq<Tree>, b: Seq<Tree>) ensures (#[trigger] kc(a, b)).len() == a.len() + b.len() { reveal(kc); }
pub broadcast proof fn kc_idx(a: Seq<Tree>, b: Seq<Tree>, q: int) requires 0 <= q < a.len() + b.len() ensures #[trigger] kc(a, b)[q] == (if q < a.len() { a[q] } else { b[q - a.len()] }) { reveal(kc); }
pub broadcast proof fn k1_len(a: Tree) ensures (#[trigger] k1(a)).len() == 1, k1(a)[0] == a { reveal(k1); }
pub broadcast proof fn k0_len() ensures (#[trigger] k0()).len() == 0 { reveal(k0); }
pub broadcast group kid_at { kc_len, kc_idx, k1_len, k0_len }
pub proof fn kc_skip1(a: Tree, b: Seq<Tree>) ensures kc(k1(a), b).skip(1) == b, kc(k1(a), b)[0] == a, kc(k1(a), b).len() == b.len() + 1 { reveal(kc); reveal(k1); assert((seq![a] + b).skip(1) =~= b); }
pub broadcast proof fn flat_cons(a: Tree, b: Seq<Tree>) ensures #[trigger] flat(kc(k1(a), b)) == tc(tt(a), flat(b)) { kc_skip1(a, b); reveal(flat); }
pub broadcast proof fn flat_nil() ensures #[trigger] flat(k0()) == t0() { reveal(flat); reveal(k0); }
pub broadcast proof fn flat_one(a: Tree) ensures #[trigger] flat(k1(a)) == tt(a) { broadcast use {kid_norm, tok_norm, flat_nil}; flat_cons(a, k0()); }
pub broadcast proof fn flat_cat(a: Seq<Tree>, b: Seq<Tree>) ensures #[trigger] flat(kc(a, b)) == tc(flat(a), flat(b)) decreases a.len() {
    broadcast use {kid_norm, tok_norm, flat_nil};
    if a.len() == 0 { reveal(k0); assert(a =~= k0()); }
    else { let r = a.skip(1); reveal(kc); reveal(k1); assert(a =~= kc(k1(a[0]), r)); flat_cat(r, b); flat_cons(a[0], kc(r, b)); flat_cons(a[0], r); }
}
pub broadcast group flats { flat_nil, flat_one, flat_cat }

pub open spec fn vis(r: Rl) -> Option<Rule> {
    match r {
        Rl::plain => Some(Rule::plain), Rl::html => Some(Rule::html), Rl::string_qt => Some(Rule::string_qt), Rl::compass => Some(Rule::compass), Rl::attr_mark => Some(Rule::attr_mark),
        Rl::strict => Some(Rule::strict), Rl::graph_ty => Some(Rule::graph_ty), Rl::id => Some(Rule::id), Rl::port => Some(Rule::port), Rl::node_id => Some(Rule::node_id),
        Rl::bare_attr => Some(Rule::bare_attr), Rl::attr => Some(Rule::attr), Rl::attr_list => Some(Rule::attr_list), Rl::node => Some(Rule::node), Rl::attr_stmt => Some(Rule::attr_stmt),
        Rl::edge_tail => Some(Rule::edge_tail), Rl::edge => Some(Rule::edge), Rl::edge_stmt => Some(Rule::edge_stmt), Rl::vertex => Some(Rule::vertex), Rl::subgraph => Some(Rule::subgraph),
        Rl::stmt => Some(Rule::stmt), Rl::body => Some(Rule::body), Rl::graph => Some(Rule::graph), Rl::file => Some(Rule::file), Rl::EOI => Some(Rule::EOI),
        _ => None,
    }
}
/// the rules that are used where blanks are allowed
pub open spec fn nrule(r: Rl) -> bool { vis(r) is Some || r is skip || r is arr || r is SOI }
pub open spec fn trees(r: Rl, s: Txt, i: int, j: int, kids: Seq<Tree>, toks: Seq<Txt>) -> bool {
    match vis(r) {
        Some(rule) => kids == k1(kids[0]) && kids[0].rule == rule && shape(kids[0]) && kids[0].text == s.subrange(i, j) && toks == tt(kids[0]) && (r is EOI ==> i == s.len() && toks == t0()) && (r is file ==> j == s.len()),
        None => kids == k0() && (if r is arr { exists|a: Txt| arrow(a) && toks == #[trigger] t1(a) } else { toks == t0() }) && (r is SOI ==> i == 0),
    }
}
pub open spec fn snd(r: Rl, s: Txt, i: int, res: Res) -> bool {
    match res { Res::Ok { j, kids, toks } => i <= j <= s.len() && lexes(s, i, j, toks) && trees(r, s, i, j, kids, toks), _ => true }
}
pub open spec fn treed(r: Rl, s: Txt, i: int, res: Res) -> bool { match res { Res::Ok { j, kids, toks } => trees(r, s, i, j, kids, toks), _ => true } }
#[verifier::opaque]
pub open spec fn hyp(n: nat) -> bool { forall|r: Rl, s: Txt, i: int| nrule(r) && 0 <= i <= s.len() ==> snd(r, s, i, #[trigger] run(G::Call(r), s, i, At::N, n)) }
pub broadcast proof fn use_hyp(r: Rl, s: Txt, i: int, n: nat) requires hyp(n), nrule(r), 0 <= i <= s.len() ensures snd(r, s, i, #[trigger] run(G::Call(r), s, i, At::N, n)) { reveal(hyp); }

// reading words one after the other
pub proof fn lex_noskip(s: Txt, i: int) requires lex(s, i) is Some ensures skip_end(s, i) == i { }
pub proof fn lexes_one(s: Txt, i: int, j: int) requires lex(s, i) == Some(j) ensures lexes(s, i, j, t1(s.subrange(i, j))) {
    lex_noskip(s, i); reveal(t1);
    let t = t1(s.subrange(i, j));
    assert(t[0] == s.subrange(i, j)); assert(t.skip(1).len() == 0);
    assert(lexes(s, j, j, t.skip(1)));
}
pub proof fn lexes_none(s: Txt, i: int) ensures lexes(s, i, i, t0()), lexes(s, i, skip_end(s, i), t0()) { reveal(t0); }
pub proof fn lexes_cat(s: Txt, i: int, m: int, j: int, a: Seq<Txt>, b: Seq<Txt>)
    requires lexes(s, i, m, a), lexes(s, m, j, b)
    ensures lexes(s, i, j, tc(a, b))
    decreases a.len()
{
    reveal(tc);
    skip_skip(s, i);
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        let p = eats(s, i, a[0])->0;
        lexes_cat(s, p, m, j, a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b); assert((a + b)[0] == a[0]);
    }
}
pub proof fn lex_word(s: Txt, i: int) requires 0 <= i < s.len(), w0(s[i]) ensures lex(s, i) == Some(wend(s, i)) { }

/// terms in which every text is taken by a sign, an arrow, or a rule
pub open spec fn nmode(g: G) -> bool decreases g {
    match g {
        G::Str(l) => l == e().push('{') || l == e().push('}') || l == e().push('[') || l == e().push(']') || l == e().push('=') || l == e().push(':') || l == e().push(';') || l == e().push(',') || arrow(l),
        G::Soi | G::Eoi | G::Not(_) | G::And(_) => true,
        G::Cat(a, b) => nmode(*a) && nmode(*b),
        G::Alt(a, b) => nmode(*a) && nmode(*b),
        G::Star(a) => nmode(*a), G::Opt(a) => nmode(*a), G::Tag(_, a) => nmode(*a),
        G::Call(r) => nrule(r),
        _ => false,
    }
}
pub open spec fn cov(s: Txt, i: int, r: Res) -> bool { match r { Res::Ok { j, kids, toks } => i <= j <= s.len() && lexes(s, i, j, toks), _ => true } }
pub proof fn covers(g: G, s: Txt, i: int, n: nat)
    requires nmode(g), hyp(n), 0 <= i <= s.len()
    ensures cov(s, i, run(g, s, i, At::N, n))
    decreases g, s.len() - i
{
    broadcast use {peg, is_at1_b, is_at2_b, use_hyp};
    lexes_none(s, i);
    match g {
        G::Str(l) => { if is_at(s, i, l) { if arrow(l) { lexes_one(s, i, i + 2); } else { lexes_one(s, i, i + 1); } } },
        G::Cat(a, b) => {
            covers(*a, s, i, n);
            match run(*a, s, i, At::N, n) { Res::Ok { j, toks, .. } => { covers(*b, s, j, n); match run(*b, s, j, At::N, n) { Res::Ok { j: j2, toks: u, .. } => { lexes_cat(s, i, j, j2, toks, u); }, _ => {} } }, _ => {} }
        },
        G::Alt(a, b) => { covers(*a, s, i, n); covers(*b, s, i, n); },
        G::Star(a) => {
            e_star(a, s, i, At::N, n); covers(*a, s, i, n);
            match run(*a, s, i, At::N, n) { Res::Ok { j, toks, .. } => { if i < j <= s.len() { covers(g, s, j, n); match run(g, s, j, At::N, n) { Res::Ok { j: j2, toks: u, .. } => { lexes_cat(s, i, j, j2, toks, u); }, _ => {} } } }, _ => {} }
        },
        G::Opt(a) => { covers(*a, s, i, n); },
        G::Tag(r, a) => { e_tag(r, a, s, i, At::N, n); covers(*a, s, i, n); },
        G::Call(r) => {},
        G::Not(a) => { e_not(a, s, i, At::N, n); },
        G::And(a) => { e_and(a, s, i, At::N, n); },
        G::Soi => { e_soi(s, i, At::N, n); },
        G::Eoi => { e_eoi(s, i, At::N, n); },
        _ => {},
    }
}
pub broadcast proof fn covers_b(g: G, s: Txt, i: int, n: nat)
    requires nmode(g), hyp(n), 0 <= i <= s.len()
    ensures cov(s, i, #[trigger] run(g, s, i, At::N, n))
{ covers(g, s, i, n); }

pub open spec fn g_many(r: Rl) -> G { G::Star(Box::new(G::Cat(Box::new(G::Call(Rl::skip)), Box::new(G::Call(r))))) }
pub broadcast proof fn many(r: Rl, s: Txt, i: int, n: nat)
    requires hyp(n), vis(r) is Some, 0 <= i <= s.len()
    ensures #[trigger] run(G::Star(Box::new(G::Cat(Box::new(G::Call(Rl::skip)), Box::new(G::Call(r))))), s, i, At::N, n) matches Res::Ok { j, kids, toks } ==>
        i <= j <= s.len() && all_of(kids, vis(r)->0) && shapes(kids) && toks == flat(kids)
    decreases s.len() - i
{
    broadcast use {peg, use_hyp, kid_at, flat_nil, flat_cons};
    let x = G::Cat(Box::new(G::Call(Rl::skip)), Box::new(G::Call(r)));
    e_star(Box::new(x), s, i, At::N, n);
    match run(x, s, i, At::N, n) {
        Res::Ok { j, kids, toks } => { if i < j <= s.len() { many(r, s, j, n); assert(kids == k1(kids[0])); } },
        _ => {},
    }
}
