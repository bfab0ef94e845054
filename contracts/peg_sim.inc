// ---- two texts with the same words and signs are parsed alike: blanks and comments do not matter ----
/// from i on s, and from j on t, have the same words and signs between blanks and comments, as far as they can be read
#[verifier::opaque]
pub open spec fn alike(s: Txt, i: int, t: Txt, j: int) -> bool decreases s.len() - i {
    let a = skip_end(s, i);
    let b = skip_end(t, j);
    match lex(s, a) {
        Some(x) => lex(t, b) matches Some(y) && s.subrange(a, x) == t.subrange(b, y) && (i < x <= s.len() ==> alike(s, x, t, y)),
        None => lex(t, b) is None && (a >= s.len()) == (b >= t.len()),
    }
}
pub open spec fn clean(s: Txt, i: int) -> bool { skip_end(s, i) == i }
pub proof fn alike_skip(s: Txt, i: int, t: Txt, j: int) requires 0 <= i <= s.len(), 0 <= j <= t.len(), alike(s, i, t, j) ensures alike(s, skip_end(s, i), t, skip_end(t, j)) {
    reveal_with_fuel(alike, 2); skip_skip(s, i); skip_skip(t, j); b_skip(s, i); b_skip(t, j); b_lex(s, skip_end(s, i));
}
/// at clean positions of texts that are alike stands the same word or sign, or none
pub proof fn alike_next(s: Txt, i: int, t: Txt, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= t.len(), alike(s, i, t, j), clean(s, i), clean(t, j)
    ensures (lex(s, i) is Some) == (lex(t, j) is Some), (i == s.len()) == (j == t.len()),
        lex(s, i) matches Some(x) ==> i < x <= s.len() && j < lex(t, j)->0 <= t.len() && s.subrange(i, x) == t.subrange(j, lex(t, j)->0) && s[i] == t[j] && alike(s, x, t, lex(t, j)->0)
{
    reveal_with_fuel(alike, 2); b_lex(s, i); b_lex(t, j);
    match lex(s, i) { Some(x) => { assert(s.subrange(i, x)[0] == s[i]); assert(t.subrange(j, lex(t, j)->0)[0] == t[j]); }, None => {} }
}

/// which words the lexical rules take
pub open spec fn leafrule(r: Rl) -> bool { r is plain || r is html || r is string_qt || r is compass || r is attr_mark || r is strict || r is graph_ty }
pub open spec fn is_plain(w: Txt) -> bool { w.len() > 0 && (wc(w[0]) || w[0] == '.' || w[0] == '-') && !arrow(w) }
pub open spec fn takes(r: Rl, w: Txt) -> bool {
    match r {
        Rl::plain => is_plain(w), Rl::html => w.len() > 0 && w[0] == '<', Rl::string_qt => w.len() > 0 && w[0] == '"',
        Rl::compass => point(w), Rl::attr_mark => mark(w), Rl::strict => w == k_strict(), Rl::graph_ty => ty(w), _ => false,
    }
}
pub open spec fn leaf_is(r: Rl, res: Res, s: Txt, i: int) -> bool {
    match lex(s, i) {
        Some(x) => if takes(r, s.subrange(i, x)) {
            res matches Res::Ok { j, kids, toks } && j == x && kids == k1(kids[0]) && kids[0].rule == vis(r)->0 && kids[0].text == s.subrange(i, x) && kids[0].toks == t0() && toks == t1(s.subrange(i, x))
        } else { res is Fail },
        None => res is Fail,
    }
}
pub proof fn plain_lex(s: Txt, i: int) requires 0 <= i <= s.len()
    ensures plain_end(s, i) is Some ==> lex(s, i) == plain_end(s, i), lex(s, i) matches Some(x) ==> is_plain(s.subrange(i, x)) == (plain_end(s, i) is Some)
{
    b_lex(s, i); b_dend(s, i); b_dend(s, i + 1);
    match lex(s, i) { Some(x) => {
        let w = s.subrange(i, x);
        assert(w[0] == s[i]); if x >= i + 2 { assert(w[1] == s[i + 1]); }
        assert(forall|c: char, d: char| (#[trigger] e().push(c).push(d)).len() == 2 && e().push(c).push(d)[0] == c && e().push(c).push(d)[1] == d);
        if s[i] == '-' && (c_at(s, i + 1, '>') || c_at(s, i + 1, '-')) { assert(w =~= e().push(s[i]).push(s[i + 1])); }
    }, None => {} }
}
/// a word that starts with a letter or underscore, as the next thing
pub proof fn lex_kws(s: Txt, i: int, l: Txt) requires 0 <= i <= s.len(), l.len() > 0, w0(l[0])
    ensures (word_of(s, i) == l) == (lex(s, i) matches Some(x) && s.subrange(i, x) == l), word_of(s, i) == l ==> lex(s, i) == Some(wend(s, i)) && s[i] == l[0] && i < s.len()
{
    b_wend(s, i); b_lex(s, i);
    if word_of(s, i) == l { kw_first(s, i, l); lex_word(s, i); }
    match lex(s, i) { Some(x) => { assert(s.subrange(i, x)[0] == s[i]); }, None => {} }
}
pub proof fn points_start(l: Txt) requires point(l) ensures l.len() > 0, w0(l[0]) {
    assert(forall|c: char| (#[trigger] e().push(c)).len() == 1 && e().push(c)[0] == c);
    assert(forall|c: char, d: char| (#[trigger] e().push(c).push(d)).len() == 2 && e().push(c).push(d)[0] == c);
}
pub proof fn leaf_kw(r: Rl, res: Res, s: Txt, i: int)
    requires leafrule(r), !(r is plain || r is html || r is string_qt), 0 <= i <= s.len(), !(res is Out), kw_is(res, s, i, At::N, vis(r)->0, takes(r, word_of(s, i)))
    ensures leaf_is(r, res, s, i)
{
    broadcast use kid_at; kw_lens(); b_lex(s, i); b_wend(s, i);
    if takes(r, word_of(s, i)) { if r is compass { points_start(word_of(s, i)); } lex_kws(s, i, word_of(s, i)); }
    match lex(s, i) { Some(x) => { let w = s.subrange(i, x); if takes(r, w) { if r is compass { points_start(w); } lex_kws(s, i, w); } }, None => {} }
}
pub proof fn leaf_val(r: Rl, s: Txt, i: int) requires leafrule(r), 0 <= i <= s.len() ensures leaf_is(r, val(G::Call(r), s, i, At::N), s, i) {
    let n = val_at(G::Call(r), s, i, At::N);
    ends_all(r, s, i, At::N);
    b_lex(s, i);
    let res = val(G::Call(r), s, i, At::N);
    match lex(s, i) { Some(x) => { assert(s.subrange(i, x)[0] == s[i]); }, None => {} }
    match r {
        Rl::plain => { l_plain(s, i, At::N, n); plain_lex(s, i); match res { Res::Ok { kids, .. } => { k_one(kids); }, _ => {} } },
        Rl::html => { l_html(s, i, At::N, n); match res { Res::Ok { kids, .. } => { k_one(kids); }, _ => {} } },
        Rl::string_qt => { l_string(s, i, At::N, n); match res { Res::Ok { kids, .. } => { k_one(kids); }, _ => {} } },
        Rl::compass => { l_compass(s, i, At::N, n); leaf_kw(r, res, s, i); },
        Rl::attr_mark => { l_attr_mark(s, i, At::N, n); leaf_kw(r, res, s, i); },
        Rl::strict => { l_strict(s, i, At::N, n); leaf_kw(r, res, s, i); },
        Rl::graph_ty => { l_graph_ty(s, i, At::N, n); leaf_kw(r, res, s, i); },
        _ => {},
    }
}
pub proof fn skip_val(s: Txt, i: int) requires 0 <= i <= s.len() ensures val(G::Call(Rl::skip), s, i, At::N) == (Res::Ok { j: skip_end(s, i), kids: k0(), toks: t0() }), i <= skip_end(s, i) <= s.len(), clean(s, skip_end(s, i)) {
    let n = val_at(G::Call(Rl::skip), s, i, At::N); ends_all(Rl::skip, s, i, At::N); l_skip(s, i, At::N, n); b_skip(s, i); skip_skip(s, i);
}
/// a sign or an arrow
pub open spec fn sig(l: Txt) -> bool { l == e().push('{') || l == e().push('}') || l == e().push('[') || l == e().push(']') || l == e().push('=') || l == e().push(':') || l == e().push(';') || l == e().push(',') || arrow(l) }
pub open spec fn word_is(res: Res, s: Txt, i: int, l: Txt) -> bool { if lex(s, i) matches Some(x) && s.subrange(i, x) == l { res == (Res::Ok { j: lex(s, i)->0, kids: k0(), toks: t1(l) }) } else { res is Fail } }
pub proof fn sig_val(l: Txt, s: Txt, i: int) requires sig(l), 0 <= i <= s.len() ensures word_is(val(G::Str(l), s, i, At::N), s, i, l) {
    broadcast use {is_at1_b, is_at2_b}; u_str(l, s, i, At::N);
    b_lex(s, i);
    assert(forall|c: char| (#[trigger] e().push(c)).len() == 1 && e().push(c)[0] == c);
    assert(forall|c: char, d: char| (#[trigger] e().push(c).push(d)).len() == 2 && e().push(c).push(d)[0] == c && e().push(c).push(d)[1] == d);
    match lex(s, i) { Some(x) => {
        let w = s.subrange(i, x);
        assert(w[0] == s[i]); if x >= i + 2 { assert(w[1] == s[i + 1]); }
        if sign(s[i]) { assert(w =~= e().push(s[i])); }
        if s[i] == '-' && (c_at(s, i + 1, '>') || c_at(s, i + 1, '-')) { assert(w =~= e().push(s[i]).push(s[i + 1])); }
    }, None => {} }
    if is_at(s, i, l) { assert(s.subrange(i, i + l.len()) == l); }
}
pub open spec fn g_subg() -> G { G::Cat(Box::new(G::Cat(Box::new(G::And(Box::new(G::Call(Rl::subgraph_mark)))), Box::new(G::Call(Rl::skip)))), Box::new(G::Str(Seq::<char>::empty().push('s').push('u').push('b').push('g').push('r').push('a').push('p').push('h')))) }
/// the word subgraph, in full
pub proof fn subg_val(s: Txt, i: int) requires 0 <= i <= s.len(), clean(s, i) ensures word_is(val(g_subg(), s, i, At::N), s, i, k_subgraph()) {
    let m = G::Call(Rl::subgraph_mark);
    let n = val_at(m, s, i, At::N); ends_all(Rl::subgraph_mark, s, i, At::N); l_subgraph_mark(s, i, At::N, n);
    kw_lens(); lex_kws(s, i, k_subgraph()); skip_val(s, i); b_wend(s, i);
    broadcast use vals;
    if word_of(s, i) == k_subgraph() { assert(is_at(s, i, k_subgraph())); }
}

/// each sign, word and rule of the term is tried only after the blanks; c: the term starts after them
pub open spec fn ce(g: G, c: bool) -> bool decreases g {
    match g {
        G::Cat(a, b) => g != g_subg() && ce(*b, ce(*a, c)),
        G::Alt(a, b) => ce(*a, c) && ce(*b, c),
        G::Star(a) => c && ce(*a, c), G::Opt(a) => c && ce(*a, c),
        G::Not(_) => c, G::And(_) => c,
        G::Tag(_, a) => ce(*a, c),
        G::Call(r) => r is skip,
        _ => false,
    }
}
pub open spec fn simrule(r: Rl) -> bool { nrule(r) && !(r is skip || r is SOI || r is EOI || r is file) }
pub open spec fn cl(g: G, c: bool) -> bool decreases g {
    match g {
        G::Cat(a, b) => (g == g_subg() && c) || (cl(*a, c) && cl(*b, ce(*a, c))),
        G::Alt(a, b) => cl(*a, c) && cl(*b, c),
        G::Star(a) => cl(*a, c && ce(*a, c)), G::Opt(a) => cl(*a, c), G::Not(a) => cl(*a, c), G::And(a) => cl(*a, c),
        G::Tag(r, a) => cl(*a, c) && !leaf(r),
        G::Str(l) => c && sig(l),
        G::Call(r) => r is skip || (c && simrule(r)),
        _ => false,
    }
}
/// the same tree, but for the blanks and comments in its text
pub open spec fn eqv(a: Tree, b: Tree) -> bool decreases a {
    a.rule == b.rule && a.toks == b.toks && if leaf(a.rule) { a.text == b.text } else { a.kids.len() == b.kids.len() && forall|q: int| 0 <= q < a.kids.len() ==> eqv(#[trigger] a.kids[q], b.kids[q]) }
}
pub open spec fn eqvs(a: Seq<Tree>, b: Seq<Tree>) -> bool { a.len() == b.len() && forall|q: int| 0 <= q < a.len() ==> eqv(#[trigger] a[q], b[q]) }
pub proof fn eqvs_cat(a: Seq<Tree>, b: Seq<Tree>, c: Seq<Tree>, d: Seq<Tree>) requires eqvs(a, c), eqvs(b, d) ensures eqvs(kc(a, b), kc(c, d)) {
    broadcast use {kid_at};
    let x = kc(a, b); let y = kc(c, d);
    assert forall|q: int| 0 <= q < x.len() implies eqv(#[trigger] x[q], y[q]) by { kc_idx(a, b, q); kc_idx(c, d, q); if q < a.len() { assert(eqv(a[q], c[q])); } else { assert(eqv(b[q - a.len()], d[q - a.len()])); } }
}
pub open spec fn simr(s: Txt, r: Res, t: Txt, u: Res, c: bool) -> bool {
    match r {
        Res::Ok { j, kids, toks } => u matches Res::Ok { j: j2, kids: k2, toks: t2 } && 0 <= j <= s.len() && 0 <= j2 <= t.len() && alike(s, j, t, j2) && toks == t2 && eqvs(kids, k2) && (c ==> clean(s, j) && clean(t, j2)),
        Res::Fail => u is Fail,
        Res::Out => false,
    }
}
pub proof fn sim(g: G, c: bool, s: Txt, i: int, t: Txt, j: int, k: int)
    requires 0 <= i <= s.len(), 0 <= j <= t.len(), alike(s, i, t, j), cl(g, c), c ==> clean(s, i) && clean(t, j), ok(g, k), k <= ranks()
    ensures simr(s, val(g, s, i, At::N), t, val(g, t, j, At::N), ce(g, c))
    decreases s.len() - i, k, g
{
    broadcast use kid_at;
    match g {
        G::Str(l) => { alike_next(s, i, t, j); sig_val(l, s, i); sig_val(l, t, j); },
        G::Cat(a, b) => {
            if g == g_subg() && c { alike_next(s, i, t, j); subg_val(s, i); subg_val(t, j); }
            else {
                u_cat(a, b, s, i, At::N); u_cat(a, b, t, j, At::N);
                sim(*a, c, s, i, t, j, k); val_goes(*a, s, i, At::N);
                match (val(*a, s, i, At::N), val(*a, t, j, At::N)) {
                    (Res::Ok { j: x, kids: ka, .. }, Res::Ok { j: y, kids: kb, .. }) => {
                        sim(*b, ce(*a, c), s, x, t, y, if nn(*a) { ranks() } else { k });
                        match (val(*b, s, x, At::N), val(*b, t, y, At::N)) { (Res::Ok { kids: kx, .. }, Res::Ok { kids: ky, .. }) => { eqvs_cat(ka, kx, kb, ky); }, _ => {} }
                    },
                    _ => {},
                }
            }
        },
        G::Alt(a, b) => { u_alt(a, b, s, i, At::N); u_alt(a, b, t, j, At::N); sim(*a, c, s, i, t, j, k); sim(*b, c, s, i, t, j, k); },
        G::Star(a) => {
            u_star(a, s, i, At::N); u_star(a, t, j, At::N);
            let d = c && ce(*a, c);
            sim(*a, d, s, i, t, j, k); val_goes(*a, s, i, At::N); val_goes(*a, t, j, At::N);
            match (val(*a, s, i, At::N), val(*a, t, j, At::N)) {
                (Res::Ok { j: x, kids: ka, .. }, Res::Ok { j: y, kids: kb, .. }) => {
                    sim_star(g, a, d, s, x, t, y, k);
                    match (val(g, s, x, At::N), val(g, t, y, At::N)) { (Res::Ok { kids: kx, .. }, Res::Ok { kids: ky, .. }) => { eqvs_cat(ka, kx, kb, ky); }, _ => {} }
                },
                _ => {},
            }
        },
        G::Opt(a) => { u_opt(a, s, i, At::N); u_opt(a, t, j, At::N); sim(*a, c, s, i, t, j, k); },
        G::Not(a) => { u_not(a, s, i, At::N); u_not(a, t, j, At::N); sim(*a, c, s, i, t, j, k); },
        G::And(a) => { u_and(a, s, i, At::N); u_and(a, t, j, At::N); sim(*a, c, s, i, t, j, k); },
        G::Tag(r, a) => { u_tag(r, a, s, i, At::N); u_tag(r, a, t, j, At::N); sim(*a, c, s, i, t, j, k); },
        G::Call(r) => {
            if r is skip { skip_val(s, i); skip_val(t, j); alike_skip(s, i, t, j); }
            else if leafrule(r) { alike_next(s, i, t, j); leaf_val(r, s, i); leaf_val(r, t, j); }
            else { ok_all(r); cl_all(r); u_call(r, s, i, At::N); u_call(r, t, j, At::N); sim(body(r), true, s, i, t, j, rank(r)); }
        },
        _ => {},
    }
}
pub proof fn sim_star(g: G, a: Box<G>, d: bool, s: Txt, i: int, t: Txt, j: int, k: int)
    requires g == G::Star(a), 0 <= i <= s.len(), 0 <= j <= t.len(), alike(s, i, t, j), cl(*a, d), d ==> ce(*a, d) && clean(s, i) && clean(t, j), nn(*a), ok(*a, k), k <= ranks()
    ensures simr(s, val(G::Star(a), s, i, At::N), t, val(G::Star(a), t, j, At::N), d)
    decreases s.len() - i, k, g
{
    broadcast use kid_at;
    u_star(a, s, i, At::N); u_star(a, t, j, At::N);
    match g { G::Star(x) => { sim(*x, d, s, i, t, j, k); }, _ => {} } val_goes(*a, s, i, At::N); val_goes(*a, t, j, At::N);
    match (val(*a, s, i, At::N), val(*a, t, j, At::N)) {
        (Res::Ok { j: x, kids: ka, .. }, Res::Ok { j: y, kids: kb, .. }) => {
            sim_star(g, a, d, s, x, t, y, k);
            match (val(g, s, x, At::N), val(g, t, y, At::N)) { (Res::Ok { kids: kx, .. }, Res::Ok { kids: ky, .. }) => { eqvs_cat(ka, kx, kb, ky); }, _ => {} }
        },
        _ => {},
    }
}
pub proof fn cl_all(r: Rl) requires simrule(r), !leafrule(r) ensures cl(body(r), true) {
    reveal_with_fuel(cl, 24); reveal_with_fuel(ce, 24);
}
/// two texts with the same words and signs are both refused, or both accepted with the same tree
pub proof fn file_sim(s: Txt, t: Txt)
    requires alike(s, 0, t, 0)
    ensures simr(s, val(G::Call(Rl::file), s, 0, At::N), t, val(G::Call(Rl::file), t, 0, At::N), false)
{
    broadcast use {vals, kid_at};
    u_call(Rl::file, s, 0, At::N); u_call(Rl::file, t, 0, At::N);
    u_call(Rl::SOI, s, 0, At::N); u_call(Rl::SOI, t, 0, At::N);
    skip_val(s, 0); skip_val(t, 0); alike_skip(s, 0, t, 0);
    let i = skip_end(s, 0); let j = skip_end(t, 0);
    ok_all(Rl::graph);
    sim(G::Call(Rl::graph), true, s, i, t, j, ranks());
    match (val(G::Call(Rl::graph), s, i, At::N), val(G::Call(Rl::graph), t, j, At::N)) {
        (Res::Ok { j: x, kids: ka, .. }, Res::Ok { j: y, kids: kb, .. }) => {
            skip_val(s, x); skip_val(t, y); alike_skip(s, x, t, y);
            let x1 = skip_end(s, x); let y1 = skip_end(t, y);
            alike_next(s, x1, t, y1);
            u_call(Rl::EOI, s, x1, At::N); u_call(Rl::EOI, t, y1, At::N);
            match (val(G::Call(Rl::EOI), s, x1, At::N), val(G::Call(Rl::EOI), t, y1, At::N)) { (Res::Ok { kids: kx, .. }, Res::Ok { kids: ky, .. }) => { eqvs_cat(ka, kx, kb, ky); }, _ => {} }
        },
        _ => {},
    }
}
