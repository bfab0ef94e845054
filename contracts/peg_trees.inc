// ---- every rule, given that the rules it calls are sound ----
// the text of a word, numeral or string taken by itself
pub proof fn w_sub(s: Txt, i: int, j: int, k: int) requires 0 <= i <= k, wend(s, k) <= j <= s.len() ensures wend(s.subrange(i, j), k - i) == wend(s, k) - i decreases s.len() - k
{ b_wend(s, k); if k < j && wc(s[k]) { assert(s.subrange(i, j)[k - i] == s[k]); w_sub(s, i, j, k + 1); } else if k < j { assert(s.subrange(i, j)[k - i] == s[k]); } }
pub proof fn d_sub(s: Txt, i: int, j: int, k: int) requires 0 <= i <= k, dend(s, k) <= j <= s.len() ensures dend(s.subrange(i, j), k - i) == dend(s, k) - i decreases s.len() - k
{ b_dend(s, k); if k < j && dg(s[k]) { assert(s.subrange(i, j)[k - i] == s[k]); d_sub(s, i, j, k + 1); } else if k < j { assert(s.subrange(i, j)[k - i] == s[k]); } }
pub proof fn q_sub(s: Txt, i: int, j: int, k: int) requires 0 <= i <= k, j <= s.len(), qend(s, k) matches Some(m) && m <= j ensures qend(s.subrange(i, j), k - i) == Some(qend(s, k)->0 - i) decreases s.len() - k
{ b_qend(s, k); if k < j { assert(s.subrange(i, j)[k - i] == s[k]); if s[k] == '\\' { b_qend(s, k + 2); q_sub(s, i, j, k + 2); } else if s[k] != '"' { q_sub(s, i, j, k + 1); } } }
pub proof fn h_sub(s: Txt, i: int, j: int, k: int, d: nat) requires 0 <= i <= k, j <= s.len(), hend(s, k, d) matches Some(m) && m <= j ensures hend(s.subrange(i, j), k - i, d) == Some(hend(s, k, d)->0 - i) decreases s.len() - k
{ b_hend(s, k, d); if k < j { assert(s.subrange(i, j)[k - i] == s[k]); if s[k] == '<' { h_sub(s, i, j, k + 1, d + 1); } else if s[k] == '>' { if d > 1 { h_sub(s, i, j, k + 1, (d - 1) as nat); } } else { h_sub(s, i, j, k + 1, d); } } }
pub proof fn p_sub(s: Txt, i: int, j: int) requires 0 <= i, plain_end(s, i) == Some(j) ensures plain_end(s.subrange(i, j), 0) == Some(j - i) {
    let t = s.subrange(i, j);
    b_plain(s, i);
    assert forall|k: int, c: char| i <= k < j implies #[trigger] c_at(s, k, c) == c_at(t, k - i, c) by { assert(t[k - i] == s[k]); }
    assert(t[0] == s[i]);
    if w0(s[i]) { w_sub(s, i, j, i); }
    else {
        let a = if c_at(s, i, '-') { i + 1 } else { i };
        let b = dend(s, a);
        b_dend(s, a); b_dend(s, b + 1); b_dend(s, a + 1);
        assert(a < j);
        d_sub(s, i, j, a);
        if b > a { if c_at(s, b, '.') { d_sub(s, i, j, b + 1); assert(c_at(t, b - i, '.')); } else { if b < j { assert(c_at(s, b, '.') == c_at(t, b - i, '.')); } } }
        else { d_sub(s, i, j, a + 1); assert(c_at(t, a - i, '.')); }
    }
}
pub open spec fn callsnd(r: Rl, s: Txt, i: int, n: nat) -> bool { snd(r, s, i, run(G::Call(r), s, i, At::N, n)) }
pub proof fn k_one(k: Seq<Tree>) requires k.len() == 1 ensures k == k1(k[0]) { reveal(k1); assert(k =~= seq![k[0]]); }
pub proof fn s_plain(s: Txt, i: int, n: nat) requires 0 <= i <= s.len() ensures callsnd(Rl::plain, s, i, n) {
    reveal(local); l_plain(s, i, At::N, n); b_plain(s, i);
    match run(G::Call(Rl::plain), s, i, At::N, n) { Res::Ok { j, kids, toks } => { p_sub(s, i, j); lexes_one(s, i, j); k_one(kids); }, _ => {} }
}
pub proof fn s_html(s: Txt, i: int, n: nat) requires 0 <= i <= s.len() ensures callsnd(Rl::html, s, i, n) {
    reveal(local); l_html(s, i, At::N, n); b_hend(s, i + 1, 1);
    match run(G::Call(Rl::html), s, i, At::N, n) { Res::Ok { j, kids, toks } => { assert(s.subrange(i, j)[0] == s[i]); h_sub(s, i, j, i + 1, 1); lexes_one(s, i, j); k_one(kids); }, _ => {} }
}
pub proof fn s_string(s: Txt, i: int, n: nat) requires 0 <= i <= s.len() ensures callsnd(Rl::string_qt, s, i, n) {
    reveal(local); l_string(s, i, At::N, n); b_qend(s, i + 1);
    match run(G::Call(Rl::string_qt), s, i, At::N, n) { Res::Ok { j, kids, toks } => { assert(s.subrange(i, j)[0] == s[i]); q_sub(s, i, j, i + 1); lexes_one(s, i, j); k_one(kids); }, _ => {} }
}
/// a word that starts with a letter or underscore is one word of the text
pub proof fn lex_kw(s: Txt, i: int) requires 0 <= i < s.len(), w0(s[i]) ensures i < wend(s, i) <= s.len(), lexes(s, i, wend(s, i), t1(word_of(s, i))) {
    b_wend(s, i); b_wend(s, i + 1); lex_word(s, i); lexes_one(s, i, wend(s, i));
}
pub proof fn kw_first(s: Txt, i: int, l: Txt) requires 0 <= i <= s.len(), word_of(s, i) == l, l.len() > 0, w0(l[0]) ensures i < s.len(), s[i] == l[0] {
    b_wend(s, i); if i < s.len() { assert(word_of(s, i)[0] == s[i]); }
}
pub proof fn kw_lens() ensures k_graph().len() == 5, k_graph()[0] == 'g', k_digraph().len() == 7, k_digraph()[0] == 'd', k_node().len() == 4, k_node()[0] == 'n', k_edge().len() == 4, k_edge()[0] == 'e',
    k_strict().len() == 6, k_strict()[0] == 's', k_subgraph().len() == 8, k_subgraph()[0] == 's' {}
pub proof fn s_compass(s: Txt, i: int, n: nat) requires 0 <= i <= s.len() ensures callsnd(Rl::compass, s, i, n) {
    broadcast use kid_at; reveal(local); l_compass(s, i, At::N, n);
    match run(G::Call(Rl::compass), s, i, At::N, n) { Res::Ok { j, kids, toks } => { kw_first(s, i, word_of(s, i)); lex_kw(s, i); }, _ => {} }
}
pub proof fn s_attr_mark(s: Txt, i: int, n: nat) requires 0 <= i <= s.len() ensures callsnd(Rl::attr_mark, s, i, n) {
    broadcast use kid_at; reveal(local); l_attr_mark(s, i, At::N, n); kw_lens();
    match run(G::Call(Rl::attr_mark), s, i, At::N, n) { Res::Ok { j, kids, toks } => { kw_first(s, i, word_of(s, i)); lex_kw(s, i); }, _ => {} }
}
pub proof fn s_strict(s: Txt, i: int, n: nat) requires 0 <= i <= s.len() ensures callsnd(Rl::strict, s, i, n) {
    broadcast use kid_at; reveal(local); l_strict(s, i, At::N, n); kw_lens();
    match run(G::Call(Rl::strict), s, i, At::N, n) { Res::Ok { j, kids, toks } => { kw_first(s, i, word_of(s, i)); lex_kw(s, i); }, _ => {} }
}
pub proof fn s_graph_ty(s: Txt, i: int, n: nat) requires 0 <= i <= s.len() ensures callsnd(Rl::graph_ty, s, i, n) {
    broadcast use kid_at; reveal(local); l_graph_ty(s, i, At::N, n); kw_lens();
    match run(G::Call(Rl::graph_ty), s, i, At::N, n) { Res::Ok { j, kids, toks } => { kw_first(s, i, word_of(s, i)); lex_kw(s, i); }, _ => {} }
}
pub proof fn s_id(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::id, s, i, run(g_id(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_id())); covers(g_id(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn s_port(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::port, s, i, run(g_port(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_port())); covers(g_port(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn s_node_id(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::node_id, s, i, run(g_node_id(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_node_id())); covers(g_node_id(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn s_bare_attr(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::bare_attr, s, i, run(g_bare_attr(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_bare_attr())); covers(g_bare_attr(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn s_attr(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::attr, s, i, run(g_attr(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_attr())); covers(g_attr(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn s_attr_stmt(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::attr_stmt, s, i, run(g_attr_stmt(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_attr_stmt())); covers(g_attr_stmt(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn s_edge_tail(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::edge_tail, s, i, run(g_edge_tail(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_edge_tail())); covers(g_edge_tail(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn s_edge(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::edge, s, i, run(g_edge(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_edge())); covers(g_edge(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn s_edge_stmt(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::edge_stmt, s, i, run(g_edge_stmt(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_edge_stmt())); covers(g_edge_stmt(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn s_vertex(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::vertex, s, i, run(g_vertex(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_vertex())); covers(g_vertex(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn s_stmt(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::stmt, s, i, run(g_stmt(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_stmt())); covers(g_stmt(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn s_graph(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::graph, s, i, run(g_graph(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_graph())); covers(g_graph(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn s_file(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::file, s, i, run(g_file(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_file())); covers(g_file(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn s_arr(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::arr, s, i, run(g_arr(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_arr())); covers(g_arr(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn s_SOI(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::SOI, s, i, run(g_SOI(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_SOI())); covers(g_SOI(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn s_EOI(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::EOI, s, i, run(g_EOI(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_EOI())); covers(g_EOI(), s, i, n);
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}

// bracketed attributes
pub open spec fn g_as() -> G { G::Opt(Box::new(G::Cat(Box::new(G::Call(Rl::attr)), Box::new(G::Star(Box::new(G::Cat(Box::new(G::Call(Rl::skip)), Box::new(G::Call(Rl::attr))))))))) }
pub open spec fn g_grp() -> G {
    G::Cat(Box::new(G::Cat(Box::new(G::Cat(Box::new(G::Cat(Box::new(G::Str(Seq::<char>::empty().push('['))), Box::new(G::Call(Rl::skip)))), Box::new(g_as()))), Box::new(G::Call(Rl::skip)))), Box::new(G::Str(Seq::<char>::empty().push(']'))))
}
pub open spec fn grp_is(r: Res) -> bool { r matches Res::Ok { j, kids, toks } ==> all_of(kids, Rule::attr) && shapes(kids) && toks == tc(tc(x1('['), flat(kids)), x1(']')) }
pub broadcast proof fn s_grp(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures grp_is(#[trigger] run(g_grp(), s, i, At::N, n)) {
    reveal_with_fuel(nmode, 24); assert(nmode(g_grp()));
    broadcast use {peg, use_hyp, many, covers_b, kid_at, flats};
}
pub proof fn groups_cons(a: Seq<Tree>, b: Seq<Tree>, rest: Seq<Txt>, n: nat) requires groups(rest, b, n) ensures groups(tc(tc(tc(x1('['), flat(a)), x1(']')), rest), kc(a, b), n + 1) {
    reveal(groups); reveal(kc);
    assert((a + b).take(a.len() as int) =~= a); assert((a + b).skip(a.len() as int) =~= b);
    assert(wit(a.len() as int, rest));
}
pub proof fn grouped_cons(a: Seq<Tree>, ta: Seq<Txt>, b: Seq<Tree>, rest: Seq<Txt>) requires grouped(rest, b, 0), ta == tc(tc(x1('['), flat(a)), x1(']')) ensures grouped(tc(ta, rest), kc(a, b), 1), grouped(tc(ta, rest), kc(a, b), 0) {
    let n = grouped_n(rest, b, 0); groups_cons(a, b, rest, n); grouped_by(tc(ta, rest), kc(a, b), n + 1, 1); grouped_by(tc(ta, rest), kc(a, b), n + 1, 0);
}
pub proof fn grouped_none() ensures grouped(t0(), k0(), 0), all_of(k0(), Rule::attr), shapes(k0()) { reveal(groups); broadcast use kid_at; assert(groups(t0(), k0(), 0)); grouped_by(t0(), k0(), 0, 0); }
pub proof fn kc_all(a: Seq<Tree>, b: Seq<Tree>, r: Rule) requires all_of(a, r), all_of(b, r), shapes(a), shapes(b) ensures all_of(kc(a, b), r), shapes(kc(a, b)) { broadcast use kid_at; }
/// what the rest of a list of bracket groups is
pub open spec fn grps_is(r: Res, lo: nat) -> bool { r matches Res::Ok { j, kids, toks } ==> all_of(kids, Rule::attr) && shapes(kids) && grouped(toks, kids, lo) }
pub open spec fn g_sg() -> G { G::Cat(Box::new(G::Call(Rl::skip)), Box::new(g_grp())) }
pub proof fn s_sg(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures grp_is(run(g_sg(), s, i, At::N, n)), cov(s, i, run(g_sg(), s, i, At::N, n)) {
    reveal_with_fuel(nmode, 24); assert(nmode(g_grp())); assert(nmode(g_sg())); covers(g_sg(), s, i, n);
    e_cat(Box::new(G::Call(Rl::skip)), Box::new(g_grp()), s, i, At::N, n);
    use_hyp(Rl::skip, s, i, n); broadcast use {kid_norm, tok_norm, s_grp};
}
pub proof fn s_grps(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len()
    ensures grps_is(run(G::Star(Box::new(g_sg())), s, i, At::N, n), 0)
    decreases s.len() - i
{
    e_star(Box::new(g_sg()), s, i, At::N, n); s_sg(s, i, n); grouped_none();
    match run(g_sg(), s, i, At::N, n) {
        Res::Ok { j, kids, toks } => { if i < j <= s.len() {
            s_grps(s, j, n);
            match run(G::Star(Box::new(g_sg())), s, j, At::N, n) { Res::Ok { kids: kr, toks: tr, .. } => { grouped_cons(kids, toks, kr, tr); kc_all(kids, kr, Rule::attr); }, _ => {} }
        } },
        _ => {},
    }
}
pub open spec fn g_tail() -> G { G::Cat(Box::new(g_grp()), Box::new(G::Star(Box::new(g_sg())))) }
pub proof fn s_tail(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures grps_is(run(G::Opt(Box::new(g_tail())), s, i, At::N, n), 0) {
    reveal_with_fuel(nmode, 24); assert(nmode(g_grp())); covers(g_grp(), s, i, n);
    e_opt(Box::new(g_tail()), s, i, At::N, n); e_cat(Box::new(g_grp()), Box::new(G::Star(Box::new(g_sg()))), s, i, At::N, n);
    s_grp(s, i, n); grouped_none();
    match run(g_grp(), s, i, At::N, n) {
        Res::Ok { j, kids, toks } => {
            s_grps(s, j, n);
            match run(G::Star(Box::new(g_sg())), s, j, At::N, n) { Res::Ok { j: jr, kids: kr, toks: tr } => { grouped_cons(kids, toks, kr, tr); kc_all(kids, kr, Rule::attr); }, _ => {} }
        }
        _ => {}
    }
}
pub open spec fn g_al() -> G { G::Cat(Box::new(G::Cat(Box::new(g_grp()), Box::new(G::Call(Rl::skip)))), Box::new(G::Opt(Box::new(G::Cat(Box::new(g_grp()), Box::new(G::Star(Box::new(g_sg())))))))) }
pub proof fn s_al(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures grps_is(run(g_al(), s, i, At::N, n), 1) {
    reveal_with_fuel(nmode, 24); assert(nmode(g_grp())); covers(g_grp(), s, i, n);
    let hd = G::Cat(Box::new(g_grp()), Box::new(G::Call(Rl::skip)));
    e_cat(Box::new(hd), Box::new(G::Opt(Box::new(g_tail()))), s, i, At::N, n); e_cat(Box::new(g_grp()), Box::new(G::Call(Rl::skip)), s, i, At::N, n);
    s_grp(s, i, n); broadcast use {kid_norm, tok_norm};
    match run(g_grp(), s, i, At::N, n) {
        Res::Ok { j, kids, toks } => {
            use_hyp(Rl::skip, s, j, n);
            match run(G::Call(Rl::skip), s, j, At::N, n) { Res::Ok { j: j1, .. } => {
                s_tail(s, j1, n);
                match run(G::Opt(Box::new(g_tail())), s, j1, At::N, n) { Res::Ok { j: j2, kids: k2, toks: u2 } => { grouped_cons(kids, toks, k2, u2); kc_all(kids, k2, Rule::attr); }, _ => {} }
            }, _ => {} }
        }
        _ => {}
    }
}
pub proof fn s_attr_list(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::attr_list, s, i, run(g_attr_list(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_attr_list())); covers(g_attr_list(), s, i, n);
    assert(g_attr_list() == G::Tag(Rule::attr_list, Box::new(g_al())));
    e_tag(Rule::attr_list, Box::new(g_al()), s, i, At::N, n);
    s_al(s, i, n);
    broadcast use kid_at;
    match run(g_al(), s, i, At::N, n) { Res::Ok { j, kids, toks } => {
        let tr = Tree { rule: Rule::attr_list, text: s.subrange(i, j), kids, toks };
        assert(all_of(kids, Rule::attr)); assert(local(tr)); assert(shape(tr));
        assert(run(g_attr_list(), s, i, At::N, n) == Res::Ok { j, kids: k1(tr), toks });
        assert(k1(tr)[0] == tr);
    }, _ => {} }
}
/// after bracketed attributes no bracket follows
pub proof fn al_stops(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len()
    ensures run(G::Call(Rl::attr_list), s, i, At::N, n) matches Res::Ok { j, .. } ==> i <= j <= s.len() && !(run(G::Call(Rl::attr_list), s, skip_end(s, j), At::N, n) is Ok)
{
    e_call(Rl::attr_list, s, i, At::N, n);
    if n > 0 {
        let m = (n - 1) as nat;
        assert(g_attr_list() == G::Tag(Rule::attr_list, Box::new(g_al())));
        broadcast use {peg, use_hyp};
        assert forall|k: int| 0 <= k <= s.len() implies ok0(#[trigger] run(G::Call(Rl::skip), s, k, At::N, m), skip_end(s, k)) by { l_skip(s, k, At::N, m); }
        match run(G::Call(Rl::attr_list), s, i, At::N, n) {
            Res::Ok { j, .. } => {
                e_call(Rl::attr_list, s, skip_end(s, j), At::N, n);
                b_skip(s, j); skip_skip(s, j);
                match run(g_grp(), s, i, At::N, m) {
                    Res::Ok { j: j0, .. } => {
                        skip_skip(s, j0);
                        match run(g_grp(), s, skip_end(s, j0), At::N, m) { Res::Ok { j: j2, .. } => { star_stop(Box::new(g_sg()), s, j2, At::N, m); }, _ => {} }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}
pub proof fn s_node(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::node, s, i, run(g_node(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_node())); covers(g_node(), s, i, n);
    broadcast use {peg, use_hyp, covers_b, kid_at, flats};
    let x = G::Cat(Box::new(G::Call(Rl::skip)), Box::new(G::Call(Rl::attr_list)));
    match run(G::Call(Rl::node_id), s, i, At::N, n) {
        Res::Ok { j, .. } => {
            l_skip(s, j, At::N, n);
            let p = skip_end(s, j); b_skip(s, j);
            al_stops(s, p, n);
            match run(G::Call(Rl::attr_list), s, p, At::N, n) {
                Res::Ok { j: j2, .. } => { l_skip(s, j2, At::N, n); e_star(Box::new(x), s, j2, At::N, n); },
                _ => {},
            }
        },
        _ => {},
    }
}
pub proof fn s_subgraph(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::subgraph, s, i, run(g_subgraph(), s, i, At::N, n)) {
    reveal(local); kw_lens();
    broadcast use {peg, use_hyp, kid_at, flats};
    l_subgraph_mark(s, i, At::N, n); l_skip(s, i, At::N, n);
    if word_of(s, i) == k_subgraph() && run(g_subgraph(), s, i, At::N, n) is Ok {
        kw_first(s, i, k_subgraph()); lex_kw(s, i); lex_noskip(s, i); lex_word(s, i);
        let rest = G::Cat(Box::new(G::Cat(Box::new(G::Cat(Box::new(G::Call(Rl::skip)), Box::new(G::Opt(Box::new(G::Call(Rl::id)))))), Box::new(G::Call(Rl::skip)))), Box::new(G::Call(Rl::body)));
        reveal_with_fuel(nmode, 12); assert(nmode(rest));
        let j = wend(s, i);
        covers(rest, s, j, n);
        match run(rest, s, j, At::N, n) { Res::Ok { j: j2, toks, .. } => { lexes_cat(s, i, j, j2, t1(word_of(s, i)), toks); }, _ => {} }
    }
}
// statements, each with or without a semicolon
pub open spec fn g_st() -> G { G::Cat(Box::new(G::Cat(Box::new(G::Call(Rl::stmt)), Box::new(G::Call(Rl::skip)))), Box::new(G::Opt(Box::new(G::Str(Seq::<char>::empty().push(';')))))) }
pub open spec fn g_sst() -> G { G::Cat(Box::new(G::Call(Rl::skip)), Box::new(g_st())) }
pub proof fn semis_cons(t: Tree, x: Seq<Txt>, k: Seq<Tree>) requires semis(x, k) ensures semis(tc(tt(t), x), kc(k1(t), k)), semis(tc(tc(tt(t), x1(';')), x), kc(k1(t), k)) {
    reveal(semis); kc_skip1(t, k);
    let kk = kc(k1(t), k);
    assert(wit(0, x));
}
pub open spec fn st_is(r: Res) -> bool {
    r matches Res::Ok { kids, toks, .. } ==> kids == k1(kids[0]) && kids[0].rule is stmt && shape(kids[0]) && (toks == tt(kids[0]) || toks == tc(tt(kids[0]), x1(';')))
}
pub broadcast proof fn s_st(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures st_is(#[trigger] run(g_st(), s, i, At::N, n)) {
    broadcast use {peg, use_hyp, kid_at};
}
pub proof fn s_sts(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len()
    ensures run(G::Star(Box::new(g_sst())), s, i, At::N, n) matches Res::Ok { j, kids, toks } ==> all_of(kids, Rule::stmt) && shapes(kids) && semis(toks, kids)
    decreases s.len() - i
{
    e_star(Box::new(g_sst()), s, i, At::N, n);
    reveal_with_fuel(nmode, 24); assert(nmode(g_sst())); assert(nmode(g_st()));
    broadcast use {peg, use_hyp, covers_b, kid_at, s_st};
    match run(g_sst(), s, i, At::N, n) {
        Res::Ok { j, kids, toks } => { if i < j <= s.len() {
            s_sts(s, j, n);
            match run(G::Star(Box::new(g_sst())), s, j, At::N, n) { Res::Ok { kids: kr, toks: tr, .. } => { semis_cons(kids[0], tr, kr); }, _ => {} }
        } },
        Res::Fail => { reveal(semis); },
        _ => {},
    }
}
pub open spec fn g_bd() -> G {
    G::Cat(Box::new(G::Cat(Box::new(G::Cat(Box::new(G::Cat(Box::new(G::Str(Seq::<char>::empty().push('{'))), Box::new(G::Call(Rl::skip)))), Box::new(G::Opt(Box::new(G::Cat(Box::new(g_st()), Box::new(G::Star(Box::new(g_sst()))))))))),
        Box::new(G::Call(Rl::skip)))), Box::new(G::Str(Seq::<char>::empty().push('}'))))
}
pub proof fn s_body(s: Txt, i: int, n: nat) requires hyp(n), 0 <= i <= s.len() ensures snd(Rl::body, s, i, run(g_body(), s, i, At::N, n)) {
    reveal(local); reveal_with_fuel(nmode, 24); assert(nmode(g_body())); covers(g_body(), s, i, n);
    assert(g_body() == G::Tag(Rule::body, Box::new(g_bd())));
    broadcast use {peg, use_hyp, covers_b, kid_at, s_st};
    let p = skip_end(s, i + 1); b_skip(s, i + 1);
    if i < s.len() {
        l_skip(s, i + 1, At::N, n);
        assert(nmode(g_st()));
        reveal(semis); assert(semis(t0(), k0()));
        match run(g_st(), s, p, At::N, n) {
            Res::Ok { j: j2, kids, toks } => {
                s_sts(s, j2, n);
                match run(G::Star(Box::new(g_sst())), s, j2, At::N, n) { Res::Ok { kids: kr, toks: tr, .. } => { semis_cons(kids[0], tr, kr); }, _ => {} }
            }
            _ => {}
        }
    }
}
/// one more call of a rule
pub proof fn s_call(r: Rl, s: Txt, i: int, n: nat) requires nrule(r), 0 <= i <= s.len(), n > 0 ==> hyp((n - 1) as nat) ensures callsnd(r, s, i, n) {
    e_call(r, s, i, At::N, n);
    if n > 0 {
        let m = (n - 1) as nat;
        match r {
            Rl::plain => { s_plain(s, i, n); }, Rl::html => { s_html(s, i, n); }, Rl::string_qt => { s_string(s, i, n); }, Rl::compass => { s_compass(s, i, n); },
            Rl::attr_mark => { s_attr_mark(s, i, n); }, Rl::strict => { s_strict(s, i, n); }, Rl::graph_ty => { s_graph_ty(s, i, n); },
            Rl::skip => { l_skip(s, i, At::N, n); b_skip(s, i); lexes_none(s, i); },
            Rl::id => { s_id(s, i, m); },
            Rl::port => { s_port(s, i, m); },
            Rl::node_id => { s_node_id(s, i, m); },
            Rl::bare_attr => { s_bare_attr(s, i, m); },
            Rl::attr => { s_attr(s, i, m); },
            Rl::attr_list => { s_attr_list(s, i, m); },
            Rl::node => { s_node(s, i, m); },
            Rl::attr_stmt => { s_attr_stmt(s, i, m); },
            Rl::edge_tail => { s_edge_tail(s, i, m); },
            Rl::edge => { s_edge(s, i, m); },
            Rl::edge_stmt => { s_edge_stmt(s, i, m); },
            Rl::vertex => { s_vertex(s, i, m); },
            Rl::subgraph => { s_subgraph(s, i, m); },
            Rl::stmt => { s_stmt(s, i, m); },
            Rl::body => { s_body(s, i, m); },
            Rl::graph => { s_graph(s, i, m); },
            Rl::file => { s_file(s, i, m); },
            Rl::arr => { s_arr(s, i, m); },
            Rl::SOI => { s_SOI(s, i, m); },
            Rl::EOI => { s_EOI(s, i, m); },
            _ => {},
        }
    }
}
/// whatever a rule of the grammar takes, at any depth, is a tree of the right shape, and the text reads as its words and signs
pub proof fn sound(n: nat) ensures hyp(n) decreases n {
    if n > 0 { sound((n - 1) as nat); }
    reveal(hyp);
    assert forall|r: Rl, s: Txt, i: int| nrule(r) && 0 <= i <= s.len() implies snd(r, s, i, #[trigger] run(G::Call(r), s, i, At::N, n)) by { s_call(r, s, i, n); }
}
/// what a successful parse of a whole file says
pub open spec fn parsed(s: Txt, g: Tree) -> bool { g.rule is graph && shape(g) && lexes(s, 0, s.len() as int, g.toks) }
pub proof fn file_sound(s: Txt, n: nat)
    ensures run(G::Call(Rl::file), s, 0, At::N, n) matches Res::Ok { j, kids, toks } ==> kids.len() == 1 && kids[0].rule is file && shape(kids[0]) && parsed(s, kids[0].kids[0])
{
    sound(n); reveal(hyp); reveal(local); broadcast use kid_at;
}
