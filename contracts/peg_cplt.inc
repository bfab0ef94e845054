// ---- completeness: a writing of a graph is parsed, to trees that stand for that graph ----
pub open spec fn ok_at(s: Txt, i: int) -> bool { 0 <= i <= s.len() && skip_end(s, i) == i }
pub broadcast proof fn skip_b(s: Txt, i: int) requires 0 <= i <= s.len() ensures #[trigger] val(G::Call(Rl::skip), s, i, At::N) == (Res::Ok { j: skip_end(s, i), kids: k0(), toks: t0() }), ok_at(s, skip_end(s, i)), i <= skip_end(s, i) { skip_val(s, i); }
pub broadcast proof fn sg_b(s: Txt, i: int, c: char) requires sg(s, i, c) >= 0 ensures 0 <= i < #[trigger] sg(s, i, c), ok_at(s, sg(s, i, c)), c_at(s, i, c) { b_skip(s, i + 1); skip_skip(s, i + 1); }
pub broadcast proof fn wd_b(s: Txt, i: int, w: Txt) requires wd(s, i, w) >= 0 ensures 0 <= i < #[trigger] wd(s, i, w), ok_at(s, wd(s, i, w)), i < s.len(), w.len() > 0, w[0] == s[i] {
    b_lex(s, i); let x = lex(s, i)->0; b_skip(s, x); skip_skip(s, x); assert(s.subrange(i, x)[0] == s[i]);
}
pub broadcast proof fn q_arr_b(s: Txt, i: int) requires q_arr(s, i) >= 0 ensures 0 <= i < #[trigger] q_arr(s, i), ok_at(s, q_arr(s, i)), arr_at(s, i) { b_skip(s, i + 2); skip_skip(s, i + 2); }
pub broadcast proof fn q_sep_b(s: Txt, i: int, c: char) requires ok_at(s, i) ensures i <= #[trigger] q_sep(s, i, c), ok_at(s, q_sep(s, i, c)) { b_skip(s, i + 1); skip_skip(s, i + 1); }
pub broadcast group qs { skip_b, sg_b, wd_b, q_arr_b, q_sep_b }
/// one pair, of this rule, up to j
pub open spec fn one(res: Res, s: Txt, j: int, r: Rule) -> bool { res matches Res::Ok { j: j2, kids, .. } && 0 <= j2 <= s.len() && skip_end(s, j2) == j && kids == k1(kids[0]) && kids[0].rule == r }
/// the words that start an id
pub broadcast proof fn q_id_b(s: Txt, i: int, d: Id) requires q_id(s, i, d) >= 0 ensures 0 <= i < #[trigger] q_id(s, i, d), ok_at(s, q_id(s, i, d)), starts(s, i) {
    broadcast use qs;
    let w = match d { Id::Plain(x) => x@, Id::Html(x) => x@, Id::Escaped(x) => x@, _ => e() };
    assert(wd(s, i, w) >= 0); b_lex(s, i);
    let x = lex(s, i)->0;
    if arr_at(s, i) { assert(x == i + 2); assert(w[1] == s[i + 1]); assert(w =~= e().push('-').push(s[i + 1])); }
}
pub proof fn c_id(s: Txt, i: int, d: Id) requires ok_at(s, i), q_id(s, i, d) >= 0 ensures ({ let r = val(G::Call(Rl::id), s, i, At::N); one(r, s, q_id(s, i, d), Rule::id) && m_id(r->kids[0], d) && r->kids[0].text == r->kids[0].kids[0].text }) {
    hide(skip_end);
    leaf_val(Rl::plain, s, i); leaf_val(Rl::html, s, i); leaf_val(Rl::string_qt, s, i); u_call(Rl::id, s, i, At::N);
    b_lex(s, i);
    broadcast use {vals, kid_at, qs, q_id_b};
    let x = lex(s, i)->0;
    assert(s.subrange(i, x)[0] == s[i]);
}
/// no id here
pub proof fn f_id(s: Txt, i: int) requires ok_at(s, i), !starts(s, i) ensures val(G::Call(Rl::id), s, i, At::N) is Fail {
    hide(skip_end);
    leaf_val(Rl::plain, s, i); leaf_val(Rl::html, s, i); leaf_val(Rl::string_qt, s, i); u_call(Rl::id, s, i, At::N);
    b_lex(s, i);
    broadcast use {vals};
    match lex(s, i) { Some(x) => { let w = s.subrange(i, x); assert(w[0] == s[i]); if x >= i + 2 { assert(w[1] == s[i + 1]); } if arr_at(s, i) { assert(w =~= e().push(s[i]).push(s[i + 1])); } }, None => {} }
}
/// where something other than a sign starts, an id is that thing
pub proof fn w_id(s: Txt, i: int) requires ok_at(s, i), starts(s, i)
    ensures match val(G::Call(Rl::id), s, i, At::N) { Res::Ok { j, kids, .. } => lex(s, i) == Some(j) && 0 <= j <= s.len(), Res::Fail => true, Res::Out => false }
{
    hide(skip_end);
    leaf_val(Rl::plain, s, i); leaf_val(Rl::html, s, i); leaf_val(Rl::string_qt, s, i); u_call(Rl::id, s, i, At::N);
    b_lex(s, i);
    broadcast use {vals};
}
pub proof fn c_point(s: Txt, i: int, c: Txt) requires ok_at(s, i), point(c), wd(s, i, c) >= 0
    ensures ({ let r = val(G::Call(Rl::id), s, i, At::N); one(r, s, wd(s, i, c), Rule::id) && r->kids[0].kids[0].rule is plain && r->kids[0].text == c })
{
    hide(skip_end);
    leaf_val(Rl::plain, s, i); u_call(Rl::id, s, i, At::N); points_start(c); b_lex(s, i);
    broadcast use {vals, kid_at, qs};
    let x = lex(s, i)->0;
    assert(s.subrange(i, x) == c); assert(is_plain(c)) by { if c == e().push('-').push('>') { assert(c[0] == '-'); } if c == e().push('-').push('-') { assert(c[0] == '-'); } }
}
pub proof fn f_port(s: Txt, i: int) requires ok_at(s, i), !c_at(s, i, ':') ensures val(G::Call(Rl::port), s, i, At::N) is Fail { u_call(Rl::port, s, i, At::N); broadcast use {vals, is_at1_b}; }
pub proof fn c_port(s: Txt, i: int, p: Port) requires ok_at(s, i), q_port(s, i, p) >= 0, !c_at(s, q_port(s, i, p), ':')
    ensures ({ let r = val(G::Call(Rl::port), s, i, At::N); one(r, s, q_port(s, i, p), Rule::port) && m_port(r->kids[0], p) }), q_port(s, i, p) > i, ok_at(s, q_port(s, i, p))
{
    hide(skip_end); hide(lex);
    u_call(Rl::port, s, i, At::N);
    broadcast use {vals, is_at1_b, kid_at, qs, q_id_b, string_ext};
    let j = sg(s, i, ':');
    match p {
        Port(Some(d), Some(c)) => { c_id(s, j, d); let k = q_id(s, j, d); let m = sg(s, k, ':'); leaf_val(Rl::compass, s, m); b_lex(s, m); },
        Port(None, Some(c)) => { c_point(s, j, c@); },
        Port(Some(d), None) => { c_id(s, j, d); },
        _ => {},
    }
}
pub proof fn c_nid(s: Txt, i: int, n: NodeId) requires ok_at(s, i), q_nid(s, i, n) >= 0, !c_at(s, q_nid(s, i, n), ':')
    ensures ({ let r = val(G::Call(Rl::node_id), s, i, At::N); one(r, s, q_nid(s, i, n), Rule::node_id) && m_nid(r->kids[0], n) }), q_nid(s, i, n) > i, ok_at(s, q_nid(s, i, n)), starts(s, i)
{
    hide(skip_end); hide(lex); hide(q_port); hide(m_port);
    u_call(Rl::node_id, s, i, At::N);
    broadcast use {vals, kid_at, qs, q_id_b};
    let j = q_id(s, i, n.0);
    if n.1 is Some { q_port_b(s, j, n.1->0); }
    c_id(s, i, n.0);
    match n.1 { None => { f_port(s, j); }, Some(p) => { c_port(s, j, p); } }
}
pub broadcast proof fn q_port_b(s: Txt, i: int, p: Port) requires q_port(s, i, p) >= 0 ensures 0 <= i < #[trigger] q_port(s, i, p), ok_at(s, q_port(s, i, p)) { hide(skip_end); hide(lex); broadcast use {qs, q_id_b}; }
pub broadcast proof fn q_nid_b(s: Txt, i: int, n: NodeId) requires q_nid(s, i, n) >= 0 ensures 0 <= i < #[trigger] q_nid(s, i, n), ok_at(s, q_nid(s, i, n)), starts(s, i) { hide(skip_end); hide(lex); broadcast use {qs, q_id_b, q_port_b}; }
pub broadcast proof fn q_bare_b(s: Txt, i: int, a: Attribute) requires q_bare(s, i, a) >= 0 ensures 0 <= i < #[trigger] q_bare(s, i, a), ok_at(s, q_bare(s, i, a)), starts(s, i) { hide(skip_end); hide(lex); broadcast use {qs, q_id_b}; }
pub broadcast proof fn q_attr_b(s: Txt, i: int, a: Attribute) requires q_attr(s, i, a) >= 0 ensures 0 <= i < #[trigger] q_attr(s, i, a), ok_at(s, q_attr(s, i, a)), starts(s, i) { hide(skip_end); hide(lex); broadcast use {qs, q_bare_b}; let j = q_bare(s, i, a); assert(j >= 0); b_skip(s, j + 1); skip_skip(s, j + 1); }
pub proof fn c_bare(s: Txt, i: int, a: Attribute) requires ok_at(s, i), q_bare(s, i, a) >= 0
    ensures ({ let r = val(G::Call(Rl::bare_attr), s, i, At::N); one(r, s, q_bare(s, i, a), Rule::bare_attr) && m_attr(r->kids[0], a) })
{
    hide(skip_end); hide(lex);
    u_call(Rl::bare_attr, s, i, At::N);
    broadcast use {vals, is_at1_b, kid_at, qs, q_id_b};
    let j = q_id(s, i, a.0);
    let k = sg(s, j, '=');
    c_id(s, i, a.0); c_id(s, k, a.1);
}
/// no attribute where something starts that no equals sign follows
pub proof fn f_bare(s: Txt, i: int) requires ok_at(s, i), starts(s, i) ==> lex(s, i) is None || !c_at(s, skip_end(s, lex(s, i)->0), '=') ensures val(G::Call(Rl::bare_attr), s, i, At::N) is Fail
{
    hide(skip_end); hide(lex);
    u_call(Rl::bare_attr, s, i, At::N);
    broadcast use {vals, is_at1_b, qs};
    if starts(s, i) { w_id(s, i); } else { f_id(s, i); }
}
pub proof fn c_attr(s: Txt, i: int, a: Attribute) requires ok_at(s, i), q_attr(s, i, a) >= 0
    ensures ({ let r = val(G::Call(Rl::attr), s, i, At::N); one(r, s, q_attr(s, i, a), Rule::attr) && m_attr(r->kids[0].kids[0], a) })
{
    hide(skip_end); hide(lex); hide(q_bare); hide(m_attr);
    u_call(Rl::attr, s, i, At::N);
    broadcast use {vals, is_at1_b, kid_at, qs, q_bare_b};
    let j = q_bare(s, i, a); b_skip(s, j + 1); skip_skip(s, j + 1);
    c_bare(s, i, a);
}
pub proof fn f_attr(s: Txt, i: int) requires ok_at(s, i), !starts(s, i) ensures val(G::Call(Rl::attr), s, i, At::N) is Fail
{ hide(skip_end); u_call(Rl::attr, s, i, At::N); broadcast use vals; f_bare(s, i); }
// attributes in brackets
/// some attributes, up to j
pub open spec fn m_some(k: Seq<Tree>, v: Seq<Attribute>, m: int) -> bool { 0 <= m <= v.len() && k.len() == m && forall|q: int| 0 <= q < m ==> m_attr(#[trigger] k[q].kids[0], v[q]) }
pub open spec fn upto(res: Res, s: Txt, j: int) -> bool { res matches Res::Ok { j: j2, .. } && 0 <= j2 <= s.len() && skip_end(s, j2) == j }
pub open spec fn g_ax() -> G { G::Cat(Box::new(G::Call(Rl::skip)), Box::new(G::Call(Rl::attr))) }
pub broadcast proof fn q_in_b(s: Txt, i: int, v: Seq<Attribute>) requires q_in(s, i, v) >= 0 ensures 0 <= i < #[trigger] q_in(s, i, v), ok_at(s, q_in(s, i, v)), !c_at(s, q_in(s, i, v), '[') decreases s.len() - i {
    hide(lex); hide(q_attr); hide(skip_end); reveal_with_fuel(q_in, 2);
    assert(0 <= i < s.len());
    b_skip(s, i + 1); skip_skip(s, i + 1);
    if s[i] == ']' { let j = skip_end(s, i + 1); if c_at(s, j, '[') { let k = skip_end(s, j + 1); assert(k > i); q_in_b(s, k, v); } }
    else if v.len() > 0 { let k = q_attr(s, i, v[0]); assert(k > i); q_in_b(s, k, v.skip(1)); }
}
/// the rest of the attributes of one pair of brackets; i0: before the blanks
pub proof fn c_as(s: Txt, i0: int, i: int, v: Seq<Attribute>) -> (mp: (int, int))
    requires 0 <= i0 <= s.len(), skip_end(s, i0) == i, ok_at(s, i), q_in(s, i, v) >= 0
    ensures ({ let (m, p) = mp; let r = val(G::Star(Box::new(g_ax())), s, i0, At::N);
        0 <= m <= v.len() && upto(r, s, p) && ok_at(s, p) && p >= i && m_some(r->kids, v, m) && c_at(s, p, ']') && q_in(s, p, v.skip(m)) == q_in(s, i, v) })
    decreases s.len() - i
{
    hide(skip_end); hide(lex); hide(q_attr); hide(m_attr);
    u_star(Box::new(g_ax()), s, i0, At::N); u_cat(Box::new(G::Call(Rl::skip)), Box::new(G::Call(Rl::attr)), s, i0, At::N);
    broadcast use {qs, kid_at, q_attr_b, kid_norm};
    if s[i] == ']' { f_attr(s, i); assert(v.skip(0) =~= v); (0, i) }
    else {
        let j = q_attr(s, i, v[0]);
        q_in_b(s, i, v); c_attr(s, i, v[0]);
        let r = val(G::Call(Rl::attr), s, i, At::N);
        val_goes(G::Call(Rl::attr), s, i, At::N); assert(nn(G::Call(Rl::attr)));
        let (m, p) = c_as(s, r->j, j, v.skip(1));
        assert(v.skip(1).skip(m) =~= v.skip(m + 1));
        let rs = val(G::Star(Box::new(g_ax())), s, r->j, At::N);
        assert forall|q: int| 0 <= q < m + 1 implies m_attr(#[trigger] kc(r->kids, rs->kids)[q].kids[0], v[q]) by { if q > 0 { assert(m_attr(rs->kids[q - 1].kids[0], v.skip(1)[q - 1])); } }
        (m + 1, p)
    }
}
/// one pair of brackets
pub proof fn c_grp(s: Txt, i: int, v: Seq<Attribute>) -> (mp: (int, int))
    requires ok_at(s, i), q_al(s, i, v) >= 0
    ensures ({ let (m, p) = mp; let r = val(g_grp(), s, i, At::N);
        0 <= m <= v.len() && upto(r, s, p) && r->j > i && ok_at(s, p) && m_some(r->kids, v, m)
        && if c_at(s, p, '[') { q_al(s, p, v.skip(m)) == q_al(s, i, v) } else { m == v.len() && p == q_al(s, i, v) } })
{
    hide(skip_end); hide(lex); hide(m_attr); hide(q_attr);
    broadcast use {vals, is_at1_b, kid_at, qs, q_attr_b};
    let b = sg(s, i, '[');
    if s[b] == ']' {
        f_attr(s, b); assert(v.skip(0) =~= v); b_skip(s, b + 1); skip_skip(s, b + 1);
        (0, skip_end(s, b + 1))
    } else {
        let j = q_attr(s, b, v[0]);
        q_in_b(s, b, v); c_attr(s, b, v[0]);
        let r = val(G::Call(Rl::attr), s, b, At::N);
        let (m, p) = c_as(s, r->j, j, v.skip(1));
        assert(v.skip(1).skip(m) =~= v.skip(m + 1));
        let rs = val(G::Star(Box::new(g_ax())), s, r->j, At::N);
        assert forall|q: int| 0 <= q < m + 1 implies m_attr(#[trigger] kc(r->kids, rs->kids)[q].kids[0], v[q]) by { if q > 0 { assert(m_attr(rs->kids[q - 1].kids[0], v.skip(1)[q - 1])); } }
        b_skip(s, p + 1); skip_skip(s, p + 1);
        (m + 1, skip_end(s, p + 1))
    }
}
pub proof fn f_grp(s: Txt, i: int) requires ok_at(s, i), !c_at(s, i, '[') ensures val(g_grp(), s, i, At::N) is Fail, val(G::Call(Rl::attr_list), s, i, At::N) is Fail
{ hide(skip_end); hide(lex); u_call(Rl::attr_list, s, i, At::N); assert(g_attr_list() == G::Tag(Rule::attr_list, Box::new(g_al()))); broadcast use {vals, is_at1_b}; }
/// more pairs of brackets
pub proof fn c_grps(s: Txt, i0: int, i: int, v: Seq<Attribute>, d: int)
    requires 0 <= i0 <= s.len(), skip_end(s, i0) == i, ok_at(s, i), if c_at(s, i, '[') { q_al(s, i, v) >= 0 && d == q_al(s, i, v) } else { v.len() == 0 && d == i }
    ensures ({ let r = val(G::Star(Box::new(g_sg())), s, i0, At::N); upto(r, s, d) && m_some(r->kids, v, v.len() as int) })
    decreases s.len() - i
{
    hide(skip_end); hide(lex); hide(q_attr); hide(m_attr); hide(q_al);
    u_star(Box::new(g_sg()), s, i0, At::N); u_cat(Box::new(G::Call(Rl::skip)), Box::new(g_grp()), s, i0, At::N);
    broadcast use {qs, kid_at, kid_norm};
    if c_at(s, i, '[') {
        let (m, p) = c_grp(s, i, v);
        let r = val(g_grp(), s, i, At::N);
        b_skip(s, r->j);
        c_grps(s, r->j, p, v.skip(m), d);
        let rs = val(G::Star(Box::new(g_sg())), s, r->j, At::N);
        assert forall|q: int| 0 <= q < v.len() implies m_attr(#[trigger] kc(r->kids, rs->kids)[q].kids[0], v[q]) by { if q >= m { assert(m_attr(rs->kids[q - m].kids[0], v.skip(m)[q - m])); } else { assert(m_attr(r->kids[q].kids[0], v[q])); } }
    } else { f_grp(s, i); }
}
pub broadcast proof fn q_al_b(s: Txt, i: int, v: Seq<Attribute>) requires q_al(s, i, v) >= 0 ensures 0 <= i < #[trigger] q_al(s, i, v), ok_at(s, q_al(s, i, v)), !c_at(s, q_al(s, i, v), '['), c_at(s, i, '[') { hide(skip_end); hide(lex); hide(q_attr); broadcast use {qs, q_in_b}; }
pub proof fn c_al(s: Txt, i: int, v: Seq<Attribute>)
    requires ok_at(s, i), q_al(s, i, v) >= 0
    ensures ({ let r = val(G::Call(Rl::attr_list), s, i, At::N); one(r, s, q_al(s, i, v), Rule::attr_list) && m_attrs(r->kids[0], v) })
{
    hide(skip_end); hide(lex); hide(q_attr); hide(m_attr); hide(q_al);
    u_call(Rl::attr_list, s, i, At::N); assert(g_attr_list() == G::Tag(Rule::attr_list, Box::new(g_al())));
    broadcast use {qs, kid_at, kid_norm};
    q_al_b(s, i, v);
    u_tag(Rule::attr_list, Box::new(g_al()), s, i, At::N);
    let d = q_al(s, i, v);
    let (m, p) = c_grp(s, i, v);
    let r = val(g_grp(), s, i, At::N);
    b_skip(s, r->j);
    let tl = G::Cat(Box::new(g_grp()), Box::new(G::Star(Box::new(g_sg()))));
    u_cat(Box::new(G::Cat(Box::new(g_grp()), Box::new(G::Call(Rl::skip)))), Box::new(G::Opt(Box::new(tl))), s, i, At::N);
    u_cat(Box::new(g_grp()), Box::new(G::Call(Rl::skip)), s, i, At::N);
    u_opt(Box::new(tl), s, p, At::N); u_cat(Box::new(g_grp()), Box::new(G::Star(Box::new(g_sg()))), s, p, At::N);
    let w = val(G::Call(Rl::attr_list), s, i, At::N);
    if c_at(s, p, '[') {
        let x = v.skip(m);
        q_al_b(s, p, x);
        let (m2, p2) = c_grp(s, p, x);
        let r2 = val(g_grp(), s, p, At::N);
        b_skip(s, r2->j);
        c_grps(s, r2->j, p2, x.skip(m2), d);
        let rs = val(G::Star(Box::new(g_sg())), s, r2->j, At::N);
        let ks = kc(r->kids, kc(r2->kids, rs->kids));
        assert(x.skip(m2) =~= v.skip(m + m2));
        assert(w->kids[0].kids == ks);
        assert forall|q: int| 0 <= q < v.len() implies m_attr(ks[q].kids[0], #[trigger] v[q]) by {
            if q < m { assert(m_attr(r->kids[q].kids[0], v[q])); }
            else if q < m + m2 { assert(m_attr(r2->kids[q - m].kids[0], x[q - m])); }
            else { assert(m_attr(rs->kids[q - m - m2].kids[0], x.skip(m2)[q - m - m2])); }
        }
    } else {
        f_grp(s, p);
        assert(w->kids[0].kids == r->kids);
        assert forall|q: int| 0 <= q < v.len() implies m_attr(r->kids[q].kids[0], #[trigger] v[q]) by { assert(m_attr(r->kids[q].kids[0], v[q])); }
    }
}

/// the edge operator
pub proof fn arr_val(s: Txt, i: int) requires ok_at(s, i)
    ensures match val(G::Call(Rl::arr), s, i, At::N) { Res::Ok { j, kids, .. } => arr_at(s, i) && j == i + 2 && j <= s.len() && kids == k0() && skip_end(s, j) == q_arr(s, i), Res::Fail => !arr_at(s, i), Res::Out => false }
{ hide(skip_end); hide(lex); u_call(Rl::arr, s, i, At::N); broadcast use {vals, is_at2_b}; }
/// what comes after a statement
pub open spec fn after(s: Txt, j: int) -> bool { !c_at(s, j, ':') && !c_at(s, j, '=') && !c_at(s, j, '[') && !arr_at(s, j) }
pub broadcast proof fn q_oal_b(s: Txt, i: int, v: Seq<Attribute>) requires q_oal(s, i, v) >= 0, ok_at(s, i) ensures 0 <= i <= #[trigger] q_oal(s, i, v), ok_at(s, q_oal(s, i, v)), c_at(s, i, '[') || (q_oal(s, i, v) == i && v.len() == 0), !c_at(s, q_oal(s, i, v), '[') { hide(skip_end); hide(q_al); broadcast use q_al_b; }
pub proof fn q_oal_neg(s: Txt, i: int, v: Seq<Attribute>) requires q_oal(s, i, v) >= 0 ensures i >= 0 { hide(skip_end); hide(q_al); broadcast use q_al_b; }
pub proof fn c_attr_stmt(s: Txt, i: int, g: GraphAttributes) requires ok_at(s, i), q_gattr(s, i, g) >= 0
    ensures ({ let r = val(G::Call(Rl::attr_stmt), s, i, At::N); one(r, s, q_gattr(s, i, g), Rule::attr_stmt) && m_gattr(r->kids[0], g) }), q_gattr(s, i, g) > i, ok_at(s, q_gattr(s, i, g)), starts(s, i)
{
    hide(skip_end); hide(lex); hide(q_al); hide(m_attrs);
    u_call(Rl::attr_stmt, s, i, At::N);
    broadcast use {vals, kid_at, qs, q_al_b};
    leaf_val(Rl::attr_mark, s, i); kw_lens(); b_lex(s, i);
    let (w, v) = match g { GraphAttributes::Graph(v) => (k_graph(), v@), GraphAttributes::Node(v) => (k_node(), v@), GraphAttributes::Edge(v) => (k_edge(), v@) };
    assert(mark(w)); let j = wd(s, i, w); q_al_b(s, j, v); assert(j >= 0);
    c_al(s, j, v); kw_letters();
}
pub proof fn kw_letters() ensures k_graph().len() > 0, k_node().len() > 0, k_edge().len() > 0, k_subgraph().len() > 0, w0(k_graph()[0]), w0(k_node()[0]), w0(k_edge()[0]), w0(k_subgraph()[0]), is_plain(k_subgraph()) { 
    assert(k_subgraph()[0] == 's'); assert(e().push('-').push('>')[0] == '-'); assert(e().push('-').push('-')[0] == '-');
}
/// no attributes of all nodes here
pub proof fn f_attr_stmt(s: Txt, i: int) requires ok_at(s, i), !mark_head(s, i) ensures val(G::Call(Rl::attr_stmt), s, i, At::N) is Fail
{
    hide(skip_end); hide(lex);
    u_call(Rl::attr_stmt, s, i, At::N);
    broadcast use {vals, kid_at, qs};
    leaf_val(Rl::attr_mark, s, i); b_lex(s, i);
    match lex(s, i) { Some(x) => { if mark(s.subrange(i, x)) { f_grp(s, skip_end(s, x)); } }, None => {} }
}
pub proof fn f_body(s: Txt, i: int) requires ok_at(s, i), !c_at(s, i, '{') ensures val(G::Call(Rl::body), s, i, At::N) is Fail
{ hide(skip_end); u_call(Rl::body, s, i, At::N); broadcast use {vals, is_at1_b}; }
/// no subgraph here
pub proof fn f_sub(s: Txt, i: int) requires ok_at(s, i), !sub_head(s, i) ensures val(G::Call(Rl::subgraph), s, i, At::N) is Fail
{
    hide(skip_end); hide(lex);
    u_call(Rl::subgraph, s, i, At::N);
    broadcast use {vals, kid_at, qs};
    subg_val(s, i); b_lex(s, i);
    let j = wd(s, i, k_subgraph());
    if j >= 0 {
        f_body(s, j);
        if starts(s, j) { w_id(s, j); b_lex(s, j); match lex(s, j) { Some(x) => { b_skip(s, x); skip_skip(s, x); f_body(s, skip_end(s, x)); }, None => {} } } else { f_id(s, j); }
    }
}
pub proof fn f_vertex(s: Txt, i: int) requires ok_at(s, i), !starts(s, i) ensures val(G::Call(Rl::vertex), s, i, At::N) is Fail, val(G::Call(Rl::node_id), s, i, At::N) is Fail
{
    hide(skip_end);
    u_call(Rl::vertex, s, i, At::N); u_call(Rl::node_id, s, i, At::N);
    broadcast use {vals, qs};
    no_words(s, i); f_sub(s, i); f_id(s, i);
}
pub proof fn no_words(s: Txt, i: int) requires ok_at(s, i), !starts(s, i) ensures !sub_head(s, i), !mark_head(s, i)
{ hide(skip_end); hide(lex); kw_letters(); broadcast use qs; }
pub proof fn f_stmt(s: Txt, i: int) requires ok_at(s, i), !starts(s, i) ensures val(G::Call(Rl::stmt), s, i, At::N) is Fail
{
    hide(skip_end);
    no_words(s, i); f_attr_stmt(s, i); f_sub(s, i); f_bare(s, i); f_vertex(s, i);
    u_call(Rl::stmt, s, i, At::N); u_call(Rl::edge_stmt, s, i, At::N); u_call(Rl::edge, s, i, At::N); u_call(Rl::node, s, i, At::N);
    broadcast use {vals};
}

pub broadcast proof fn q_gattr_b(s: Txt, i: int, g: GraphAttributes) requires q_gattr(s, i, g) >= 0 ensures 0 <= i < #[trigger] q_gattr(s, i, g), ok_at(s, q_gattr(s, i, g)), starts(s, i)
{
    hide(skip_end); hide(lex); hide(q_al); broadcast use {qs, q_al_b}; kw_letters();
    let (w, v) = match g { GraphAttributes::Graph(v) => (k_graph(), v@), GraphAttributes::Node(v) => (k_node(), v@), GraphAttributes::Edge(v) => (k_edge(), v@) };
    let j = wd(s, i, w); q_al_b(s, j, v); assert(j >= 0);
}
pub broadcast proof fn q_node_b(s: Txt, i: int, n: Node) requires q_node(s, i, n) >= 0 ensures 0 <= i < #[trigger] q_node(s, i, n), ok_at(s, q_node(s, i, n)), starts(s, i)
{ hide(skip_end); hide(lex); hide(q_nid); hide(q_oal); let j = q_nid(s, i, n.id); q_oal_neg(s, j, n.attributes@); q_nid_b(s, i, n.id); q_oal_b(s, j, n.attributes@); }
// where writings end, and what they start with
pub broadcast proof fn q_vertex_b(s: Txt, i: int, v: Vertex) requires q_vertex(s, i, v) >= 0 ensures 0 <= i < #[trigger] q_vertex(s, i, v), ok_at(s, q_vertex(s, i, v)), starts(s, i) decreases v, 0nat
{ hide(skip_end); hide(lex); hide(q_nid); match v { Vertex::N(n) => { q_nid_b(s, i, n); }, Vertex::S(g) => { q_subg_b(s, i, g); } } }
pub proof fn q_tails_b(s: Txt, i: int, v: Vec<Vertex>, k: int) requires q_tails(s, i, v, k) >= 0, 0 <= k ensures 0 <= i <= q_tails(s, i, v, k), ok_at(s, i) ==> ok_at(s, q_tails(s, i, v, k)), k < v@.len() ==> arr_at(s, i) decreases v, v@.len() - k
{
    hide(skip_end); hide(lex);
    if k < v@.len() {
        let a = q_arr(s, i); let j = q_vertex(s, a, v@[k]);
        q_tails_b(s, j, v, k + 1);
        q_vertex_b(s, a, v@[k]); q_arr_b(s, i);
    }
}
pub broadcast proof fn q_ends_b(s: Txt, i: int, e: EdgeTy) requires q_ends(s, i, e) >= 0 ensures 0 <= i < #[trigger] q_ends(s, i, e), ok_at(s, q_ends(s, i, e)), starts(s, i) decreases e, 0nat
{
    hide(skip_end); hide(lex);
    match e {
        EdgeTy::Pair(l, r) => { let j = q_vertex(s, i, l); let a = q_arr(s, j); q_vertex_b(s, a, r); q_arr_b(s, j); q_vertex_b(s, i, l); },
        EdgeTy::Chain(v) => { let j = q_vertex(s, i, v@[0]); q_tails_b(s, j, v, 1); q_vertex_b(s, i, v@[0]); },
    }
}
pub broadcast proof fn q_edge_b(s: Txt, i: int, e: Edge) requires q_edge(s, i, e) >= 0 ensures 0 <= i < #[trigger] q_edge(s, i, e), ok_at(s, q_edge(s, i, e)), starts(s, i) decreases e, 0nat
{ hide(skip_end); hide(lex); hide(q_oal); let j = q_ends(s, i, e.ty); q_oal_neg(s, j, e.attributes@); q_ends_b(s, i, e.ty); q_oal_b(s, j, e.attributes@); }
pub broadcast proof fn q_subg_b(s: Txt, i: int, g: Subgraph) requires q_subg(s, i, g) >= 0 ensures 0 <= i < #[trigger] q_subg(s, i, g), ok_at(s, q_subg(s, i, g)), starts(s, i), sub_head(s, i) decreases g, 0nat
{
    hide(skip_end); hide(lex); broadcast use {qs}; kw_letters();
    let j = wd(s, i, k_subgraph());
    let k = if g.id is Anonymous { j } else { q_id(s, j, g.id) };
    q_body_b(s, k, g.stmts);
    if !(g.id is Anonymous) { q_id_b(s, j, g.id); }
}
pub broadcast proof fn q_body_b(s: Txt, i: int, v: Vec<Stmt>) requires q_body(s, i, v) >= 0 ensures 0 <= i < #[trigger] q_body(s, i, v), ok_at(s, q_body(s, i, v)), c_at(s, i, '{') decreases v, v@.len() + 1
{ hide(skip_end); hide(lex); broadcast use {qs}; let j = sg(s, i, '{'); q_sts_b(s, j, v, 0); }
pub proof fn q_sts_b(s: Txt, i: int, v: Vec<Stmt>, k: int) requires q_sts(s, i, v, k) >= 0, 0 <= k, c_at(s, q_sts(s, i, v, k), '}') ensures 0 <= i <= q_sts(s, i, v, k), ok_at(s, i) ==> ok_at(s, q_sts(s, i, v, k)), k < v@.len() ==> starts(s, i), k >= v@.len() ==> c_at(s, i, '}') decreases v, v@.len() - k
{
    hide(skip_end); hide(lex);
    if k < v@.len() {
        let j = q_stmt(s, i, v@[k]); let m = q_sep(s, j, ';');
        q_sts_b(s, m, v, k + 1);
        assert(j >= 0);
        q_stmt_b(s, i, v@[k]); q_sep_b(s, j, ';');
    }
}
pub broadcast proof fn q_stmt_b(s: Txt, i: int, t: Stmt) requires q_stmt(s, i, t) >= 0 ensures 0 <= i < #[trigger] q_stmt(s, i, t), ok_at(s, q_stmt(s, i, t)), starts(s, i) decreases t, 0nat
{
    hide(skip_end); hide(lex);
    match t { Stmt::Node(n) => { q_node_b(s, i, n); }, Stmt::Subgraph(g) => { q_subg_b(s, i, g); }, Stmt::Attribute(a) => { q_bare_b(s, i, a); }, Stmt::GAttribute(g) => { q_gattr_b(s, i, g); }, Stmt::Edge(e) => { q_edge_b(s, i, e); } }
}


/// what stands at the start of an id
pub proof fn q_id_lex(s: Txt, i: int, d: Id) requires q_id(s, i, d) >= 0 ensures lex(s, i) is Some, q_id(s, i, d) == skip_end(s, lex(s, i)->0) { hide(skip_end); hide(lex); }
pub proof fn c_stmt_node(s: Txt, i: int, n: Node)
    requires ok_at(s, i), q_node(s, i, n) >= 0, after(s, q_node(s, i, n))
    ensures val(G::Call(Rl::attr_stmt), s, i, At::N) is Fail, val(G::Call(Rl::subgraph), s, i, At::N) is Fail, val(G::Call(Rl::bare_attr), s, i, At::N) is Fail, val(G::Call(Rl::edge_stmt), s, i, At::N) is Fail
{
    hide(skip_end); hide(lex); hide(q_al); hide(q_id); hide(q_port);
    let j = q_nid(s, i, n.id); let v = n.attributes@;
    q_oal_neg(s, j, v); q_nid_b(s, i, n.id); q_oal_b(s, j, v);
    f_attr_stmt(s, i); f_sub(s, i);
    let k = q_id(s, i, n.id.0);
    if n.id.1 is Some { q_port_b(s, k, n.id.1->0); q_port_c(s, k, n.id.1->0); }
    q_id_lex(s, i, n.id.0); f_bare(s, i);
    u_call(Rl::edge_stmt, s, i, At::N); u_call(Rl::edge, s, i, At::N); u_call(Rl::vertex, s, i, At::N);
    c_nid(s, i, n.id); f_tail(s, j);
    broadcast use {vals, qs};
}
pub proof fn q_port_c(s: Txt, i: int, p: Port) requires q_port(s, i, p) >= 0 ensures c_at(s, i, ':') { hide(skip_end); hide(lex); broadcast use {qs, q_id_b}; }
pub proof fn sub_not_mark(s: Txt, i: int) requires sub_head(s, i) ensures !mark_head(s, i) { hide(skip_end); hide(lex); kw_differ(); }
pub proof fn kw_differ() ensures k_subgraph() != k_graph(), k_subgraph() != k_node(), k_subgraph() != k_edge(), k_graph() != k_node(), k_graph() != k_edge(), k_node() != k_edge(), k_strict() != k_graph(), k_strict() != k_digraph() {
    kw_lens(); assert(k_graph()[0] == 'g' && k_node()[0] == 'n' && k_edge()[0] == 'e' && k_strict()[0] == 's' && k_digraph()[0] == 'd');
}
pub proof fn c_stmt_bare(s: Txt, i: int, a: Attribute)
    requires ok_at(s, i), q_bare(s, i, a) >= 0
    ensures val(G::Call(Rl::attr_stmt), s, i, At::N) is Fail, val(G::Call(Rl::subgraph), s, i, At::N) is Fail
{
    hide(skip_end); hide(lex); hide(q_id);
    broadcast use {qs, q_id_b};
    let j = q_id(s, i, a.0); let k = sg(s, j, '='); assert(k >= 0);
    q_id_lex(s, i, a.0);
    f_attr_stmt(s, i); f_sub(s, i);
}
pub proof fn f_tail(s: Txt, i: int) requires ok_at(s, i), !arr_at(s, i) ensures val(G::Call(Rl::edge_tail), s, i, At::N) is Fail { u_call(Rl::edge_tail, s, i, At::N); arr_val(s, i); broadcast use vals; }
// ---- the rules that contain each other ----
pub proof fn c_vertex(s: Txt, i: int, v: Vertex) requires ok_at(s, i), q_vertex(s, i, v) >= 0, !c_at(s, q_vertex(s, i, v), ':')
    ensures ({ let r = val(G::Call(Rl::vertex), s, i, At::N); one(r, s, q_vertex(s, i, v), Rule::vertex) && m_vertex(r->kids[0], v) })
    decreases v, 0nat, 0nat
{
    hide(skip_end); hide(lex); hide(q_nid); hide(m_nid);
    u_call(Rl::vertex, s, i, At::N);
    broadcast use {vals, kid_at};
    match v { Vertex::N(n) => { f_sub(s, i); c_nid(s, i, n); }, Vertex::S(g) => { c_sub(s, i, g); } }
}
pub proof fn c_tail(s: Txt, i: int, v: Vertex) requires ok_at(s, i), arr_at(s, i), q_vertex(s, q_arr(s, i), v) >= 0, !c_at(s, q_vertex(s, q_arr(s, i), v), ':')
    ensures ({ let r = val(G::Call(Rl::edge_tail), s, i, At::N); one(r, s, q_vertex(s, q_arr(s, i), v), Rule::edge_tail) && r->j > i && r->kids[0].kids.len() > 0 && m_vertex(r->kids[0].kids[0], v) })
    decreases v, 1nat, 0nat
{
    hide(skip_end); hide(lex);
    u_call(Rl::edge_tail, s, i, At::N);
    broadcast use {vals, kid_at, qs};
    arr_val(s, i); let j = q_arr(s, i); 
    c_vertex(s, j, v);
    val_goes(G::Call(Rl::edge_tail), s, i, At::N); assert(nn(G::Call(Rl::edge_tail)));
}
pub open spec fn g_tx() -> G { G::Cat(Box::new(G::Call(Rl::skip)), Box::new(G::Call(Rl::edge_tail))) }
pub open spec fn m_from(t: Seq<Tree>, v: Seq<Vertex>, k: int) -> bool { t.len() == v.len() - k && forall|q: int| 0 <= q < t.len() ==> (#[trigger] t[q]).kids.len() > 0 && m_vertex(t[q].kids[0], v[q + k]) }
pub proof fn c_tails(s: Txt, i0: int, i: int, v: Vec<Vertex>, k: int)
    requires 0 <= i0 <= s.len(), skip_end(s, i0) == i, ok_at(s, i), 1 <= k <= v@.len(), q_tails(s, i, v, k) >= 0, after(s, q_tails(s, i, v, k)) || c_at(s, q_tails(s, i, v, k), '[')
    ensures ({ let r = val(G::Star(Box::new(g_tx())), s, i0, At::N); upto(r, s, q_tails(s, i, v, k)) && m_from(r->kids, v@, k) })
    decreases v, v@.len() - k, 0nat
{
    hide(skip_end); hide(lex);
    u_star(Box::new(g_tx()), s, i0, At::N); u_cat(Box::new(G::Call(Rl::skip)), Box::new(G::Call(Rl::edge_tail)), s, i0, At::N);
    broadcast use {qs, kid_at, kid_norm};
    if k < v@.len() {
        let a = q_arr(s, i); let j = q_vertex(s, a, v@[k]);
        q_tails_b(s, i, v, k); q_tails_b(s, j, v, k + 1); q_vertex_b(s, a, v@[k]);
        c_tail(s, i, v@[k]);
        let r = val(G::Call(Rl::edge_tail), s, i, At::N);
        c_tails(s, r->j, j, v, k + 1);
        let rs = val(G::Star(Box::new(g_tx())), s, r->j, At::N);
        assert forall|q: int| 0 <= q < v@.len() - k implies (#[trigger] kc(r->kids, rs->kids)[q]).kids.len() > 0 && m_vertex(kc(r->kids, rs->kids)[q].kids[0], v@[q + k]) by { if q > 0 { assert(rs->kids[q - 1].kids.len() > 0 && m_vertex(rs->kids[q - 1].kids[0], v@[q - 1 + k + 1])); } }
    } else { f_tail(s, i); }
}
/// the vertices of an edge as a sequence
pub open spec fn verts(e: EdgeTy) -> Seq<Vertex> { match e { EdgeTy::Pair(l, r) => seq![l, r], EdgeTy::Chain(v) => v@ } }
pub proof fn c_edge(s: Txt, i: int, e: EdgeTy)
    requires ok_at(s, i), q_ends(s, i, e) >= 0, after(s, q_ends(s, i, e)) || c_at(s, q_ends(s, i, e), '[')
    ensures ({ let r = val(G::Call(Rl::edge), s, i, At::N); one(r, s, q_ends(s, i, e), Rule::edge) && m_ends(r->kids[0], verts(e)) })
    decreases e, 1nat, 0nat
{ match e { EdgeTy::Pair(l, r) => c_pair(s, i, e, l, r), EdgeTy::Chain(v) => c_chain(s, i, e, v) } }
pub proof fn c_pair(s: Txt, i: int, e: EdgeTy, l: Vertex, r: Vertex)
    requires e == EdgeTy::Pair(l, r), ok_at(s, i), q_ends(s, i, e) >= 0, after(s, q_ends(s, i, e)) || c_at(s, q_ends(s, i, e), '[')
    ensures ({ let r = val(G::Call(Rl::edge), s, i, At::N); one(r, s, q_ends(s, i, e), Rule::edge) && m_ends(r->kids[0], verts(e)) })
    decreases e, 0nat, 0nat
{
    hide(skip_end); hide(lex); hide(q_arr);
    u_call(Rl::edge, s, i, At::N);
    broadcast use {vals, kid_at, kid_norm};
    let w = val(G::Call(Rl::edge), s, i, At::N);
    let j = q_vertex(s, i, l); let a = q_arr(s, j); let m = q_vertex(s, a, r);
    q_vertex_b(s, a, r); q_arr_b(s, j); q_vertex_b(s, i, l);
    reveal(q_arr); c_vertex(s, i, l); c_tail(s, j, r); f_tail(s, m);
    let r0 = val(G::Call(Rl::vertex), s, i, At::N); let r1 = val(G::Call(Rl::edge_tail), s, j, At::N);
    skip_b(s, r0->j); skip_b(s, r1->j);
    let vs = verts(e);
    assert(w->kids[0].kids == kc(r0->kids, r1->kids));
    assert(vs[0] == l && vs[1] == r);
}
pub proof fn c_chain(s: Txt, i: int, e: EdgeTy, v: Vec<Vertex>)
    requires e == EdgeTy::Chain(v), ok_at(s, i), q_ends(s, i, e) >= 0, after(s, q_ends(s, i, e)) || c_at(s, q_ends(s, i, e), '[')
    ensures ({ let r = val(G::Call(Rl::edge), s, i, At::N); one(r, s, q_ends(s, i, e), Rule::edge) && m_ends(r->kids[0], verts(e)) })
    decreases e, 0nat, 0nat
{
    hide(skip_end); hide(lex); 
    u_call(Rl::edge, s, i, At::N);
    let w = val(G::Call(Rl::edge), s, i, At::N);
    let j = q_vertex(s, i, v@[0]); let a = q_arr(s, j); let m = q_vertex(s, a, v@[1]); let a2 = q_arr(s, m); let m2 = q_vertex(s, a2, v@[2]);
    reveal_with_fuel(q_tails, 4);
    q_tails_b(s, j, v, 1); q_vertex_b(s, i, v@[0]); q_tails_b(s, m, v, 2); q_vertex_b(s, a, v@[1]); q_tails_b(s, m2, v, 3); q_vertex_b(s, a2, v@[2]);
    c_vertex(s, i, v@[0]); c_tail(s, j, v@[1]); c_tail(s, m, v@[2]);
    let r0 = val(G::Call(Rl::vertex), s, i, At::N); let r1 = val(G::Call(Rl::edge_tail), s, j, At::N);
    let r2 = val(G::Call(Rl::edge_tail), s, m, At::N);
    skip_b(s, r0->j); skip_b(s, r1->j); skip_b(s, r2->j);
    c_tails(s, r2->j, m2, v, 3);
    let rs = val(G::Star(Box::new(g_tx())), s, r2->j, At::N);
    let ks = w->kids[0].kids;
    broadcast use {vals, kid_at, kid_norm};
    assert(ks == kc(kc(kc(r0->kids, r1->kids), r2->kids), rs->kids));
    assert forall|q: int| 0 <= q < ks.len() implies (if q == 0 { m_vertex(ks[q], #[trigger] v@[q]) } else { ks[q].kids.len() > 0 && m_vertex(ks[q].kids[0], v@[q]) }) by {
        if q > 2 { assert(rs->kids[q - 3].kids.len() > 0 && m_vertex(rs->kids[q - 3].kids[0], v@[q - 3 + 3])); }
    }
}
pub proof fn c_edge_stmt(s: Txt, i: int, e: Edge)
    requires ok_at(s, i), q_edge(s, i, e) >= 0, after(s, q_edge(s, i, e))
    ensures ({ let r = val(G::Call(Rl::edge_stmt), s, i, At::N); one(r, s, q_edge(s, i, e), Rule::edge_stmt) && m_edge(r->kids[0], e) })
    decreases e, 0nat, 0nat
{
    hide(skip_end); hide(lex); hide(q_al);
    u_call(Rl::edge_stmt, s, i, At::N);
    broadcast use {vals, kid_at, qs, kid_norm};
    let j = q_ends(s, i, e.ty); let v = e.attributes@;
    q_oal_neg(s, j, v); q_ends_b(s, i, e.ty); q_oal_b(s, j, v);
    c_edge(s, i, e.ty);
    let w = val(G::Call(Rl::edge), s, i, At::N);
    if c_at(s, j, '[') { c_al(s, j, v); } else { f_grp(s, j); }
    match e.ty { EdgeTy::Chain(c) => { assert(c@.len() > 2); assert(w->kids[0].kids.len() > 2); }, _ => {} }
}
pub proof fn c_node(s: Txt, i: int, n: Node)
    requires ok_at(s, i), q_node(s, i, n) >= 0, after(s, q_node(s, i, n))
    ensures ({ let r = val(G::Call(Rl::node), s, i, At::N); one(r, s, q_node(s, i, n), Rule::node) && m_node(r->kids[0], n) })
{
    hide(skip_end); hide(lex); hide(q_nid); hide(q_al); hide(m_nid); hide(m_attrs);
    u_call(Rl::node, s, i, At::N);
    broadcast use {vals, kid_at, qs, kid_norm};
    let j = q_nid(s, i, n.id); let v = n.attributes@;
    q_oal_neg(s, j, v); q_nid_b(s, i, n.id); q_oal_b(s, j, v);
    c_nid(s, i, n.id);
    if c_at(s, j, '[') {
        c_al(s, j, v); 
        let r = val(G::Call(Rl::attr_list), s, j, At::N); let x = G::Cat(Box::new(G::Call(Rl::skip)), Box::new(G::Call(Rl::attr_list)));
        f_grp(s, q_al(s, j, v)); u_star(Box::new(x), s, r->j, At::N);
    } else { f_grp(s, j); }
}
pub proof fn c_sub(s: Txt, i: int, g: Subgraph)
    requires ok_at(s, i), q_subg(s, i, g) >= 0
    ensures ({ let r = val(G::Call(Rl::subgraph), s, i, At::N); one(r, s, q_subg(s, i, g), Rule::subgraph) && m_sub(r->kids[0], g) })
    decreases g, 0nat, 0nat
{
    hide(skip_end); hide(lex); hide(m_id); hide(q_id);
    u_call(Rl::subgraph, s, i, At::N);
    broadcast use {vals, kid_at, qs, kid_norm};
    subg_val(s, i); b_lex(s, i);
    let j = wd(s, i, k_subgraph());
    let k = if g.id is Anonymous { j } else { q_id(s, j, g.id) };
    q_body_b(s, k, g.stmts);
    if g.id is Anonymous { f_id(s, j); } else { q_id_b(s, j, g.id); c_id(s, j, g.id); }
    c_body(s, k, g.stmts);
}
pub proof fn c_body(s: Txt, i: int, v: Vec<Stmt>)
    requires ok_at(s, i), q_body(s, i, v) >= 0
    ensures ({ let r = val(G::Call(Rl::body), s, i, At::N); one(r, s, q_body(s, i, v), Rule::body) && m_body(r->kids[0], v@) })
    decreases v, v@.len() + 2, 0nat
{
    hide(skip_end); hide(lex);
    u_call(Rl::body, s, i, At::N); assert(g_body() == G::Tag(Rule::body, Box::new(g_bd())));
    broadcast use {vals, is_at1_b, kid_at, qs, kid_norm};
    let b = sg(s, i, '{'); let d = q_sts(s, b, v, 0);
    q_sts_b(s, b, v, 0);
    let w = val(G::Call(Rl::body), s, i, At::N);
    if v@.len() == 0 { f_stmt(s, b); }
    else {
        let j = q_stmt(s, b, v@[0]); let m = q_sep(s, j, ';');
        q_sts_b(s, m, v, 1); assert(j >= 0); q_stmt_b(s, b, v@[0]);
        c_st(s, b, v, 0);
        let r = val(g_st(), s, b, At::N);
        c_sts(s, r->j, m, v, 1);
        let rs = val(G::Star(Box::new(g_sst())), s, r->j, At::N);
        assert(w->kids[0].kids == kc(r->kids, rs->kids));
        assert forall|q: int| 0 <= q < v@.len() implies m_stmt(kc(r->kids, rs->kids)[q], #[trigger] v@[q]) by { if q > 0 { assert(m_stmt(rs->kids[q - 1], v@[q - 1 + 1])); } }
    }
}
/// one statement with its semicolon
pub proof fn c_st(s: Txt, i: int, v: Vec<Stmt>, k: int)
    requires ok_at(s, i), 0 <= k < v@.len(), q_sts(s, i, v, k) >= 0, c_at(s, q_sts(s, i, v, k), '}')
    ensures ({ let r = val(g_st(), s, i, At::N); upto(r, s, q_sep(s, q_stmt(s, i, v@[k]), ';')) && r->j > i && r->kids.len() == 1 && m_stmt(r->kids[0], v@[k]) })
    decreases v, v@.len() - k, 0nat
{
    hide(skip_end); hide(lex);
    broadcast use {vals, is_at1_b, kid_at, qs, kid_norm};
    let j = q_stmt(s, i, v@[k]); let m = q_sep(s, j, ';');
    q_sts_b(s, m, v, k + 1); assert(j >= 0); q_stmt_b(s, i, v@[k]);
    assert(after(s, j));
    c_stmt(s, i, v@[k]);
    val_goes(G::Call(Rl::stmt), s, i, At::N); assert(nn(G::Call(Rl::stmt)));
    val_goes(g_st(), s, i, At::N); assert(nn(g_st())) by { reveal_with_fuel(nn, 4); }
}
pub open spec fn m_stfrom(t: Seq<Tree>, v: Seq<Stmt>, k: int) -> bool { t.len() == v.len() - k && forall|q: int| 0 <= q < t.len() ==> m_stmt(#[trigger] t[q], v[q + k]) }
pub proof fn c_sts(s: Txt, i0: int, i: int, v: Vec<Stmt>, k: int)
    requires 0 <= i0 <= s.len(), skip_end(s, i0) == i, ok_at(s, i), 0 <= k <= v@.len(), q_sts(s, i, v, k) >= 0, c_at(s, q_sts(s, i, v, k), '}')
    ensures ({ let r = val(G::Star(Box::new(g_sst())), s, i0, At::N); upto(r, s, q_sts(s, i, v, k)) && m_stfrom(r->kids, v@, k) })
    decreases v, v@.len() - k, 1nat
{
    hide(skip_end); hide(lex);
    u_star(Box::new(g_sst()), s, i0, At::N); u_cat(Box::new(G::Call(Rl::skip)), Box::new(g_st()), s, i0, At::N);
    broadcast use {qs, kid_at, kid_norm};
    q_sts_b(s, i, v, k);
    if k < v@.len() {
        let j = q_stmt(s, i, v@[k]); let m = q_sep(s, j, ';');
        q_sts_b(s, m, v, k + 1); assert(j >= 0); q_stmt_b(s, i, v@[k]);
        c_st(s, i, v, k);
        let r = val(g_st(), s, i, At::N);
        c_sts(s, r->j, m, v, k + 1);
        let rs = val(G::Star(Box::new(g_sst())), s, r->j, At::N);
        assert forall|q: int| 0 <= q < v@.len() - k implies m_stmt(#[trigger] kc(r->kids, rs->kids)[q], v@[q + k]) by { if q > 0 { assert(m_stmt(rs->kids[q - 1], v@[q - 1 + k + 1])); } }
    } else { f_stmt(s, i); broadcast use vals; }
}
pub proof fn c_stmt(s: Txt, i: int, t: Stmt)
    requires ok_at(s, i), q_stmt(s, i, t) >= 0, after(s, q_stmt(s, i, t))
    ensures ({ let r = val(G::Call(Rl::stmt), s, i, At::N); one(r, s, q_stmt(s, i, t), Rule::stmt) && m_stmt(r->kids[0], t) })
    decreases t, 0nat, 0nat
{
    hide(skip_end); hide(lex); hide(q_node); hide(q_bare); hide(q_gattr); hide(m_attr); hide(m_gattr);
    u_call(Rl::stmt, s, i, At::N);
    broadcast use {vals, kid_at, qs, kid_norm};
    let w = val(G::Call(Rl::stmt), s, i, At::N); let k = q_stmt(s, i, t);
    match t {
        Stmt::Node(n) => { c_stmt_node(s, i, n); c_node(s, i, n); assert(one(w, s, k, Rule::stmt)); assert(m_stmt(w->kids[0], t)); },
        Stmt::Subgraph(g) => { q_subg_b(s, i, g); sub_not_mark(s, i); f_attr_stmt(s, i); c_sub(s, i, g); arr_val(s, q_subg(s, i, g)); assert(one(w, s, k, Rule::stmt)); assert(m_stmt(w->kids[0], t)); },
        Stmt::Attribute(a) => { q_bare_b(s, i, a); c_stmt_bare(s, i, a); c_bare(s, i, a); assert(one(w, s, k, Rule::stmt)); assert(m_stmt(w->kids[0], t)); },
        Stmt::GAttribute(g) => { c_attr_stmt(s, i, g); assert(one(w, s, k, Rule::stmt)); assert(m_stmt(w->kids[0], t)); },
        Stmt::Edge(e) => { q_edge_b(s, i, e); c_stmt_edge(s, i, e); c_edge_stmt(s, i, e); let x = val(G::Call(Rl::subgraph), s, i, At::N); if x is Ok { b_skip(s, x->j); skip_skip(s, x->j); arr_val(s, skip_end(s, x->j)); } assert(one(w, s, k, Rule::stmt)); assert(m_stmt(w->kids[0], t)); },
    }
}

pub proof fn c_stmt_edge(s: Txt, i: int, e: Edge)
    requires ok_at(s, i), q_edge(s, i, e) >= 0, after(s, q_edge(s, i, e)), !mark_head(s, i)
    ensures val(G::Call(Rl::attr_stmt), s, i, At::N) is Fail, val(G::Call(Rl::bare_attr), s, i, At::N) is Fail,
        val(G::Call(Rl::subgraph), s, i, At::N) matches Res::Ok { j, .. } ==> 0 <= j <= s.len() && arr_at(s, skip_end(s, j)),
        !(val(G::Call(Rl::subgraph), s, i, At::N) is Out),
    decreases e, 0nat, 1nat
{
    hide(skip_end); hide(lex); hide(q_al); hide(q_id); hide(q_port);
    let j = q_ends(s, i, e.ty); let v = e.attributes@;
    q_oal_neg(s, j, v); q_ends_b(s, i, e.ty);
    f_attr_stmt(s, i);
    let v0 = match e.ty { EdgeTy::Pair(l, r) => l, EdgeTy::Chain(v) => v@[0] };
    let k = q_vertex(s, i, v0);
    match e.ty {
        EdgeTy::Pair(l, r) => { let a = q_arr(s, k); q_vertex_b(s, a, r); q_arr_b(s, k); },
        EdgeTy::Chain(v) => { q_tails_b(s, k, v, 1); },
    }
    assert(k >= 0 && arr_at(s, k));
    match v0 {
        Vertex::N(n) => {
            f_sub(s, i);
            let k = q_id(s, i, n.0);
            q_nid_b(s, i, n);
            if n.1 is Some { q_port_b(s, k, n.1->0); q_port_c(s, k, n.1->0); }
            q_id_lex(s, i, n.0); f_bare(s, i);
        },
        Vertex::S(g) => { q_subg_b(s, i, g); c_sub(s, i, g); f_bare(s, i); },
    }
}
pub proof fn c_graph(s: Txt, i: int, g: Graph)
    requires ok_at(s, i), q_graph(s, i, g) >= 0
    ensures ({ let r = val(G::Call(Rl::graph), s, i, At::N); one(r, s, q_graph(s, i, g), Rule::graph) && m_graph(r->kids[0], g) })
{
    hide(skip_end); hide(lex); hide(m_id); hide(q_id);
    u_call(Rl::graph, s, i, At::N);
    broadcast use {vals, kid_at, qs, kid_norm};
    kw_differ();
    let (id, strict, stmts) = match g { Graph::Graph { id, strict, stmts } => (id, strict, stmts), Graph::DiGraph { id, strict, stmts } => (id, strict, stmts) };
    let a = if strict { wd(s, i, k_strict()) } else { i };
    let b = wd(s, a, if g is DiGraph { k_digraph() } else { k_graph() });
    let k = if id is Anonymous { b } else { q_id(s, b, id) };
    q_body_b(s, k, stmts);
    if id is Anonymous { f_id(s, b); } else { q_id_b(s, b, id); c_id(s, b, id); }
    leaf_val(Rl::strict, s, i); leaf_val(Rl::graph_ty, s, a); b_lex(s, i); b_lex(s, a);
    c_body(s, k, stmts);
}
/// a writing of a graph is accepted
pub proof fn c_file(s: Txt, g: Graph)
    requires writes(s, g)
    ensures ({ let r = val(G::Call(Rl::file), s, 0, At::N); r is Ok && r->kids.len() == 1 && r->kids[0].kids.len() == 2 && m_graph(r->kids[0].kids[0], g) })
{
    hide(skip_end); hide(lex); hide(q_graph); hide(m_graph);
    broadcast use {vals, kid_at, qs, kid_norm};
    u_call(Rl::file, s, 0, At::N); u_call(Rl::SOI, s, 0, At::N);
    let i = skip_end(s, 0); b_skip(s, 0);
    c_graph(s, i, g);
    u_call(Rl::EOI, s, s.len() as int, At::N);
}
