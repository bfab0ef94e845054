// ---- what is printed is a writing of the graph (contracts/peg_writes.inc), whatever the layout ----
/// the text w stands at i
#[verifier::opaque]
pub open spec fn has(s: Txt, i: int, w: Txt) -> bool { is_at(s, i, w) }
pub broadcast proof fn len_cat(a: Txt, b: Txt) ensures (#[trigger] cat(a, b)).len() == a.len() + b.len() { reveal(cat); }
pub broadcast proof fn has_cat(s: Txt, i: int, a: Txt, b: Txt) requires #[trigger] has(s, i, cat(a, b)) ensures has(s, i, a), has(s, i + a.len(), b) {
    reveal(cat); reveal(has); let w = a + b; let t = s.subrange(i, i + w.len());
    assert(w.subrange(0, a.len() as int) =~= a); assert(w.subrange(a.len() as int, w.len() as int) =~= b);
    assert(t.subrange(0, a.len() as int) =~= s.subrange(i, i + a.len())); assert(t.subrange(a.len() as int, w.len() as int) =~= s.subrange(i + a.len(), i + a.len() + b.len()));
}
pub broadcast proof fn len_nil() ensures #[trigger] nil().len() == 0 { reveal(nil); }
pub broadcast proof fn has_in(s: Txt, i: int, w: Txt) requires #[trigger] has(s, i, w) ensures 0 <= i, i + w.len() <= s.len() { reveal(has); }
pub proof fn has_c(s: Txt, i: int, w: Txt, k: int) requires has(s, i, w), 0 <= k < w.len() ensures s[i + k] == w[k], c_at(s, i + k, w[k]) { reveal(has); assert(s.subrange(i, i + w.len())[k] == s[i + k]); }
pub broadcast group hs { len_cat, has_cat, len_nil, has_in }
/// two words would run together here
pub open spec fn gl(c: char) -> bool { wc(c) || c == '.' }
pub open spec fn dl(s: Txt, j: int) -> bool { !(0 < j < s.len() && gl(s[j - 1]) && gl(s[j])) }
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }
pub open spec fn solid(c: char) -> bool { !blank(c) && c != '/' && c != '#' }
pub proof fn solid_ok(s: Txt, i: int) requires 0 <= i <= s.len(), i == s.len() || solid(s[i]) ensures skip_end(s, i) == i { reveal_with_fuel(skip_end, 2); reveal_with_fuel(bend, 2); }
/// nothing but blanks
pub open spec fn blanks(w: Txt) -> bool { bend(w, 0) == w.len() }
pub proof fn over_at(s: Txt, i: int, w: Txt, k: int) requires has(s, i, w), 0 <= k <= w.len(), bend(w, k) == w.len() ensures bend(s, i + k) == bend(s, i + w.len()) decreases w.len() - k {
    if k < w.len() {
        has_c(s, i, w, k); b_bend(w, k + 1); b_bend(w, k + 2);
        if w[k] == '\r' { if k + 1 < w.len() { has_c(s, i, w, k + 1); over_at(s, i, w, k + 2); } } else { over_at(s, i, w, k + 1); }
    }
}
pub proof fn over(s: Txt, i: int, w: Txt) requires has(s, i, w), blanks(w) ensures skip_end(s, i) == skip_end(s, i + w.len()) { over_at(s, i, w, 0); skip_bend(s, i); skip_bend(s, i + w.len()); }
pub proof fn over_sp(s: Txt, i: int, w: Txt, k: int) requires has(s, i, w), 0 <= k < w.len(), w[k] == ' ' ensures skip_end(s, i + k) == skip_end(s, i + k + 1) { has_c(s, i, w, k); skip_bend(s, i + k); skip_bend(s, i + k + 1); assert(bend(s, i + k) == bend(s, i + k + 1)); }
pub proof fn all_sp(w: Txt, k: int) requires 0 <= k <= w.len(), forall|q: int| 0 <= q < w.len() ==> #[trigger] w[q] == ' ' ensures bend(w, k) == w.len() decreases w.len() - k { if k < w.len() { all_sp(w, k + 1); } }
pub proof fn rep_sp(n: nat) ensures forall|q: int| 0 <= q < rep_txt(" "@, n).len() ==> #[trigger] rep_txt(" "@, n)[q] == ' ', blanks(rep_txt(" "@, n)) decreases n {
    reveal(rep_txt); reveal_strlit(" ");
    if n > 0 { rep_sp((n - 1) as nat); }
    all_sp(rep_txt(" "@, n), 0);
}
/// a context without printers of its own, whose line separator is blank
pub open spec fn plain_cx(c: Cx) -> bool { inv(c) && c.fm == Map::<Id, VFmt>::empty() && blanks(c.ls) && blanks(c.lsm) }
pub proof fn ind_ok(c: Cx) ensures blanks(ind_txt(c)) { reveal(nil); if !inline(c) { rep_sp(c.ind); } }
pub proof fn over_ind(s: Txt, i: int, c: Cx) requires has(s, i, ind_txt(c)) ensures skip_end(s, i) == skip_end(s, i + ind_txt(c).len()) { ind_ok(c); over(s, i, ind_txt(c)); }
/// a blank text does not start with a letter
pub proof fn blank0(w: Txt) requires blanks(w), w.len() > 0 ensures blank(w[0]) { }

// ---- the ids that can be written ----
pub open spec fn wf_id(d: Id) -> bool {
    match d {
        Id::Plain(x) => plain_end(x@, 0) == Some(x@.len() as int),
        Id::Html(x) => html_end(x@, 0) == Some(x@.len() as int),
        Id::Escaped(x) => str_end(x@, 0) == Some(x@.len() as int),
        Id::Anonymous(_) => false,
    }
}
pub proof fn dend_emb(s: Txt, i: int, w: Txt, k: int) requires has(s, i, w), 0 <= k <= w.len(), dend(w, k) < w.len() || !(i + w.len() < s.len() && dg(s[i + w.len()])) ensures dend(s, i + k) == i + dend(w, k) decreases w.len() - k {
    if k < w.len() { has_c(s, i, w, k); if dg(w[k]) { dend_emb(s, i, w, k + 1); } }
}
pub proof fn wend_emb(s: Txt, i: int, w: Txt, k: int) requires has(s, i, w), 0 <= k <= w.len(), wend(w, k) < w.len() || !(i + w.len() < s.len() && wc(s[i + w.len()])) ensures wend(s, i + k) == i + wend(w, k) decreases w.len() - k {
    if k < w.len() { has_c(s, i, w, k); if wc(w[k]) { wend_emb(s, i, w, k + 1); } }
}
pub proof fn qend_emb(s: Txt, i: int, w: Txt, k: int) requires has(s, i, w), 0 <= k, qend(w, k) is Some ensures qend(s, i + k) == Some(i + qend(w, k)->0) decreases w.len() - k {
    if k < w.len() { has_c(s, i, w, k); if w[k] == '"' {} else if w[k] == '\\' { if k + 1 < w.len() { qend_emb(s, i, w, k + 2); } } else { qend_emb(s, i, w, k + 1); } }
}
pub proof fn hend_emb(s: Txt, i: int, w: Txt, k: int, d: nat) requires has(s, i, w), 0 <= k, hend(w, k, d) is Some ensures hend(s, i + k, d) == Some(i + hend(w, k, d)->0) decreases w.len() - k {
    if k < w.len() { has_c(s, i, w, k); if w[k] == '<' { hend_emb(s, i, w, k + 1, d + 1); } else if w[k] == '>' { if d > 1 { hend_emb(s, i, w, k + 1, (d - 1) as nat); } } else { hend_emb(s, i, w, k + 1, d); } }
}
pub proof fn dend_in(w: Txt, k: int, q: int) requires 0 <= k <= q < dend(w, k) ensures dg(w[q]), dend(w, k) <= w.len() decreases w.len() - k { b_dend(w, k); if k < q { dend_in(w, k + 1, q); } }
/// the word w stands at i, followed by nothing that would join it
pub proof fn word_ok(s: Txt, i: int, w: Txt)
    requires has(s, i, w), plain_end(w, 0) == Some(w.len() as int), dl(s, i + w.len())
    ensures w.len() > 0, lex(s, i) == Some(i + w.len()), wd(s, i, w) == skip_end(s, i + w.len()), starts(s, i), skip_end(s, i) == i, is_plain(w), s.subrange(i, i + w.len()) == w
{
    let n = w.len() as int; let j = i + n;
    b_plain(w, 0);
    assert(s.subrange(i, j) == w) by { reveal(has); }
    has_c(s, i, w, 0); has_c(s, i, w, n - 1);
    if w0(w[0]) {
        wend_all(w, 0); wend_emb(s, i, w, 0);
    } else {
        let a = if c_at(w, 0, '-') { 1int } else { 0 };
        let b = dend(w, a);
        b_dend(w, a); b_dend(w, b + 1); b_dend(w, a + 1);
        if a < n { has_c(s, i, w, a); } 
        if a + 1 < n { has_c(s, i, w, a + 1); }
        if b > a {
            dend_in(w, a, a);
            if c_at(w, b, '.') {
                has_c(s, i, w, b);
                if b + 1 < n { dend_in(w, b + 1, n - 1); }
                assert(gl(w[n - 1]));
                dend_emb(s, i, w, a); dend_emb(s, i, w, b + 1);
            } else { dend_in(w, a, n - 1); dend_emb(s, i, w, a); }
        } else {
            dend_in(w, a + 1, n - 1); dend_in(w, a + 1, a + 1); dend_emb(s, i, w, a); dend_emb(s, i, w, a + 1);
        }
    }
    solid_ok(s, i);
}
pub proof fn id_ok(s: Txt, i: int, d: Id)
    requires has(s, i, t_id(d)), wf_id(d), dl(s, i + t_id(d).len())
    ensures t_id(d).len() > 0, lex(s, i) == Some(i + t_id(d).len()), s.subrange(i, i + t_id(d).len()) == t_id(d), q_id(s, i, d) == skip_end(s, i + t_id(d).len()), starts(s, i), skip_end(s, i) == i
{
    let w = t_id(d); let n = w.len() as int;
    if d is Plain { word_ok(s, i, w); } else {
        assert(s.subrange(i, i + n) == w) by { reveal(has); }
        has_c(s, i, w, 0);
        if d is Html { hend_emb(s, i, w, 1, 1); } else { qend_emb(s, i, w, 1); }
        solid_ok(s, i);
    }
}
pub proof fn kw_word(w: Txt) requires all_w(w), w.len() > 0, w0(w[0]) ensures plain_end(w, 0) == Some(w.len() as int) { wend_at(w, 0, w.len() as int); }
pub proof fn point_word(w: Txt) requires point(w) ensures plain_end(w, 0) == Some(w.len() as int) {
    assert(w.len() > 0 && w0(w[0]));
    assert(all_w(w));
    kw_word(w);
}
pub open spec fn wf_port(p: Port) -> bool {
    match p {
        Port(Some(d), Some(c)) => wf_id(d) && point(c@),
        Port(None, Some(c)) => point(c@),
        Port(Some(d), None) => wf_id(d) && !(d is Plain && point(d->Plain_0@)),
        Port(None, None) => false,
    }
}
pub proof fn ch1(c: char, w: Txt) requires w == seq![c] ensures w.len() == 1, w[0] == c { }
pub proof fn lits() ensures
    ":"@ == seq![':'], "="@ == seq!['='], "["@ == seq!['['], "]"@ == seq![']'], ","@ == seq![','], ";"@ == seq![';'], " "@ == seq![' '], "}"@ == seq!['}'],
    " {"@.len() == 2, " {"@[0] == ' ', " {"@[1] == '{', "->"@.len() == 2, "->"@[0] == '-', "->"@[1] == '>', "--"@.len() == 2, "--"@[0] == '-', "--"@[1] == '-',
    "graph"@ == k_graph(), "node"@ == k_node(), "edge"@ == k_edge(), "graph[]"@ == cat(cat(k_graph(), seq!['[']), seq![']']), "node[]"@ == cat(cat(k_node(), seq!['[']), seq![']']), "edge[]"@ == cat(cat(k_edge(), seq!['[']), seq![']']),
    "subgraph "@ == cat(k_subgraph(), seq![' ']), "strict "@ == cat(k_strict(), seq![' ']), "graph "@ == cat(k_graph(), seq![' ']), "digraph "@ == cat(k_digraph(), seq![' ']),
{
    reveal(cat);
    reveal_strlit(":"); reveal_strlit("="); reveal_strlit("["); reveal_strlit("]"); reveal_strlit(","); reveal_strlit(";"); reveal_strlit(" "); reveal_strlit("}"); reveal_strlit(" {"); reveal_strlit("->"); reveal_strlit("--");
    reveal_strlit("graph"); reveal_strlit("node"); reveal_strlit("edge"); reveal_strlit("graph[]"); reveal_strlit("node[]"); reveal_strlit("edge[]");
    reveal_strlit("subgraph "); reveal_strlit("strict "); reveal_strlit("graph "); reveal_strlit("digraph ");
    assert(":"@ =~= seq![':']); assert("="@ =~= seq!['=']); assert("["@ =~= seq!['[']); assert("]"@ =~= seq![']']); assert(","@ =~= seq![',']); assert(";"@ =~= seq![';']); assert(" "@ =~= seq![' ']); assert("}"@ =~= seq!['}']);
    kw_lits();
    assert("graph[]"@ =~= cat(cat(k_graph(), seq!['[']), seq![']'])); assert("node[]"@ =~= cat(cat(k_node(), seq!['[']), seq![']'])); assert("edge[]"@ =~= cat(cat(k_edge(), seq!['[']), seq![']']));
    assert("subgraph "@ =~= cat(k_subgraph(), seq![' '])); assert("strict "@ =~= cat(k_strict(), seq![' '])); assert("graph "@ =~= cat(k_graph(), seq![' '])); assert("digraph "@ =~= cat(k_digraph(), seq![' ']));
}
/// the sign c stands at i
pub proof fn sign_ok(s: Txt, i: int, w: Txt, c: char) requires has(s, i, w), w == seq![c], sign(c) ensures c_at(s, i, c), sg(s, i, c) == skip_end(s, i + 1), skip_end(s, i) == i, dl(s, i), dl(s, i + 1) { has_c(s, i, w, 0); solid_ok(s, i); }
/// a blank at i
pub proof fn sp_ok(s: Txt, i: int, w: Txt) requires has(s, i, w), w == seq![' '] ensures skip_end(s, i) == skip_end(s, i + 1), dl(s, i), dl(s, i + 1), s[i] == ' ' { has_c(s, i, w, 0); over_sp(s, i, w, 0); }
pub proof fn port_ok(s: Txt, i: int, p: Port)
    requires has(s, i, t_port(p)), wf_port(p), dl(s, i + t_port(p).len())
    ensures q_port(s, i, p) == skip_end(s, i + t_port(p).len()), c_at(s, i, ':'), skip_end(s, i) == i, dl(s, i)
{
    hide(skip_end); hide(lex); broadcast use hs; lits();
    sign_ok(s, i, ":"@, ':');
    match p {
        Port(Some(d), Some(c)) => { let j = i + 1 + t_id(d).len(); sign_ok(s, j, ":"@, ':'); id_ok(s, i + 1, d); point_word(c@); word_ok(s, j + 1, c@); },
        Port(None, Some(c)) => { point_word(c@); word_ok(s, i + 1, c@); },
        Port(Some(d), None) => { id_ok(s, i + 1, d); },
        Port(None, None) => {},
    }
}
/// a node is not named like a keyword that starts something else
pub open spec fn kw_id(d: Id) -> bool { d is Plain && (mark(d->Plain_0@) || d->Plain_0@ == k_subgraph()) }
pub open spec fn wf_nid(n: NodeId) -> bool { wf_id(n.0) && !kw_id(n.0) && (n.1 is Some ==> wf_port(n.1->0)) }
pub proof fn nid_ok(s: Txt, i: int, n: NodeId)
    requires has(s, i, t_node_id(n)), wf_nid(n), dl(s, i + t_node_id(n).len())
    ensures q_nid(s, i, n) == skip_end(s, i + t_node_id(n).len()), t_node_id(n).len() > 0, starts(s, i), skip_end(s, i) == i, !mark_head(s, i), !sub_head(s, i)
{
    hide(skip_end); hide(lex); broadcast use hs; lits();
    let j = i + t_id(n.0).len();
    match n.1 { None => { id_ok(s, i, n.0); }, Some(p) => { port_ok(s, j, p); id_ok(s, i, n.0); } }
    let w = t_id(n.0);
    assert(mark(w) || w == k_subgraph() ==> n.0 is Plain) by { kw_letters(); }
}
pub open spec fn wf_attr(a: Attribute) -> bool { wf_id(a.0) && wf_id(a.1) }
pub proof fn attr_ok(s: Txt, i: int, a: Attribute, c: Cx)
    requires has(s, i, t_attr(a, c)), wf_attr(a), plain_cx(c), dl(s, i + t_attr(a, c).len())
    ensures q_bare(s, i, a) == skip_end(s, i + t_attr(a, c).len()), t_attr(a, c).len() > 0, starts(s, i), skip_end(s, i) == i
{
    hide(skip_end); hide(lex); broadcast use hs; lits();
    let j = i + t_id(a.0).len();
    sign_ok(s, j, "="@, '='); id_ok(s, i, a.0); id_ok(s, j + 1, a.1);
}
pub proof fn blanks_cat(a: Txt, b: Txt) requires blanks(a), blanks(b) ensures blanks(cat(a, b)) {
    let w = cat(a, b); broadcast use hs;
    assert(has(w, 0, w)) by { reveal(has); assert(w.subrange(0, w.len() as int) =~= w); }
    over_at(w, 0, a, 0); over_at(w, a.len() as int, b, 0);
}
/// the texts of the first k attributes with what separates them
pub open spec fn a_k(v: Seq<Attribute>, c: Cx, sep: Txt, k: nat) -> Txt { join_txt(t_attr_all(v, c, k), sep) }
pub proof fn a_k_is(v: Seq<Attribute>, c: Cx, sep: Txt, k: nat)
    requires k < v.len()
    ensures t_attr_all(v, c, k).len() == k, a_k(v, c, sep, k + 1) == (if k == 0 { t_attr(v[0], c) } else { cat(cat(a_k(v, c, sep, k), sep), t_attr(v[k as int], c)) })
    decreases k
{
    reveal(join_txt); reveal(cat);
    if k > 0 { a_k_is(v, c, sep, (k - 1) as nat); }
    let x = t_attr_all(v, c, k + 1);
    assert(x.drop_last() =~= t_attr_all(v, c, k));
}
pub proof fn a_k_pre(s: Txt, b: int, v: Seq<Attribute>, c: Cx, sep: Txt, k: nat, n: nat)
    requires has(s, b, a_k(v, c, sep, n)), 0 < k <= n <= v.len()
    ensures has(s, b, a_k(v, c, sep, k))
    decreases n - k
{ if k < n { a_k_is(v, c, sep, (n - 1) as nat); broadcast use hs; a_k_pre(s, b, v, c, sep, k, (n - 1) as nat); } }
pub open spec fn a_at(b: int, v: Seq<Attribute>, c: Cx, sep: Txt, k: int) -> int { if k <= 0 { b } else { b + a_k(v, c, sep, k as nat).len() + sep.len() } }
pub proof fn ins_ok(s: Txt, b: int, v: Seq<Attribute>, c: Cx, cm: Txt, bl: Txt, k: int)
    requires
        0 <= k < v.len(), has(s, b, a_k(v, c, cat(cm, bl), v.len())), plain_cx(c), blanks(bl), cm == ","@ || (cm == nil() && bl.len() > 0),
        forall|q: int| 0 <= q < v.len() ==> wf_attr(#[trigger] v[q]),
        ({ let x = b + a_k(v, c, cat(cm, bl), v.len()).len(); dl(s, x) && c_at(s, skip_end(s, x), ']') && !c_at(s, skip_end(s, skip_end(s, x) + 1), '[') }),
    ensures
        ({ let x = b + a_k(v, c, cat(cm, bl), v.len()).len(); let p = a_at(b, v, c, cat(cm, bl), k);
           q_in(s, p, v.skip(k)) == skip_end(s, skip_end(s, x) + 1) && starts(s, p) && skip_end(s, p) == p }),
    decreases v.len() - k
{
    hide(skip_end); hide(lex); hide(q_bare); hide(t_attr); hide(a_k); broadcast use hs; lits(); reveal_with_fuel(q_in, 2);
    let sep = cat(cm, bl); let n = v.len(); let x = b + a_k(v, c, sep, n).len(); let e = skip_end(s, x);
    let p = a_at(b, v, c, sep, k); let w = b + a_k(v, c, sep, (k + 1) as nat).len();
    a_k_pre(s, b, v, c, sep, (k + 1) as nat, n); a_k_is(v, c, sep, k as nat);
    assert(has(s, p, t_attr(v[k], c)) && w == p + t_attr(v[k], c).len());
    assert(v.skip(k)[0] == v[k] && v.skip(k).skip(1) =~= v.skip(k + 1));
    b_skip(s, x); skip_skip(s, x); b_skip(s, e + 1);
    if k + 1 < n {
        ins_ok(s, b, v, c, cm, bl, k + 1);
        let m = a_at(b, v, c, sep, k + 1);
        a_k_pre(s, b, v, c, sep, (k + 2) as nat, n); a_k_is(v, c, sep, (k + 1) as nat);
        assert(has(s, w, sep));
        if cm == nil() {
            has_c(s, w, bl, 0); blank0(bl); over(s, w, bl);
        } else {
            sign_ok(s, w, ","@, ','); over(s, w + 1, bl);
        }
        assert(dl(s, w));
        attr_ok(s, p, v[k], c);
        assert(q_attr(s, p, v[k]) == m);
        assert(p < m <= s.len());
    } else {
        assert(v.skip(k + 1).len() == 0);
        attr_ok(s, p, v[k], c);
        assert(q_attr(s, p, v[k]) == e);
        assert(p < e);
    }
}
pub proof fn attrs_ok(s: Txt, i: int, v: Seq<Attribute>, c: Cx)
    requires has(s, i, t_attrs(v, c)), v.len() > 0, plain_cx(c), forall|q: int| 0 <= q < v.len() ==> wf_attr(#[trigger] v[q]), !c_at(s, skip_end(s, i + t_attrs(v, c).len()), '[')
    ensures q_al(s, i, v) == skip_end(s, i + t_attrs(v, c).len()), c_at(s, i, '['), skip_end(s, i) == i, dl(s, i), dl(s, i + t_attrs(v, c).len())
{
    hide(skip_end); hide(lex); hide(q_in); hide(t_attr); hide(t_attr_all); hide(ind_txt); broadcast use hs; lits();
    let z = i + t_attrs(v, c).len();
    sign_ok(s, z - 1, "]"@, ']'); sign_ok(s, i, "["@, '[');
    if v.len() > 1 && c.multi {
        let d = grow(c); let cm = if inline(c) || c.comma { ","@ } else { nil() }; let bl = cat(c.ls, ind_txt(d));
        ind_ok(d); ind_ok(c); blanks_cat(c.ls, ind_txt(d)); broadcast use txt_norm;
        let b = i + 1 + c.ls.len() + ind_txt(d).len();
        over(s, i + 1, c.ls); over_ind(s, i + 1 + c.ls.len(), d);
        let x = b + a_k(v, c, cat(cm, bl), v.len()).len();
        reveal(nil);
        assert(cat(cat(cm, c.ls), ind_txt(d)) == cat(cm, bl));
        over(s, x, c.ls); over_ind(s, x + c.ls.len(), c);
        if c.ls.len() > 0 { has_c(s, x, c.ls, 0); blank0(c.ls); } else { assert(c.ls =~= nil()); assert(ind_txt(c).len() == 0) by { reveal(ind_txt); } }
        ins_ok(s, b, v, c, cm, bl, 0);
        assert(v.skip(0) =~= v);
    } else {
        assert(cat(nil(), " "@) == " "@) by { broadcast use txt_norm; }
        all_sp(" "@, 0);
        ins_ok(s, i + 1, v, c, nil(), " "@, 0);
        assert(v.skip(0) =~= v);
    }
}
/// attributes that may be left out
pub proof fn oattrs_ok(s: Txt, i: int, v: Seq<Attribute>, c: Cx)
    requires has(s, i, t_attrs(v, c)), plain_cx(c), forall|q: int| 0 <= q < v.len() ==> wf_attr(#[trigger] v[q]), !c_at(s, skip_end(s, i + t_attrs(v, c).len()), '['), dl(s, i + t_attrs(v, c).len())
    ensures q_oal(s, skip_end(s, i), v) == skip_end(s, i + t_attrs(v, c).len()), dl(s, i)
{
    hide(skip_end); hide(lex); hide(q_al); broadcast use hs;
    b_skip(s, i);
    if v.len() > 0 { attrs_ok(s, i, v, c); }
}
pub open spec fn wf_attrs(v: Seq<Attribute>) -> bool { forall|q: int| 0 <= q < v.len() ==> wf_attr(#[trigger] v[q]) }
pub proof fn gattr_ok(s: Txt, i: int, g: GraphAttributes, c: Cx)
    requires has(s, i, t_gattr(g, c)), plain_cx(c), wf_attrs(match g { GraphAttributes::Graph(v) => v@, GraphAttributes::Node(v) => v@, GraphAttributes::Edge(v) => v@ }), !c_at(s, skip_end(s, i + t_gattr(g, c).len()), '[')
    ensures q_gattr(s, i, g) == skip_end(s, i + t_gattr(g, c).len()), starts(s, i), skip_end(s, i) == i, dl(s, i + t_gattr(g, c).len())
{
    hide(skip_end); hide(lex); hide(q_in); hide(t_attrs); broadcast use hs; lits();
    let (w, v) = match g { GraphAttributes::Graph(v) => (k_graph(), v@), GraphAttributes::Node(v) => (k_node(), v@), GraphAttributes::Edge(v) => (k_edge(), v@) };
    kw_letters(); kw_all(); kw_word(w);
    let j = i + w.len();
    if v.len() == 0 {
        assert(has(s, i, cat(cat(w, seq!['[']), seq![']'])));
        sign_ok(s, j, seq!['['], '['); sign_ok(s, j + 1, seq![']'], ']');
        assert(q_in(s, j + 1, v) == skip_end(s, j + 2)) by { reveal_with_fuel(q_in, 2); }
    } else { attrs_ok(s, j, v, c); }
    word_ok(s, i, w);
}
pub proof fn kw_all() ensures all_w(k_graph()), all_w(k_node()), all_w(k_edge()), all_w(k_subgraph()), all_w(k_strict()), all_w(k_digraph()), w0(k_strict()[0]), w0(k_digraph()[0]) { }
pub open spec fn wf_node(n: Node) -> bool { wf_nid(n.id) && wf_attrs(n.attributes@) }
pub proof fn node_ok(s: Txt, i: int, n: Node, c: Cx)
    requires has(s, i, t_node(n, c)), plain_cx(c), wf_node(n), dl(s, i + t_node(n, c).len()), !c_at(s, skip_end(s, i + t_node(n, c).len()), '[')
    ensures q_node(s, i, n) == skip_end(s, i + t_node(n, c).len()), starts(s, i), skip_end(s, i) == i
{
    hide(skip_end); hide(lex); hide(q_al); hide(t_attrs); hide(t_node_id); hide(q_nid); broadcast use hs;
    oattrs_ok(s, i + t_node_id(n.id).len(), n.attributes@, c); nid_ok(s, i, n.id);
}
// ---- the structures that can be written ----
pub open spec fn wf_vertex(v: Vertex) -> bool decreases v { match v { Vertex::N(n) => wf_nid(n), Vertex::S(g) => wf_sub(g) } }
pub open spec fn wf_sub(g: Subgraph) -> bool decreases g { (g.id is Anonymous || wf_id(g.id)) && wf_stmts(g.stmts) }
pub open spec fn wf_stmts(v: Vec<Stmt>) -> bool decreases v { forall|i: int| 0 <= i < v@.len() ==> wf_stmt(#[trigger] v@[i]) }
pub open spec fn wf_vs(v: Vec<Vertex>) -> bool decreases v { forall|i: int| 0 <= i < v@.len() ==> wf_vertex(#[trigger] v@[i]) }
pub open spec fn wf_ends(e: EdgeTy) -> bool decreases e { match e { EdgeTy::Pair(l, r) => wf_vertex(l) && wf_vertex(r), EdgeTy::Chain(v) => v@.len() > 2 && wf_vs(v) } }
pub open spec fn wf_edge(e: Edge) -> bool decreases e { wf_ends(e.ty) && wf_attrs(e.attributes@) }
pub open spec fn wf_stmt(t: Stmt) -> bool decreases t {
    match t {
        Stmt::Node(n) => wf_node(n),
        Stmt::Subgraph(g) => wf_sub(g),
        Stmt::Attribute(a) => wf_attr(a),
        Stmt::GAttribute(g) => wf_attrs(match g { GraphAttributes::Graph(v) => v@, GraphAttributes::Node(v) => v@, GraphAttributes::Edge(v) => v@ }),
        Stmt::Edge(e) => wf_edge(e),
    }
}
/// every id can be read back, every port names something, every chain has three vertices or more
pub open spec fn wf_graph(g: Graph) -> bool {
    let (id, stmts) = match g { Graph::Graph { id, stmts, .. } => (id, stmts), Graph::DiGraph { id, stmts, .. } => (id, stmts) };
    (id is Anonymous || wf_id(id)) && wf_stmts(stmts)
}
/// what stands after a statement: another, or the end of the body
pub open spec fn fol(s: Txt, x: int) -> bool { let j = skip_end(s, x); dl(s, x) && (starts(s, j) || c_at(s, j, '}')) }
pub proof fn bond_ok(s: Txt, i: int, c: Cx)
    requires has(s, i, cat(cat(" "@, bond(c)), " "@))
    ensures q_arr(s, skip_end(s, i)) == skip_end(s, i + 4), dl(s, i), arr_at(s, skip_end(s, i))
{
    hide(skip_end); hide(lex); broadcast use hs; lits();
    sp_ok(s, i, " "@); sp_ok(s, i + 3, " "@); has_c(s, i + 1, bond(c), 0); has_c(s, i + 1, bond(c), 1); solid_ok(s, i + 1);
}
pub proof fn vertex_ok(s: Txt, i: int, v: Vertex, c: Cx)
    requires has(s, i, t_vertex(v, c)), plain_cx(c), wf_vertex(v), dl(s, i + t_vertex(v, c).len())
    ensures q_vertex(s, i, v) == skip_end(s, i + t_vertex(v, c).len()), starts(s, i), skip_end(s, i) == i, !mark_head(s, i)
    decreases v, 0nat
{
    hide(skip_end); hide(lex); hide(q_nid); hide(t_node_id);
    match v { Vertex::N(n) => { nid_ok(s, i, n); }, Vertex::S(g) => { sub_ok(s, i, g, c); } }
}
/// a name or none
pub proof fn oid_ok(s: Txt, i: int, d: Id)
    requires has(s, i, cat(t_id(d), " {"@)), wf_id(d) || d is Anonymous
    ensures !(d is Anonymous) ==> starts(s, i) && skip_end(s, i) == i,
        ({ let j = i + t_id(d).len(); let k = if d is Anonymous { skip_end(s, i) } else { q_id(s, i, d) }; k == j + 1 && sg(s, k, '{') == skip_end(s, j + 2) && dl(s, j + 2) && c_at(s, k, '{') })
{
    hide(skip_end); hide(lex); hide(q_id); broadcast use hs; lits();
    let j = i + t_id(d).len();
    has_c(s, j, " {"@, 0); has_c(s, j, " {"@, 1); over_sp(s, j, " {"@, 0); solid_ok(s, j + 1);
    if !(d is Anonymous) { id_ok(s, i, d); }
}
pub proof fn sub_ok(s: Txt, i: int, g: Subgraph, c: Cx)
    requires has(s, i, t_subgraph(g, c)), plain_cx(c), wf_sub(g)
    ensures q_subg(s, i, g) == skip_end(s, i + t_subgraph(g, c).len()), starts(s, i), skip_end(s, i) == i, !mark_head(s, i), dl(s, i + t_subgraph(g, c).len())
    decreases g, 0nat
{
    hide(skip_end); hide(lex); hide(q_id); hide(ind_txt); hide(t_id); broadcast use hs; lits(); kw_letters(); kw_all();
    let z = i + t_subgraph(g, c).len();
    let w = k_subgraph(); kw_word(w);
    assert(has(s, i, cat(w, seq![' ']))); sp_ok(s, i + w.len(), seq![' ']); word_ok(s, i, w);
    let a = i + w.len() + 1; let b = a + t_id(g.id).len() + 2;
    assert(has(s, a, cat(t_id(g.id), " {"@))) by { broadcast use txt_norm; has_join(s, a, t_id(g.id), " {"@); }
    oid_ok(s, a, g.id);
    over(s, b, c.ls);
    let t = t_body(t_stmt_all(g.stmts, grow(c), g.stmts@.len()), c);
    let x = b + c.ls.len() + t.len();
    over(s, x, c.ls); over_ind(s, x + c.ls.len(), c); sign_ok(s, z - 1, "}"@, '}');
    if c.ls.len() > 0 { has_c(s, x, c.ls, 0); blank0(c.ls); } else { assert(c.ls =~= nil()) by { reveal(nil); } assert(ind_txt(c).len() == 0) by { reveal(ind_txt); } }
    body_ok(s, b + c.ls.len(), g.stmts, c);
    let j = wd(s, i, w);
    sub_not_mark_w(s, i);
}
pub proof fn has_join(s: Txt, i: int, a: Txt, b: Txt) requires has(s, i, a), has(s, i + a.len(), b) ensures has(s, i, cat(a, b)) {
    reveal(cat); reveal(has); assert(s.subrange(i, i + a.len() + b.len()) =~= a + b) by {
        assert forall|k: int| 0 <= k < a.len() + b.len() implies s.subrange(i, i + a.len() + b.len())[k] == (a + b)[k] by { if k < a.len() { assert(s.subrange(i, i + a.len())[k] == a[k]); } else { assert(s.subrange(i + a.len(), i + a.len() + b.len())[k - a.len()] == b[k - a.len()]); } } }
}
pub proof fn sub_not_mark_w(s: Txt, i: int) requires wd(s, i, k_subgraph()) >= 0 ensures !mark_head(s, i) { hide(skip_end); hide(lex); kw_differ(); }
/// the texts of the first k statements, as a body
pub open spec fn s_k(v: Vec<Stmt>, c: Cx, k: nat) -> Txt { t_body(t_stmt_all(v, grow(c), k), c) }
pub proof fn all_len(v: Vec<Stmt>, c: Cx, k: nat) requires k <= v@.len() ensures t_stmt_all(v, c, k).len() == k decreases k { reveal_with_fuel(t_stmt_all, 2); if k > 0 { all_len(v, c, (k - 1) as nat); } }
pub proof fn line_pre(a: Seq<Txt>, b: Txt, n: nat) requires n <= a.len() ensures line_n(a.push(b), n) == line_n(a, n) decreases n { if n > 0 { line_pre(a, b, (n - 1) as nat); } }
/// what stands between two statements
pub open spec fn between(p: Txt, c: Cx) -> Txt { if !inline(c) { c.ls } else if p.len() > 0 && !closes(p.last()) { " "@ } else { nil() } }
pub proof fn s_k_is(v: Vec<Stmt>, c: Cx, k: nat)
    requires k < v@.len()
    ensures s_k(v, c, k + 1) == (if k == 0 { t_stmt(v@[0], grow(c)) } else { cat(cat(s_k(v, c, k), between(s_k(v, c, k), c)), t_stmt(v@[k as int], grow(c))) })
{
    let d = grow(c); let t = t_stmt(v@[k as int], d);
    let a = t_stmt_all(v, d, k); let x = t_stmt_all(v, d, k + 1);
    all_len(v, d, k);
    reveal_with_fuel(t_stmt_all, 2);
    assert(x == a.push(t));
    if inline(c) { 
        line_pre(a, t, k); broadcast use txt_norm; lits();
        assert(ch(' ') == " "@) by { reveal(ch); }
        assert(x[k as int] == t);
        let q = line_n(a, k);
        assert(s_k(v, c, k) == q);
        assert(line_n(x, k + 1) == cat(if q.len() > 0 && !closes(q.last()) { cat(q, ch(' ')) } else { q }, t));
        assert(s_k(v, c, k + 1) == line_n(x, k + 1));
        if k == 0 { assert(q == nil()); assert(q.len() == 0) by { reveal(nil); } }
    } else {
        reveal(join_txt); reveal(cat);
        assert(x.drop_last() =~= a);
    }
}
pub proof fn s_k_pre(s: Txt, b: int, v: Vec<Stmt>, c: Cx, k: nat, n: nat)
    requires has(s, b, s_k(v, c, n)), 0 < k <= n <= v@.len()
    ensures has(s, b, s_k(v, c, k))
    decreases n - k
{ hide(t_body); if k < n { s_k_is(v, c, (n - 1) as nat); broadcast use hs; s_k_pre(s, b, v, c, k, (n - 1) as nat); } }
pub proof fn vertex_len(v: Vertex, c: Cx) requires wf_vertex(v) ensures t_vertex(v, c).len() > 0 { broadcast use hs; lits(); kw_lens(); match v { Vertex::N(n) => { nid_len(n.0); }, Vertex::S(g) => {} } }
pub proof fn nid_len(d: Id) requires wf_id(d) ensures t_id(d).len() > 0 { b_plain(t_id(d), 0); }
pub proof fn edge_len(e: Edge, c: Cx) requires wf_edge(e) ensures t_edge0(e, c).len() > 0 {
    broadcast use hs; lits();
    match e.ty { EdgeTy::Pair(l, r) => { assert(t_ends(e.ty, c).len() > 0); }, EdgeTy::Chain(v) => { assert(t_chain(v, c, v@.len()).len() > 0); assert(t_ends(e.ty, c).len() > 0); } }
}
pub proof fn stmt_len(t: Stmt, c: Cx) requires wf_stmt(t) ensures t_stmt(t, c).len() > 0 {
    broadcast use hs; lits(); kw_lens();
    match t {
        Stmt::Node(n) => { nid_len(n.id.0); assert(t_node_id(n.id).len() > 0); assert(t_node(n, c).len() > 0); }, Stmt::Subgraph(g) => { assert(t_subgraph(g, c).len() > 0); }, Stmt::Attribute(a) => { assert(t_attr(a, c).len() > 0); }, Stmt::GAttribute(g) => { assert(t_gattr(g, c).len() > 0); },
        Stmt::Edge(e) => { edge_len(e, c); edge_len(e, one_line(c)); assert(t_edge(e, c).len() > 0); },
    }
}
pub open spec fn s_at(b: int, v: Vec<Stmt>, c: Cx, k: int) -> int { if k <= 0 { b } else { b + s_k(v, c, k as nat).len() } }
pub proof fn body_ok(s: Txt, b: int, v: Vec<Stmt>, c: Cx)
    requires has(s, b, s_k(v, c, v@.len())), plain_cx(c), wf_stmts(v), dl(s, b + s_k(v, c, v@.len()).len()), c_at(s, skip_end(s, b + s_k(v, c, v@.len()).len()), '}')
    ensures q_sts(s, skip_end(s, b), v, 0) == skip_end(s, b + s_k(v, c, v@.len()).len())
    decreases v, v@.len() + 1
{
    hide(skip_end); hide(lex); broadcast use hs;
    if v@.len() == 0 { reveal_with_fuel(t_stmt_all, 2); reveal(join_txt); reveal(nil); assert(s_k(v, c, 0).len() == 0) by { reveal_with_fuel(line_n, 2); } assert(b + 0 == b); }
    else { sts_ok(s, b, v, c, 0); }
}
pub proof fn sts_ok(s: Txt, b: int, v: Vec<Stmt>, c: Cx, k: int)
    requires 0 <= k < v@.len(), has(s, b, s_k(v, c, v@.len())), plain_cx(c), wf_stmts(v), dl(s, b + s_k(v, c, v@.len()).len()), c_at(s, skip_end(s, b + s_k(v, c, v@.len()).len()), '}')
    ensures q_sts(s, skip_end(s, s_at(b, v, c, k)), v, k) == skip_end(s, b + s_k(v, c, v@.len()).len()), starts(s, skip_end(s, s_at(b, v, c, k)))
    decreases v, v@.len() - k
{
    hide(skip_end); hide(lex); hide(s_k); broadcast use hs; lits();
    let n = v@.len(); let d = grow(c); let t = t_stmt(v@[k], d); let x = b + s_k(v, c, n).len();
    let p = s_k(v, c, k as nat); let y = b + s_k(v, c, (k + 1) as nat).len();
    assert(wf_stmt(v@[k])); assert(plain_cx(d));
    s_k_pre(s, b, v, c, (k + 1) as nat, n); s_k_is(v, c, k as nat);
    let i = if k == 0 { b } else { b + p.len() + between(p, c).len() };
    assert(has(s, i, t) && y == i + t.len());
    if k > 0 { gap_ok(s, b, p, c); }
    if k + 1 < n {
        let p1 = s_k(v, c, (k + 1) as nat);
        s_k_pre(s, b, v, c, (k + 2) as nat, n); s_k_is(v, c, (k + 1) as nat);
        stmt_len(v@[k], d); gap_ok(s, b, p1, c);
        sts_ok(s, b, v, c, k + 1);
    }
    assert(fol(s, y));
    stmt_ok(s, i, v@[k], d);
    if k + 1 == n { reveal_with_fuel(q_sts, 2); }
}
pub proof fn gap_ok(s: Txt, b: int, p: Txt, c: Cx)
    requires has(s, b, p), has(s, b + p.len(), between(p, c)), plain_cx(c)
    ensures skip_end(s, b + p.len()) == skip_end(s, b + p.len() + between(p, c).len()), p.len() > 0 ==> dl(s, b + p.len())
{
    hide(skip_end); broadcast use hs; lits(); let x = b + p.len(); reveal(nil);
    if p.len() > 0 { has_c(s, b, p, p.len() - 1); }
    if !inline(c) { over(s, x, c.ls); assert(c.ls.len() > 0) by { if c.ls.len() == 0 { assert(c.ls =~= nil()); } } has_c(s, x, c.ls, 0); blank0(c.ls); }
    else if p.len() > 0 && !closes(p.last()) { sp_ok(s, x, " "@); }
}
pub proof fn stmt_ok(s: Txt, i: int, t: Stmt, c: Cx)
    requires has(s, i, t_stmt(t, c)), plain_cx(c), wf_stmt(t), fol(s, i + t_stmt(t, c).len())
    ensures q_sep(s, q_stmt(s, skip_end(s, i), t), ';') == skip_end(s, i + t_stmt(t, c).len()), starts(s, skip_end(s, i))
    decreases t, 1nat
{
    hide(skip_end); hide(lex); hide(ind_txt); broadcast use hs; lits();
    let z = i + t_stmt(t, c).len();
    over_ind(s, i, c);
    let j = i + ind_txt(c).len(); let y = if c.semi { z - 1 } else { z };
    if c.semi { sign_ok(s, y, ";"@, ';'); }
    b_skip(s, z);
    assert(dl(s, y) && !c_at(s, skip_end(s, y), '[') && (c_at(s, skip_end(s, y), ';') == c.semi));
    match t {
        Stmt::Node(n) => { node_ok(s, j, n, c); },
        Stmt::Subgraph(g) => { sub_ok(s, j, g, c); },
        Stmt::Attribute(a) => { attr_ok(s, j, a, c); },
        Stmt::GAttribute(g) => { gattr_ok(s, j, g, c); },
        Stmt::Edge(e) => { edge_ok(s, j, e, c); },
    }
}
pub proof fn edge_ok(s: Txt, i: int, e: Edge, c: Cx)
    requires has(s, i, t_edge(e, c)), plain_cx(c), wf_edge(e), dl(s, i + t_edge(e, c).len()), !c_at(s, skip_end(s, i + t_edge(e, c).len()), '[')
    ensures q_edge(s, i, e) == skip_end(s, i + t_edge(e, c).len()), starts(s, i), skip_end(s, i) == i, !mark_head(s, i)
    decreases e, 2nat
{
    hide(skip_end); hide(lex);
    if !inline(c) && byte_len(t_edge0(e, c)) <= c.width { let d = one_line(c); assert(plain_cx(d)) by { reveal(nil); } edge0_ok(s, i, e, d); } else { edge0_ok(s, i, e, c); }
}
pub proof fn edge0_ok(s: Txt, i: int, e: Edge, c: Cx)
    requires has(s, i, t_edge0(e, c)), plain_cx(c), wf_edge(e), dl(s, i + t_edge0(e, c).len()), !c_at(s, skip_end(s, i + t_edge0(e, c).len()), '[')
    ensures q_edge(s, i, e) == skip_end(s, i + t_edge0(e, c).len()), starts(s, i), skip_end(s, i) == i, !mark_head(s, i)
    decreases e, 1nat
{
    hide(skip_end); hide(lex); hide(t_attrs); hide(q_oal); broadcast use hs; lits();
    let x = i + t_ends(e.ty, c).len(); let v = e.attributes@;
    let g = e.ty is Pair && v.len() > 0;
    if g { sp_ok(s, x, " "@); oattrs_ok(s, x + 1, v, c); } else { oattrs_ok(s, x, v, c); }
    ends_ok(s, i, e.ty, c);
}
pub proof fn ends_ok(s: Txt, i: int, e: EdgeTy, c: Cx)
    requires has(s, i, t_ends(e, c)), plain_cx(c), wf_ends(e), dl(s, i + t_ends(e, c).len())
    ensures q_ends(s, i, e) == skip_end(s, i + t_ends(e, c).len()), starts(s, i), skip_end(s, i) == i, !mark_head(s, i)
    decreases e, 1nat
{ match e { EdgeTy::Pair(l, r) => { pair_ok(s, i, e, l, r, c); }, EdgeTy::Chain(v) => { chain_all(s, i, e, v, c); } } }
pub proof fn pair_ok(s: Txt, i: int, e: EdgeTy, l: Vertex, r: Vertex, c: Cx)
    requires e == EdgeTy::Pair(l, r), has(s, i, t_ends(e, c)), plain_cx(c), wf_ends(e), dl(s, i + t_ends(e, c).len())
    ensures q_ends(s, i, e) == skip_end(s, i + t_ends(e, c).len()), starts(s, i), skip_end(s, i) == i, !mark_head(s, i)
    decreases e, 0nat
{
    hide(skip_end); hide(lex); hide(bond);
    let x = i + t_vertex(l, c).len();
    link_ok(s, i, t_vertex(l, c), t_vertex(r, c), c);
    vertex_ok(s, i, l, c); vertex_ok(s, x + 4, r, c);
}
pub proof fn chain_all(s: Txt, i: int, e: EdgeTy, v: Vec<Vertex>, c: Cx)
    requires e == EdgeTy::Chain(v), has(s, i, t_ends(e, c)), plain_cx(c), wf_ends(e), dl(s, i + t_ends(e, c).len())
    ensures q_ends(s, i, e) == skip_end(s, i + t_ends(e, c).len()), starts(s, i), skip_end(s, i) == i, !mark_head(s, i)
    decreases e, 0nat
{
    hide(skip_end); hide(lex); hide(cat);
    assert(wf_vertex(v@[0]));
    chain_ok(s, i, v, c, 1); chain_pre(s, i, v, c, 1, v@.len());
    assert(t_chain(v, c, 1) == t_vertex(v@[0], c));
    vertex_ok(s, i, v@[0], c);
}
pub proof fn link_ok(s: Txt, i: int, a: Txt, b: Txt, c: Cx)
    requires has(s, i, cat(cat(cat(cat(a, " "@), bond(c)), " "@), b))
    ensures has(s, i, a), has(s, i + a.len() + 4, b), q_arr(s, skip_end(s, i + a.len())) == skip_end(s, i + a.len() + 4), dl(s, i + a.len()), arr_at(s, skip_end(s, i + a.len())), i >= 0,
        cat(cat(cat(cat(a, " "@), bond(c)), " "@), b).len() == a.len() + 4 + b.len()
{
    hide(skip_end); hide(lex); broadcast use hs; lits();
    let x = i + a.len();
    has_join(s, x, " "@, bond(c)); has_join(s, x, cat(" "@, bond(c)), " "@); bond_ok(s, x, c);
}
pub proof fn chain_pre(s: Txt, i: int, v: Vec<Vertex>, c: Cx, k: nat, n: nat)
    requires has(s, i, t_chain(v, c, n)), 0 < k <= n <= v@.len()
    ensures has(s, i, t_chain(v, c, k))
    decreases n - k
{ hide(bond); if k < n { broadcast use hs; lits(); reveal_with_fuel(t_chain, 2); chain_pre(s, i, v, c, k, (n - 1) as nat); } }
pub proof fn chain_ok(s: Txt, i: int, v: Vec<Vertex>, c: Cx, k: int)
    requires 1 <= k <= v@.len(), has(s, i, t_chain(v, c, v@.len())), plain_cx(c), wf_vs(v), dl(s, i + t_chain(v, c, v@.len()).len())
    ensures q_tails(s, skip_end(s, i + t_chain(v, c, k as nat).len()), v, k) == skip_end(s, i + t_chain(v, c, v@.len()).len()), k < v@.len() ==> dl(s, i + t_chain(v, c, k as nat).len())
    decreases v, v@.len() - k
{
    hide(skip_end); hide(lex); hide(bond); broadcast use hs; lits();
    reveal_with_fuel(q_tails, 2);
    if k < v@.len() {
        let w = t_chain(v, c, k as nat); let x = i + w.len(); let u = t_vertex(v@[k], c);
        chain_pre(s, i, v, c, (k + 1) as nat, v@.len());
        assert(t_chain(v, c, (k + 1) as nat) == cat(cat(cat(cat(w, " "@), bond(c)), " "@), u)) by { reveal_with_fuel(t_chain, 2); }
        link_ok(s, i, w, u, c);
        chain_ok(s, i, v, c, k + 1);
        assert(wf_vertex(v@[k]));
        vertex_ok(s, x + 4, v@[k], c);
    }
}
/// what is printed is a writing of the graph
pub proof fn prints_ok(g: Graph, c0: Cx) requires wf_graph(g), plain_cx(c0) ensures writes(t_graph(g, c0), g) {
    hide(skip_end); hide(lex); hide(q_id); hide(t_id); hide(t_body); hide(q_body); broadcast use hs; lits(); kw_letters(); kw_all();
    let s = t_graph(g, c0); let c = Cx { di: g is DiGraph, ..c0 };
    assert(plain_cx(c));
    assert(has(s, 0, s)) by { reveal(has); assert(s.subrange(0, s.len() as int) =~= s); }
    let (id, strict, stmts) = match g { Graph::Graph { id, strict, stmts } => (id, strict, stmts), Graph::DiGraph { id, strict, stmts } => (id, strict, stmts) };
    let w1 = if strict { "strict "@ } else { nil() }; let w = if c.di { k_digraph() } else { k_graph() };
    let p = w1.len() as int;
    let a = p + w.len() + 1; let b = a + t_id(id).len() + 2;
    if strict { kw_word(k_strict()); assert(has(s, 0, cat(k_strict(), seq![' ']))); sp_ok(s, p - 1, seq![' ']); word_ok(s, 0, k_strict()); }
    kw_word(w); assert(has(s, p, cat(w, seq![' ']))); sp_ok(s, a - 1, seq![' ']); word_ok(s, p, w);
    has_join(s, a, t_id(id), " {"@);
    oid_ok(s, a, id);
    over(s, b, c.ls);
    let t = t_body(t_stmt_all(stmts, grow(c), stmts@.len()), c);
    let x = b + c.ls.len() + t.len();
    over(s, x, c.ls); sign_ok(s, s.len() - 1, "}"@, '}'); solid_ok(s, s.len() as int);
    if c.ls.len() > 0 { has_c(s, x, c.ls, 0); blank0(c.ls); }
    body_ok(s, b + c.ls.len(), stmts, c);
    reveal(q_body);
}
