// ---- the lexical rules of the grammar take exactly what the definitions of peg.inc say ----
pub broadcast proof fn e_call_b(r: Rl, s: Txt, i: int, at: At, n: nat)
    ensures #[trigger] run(G::Call(r), s, i, at, n) == (if n == 0 { Res::Out } else { run(body(r), s, i, at, (n - 1) as nat) }) { reveal(run); }
/// the result is o, and nothing is said of the pairs
pub open spec fn to(r: Res, o: Option<int>) -> bool { match r { Res::Out => true, Res::Fail => o is None, Res::Ok { j, toks, .. } => o == Some(j) && toks == t0() } }
pub open spec fn to0(r: Res, o: Option<int>) -> bool { to(r, o) && (r is Ok ==> r->kids == k0()) }
pub open spec fn ok0(r: Res, j: int) -> bool { to0(r, Some(j)) }

pub proof fn is_at1(s: Txt, i: int, c: char) ensures is_at(s, i, Seq::<char>::empty().push(c)) == c_at(s, i, c) {
    if 0 <= i < s.len() { assert(s.subrange(i, i + 1) =~= seq![s[i]]); if is_at(s, i, Seq::<char>::empty().push(c)) { assert(seq![s[i]][0] == Seq::<char>::empty().push(c)[0]); } }
}
pub proof fn is_at2(s: Txt, i: int, c: char, d: char) ensures is_at(s, i, Seq::<char>::empty().push(c).push(d)) == (c_at(s, i, c) && c_at(s, i + 1, d)) {
    if 0 <= i && i + 2 <= s.len() {
        let x = s.subrange(i, i + 2);
        assert(x[0] == s[i] && x[1] == s[i + 1]);
        if c_at(s, i, c) && c_at(s, i + 1, d) { assert(x =~= Seq::<char>::empty().push(c).push(d)); }
        if is_at(s, i, Seq::<char>::empty().push(c).push(d)) { assert(Seq::<char>::empty().push(c).push(d)[0] == c && Seq::<char>::empty().push(c).push(d)[1] == d); }
    }
}
pub broadcast proof fn is_at1_b(s: Txt, i: int, c: char) ensures #[trigger] is_at(s, i, Seq::<char>::empty().push(c)) == c_at(s, i, c) { is_at1(s, i, c); }
pub broadcast proof fn is_at2_b(s: Txt, i: int, c: char, d: char) ensures #[trigger] is_at(s, i, Seq::<char>::empty().push(c).push(d)) == (c_at(s, i, c) && c_at(s, i + 1, d)) { is_at2(s, i, c, d); }
pub broadcast group lx { e_call_b, is_at1_b, is_at2_b }

pub proof fn b_aend(s: Txt, i: int) ensures i <= aend(s, i), aend(s, i) <= s.len() || aend(s, i) == i, 0 <= aend(s, i) < s.len() ==> !w0(s[aend(s, i)]) decreases s.len() - i { if 0 <= i < s.len() && w0(s[i]) { b_aend(s, i + 1); } }
pub proof fn b_wend(s: Txt, i: int) ensures i <= wend(s, i), wend(s, i) <= s.len() || wend(s, i) == i, 0 <= wend(s, i) < s.len() ==> !wc(s[wend(s, i)]) decreases s.len() - i { if 0 <= i < s.len() && wc(s[i]) { b_wend(s, i + 1); } }
pub proof fn b_dend(s: Txt, i: int) ensures i <= dend(s, i), dend(s, i) <= s.len() || dend(s, i) == i, 0 <= dend(s, i) < s.len() ==> !dg(s[dend(s, i)]) decreases s.len() - i { if 0 <= i < s.len() && dg(s[i]) { b_dend(s, i + 1); } }
pub proof fn b_qend(s: Txt, i: int) ensures qend(s, i) matches Some(j) ==> i < j <= s.len() decreases s.len() - i { if 0 <= i < s.len() { if s[i] == '\\' { if i + 1 < s.len() { b_qend(s, i + 2); } } else { b_qend(s, i + 1); } } }
pub proof fn b_hend(s: Txt, i: int, d: nat) ensures hend(s, i, d) matches Some(j) ==> i < j <= s.len() decreases s.len() - i { if 0 <= i < s.len() { b_hend(s, i + 1, d + 1); b_hend(s, i + 1, d); if d > 1 { b_hend(s, i + 1, (d - 1) as nat); } } }
pub proof fn b_bend(s: Txt, i: int) ensures i <= bend(s, i), bend(s, i) <= s.len() || bend(s, i) == i decreases s.len() - i { if 0 <= i < s.len() { b_bend(s, i + 1); if i + 1 < s.len() { b_bend(s, i + 2); } } }
pub proof fn b_bce(s: Txt, i: int) ensures bce(s, i) matches Some(j) ==> i + 2 <= j <= s.len() decreases s.len() - i { if 0 <= i < s.len() { b_bce(s, i + 1); } }
pub proof fn b_lce(s: Txt, i: int) ensures i <= lce(s, i), lce(s, i) <= s.len() || lce(s, i) == i decreases s.len() - i { if 0 <= i < s.len() { b_lce(s, i + 1); } }
pub proof fn b_cend(s: Txt, i: int) ensures cend(s, i) matches Some(j) ==> i < j <= s.len() { b_bce(s, i + 2); b_lce(s, i + 2); b_lce(s, i + 1); }
pub proof fn b_skip(s: Txt, i: int) ensures i <= skip_end(s, i), skip_end(s, i) <= s.len() || skip_end(s, i) == i decreases s.len() - i {
    b_bend(s, i); b_cend(s, bend(s, i));
    match cend(s, bend(s, i)) { Some(c) => if i < c <= s.len() { b_skip(s, c); }, None => {} }
}
pub proof fn bend_bend(s: Txt, i: int) ensures bend(s, bend(s, i)) == bend(s, i) decreases s.len() - i { if 0 <= i < s.len() { bend_bend(s, i + 1); if i + 1 < s.len() { bend_bend(s, i + 2); } } }
/// after blanks and comments there are none
pub proof fn skip_skip(s: Txt, i: int) ensures skip_end(s, skip_end(s, i)) == skip_end(s, i), bend(s, skip_end(s, i)) == skip_end(s, i), cend(s, skip_end(s, i)) is None decreases s.len() - i {
    b_bend(s, i); b_cend(s, bend(s, i)); bend_bend(s, i);
    match cend(s, bend(s, i)) { Some(c) => if i < c <= s.len() { skip_skip(s, c); }, None => {} }
}
pub proof fn b_num(s: Txt, i: int) ensures num_end(s, i) matches Some(j) ==> i < j <= s.len() {
    let a = if c_at(s, i, '-') { i + 1 } else { i };
    b_dend(s, a); b_dend(s, dend(s, a) + 1); b_dend(s, a + 1);
}
pub proof fn b_plain(s: Txt, i: int) ensures plain_end(s, i) matches Some(j) ==> i < j <= s.len() { b_num(s, i); b_wend(s, i); if 0 <= i < s.len() { b_wend(s, i + 1); } }
pub proof fn b_lex(s: Txt, i: int) ensures lex(s, i) matches Some(j) ==> i < j <= s.len() { b_plain(s, i); b_qend(s, i + 1); b_hend(s, i + 1, 1); }

pub proof fn l_digits(s: Txt, i: int, at: At, n: nat)
    requires !(at is N)
    ensures ok0(run(G::Star(Box::new(G::Call(Rl::ASCII_DIGIT))), s, i, at, n), dend(s, i))
    decreases s.len() - i
{
    broadcast use {peg, lx};
    e_star(Box::new(G::Call(Rl::ASCII_DIGIT)), s, i, at, n);
    if 0 <= i < s.len() && dg(s[i]) { l_digits(s, i + 1, at, n); }
}
pub open spec fn g_a() -> G { G::Alt(Box::new(G::Alt(Box::new(G::Rng('a', 'z')), Box::new(G::Rng('A', 'Z')))), Box::new(G::Str(Seq::<char>::empty().push('_')))) }
pub proof fn l_letters(s: Txt, i: int, at: At, n: nat)
    requires !(at is N)
    ensures ok0(run(G::Star(Box::new(G::Cat(Box::new(G::Call(Rl::skip)), Box::new(g_a())))), s, i, at, n), aend(s, i))
    decreases s.len() - i
{
    broadcast use {peg, lx};
    e_star(Box::new(G::Cat(Box::new(G::Call(Rl::skip)), Box::new(g_a()))), s, i, at, n);
    if 0 <= i < s.len() && w0(s[i]) { l_letters(s, i + 1, at, n); }
}
pub proof fn l_word(s: Txt, i: int, at: At, n: nat)
    requires !(at is N)
    ensures to0(run(G::Call(Rl::word), s, i, at, n), if 0 <= i < s.len() && w0(s[i]) { Some(aend(s, i)) } else { None })
{
    broadcast use {peg, lx};
    if n > 0 && 0 <= i < s.len() && w0(s[i]) {
        l_letters(s, i + 2, at, (n - 1) as nat);
        if i + 1 < s.len() && w0(s[i + 1]) { assert(aend(s, i + 1) == aend(s, i + 2)); } else { assert(aend(s, i + 1) == i + 1); }
    }
}
pub proof fn wend_aend(s: Txt, i: int) ensures wend(s, aend(s, i)) == wend(s, i) decreases s.len() - i { if 0 <= i < s.len() && w0(s[i]) { wend_aend(s, i + 1); } }
pub proof fn l_words(s: Txt, i: int, at: At, n: nat)
    requires !(at is N)
    ensures ok0(run(G::Star(Box::new(G::Alt(Box::new(G::Call(Rl::word)), Box::new(G::Call(Rl::ASCII_DIGIT))))), s, i, at, n), wend(s, i))
    decreases s.len() - i
{
    broadcast use {peg, lx};
    let x = G::Alt(Box::new(G::Call(Rl::word)), Box::new(G::Call(Rl::ASCII_DIGIT)));
    e_star(Box::new(x), s, i, at, n);
    l_word(s, i, at, n); wend_aend(s, i); b_aend(s, i);
    if 0 <= i < s.len() && w0(s[i]) { b_aend(s, i + 1); l_words(s, aend(s, i), at, n); }
    else if 0 <= i < s.len() && dg(s[i]) { l_words(s, i + 1, at, n); }
}
pub proof fn l_number(s: Txt, i: int, at: At, n: nat)
    requires !(at is N)
    ensures to(run(G::Call(Rl::number), s, i, at, n), num_end(s, i))
{
    broadcast use {peg, lx};
    if n > 0 {
        let a = if c_at(s, i, '-') { i + 1 } else { i };
        let m = (n - 1) as nat;
        l_digits(s, a + 1, At::C, m); b_dend(s, a); b_dend(s, a + 1);
        l_digits(s, dend(s, a) + 1, At::C, m);
        l_digits(s, a + 2, At::C, m); b_dend(s, a + 2);
    }
}
pub proof fn l_plain(s: Txt, i: int, at: At, n: nat)
    ensures run(G::Call(Rl::plain), s, i, at, n) matches Res::Ok { j, kids, toks } ==> plain_end(s, i) == Some(j) && toks == emit(at, s, i, j)
            && (at is N ==> kids.len() == 1 && kids[0].rule is plain && kids[0].text == s.subrange(i, j) && kids[0].toks == t0()),
        run(G::Call(Rl::plain), s, i, at, n) is Fail ==> plain_end(s, i) is None
{
    broadcast use {peg, lx};
    reveal(k1);
    if n > 0 {
        let m = (n - 1) as nat;
        l_word(s, i, At::C, m); wend_aend(s, i); l_words(s, aend(s, i), At::C, m); l_number(s, i, At::C, m);
    }
}

// quoted strings
pub proof fn l_chars(s: Txt, i: int, n: nat)
    requires 0 <= i
    ensures match run(G::Star(Box::new(G::Call(Rl::char))), s, i, At::C, n) {
        Res::Ok { j, toks, .. } => toks == t0() && i <= j && (match qend(s, i) { Some(k) => j == k - 1 && c_at(s, j, '"'), None => !c_at(s, j, '"') }),
        Res::Fail => false, Res::Out => true }
    decreases s.len() - i
{
    broadcast use {peg, lx};
    e_star(Box::new(G::Call(Rl::char)), s, i, At::C, n);
    if i + 1 < s.len() { l_chars(s, i + 2, n); }
    if i < s.len() { l_chars(s, i + 1, n); }
}
pub proof fn l_string(s: Txt, i: int, at: At, n: nat)
    requires 0 <= i
    ensures run(G::Call(Rl::string_qt), s, i, at, n) matches Res::Ok { j, kids, toks } ==> str_end(s, i) == Some(j) && toks == emit(at, s, i, j)
            && (at is N ==> kids.len() == 1 && kids[0].rule is string_qt && kids[0].text == s.subrange(i, j) && kids[0].toks == t0()),
        run(G::Call(Rl::string_qt), s, i, at, n) is Fail ==> str_end(s, i) is None
{
    broadcast use {peg, lx};
    reveal(k1);
    if n > 0 { l_chars(s, i + 1, (n - 1) as nat); b_qend(s, i + 1); }
}
// html strings
pub proof fn hend_nest(s: Txt, i: int, d: nat)
    requires d >= 1
    ensures hend(s, i, d + 1) == (match hend(s, i, 1) { Some(k) => hend(s, k, d), None => None })
    decreases s.len() - i
{
    if 0 <= i < s.len() {
        if s[i] == '<' { hend_nest(s, i + 1, d + 1); hend_nest(s, i + 1, 1); b_hend(s, i + 1, 1);
            match hend(s, i + 1, 1) { Some(k) => { hend_nest(s, k, d); }, None => {} } }
        else if s[i] == '>' {} else { hend_nest(s, i + 1, d); }
    }
}
pub open spec fn hp_is(r: Res, s: Txt, i: int) -> bool {
    match r {
        Res::Out => true,
        Res::Fail => !(0 <= i < s.len()) || s[i] == '>' || (s[i] == '<' && hend(s, i + 1, 1) is None),
        Res::Ok { j, kids, toks } => toks == t0() && 0 <= i < s.len() && s[i] != '>' && (if s[i] == '<' { hend(s, i + 1, 1) == Some(j) } else { j == i + 1 }),
    }
}
pub open spec fn hs_is(r: Res, s: Txt, i: int) -> bool {
    match r {
        Res::Out => true,
        Res::Fail => false,
        Res::Ok { j, toks, .. } => toks == t0() && i <= j && (match hend(s, i, 1) { Some(k) => j == k - 1 && c_at(s, j, '>'), None => !c_at(s, j, '>') }),
    }
}
pub open spec fn g_hs() -> G { G::Star(Box::new(G::Cat(Box::new(G::Call(Rl::skip)), Box::new(G::Call(Rl::html_part))))) }
pub proof fn l_hpart(s: Txt, i: int, n: nat)
    requires 0 <= i
    ensures hp_is(run(G::Call(Rl::html_part), s, i, At::C, n), s, i)
    decreases n, 0int, 0int
{
    broadcast use {peg, is_at1_b};
    e_call(Rl::html_part, s, i, At::C, n);
    if n > 0 {
        let m = (n - 1) as nat;
        assert forall|k: int| #[trigger] run(G::Call(Rl::skip), s, k, At::C, m) == (if m == 0 { Res::Out } else { Res::Ok { j: k, kids: k0(), toks: t0() } }) by { e_call(Rl::skip, s, k, At::C, m); }
        e_call(Rl::ANY, s, i, At::C, m);
        l_hpart(s, i + 1, m);
        b_hend(s, i + 2, 1); b_hend(s, i + 1, 1);
        if i + 1 < s.len() {
            hend_nest(s, i + 2, 1);
            if s[i + 1] == '<' { match hend(s, i + 2, 1) { Some(k) => { l_hstar(s, k, m); b_hend(s, k, 1); }, None => {} } }
            else { l_hstar(s, i + 2, m); }
        }
    }
}
pub proof fn l_hstar(s: Txt, i: int, n: nat)
    requires 0 <= i
    ensures hs_is(run(g_hs(), s, i, At::C, n), s, i)
    decreases n, 1int, s.len() - i
{
    broadcast use {peg, is_at1_b};
    e_star(Box::new(G::Cat(Box::new(G::Call(Rl::skip)), Box::new(G::Call(Rl::html_part)))), s, i, At::C, n);
    e_call(Rl::skip, s, i, At::C, n);
    l_hpart(s, i, n); b_hend(s, i + 1, 1); b_hend(s, i, 1);
    if i < s.len() {
        hend_nest(s, i + 1, 1);
        if s[i] == '<' { match hend(s, i + 1, 1) { Some(k) => { l_hstar(s, k, n); }, None => {} } }
        else { l_hstar(s, i + 1, n); }
    }
}
pub proof fn l_hstar2(s: Txt, i: int, n: nat)
    requires 0 <= i
    ensures hs_is(run(G::Star(Box::new(G::Call(Rl::html_part))), s, i, At::C, n), s, i)
    decreases s.len() - i
{
    broadcast use {peg, is_at1_b};
    e_star(Box::new(G::Call(Rl::html_part)), s, i, At::C, n);
    l_hpart(s, i, n); b_hend(s, i + 1, 1); b_hend(s, i, 1);
    if i < s.len() {
        hend_nest(s, i + 1, 1);
        if s[i] == '<' { match hend(s, i + 1, 1) { Some(k) => { l_hstar2(s, k, n); }, None => {} } }
        else { l_hstar2(s, i + 1, n); }
    }
}
pub proof fn l_html(s: Txt, i: int, at: At, n: nat)
    requires 0 <= i
    ensures run(G::Call(Rl::html), s, i, at, n) matches Res::Ok { j, kids, toks } ==> html_end(s, i) == Some(j) && toks == emit(at, s, i, j)
            && (at is N ==> kids.len() == 1 && kids[0].rule is html && kids[0].text == s.subrange(i, j) && kids[0].toks == t0()),
        run(G::Call(Rl::html), s, i, at, n) is Fail ==> html_end(s, i) is None
{
    broadcast use {peg, is_at1_b};
    reveal(k1);
    e_call(Rl::html, s, i, at, n);
    if n > 0 { l_hstar2(s, i + 1, (n - 1) as nat); b_hend(s, i + 1, 1); }
}
// blanks and comments
pub open spec fn atj(r: Res, o: Option<int>) -> bool { match r { Res::Out => true, Res::Fail => o is None, Res::Ok { j, kids, .. } => o == Some(j) && kids == k0() } }
pub proof fn l_blanks(s: Txt, i: int, n: nat)
    requires 0 <= i
    ensures atj(run(G::Star(Box::new(G::Call(Rl::WHITESPACE))), s, i, At::N, n), Some(bend(s, i)))
    decreases s.len() - i
{
    broadcast use {peg, lx};
    e_star(Box::new(G::Call(Rl::WHITESPACE)), s, i, At::N, n);
    if i < s.len() { l_blanks(s, i + 1, n); if i + 1 < s.len() { l_blanks(s, i + 2, n); } }
}
pub open spec fn g_bc() -> G { G::Cat(Box::new(G::Not(Box::new(G::Str(Seq::<char>::empty().push('*').push('/'))))), Box::new(G::Call(Rl::ANY))) }
pub proof fn l_bc(s: Txt, i: int, n: nat)
    requires 0 <= i
    ensures match run(G::Star(Box::new(g_bc())), s, i, At::A, n) {
        Res::Ok { j, kids, .. } => kids == k0() && (match bce(s, i) { Some(k) => j == k - 2 && c_at(s, j, '*') && c_at(s, j + 1, '/'), None => !(c_at(s, j, '*') && c_at(s, j + 1, '/')) }),
        Res::Fail => false, Res::Out => true }
    decreases s.len() - i
{
    broadcast use {peg, lx};
    e_star(Box::new(g_bc()), s, i, At::A, n);
    if i < s.len() { l_bc(s, i + 1, n); }
}
pub open spec fn g_lc() -> G { G::Cat(Box::new(G::Not(Box::new(G::Call(Rl::NEWLINE)))), Box::new(G::Call(Rl::ANY))) }
pub open spec fn nl_end(s: Txt, i: int) -> int { if c_at(s, i, '\n') { i + 1 } else if c_at(s, i, '\r') { if c_at(s, i + 1, '\n') { i + 2 } else { i + 1 } } else { i } }
pub proof fn l_lc(s: Txt, i: int, n: nat)
    requires 0 <= i
    ensures match run(G::Star(Box::new(g_lc())), s, i, At::A, n) {
        Res::Ok { j, kids, .. } => kids == k0() && nl_end(s, j) == lce(s, i),
        Res::Fail => false, Res::Out => true }
    decreases s.len() - i
{
    broadcast use {peg, lx};
    e_star(Box::new(g_lc()), s, i, At::A, n);
    if i < s.len() { l_lc(s, i + 1, n); }
}
pub proof fn l_comment(s: Txt, i: int, n: nat)
    requires 0 <= i
    ensures atj(run(G::Call(Rl::COMMENT), s, i, At::N, n), cend(s, i))
{
    broadcast use {peg, lx};
    if n > 0 { let m = (n - 1) as nat; l_bc(s, i + 2, m); l_lc(s, i + 2, m); l_lc(s, i + 1, m); }
}
pub open spec fn g_cw() -> G { G::Cat(Box::new(G::Call(Rl::COMMENT)), Box::new(G::Star(Box::new(G::Call(Rl::WHITESPACE))))) }
pub proof fn skip_bend(s: Txt, i: int) ensures skip_end(s, bend(s, i)) == skip_end(s, i) { b_bend(s, i); bend_bend(s, i); b_cend(s, bend(s, i)); }
pub proof fn l_skips(s: Txt, i: int, n: nat)
    requires 0 <= i <= s.len(), bend(s, i) == i
    ensures atj(run(G::Star(Box::new(g_cw())), s, i, At::N, n), Some(skip_end(s, i)))
    decreases s.len() - i
{
    broadcast use {peg};
    e_star(Box::new(g_cw()), s, i, At::N, n);
    l_comment(s, i, n); b_cend(s, i);
    match cend(s, i) { Some(c) => { l_blanks(s, c, n); b_bend(s, c); bend_bend(s, c); skip_bend(s, c); l_skips(s, bend(s, c), n); }, None => {} }
}
pub proof fn l_skip(s: Txt, i: int, at: At, n: nat)
    requires 0 <= i <= s.len()
    ensures ok0(run(G::Call(Rl::skip), s, i, at, n), if at is N { skip_end(s, i) } else { i })
{
    broadcast use {peg};
    e_call(Rl::skip, s, i, at, n);
    if n > 0 { let m = (n - 1) as nat; l_blanks(s, i, m); b_bend(s, i); bend_bend(s, i); skip_bend(s, i); l_skips(s, bend(s, i), m); }
}
// words that mean something
pub open spec fn all_w(l: Txt) -> bool { forall|k: int| 0 <= k < l.len() ==> wc(#[trigger] l[k]) }
pub proof fn wend_at(s: Txt, i: int, j: int)
    requires 0 <= i <= j <= s.len(), forall|k: int| i <= k < j ==> wc(#[trigger] s[k])
    ensures wend(s, i) == wend(s, j)
    decreases j - i
{ if i < j { wend_at(s, i + 1, j); } }
pub proof fn wend_all(s: Txt, i: int) ensures forall|k: int| i <= k < wend(s, i) ==> wc(#[trigger] s[k]) decreases s.len() - i { if 0 <= i < s.len() && wc(s[i]) { wend_all(s, i + 1); } }
/// the word l stands at i, in full
pub open spec fn word_at(s: Txt, i: int, l: Txt) -> bool { 0 <= i <= s.len() && wend(s, i) == i + l.len() && s.subrange(i, i + l.len()) == l }
pub proof fn l_kw(s: Txt, i: int, l: Txt)
    requires 0 <= i <= s.len(), all_w(l), l.len() > 0
    ensures word_at(s, i, l) == (is_at(s, i, l) && !(i + l.len() < s.len() && wc(s[i + l.len()])))
{
    b_wend(s, i);
    if is_at(s, i, l) {
        assert forall|k: int| i <= k < i + l.len() implies wc(#[trigger] s[k]) by { assert(s.subrange(i, i + l.len())[k - i] == s[k]); assert(wc(l[k - i])); }
        wend_at(s, i, i + l.len());
    }
}

pub proof fn l_nw(s: Txt, j: int, at: At, n: nat)
    requires !(at is N), 0 <= j
    ensures match run(G::Not(Box::new(G::Alt(Box::new(G::Call(Rl::word)), Box::new(G::Call(Rl::ASCII_DIGIT))))), s, j, at, n) {
        Res::Ok { j: j2, kids, toks } => j2 == j && kids == k0() && toks == t0() && !(j < s.len() && wc(s[j])),
        Res::Fail => j < s.len() && wc(s[j]), Res::Out => true }
{
    broadcast use {peg, lx};
    l_word(s, j, at, n);
}
pub open spec fn e() -> Txt { Seq::<char>::empty() }
pub open spec fn point(t: Txt) -> bool {
    t == e().push('n').push('e') || t == e().push('n').push('w') || t == e().push('n') || t == e().push('e') || t == e().push('s').push('e')
    || t == e().push('s').push('w') || t == e().push('s') || t == e().push('w') || t == e().push('c') || t == e().push('_')
}
pub open spec fn k_graph() -> Txt { e().push('g').push('r').push('a').push('p').push('h') }
pub open spec fn k_digraph() -> Txt { e().push('d').push('i').push('g').push('r').push('a').push('p').push('h') }
pub open spec fn k_node() -> Txt { e().push('n').push('o').push('d').push('e') }
pub open spec fn k_edge() -> Txt { e().push('e').push('d').push('g').push('e') }
pub open spec fn k_strict() -> Txt { e().push('s').push('t').push('r').push('i').push('c').push('t') }
pub open spec fn k_subgraph() -> Txt { e().push('s').push('u').push('b').push('g').push('r').push('a').push('p').push('h') }
pub open spec fn mark(t: Txt) -> bool { t == k_graph() || t == k_node() || t == k_edge() }
pub open spec fn ty(t: Txt) -> bool { t == k_graph() || t == k_digraph() }
/// the word at i, as long as it goes
pub open spec fn word_of(s: Txt, i: int) -> Txt { s.subrange(i, wend(s, i)) }
/// one rule whose text is a word of the set p
pub open spec fn kw_is(res: Res, s: Txt, i: int, at: At, r: Rule, p: bool) -> bool {
    match res {
        Res::Out => true,
        Res::Fail => !p,
        Res::Ok { j, kids, toks } => p && j == wend(s, i) && toks == emit(at, s, i, j) && (!(at is A) ==> kids == k1(Tree { rule: r, text: s.subrange(i, j), kids: k0(), toks: t0() })),
    }
}
pub proof fn l_compass(s: Txt, i: int, at: At, n: nat)
    requires 0 <= i <= s.len()
    ensures kw_is(run(G::Call(Rl::compass), s, i, at, n), s, i, at, Rule::compass, point(word_of(s, i)))
{
    broadcast use {peg, is_at1_b, is_at2_b};
    e_call(Rl::compass, s, i, at, n);
    b_wend(s, i);
    if n > 0 {
        let m = (n - 1) as nat;
        if i + 1 <= s.len() { l_nw(s, i + 1, At::C, m); }
        if i + 2 <= s.len() { l_nw(s, i + 2, At::C, m); }
        let t = word_of(s, i);
        if i < s.len() && wc(s[i]) { b_wend(s, i + 1); if i + 1 < s.len() && wc(s[i + 1]) { b_wend(s, i + 2); } }
        assert(t.len() > 0 ==> t[0] == s[i]); assert(t.len() > 1 ==> t[1] == s[i + 1]);
        assert(t.len() == 1 ==> t =~= e().push(s[i]));
        assert(t.len() == 2 ==> t =~= e().push(s[i]).push(s[i + 1]));
        assert(forall|c: char| (#[trigger] e().push(c)).len() == 1 && e().push(c)[0] == c);
        assert(forall|c: char, d: char| (#[trigger] e().push(c).push(d)).len() == 2 && e().push(c).push(d)[0] == c && e().push(c).push(d)[1] == d);
    }
}
pub proof fn l_strict(s: Txt, i: int, at: At, n: nat)
    requires 0 <= i <= s.len()
    ensures kw_is(run(G::Call(Rl::strict), s, i, at, n), s, i, at, Rule::strict, word_of(s, i) == k_strict())
{
    broadcast use {peg};
    e_call(Rl::strict, s, i, at, n); b_wend(s, i);
    if n > 0 { l_kw(s, i, k_strict()); if i + 6 <= s.len() { l_nw(s, i + 6, At::C, (n - 1) as nat); } }
}
pub proof fn l_graph_ty(s: Txt, i: int, at: At, n: nat)
    requires 0 <= i <= s.len()
    ensures kw_is(run(G::Call(Rl::graph_ty), s, i, at, n), s, i, at, Rule::graph_ty, ty(word_of(s, i)))
{
    broadcast use {peg};
    e_call(Rl::graph_ty, s, i, at, n); b_wend(s, i);
    if n > 0 {
        l_kw(s, i, k_graph()); l_kw(s, i, k_digraph());
        if i + 5 <= s.len() { l_nw(s, i + 5, At::C, (n - 1) as nat); } if i + 7 <= s.len() { l_nw(s, i + 7, At::C, (n - 1) as nat); }
        assert(k_graph()[0] == 'g' && k_digraph()[0] == 'd');
        if is_at(s, i, k_graph()) { assert(s.subrange(i, i + 5)[0] == s[i]); }
        if is_at(s, i, k_digraph()) { assert(s.subrange(i, i + 7)[0] == s[i]); }
    }
}
pub proof fn l_attr_mark(s: Txt, i: int, at: At, n: nat)
    requires 0 <= i <= s.len()
    ensures kw_is(run(G::Call(Rl::attr_mark), s, i, at, n), s, i, at, Rule::attr_mark, mark(word_of(s, i)))
{
    broadcast use {peg};
    e_call(Rl::attr_mark, s, i, at, n); b_wend(s, i);
    if n > 0 {
        l_kw(s, i, k_graph()); l_kw(s, i, k_node()); l_kw(s, i, k_edge());
        if i + 5 <= s.len() { l_nw(s, i + 5, At::C, (n - 1) as nat); } if i + 4 <= s.len() { l_nw(s, i + 4, At::C, (n - 1) as nat); }
        assert(k_graph()[0] == 'g' && k_node()[0] == 'n' && k_edge()[0] == 'e');
        if is_at(s, i, k_graph()) { assert(s.subrange(i, i + 5)[0] == s[i]); }
        if is_at(s, i, k_node()) { assert(s.subrange(i, i + 4)[0] == s[i]); }
        if is_at(s, i, k_edge()) { assert(s.subrange(i, i + 4)[0] == s[i]); }
    }
}
pub proof fn l_subgraph_mark(s: Txt, i: int, at: At, n: nat)
    requires 0 <= i <= s.len()
    ensures match run(G::Call(Rl::subgraph_mark), s, i, at, n) { Res::Out => true, Res::Fail => word_of(s, i) != k_subgraph(), Res::Ok { .. } => word_of(s, i) == k_subgraph() }
{
    broadcast use {peg};
    e_call(Rl::subgraph_mark, s, i, at, n); b_wend(s, i);
    if n > 0 { l_kw(s, i, k_subgraph()); if i + 8 <= s.len() { l_nw(s, i + 8, At::A, (n - 1) as nat); } }
}
