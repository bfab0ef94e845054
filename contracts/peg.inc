// ---- the meaning of the combinators pest generates code for (assumed contract of pest 2; see DESIGN.md) ----
pub ghost enum At { N, C, A }
/// a pair of the parse tree: its rule, its text, the pairs inside, and the words and signs its text is made of
pub ghost struct Tree { pub rule: Rule, pub text: Txt, pub kids: Seq<Tree>, pub toks: Seq<Txt> }
pub ghost enum G {
    Str(Txt), Rng(char, char), Any, Soi, Eoi,
    Cat(Box<G>, Box<G>), Alt(Box<G>, Box<G>), Star(Box<G>), Opt(Box<G>), Not(Box<G>), And(Box<G>),
    Call(Rl), Tag(Rule, Box<G>), Atom(At, Box<G>), NonAt(Box<G>),
}
/// Out: no answer with this much fuel (or at all)
pub ghost enum Res { Out, Fail, Ok { j: int, kids: Seq<Tree>, toks: Seq<Txt> } }

// sequences of trees and of words, kept opaque; normal form left-nested
#[verifier::opaque]
pub open spec fn tc(a: Seq<Txt>, b: Seq<Txt>) -> Seq<Txt> { a + b }
#[verifier::opaque]
pub open spec fn t1(a: Txt) -> Seq<Txt> { seq![a] }
#[verifier::opaque]
pub open spec fn t0() -> Seq<Txt> { seq![] }
pub broadcast proof fn tc_assoc(a: Seq<Txt>, b: Seq<Txt>, c: Seq<Txt>) ensures #[trigger] tc(a, tc(b, c)) == tc(tc(a, b), c) { reveal(tc); assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn tc_nil(a: Seq<Txt>) ensures #[trigger] tc(a, t0()) == a { reveal(tc); reveal(t0); assert(a + Seq::<Txt>::empty() =~= a); }
pub broadcast proof fn nil_tc(a: Seq<Txt>) ensures #[trigger] tc(t0(), a) == a { reveal(tc); reveal(t0); assert(Seq::<Txt>::empty() + a =~= a); }
pub broadcast group tok_norm { tc_assoc, tc_nil, nil_tc }
#[verifier::opaque]
pub open spec fn kc(a: Seq<Tree>, b: Seq<Tree>) -> Seq<Tree> { a + b }
#[verifier::opaque]
pub open spec fn k1(a: Tree) -> Seq<Tree> { seq![a] }
#[verifier::opaque]
pub open spec fn k0() -> Seq<Tree> { seq![] }
pub broadcast proof fn kc_assoc(a: Seq<Tree>, b: Seq<Tree>, c: Seq<Tree>) ensures #[trigger] kc(a, kc(b, c)) == kc(kc(a, b), c) { reveal(kc); assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn kc_nil(a: Seq<Tree>) ensures #[trigger] kc(a, k0()) == a { reveal(kc); reveal(k0); assert(a + Seq::<Tree>::empty() =~= a); }
pub broadcast proof fn nil_kc(a: Seq<Tree>) ensures #[trigger] kc(k0(), a) == a { reveal(kc); reveal(k0); assert(Seq::<Tree>::empty() + a =~= a); }
pub broadcast group kid_norm { kc_assoc, kc_nil, nil_kc }

pub open spec fn is_at(s: Txt, i: int, l: Txt) -> bool { 0 <= i && i + l.len() <= s.len() && s.subrange(i, i + l.len()) == l }
pub open spec fn emit(at: At, s: Txt, i: int, j: int) -> Seq<Txt> { if at is N { t1(s.subrange(i, j)) } else { t0() } }

#[verifier::opaque]
pub open spec fn run(g: G, s: Txt, i: int, at: At, n: nat) -> Res decreases n, g, s.len() - i {
    match g {
        G::Str(l) => if is_at(s, i, l) { Res::Ok { j: i + l.len(), kids: k0(), toks: emit(at, s, i, i + l.len()) } } else { Res::Fail },
        G::Rng(a, b) => if 0 <= i < s.len() && a <= s[i] && s[i] <= b { Res::Ok { j: i + 1, kids: k0(), toks: emit(at, s, i, i + 1) } } else { Res::Fail },
        G::Any => if 0 <= i < s.len() { Res::Ok { j: i + 1, kids: k0(), toks: emit(at, s, i, i + 1) } } else { Res::Fail },
        G::Soi => if i == 0 { Res::Ok { j: i, kids: k0(), toks: t0() } } else { Res::Fail },
        G::Eoi => if i == s.len() { Res::Ok { j: i, kids: k0(), toks: t0() } } else { Res::Fail },
        G::Cat(a, b) => match run(*a, s, i, at, n) {
            Res::Ok { j, kids, toks } => match run(*b, s, j, at, n) {
                Res::Ok { j: j2, kids: k2, toks: t2 } => Res::Ok { j: j2, kids: kc(kids, k2), toks: tc(toks, t2) },
                r => r,
            },
            r => r,
        },
        G::Alt(a, b) => match run(*a, s, i, at, n) { Res::Fail => run(*b, s, i, at, n), r => r },
        G::Opt(a) => match run(*a, s, i, at, n) { Res::Fail => Res::Ok { j: i, kids: k0(), toks: t0() }, r => r },
        G::Star(a) => match run(*a, s, i, at, n) {
            Res::Fail => Res::Ok { j: i, kids: k0(), toks: t0() },
            Res::Out => Res::Out,
            Res::Ok { j, kids, toks } => if j <= i || j > s.len() { Res::Out } else {
                match run(g, s, j, at, n) {
                    Res::Ok { j: j2, kids: k2, toks: t2 } => Res::Ok { j: j2, kids: kc(kids, k2), toks: tc(toks, t2) },
                    r => r,
                }
            },
        },
        G::Not(a) => match run(*a, s, i, at, n) { Res::Out => Res::Out, Res::Fail => Res::Ok { j: i, kids: k0(), toks: t0() }, _ => Res::Fail },
        G::And(a) => match run(*a, s, i, at, n) { Res::Ok { .. } => Res::Ok { j: i, kids: k0(), toks: t0() }, r => r },
        G::Call(r) => if n == 0 { Res::Out } else { run(body(r), s, i, at, (n - 1) as nat) },
        G::Tag(r, a) => match run(*a, s, i, at, n) {
            Res::Ok { j, kids, toks } => if at is A { Res::Ok { j, kids, toks } }
                else { Res::Ok { j, kids: k1(Tree { rule: r, text: s.subrange(i, j), kids, toks }), toks } },
            r => r,
        },
        G::Atom(b, a) => match run(*a, s, i, b, n) {
            Res::Ok { j, kids, toks } => Res::Ok { j, kids, toks: if at is N && !(b is N) { t1(s.subrange(i, j)) } else { toks } },
            r => r,
        },
        G::NonAt(a) => if at is N {
            match run(*a, s, i, at, n) { Res::Ok { j, kids, toks } => Res::Ok { j, kids, toks: t0() }, r => r }
        } else { Res::Ok { j: i, kids: k0(), toks: t0() } },
    }
}
// the equations of `run`, one per combinator
pub broadcast proof fn e_str(l: Txt, s: Txt, i: int, at: At, n: nat)
    ensures #[trigger] run(G::Str(l), s, i, at, n) == (if is_at(s, i, l) { Res::Ok { j: i + l.len(), kids: k0(), toks: emit(at, s, i, i + l.len()) } } else { Res::Fail }) { reveal(run); }
pub broadcast proof fn e_rng(a: char, b: char, s: Txt, i: int, at: At, n: nat)
    ensures #[trigger] run(G::Rng(a, b), s, i, at, n) == (if 0 <= i < s.len() && a <= s[i] && s[i] <= b { Res::Ok { j: i + 1, kids: k0(), toks: emit(at, s, i, i + 1) } } else { Res::Fail }) { reveal(run); }
pub broadcast proof fn e_any(s: Txt, i: int, at: At, n: nat)
    ensures #[trigger] run(G::Any, s, i, at, n) == (if 0 <= i < s.len() { Res::Ok { j: i + 1, kids: k0(), toks: emit(at, s, i, i + 1) } } else { Res::Fail }) { reveal(run); }
pub broadcast proof fn e_soi(s: Txt, i: int, at: At, n: nat)
    ensures #[trigger] run(G::Soi, s, i, at, n) == (if i == 0 { Res::Ok { j: i, kids: k0(), toks: t0() } } else { Res::Fail }) { reveal(run); }
pub broadcast proof fn e_eoi(s: Txt, i: int, at: At, n: nat)
    ensures #[trigger] run(G::Eoi, s, i, at, n) == (if i == s.len() { Res::Ok { j: i, kids: k0(), toks: t0() } } else { Res::Fail }) { reveal(run); }
pub broadcast proof fn e_cat(a: Box<G>, b: Box<G>, s: Txt, i: int, at: At, n: nat)
    ensures #[trigger] run(G::Cat(a, b), s, i, at, n) == (match run(*a, s, i, at, n) {
            Res::Ok { j, kids, toks } => match run(*b, s, j, at, n) {
                Res::Ok { j: j2, kids: k2, toks: t2 } => Res::Ok { j: j2, kids: kc(kids, k2), toks: tc(toks, t2) },
                r => r,
            },
            r => r,
        }) { reveal(run); }
pub broadcast proof fn e_alt(a: Box<G>, b: Box<G>, s: Txt, i: int, at: At, n: nat)
    ensures #[trigger] run(G::Alt(a, b), s, i, at, n) == (match run(*a, s, i, at, n) { Res::Fail => run(*b, s, i, at, n), r => r }) { reveal(run); }
pub broadcast proof fn e_opt(a: Box<G>, s: Txt, i: int, at: At, n: nat)
    ensures #[trigger] run(G::Opt(a), s, i, at, n) == (match run(*a, s, i, at, n) { Res::Fail => Res::Ok { j: i, kids: k0(), toks: t0() }, r => r }) { reveal(run); }
/// not broadcast: unfolds one round of a loop
pub proof fn e_star(a: Box<G>, s: Txt, i: int, at: At, n: nat)
    ensures run(G::Star(a), s, i, at, n) == (match run(*a, s, i, at, n) {
            Res::Fail => Res::Ok { j: i, kids: k0(), toks: t0() },
            Res::Out => Res::Out,
            Res::Ok { j, kids, toks } => if j <= i || j > s.len() { Res::Out } else {
                match run(G::Star(a), s, j, at, n) {
                    Res::Ok { j: j2, kids: k2, toks: t2 } => Res::Ok { j: j2, kids: kc(kids, k2), toks: tc(toks, t2) },
                    r => r,
                }
            },
        }) { reveal(run); }
pub broadcast proof fn e_not(a: Box<G>, s: Txt, i: int, at: At, n: nat)
    ensures #[trigger] run(G::Not(a), s, i, at, n) == (match run(*a, s, i, at, n) { Res::Out => Res::Out, Res::Fail => Res::Ok { j: i, kids: k0(), toks: t0() }, _ => Res::Fail }) { reveal(run); }
pub broadcast proof fn e_and(a: Box<G>, s: Txt, i: int, at: At, n: nat)
    ensures #[trigger] run(G::And(a), s, i, at, n) == (match run(*a, s, i, at, n) { Res::Ok { .. } => Res::Ok { j: i, kids: k0(), toks: t0() }, r => r }) { reveal(run); }
pub proof fn e_call(r: Rl, s: Txt, i: int, at: At, n: nat)
    ensures run(G::Call(r), s, i, at, n) == (if n == 0 { Res::Out } else { run(body(r), s, i, at, (n - 1) as nat) }) { reveal(run); }
pub broadcast proof fn e_tag(r: Rule, a: Box<G>, s: Txt, i: int, at: At, n: nat)
    ensures #[trigger] run(G::Tag(r, a), s, i, at, n) == (match run(*a, s, i, at, n) {
            Res::Ok { j, kids, toks } => if at is A { Res::Ok { j, kids, toks } }
                else { Res::Ok { j, kids: k1(Tree { rule: r, text: s.subrange(i, j), kids, toks }), toks } },
            r => r,
        }) { reveal(run); }
pub broadcast proof fn e_atom(b: At, a: Box<G>, s: Txt, i: int, at: At, n: nat)
    ensures #[trigger] run(G::Atom(b, a), s, i, at, n) == (match run(*a, s, i, b, n) {
            Res::Ok { j, kids, toks } => Res::Ok { j, kids, toks: if at is N && !(b is N) { t1(s.subrange(i, j)) } else { toks } },
            r => r,
        }) { reveal(run); }
pub broadcast proof fn e_nonat(a: Box<G>, s: Txt, i: int, at: At, n: nat)
    ensures #[trigger] run(G::NonAt(a), s, i, at, n) == (if at is N {
            match run(*a, s, i, at, n) { Res::Ok { j, kids, toks } => Res::Ok { j, kids, toks: t0() }, r => r }
        } else { Res::Ok { j: i, kids: k0(), toks: t0() } }) { reveal(run); }
pub broadcast group peg { e_str, e_rng, e_any, e_soi, e_eoi, e_cat, e_alt, e_opt, e_not, e_and, e_tag, e_atom, e_nonat, tok_norm, kid_norm }

pub proof fn star_stop(a: Box<G>, s: Txt, i: int, at: At, n: nat)
    ensures match run(G::Star(a), s, i, at, n) { Res::Ok { j, .. } => run(*a, s, j, at, n) is Fail && i <= j && (j == i || j <= s.len()), Res::Fail => false, _ => true }
    decreases s.len() - i
{
    e_star(a, s, i, at, n);
    match run(*a, s, i, at, n) { Res::Ok { j, .. } => { if i < j <= s.len() { star_stop(a, s, j, at, n); } }, _ => {} }
}

// ---- what a text consists of, independently of the grammar: blanks and comments, words, numerals, strings, signs ----
pub open spec fn w0(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '_' }
pub open spec fn dg(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn wc(c: char) -> bool { w0(c) || dg(c) }
/// the end of the letters and underscores from i on
pub open spec fn aend(s: Txt, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && w0(s[i]) { aend(s, i + 1) } else { i } }
/// the end of the letters, digits and underscores from i on
pub open spec fn wend(s: Txt, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && wc(s[i]) { wend(s, i + 1) } else { i } }
pub open spec fn dend(s: Txt, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && dg(s[i]) { dend(s, i + 1) } else { i } }
pub open spec fn c_at(s: Txt, i: int, c: char) -> bool { 0 <= i < s.len() && s[i] == c }
/// a numeral: -?(digits(.digits*)?|.digits)
pub open spec fn num_end(s: Txt, i: int) -> Option<int> {
    let a = if c_at(s, i, '-') { i + 1 } else { i };
    let b = dend(s, a);
    if b > a { if c_at(s, b, '.') { Some(dend(s, b + 1)) } else { Some(b) } }
    else if c_at(s, a, '.') && dend(s, a + 1) > a + 1 { Some(dend(s, a + 1)) }
    else { None }
}
pub open spec fn plain_end(s: Txt, i: int) -> Option<int> { if 0 <= i < s.len() && w0(s[i]) { Some(wend(s, i)) } else { num_end(s, i) } }
/// i is inside a double-quoted string: the position after the quote that ends it
pub open spec fn qend(s: Txt, i: int) -> Option<int> decreases s.len() - i {
    if !(0 <= i < s.len()) { None }
    else if s[i] == '"' { Some(i + 1) }
    else if s[i] == '\\' { if i + 1 < s.len() { qend(s, i + 2) } else { None } }
    else { qend(s, i + 1) }
}
/// i is inside d open brackets: the position after the bracket that closes the first
pub open spec fn hend(s: Txt, i: int, d: nat) -> Option<int> decreases s.len() - i {
    if !(0 <= i < s.len()) { None }
    else if s[i] == '<' { hend(s, i + 1, d + 1) }
    else if s[i] == '>' { if d <= 1 { Some(i + 1) } else { hend(s, i + 1, (d - 1) as nat) } }
    else { hend(s, i + 1, d) }
}
pub open spec fn html_end(s: Txt, i: int) -> Option<int> { if c_at(s, i, '<') { hend(s, i + 1, 1) } else { None } }
pub open spec fn str_end(s: Txt, i: int) -> Option<int> { if c_at(s, i, '"') { qend(s, i + 1) } else { None } }
/// the end of the blanks from i on: space, tab, line feed, carriage return with line feed
pub open spec fn bend(s: Txt, i: int) -> int decreases s.len() - i {
    if !(0 <= i < s.len()) { i }
    else if s[i] == ' ' || s[i] == '\t' || s[i] == '\n' { bend(s, i + 1) }
    else if s[i] == '\r' && c_at(s, i + 1, '\n') { bend(s, i + 2) }
    else { i }
}
/// i is inside a block comment: the position after it
pub open spec fn bce(s: Txt, i: int) -> Option<int> decreases s.len() - i {
    if !(0 <= i < s.len()) { None } else if s[i] == '*' && c_at(s, i + 1, '/') { Some(i + 2) } else { bce(s, i + 1) }
}
/// i is inside a line comment: the position after it and its line break
pub open spec fn lce(s: Txt, i: int) -> int decreases s.len() - i {
    if !(0 <= i < s.len()) { i }
    else if s[i] == '\n' { i + 1 }
    else if s[i] == '\r' { if c_at(s, i + 1, '\n') { i + 2 } else { i + 1 } }
    else { lce(s, i + 1) }
}
pub open spec fn cend(s: Txt, i: int) -> Option<int> {
    if c_at(s, i, '/') && c_at(s, i + 1, '*') { bce(s, i + 2) }
    else if c_at(s, i, '/') && c_at(s, i + 1, '/') { Some(lce(s, i + 2)) }
    else if c_at(s, i, '#') { Some(lce(s, i + 1)) }
    else { None }
}
/// the end of the blanks and comments from i on
pub open spec fn skip_end(s: Txt, i: int) -> int decreases s.len() - i {
    let b = bend(s, i);
    match cend(s, b) { Some(c) => if i < c <= s.len() { skip_end(s, c) } else { b }, None => b }
}
pub open spec fn sign(c: char) -> bool { c == '{' || c == '}' || c == '[' || c == ']' || c == '=' || c == ':' || c == ';' || c == ',' }
/// the end of the word, numeral, string or sign that starts at i
pub open spec fn lex(s: Txt, i: int) -> Option<int> {
    if !(0 <= i < s.len()) { None }
    else if sign(s[i]) { Some(i + 1) }
    else if s[i] == '"' { str_end(s, i) }
    else if s[i] == '<' { html_end(s, i) }
    else if s[i] == '-' && (c_at(s, i + 1, '>') || c_at(s, i + 1, '-')) { Some(i + 2) }
    else { plain_end(s, i) }
}
/// after blanks and comments, the next thing at i is t: where it ends
pub open spec fn eats(s: Txt, i: int, t: Txt) -> Option<int> {
    let a = skip_end(s, i);
    match lex(s, a) { Some(b) => if s.subrange(a, b) == t { Some(b) } else { None }, None => None }
}
/// the text from i to j consists of these things, in this order, each taken in full, between blanks and comments
pub open spec fn lexes(s: Txt, i: int, j: int, toks: Seq<Txt>) -> bool decreases toks.len() {
    if toks.len() == 0 { j == i || j == skip_end(s, i) }
    else { match eats(s, i, toks[0]) { Some(b) => lexes(s, b, j, toks.skip(1)), None => false } }
}
