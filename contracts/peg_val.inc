// ---- the answer of a term, whatever the fuel; that there is one ----
/// more fuel, same answer
pub proof fn mono(g: G, s: Txt, i: int, at: At, n: nat, m: nat)
    requires n <= m, !(run(g, s, i, at, n) is Out)
    ensures run(g, s, i, at, m) == run(g, s, i, at, n)
    decreases n, g, s.len() - i
{
    broadcast use {peg};
    match g {
        G::Cat(a, b) => { e_cat(a, b, s, i, at, n); e_cat(a, b, s, i, at, m); mono(*a, s, i, at, n, m); match run(*a, s, i, at, n) { Res::Ok { j, .. } => { mono(*b, s, j, at, n, m); }, _ => {} } },
        G::Alt(a, b) => { e_alt(a, b, s, i, at, n); e_alt(a, b, s, i, at, m); mono(*a, s, i, at, n, m); if run(*a, s, i, at, n) is Fail { mono(*b, s, i, at, n, m); } },
        G::Star(a) => {
            e_star(a, s, i, at, n); e_star(a, s, i, at, m); mono(*a, s, i, at, n, m);
            match run(*a, s, i, at, n) { Res::Ok { j, .. } => { if i < j <= s.len() { mono(g, s, j, at, n, m); } }, _ => {} }
        },
        G::Opt(a) => { e_opt(a, s, i, at, n); e_opt(a, s, i, at, m); mono(*a, s, i, at, n, m); },
        G::Not(a) => { e_not(a, s, i, at, n); e_not(a, s, i, at, m); mono(*a, s, i, at, n, m); },
        G::And(a) => { e_and(a, s, i, at, n); e_and(a, s, i, at, m); mono(*a, s, i, at, n, m); },
        G::Tag(r, a) => { e_tag(r, a, s, i, at, n); e_tag(r, a, s, i, at, m); mono(*a, s, i, at, n, m); },
        G::Atom(b, a) => { e_atom(b, a, s, i, at, n); e_atom(b, a, s, i, at, m); mono(*a, s, i, b, n, m); },
        G::NonAt(a) => { e_nonat(a, s, i, at, n); e_nonat(a, s, i, at, m); if at is N { mono(*a, s, i, at, n, m); } },
        G::Call(r) => { e_call(r, s, i, at, n); e_call(r, s, i, at, m); mono(body(r), s, i, at, (n - 1) as nat, (m - 1) as nat); },
        G::Str(l) => { e_str(l, s, i, at, n); e_str(l, s, i, at, m); },
        G::Rng(a, b) => { e_rng(a, b, s, i, at, n); e_rng(a, b, s, i, at, m); },
        G::Any => { e_any(s, i, at, n); e_any(s, i, at, m); },
        G::Soi => { e_soi(s, i, at, n); e_soi(s, i, at, m); },
        G::Eoi => { e_eoi(s, i, at, n); e_eoi(s, i, at, m); },
    }
}
pub open spec fn answers(g: G, s: Txt, i: int, at: At) -> bool { exists|n: nat| !(#[trigger] run(g, s, i, at, n) is Out) }
/// the answer with enough fuel; Out if no amount is enough
#[verifier::opaque]
pub open spec fn val(g: G, s: Txt, i: int, at: At) -> Res { if answers(g, s, i, at) { run(g, s, i, at, choose|n: nat| !(#[trigger] run(g, s, i, at, n) is Out)) } else { Res::Out } }
pub proof fn val_is(g: G, s: Txt, i: int, at: At, n: nat)
    ensures !(run(g, s, i, at, n) is Out) ==> val(g, s, i, at) == run(g, s, i, at, n), val(g, s, i, at) is Out ==> run(g, s, i, at, n) is Out
{
    reveal(val);
    if !(run(g, s, i, at, n) is Out) {
        let m = choose|n: nat| !(#[trigger] run(g, s, i, at, n) is Out);
        if n <= m { mono(g, s, i, at, n, m); } else { mono(g, s, i, at, m, n); }
    }
}
/// fuel that is enough for the answer, if there is one
pub proof fn val_at(g: G, s: Txt, i: int, at: At) -> (n: nat)
    ensures val(g, s, i, at) == run(g, s, i, at, n), forall|m: nat| n <= m ==> #[trigger] run(g, s, i, at, m) == val(g, s, i, at)
{
    reveal(val);
    if answers(g, s, i, at) {
        let n = choose|n: nat| !(#[trigger] run(g, s, i, at, n) is Out);
        assert forall|m: nat| n <= m implies #[trigger] run(g, s, i, at, m) == val(g, s, i, at) by { mono(g, s, i, at, n, m); }
        n
    } else { 0 }
}
pub open spec fn mx(a: nat, b: nat) -> nat { if a < b { b } else { a } }
pub broadcast proof fn u_str(l: Txt, s: Txt, i: int, at: At)
    ensures #[trigger] val(G::Str(l), s, i, at) == (if is_at(s, i, l) { Res::Ok { j: i + l.len(), kids: k0(), toks: emit(at, s, i, i + l.len()) } } else { Res::Fail }) { broadcast use peg; val_is(G::Str(l), s, i, at, 0); }
pub broadcast proof fn u_rng(a: char, b: char, s: Txt, i: int, at: At)
    ensures #[trigger] val(G::Rng(a, b), s, i, at) == (if 0 <= i < s.len() && a <= s[i] && s[i] <= b { Res::Ok { j: i + 1, kids: k0(), toks: emit(at, s, i, i + 1) } } else { Res::Fail }) { broadcast use peg; val_is(G::Rng(a, b), s, i, at, 0); }
pub broadcast proof fn u_any(s: Txt, i: int, at: At)
    ensures #[trigger] val(G::Any, s, i, at) == (if 0 <= i < s.len() { Res::Ok { j: i + 1, kids: k0(), toks: emit(at, s, i, i + 1) } } else { Res::Fail }) { broadcast use peg; val_is(G::Any, s, i, at, 0); }
pub broadcast proof fn u_soi(s: Txt, i: int, at: At)
    ensures #[trigger] val(G::Soi, s, i, at) == (if i == 0 { Res::Ok { j: i, kids: k0(), toks: t0() } } else { Res::Fail }) { broadcast use peg; val_is(G::Soi, s, i, at, 0); }
pub broadcast proof fn u_eoi(s: Txt, i: int, at: At)
    ensures #[trigger] val(G::Eoi, s, i, at) == (if i == s.len() { Res::Ok { j: i, kids: k0(), toks: t0() } } else { Res::Fail }) { broadcast use peg; val_is(G::Eoi, s, i, at, 0); }
pub broadcast proof fn u_cat(a: Box<G>, b: Box<G>, s: Txt, i: int, at: At)
    ensures #[trigger] val(G::Cat(a, b), s, i, at) == (match val(*a, s, i, at) {
            Res::Ok { j, kids, toks } => match val(*b, s, j, at) {
                Res::Ok { j: j2, kids: k2, toks: t2 } => Res::Ok { j: j2, kids: kc(kids, k2), toks: tc(toks, t2) },
                r => r,
            },
            r => r,
        })
{
    let g = G::Cat(a, b);
    let n0 = val_at(g, s, i, at); let n1 = val_at(*a, s, i, at);
    let n2 = match val(*a, s, i, at) { Res::Ok { j, .. } => val_at(*b, s, j, at), _ => 0 };
    e_cat(a, b, s, i, at, mx(n0, mx(n1, n2)));
}
pub broadcast proof fn u_alt(a: Box<G>, b: Box<G>, s: Txt, i: int, at: At)
    ensures #[trigger] val(G::Alt(a, b), s, i, at) == (match val(*a, s, i, at) { Res::Fail => val(*b, s, i, at), r => r })
{ let n0 = val_at(G::Alt(a, b), s, i, at); let n1 = val_at(*a, s, i, at); let n2 = val_at(*b, s, i, at); e_alt(a, b, s, i, at, mx(n0, mx(n1, n2))); }
pub broadcast proof fn u_opt(a: Box<G>, s: Txt, i: int, at: At)
    ensures #[trigger] val(G::Opt(a), s, i, at) == (match val(*a, s, i, at) { Res::Fail => Res::Ok { j: i, kids: k0(), toks: t0() }, r => r })
{ let n0 = val_at(G::Opt(a), s, i, at); let n1 = val_at(*a, s, i, at); e_opt(a, s, i, at, mx(n0, n1)); }
/// not broadcast: unfolds one round of a loop
pub proof fn u_star(a: Box<G>, s: Txt, i: int, at: At)
    ensures val(G::Star(a), s, i, at) == (match val(*a, s, i, at) {
            Res::Fail => Res::Ok { j: i, kids: k0(), toks: t0() },
            Res::Out => Res::Out,
            Res::Ok { j, kids, toks } => if j <= i || j > s.len() { Res::Out } else {
                match val(G::Star(a), s, j, at) {
                    Res::Ok { j: j2, kids: k2, toks: t2 } => Res::Ok { j: j2, kids: kc(kids, k2), toks: tc(toks, t2) },
                    r => r,
                }
            },
        })
{
    let g = G::Star(a);
    let n0 = val_at(g, s, i, at); let n1 = val_at(*a, s, i, at);
    let n2 = match val(*a, s, i, at) { Res::Ok { j, .. } => val_at(g, s, j, at), _ => 0 };
    e_star(a, s, i, at, mx(n0, mx(n1, n2)));
}
pub broadcast proof fn u_not(a: Box<G>, s: Txt, i: int, at: At)
    ensures #[trigger] val(G::Not(a), s, i, at) == (match val(*a, s, i, at) { Res::Out => Res::Out, Res::Fail => Res::Ok { j: i, kids: k0(), toks: t0() }, _ => Res::Fail })
{ let n0 = val_at(G::Not(a), s, i, at); let n1 = val_at(*a, s, i, at); e_not(a, s, i, at, mx(n0, n1)); }
pub broadcast proof fn u_and(a: Box<G>, s: Txt, i: int, at: At)
    ensures #[trigger] val(G::And(a), s, i, at) == (match val(*a, s, i, at) { Res::Ok { .. } => Res::Ok { j: i, kids: k0(), toks: t0() }, r => r })
{ let n0 = val_at(G::And(a), s, i, at); let n1 = val_at(*a, s, i, at); e_and(a, s, i, at, mx(n0, n1)); }
pub proof fn u_call(r: Rl, s: Txt, i: int, at: At)
    ensures val(G::Call(r), s, i, at) == val(body(r), s, i, at)
{ let n0 = val_at(G::Call(r), s, i, at); let n1 = val_at(body(r), s, i, at); let n = mx(n0, n1); e_call(r, s, i, at, n + 1); assert(run(G::Call(r), s, i, at, n + 1) == val(G::Call(r), s, i, at)); }
pub broadcast proof fn u_tag(r: Rule, a: Box<G>, s: Txt, i: int, at: At)
    ensures #[trigger] val(G::Tag(r, a), s, i, at) == (match val(*a, s, i, at) {
            Res::Ok { j, kids, toks } => if at is A { Res::Ok { j, kids, toks } }
                else { Res::Ok { j, kids: k1(Tree { rule: r, text: s.subrange(i, j), kids, toks }), toks } },
            r => r,
        })
{ let n0 = val_at(G::Tag(r, a), s, i, at); let n1 = val_at(*a, s, i, at); e_tag(r, a, s, i, at, mx(n0, n1)); }
pub broadcast proof fn u_atom(b: At, a: Box<G>, s: Txt, i: int, at: At)
    ensures #[trigger] val(G::Atom(b, a), s, i, at) == (match val(*a, s, i, b) {
            Res::Ok { j, kids, toks } => Res::Ok { j, kids, toks: if at is N && !(b is N) { t1(s.subrange(i, j)) } else { toks } },
            r => r,
        })
{ let n0 = val_at(G::Atom(b, a), s, i, at); let n1 = val_at(*a, s, i, b); e_atom(b, a, s, i, at, mx(n0, n1)); }
pub broadcast proof fn u_nonat(a: Box<G>, s: Txt, i: int, at: At)
    ensures #[trigger] val(G::NonAt(a), s, i, at) == (if at is N {
            match val(*a, s, i, at) { Res::Ok { j, kids, toks } => Res::Ok { j, kids, toks: t0() }, r => r }
        } else { Res::Ok { j: i, kids: k0(), toks: t0() } })
{ let n0 = val_at(G::NonAt(a), s, i, at); let n1 = val_at(*a, s, i, at); e_nonat(a, s, i, at, mx(n0, n1)); }
pub broadcast group vals { u_str, u_rng, u_any, u_soi, u_eoi, u_cat, u_alt, u_opt, u_not, u_and, u_tag, u_atom, u_nonat, tok_norm, kid_norm }

/// taking something cannot be avoided
pub open spec fn nn(g: G) -> bool decreases g {
    match g {
        G::Str(l) => l.len() > 0, G::Rng(_, _) => true, G::Any => true,
        G::Cat(a, b) => nn(*a) || nn(*b), G::Alt(a, b) => nn(*a) && nn(*b),
        G::Call(r) => nnr(r), G::Tag(_, a) => nn(*a), G::Atom(_, a) => nn(*a),
        _ => false,
    }
}
/// before anything is taken only rules below k are called, and loops take something each time
pub open spec fn ok(g: G, k: int) -> bool decreases g {
    match g {
        G::Cat(a, b) => ok(*a, k) && ok(*b, if nn(*a) { ranks() } else { k }),
        G::Alt(a, b) => ok(*a, k) && ok(*b, k),
        G::Star(a) => nn(*a) && ok(*a, k),
        G::Opt(a) => ok(*a, k), G::Not(a) => ok(*a, k), G::And(a) => ok(*a, k), G::Tag(_, a) => ok(*a, k), G::Atom(_, a) => ok(*a, k), G::NonAt(a) => ok(*a, k),
        G::Call(r) => rank(r) < k,
        _ => true,
    }
}
pub open spec fn went(i: int, len: nat, r: Res, strictly: bool) -> bool { match r { Res::Ok { j, .. } => i <= j <= len && (strictly ==> i < j), _ => true } }
/// a term that takes something does
pub proof fn goes(g: G, s: Txt, i: int, at: At, n: nat)
    requires 0 <= i <= s.len()
    ensures went(i, s.len(), run(g, s, i, at, n), nn(g))
    decreases n, g, s.len() - i
{
    broadcast use {peg};
    match g {
        G::Cat(a, b) => { e_cat(a, b, s, i, at, n); goes(*a, s, i, at, n); match run(*a, s, i, at, n) { Res::Ok { j, .. } => { goes(*b, s, j, at, n); }, _ => {} } },
        G::Alt(a, b) => { e_alt(a, b, s, i, at, n); goes(*a, s, i, at, n); goes(*b, s, i, at, n); },
        G::Star(a) => { e_star(a, s, i, at, n); goes(*a, s, i, at, n); match run(*a, s, i, at, n) { Res::Ok { j, .. } => { if i < j <= s.len() { goes(g, s, j, at, n); } }, _ => {} } },
        G::Opt(a) => { e_opt(a, s, i, at, n); goes(*a, s, i, at, n); },
        G::Not(a) => { e_not(a, s, i, at, n); goes(*a, s, i, at, n); },
        G::And(a) => { e_and(a, s, i, at, n); goes(*a, s, i, at, n); },
        G::Tag(r, a) => { e_tag(r, a, s, i, at, n); goes(*a, s, i, at, n); },
        G::Atom(b, a) => { e_atom(b, a, s, i, at, n); goes(*a, s, i, b, n); },
        G::NonAt(a) => { e_nonat(a, s, i, at, n); if at is N { goes(*a, s, i, at, n); } },
        G::Call(r) => { e_call(r, s, i, at, n); ok_all(r); if n > 0 { goes(body(r), s, i, at, (n - 1) as nat); } },
        G::Str(l) => { e_str(l, s, i, at, n); },
        G::Rng(a, b) => { e_rng(a, b, s, i, at, n); },
        G::Any => { e_any(s, i, at, n); },
        G::Soi => { e_soi(s, i, at, n); },
        G::Eoi => { e_eoi(s, i, at, n); },
    }
}
pub proof fn val_goes(g: G, s: Txt, i: int, at: At) requires 0 <= i <= s.len() ensures went(i, s.len(), val(g, s, i, at), nn(g)) { let n = val_at(g, s, i, at); goes(g, s, i, at, n); }
/// there is always an answer: the grammar has no left recursion and no loop that takes nothing
pub proof fn term(g: G, s: Txt, i: int, at: At, k: int)
    requires 0 <= i <= s.len(), ok(g, k), k <= ranks()
    ensures !(val(g, s, i, at) is Out)
    decreases s.len() - i, k, g
{
    broadcast use {vals};
    match g {
        G::Cat(a, b) => { u_cat(a, b, s, i, at);
            term(*a, s, i, at, k); val_goes(*a, s, i, at);
            match val(*a, s, i, at) { Res::Ok { j, .. } => { term(*b, s, j, at, if nn(*a) { ranks() } else { k }); }, _ => {} }
        },
        G::Alt(a, b) => { u_alt(a, b, s, i, at); term(*a, s, i, at, k); term(*b, s, i, at, k); },
        G::Star(a) => { u_star(a, s, i, at); term(*a, s, i, at, k); val_goes(*a, s, i, at); match val(*a, s, i, at) { Res::Ok { j, .. } => { term(g, s, j, at, k); }, _ => {} } },
        G::Opt(a) => { u_opt(a, s, i, at); term(*a, s, i, at, k); },
        G::Not(a) => { u_not(a, s, i, at); term(*a, s, i, at, k); },
        G::And(a) => { u_and(a, s, i, at); term(*a, s, i, at, k); },
        G::Tag(r, a) => { u_tag(r, a, s, i, at); term(*a, s, i, at, k); },
        G::Atom(b, a) => { u_atom(b, a, s, i, at); term(*a, s, i, b, k); },
        G::NonAt(a) => { u_nonat(a, s, i, at); if at is N { term(*a, s, i, at, k); } },
        G::Call(r) => { ok_all(r); u_call(r, s, i, at); term(body(r), s, i, at, rank(r)); },
        G::Str(l) => { u_str(l, s, i, at); },
        G::Rng(a, b) => { u_rng(a, b, s, i, at); },
        G::Any => { u_any(s, i, at); },
        G::Soi => { u_soi(s, i, at); },
        G::Eoi => { u_eoi(s, i, at); },
    }
}
/// every rule of the grammar has an answer at every position of every text
pub proof fn ends_all(r: Rl, s: Txt, i: int, at: At) requires 0 <= i <= s.len() ensures !(val(G::Call(r), s, i, at) is Out), answers(G::Call(r), s, i, at) { ok_all(r); term(G::Call(r), s, i, at, ranks()); reveal(val); }
