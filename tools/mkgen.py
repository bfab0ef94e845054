#!/usr/bin/env python3
"""Writes, from one table of macro forms, the driver crate that uses each form once (drivers/gen), its
contract (contracts/gen.rs) and the replay cases (replay_gen/src/cases.rs).  One time: the output is committed."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []  # (name, params [(n, type)], ret type, invocation, [spec clauses], replay expectation)


def T(t):  # type in the driver
    return t


def add(name, params, ret, inv, spec, exp):
    F.append((name, params, ret, inv, spec, exp))


IDK = [('plain', ''), ('esc', 'esc '), ('html', 'html ')]


def idexp(k, e):
    return {'plain': f'Id::Plain({e}.to_string())', 'esc': f'Id::Escaped(format!("\\"{{}}\\"", {e}))', 'html': f'Id::Html({e}.to_string())', 'anon': 'Id::Anonymous(String::new())'}[k]


def idspec(k, r, e):
    return f'is_{k}({r}, {e}.disp())' if k != 'anon' else f'is_anon({r})'


E = ('e', 'E')
# id
add('id_none', [], 'Id', 'id!()', ['is_anon(r)'], idexp('anon', ''))
for k, p in IDK:
    add(f'id_{k}', [E], 'Id', f'id!({p}e)', [idspec(k, 'r', 'e')], idexp(k, 'e'))
# port
add('port_none', [], 'Port', 'port!()', ['r == Port(None, None)'], 'Port(None, None)')
add('port_dir', [E], 'Port', 'port!(, e)', ['r.0 is None', 'r.1 is Some', 'r.1->0@ == e.disp()'], 'Port(None, Some(e.to_string()))')
add('port_both', [('i', 'Id'), E], 'Port', 'port!(i, e)', ['r.0 == Some(i)', 'r.1 is Some', 'r.1->0@ == e.disp()'], 'Port(Some(i), Some(e.to_string()))')
add('port_id', [('i', 'Id')], 'Port', 'port!(i)', ['r == Port(Some(i), None)'], 'Port(Some(i), None)')
# node_id
add('node_id_none', [], 'NodeId', 'node_id!()', ['is_anon(r.0)', 'r.1 is None'], f'NodeId({idexp("anon", "")}, None)')
for k, p in IDK:
    add(f'node_id_{k}', [E], 'NodeId', f'node_id!({p}e)', [idspec(k, 'r.0', 'e'), 'r.1 is None'], f'NodeId({idexp(k, "e")}, None)')
    add(f'node_id_{k}_port', [E, ('p', 'Port')], 'NodeId', f'node_id!({p}e, p)', [idspec(k, 'r.0', 'e'), 'r.1 == Some(p)'], f'NodeId({idexp(k, "e")}, Some(p))')
# attr
for k, p in IDK:
    for k2, p2 in IDK:
        add(f'attr_{k}_{k2}', [E, ('v', 'F')], 'Attribute', f'attr!({p}e, {p2}v)', [idspec(k, 'r.0', 'e'), idspec(k2, 'r.1', 'v')], f'Attribute({idexp(k, "e")}, {idexp(k2, "v")})')
# stmt
for t, c in [('Node', 'Node'), ('Edge', 'Edge'), ('GraphAttributes', 'GAttribute'), ('Attribute', 'Attribute'), ('Subgraph', 'Subgraph')]:
    add(f'stmt_{c.lower()}', [('x', t)], 'Stmt', 'stmt!(x)', [f'r == Stmt::{c}(x)'], f'Stmt::{c}(x)')
S3 = [('s1', 'Node'), ('s2', 'Edge'), ('s3', 'Subgraph')]
W3 = ['Stmt::Node(s1)', 'Stmt::Edge(s2)', 'Stmt::Subgraph(s3)']
S5 = S3 + [('s4', 'Attribute'), ('s5', 'GraphAttributes')]
W5 = W3 + ['Stmt::Attribute(s4)', 'Stmt::GAttribute(s5)']
# elements of one type, which may be equal
T3 = [('t1', 'Node'), ('t2', 'Node'), ('t3', 'Node')]
TW = ['Stmt::Node(t1)', 'Stmt::Node(t2)', 'Stmt::Node(t3)']
U4 = [('u1', 'Attribute'), ('u2', 'Edge'), ('u3', 'Attribute'), ('u4', 'Edge')]
UW = ['Stmt::Attribute(u1)', 'Stmt::Edge(u2)', 'Stmt::Attribute(u3)', 'Stmt::Edge(u4)']


def seq(l):
    return 'seq![' + ', '.join(l) + ']'


# subgraph
SG = 'r.id', 'r.stmts'
add('subgraph_none', [], 'Subgraph', 'subgraph!()', ['is_anon(r.id)', 'r.stmts@ =~= seq![]'], f'Subgraph {{ id: {idexp("anon", "")}, stmts: vec![] }}')
for k, p in IDK:
    add(f'subgraph_{k}', [E], 'Subgraph', f'subgraph!({p}e)', [idspec(k, 'r.id', 'e'), 'r.stmts@ =~= seq![]'], f'Subgraph {{ id: {idexp(k, "e")}, stmts: vec![] }}')
    add(f'subgraph_{k}_vec', [E, ('v', 'Vec<Stmt>')], 'Subgraph', f'subgraph!({p}e, v)', [idspec(k, 'r.id', 'e'), 'r.stmts == v'], f'Subgraph {{ id: {idexp(k, "e")}, stmts: v }}')
    add(f'subgraph_{k}_1', [E, ('s1', 'Node')], 'Subgraph', f'subgraph!({p}e; s1)', [idspec(k, 'r.id', 'e'), f'r.stmts@ =~= {seq(W3[:1])}'], f'Subgraph {{ id: {idexp(k, "e")}, stmts: vec![Stmt::Node(s1)] }}')
    add(f'subgraph_{k}_3', [E] + S3, 'Subgraph', f'subgraph!({p}e; s1, s2, s3)', [idspec(k, 'r.id', 'e'), f'r.stmts@ =~= {seq(W3)}'], f'Subgraph {{ id: {idexp(k, "e")}, stmts: vec![{", ".join(W3)}] }}')
    add(f'subgraph_{k}_same', [E] + T3, 'Subgraph', f'subgraph!({p}e; t1, t2, t3)', [idspec(k, 'r.id', 'e'), f'r.stmts@ =~= {seq(TW)}'], f'Subgraph {{ id: {idexp(k, "e")}, stmts: vec![{", ".join(TW)}] }}')
add('subgraph_anon_same', T3, 'Subgraph', 'subgraph!(; t1, t2, t3)', ['is_anon(r.id)', f'r.stmts@ =~= {seq(TW)}'], f'Subgraph {{ id: {idexp("anon", "")}, stmts: vec![{", ".join(TW)}] }}')
add('subgraph_anon_4', U4, 'Subgraph', 'subgraph!(; u1, u2, u3, u4)', ['is_anon(r.id)', f'r.stmts@ =~= {seq(UW)}'], f'Subgraph {{ id: {idexp("anon", "")}, stmts: vec![{", ".join(UW)}] }}')
add('subgraph_anon_1', S3[:1], 'Subgraph', 'subgraph!(; s1)', ['is_anon(r.id)', f'r.stmts@ =~= {seq(W3[:1])}'], f'Subgraph {{ id: {idexp("anon", "")}, stmts: vec![{", ".join(W3[:1])}] }}')
add('subgraph_anon_5', S5, 'Subgraph', 'subgraph!(; s1, s2, s3, s4, s5)', ['is_anon(r.id)', f'r.stmts@ =~= {seq(W5)}'], f'Subgraph {{ id: {idexp("anon", "")}, stmts: vec![{", ".join(W5)}] }}')
# attrs
A3 = [('a1', 'Attribute'), ('a2', 'Attribute'), ('a3', 'Attribute')]
AN = ['a1', 'a2', 'a3']
add('attrs_none', [], 'GraphAttributes', 'attrs!()', ['r is Graph', 'r->Graph_0@ =~= seq![]'], 'GraphAttributes::Graph(vec![])')
for t in ('Graph', 'Node', 'Edge'):
    l = t.lower()
    add(f'attrs_{l}_vec', [('v', 'Vec<Attribute>')], 'GraphAttributes', f'attrs!({l} v)', [f'r == GraphAttributes::{t}(v)'], f'GraphAttributes::{t}(v)')
    for n in (1, 3):
        add(f'attrs_{l}_{n}', A3[:n], 'GraphAttributes', f'attrs!({l}; {", ".join(AN[:n])})', [f'r is {t}', f'r->{t}_0@ =~= {seq(AN[:n])}'], f'GraphAttributes::{t}(vec![{", ".join(AN[:n])}])')
# node
def node(k, p, e=True, port=None, attrs='none', form=''):
    params = ([E] if e else []) + ([('p', 'Port')] if port else [])
    inv = f'{p}e' if e else ''
    if port:
        inv += ' => p'
    sp = [idspec(k, 'r.id.0', 'e'), 'r.id.1 == Some(p)' if port else 'r.id.1 is None']
    po = 'Some(p)' if port else 'None'
    if attrs == 'vec':
        params.append(('v', 'Vec<Attribute>'))
        inv += ', v'
        sp.append('r.attributes == v')
        at = 'v'
    elif attrs == 'none':
        sp.append('r.attributes@ =~= seq![]')
        at = 'vec![]'
    else:
        params += A3[:attrs]
        inv += '; ' + ', '.join(AN[:attrs])
        sp.append(f'r.attributes@ =~= {seq(AN[:attrs])}')
        at = f'vec![{", ".join(AN[:attrs])}]'
    add(f'node_{k}{"_port" if port else ""}_{attrs}', params, 'Node', f'node!({inv})', sp, f'Node {{ id: NodeId({idexp(k, "e")}, {po}), attributes: {at} }}')


node('anon', '', e=False)
for k, p in IDK:
    node(k, p)
    for at in ('vec', 1, 3):
        node(k, p, attrs=at)
        node(k, p, port=True, attrs=at)
# edge
X = [('l', 'NodeId'), ('m', 'Subgraph'), ('n', 'NodeId'), ('o', 'Subgraph')]
XV = ['Vertex::N(l)', 'Vertex::S(m)', 'Vertex::N(n)', 'Vertex::S(o)']
for k in (2, 3, 4):
    inv0 = ' => '.join(x for x, _ in X[:k])
    ty = [f'r.ty == EdgeTy::Pair({XV[0]}, {XV[1]})'] if k == 2 else ['r.ty is Chain', f'r.ty->Chain_0@ =~= {seq(XV[:k])}']
    tyx = f'EdgeTy::Pair({XV[0]}, {XV[1]})' if k == 2 else f'EdgeTy::Chain(vec![{", ".join(XV[:k])}])'
    add(f'edge_{k}', X[:k], 'Edge', f'edge!({inv0})', ty + ['r.attributes@ =~= seq![]'], f'Edge {{ ty: {tyx}, attributes: vec![] }}')
    add(f'edge_{k}_vec', X[:k] + [('v', 'Vec<Attribute>')], 'Edge', f'edge!({inv0}, v)', ty + ['r.attributes == v'], f'Edge {{ ty: {tyx}, attributes: v }}')
    for a in (1, 3):
        add(f'edge_{k}_{a}', X[:k] + A3[:a], 'Edge', f'edge!({inv0}; {", ".join(AN[:a])})', ty + [f'r.attributes@ =~= {seq(AN[:a])}'], f'Edge {{ ty: {tyx}, attributes: vec![{", ".join(AN[:a])}] }}')
    # vertices of one type
    Y = [('w1', 'NodeId'), ('w2', 'NodeId'), ('w3', 'NodeId'), ('w4', 'NodeId')][:k] if k != 3 else [('w1', 'Subgraph'), ('w2', 'Subgraph'), ('w3', 'Subgraph')]
    YV = [f'Vertex::{"N" if t == "NodeId" else "S"}({a})' for a, t in Y]
    ty = [f'r.ty == EdgeTy::Pair({YV[0]}, {YV[1]})'] if k == 2 else ['r.ty is Chain', f'r.ty->Chain_0@ =~= {seq(YV)}']
    tyx = f'EdgeTy::Pair({YV[0]}, {YV[1]})' if k == 2 else f'EdgeTy::Chain(vec![{", ".join(YV)}])'
    inv0 = ' => '.join(x for x, _ in Y)
    add(f'edge_{k}_same', Y, 'Edge', f'edge!({inv0})', ty + ['r.attributes@ =~= seq![]'], f'Edge {{ ty: {tyx}, attributes: vec![] }}')
    add(f'edge_{k}_same_2', Y + A3[:2], 'Edge', f'edge!({inv0}; a1, a2)', ty + [f'r.attributes@ =~= {seq(AN[:2])}'], f'Edge {{ ty: {tyx}, attributes: vec![a1, a2] }}')
# graph
for strict in (False, True):
    for di in (False, True):
        c = 'DiGraph' if di else 'Graph'
        pre = ('strict ' if strict else '') + ('di ' if di else '')
        st = 'true' if strict else 'false'
        nm = ('strict_' if strict else '') + ('di_' if di else '')
        base = [f'r is {c}', f'r->{c}_id == i', f'r->{c}_strict == {st}']
        for suffix, params, inv, sp, ex in [
            ('none', [], '', f'r->{c}_stmts@ =~= seq![]', 'vec![]'),
            ('vec', [('v', 'Vec<Stmt>')], ', v', f'r->{c}_stmts == v', 'v'),
            ('1', S3[:1], '; s1', f'r->{c}_stmts@ =~= {seq(W3[:1])}', f'vec![{W3[0]}]'),
            ('same', T3, '; t1, t2, t3', f'r->{c}_stmts@ =~= {seq(TW)}', f'vec![{", ".join(TW)}]'),
            ('4', U4, '; u1, u2, u3, u4', f'r->{c}_stmts@ =~= {seq(UW)}', f'vec![{", ".join(UW)}]'),
            ('5', S5, '; s1, s2, s3, s4, s5', f'r->{c}_stmts@ =~= {seq(W5)}', f'vec![{", ".join(W5)}]'),
        ]:
            add(f'graph_{nm}{suffix}', [('i', 'Id')] + params, 'Graph', f'graph!({pre}i{inv})', base + [sp], f'Graph::{c} {{ id: i, strict: {st}, stmts: {ex} }}')


def gens(params):
    g = [t for _, t in params if t in 'EF']
    return '<' + ', '.join(f'{t}: Display' for t in g) + '>' if g else ''


d = '''//! One function per form of the generator macros; generated by tools/mkgen.py.
//! check.py takes the compiler's expansion of this crate: the bodies below as the macros of /repo/dot-generator write them.
#![allow(unused)]
use dot_generator::*;
use dot_structures::*;
use std::fmt::Display;

'''
for n, ps, r, inv, sp, ex in F:
    d += f'pub fn {n}{gens(ps)}({", ".join(f"{a}: {t}" for a, t in ps)}) -> {r} {{\n    {inv}\n}}\n'
open(f'{V}/drivers/gen/src/lib.rs', 'w').write(d)

c = '''#![allow(unused, non_camel_case_types, non_snake_case, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {
// generated by tools/mkgen.py
//@include prelude.inc
//@include structures_fns.inc
pub use VDisp as Display;
//@inline gen
pub open spec fn is_anon(i: Id) -> bool { i is Anonymous && i->Anonymous_0@ == ""@ }
pub open spec fn is_plain(i: Id, t: Txt) -> bool { i is Plain && i->Plain_0@ == t }
pub open spec fn is_html(i: Id, t: Txt) -> bool { i is Html && i->Html_0@ == t }
pub open spec fn is_esc(i: Id, t: Txt) -> bool { i is Escaped && i->Escaped_0@ == cat(cat(ch('"'), t), ch('"')) }
'''
for n, ps, r, inv, sp, ex in F:
    c += f'//@fn gen::{n}\n' + (f'//@sig {", ".join(a for a, _ in ps)}\n' if ps else '') + '//@ret r\n//@spec\n    ensures ' + ', '.join(sp) + ', //#[C15]\n//@pre\n    // ""\n' + ('    // "graph", "node", "edge"\n    proof { names_differ(); }\n' if n.startswith('attrs_') else '') + '//@end\n'
c += '} // verus!\nfn main() {}\n'
open(f'{V}/contracts/gen.rs', 'w').write(c)

x = '// generated by tools/mkgen.py: one case per macro form; arguments drawn at random, compared with the structure written out\n'
x += 'use crate::rnd::*;\nuse driver_gen as d;\nuse dot_structures::*;\npub const N: usize = %d;\npub fn case(k: usize, r: &mut Rnd) -> (String, String, String) {\n    match k {\n' % len(F)
for k, (n, ps, r, inv, sp, ex) in enumerate(F):
    gen = {'E': 'r.disp()', 'F': 'r.disp()', 'Id': 'r.id()', 'Port': 'r.port()', 'Node': 'r.node()', 'Edge': 'r.edge(2)', 'Subgraph': 'r.subgraph(2)', 'Attribute': 'r.attr()', 'GraphAttributes': 'r.gattrs()', 'NodeId': 'r.node_id()', 'Vec<Stmt>': 'r.stmts(2)', 'Vec<Attribute>': 'r.attrs()'}
    def draw(j):
        before = [a for a, t in ps[:j] if t == ps[j][1] and t not in 'EF']
        g = gen[ps[j][1]]
        # an argument of this type that was there before, now and then
        return f'if r.below(6) == 0 {{ {before[-1]}.clone() }} else if r.below(8) == 0 {{ {before[0]}.clone() }} else {{ {g} }}' if before else g

    lets = ' '.join(f'let {a} = {draw(j)};' for j, (a, t) in enumerate(ps))
    x += f'        {k} => {{ {lets} ([{", ".join([chr(34) + inv.replace(chr(34), chr(92) + chr(34)) + chr(34) + ".to_string()"] + [f'format!("{a} = {{:?}}", {a})' for a, _ in ps])}].join("; "), format!("{{:?}}", d::{n}({", ".join(a + ".clone()" for a, _ in ps)})), format!("{{:?}}", {ex})) }}\n'
x += '        _ => unreachable!(),\n    }\n}\n'
open(f'{V}/replay_gen/src/cases.rs', 'w').write(x)
print(len(F), 'forms')
