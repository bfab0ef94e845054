#!/usr/bin/env python3
"""Wrote replay/src/keys_table.rs once, from the attribute list of the original tree.  No check runs it:
the table is the committed oracle."""
import re,sys
src=open('/repo/src/attributes/mod.rs').read()
src=re.sub(r'//.*','',src)
out=[]
for m in re.finditer(r'generate_attr!\((.*?)\);\s*(?=generate_attr|impl|//|\n)',src,re.S):
    b=m.group(1)
    b=' '.join(b.split())
    k,rest=b.split(' ',1)
    head,_,tail=rest.partition(';')
    head=head.strip()
    if ' for ' in head:
        name,owners=head.split(' for ');owners=[o.strip() for o in owners.split(',')]
    else: name,owners=head,[]
    if k=='enum':
        vals,_,d=tail.partition(';')
        vals=[v.strip() for v in vals.split(',')]
        d=d.strip()
        out.append(('e',name.strip(),owners,vals,d))
    else:
        ty,_,d=tail.partition(';')
        out.append(('s',name.strip(),owners,ty.strip(),d.strip()))
o=['// generated once by tools/mkkeys.py from the original tree; this is the oracle, not derived at run time']
i=0
names=[]
for k,n,ow,v,d in out:
    if k=='s':
        for w in ow:
            o.append(f'fn t{i}(r: &mut Rng) -> Res {{ one!(r, {w}, {n}, {v}, "{w}::{n}", "{n}") }}'); names.append(f't{i}'); i+=1
        if d:
            o.append(f'fn t{i}(_r: &mut Rng) -> Res {{ dflt!({n}, {v}, "{n}") }}'); names.append(f't{i}'); i+=1
    else:
        pairs=', '.join(f'({n}::{x}, "{x[:-1] if x.endswith("_") else x}")' for x in v)
        if n!='color_name':
            o.append(f'fn v{i}() -> Vec<({n}, &\'static str)> {{ vec![{pairs}] }}')
            for w in ow:
                o.append(f'fn t{i}(_r: &mut Rng) -> Res {{ all!({w}, {n}, v{i}(), "{w}::{n}", "{n}") }}'); names.append(f't{i}')
                j=i; i+=1
                if w!=ow[-1]:
                    o.append(f'fn v{i}() -> Vec<({n}, &\'static str)> {{ v{j}() }}')
            if d:
                o.append(f'fn t{i}(_r: &mut Rng) -> Res {{ edflt!({n}, v{j}(), "{n}") }}'); names.append(f't{i}'); i+=1
        else:
            o.append(f'pub fn colors() -> Vec<(color_name, &\'static str)> {{ vec![{pairs}] }}')
o.append('pub const ALL: &[fn(&mut Rng) -> Res] = &['+', '.join(names)+'];')
open('/verif/replay/src/keys_table.rs','w').write('\n'.join(o)+'\n')
print(len(names),file=sys.stderr)
