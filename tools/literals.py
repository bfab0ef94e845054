#!/usr/bin/env python3
"""The literals of the code under check.  `literals.py` writes the ones of the tree the contracts were
written for to tools/literals.json; a check gives the bounded replay the ones that are not among them."""
import glob, json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
DIRS = ['src', 'dot-structures/src', 'dot-generator/src', 'into-attr/src', 'into-attr-derive/src']
STR = re.compile(r'r(#*)"(.*?)"\1|"((?:[^"\\]|\\.)*)"|\'(\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\'\\\n])\'', re.S)
NUM = re.compile(r'(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?(?![\w.])')
ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}


def plain(s):
    s = re.sub(r'\\\n\s*', '', s)
    s = re.sub(r'\\u\{([0-9a-fA-F_]+)\}', lambda m: chr(int(m.group(1).replace('_', ''), 16)), s)
    s = re.sub(r'\\x([0-9a-fA-F]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return re.sub(r'\\(.)', lambda m: ESC.get(m.group(1), m.group(1)), s)


def literals(repo):
    strs, nums = set(), set()
    for d in DIRS:
        for f in sorted(glob.glob(f'{repo}/{d}/**/*', recursive=True)):
            if not f.endswith(('.rs', '.pest')):
                continue
            t = open(f, errors='replace').read()
            t = re.split(r'^\s*#\[cfg\(test\)\]', t, flags=re.M)[0]
            t = re.sub(r'^\s*//.*$', '', t, flags=re.M)
            for m in STR.finditer(t):
                if m.group(2) is not None:
                    s = m.group(2)
                else:
                    s = plain(m.group(3) if m.group(3) is not None else m.group(4))
                strs.add(s)
                strs.update(p for p in re.split(r'\{[^{}]*\}', s) if p)
            for m in NUM.finditer(STR.sub('""', t)):
                x = m.group(1).replace('_', '')
                nums.add(int(x, 0) if x.startswith('0x') else int(x))
    return strs - {''}, nums


def unusual(repo):
    """lines for the replay"""
    old = json.load(open(f'{HERE}/literals.json'))
    s, n = literals(repo)
    ok = lambda x: not any(0xD800 <= ord(c) < 0xE000 for c in x)
    return [f's{x.encode().hex()}' for x in sorted(s - set(old['strs'])) if len(x) < 200 and ok(x)] + [f'n{x}' for x in sorted(n - set(old['nums'])) if x < 2**63]


if __name__ == '__main__':
    s, n = literals('/repo')
    json.dump({'strs': sorted(s), 'nums': sorted(n)}, open(f'{HERE}/literals.json', 'w'), indent=0)
