#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's current working tree.

1. expand /repo's source with the compiler, extract the functions under contract, verify them (Verus);
2. run the bounded replay oracle on the real crate (failing inputs for failed obligations, and an audit
   of the library contracts the proofs assume).
See DESIGN.md for the outcome policy.  Exit 0: held.  Exit 1: a VIOLATION line was printed."""
import glob, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
WORK = os.path.join(VERIF, '.work')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from props import PROPS, MODULES, TRUSTED  # noqa: E402
from literals import unusual  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN='stable', CARGO_INCREMENTAL='0')
ENV['RUST_MIN_STACK'] = '1000000000'  # a match of 700 arms
ENV['VERIF_DICT'] = os.path.join(WORK, 'dict.txt')  # unusual literals of the tree, for the replay
ENV['PATH'] = '/root/.cargo/bin:' + ENV['PATH']
for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTDOCFLAGS', 'CARGO_PROFILE_DEV_DEBUG'):
    ENV.pop(k, None)


def log(*a):
    print('[check]', *a, file=sys.stderr, flush=True)


class Undecided(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None, out=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, env=env or ENV, cwd=cwd, timeout=timeout, stdout=out or subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    except subprocess.TimeoutExpired:
        raise Undecided(f'{cmd[0]} gave no answer in {timeout} s')
    return p, time.time() - t


# ---------------------------------------------------------------- building
def build_extractor():
    p, _ = sh(['cargo', 'build', '--offline', '--locked', '--manifest-path', f'{VERIF}/extract/Cargo.toml', '--target-dir', f'{WORK}/extract'])
    if p.returncode:
        raise Undecided('the extractor does not build: ' + p.stderr[-2000:])


def lock_version(name):
    lock = f'{REPO}/Cargo.lock'
    if not os.path.exists(lock):
        sh(['cargo', 'generate-lockfile', '--offline'], cwd=REPO)
    m = re.search(r'name = "%s"\nversion = "([^"]+)"' % re.escape(name), open(lock).read())
    return m.group(1)


def expand(src):
    """the compiler's own macro expansion of a crate, as text"""
    out = f'{WORK}/{src}.rs'
    if src == 'structures':  # the copy graphviz-rust is compiled with
        v = lock_version('dot-structures')
        d = glob.glob(f'/root/.cargo/registry/src/*/dot-structures-{v}')[0]
        w = f'{WORK}/src-structures'
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree(d, w)
        man, tgt = f'{w}/Cargo.toml', f'{WORK}/t-structures'
    else:
        man = {'graphviz': f'{REPO}/Cargo.toml', 'repo_structures': f'{REPO}/dot-structures/Cargo.toml'}.get(src) or f'{VERIF}/drivers/{src}/Cargo.toml'
        tgt = f'{WORK}/t-{src}'
    for f in glob.glob(f'{tgt}/debug/.fingerprint/*'):
        if re.match(r'(graphviz-rust|dot-structures|dot-generator|into-attr|driver)', os.path.basename(f)):
            shutil.rmtree(f, ignore_errors=True)
    env = dict(ENV, RUSTUP_TOOLCHAIN='nightly')
    with open(out, 'w') as f:
        p, _ = sh(['cargo', 'rustc', '--offline', '--lib', '--manifest-path', man, '--target-dir', tgt, '-q', '--', '-Zunpretty=expanded'], env=env, out=f)
    if p.returncode or not os.path.getsize(out):
        raise Undecided(f'{src} does not expand: ' + p.stderr[-2000:])
    return out


def build_replay(crate):
    p, _ = sh(['cargo', 'build', '--offline', '--manifest-path', f'{VERIF}/{crate}/Cargo.toml', '--target-dir', f'{WORK}/{crate}'])
    if p.returncode:
        raise Undecided(f'{crate} does not build: ' + '\n'.join(l for l in p.stderr.splitlines() if 'error' in l)[:1500])


# ---------------------------------------------------------------- proving
class Proof:
    """the outcome of verifying one module"""

    def __init__(self, mod):
        self.mod = mod
        self.fns = []          # functions under contract
        self.trusted = {}      # function -> why its body could not be taken
        self.verified = 0
        self.failed = []       # (function, obligation, labels, diagnostic)
        self.broken = None     # why there is no verification at all
        self.smt_ms = 0
        self.wall = 0.0
        self.cmd = ''
        self.rlimit_retry = False
        self.obligation_fns = []
        self.assumed = []


def spans_of(m):
    return [s for s in m.get('spans', [])] + [s for c in m.get('children', []) for s in c.get('spans', [])]


def verify(mod, srcs):
    r = Proof(mod)
    t0 = time.time()
    tmpl = f'{VERIF}/contracts/{mod}.rs'
    out = f'{WORK}/v_{mod}.rs'
    base = [f'{WORK}/extract/debug/vextract']
    for k, p in srcs.items():
        base += ['--src', f'{k}={p}']
    base += ['--template', tmpl, '--out', out, '--map', f'{WORK}/v_{mod}.json']
    rlimit = MODULES[mod].get('rlimit', 20)
    alt, first, pinned = {}, {}, set()  # which of several loop invariants a function is tried with; what the first one gave
    for attempt in range(16):
        if time.time() - t0 > 480:
            if first:  # what is known so far
                r.failed = [x for f in sorted(first) for x in first[f]]
            else:
                r.broken = 'out of time'
            break
        cmd = list(base)
        for f, k in alt.items():
            cmd += ['--alt', f'{f}={k}']
        for f in r.trusted:
            if r.trusted[f] != 'gone from the source':
                cmd += ['--trust', f]
        p, _ = sh(cmd, timeout=120)
        if p.returncode:
            r.broken = 'extraction: ' + p.stderr.strip()[-600:]
            break
        text = open(out).read().split('\n')
        regions = fn_regions(text)
        info = json.load(open(f'{WORK}/v_{mod}.json'))
        r.fns = [x['path'] for x in info]
        alts = {x['path']: x.get('alts', 1) for x in info}
        for x in info:  # what the extractor could not rewrite, or did not find
            if x['trusted'] and x['path'] not in r.trusted:
                r.trusted[x['path']] = x['trusted']
        vcmd = ['verus', out, '--output-json', '--time', '--multiple-errors', '20', '--error-format=json', '--rlimit', str(rlimit), '--num-threads', '8'] + MODULES[mod].get('flags', [])
        r.cmd = ' '.join(vcmd).replace(VERIF + '/', '')
        p, _ = sh(vcmd, timeout=MODULES[mod].get('timeout', 500), cwd=WORK)
        try:
            j = json.loads(p.stdout)
        except ValueError:
            j = {}
        diags = []
        for l in p.stderr.splitlines():
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
        errs = [d for d in diags if d['level'] == 'error' and spans_of(d)]
        res = j.get('verification-results', {})
        front = (not res) or res.get('encountered-vir-error') or any(d.get('code') for d in errs) or 'verified' not in res
        if p.returncode == 0 and not errs:
            r.verified = res['verified']
            r.smt_ms = j['times-ms']['smt']['total'] if 'smt' in j.get('times-ms', {}) else j['times-ms'].get('total', 0)
            note_fns(r, j)
            r.failed = []
            break
        if front:
            # a construct the verifier does not take: keep the contract, drop the body, say so
            new = {}
            for d in errs or diags:
                for s in spans_of(d):
                    f = region_at(regions, s['line_start'])
                    if f and f not in r.trusted:
                        new[f] = d['message'][:200]
                        break
            again = [f for f in new if f in first or alt.get(f, 0) + 1 < alts.get(f, 1)]
            for f in again:
                if f in first and alt[f] + 1 >= alts[f]:
                    alt[f] = 0  # the first one fits at least
                    pinned.add(f)
                else:
                    alt[f] = alt.get(f, 0) + 1
                del new[f]
                log(mod, 'another invariant for', f)
            if again and not new:
                continue
            if not new:
                r.broken = 'verus does not take the module: ' + '; '.join(d['message'] for d in diags if d['level'] == 'error')[:600]
                break
            log(mod, 'not verifiable, body dropped:', new)
            r.trusted.update(new)
            continue
        limit = [d for d in errs if re.search(r'rlimit|resource limit|timed out', d['message'], re.I)]
        if limit and not r.rlimit_retry:
            r.rlimit_retry = True
            rlimit *= 4
            log(mod, 'resource limit, again with', rlimit)
            continue
        r.verified = res.get('verified', 0)
        r.smt_ms = j.get('times-ms', {}).get('smt', {}).get('total', 0)
        note_fns(r, j)
        hit = {}
        r.failed = []
        for d in errs:
            f = None
            for s in sorted(spans_of(d), key=lambda s: not s['is_primary']):
                f = region_at(regions, s['line_start'])
                if f:
                    break
            f = f or enclosing(text, spans_of(d)[0]['line_start'])
            if d in limit:
                hit[f] = 'resource limit'
                continue
            r.failed.append((f, obligation(d), labels(d, f, regions, text, mod), d.get('rendered') or d['message']))
        for f, why in hit.items():
            if f not in [x[0] for x in r.failed]:
                r.trusted[f] = why
        # a loop of another shape may need another of the invariants written for its function
        bad = {x[0] for x in r.failed}
        again = [f for f in bad if f not in pinned and alt.get(f, 0) + 1 < alts.get(f, 1)]
        for f in bad:
            first.setdefault(f, [x for x in r.failed if x[0] == f])
        for f in again:
            alt[f] = alt.get(f, 0) + 1
            log(mod, 'another invariant for', f)
        if again:
            continue
        r.failed = [x for f in sorted(bad) for x in first[f]]
        steady(r, vcmd, regions, text, mod, t0)
        break
    r.wall = time.time() - t0
    if os.path.exists(out):
        r.assumed = sorted(set(re.findall(r'(?:external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:proof )?fn (\w+)|assume_specification ?\[ ?([^\]]+?) ?\]|axiom fn (\w+))', open(out).read())))
        r.assumed = [a or b or c for a, b, c in r.assumed]
        bad = re.findall(r'\b(assume|admit)\s*\(', open(out).read())
        if bad:
            r.broken = 'assume/admit in the verified text'
    return r


def steady(r, vcmd, regions, text, mod, t0):
    """an obligation counts as failed if the solver does not accept it with other random seeds either"""
    for k in (7, 23):
        if not r.failed or time.time() - t0 > 480:
            return
        p, _ = sh(vcmd + ['--smt-option', f'smt.random_seed={k}'], timeout=400, cwd=WORK)
        bad = set()
        for l in p.stderr.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d['level'] == 'error' and spans_of(d):
                fs = [region_at(regions, s['line_start']) for s in spans_of(d)]
                bad |= {f for f in fs if f} or {enclosing(text, spans_of(d)[0]['line_start'])}
        if not bad and p.returncode:
            return
        gone = {x[0] for x in r.failed} - bad
        if gone:
            log(mod, 'accepted with another random seed:', gone)
        r.failed = [x for x in r.failed if x[0] in bad]


def probe(mod, srcs, r):
    """thorough: `assert(false)` at the start (then at the end) of every function under contract must be
    rejected: no precondition, callee contract or axiom in scope is contradictory. And every obligation
    once more with other random seeds."""
    out = {}
    for where in ('start', 'end'):
        f = f'{WORK}/p_{mod}.rs'
        cmd = [f'{WORK}/extract/debug/vextract', '--probe', where]
        for k, p in srcs.items():
            cmd += ['--src', f'{k}={p}']
        cmd += ['--template', f'{VERIF}/contracts/{mod}.rs', '--out', f, '--map', f'{WORK}/p_{mod}.json']
        for g in r.trusted:
            if r.trusted[g] != 'gone from the source':
                cmd += ['--trust', g]
        p, _ = sh(cmd, timeout=120)
        if p.returncode:
            return {'not run': p.stderr[-300:]}
        text = open(f).read().split('\n')
        regions = fn_regions(text)
        p, _ = sh(['verus', f, '--error-format=json', '--multiple-errors', '2', '--rlimit', '20', '--num-threads', '8'], timeout=400, cwd=WORK)
        hit = set()
        for l in p.stderr.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d['level'] == 'error':
                hit |= {a for s in d.get('spans', []) for g, a, b in regions if a <= s['line_start'] <= b}
        asked = [(g, a) for g, a, b in regions if any('proof { assert(false); }' in t for t in text[a:b])]
        out[f'assert(false) at the {where}'] = {'asked': len(asked), 'rejected': sum(a in hit for g, a in asked), 'accepted (vacuous)': sorted(g for g, a in asked if a not in hit)}
    seeds = {}
    for k in (7, 23):
        p, _ = sh(['verus', f'{WORK}/v_{mod}.rs', '--rlimit', str(MODULES[mod].get('rlimit', 20)), '--num-threads', '8', '--smt-option', f'smt.random_seed={k}'] + MODULES[mod].get('flags', []), timeout=400, cwd=WORK)
        seeds[f'random_seed={k}'] = next((l.split('::')[1].strip() for l in p.stdout.splitlines() if 'verification results' in l), 'no result')
    out['again'] = seeds
    return out


def note_fns(r, j):
    try:
        for m in j['times-ms']['smt']['smt-run-module-times']:
            for f in m['function-breakdown']:
                r.obligation_fns.append(f['function'])
    except KeyError:
        pass


def fn_regions(text):
    st, out = [], []
    for n, l in enumerate(text, 1):
        m = re.match(r'\s*//@@BEGIN (.*)', l)
        if m:
            st.append((m.group(1), n))
        m = re.match(r'\s*//@@END (.*)', l)
        if m and st:
            f, a = st.pop()
            out.append((f, a, n))
    return out


def region_at(regions, line):
    for f, a, b in regions:
        if a <= line <= b:
            return f


def enclosing(text, line):
    for n in range(min(line, len(text)) - 1, -1, -1):
        m = re.search(r'\bfn (\w+)', text[n])
        if m:
            return m.group(1)
    return 'module'


def obligation(d):
    s = [x for x in spans_of(d) if x.get('text')]
    what = d['message']
    for x in s[:3]:
        t = x['text'][0]
        w = t['text'][t['highlight_start'] - 1:t['highlight_end'] - 1].strip()
        what += f' | {x.get("label") or ""}: {w[:220]}'
    return what


def labels(d, f, regions, text, mod):
    """the properties the failed obligation states"""
    reg = next(((a, b) for g, a, b in regions if g == f), None)
    ls = []
    snip = ''
    for s in spans_of(d):
        t = s.get('text') or [{'text': ''}]
        snip += t[0]['text'][t[0].get('highlight_start', 1) - 1:t[0].get('highlight_end', 1) - 1] + ' '
        m = re.search(r'//#\[([^\]]*)\]', text[s['line_start'] - 1])
        if m:
            ls += m.group(1).split()
    if ls:
        return sorted(set(ls))
    # an assertion that repeats a clause of the contract states what the clause states
    sq = lambda x: re.sub(r'\s+', '', x)
    if reg and len(snip) > 8 and 'assert' in d['message']:
        for l in text[reg[0]:reg[1]]:
            m = re.search(r'//#\[([^\]]*)\]', l)
            if m and sq(snip) in sq(l[:m.start()]):
                ls += m.group(1).split()
        if ls:
            return sorted(set(ls))
    by = MODULES[mod].get('label')
    if by:
        got = by(snip, d['message'], f)
        if got:
            return got
    if reg:
        for l in text[reg[0]:reg[1]]:
            m = re.search(r'//#\[([^\]]*)\]', l)
            if m:
                ls += m.group(1).split()
    return sorted(set(ls)) or MODULES[mod].get('default_labels', [])


# ---------------------------------------------------------------- replaying
def replay(crate, prop, seed, maxc, secs, out, trace=None):
    if os.path.exists(out):
        os.remove(out)
    cmd = [f'{WORK}/{crate}/debug/{crate}', 'run', prop, str(seed), str(maxc), str(int(secs)), out] + ([trace] if trace else [])
    p, _ = sh(cmd, timeout=secs + 120)
    if p.returncode in (0, 1):
        return json.loads(p.stdout.strip().splitlines()[-1])
    if trace:
        i = open(trace).read() if os.path.exists(trace) else '?'
        open(out, 'w').write(f'property {prop} seed {seed} case {i}\nre-run: {crate} case {prop} {seed} {i}\n--- observed\nthe process died (status {p.returncode})\n{p.stderr[-500:]}\n')
        return {'evaluations': 0, 'distinct': 0, 'samples': [], 'fail': {'case': i, 'observed': f'the process died (status {p.returncode})'}}
    return replay(crate, prop, seed, maxc, secs, out, f'{WORK}/trace')


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    words = unusual(REPO)
    open(ENV['VERIF_DICT'], 'w').write('\n'.join(words) + '\n')
    mods = P['modules']
    need = sorted({s for m in mods for s in MODULES[m]['srcs']})
    crates = P['replay'].split()
    paths, errs = {}, {}

    def run(k, f, *a):
        try:
            paths[k] = f(*a)
        except Undecided as e:
            errs[k] = str(e)
        except Exception as e:  # noqa: BLE001
            errs[k] = repr(e)

    ths = [threading.Thread(target=run, args=('extractor', build_extractor)), *[threading.Thread(target=run, args=('build ' + c, build_replay, c)) for c in crates]]
    ths += [threading.Thread(target=run, args=(s, expand, s)) for s in need]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for k, e in errs.items():
        log('could not build', k, e)

    proofs = {}

    def prove(m):
        why = [errs[k] for k in ['extractor'] + MODULES[m]['srcs'] if k in errs]
        if why:
            proofs[m] = Proof(m)
            proofs[m].broken = why[0]
            return
        try:
            proofs[m] = verify(m, {s: paths[s] for s in MODULES[m]['srcs']})
        except Undecided as e:
            proofs[m] = Proof(m)
            proofs[m].broken = str(e)

    ths = [threading.Thread(target=prove, args=(m,)) for m in mods]
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    probes = {}
    if tier == 'thorough':
        for m in mods:
            if not proofs[m].broken:
                probes[m] = probe(m, {s: paths[s] for s in MODULES[m]['srcs']}, proofs[m])

    # ---- outcome of the proofs for this property
    mine, others = [], []
    for m in mods:
        for x in proofs[m].failed:
            (mine if pid in x[2] else others).append((m,) + x)
    undone = {m: proofs[m].broken for m in mods if proofs[m].broken}
    trusted = {f: w for m in mods for f, w in proofs[m].trusted.items()}
    for m, f, ob, ls, _ in mine + others:
        log('FAILED', m, f, ob, ls)

    # ---- replay
    out = f'{VERIF}/.work/replay_{pid}.txt'
    stats = {'evaluations': 0, 'distinct': 0, 'samples': [], 'fail': None}
    budget = P.get('secs', 20) if tier == 'quick' else P.get('thorough_secs', 240)
    maxc = P.get('cases', 40000) if tier == 'quick' else 50_000_000
    if mine or others or undone or trusted or words:
        budget = max(budget, 60)
        maxc *= 20
    for c in crates:
        if 'build ' + c in errs or stats['fail']:
            continue
        try:
            x = replay(c, pid, seed, maxc, budget / len(crates), out)
        except Undecided as e:
            errs['build ' + c] = str(e)
            continue
        stats = {'evaluations': stats['evaluations'] + x['evaluations'], 'distinct': stats['distinct'] + x['distinct'],
                 'samples': (stats['samples'] + x['samples'])[:6], 'fail': x['fail']}
    unreplayed = {c: errs['build ' + c] for c in crates if 'build ' + c in errs}
    violations = 0
    line = None
    known = known_findings(pid)
    if stats['fail']:
        if any(k and k in json.dumps(stats['fail']) for k in known):
            for k in known:
                print(f'KNOWN-FINDING: property={pid} {k}')
        else:
            violations = 1
            if mine:
                with open(out, 'a') as f:
                    f.write('\n--- failed obligations\n' + '\n'.join(f'{m}: {fn}: {ob}' for m, fn, ob, _, _ in mine))
            line = f'VIOLATION property={pid} replay={out}'
    elif mine and not explained(pid, mine, errs, seed):
        violations = 1
        with open(out, 'w') as f:
            f.write(f'property {pid}: obligations the verifier did not accept; no failing input found in {stats["evaluations"]} cases\n')
            for m, fn, ob, ls, rendered in mine:
                f.write(f'\n=== {m}: {fn}\nobligation: {ob}\nstates: {ls}\n{rendered}\n')
        line = f'VIOLATION property={pid} replay={out} no-failing-input-found'

    write_evidence(pid, P, tier, seed, mods, proofs, stats, mine, others, undone, trusted, errs, violations, t0, probes)
    if line:
        print(line, flush=True)
        sys.exit(1)
    if unreplayed and undone:
        print(f'no answer for {pid}: {errs}', file=sys.stderr)
        sys.exit(2)
    if undone or trusted:
        print(f'{pid}: not proved on this tree: {", ".join(sorted(undone) + sorted(trusted))} (replay decided)')
    print(f'{pid} holds: {sum(proofs[m].verified for m in mods)} obligations, {stats["evaluations"]} replayed cases')


def explained(pid, mine, errs, seed):
    """a failed obligation that states several properties at once: is the failing input one of another
    property, so that nothing is known to be wrong with this one?"""
    if any(k.startswith('build ') for k in errs):
        return False
    both = PROPS[pid].get('joint', [])
    for q in both:
        o = f'{WORK}/joint_{q}.txt'
        try:
            if replay(PROPS[q]['replay'].split()[0], q, seed, 400000, 30, o)['fail']:
                log(f'the failed obligation also states {q}, which has a failing input; none for {pid}')
                return True
        except Undecided:
            pass
    return False


def known_findings(pid):
    f = f'{VERIF}/known_findings.txt'
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out


def write_evidence(pid, P, tier, seed, mods, proofs, stats, mine, others, undone, trusted, errs, violations, t0, probes):
    discharged = sum(proofs[m].verified for m in mods)
    failed = len(mine) + len(others)
    cov = {
        'obligations': discharged + failed + len(trusted) + len(undone),
        'discharged': discharged,
        'obligation_unit': 'one verifier query group: a function under contract, a lemma, a loop body or a well-formedness/termination condition, as counted by Verus on this run',
        'checker_cmd': ' && '.join(proofs[m].cmd or f'(not run: {m})' for m in mods) or 'none',
        'back_end': 'Verus 0.2026.09.13 with its Z3',
        'trusted_base': TRUSTED['all'] + [x for m in mods for x in TRUSTED.get(m, [])] + sorted({f'assumed contract: {a}' for m in mods for a in proofs[m].assumed}),
        'functions_under_contract': sorted({f for m in mods for f in proofs[m].fns}),
        'functions_not_taken_by_the_verifier': trusted,
        'modules_not_verified': undone,
        'failed_obligations': [f'{m}: {f}: {ob}' for m, f, ob, _, _ in mine + others],
        'solver_ms': {m: proofs[m].smt_ms for m in mods},
        'bounded_replay': {
            'label': 'bounded, not counted as proved',
            'rule': P.get('rule', 'random inputs, see replay/src'),
            'evaluations': stats['evaluations'], 'distinct_nontrivial': stats['distinct'], 'samples': stats['samples'],
            'not_run': {k: e for k, e in errs.items() if k.startswith('build ')} or None,
        },
        'vacuity_and_stability': probes or 'thorough tier only',
        'proof_scope': P.get('scope', ''),
    }
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': P['level'],
        'coverage': cov, 'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': violations,
    }
    with open(f'{VERIF}/evidence/{pid}.json', 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    try:
        main()
    except Undecided as e:
        log(str(e))
        sys.exit(2)
