#!/usr/bin/env python3
"""Generate the Verus file for a set of functions and run the verifier."""
import sys, os, json, subprocess, re, time, glob
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from cpp2verus import *
from gen import *

PRE = ['verus/prelude.rs', 'verus/lemmas.rs', 'verus/pv.rs', 'verus/specs.rs', 'verus/big.rs', 'verus/bits.rs', 'verus/frames.rs', 'verus/div.rs', 'verus/ints.rs', 'verus/strs.rs', 'verus/bin.rs', 'verus/cb.rs', 'verus/frac.rs', 'verus/conv.rs']
SRCS = ['BigIntegerImpl.cpp', 'BigInteger.cpp', 'algorithm.cpp', '../c/src/pgbn.cpp', ROOT + '/verus/frac_tu.cpp']

class LibUnit:
    """the big integers, fractions and the C binding"""
    name = 'lib'; pre = PRE; srcs = SRCS; vcs = '/contracts/*.vc'; gen = Gen
    @staticmethod
    def world(files=SRCS): return World(files)
    @staticmethod
    def text(world, done): return ''
class ExprUnit:
    """expression parser and evaluator"""
    name = 'expr'; pre = ['verus/expr.rs', 'verus/lex.rs']; vcs = '/contracts/expr/*.vc'
    import xgen as _x
    srcs = _x.XSRCS; gen = _x.XGen
    @staticmethod
    def world(files=None): return ExprUnit._x.XWorld(files or ExprUnit.srcs)
    @staticmethod
    def text(world, done): return ExprUnit._x.xtable(world, done)
class StatUnit:
    """registry of error codes"""
    name = 'stat'; pre = ['verus/stat.rs']; vcs = '/contracts/stat/*.vc'
    import sgen as _x
    srcs = _x.SSRCS; gen = _x.SGen
    @staticmethod
    def world(files=None): return World(files or StatUnit.srcs)
    @staticmethod
    def text(world, done): return StatUnit._x.stable(world, done)
UNITS = {'lib': LibUnit, 'expr': ExprUnit, 'stat': StatUnit}

def load_contracts(unit=LibUnit):
    cs = {}
    for f in sorted(glob.glob(ROOT + unit.vcs)): cs.update(parse_contracts(f))
    return cs

def load_world(files=SRCS):
    return World(files)

class Unit:
    def __init__(s): s.lines = []; s.tags = []; s.fns = {}; s.errors = {}; s.warn = []
    def add(s, t, tag=None, fn=None):
        for l in t.split('\n'): s.lines.append(l); s.tags.append((fn, tag))

def closure(world, cs, roots, baseline, Gen=Gen):
    """translate roots and everything they reach; returns name -> (lines, gen) or name -> ExtractError"""
    done = {}; todo = list(roots)
    while todo:
        n = todo.pop(0)
        if n in done: continue
        if n not in world.defs:
            done[n] = ExtractError('%s: no definition in the current source' % n); continue
        g = None
        try:
            g = Gen(world, cs, world.defs[n], None)
            ls = g.run()
            if n in baseline:
                ren = match_locals(baseline[n], g.locals)
                if ren: g = Gen(world, cs, world.defs[n], ren); ls = g.run()
            done[n] = (ls, g)
            todo += [c for c in sorted(g.callees) if c not in done]
        except ExtractError as e:
            done[n] = decl_only(world, cs, n, e, Gen)
        except (KeyError, IndexError, AttributeError, TypeError) as e:
            import traceback
            if os.environ.get('GENDBG'): traceback.print_exc()
            done[n] = decl_only(world, cs, n, ExtractError('%s: translator: %r' % (n, e)), Gen)
    return done

def decl_only(world, cs, n, why, Gen):
    """a function whose body is out of the translator's reach is kept as its declaration and contract, so that its callers can still be judged; it counts as not verified"""
    if n not in cs: return why
    try:
        g = Gen(world, cs, world.defs[n], None); g.sigonly = True; g.reason = str(why)
        return g.run(), g
    except (ExtractError, KeyError, IndexError, AttributeError, TypeError): return why

def sig_only(lines):
    """declaration with contract, body trusted"""
    out = []
    for t, tag in lines:
        if t == '{' or t.startswith('{ unimplemented'): break
        if t == '#[verifier::external_body]': continue
        out.append((t, None if tag is None or tag[0] != 'fn' else tag))
    return [('#[verifier::external_body]', None)] + out + [('{ unimplemented!() }', None)]

def assemble(done, verify, cs, unit=LibUnit, world=None):
    u = Unit()
    u.add('use vstd::prelude::*;\nverus!{')
    tx = unit.text(world, done)
    if tx: u.add(tx, ('base', 'tables'))
    for f in unit.pre:
        u.add(open(ROOT + '/' + f).read().rstrip('\n'), ('base', f))
    tabs = {}
    for n, r in done.items():
        if isinstance(r, ExtractError): continue
        tabs.update(r[1].tables)
    for tn, (et, vals) in sorted(tabs.items()): u.add(table(tn, et, vals), ('table', tn))
    for n, r in sorted(done.items()):
        if isinstance(r, ExtractError): u.errors[n] = str(r); continue
        ls, g = r
        for t, tag in (ls if n in verify else sig_only(ls)): u.add(t, tag, n)
        u.add('')
    u.add('}\nfn main(){}')
    # a solver process of its own for every function: parallel, and independent of what else is in the file
    ls = []; ts = []
    for i, (l, t) in enumerate(zip(u.lines, u.tags)):
        if re.match(r'pub (broadcast )?(proof )?fn ', l) and 'external_body' not in u.lines[i-1]:
            ls.append('#[verifier::spinoff_prover]'); ts.append((None, None))
        ls.append(l); ts.append(t)
    u.lines = ls; u.tags = ts
    return u

def table(tn, et, vals):
    if et == 'lit':
        # a string literal: a byte array of static storage duration (it exists before the call)
        b = vals + [0]; runs = []; i = 0
        while i < len(b):
            j = i
            while j < len(b) and b[j] == b[i]: j += 1
            runs.append((i, j, b[i])); i = j
        ens = ['h@.by.dom().contains(r.c@)', 'r.c@ != 0', 'r.i == 0', 'h@.by[r.c@].len() == %d' % len(b)]
        for i, j, x in runs: ens.append('forall |k: int| %d <= k < %d ==> #[trigger] h@.by[r.c@][k] == %d' % (i, j, x) if j - i > 1 else 'h@.by[r.c@][%d] == %d' % (i, x))
        if 0 not in vals: ens.append('iscstr(h@.by[r.c@], 0, %d)' % len(vals))
        return '#[verifier::external_body]\npub fn %s(h: &H) -> (r: Bp) ensures %s { unimplemented!() }' % (tn, ', '.join(ens))
    body = ' '.join('if i == %d { %d%s } else' % (i, v, et) for i, v in enumerate(vals)) + ' { 0%s }' % et
    sp = ' '.join('if i == %d { %d%s } else' % (i, v, et) for i, v in enumerate(vals)) + ' { 0%s }' % et
    return ('pub open spec fn sp_%s(i: int) -> %s { %s }\npub fn %s(i: i64) -> (r: %s) requires 0 <= i < %d ensures r == sp_%s(i as int) { %s }'
            % (tn, et, sp, tn, et, len(vals), tn, body))

def run_verus(path, threads=8, rlimit=60, timeout=800, extra=(), stop=None):
    t = time.time()
    cmd = ['verus', '--num-threads', str(threads), '--multiple-errors', '20', '--rlimit', str(rlimit), '--no-report-long-running', '--output-json', '--time-expanded', path] + list(extra) + ['--', '--error-format=json']
    q = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    class p: pass
    while True:
        try: p.stdout, p.stderr = q.communicate(timeout=max(0.1, min(timeout - (time.time() - t), 1.0))); p.returncode = q.returncode; break
        except subprocess.TimeoutExpired:
            if time.time() - t < timeout and not (stop and stop()): continue
            try: os.killpg(q.pid, 9)
            except OSError: pass
            q.communicate()
            return {'timeout': True, 'time': time.time() - t, 'diags': [], 'json': {}, 'stderr': ''}
    diags = []
    other = []
    for l in p.stderr.split('\n'):
        if l.startswith('{'):
            try: diags.append(json.loads(l))
            except ValueError: other.append(l)
        else: other.append(l)
    try: js = json.loads(p.stdout)
    except ValueError: js = {}
    return {'timeout': False, 'time': time.time() - t, 'diags': diags, 'json': js, 'stderr': '\n'.join(other), 'rc': p.returncode}

def attribute(u, res):
    """verifier diagnostics -> [(fn, tag, message, line text)]"""
    out = []
    for d in res['diags']:
        if d.get('level') != 'error': continue
        msg = d['message']
        if msg.startswith('aborting due to'): continue
        spans = d.get('spans', [])
        fn = None; tags = []
        for sp in spans:
            i = sp['line_start'] - 1
            if 0 <= i < len(u.tags):
                f, t = u.tags[i]
                tags.append((sp.get('is_primary'), f, t, u.lines[i].strip(), sp.get('label')))
        out.append((msg, tags, d.get('rendered', '')))
    return out

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('roots', nargs='+'); ap.add_argument('--only', action='store_true', help='verify only the roots'); ap.add_argument('-o', default='/tmp/w/out.rs')
    ap.add_argument('--unit', default='lib'); ap.add_argument('--rlimit', default='30'); ap.add_argument('--show', action='store_true'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--raw', action='store_true')
    a = ap.parse_args()
    unit = UNITS[a.unit]
    w = cached_world(unit.srcs, unit)
    cs = load_contracts(unit)
    roots = []
    for r in a.roots: roots += [n for n in cs if re.fullmatch(r, n)] or [r]
    base = load_baseline()
    done = closure(w, cs, roots, base, unit.gen)
    verify = set(roots) if a.only else set(n for n in done)
    verify -= {n for n, r in done.items() if not isinstance(r, ExtractError) and r[1].sigonly}
    u = assemble(done, verify, cs, unit, w)
    open(a.o, 'w').write('\n'.join(u.lines) + '\n')
    for n, r in done.items():
        if isinstance(r, ExtractError): print('EXTRACT', n, r)
        elif r[1].sigonly: print('DECL ONLY', n, r[1].reason); verify.discard(n)
        elif n in verify:
            if getattr(r[1], 'missing', None): print('UNUSED-ANCHORS', n, r[1].missing, 'calls', dict(r[1].calls))
            if getattr(r[1], 'loops_mismatch', False): print('LOOPS', n, r[1].loopn)
            if a.v: print('OK', n, r[1].calls, r[1].locals, 'inl', r[1].inlined)
    if a.show:
        for n in roots:
            if not isinstance(done[n], ExtractError):
                for t, _ in done[n][0]: print(t)
    res = run_verus(a.o, rlimit=float(a.rlimit))
    for msg, tags, rend in attribute(u, res):
        if a.raw: print(rend); continue
        print('ERR', msg)
        for p, f, t, l, lab in tags: print('    ', '*' if p else ' ', f, t, '|', l[:200], '|', lab)
    vr = res['json'].get('verification-results', {})
    print(vr, '%.1fs' % res['time'])
    if not vr: print(res['stderr'][-3000:])

def cached_world(files, unit=LibUnit):
    import pickle, hashlib
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/src/**/*', recursive=True) + glob.glob(REPO + '/c/**/*', recursive=True)):
        if os.path.isfile(f): h.update(f.encode() + open(f, 'rb').read())
    h.update(repr(files).encode() + open(HERE + '/cpp2verus.py', 'rb').read() + (open(HERE + '/xgen.py', 'rb').read() if unit.name != 'lib' else b'') + (open(HERE + '/sgen.py', 'rb').read() if unit.name == 'stat' else b'') + unit.name.encode())
    p = '/tmp/w/world-%s.pkl' % h.hexdigest()[:16]
    if os.path.exists(p):
        sys.setrecursionlimit(100000)
        return pickle.load(open(p, 'rb'))
    w = unit.world(files)
    sys.setrecursionlimit(100000)
    try: pickle.dump(w, open(p, 'wb'))
    except Exception as e: print('nocache', e)
    return w

def shape(fd):
    """the loops of a function: kind and number of jumps out of each; contracts with loop invariants are written for one shape"""
    out = []
    for x in walk(fd.tu.body(fd.d)):
        if x.get('kind') in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt'):
            out.append([x['kind']] + [sum(1 for y in walk(x) if y.get('kind') == k) for k in ('BreakStmt', 'ContinueStmt', 'ReturnStmt')])
    return out

def load_shapes():
    p = ROOT + '/contracts/shapes.json'
    return json.load(open(p)) if os.path.exists(p) else {}

def load_baseline():
    """names (and types) of the locals the contracts were written against: fn -> [[name, type]]"""
    p = ROOT + '/contracts/locals.json'
    return json.load(open(p)) if os.path.exists(p) else {}

def match_locals(base, cur):
    """{index: name}: keep names that still exist, pair the others up in order of appearance by type"""
    have = set(n for n, t in base); used = set(); out = {}
    curn = set(n for n, t in cur)
    freeb = [(n, t) for n, t in base if n not in curn]
    for i, (n, t) in enumerate(cur):
        if n in have: continue
        for k, (bn, bt) in enumerate(freeb):
            if bt == t: out[i] = bn; freeb.pop(k); break
    return out

if __name__ == '__main__':
    import build
    build.main()
