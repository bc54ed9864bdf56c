#!/usr/bin/env python3
"""check.py Pxx: decide one property on /repo's current tree.
1. translate the functions under contract from the current sources and let Verus discharge every obligation;
2. run the concrete driver against exact arithmetic (replay of failed obligations, bounded stand-in for what is out of reach);
3. write evidence/Pxx.json and report."""
import sys, os, json, time, shutil, tempfile, threading, re, subprocess, glob
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import build as B
from build import *
import search as S
from props import PROPS

T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
def note(*a): print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

class Verif:
    """one verification run over the closure of a set of roots"""
    def __init__(s, roots, unit=LibUnit):
        s.u = unit
        s.patterns = roots; s.trusted = {}; s.struct = {}; s.failed = {}; s.ok = []; s.unit = None; s.solver = 0.0; s.items = 0; s.obl = 0; s.proofs_failed = []; s.timeout = []
        s.rounds = 0; s.stop = lambda: False; s.fatal = None; s.missing_roots = []; s.fntime = {}

    def go(s, deadline):
        cs = load_contracts(s.u)
        roots = [n for n in cs if any(re.fullmatch(p, n) for p in s.patterns)]
        s.roots = roots
        if not roots: s.fatal = 'no function under contract'; return
        try: w = s.u.world()
        except ExtractError as e: s.fatal = 'the sources could not be read: %s' % e; return
        base = load_baseline()
        done = closure(w, cs, roots, base if s.u is LibUnit else {}, s.u.gen)
        s.closure = sorted(done)
        for n, r in done.items():
            if isinstance(r, ExtractError): s.struct[n] = 'extraction: %s' % r
            elif r[1].sigonly: s.struct[n] = 'extraction: %s' % r[1].reason
        s.contracts = cs; s.done = done
        s.inlined = sorted(set(x for n, r in done.items() if not isinstance(r, ExtractError) for x in r[1].inlined))
        shp = load_shapes(); pre = '' if s.u is LibUnit else s.u.name + ':'
        s.anch = {n: (r[1].missing, r[1].loops_mismatch or shp.get(pre + n, []) != shape(w.defs[n])) for n, r in done.items() if not isinstance(r, ExtractError) and not r[1].sigonly and not cs[n].trusted}
        good = [n for n, r in done.items() if not isinstance(r, ExtractError) and not r[1].sigonly and not cs[n].trusted]
        verify = set(good)
        tmpd = s.tmp
        path = os.path.join(tmpd, 'out.rs')
        res = None
        for rnd in range(6):
            u = assemble(done, verify, cs, s.u, w); s.unit = u
            open(path, 'w').write('\n'.join(u.lines) + '\n')
            left = deadline - time.time()
            if left < 20: s.fatal = 'out of time'; return
            res = run_verus(path, rlimit=40, timeout=min(left, 600))
            s.rounds += 1
            if res['timeout']: s.fatal = 'verifier time-out'; return
            errs = attribute(u, res)
            vr = res['json'].get('verification-results', {})
            if not vr or vr.get('encountered-vir-error') or (errs and not (vr.get('verified', 0) + vr.get('errors', 0))):
                bad = set()
                for msg, tags, rend in errs:
                    fs = [t[1] for t in tags if t[0] and t[1]] or [t[1] for t in tags if t[1]]
                    for f in fs[:1]:
                        bad.add(f); s.struct.setdefault(f, 'the contract does not fit the current code: ' + msg[:200])
                bad &= verify
                if not bad: s.fatal = 'verifier input rejected: ' + (errs[0][0] if errs else res['stderr'][-500:]); return
                # a function whose signature is rejected cannot be kept even as a declaration
                verify -= bad; continue
            break
        else: s.fatal = 'verifier input rejected'; return
        s.collect(res)
        s.vr = vr
        s.items = vr.get('verified', 0)
        failing = {}
        for msg, tags, rend in errs:
            f = s.owner(tags)
            failing.setdefault(f, []).append((msg, tags, rend))
        # a failed attempt is repeated with other solver seeds and more resources before it counts
        todo = [f for f in sorted(failing, key=str) if f is not None]
        if None in failing: s.proofs_failed.append((None, failing[None]))
        okset = set(); last = dict(failing)
        def again(job):
            f, seed = job
            left = deadline - time.time()
            if f in okset or left < 15 or s.stop(): return
            r2 = run_verus(path, threads=2, rlimit=100, timeout=min(left, 150), extra=['--verify-root', '--verify-function', f, '--smt-option', 'smt.random_seed=%d' % seed], stop=lambda: f in okset or s.stop())
            s.rounds += 1
            if r2['timeout']: return
            e2 = [e for e in attribute(u, r2) if s.owner(e[1]) == f]
            if not e2 and r2['json'].get('verification-results', {}).get('verified', 0) > 0: okset.add(f)
            elif e2: last[f] = e2
        if todo:
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(6) as ex: list(ex.map(again, [(f, sd) for sd in (7, 23, 101) for f in todo]))
        for f in todo:
            if f in okset: s.items += 1
            elif f in good: s.failed[f] = last[f]
            else: s.proofs_failed.append((f, last[f]))
        s.ok = sorted(n for n in verify if n not in s.failed)
        s.obl, s.dis = s.count(good, cs)

    def owner(s, tags):
        prim = [t for t in tags if t[0]]
        # a failed precondition points at the callee; the call site is a secondary span and vice versa: take the body span
        for t in prim + tags:
            if t[1] and not (t[2] and t[2][0] in ('req',)): return t[1]
        for t in tags:
            if t[2] and t[2][0] == 'base':
                m = s.base_fn(t); 
                if m: return m
        return tags[0][1] if tags else None
    def base_fn(s, t):
        return None

    def collect(s, res):
        js = res['json']
        try:
            for m in js['times-ms']['smt']['smt-run-module-times']:
                for f in m.get('function-breakdown', []): s.fntime[f['function'].split('::')[-1]] = f.get('time', 0)
            s.solver += js['times-ms']['smt']['total'] / 1000.0
        except (KeyError, TypeError):
            try: s.solver += js['times-ms']['smt']['total'] / 1000.0
            except (KeyError, TypeError): s.solver += res['time']

    def count(s, good, cs):
        """obligations, counted from the generated text: postcondition clauses per exit, preconditions per call, loop invariants (entry and step), measures, assertions"""
        tot = dis = 0; s.per = {}
        for n in good:
            ls, g = s.done[n]
            con = cs[n]; c = 0
            rets = max(1, sum(1 for t, tag in ls if tag and tag[0] == 'ret') + (1 if con.ens else 0) - 1)
            c += len(con.ens) * rets
            for lp in con.loops.values(): c += 2 * len(lp['inv']) + (1 if lp['dec'] else 0)
            for name, k in g.calls.items():
                if name in cs: c += k * len(cs[name].req)
                else: c += k
            for t, tag in ls:
                if tag and tag[0] == 'hint' and 'assert' in t: c += t.count('assert(') + t.count('assert forall')
            s.per[n] = c; tot += c
            if n in s.ok: dis += c
        return tot, dis

def kinds_of(msg, tags):
    """what a failed obligation is about: clause tag or obligation kind"""
    out = set()
    for p, f, t, l, lab in tags:
        if t and t[0] in ('ens', 'inv'): out.add(('tag', t[1] or ''))
        if t and t[0] == 'hint': out.add(('hint', ''))
    m = msg.lower()
    if 'precondition' in m:
        out.add(('kind', 'assertdbg' if any('debug_assert_' in (l or '') for _, _, _, l, _ in tags) else 'pre'))
    if 'overflow' in m or 'underflow' in m or 'division by zero' in m or 'shift' in m: out.add(('kind', 'arith'))
    if 'decreases' in m or 'termination' in m: out.add(('kind', 'dec'))
    if 'rlimit' in m or 'resource limit' in m: out.add(('limit', ''))
    return out

def describe(err):
    msg, tags, rend = err
    return '%s\n%s' % (msg, rend)

MEMORY = {
 'lib': 'memory model: limb vectors as sequences behind shared_ptr cells, use_count()==1 iff no other object holds the cell; allocation failure and vectors longer than 2^48 words out of scope',
 'expr': 'expression layer: the value-level contracts of BigIntegerImpl operations are those proved under P01-P07, P12, P13; node pool, token list, std::function members and status objects form one heap value; symbols are uninterpreted',
 'stat': 'registry: std::unordered_map as a map, std::string/StringArg/C strings as byte sequences, std::function and std::bind results as the recorded target and arguments; static locals are initialised once, by the first thread to reach them ([stmt.dcl]); callbacks return and do not touch the registry; registrations are not concurrent with other calls (the header says registe is not thread-safe)',
}
def trusted_base(v):
    t = []
    src = ''.join(open(f).read() for f in [ROOT + '/' + x for x in v.u.pre])
    names = re.findall(r'#\[verifier::external_body\]\s*\n?pub (?:proof )?fn (\w+)', src)
    used = set()
    for n in v.ok: used |= v.done[n][1].prims
    direct = [n for n in names if n in used or n.replace('_raw', '') in used]
    t.append('primitive contracts in verus/*.rs (no body, assumed) used by these functions: ' + ', '.join(sorted(direct)))
    tr = sorted(n for n in v.closure if n in v.contracts and v.contracts[n].trusted)
    if tr: t.append('library functions with assumed contracts: ' + ', '.join(tr))
    t += ['clang 18 AST and the mechanical translation tools/cpp2verus.py, tools/gen.py (C++ evaluation order: operands left to right, right operand of assignments first)',
          'Verus 0.2026.09.13 and Z3',
          MEMORY[v.u.name]]
    return t

def main():
    prop = sys.argv[1]; cfg = PROPS[prop]
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    evp = ROOT + '/evidence/%s.json' % prop
    if os.path.exists(evp): os.remove(evp)
    man = json.load(open(ROOT + '/MANIFEST.json'))
    level = [c for c in man['checks'] if c['property'] == prop][0]['level']
    tmp = tempfile.mkdtemp(prefix='pgbn-')
    rc = 2
    try: rc = run(prop, cfg, tmp, level, evp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def run(prop, cfg, tmp, level, evp):
    thorough = TIER == 'thorough'
    deadline = T0 + (600 if not thorough else 3000)
    san = prop in S.SAN
    box = {}
    def builder():
        t = time.time()
        box['bin'], box['err'] = S.build(tmp + '/drv', san=san, debug=prop == 'P23', feats=S.FEATS.get(prop, S.FEATS0))
        if not box['bin']: note('driver build failed:', box['err'][:600])
        if box['bin']:
            q = cfg.get('budget', 12) if not thorough else cfg.get('tbudget', 240)
            box['f'], box['st'] = S.search(prop, box['bin'], SEED, q, tmp, env='san' if san else None)
    th = threading.Thread(target=builder); th.start()
    v = Verif(cfg['roots'], UNITS[cfg.get('unit', 'lib')]); v.tmp = tmp; v.stop = lambda: box.get('f') is not None  # the real code has already failed: no need to try again
    try: v.go(deadline)
    except Exception as e:
        import traceback; traceback.print_exc(); v.fatal = 'internal: %r' % e
    th.join()
    note('verifier:', 'FATAL ' + v.fatal if v.fatal else '%d functions discharged, %d failed, %d out of reach, obligations %d/%d, solver %.1fs' % (len(v.ok), len(v.failed), len(v.struct), getattr(v, 'dis', 0), v.obl, v.solver))
    for n, why in sorted(v.struct.items()): note('  not verified (bounded only):', n, '-', why[:300])
    for n, es in sorted(v.failed.items()):
        for e in es: note('  FAILED', n, '|', e[0], '|', ' / '.join(l[:160] for _, _, _, l, _ in e[1]))
    for n, es in v.proofs_failed: note('  proof not accepted:', n, '|', '; '.join(e[0] for e in es))
    undecided = bool(v.fatal or v.struct or v.failed or v.proofs_failed)
    f, st = box.get('f'), box.get('st')
    if f is None and undecided and box.get('bin'):
        # the proof does not cover everything any more: look harder
        left = deadline + 200 - time.time()
        more = min(left, cfg.get('more', 75))
        if more > 5:
            note('searching further for %.0f s' % more)
            f, st2 = S.search(prop, box['bin'], SEED + 1000003, more, tmp, env='san' if san else None)
            for k in st2: st[k] = st[k] + st2[k] if k in ('evaluations', 'commands', 'distinct_nontrivial', 'wall') else st[k]
    if st: note('driver: %d cases, %d calls, %.1fs' % (st['evaluations'], st['commands'], st['wall']))
    # obligations of this property that failed although the code still has the shape the contracts were written for
    mine = []
    for n, es in v.failed.items():
        miss, lm = v.anch.get(n, ([], False))
        if miss or lm: continue
        for e in es:
            ks = kinds_of(e[0], e[1])
            if any(k == ('limit', '') for k in ks): continue
            if any(k[0] == 'tag' and set(re.split(r'[ ,]+', k[1])) & set(cfg['own']) for k in ks) or any(k[0] == 'kind' and k[1] in cfg.get('kinds', ()) for k in ks): mine.append((n, e))
    cov = dict(evaluations=(st or {}).get('evaluations', 0), distinct_nontrivial=(st or {}).get('distinct_nontrivial', 0),
               rule='Bounded stand-in and replay: programs of library calls (boundary operands of up to some tens of words, shared and aliased objects; a systematic part, then random ones from VERIF_SEED) run on the real library; every result is compared with exact integer arithmetic. Non-trivial: distinct command texts.',
               samples=(st or {}).get('samples') or ['none'], driver_calls=(st or {}).get('commands', 0), driver_wall_s=round((st or {}).get('wall', 0), 1),
               obligations=v.obl, discharged=getattr(v, 'dis', 0),
               checker_cmd='verus (Z3) on the file tools/check.py %s generates from /repo on this run' % prop,
               trusted_base=trusted_base(v) if v.ok else ['none used'],
               verifier_items_discharged=v.items, solver_s=round(v.solver, 2), verifier_runs=v.rounds,
               functions_under_contract={n: {'obligations': v.per.get(n, 0), 'discharged': n in v.ok, 'solver_ms': v.fntime.get(n)} for n in getattr(v, 'per', {})},
               functions_inlined=getattr(v, 'inlined', []),
               not_verified_this_run=dict([(n, w[:300]) for n, w in v.struct.items()] + [(n, '; '.join(e[0] for e in es)[:300]) for n, es in v.failed.items()] + ([('all', v.fatal)] if v.fatal else [])),
               bounded_only=cfg.get('bounded', []),
               explanation=cfg.get('explain', '') or 'Contracts on the functions listed are discharged by Verus/Z3 for all inputs; what is listed under bounded_only is exercised only by the bounded driver and not counted as proved.')
    if undecided: cov['explanation'] += ' On this run not every function could be verified (see not_verified_this_run): for those the result rests on the bounded driver only.'
    rc = 0; nviol = 0
    rep = ROOT + '/replays/%s.txt' % prop
    known = [l.strip() for l in open(ROOT + '/known-findings.txt')] if os.path.exists(ROOT + '/known-findings.txt') else []
    for l in known:
        if l.startswith('known: property=%s ' % prop): print('KNOWN-FINDING: property=%s %s' % (prop, l.split(' ', 2)[2]))
    os.makedirs(ROOT + '/replays', exist_ok=True)
    if os.path.exists(rep): os.remove(rep)
    if f is not None:
        nviol = 1; rc = 1
        with open(rep, 'w') as o:
            o.write('property %s violated by the real code\n\n%s\n' % (prop, f.text()))
            if v.failed:
                o.write('\nfailed obligations:\n')
                for n, es in v.failed.items():
                    for e in es: o.write('%s: %s\n' % (n, describe(e)))
        note(f.text()[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, rep))
    elif mine:
        nviol = len(mine); rc = 1
        with open(rep, 'w') as o:
            o.write('property %s: the verifier does not accept these obligations generated from the current source; no failing input was found by the driver\n\n' % prop)
            for n, e in mine: o.write('function %s: %s\n' % (n, describe(e)))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rep))
    elif not box.get('bin') and undecided:
        note('neither the verifier nor the driver can judge this tree'); rc = 2
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, violations=nviol, wall_s=round(time.time() - T0, 1),
              assumptions=['no allocation failure; limb vectors of at most 2^48 words', 'single-threaded use of the objects involved', 'division by zero: the registered callback returns (status set, operands unchanged)',
                           'operands evaluated left to right', 'caller-supplied buffers are as large as stated'])
    json.dump(ev, open(evp, 'w'), indent=1)
    note('done, exit', rc)
    return rc

if __name__ == '__main__': main()
