#!/usr/bin/env python3
"""Concrete search: runs the real library (driver built from /repo's current sources) against exact integer arithmetic.
Used (a) to replay a failed obligation with a concrete input, (b) as the bounded stand-in where the verifier cannot reach."""
import os, sys, random, subprocess, tempfile, shutil, time, math, re
from itertools import chain
from fractions import Fraction as Q
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

sys.setrecursionlimit(100000)
M64 = 1 << 64; I64MIN = -(1 << 63); I64MAX = (1 << 63) - 1; U64MAX = M64 - 1

# ------------------------------------------------------------------ build
FEATS0 = ('FRAC', 'C'); FEATS = {'P17': ('EVAL',), 'P18': ('EVAL',), 'P22': ('STATUS', 'C')}; SAN = ('P18', 'P23')
def build(dst, san=False, feats=FEATS0, debug=False, std_asserts=False):
    """compile the library and the driver; returns (binary, note) or (None, error text)"""
    os.makedirs(dst, exist_ok=True)
    flags = ['-std=c++17', '-I' + REPO + '/src', '-I' + REPO + '/c/src', '-D__STDC_FORMAT_MACROS', '-w']
    flags += ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-DDRV_SAN'] if san else ['-O1']
    if debug: flags += ['-DPGBN_DEBUG', '-DPGZXB_DEBUG', '-D_GLIBCXX_ASSERTIONS']
    srcs = []
    for r, ds, fs in os.walk(REPO + '/src'): srcs += [os.path.join(r, f) for f in fs if f.endswith('.cpp')]
    if 'C' in feats: srcs.append(REPO + '/c/src/pgbn.cpp')
    objs = []; ps = []
    def obj(s): return os.path.join(dst, re.sub(r'[^A-Za-z0-9]', '_', s) + '.o')
    jobs = [(['g++'] + flags + ['-c', s, '-o', obj(s)]) for s in sorted(srcs)]
    objs = [obj(s) for s in srcs]
    drv = ROOT + '/drv/drv.cpp'
    dflags = ['-D' + 'D_' + f for f in feats]
    dobj = os.path.join(dst, 'drv.o')
    jobs.append(['g++'] + flags + dflags + ['-fno-access-control', '-c', drv, '-o', dobj])
    ps = [(j, subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for j in jobs]
    err = {}
    for j, p in ps:
        o, _ = p.communicate()
        if p.returncode: err[j[-3]] = o
    if drv in err:
        j = ['g++'] + flags + dflags + ['-DD_PUBLIC', '-c', drv, '-o', dobj]
        p = subprocess.run(j, capture_output=True, text=True)
        if p.returncode == 0: err.pop(drv)
    if err: return None, '\n'.join(err.values())[-3000:]
    b = os.path.join(dst, 'drv')
    p = subprocess.run(['g++'] + flags + objs + [dobj, '-o', b, '-lpthread'], capture_output=True, text=True)
    if p.returncode: return None, p.stderr[-3000:]
    for o in objs + [dobj]: os.remove(o)
    return b, ''

# ------------------------------------------------------------------ expectations
class V:      # value(s) of dumped objects
    def __init__(s, *v): s.v = list(v)
class Cn(V):  # value(s) in canonical form
    pass
class Any_:
    pass
ANY = Any_()
class Pat:    # predicate on the output
    def __init__(s, f, d): s.f = f; s.d = d

def dec(tok):
    """dump -> (value or None, canonical?)"""
    if tok == 'null': return None, False
    f, n, hx = tok.split(':'); f = int(f); n = int(n)
    mag = int(hx, 16) if hx else 0
    canon = (f == 1 and n == 0) or (f in (2, 4) and n > 0 and int(hx[:8], 16) != 0)
    if f == 1: return (0 if mag == 0 else None), canon
    if f == 2: return mag, canon
    if f == 4: return -mag, canon
    return None, False

def ok(exp, line):
    if exp is ANY: return True
    if isinstance(exp, V):
        ts = line.split()
        if len(ts) != len(exp.v): return False
        for e, t in zip(exp.v, ts):
            if e is None: continue
            try: v, c = dec(t)
            except ValueError: return False
            if v != e or (isinstance(exp, Cn) and not c): return False
        return True
    if isinstance(exp, Pat):
        try: return bool(exp.f(line))
        except Exception: return False
    return line == exp

def show(exp):
    if isinstance(exp, V): return ('canonical ' if isinstance(exp, Cn) else 'value ') + ' '.join('*' if v is None else hx(v) for v in exp.v)
    if isinstance(exp, Pat): return exp.d
    return 'anything' if exp is ANY else repr(exp)

def hx(v): return ('-' if v < 0 else '') + '%x' % abs(v)
def bhex(b): return b.hex() or '-'

# ------------------------------------------------------------------ exact semantics
def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def tmod(a, b): return a - b * tdiv(a, b)
def digits(v, r):
    if v == 0: return '0'
    s = ''; n = abs(v); D = '0123456789abcdefghijklmnopqrstuvwxyz'
    if r in (2, 8, 16): s = format(n, {2: 'b', 8: 'o', 16: 'x'}[r])
    elif r == 10: s = str(n)
    else:
        while n: s = D[n % r] + s; n //= r
    return ('-' if v < 0 else '') + s
def sgn(x): return (x > 0) - (x < 0)
def wrap(v, k, signed):
    v &= (1 << k) - 1
    return v - (1 << k) if signed and v >> (k - 1) else v
def parse(s, r):
    """value or None; the text is a byte string"""
    if not 2 <= r <= 36: return None
    t = s[1:] if s[:1] in (b'+', b'-') else s
    if not t: return None
    v = 0
    for c in t:
        ch = chr(c)
        if '0' <= ch <= '9': d = c - 48
        elif 'a' <= ch <= 'z': d = c - 87
        elif 'A' <= ch <= 'Z': d = c - 55
        else: return None
        if d >= r: return None
        v = v * r + d
    return -v if s[:1] == b'-' else v
def frombin(b, little): return int.from_bytes(b, 'little' if little else 'big', signed=True) if b else 0
def magbytes(v):
    n = abs(v); return n.to_bytes((n.bit_length() + 7) // 8, 'little')
def notbits(v):
    m = abs(v); m ^= (1 << m.bit_length()) - 1
    return -m if v < 0 else m
UN = {'notself': lambda v: ~v, 'not': lambda v: ~v, 'notbits': notbits, 'neg': lambda v: -v, 'abs': abs, 'inc': lambda v: v + 1, 'dec': lambda v: v - 1, 'pos': lambda v: v, 'negated': lambda v: -v, 'absd': abs}
BIN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': tdiv, 'mod': tmod, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}
def relbits(a, b): return ''.join('1' if x else '0' for x in (a == b, a != b, a < b, a <= b, a > b, a >= b))

# ------------------------------------------------------------------ inputs
LIMBS = [0, 0, 0, 1, 1, 2, 3, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0xffffffff, 0xffffffff, 0x10000, 0xffff]
I64S = [0, 1, -1, 2, -2, 3, 7, -7, 10, 16, -16, 31, 32, 33, 63, 64, 0x7fffffff, 0x80000000, 0x80000001, -0x7fffffff, -0x80000000, -0x80000001, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001,
        -0xfffffffe, -0xffffffff, -0x100000000, -0x100000001, 0x1fffffffe, 0x1ffffffff, 0x200000000, -0x200000000, 0x123456789abcdef, -0x123456789abcdef, 0x7fffffff00000000, -0x7fffffff00000000, 0x7fffffffffffffff, -0x7fffffffffffffff, I64MIN, I64MIN + 1, I64MAX - 1,
        0x5555555555555555, -0x5555555555555555, 0x4000000000000000, -0x4000000000000000, 0xffff, 0x10000, 255, 256, 1000000007, 0x0fffffff, 0x10000000, -0x10000000]
class Inp:
    def __init__(s, rng): s.r = rng
    def limb(s): return s.r.choice(LIMBS) if s.r.random() < .7 else s.r.getrandbits(32)
    def mag(s, n):
        r = s.r; k = r.random()
        if n == 0: return 0
        if k < .08: return (1 << (32 * n)) - 1
        if k < .16: return 1 << (32 * (n - 1))
        if k < .22: return (1 << (32 * (n - 1))) + 1
        if k < .28: return (1 << (32 * n - r.randrange(0, 32))) - 1 or 1
        if k < .34: return (s.r.getrandbits(32) or 1) << (32 * (n - 1))
        if k < .40: return 1 << (32 * n - r.randrange(1, 33))
        v = 0
        for _ in range(n): v = v << 32 | s.limb()
        top = v >> (32 * (n - 1))
        if top == 0: v |= (r.choice([1, 0x80000000, 0xffffffff, 2])) << (32 * (n - 1))
        return v
    def n(s, big=False):
        r = s.r; k = r.random()
        if k < .06: return 0
        if k < .80: return r.randrange(1, 6)
        if k < .97: return r.randrange(5, 14)
        return r.randrange(13, 40)
    def val(s, n=None):
        v = s.mag(s.n() if n is None else n)
        return -v if s.r.random() < .45 else v
    def i64(s):
        r = s.r
        if r.random() < .75: return r.choice(I64S)
        v = r.getrandbits(r.choice([8, 31, 32, 33, 48, 63]))
        return -v if r.random() < .5 else v
    def store(s): return ' %d %d' % (s.r.choice([0, 0, 1, 1, 2, 5]), s.r.choice([0, 0, 0, 1, 2, 6]))

class Case:
    def __init__(s): s.cmds = []; s.exp = []
    def add(s, c, e=ANY): s.cmds.append(c); s.exp.append(e); return s

class M:
    """a program being built together with its exact meaning; k = 'I' (BigIntegerImpl), 'W' (BigInteger) or 'C' (C handles)"""
    def __init__(s, rng, k, canon=False):
        s.c = Case(); s.r = rng; s.k = k; s.v = [0] * 6; s.inp = Inp(rng); s.D = Cn if canon else V
    def init(s, r, v):
        s.v[r] = v; s.c.add(s.k + 'ni %d %s' % (r, hx(v)) + (s.inp.store() if s.k != 'C' else ''), '.'); return s
    def new(s, r): return s.init(r, s.inp.val())
    def dump(s, *rs):
        rs = rs or range(6)
        s.c.add(s.k + 'd ' + ' '.join(map(str, rs)), s.D(*[s.v[r] for r in rs])); return s
    def cp(s, d, a, how='cp'):
        s.v[d] = s.v[a]; s.c.add('%s%s %d %d' % (s.k, how, d, a), '.'); return s
    def mv(s, d, a, how):
        x = s.v[a]; s.v[a] = 0; s.v[d] = x; s.c.add('%s%s %d %d' % (s.k, how, d, a), '.'); return s
    def b(s, op, d, a):
        s.v[d] = BIN[op](s.v[d], s.v[a]); s.c.add('%sb %s %d %d' % (s.k, op, d, a), '.'); return s
    def bi(s, op, d, i):
        s.v[d] = BIN[op](s.v[d], i); s.c.add('%sbi %s %d %d' % (s.k, op, d, i), '.'); return s
    def un(s, op, d):
        s.v[d] = UN[op](s.v[d]); s.c.add('%sun %s %d' % (s.k, op, d), '.'); return s
    def shl(s, d, n): s.v[d] <<= n; s.c.add('%sshl %d %d' % (s.k, d, n), '.'); return s
    def shr(s, d, n): s.v[d] >>= n; s.c.add('%sshr %d %d' % (s.k, d, n), '.'); return s
    def binop(s, op):
        """one operation of this name, in a random form, on random registers; returns registers to look at"""
        r = s.r; k = s.k; a = r.randrange(6); b = r.randrange(6); d = r.randrange(6)
        if r.random() < .25: b = a
        form = r.random()
        isdiv = op in ('div', 'mod')
        if form < .45 or (k == 'I' and form < .6) or (k == 'C' and form < .6):
            if isdiv and s.v[b] == 0: return s
            if k == 'I' and op == 'mod':
                q = r.choice([x for x in range(6) if x not in (a, b)])
                va, vb = s.v[a], s.v[b]; s.v[a] = tmod(va, vb); s.v[q] = tdiv(va, vb); s.c.add('Imq %d %d %d' % (a, b, q), '.')
                return s
            return s.b(op, a, b)
        if form < .65 or k != 'W':
            i = s.inp.i64()
            if isdiv and i == 0: i = -3
            if k == 'I' and op == 'mod':
                q = r.choice([x for x in range(6) if x != a]); va = s.v[a]
                s.v[a] = tmod(va, i); s.v[q] = tdiv(va, i); s.c.add('Imqi %d %d %d' % (a, i, q), '.'); return s
            return s.bi(op, a, i)
        if form < .8:
            if isdiv and s.v[b] == 0: return s
            s.v[d] = BIN[op](s.v[a], s.v[b]); s.c.add('Wv %s %d %d %d' % (op, d, a, b), '.')
        elif form < .9:
            i = s.inp.i64()
            if isdiv and i == 0: i = 5
            s.v[d] = BIN[op](s.v[a], i); s.c.add('Wvi %s %d %d %d' % (op, d, a, i), '.')
        else:
            i = s.inp.i64()
            if isdiv and s.v[b] == 0: return s
            s.v[d] = BIN[op](i, s.v[b]); s.c.add('Wiv %s %d %d %d' % (op, d, i, b), '.')
        return s
    def share(s):
        r = s.r; a, d = r.sample(range(6), 2); k = s.k; x = r.random()
        if k == 'I':
            if x < .7: return s.cp(d, a, r.choice(['cp', 'ap', 'op']))
            if x < .8:
                s.v[a], s.v[d] = s.v[d], s.v[a]; s.c.add('Isw %d %d' % (a, d), '.'); return s
            return s.mv(d, a, r.choice(['mv', 'ma', 'mo'])) if 1 else s
        if k == 'W':
            if x < .75: return s.cp(d, a, r.choice(['cp', 'as']))
            return s.mv(d, a, r.choice(['mv', 'ma']))
        return s.cp(d, a, r.choice(['cp', 'as']))
    def anyop(s, ops=('add', 'sub', 'mul', 'div', 'mod', 'and', 'or', 'xor', 'un', 'sh', 'u32', 'cmp', 'a64')):
        r = s.r; op = r.choice(ops); a = r.randrange(6)
        if max(abs(x) for x in s.v) >> 2400: s.init(max(range(6), key=lambda i: abs(s.v[i])), s.inp.val())
        if op == 'un': return s.un(r.choice(['notself', 'notbits', 'neg', 'abs', 'inc', 'dec']), a)
        if op == 'sh':
            n = s.shn()
            return s.shl(a, min(n, 200)) if r.random() < .5 else s.shr(a, n)
        if op == 'u32': return s.u32(a)
        if op == 'cmp':
            b = r.randrange(6)
            if s.k == 'W': s.c.add('Wcmp %d %d' % (a, b), ANY)
            else: s.c.add('%scmp %d %d' % (s.k, a, b), ANY)
            return s
        if op == 'a64':
            i = s.inp.i64(); s.v[a] = i
            s.c.add('%s%s %d %d' % (s.k, {'I': r.choice(['64', 'a6']), 'W': r.choice(['64', 'a6', 'ag']), 'C': r.choice(['64', 'a6'])}[s.k], a, i), '.'); return s
        return s.binop(op)
    def shn(s):
        r = s.r; k = r.random()
        if k < .5: return r.choice([0, 1, 5, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 160])
        return r.randrange(0, 300)
    def u32(s, a, n=None):
        r = s.r
        if n is None: n = r.randrange(0, (abs(s.v[a]).bit_length() // 32) + 3)
        s.c.add('%su32 %d %d' % (s.k, a, n), str((s.v[a] >> (32 * n)) & 0xffffffff) if s.strict_u32 else ANY); return s
    strict_u32 = True

# ------------------------------------------------------------------ generators: one per property
def kpick(rng, w='IWC'): return rng.choice(w)

def karat(rng):
    return rng.choice([78, 79, 80, 81, 82, 83, 90, 100, 119, 120, 121, 128, 159, 160, 161, 162, 163, 200, 240, 241])

def g_ops(ops, n_ops=(1, 5), kinds='IIWC', canon=False):
    def g(rng):
        m = M(rng, kpick(rng, kinds), canon)
        for r in range(6):
            if rng.random() < .85: m.new(r)
        x = rng.random()
        if x < .15: m.v[1] and m.init(1, m.v[0])
        elif x < .25: m.init(1, -m.v[0])
        elif x < .35: m.init(1, m.v[0] + rng.choice([-1, 1, 2, -2, 1 << 32, -(1 << 32)]))
        for _ in range(rng.randrange(*n_ops)):
            if rng.random() < .2: m.share()
            m.binop(rng.choice(ops)); m.dump()
        return m.c
    return g
def sys_pairs(op, kinds, vals, ivals):
    """systematic part: every pair of boundary values, in place, on one kind; batches of one case per pair"""
    def it():
        for k in kinds:
            for a in vals:
                for b in vals:
                    if op in ('div', 'mod') and b == 0: continue
                    if k == 'I' and op == 'mod':
                        yield Case().add('Ini 0 %s' % hx(a), '.').add('Ini 1 %s' % hx(b), '.').add('Imq 0 1 2', '.').add('Id 0 1 2', V(tmod(a, b), b, tdiv(a, b)))
                        continue
                    c = Case(); c.add('%sni 0 %s' % (k, hx(a)), '.').add('%sni 1 %s' % (k, hx(b)), '.').add('%sb %s 0 1' % (k, op), '.').add('%sd 0 1' % k, V(BIN[op](a, b), b))
                    yield c
                for i in ivals:
                    if op in ('div', 'mod') and i == 0: continue
                    if k == 'I' and op == 'mod':
                        yield Case().add('Ini 0 %s' % hx(a), '.').add('Imqi 0 %d 2' % i, '.').add('Id 0 2', V(tmod(a, i), tdiv(a, i))); continue
                    c = Case(); c.add('%sni 0 %s' % (k, hx(a)), '.').add('%sbi %s 0 %d' % (k, op, i), '.').add('%sd 0' % k, V(BIN[op](a, i)))
                    yield c
                    if k == 'W':
                        c = Case(); c.add('Wni 0 %s' % hx(a), '.')
                        c.add('Wvi %s 1 0 %d' % (op, i), '.').add('Wd 1 0', V(BIN[op](a, i), a))
                        if not (op in ('div', 'mod') and a == 0): c.add('Wiv %s 2 %d 0' % (op, i), '.').add('Wd 2 0', V(BIN[op](i, a), a))
                        yield c
    return it
BV = sorted(set(x * s for s in (1, -1) for x in
    [0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 0x1ffffffff, 0x8000000000000000, 0xffffffff00000000, 0xffffffffffffffff, 0xfffffffffffffffe, 0x10000000000000000, 0x10000000000000001,
     0xffffffffffffffffffffffff, 0x1000000000000000000000000, 0x800000000000000000000000, 0x800000008000000000000001, 0x100000000ffffffff00000000, 0x7fffffffffffffff, 0xffffffff0000000000000000]))
BIG = sorted(set([(1 << 2560) - 1, 1 << 2560, (1 << 2559) + 12345, (1 << 2592) - 1, -(1 << 1300) + 7]))

def g_mul_big(rng):
    k = kpick(rng, 'IIW'); inp = Inp(rng); c = Case()
    na = karat(rng); nb = karat(rng) if rng.random() < .7 else rng.randrange(1, 200)
    a = inp.val(na); b = inp.val(nb)
    z = rng.random()
    if z < .25: # many zero words, low half zero and the like
        a = abs(a) >> (32 * (na // 2)) << (32 * (na // 2)); b = b if rng.random() < .5 else (abs(b) & ((1 << (32 * (nb // 2))) - 1)) | 1 << (32 * (nb - 1))
    elif z < .35: a = (a & ((1 << 32 * (na // 2)) - 1)) | 1 << (32 * na - 1)
    c.add('%sni 0 %s' % (k, hx(a)) + inp.store(), '.').add('%sni 1 %s' % (k, hx(b)) + inp.store(), '.')
    if k == 'I' and rng.random() < .5: c.add('Imul 2 0 1', '.').add('Id 0 1 2', V(a, b, a * b)); return c
    if rng.random() < .2: c.add('%sb mul 0 0' % k, '.').add('%sd 0 1' % k, V(a * a, b)); return c
    if k == 'W' and rng.random() < .5: c.add('Wv mul 2 0 1', '.').add('Wd 0 1 2', V(a, b, a * b)); return c
    c.add('%sb mul 0 1' % k, '.').add('%sd 0 1' % k, V(a * b, b)); return c
def g_mul(rng): return g_mul_big(rng) if rng.random() < .12 else g_ops(['mul'], kinds='IIWC')(rng)
def g_mul3(rng):
    inp = Inp(rng); a = inp.val(); b = a if rng.random() < .2 else inp.val()
    c = Case().add('Ini 0 %s' % hx(a) + inp.store(), '.').add('Ini 1 %s' % hx(b) + inp.store(), '.').add('Ini 2 %s' % hx(inp.val()), '.')
    if rng.random() < .5: c.add('Icp 2 %d' % rng.randrange(2), '.')
    if a == b and rng.random() < .5: c.add('Imul 2 0 0', '.')
    else: c.add('Imul 2 0 1', '.')
    return c.add('Id 0 1 2', V(a, b, a * b))

def divisor_case(rng, inp):
    """dividend/divisor pairs that exercise every branch of long division"""
    k = rng.random(); n = rng.randrange(1, 6)
    b = inp.mag(n)
    if k < .2: b = (rng.choice([0x80000000, 0x80000001, 0xffffffff, 0x7fffffff, 1]) << (32 * (n - 1))) | (rng.choice([0, 1, (1 << (32 * (n - 1))) - 1, rng.getrandbits(32 * (n - 1)) if n > 1 else 0]) if n > 1 else 0)
    b = b or 1
    nq = rng.randrange(0, 6); q = inp.mag(nq)
    if rng.random() < .3 and nq: q = (1 << (32 * nq)) - rng.choice([1, 2, 1 << 16])
    r = rng.choice([0, 1, b - 1, b - 2, b // 2, rng.randrange(b)]); r = max(0, min(r, b - 1))
    a = q * b + r
    if rng.random() < .15: a = inp.mag(rng.randrange(0, 7))
    if rng.random() < .45: a = -a
    if rng.random() < .45: b = -b
    return a, b
def addback(rng):
    # u/v where the first estimate of a quotient digit is too large by two / needs the add-back step
    B = 1 << 32; n = rng.randrange(2, 5)
    vt = rng.choice([0x80000000, 0x80000000, 0x80000001, 0xffffffff, 0x7fffffff, 3, 1]); v = vt << (32 * (n - 1)) | rng.choice([(1 << 32 * (n - 1)) - 1, (1 << 32 * (n - 2)), (B - 1) << (32 * (n - 2)), (B - 1) << (32 * (n - 2)) | rng.getrandbits(32)])
    m_ = rng.randrange(1, 4)
    u = (vt << (32 * (n - 1 + m_))) + rng.choice([0, -1, 1, -(1 << (32 * (m_ - 1) + 5)), (B - 2) << (32 * (n + m_ - 2)) if n + m_ >= 2 else 0])
    u = abs(u)
    s = rng.randrange(0, 32)
    if rng.random() < .3: u >>= 1; v >>= rng.choice([0, 1, 5])
    return (u if rng.random() < .6 else -u), ((v or 1) if rng.random() < .6 else -(v or 1))
def g_div(rng):
    inp = Inp(rng); a, b = divisor_case(rng, inp) if rng.random() < .75 else addback(rng)
    k = kpick(rng, 'IIIWC'); c = Case(); x = rng.random()
    same = rng.random() < .04 and a != 0
    st = (lambda: inp.store()) if k != 'C' else (lambda: '')
    c.add('%sni 0 %s' % (k, hx(a)) + st(), '.').add('%sni 1 %s' % (k, hx(b)) + st(), '.')
    sh = rng.random() < .25
    if sh: c.add('%scp 4 0' % k, '.').add('%scp 5 1' % k, '.')
    tail = [0, 1] + ([4, 5] if sh else [])
    def fin(v0, v1, extra={}):
        rs = [0, 1] + sorted(extra) + ([4, 5] if sh else [])
        vs = [v0, v1] + [extra[i] for i in sorted(extra)] + ([a, b] if sh else [])
        c.add('%sd %s' % (k, ' '.join(map(str, rs))), V(*vs)); return c
    q, r = tdiv(a, b), tmod(a, b)
    if same:
        o = rng.choice(['div', 'mod'])
        if k == 'I' and o == 'mod': c.add('Imq 0 0 2', '.'); return fin(0, b, {2: 1})
        c.add('%sb %s 0 0' % (k, o), '.'); return fin(1 if o == 'div' else 0, b)
    if k == 'I':
        if rng.random() < .5: c.add('Ini 2 %s' % hx(inp.val()) + inp.store(), '.').add('Ini 3 %s' % hx(inp.val()) + inp.store(), '.')
        if rng.random() < .2: c.add('Icp 2 0', '.').add('Icp 3 1', '.')
        o = rng.choice(['div', 'dr', 'mq', 'sdiv'])
        if -(1 << 63) <= b < (1 << 63) and rng.random() < .5:
            if o == 'div': c.add('Ibi div 0 %d' % b, '.'); return fin(q, b)
            if o == 'dr': c.add('Idri 0 %d 2' % b, '.'); return fin(q, b, {2: r})
            if o == 'mq': c.add('Imqi 0 %d 2' % b, '.'); return fin(r, b, {2: q})
            c.add('Idivi 2 3 0 %d' % b, '.'); return fin(a, b, {2: q, 3: r})
        if o == 'div': c.add('Ib div 0 1', '.'); return fin(q, b)
        if o == 'dr': c.add('Idr 0 1 2', '.'); return fin(q, b, {2: r})
        if o == 'mq': c.add('Imq 0 1 2', '.'); return fin(r, b, {2: q})
        c.add('Idiv 2 3 0 1', '.'); return fin(a, b, {2: q, 3: r})
    o = rng.choice(['div', 'mod']); f = q if o == 'div' else r
    if -(1 << 63) <= b < (1 << 63) and rng.random() < .4:
        c.add('%sbi %s 0 %d' % (k, o, b), '.'); return fin(f, b)
    if k == 'W' and rng.random() < .5: c.add('Wv %s 2 0 1' % o, '.'); return fin(a, b, {2: f})
    if k == 'W' and -(1 << 63) <= a < (1 << 63) and rng.random() < .7: c.add('Wiv %s 2 %d 1' % (o, a), '.'); return fin(a, b, {2: f})
    c.add('%sb %s 0 1' % (k, o), '.'); return fin(f, b)

def obs(m, a):
    """every query, compared with what the value says"""
    v = m.v[a]; k = m.k; b = magbytes(v)
    if k == 'I':
        m.c.add('Ipr %d' % a, '%d %d %d %d %d' % (v == 0, v == 1, v == -1, v & 1, 1 - (v & 1))).add('Ifl %d' % a, '%d %d %d' % (v == 0, v > 0, v < 0))
        m.c.add('Ict %d' % a, '%d %d' % ((abs(v).bit_length() + 31) // 32, abs(v).bit_length()))
    else:
        m.c.add('%spr %d' % (k, a), '%d %d %d %d %d %d %d' % (v == 0, v == 1, v == -1, v > 0, v < 0, v & 1, 1 - (v & 1)))
    if m.r.random() < .3:
        cap = len(b) + m.r.randrange(0, 9)
        m.c.add('%sex %d %d' % (k, a, cap), '%d %s' % (len(b), bhex(b + b'\xaa' * (cap + 16 - len(b)))))
    if m.r.random() < .3: m.c.add('%sstr %d 16' % (k, a), Pat(lambda l, v=v: l.split()[0] == digits(v, 16), 'text ' + digits(v, 16)))
def g_canon(rng):
    m = M(rng, kpick(rng, 'IIWC'), True); m.strict_u32 = False
    for r in range(6):
        if rng.random() < .8: m.new(r)
    if rng.random() < .3: m.init(1, -m.v[0])
    if rng.random() < .3: m.init(2, m.v[0])
    for _ in range(rng.randrange(2, 9)):
        if rng.random() < .2: m.share()
        x = rng.random()
        if x < .1: # parse
            a = rng.randrange(6); r = rng.randrange(2, 37); v = m.inp.val() * rng.choice([0, 1, 1, 1]); s = digits(v, r)
            z = '0' * rng.choice([0, 0, 1, 9, 20, 40]); s = s[:1] + z + s[1:] if v < 0 else rng.choice(['', '+', '-' if v == 0 else '']) + z + s
            m.v[a] = v
            if m.k == 'C': m.c.add('Cap %d %d %s' % (a, r, bhex(s.encode())), ANY)
            else: m.c.add('%sps %d %d %s 1' % (m.k, a, r, bhex(s.encode())), ANY)
        elif x < .2:
            a = rng.randrange(6); b = rbytes(rng); l = rng.randrange(2); m.v[a] = frombin(b, l)
            m.c.add('%s%s %d %d %s' % (m.k, rng.choice(['bn', 'bc']), a, l, bhex(b)), '.')
        elif x < .3 and m.k == 'I': # a combined division
            a, b, q = rng.sample(range(6), 3)
            if m.v[b]:
                va, vb = m.v[a], m.v[b]; m.v[a] = tdiv(va, vb); m.v[q] = tmod(va, vb); m.c.add('Idr %d %d %d' % (a, b, q), '.')
        elif x < .36 and m.k == 'W':
            a, b, d = [rng.randrange(6) for _ in range(3)]; m.v[d] = math.gcd(m.v[a], m.v[b]); m.c.add('gcd %d %d %d' % (d, a, b), '.')
        else: m.anyop()
        m.dump()
    for a in rng.sample(range(6), 2): obs(m, a)
    if m.k != 'C':
        a, b = rng.sample(range(6), 2)
        m.c.add('%scmp %d %d' % (m.k, a, b), Pat(lambda l, x=sgn(m.v[a] - m.v[b]): int(l.split()[0]) == x, 'comparison %d' % sgn(m.v[a] - m.v[b])))
    return m.c
def sys_canon():
    for i in I64S + [(-1) ** s * (x << 32) for x in (1, 2, 0x7fffffff) for s in (0, 1)]:
        if not I64MIN <= i <= I64MAX: continue
        c = Case()
        for f in ('I64 0', 'Ia6 1'): c.add('%s %d' % (f, i), '.')
        c.add('Id 0 1', Cn(i, i)); yield c
        for op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'div'):
            c = Case()
            for j in (0, 1, -1, i, -i if i != I64MIN else 0, 0xffffffff, -0xffffffff, 0x100000000, -0x100000000, 5):
                if op == 'div' and j == 0: continue
                c.add('I64 0 %d' % i, '.').add('Ibi %s 0 %d' % (op, j), '.').add('Id 0', Cn(BIN[op](i, j)))
                c.add('I64 0 %d' % i, '.').add('I64 1 %d' % j, '.').add('Ib %s 0 1' % op, '.').add('Id 0 1', Cn(BIN[op](i, j), j))
            yield c
    for n in range(1, 6):
        for v in ((1 << 32 * n) - 1, 1 << 32 * n, (1 << 32 * n) + 1, (1 << (32 * n - 1)), (1 << 32 * n) - 2):
            for s in (1, -1):
                c = Case()
                for u in UN:
                    if u in ('not', 'pos', 'negated', 'absd'): continue
                    c.add('Ini 0 %s' % hx(s * v), '.').add('Iun %s 0' % u, '.').add('Id 0', Cn(UN[u](s * v)))
                for k in range(0, 32 * n + 66, 7): c.add('Ini 0 %s' % hx(s * v), '.').add('Ishr 0 %d' % k, '.').add('Id 0', Cn((s * v) >> k))
                yield c

def g_cmp(rng):
    k = kpick(rng, 'IWWWC'); m = M(rng, k)
    a = m.inp.val(); x = rng.random()
    b = m.inp.val() if x < .4 else a if x < .5 else -a if x < .55 else a + rng.choice([1, -1, 1 << 32, -(1 << 32), 1 << 64]) if x < .75 else a ^ (1 << rng.randrange(0, max(1, abs(a).bit_length()))) if x < .9 else a * rng.choice([1 << 32, 1 << 33, 2])
    m.init(0, a)
    if x < .5 and x >= .4 and rng.random() < .5: m.cp(1, 0)
    else: m.init(1, b)
    if k == 'W':
        i = m.inp.i64()
        if rng.random() < .3 and I64MIN <= a <= I64MAX: i = a + rng.choice([0, 0, 1, -1]); i = max(I64MIN, min(I64MAX, i))
        m.c.add('Wcmp 0 1', '%d %s' % (sgn(a - b), relbits(a, b))).add('Wcmp 1 0', '%d %s' % (sgn(b - a), relbits(b, a))).add('Wcmp 0 0', '0 ' + relbits(a, a))
        m.c.add('Wcmpi 0 %d' % i, '%d %s %s' % (sgn(a - i), relbits(a, i), relbits(i, a)))
    elif k == 'I':
        m.c.add('Icmp 0 1', str(sgn(a - b))).add('Icmp 1 0', str(sgn(b - a))).add('Icmp 0 0', '0')
    else:
        i = m.inp.i64(); m.c.add('Ccmp 0 1', str(sgn(a - b))).add('Ccmp 1 0', str(sgn(b - a))).add('Ccmpi 0 %d' % i, str(sgn(a - i)))
    return m.dump(0, 1).c
def sys_cmp():
    for i in I64S:
        c = Case()
        for a in list(I64S[:40]) + BV[::3]:
            c.add('Wni 0 %s' % hx(a), '.').add('Wcmpi 0 %d' % i, '%d %s %s' % (sgn(a - i), relbits(a, i), relbits(i, a)))
        yield c
    for a in BV:
        c = Case()
        for b in BV: c.add('Wni 0 %s' % hx(a), '.').add('Wni 1 %s' % hx(b), '.').add('Wcmp 0 1', '%d %s' % (sgn(a - b), relbits(a, b))).add('Wd 0 1', V(a, b))
        yield c

def words(m, a):
    for n in list(range(0, (abs(m.v[a]).bit_length() // 32) + 3)) + [m.r.choice([50, 1 << 20, (1 << 32) + 1, (1 << 63) + 5, (1 << 64) - 1])]:
        m.c.add('%su32 %d %d' % (m.k, a, n), str((m.v[a] >> min(32 * n, 1 << 20)) & 0xffffffff))
def g_bits(rng):
    m = M(rng, kpick(rng, 'IIWC'))
    for r in range(6):
        if rng.random() < .85: m.init(r, m.inp.val() if rng.random() < .7 else -((m.inp.mag(rng.randrange(1, 4)) or 1) << (32 * rng.randrange(0, 4))))
    for _ in range(rng.randrange(1, 6)):
        x = rng.random(); a = rng.randrange(6)
        if x < .55: m.binop(rng.choice(['and', 'or', 'xor']))
        elif x < .7: m.un('notself', a)
        elif x < .75 and m.k == 'W': d = rng.randrange(6); m.v[d] = ~m.v[a]; m.c.add('Wuv not %d %d' % (d, a), '.')
        elif x < .9: words(m, a)
        else: m.share()
        m.dump()
    words(m, rng.randrange(6))
    return m.c
def g_words(rng): # cached state must follow every kind of update
    m = M(rng, kpick(rng, 'IIWC'))
    for r in range(6):
        m.init(r, -((m.inp.mag(rng.randrange(1, 4)) or 1) << (32 * rng.randrange(0, 4))) if rng.random() < .7 else m.inp.val())
    for _ in range(rng.randrange(2, 8)):
        a = rng.randrange(6)
        words(m, a)
        x = rng.random()
        if x < .25: m.share()
        elif x < .5: m.un(rng.choice(['neg', 'abs', 'inc', 'dec', 'notself', 'notbits']), a)
        elif x < .65:
            n = m.shn(); (m.shl if rng.random() < .5 else m.shr)(a, n)
        elif x < .75 and m.k == 'W': r_ = m.v[a]; m.v[a] += 1; m.c.add('Wun inc %d' % a, '.')
        else: m.anyop(('add', 'sub', 'mul', 'div', 'mod', 'and', 'or', 'xor', 'a64'))
        words(m, a)
    words(m, rng.randrange(6)); m.dump()
    return m.c
def g_p06(rng): return g_bits(rng) if rng.random() < .6 else g_words(rng)

def g_shift(rng):
    m = M(rng, kpick(rng, 'IIWC'))
    for r in range(3): m.init(r, m.inp.val() if rng.random() < .6 else rng.choice([1, -1]) * ((m.inp.mag(rng.randrange(1, 4)) or 1) << rng.randrange(0, 130)))
    for _ in range(rng.randrange(1, 6)):
        a = rng.randrange(3); x = rng.random(); n = m.shn()
        if rng.random() < .2: n = max(0, abs(m.v[a]).bit_length() + rng.choice([-2, -1, 0, 1, 2, 31, 32, 33]))
        if x < .3: m.shl(a, n)
        elif x < .7:
            if rng.random() < .06: n = rng.choice([1 << 31, 1 << 32, (1 << 32) + 1, 1 << 40, (1 << 63) - 1])
            if n > 1 << 20: m.v[a] = -1 if m.v[a] < 0 else 0; m.c.add('%sshr %d %d' % (m.k, a, n), '.')
            else: m.shr(a, n)
        elif x < .8: m.share() if rng.random() < .5 else m.cp(rng.randrange(3), a)
        elif m.k == 'W':
            d = rng.randrange(6)
            if rng.random() < .4: m.v[d] = m.v[a] << n; m.c.add('Wshlv %d %d %d' % (d, a, n), '.')
            else: m.v[d] = m.v[a] >> n; m.c.add('Wshrv %d %d %d' % (d, a, n), '.')
        m.dump()
    return m.c
HUGE = (1 << 20, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 33, (1 << 37) + 3, 1 << 40, (1 << 63) - 1)
def sys_shift():
    for v in (12345, -3, (1 << 70) + 5, -(1 << 64)):
        c = Case(); z = V(-1 if v < 0 else 0)
        for n in HUGE:
            c.add('Ini 0 %s' % hx(v), '.').add('Ishr 0 %d' % n, '.').add('Id 0', z).add('Wni 0 %s' % hx(v), '.').add('Wshrv 1 0 %d' % n, '.').add('Wd 1', z).add('Wshr 0 %d' % n, '.').add('Wd 0', z)
        yield c
    for v in BV + [(1 << 96) - (1 << 64), -(1 << 96) + (1 << 33), -(5 << 100)]:
        c = Case()
        for n in list(range(0, 4)) + [30, 31, 32, 33, 34, 63, 64, 65, 95, 96, 97, 127, 128, 129]:
            c.add('Ini 0 %s' % hx(v), '.').add('Ishl 0 %d' % n, '.').add('Id 0', V(v << n)).add('Ini 0 %s' % hx(v), '.').add('Ishr 0 %d' % n, '.').add('Id 0', V(v >> n))
        yield c

def g_indep(rng):
    m = M(rng, kpick(rng, 'IIWWC')); m.strict_u32 = False
    for r in range(3): m.new(r)
    for d in (3, 4, 5): m.cp(d, rng.randrange(d))
    m.dump()
    for _ in range(rng.randrange(3, 12)):
        if rng.random() < .35: m.share()
        else: m.anyop()
        m.dump()
    return m.c

def rbytes(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 23, 31, 40]) if n is None else n
    x = rng.random()
    if x < .5: return bytes(rng.choice([0, 0, 0xff, 0xff, 0x80, 0x7f, 1, rng.randrange(256)]) for _ in range(n))
    if x < .6: return bytes([rng.choice([0, 255])] * n)
    if x < .75: b = bytearray(n); (n and b.__setitem__(rng.choice([0, n - 1]), rng.choice([0x80, 1, 0xff]))); return bytes(b)
    return rng.randbytes(n)
def g_bin(rng):
    m = M(rng, kpick(rng, 'IWC'))
    for r in range(3): m.new(r)
    for _ in range(rng.randrange(1, 4)):
        a = rng.randrange(3); b = rbytes(rng); l = rng.randrange(2)
        if rng.random() < .3: m.cp(rng.randrange(3, 6), a)
        m.v[a] = frombin(b, l)
        m.c.add('%s%s %d %d %s' % (m.k, rng.choice(['bn', 'bc'] if m.k == 'C' or not l else ['bn', 'bc', 'bnd', 'bcd']), a, l, bhex(b)), '.'); m.dump()
    for a in (rng.randrange(6), rng.randrange(6)):
        b = magbytes(m.v[a]); cap = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, len(b), max(0, len(b) - 1), max(0, len(b) - 3), len(b) + 1, len(b) + 5, len(b) + 20])
        n = min(cap, len(b)); m.c.add('%sex %d %d' % (m.k, a, cap), '%d %s' % (n, bhex(b[:n] + b'\xaa' * (cap + 16 - n))))
    return m.dump().c
def sys_bin():
    for n in range(0, 14):
        for pat in (b'\x00' * n, b'\xff' * n, b'\x80' + b'\0' * (n - 1), b'\0' * (n - 1) + b'\x80', b'\0' * (n - 1) + b'\x01', b'\x01' + b'\0' * (n - 1), b'\xff' * (n - 1) + b'\x7f', b'\x7f' + b'\xff' * (n - 1), bytes(range(1, n + 1)), bytes(range(0x90, 0x90 + n))):
            if len(pat) != n: continue
            for l in (0, 1):
                v = frombin(pat, l); b = magbytes(v); c = Case().add('Ibc 0 %d %s' % (l, bhex(pat)), '.').add('Ini 1 123456789abcdef0', '.').add('Ibn 1 %d %s' % (l, bhex(pat)), '.').add('Id 0 1', V(v, v))
                for cap in range(0, len(b) + 3):
                    k = min(cap, len(b)); c.add('Iex 0 %d' % cap, '%d %s' % (k, bhex(b[:k] + b'\xaa' * (cap + 16 - k))))
                yield c

def pt(s, r, ok0, k, m, a):
    v = parse(s, r); old = m.v[a]
    if k == 'C':
        if 0 in s: return
        if m.r.random() < .5:
            m.c.add('Cps %d %d %s' % (a, r, bhex(s)), '1' if v is not None else '0')
            if v is not None: m.v[a] = v
        else:
            m.c.add('Cap %d %d %s' % (a, r, bhex(s)), '1' if v is not None else '0')
            if v is not None: m.v[a] = v
        return
    ctor = m.r.random() < .3
    if r == 10 and m.r.random() < .3:
        m.c.add('%s%s %d %s' % (k, 'pcd' if ctor else 'pd', a, bhex(s)), '0' if v is not None else Pat(lambda l: l not in ('0', '6'), 'an error status'))
        m.v[a] = v if v is not None else (0 if ctor else old); return
    m.c.add('%s%s %d %d %s %d' % (k, 'pc' if ctor else 'ps', a, r, bhex(s), ok0), '1 0' if v is not None else Pat(lambda l: l.split()[0] == '0' and l.split()[1] not in ('0', '6'), '0 and an error status'))
    m.v[a] = v if v is not None else (0 if ctor else old)
DIG = b'0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
def g_parse(rng):
    m = M(rng, kpick(rng, 'IIWC'))
    m.new(0); m.new(1); m.cp(2, 0)
    for _ in range(rng.randrange(1, 6)):
        r = rng.randrange(2, 37) if rng.random() < .7 else rng.choice([10, 10, 10, 10, 10, 0, 1, 37, 38, -1, 100, 64])
        rr = min(max(r, 2), 36)
        n = rng.choice([0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 19, 20, 21, 27, 28, 31, 32, 33, 40, 62, 63, 64, 65, 100])
        ds = [c for c in DIG if (c - 48 if c < 58 else (c | 32) - 87) < rr]
        x = rng.random()
        if x < .3: s = bytes(rng.choice(ds) for _ in range(n))
        elif x < .45: s = bytes([ds[rr - 1] if rr <= len(ds) else ds[-1]] * n)
        elif x < .6: s = b'1' + b'0' * n
        elif x < .75: s = b'0' * rng.choice([1, 2, 8, 9, 10, 20, 50]) + bytes(rng.choice(ds) for _ in range(n))
        else: s = digits(abs(m.inp.val()), rr).encode()
        if rng.random() < .3: s = s.upper()
        s = rng.choice([b'', b'', b'-', b'+']) + s
        y = rng.random()
        if y < .22 and s: # one bad character somewhere
            i = rng.randrange(len(s)); bad = rng.choice([b'-', b'+', b' ', b'.', b'/', b':', b'@', b'[', b'`', b'{', b'\x7f', b'\x80', b'\xff', b'\0', b'x', bytes([DIG[rr]]) if rr < 36 else b'_', b'g', b'z', b'Z', b'\t', b'\n'])
            s = s[:i] + bad + s[i + (rng.random() < .5):]
        elif y < .26: s = rng.choice([b'', b'+', b'-', b'--1', b'+-1', b'1-', b' 1', b'1 ', b'-+', b'0x10', b'-0', b'+0', b'00', b'-00000000000000000000'])
        elif y < .3 and s: s += rng.choice([b'-', b' ', b'+', b'\0'])
        pt(s, r, rng.randrange(2), m.k, m, rng.randrange(3)); m.dump(0, 1, 2)
    return m.c
def sys_parse():
    class R:
        def random(s): return .9
    for r in range(2, 37):
        rng = random.Random(r)
        m = M(rng, 'I'); top = digits(r - 1, r).encode()
        for n in list(range(1, 36)) + [63, 64, 65, 66, 67, 128, 129]:
            for s in (top * n, b'1' + b'0' * n, b'-' + top.upper() * n, b'0' * n, b'-' + b'0' * n, b'0' * n + b'1', b'+' + b'0' * n + top):
                pt(s, r, 0, 'I', m, 0)
            m.dump(0)
        yield m.c
        m = M(rng, 'I'); m.init(0, -12345678901234567890)
        badd = digits(r, 37)[-1:].encode() if r < 36 else b'['
        badd = bytes([DIG[r]]) if r < 36 else b'{'
        for n in (1, 2, 5, 7, 12, 20, 33, 40, 66):
            for i in sorted(set([0, 1, n // 2, n - 2, n - 1]) & set(range(n))):
                for bad in (badd, badd.upper(), b'-', b'+', b' ', b'\0', b'/', b':', b'@', b'`', b'\xb1'):
                    s = (top * n)[:i] + bad + (top * n)[i + 1:]
                    pt(s, r, 1, 'I', m, 0)
            m.dump(0)
        yield m.c
    for r in (-1, 0, 1, 37, 100):
        m = M(random.Random(1), 'I'); m.init(0, 77)
        for s in (b'0', b'1', b'10', b'-1', b''): pt(s, r, 1, 'I', m, 0); m.dump(0)
        yield m.c

def tx(k, a, v, r):
    if k == 'W' and r == 10 and v % 3 == 0: return ('Wstrd %d' % a, digits(v, r))
    return ('%sstr %d %d' % (k, a, r), digits(v, r) if k != 'C' else '%s %d' % (digits(v, r), len(digits(v, r))))
def g_print(rng):
    m = M(rng, kpick(rng, 'IIWC')); r = rng.randrange(2, 37); inp = m.inp; x = rng.random()
    if x < .3: v = inp.val()
    elif x < .6: e = rng.randrange(0, 70); v = r ** e + rng.choice([0, -1, 1])
    elif x < .8: v = int.from_bytes(rng.randbytes(8), 'big') * r ** rng.choice([1, 5, 6, 7, 8, 9, 10, 12, 13, 20, 31, 32])
    else: v = sum(rng.randrange(r) * r ** i for i in rng.sample(range(60), 4))
    if rng.random() < .4: v = -v
    m.init(0, v); m.cp(1, 0)
    m.c.add(*tx(m.k, 0, v, r))
    if rng.random() < .5:
        if m.k == 'C': m.c.add('Cap 2 %d %s' % (r, bhex(digits(v, r).encode())), ANY)
        else: m.c.add('%sps 2 %d %s 1' % (m.k, r, bhex(digits(v, r).encode())), ANY)
        m.v[2] = v
    return m.dump(0, 1, 2).c
def sys_print():
    for r in range(2, 37):
        c = Case()
        for e in list(range(0, 34)) + [40, 62, 63, 64, 65, 66]:
            for d in (-1, 0, 1):
                v = r ** e + d; c.add('Ini 0 %s' % hx(v), '.').add(*tx('I', 0, v, r)).add('Ini 0 %s' % hx(-v), '.').add(*tx('I', 0, -v, r))
        for v in BV: c.add('Ini 0 %s' % hx(v), '.').add(*tx('I', 0, v, r))
        yield c

def getexp(v, ini):
    i_ok = I64MIN <= v <= I64MAX; u_ok = 0 <= v <= U64MAX
    iv = v if i_ok else I64MAX; uv = v if u_ok else U64MAX
    return '%d %d %d %d %d %d %d %d %d %d %d %d' % (iv, i_ok, 0 if i_ok else 6, iv, i_ok, uv, u_ok, 0 if u_ok else 6, uv, u_ok, iv, uv)
def asexp(v):
    return ' '.join(str(x) for x in (wrap(v, 8, 0), wrap(v, 8, 0), wrap(v, 16, 1), wrap(v, 16, 0), wrap(v, 32, 1), wrap(v, 32, 0), wrap(v, 64, 1), wrap(v, 64, 0), wrap(v, 64, 1), wrap(v, 64, 0), int(v != 0)))
def asp(v): return Pat(lambda l: l.rsplit(' ', 1)[0] == asexp(v), asexp(v))
EDGE = sorted(set(x + d for x in (0, 1 << 31, -(1 << 31), 1 << 32, -(1 << 32), 1 << 63, -(1 << 63), 1 << 64, -(1 << 64), 1 << 65, 1 << 96, -(1 << 96), 1 << 7, 1 << 8, 1 << 15, 1 << 16, -(1 << 8), -(1 << 16), 0xffffffff00000000, 3 << 63) for d in (-2, -1, 0, 1, 2)))
def g_conv(rng):
    m = M(rng, kpick(rng, 'IWWC')); x = rng.random(); inp = m.inp
    if x < .35:
        i = inp.i64(); m.new(1); m.c.add('%s64 0 %d' % (m.k, i), '.').add('%s%s 1 %d' % (m.k, {'W': rng.choice(['a6', 'ag'])}.get(m.k, 'a6'), i), '.'); m.v[0] = m.v[1] = i; m.dump(0, 1)
    else: m.init(0, rng.choice(EDGE) if x < .7 else inp.val(rng.randrange(0, 5)))
    if rng.random() < .3: m.cp(2, 0)
    v = m.v[0]
    if m.k == 'W': m.c.add('Wget 0 %d' % rng.randrange(2), getexp(v, 0)).add('Was_ 0', asp(v))
    elif m.k == 'C':
        m.c.add('Cget 0 %d' % rng.randrange(2), cgetexp(v))
    else: m.c.add('Iu64 0', str(v % M64))
    return m.dump(0, 1, 2).c
def cgetexp(v):
    i_ok = I64MIN <= v <= I64MAX; u_ok = 0 <= v <= U64MAX; iv = v if i_ok else I64MAX; uv = v if u_ok else U64MAX
    return '%d %d %d %d %d %d' % (iv, i_ok, uv, u_ok, iv, uv)
def sys_conv():
    for v in EDGE + BV:
        c = Case().add('Wni 0 %s' % hx(v), '.')
        for o in (0, 1): c.add('Wget 0 %d' % o, getexp(v, o))
        c.add('Was_ 0', asp(v)).add('Wd 0', V(v)); yield c
    for i in I64S + [x for x in EDGE if I64MIN <= x <= I64MAX]:
        yield Case().add('W64 0 %d' % i, '.').add('Wag 1 %d' % i, '.').add('Wa6 2 %d' % i, '.').add('I64 0 %d' % i, '.').add('Ia6 1 %d' % i, '.').add('Wd 0 1 2', V(i, i, i)).add('Id 0 1', V(i, i)).add('Iu64 0', str(i % M64)).add('Wget 0 0', getexp(i, 0))

def g_unary(rng):
    m = M(rng, kpick(rng, 'IWWC'))
    for r in range(3):
        x = rng.random(); m.init(r, m.inp.val() if x < .5 else rng.choice([0, 1, -1, 2, -2]) if x < .65 else rng.choice([1, -1]) * ((1 << 32 * rng.randrange(1, 6)) - rng.choice([0, 1, 2, -1])))
    for _ in range(rng.randrange(1, 7)):
        a = rng.randrange(3); x = rng.random()
        if x < .2: m.share()
        elif x < .4 and m.k == 'W':
            d = rng.randrange(6); o = rng.choice(['neg', 'negated', 'absd', 'pos', 'pinc', 'pdec'])
            if o in ('pinc', 'pdec'):
                if d == a: d = (a + 1) % 6
                old = m.v[a]; m.v[a] += 1 if o == 'pinc' else -1; m.v[d] = old
            else: m.v[d] = UN[o](m.v[a])
            m.c.add('Wuv %s %d %d' % (o, d, a), '.')
        else: m.un(rng.choice(['notbits', 'neg', 'abs', 'inc', 'dec', 'inc', 'dec']), a)
        m.dump()
        v = m.v[a]
        if m.k == 'I': m.c.add('Ipr %d' % a, '%d %d %d %d %d' % (v == 0, v == 1, v == -1, v & 1, 1 - (v & 1)))
        else: m.c.add('%spr %d' % (m.k, a), '%d %d %d %d %d %d %d' % (v == 0, v == 1, v == -1, v > 0, v < 0, v & 1, 1 - (v & 1)))
    return m.c
def sys_unary():
    for v in BV:
        c = Case()
        for u in ('notbits', 'neg', 'abs', 'inc', 'dec'): c.add('Wni 0 %s' % hx(v), '.').add('Wun %s 0' % u, '.').add('Wd 0', V(UN[u](v)))
        c.add('Wni 0 %s' % hx(v), '.').add('Wpr 0', '%d %d %d %d %d %d %d' % (v == 0, v == 1, v == -1, v > 0, v < 0, v & 1, 1 - (v & 1))); yield c

def fokf(q): return Pat(lambda l: (lambda n, d: d != 0 and n is not None and Q(n, d) == q and math.gcd(n, d) == 1)(*[dec(t)[0] for t in l.split()]), 'fraction %s in lowest terms' % q)
def fval(rng, inp): 
    x = rng.random()
    return rng.choice([0, 1, -1, 2, 6, -4, 12, 1 << 32, (1 << 64) - 1, 10 ** 9]) if x < .4 else inp.val(rng.randrange(0, 4)) if x < .9 else inp.val()
def g_frac(rng):
    c = Case(); inp = Inp(rng); F = [Q(0)] * 6; Wv = [0] * 6
    g = fval(rng, inp) or 1
    for i in range(6):
        Wv[i] = fval(rng, inp) * (g if rng.random() < .4 else 1); c.add('Wni %d %s' % (i, hx(Wv[i])), '.')
    def setf(f, n, d):
        if Wv[d] == 0: c.add('Fnew %d %d %d %d' % (f, n, d, 1), '0 1'); F[f] = None
        else: c.add('Fnew %d %d %d %d' % (f, n, d, rng.randrange(2)), '1 0'); F[f] = Q(Wv[n], Wv[d]); c.add('Fd %d' % f, fokf(F[f]))
    for f in range(3):
        setf(f, rng.randrange(6), rng.randrange(6))
        if F[f] is None: c.add('Fcp %d 5' % f, '.'); F[f] = F[5]
    for _ in range(rng.randrange(1, 6)):
        a, b, d = [rng.randrange(5) for _ in range(3)]; F[5] = Q(0); c.add('Fcp 5 4', '.'); F[5] = F[4]; o = rng.choice(['add', 'sub', 'mul', 'div', 'add', 'sub', 'rec', 'num', 'den', 'cp'])
        if o in ('add', 'sub', 'mul', 'div'):
            if o == 'div' and F[b] == 0: c.add('Fb div 5 %d %d' % (a, b), '1').add('Fd 5', ANY).add('Fcp 5 %d' % b, '.'); F[5] = F[b]; continue
            F[d] = {'add': F[a] + F[b], 'sub': F[a] - F[b], 'mul': F[a] * F[b]}[o] if o != 'div' else F[a] / F[b]
            c.add('Fb %s %d %d %d' % (o, d, a, b), ANY if o != 'div' else '0').add('Fd %d' % d, fokf(F[d])).add('Fd %d' % a, fokf(F[a])).add('Fd %d' % b, fokf(F[b]))
        elif o == 'rec':
            if F[a] == 0: c.add('Frec 5 %d 1' % a, '0 1').add('Fcp 5 %d' % a, '.'); F[5] = F[a]
            else: F[d], o_ = 1 / F[a], None; c.add('Frec %d %d %d' % (d, a, rng.randrange(2)), '1 0').add('Fd %d' % d, fokf(F[d]))
        elif o == 'num':
            # setNum replaces the stored numerator; the stored denominator may carry either sign
            c.add('Fd %d' % a, fokf(F[a])); n = rng.randrange(6); den = F[a].denominator
            c.add('Fnum %d %d' % (a, n), '.').add('Fd %d' % a, Pat(lambda l, q=Q(Wv[n], den): (lambda x, y: y != 0 and abs(Q(x, y)) == abs(q) and math.gcd(x, y) == 1)(*[dec(t)[0] for t in l.split()]), 'fraction +-%s' % Q(Wv[n], den)))
            c.add('Fcp %d 5' % a, '.'); F[a] = F[5]
        elif o == 'den':
            n = rng.randrange(6)
            if Wv[n] == 0: c.add('Fden %d %d 1' % (a, n), '0 1').add('Fd %d' % a, fokf(F[a]))
            else:
                c.add('Fden %d %d %d' % (a, n, rng.randrange(2)), '1 0').add('Fd %d' % a, Pat(lambda l, q=F[a].numerator, dd=Wv[n]: (lambda x, y: y != 0 and abs(Q(x, y)) == abs(Q(q, dd)) and math.gcd(x, y) == 1)(*[dec(t)[0] for t in l.split()]), 'fraction +-%s' % Q(F[a].numerator, Wv[n])))
                c.add('Fcp %d 5' % a, '.'); F[a] = F[5]
        else: F[d] = F[a]; c.add('Fcp %d %d' % (d, a), '.')
    c.add('Wd 0 1 2 3 4 5', V(*Wv))
    return c
def decexp(q, n):
    t = abs(q.numerator) * 10 ** max(n, 0) // q.denominator; s = str(t)
    if n > 0: s = s.rjust(n + 1, '0'); s = s[:-n] + '.' + s[-n:]
    return ('-' if q < 0 else '') + s
def g_dec(rng):
    c = Case(); inp = Inp(rng)
    for _ in range(3):
        x = rng.random(); n = rng.choice([0, 1, 2, 3, 7, 8, 9, 10, 18, 19, 20, 30, 50])
        if x < .4: a, b = rng.randrange(-50, 50), rng.randrange(1, 60)
        elif x < .6: a, b = rng.choice([1, -1]) * rng.randrange(0, 1000), 10 ** rng.randrange(0, 25) * rng.choice([1, 2, 3, 7])
        elif x < .7: b = rng.randrange(1, 999); a = b * rng.randrange(-1000, 1000) * 10 ** rng.randrange(0, 10)
        else: a, b = inp.val(rng.randrange(0, 5)), inp.val(rng.randrange(1, 5)) or 1
        if b == 0: b = 1
        if rng.random() < .4: b = -b
        q = Q(a, b)
        c.add('Wni 0 %s' % hx(a), '.').add('Wni 1 %s' % hx(b), '.').add('Fnew 0 0 1 1', ANY).add('Fdec 0 %d' % n, decexp(q, n))
        if rng.random() < .3: c.add('Fd 0', Pat(lambda l, q=q: (lambda n, d: Q(n, d) == q)(*[dec(t)[0] for t in l.split()]), 'fraction %s' % q))
    return c
def sys_dec():
    for b in range(1, 26):
        c = Case()
        for a in list(range(-26, 27)):
            for s in (1, -1): c.add('Wni 0 %s' % hx(a), '.').add('Wni 1 %s' % hx(b * s), '.').add('Fnew 0 0 1 1', ANY).add('Fdec 0 %d' % (abs(a) % 5), decexp(Q(a, b * s), abs(a) % 5))
        yield c

def g_gcd(rng):
    c = Case(); inp = Inp(rng); x = rng.random()
    g = inp.val(rng.randrange(0, 3)) or 1
    a, b = inp.val() if rng.random() < .9 else 0, inp.val() if rng.random() < .9 else 0
    if x < .5: a *= g; b *= g
    elif x < .6: b = a * rng.choice([1, -1, 2, 1 << 32])
    elif x < .7: # consecutive Fibonacci numbers
        f, h = 1, 1
        for _ in range(rng.randrange(1, 200)): f, h = h, f + h
        a, b = f * rng.choice([1, -1]), h * rng.choice([1, -1])
    if rng.random() < .5: a, b = b, a
    c.add('Wni 0 %s' % hx(a) + inp.store(), '.').add('Wni 1 %s' % hx(b) + inp.store(), '.')
    if rng.random() < .3: c.add('Wcp 3 0', '.').add('gcd 2 3 1', '.').add('Wd 0 1 2 3', V(a, b, math.gcd(a, b), a))
    elif rng.random() < .1: c.add('gcd 2 0 0', '.').add('Wd 0 1 2', V(a, b, abs(a)))
    elif rng.random() < .15: c.add('gcd 0 0 1', '.').add('Wd 0 1', V(math.gcd(a, b), b))
    else: c.add('gcd 2 0 1', '.').add('Wd 0 1 2', V(a, b, math.gcd(a, b)))
    return c
def sys_gcd():
    for a in BV:
        c = Case()
        for b in BV: c.add('Wni 0 %s' % hx(a), '.').add('Wni 1 %s' % hx(b), '.').add('gcd 2 0 1', '.').add('Wd 0 1 2', V(a, b, math.gcd(a, b)))
        yield c

def g_c(rng):
    """the C interface against the exact result of the named operation"""
    m = M(rng, 'C')
    for r in range(6):
        if rng.random() < .8: m.new(r)
    x = rng.random()
    if x < .2: m.init(1, rng.choice(EDGE)); m.init(2, rng.choice(EDGE))
    for _ in range(rng.randrange(2, 9)):
        a = rng.randrange(6); b = rng.randrange(6); x = rng.random(); v = m.v[a]
        if x < .35: m.anyop(('add', 'sub', 'mul', 'div', 'mod', 'and', 'or', 'xor'))
        elif x < .5: m.un(rng.choice(['notself', 'notbits', 'neg', 'abs', 'inc', 'dec']), a)
        elif x < .58: (m.shl if rng.random() < .5 else m.shr)(a, m.shn())
        elif x < .62: m.c.add('Ccmp %d %d' % (a, b), str(sgn(m.v[a] - m.v[b])))
        elif x < .66: i = m.inp.i64(); m.c.add('Ccmpi %d %d' % (a, i), str(sgn(v - i)))
        elif x < .70: m.c.add('Cget %d %d' % (a, rng.randrange(2)), cgetexp(v))
        elif x < .73: words(m, a)
        elif x < .76: m.c.add('Cpr %d' % a, '%d %d %d %d %d %d %d' % (v == 0, v == 1, v == -1, v > 0, v < 0, v & 1, 1 - (v & 1)))
        elif x < .79: m.c.add(*tx('C', a, v, rng.randrange(2, 37)))
        elif x < .82: bb = magbytes(v); cap = rng.randrange(0, len(bb) + 4); n = min(cap, len(bb)); m.c.add('Cex %d %d' % (a, cap), '%d %s' % (n, bhex(bb[:n] + b'\xaa' * (cap + 16 - n))))
        elif x < .86: s = rng.choice([b'123', b'-ff', b'+0', b'', b'12a', b'zz', b'-', b'1 ', b'000', b'-000', b'7fffffffffffffffffff', b'9' * 40]); pt(s, rng.choice([2, 8, 10, 16, 36, 37, 1]), 1, 'C', m, a)
        elif x < .90: bt = rbytes(rng); l = rng.randrange(2); m.v[a] = frombin(bt, l); m.c.add('%s %d %d %s' % (rng.choice(['Cbn', 'Cbc']), a, l, bhex(bt)), '.')
        elif x < .95: m.cp(a, b, rng.choice(['cp', 'as']))
        elif x < .97: i = m.inp.i64(); m.v[a] = i; m.c.add('%s %d %d' % (rng.choice(['C64', 'Ca6']), a, i), '.')
        else: m.v[a] = 0; m.c.add('%s %d' % (rng.choice(['Cnew', 'Cdn']), a), '.')
        m.dump()
    return m.c
def sys_c():
    for op in BIN:
        for a in BV[::4]:
            c = Case()
            for b in BV[::4]:
                if op in ('div', 'mod') and b == 0: continue
                c.add('Cni 0 %s' % hx(a), '.').add('Cni 1 %s' % hx(b), '.').add('Cb %s 0 1' % op, '.').add('Cd 0 1', V(BIN[op](a, b), b))
                if I64MIN <= b <= I64MAX: c.add('Cni 0 %s' % hx(a), '.').add('Cbi %s 0 %d' % (op, b), '.').add('Cd 0', V(BIN[op](a, b)))
            yield c
    for v in (12345, -3, (1 << 70) + 5, -(1 << 64)):
        c = Case()
        for n in HUGE:
            c.add('Cni 0 %s' % hx(v), '.').add('Cshr 0 %d' % n, '.').add('Cd 0', V(-1 if v < 0 else 0))
        yield c
    for v in EDGE:
        c = Case().add('Cni 0 %s' % hx(v), '.').add('Cget 0 0', cgetexp(v)).add('Cget 0 1', cgetexp(v))
        for u in ('notself', 'notbits', 'neg', 'abs', 'inc', 'dec'): c.add('Cni 0 %s' % hx(v), '.').add('Cun %s 0' % u, '.').add('Cd 0', V(UN[u](v)))
        for n in (0, 1, 31, 32, 33, 64): c.add('Cni 0 %s' % hx(v), '.').add('Cshl 0 %d' % n, '.').add('Cd 0', V(v << n)).add('Cni 0 %s' % hx(v), '.').add('Cshr 0 %d' % n, '.').add('Cd 0', V(v >> n))
        c.add('Cni 0 %s' % hx(v), '.').add('Cpr 0', '%d %d %d %d %d %d %d' % (v == 0, v == 1, v == -1, v > 0, v < 0, v & 1, 1 - (v & 1))); yield c

def blind(g):
    """the same programs, results not judged (only crashes, sanitizer reports, failed assertions and hangs count)"""
    def f(rng):
        c = g(rng); c.exp = [ANY] * len(c.exp); return c
    return f
def mix(*gs):
    def f(rng): return rng.choice(gs)(rng)
    return f
def g_divzero(rng):
    m = M(rng, kpick(rng, 'IWC')); m.new(0); m.init(1, 0); k = m.k
    one = Pat(lambda l: l == '1', 'status DIVBY0')
    m.c.add('setst', '.')
    x = rng.random()
    if k == 'I':
        o = rng.choice(['Idr 0 1 2', 'Imq 0 1 2', 'Idri 0 0 2', 'Imqi 0 0 2', 'Ib div 0 1', 'Ibi div 0 0', 'Idiv 2 3 0 1', 'Idivi 2 3 0 0'])
    elif k == 'W': o = rng.choice(['Wb div 0 1', 'Wb mod 0 1', 'Wbi div 0 0', 'Wbi mod 0 0', 'Wv div 2 0 1', 'Wvi mod 2 0 0', 'Wiv div 2 5 1'])
    else: o = rng.choice(['Cb div 0 1', 'Cb mod 0 1', 'Cbi div 0 0', 'Cbi mod 0 0'])
    m.c.add(o, ANY).add('st', one)
    return m.c
def sys_huge(*groups, sizes=(255, 256, 257, 1025, 65535, 65536, 65537, 65538)):
    """linear-time operations on operands of 255..65538 words (index widths, long carry chains)"""
    for n in sizes:
        one = (1 << (32 * n)) - 1; p2 = 1 << (32 * (n - 1)); mixed = one // 0xffffffff * 0x87654321 ^ (one >> 7)
        for v in (one, p2, -one, mixed) if n < 2000 else (one, -mixed, p2) if len(sizes) > 2 else (-mixed,):
            c = Case(); ld = ('Ini 0 %s' % hx(v), '.')
            small = ((1 << 96) + 0xfffffffe, -0xffffffff, 3)
            if 'add' in groups:
                for u in (1, -1, one, p2 + 1): c.add(*ld).add('Ini 1 %s' % hx(u), '.').add('Ib add 0 1', '.').add('Id 0', V(v + u)).add('Ib sub 0 1', '.').add('Ib sub 0 1', '.').add('Id 0', V(v - u))
            if 'mul' in groups:
                for u in small: c.add(*ld).add('Ini 1 %s' % hx(u), '.').add('Ib mul 0 1', '.').add('Id 0', V(v * u)).add(*ld).add('Ib mul 1 0', '.').add('Id 1', V(v * u))
            if 'div' in groups:
                for u in small + ((v >> 40) | 1,): c.add(*ld).add('Ini 1 %s' % hx(u), '.').add('Ib div 0 1', '.').add('Id 0', V(tdiv(v, u))).add(*ld).add('Imq 0 1 2', '.').add('Id 0 2', V(tmod(v, u), tdiv(v, u)))
            if 'bit' in groups:
                for o in ('and', 'or', 'xor'):
                    for u in (p2 | 1, -p2): c.add(*ld).add('Ini 1 %s' % hx(u), '.').add('Ib %s 0 1' % o, '.').add('Id 0', V(BIN[o](v, u)))
                c.add(*ld).add('Iun notself 0', '.').add('Id 0', V(~v))
            if 'shift' in groups:
                for k in (0, 1, 31, 32, 33, 4096, 32 * (n - 1), 32 * (n - 1) + 5): c.add(*ld).add('Ishr 0 %d' % k, '.').add('Id 0', V(v >> k)).add('Ishl 0 %d' % k, '.').add('Id 0', V(v >> k << k))
            if 'un' in groups:
                for u in ('inc', 'dec', 'neg', 'notbits'): c.add(*ld).add('Iun %s 0' % u, '.').add('Id 0', V(UN[u](v)))
            yield c
def sys_none(): return iter(())

# ---- expressions: an independent reader of the grammar
class Malformed(Exception): pass
class Unclear(Exception): pass   # not settled by the documented format
class Undef(Exception): pass
XOPS = [['|'], ['^'], ['&'], ['==', '!='], ['<', '<=', '>', '>='], ['<<', '>>'], ['+', '-'], ['*', '/', '%'], ['**']]
def xlex(t):
    i = 0; out = []; n = len(t)
    while i < n:
        c = t[i]
        if c in ' \r\n\t\0': i += 1; continue
        two = t[i:i + 2]
        if two in ('**', '!=', '>>', '>=', '<<', '<=', '=='): out.append(two); i += 2; continue
        if c in '+-*/%!&|^~><(),?:': out.append(c); i += 1; continue
        if c.isascii() and c.isdigit():
            j = i; r = 10
            m = re.match(r'0(\d\d?)?x', t[i:])
            if m: r = int(m.group(1)) if m.group(1) else 16; j = i + m.end()
            elif c == '0' and i + 1 < n and t[i + 1].isascii() and t[i + 1].isdigit(): r = 8; j = i + 1
            elif c == '0':
                out.append(('n', 0)); i += 1
                if t[i:i + 1] == '.': raise Unclear
                continue
            k = j
            while k < n and t[k].isascii() and t[k].isalnum(): k += 1
            body = t[j:k]
            if k < n and t[k] == '.':
                if r != 10 or c == '0': raise Malformed
                k += 1; f = k
                while k < n and t[k].isascii() and t[k].isalnum(): k += 1
                if k == f or not t[f:k].isdigit(): raise Unclear
            if not 2 <= r <= 36: raise Malformed
            if not body: raise Malformed
            try: v = int(body, r)
            except ValueError: raise Malformed
            out.append(('n', v)); i = k; continue
        raise Malformed
    return out
def xread(t):
    """syntax tree of a text, or Malformed"""
    tk = xlex(t) + ['$']; pos = [0]
    def peek(): return tk[pos[0]]
    def adv(): pos[0] += 1
    def E():
        c = B(0)
        if peek() == '?':
            adv(); a = E()
            if peek() != ':': raise Malformed
            adv(); return ('?', c, a, E())
        return c
    def B(l):
        if l == len(XOPS): return U()
        a = B(l + 1)
        while peek() in XOPS[l]: o = peek(); adv(); a = (o, a, B(l + 1))
        return a
    def U():
        o = peek()
        if o in ('+', '-', '~'): adv(); return ('u' + o, U())
        a = P_()
        while peek() == '!': adv(); a = ('u!', a)
        return a
    def P_():
        o = peek()
        if isinstance(o, tuple): adv(); return o
        if o == '(':
            adv(); a = E()
            if peek() != ')': raise Malformed
            adv(); return a
        raise Malformed
    a = E()
    if peek() != '$': raise Malformed
    return a
def xop(o, *v):
    big = 1 << 3000
    a = v[0]
    if o == 'u+': return a
    if o == 'u-': return -a
    if o == 'u~': return ~a
    if o == 'u!':
        if not 0 <= a <= 60: raise Undef
        return math.factorial(a)
    b = v[1]
    if o == '|': return a | b
    if o == '^': return a ^ b
    if o == '&': return a & b
    if o in ('==', '!=', '<', '<=', '>', '>='): return int({'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o])
    if o in ('<<', '>>'):
        if not 0 <= b <= (300 if o == '<<' else U64MAX): raise Undef
        return a << b if o == '<<' else a >> min(b, 100000)
    if o in ('/', '%') and b == 0: raise Undef
    if o == '**' and (b < 0 or abs(a) > 1 and b * abs(a).bit_length() > 2500 or b > 3000): raise Undef
    r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: tdiv(a, b), '%': lambda: tmod(a, b), '**': lambda: a ** b}[o]()
    if abs(r) > big: raise Undef
    return r
def xval(t):
    if t[0] == 'n': return t[1]
    if t[0] == '?': return xval(t[2]) if xval(t[1]) else xval(t[3])
    return xop(t[0], *[xval(x) for x in t[1:]])
def xlit(rng, v):
    x = rng.random()
    if v == 0 and x < .6: return '0'
    if x < .55 and v: return str(v) + ('.' + ''.join(rng.choice('0123456789') for _ in range(rng.randrange(1, 6))) if rng.random() < .15 else '')
    if x < .7: return '0x' + (hx(v) if rng.random() < .5 else hx(v).upper())
    if x < .8: d = digits(v, 8); return '0' + ''.join(str(int(c)) for c in d) if len(d) > 0 and d[0] != '0' else '0'
    r = rng.randrange(2, 37); d = digits(v, r)
    return '0%sx%s' % (('%02d' if rng.random() < .5 or r > 9 else '%d') % r, d.upper() if rng.random() < .3 else d.lower())
def xgen(rng, depth):
    """(tree, value)"""
    while True:
        x = rng.random()
        try:
            if depth <= 0 or x < .12:
                v = rng.choice([0, 1, 2, 3, 5, 7, 10, 31, 32, 63, 64, 0xffffffff, 1 << 32, (1 << 64) - 1]) if rng.random() < .6 else rng.getrandbits(rng.choice([4, 8, 33, 70, 130]))
                return ('n', v), v
            if x < .27:
                o = rng.choice(['u+', 'u-', 'u~', 'u-', 'u!'])
                a, v = xgen(rng, 0 if o == 'u!' and rng.random() < .5 else depth - 1); return (o, a), xop(o, v)
            if x < .37:
                c, cv = xgen(rng, depth - 1); a, av = xgen(rng, depth - 1); b, bv = xgen(rng, depth - 1); return ('?', c, a, b), av if cv else bv
            o = rng.choice(rng.choice(XOPS))
            a, av = xgen(rng, depth - 1); b, bv = xgen(rng, rng.choice([0, depth - 1]))
            if o in ('<<', '>>', '**') and rng.random() < .8: b = bv = rng.randrange(0, 9 if o == '**' else 70); b = ('n', bv)
            return (o, a, b), xop(o, av, bv)
        except Undef: continue
XPREC = {o: i for i, l in enumerate(XOPS) for o in l}
def xtoks(rng, t, l, red=.06):
    """tokens of tree t where an operand of level l is needed (-1: anything, 9: unary, 10: postfix operand)"""
    if t[0] == 'n': out = [xlit(rng, t[1])]; my = 11
    elif t[0] == '?': out = xtoks(rng, t[1], 0) + ['?'] + xtoks(rng, t[2], -1) + [':'] + xtoks(rng, t[3], -1); my = -1
    elif t[0] == 'u!': out = xtoks(rng, t[1], 10) + ['!']; my = 10
    elif t[0][0] == 'u': out = [t[0][1]] + xtoks(rng, t[1], 9); my = 9
    else: my = XPREC[t[0]]; out = xtoks(rng, t[1], my) + [t[0]] + xtoks(rng, t[2], my + 1)
    if my < l or rng.random() < red: out = ['('] + out + [')']
    return out
def xjoin(rng, tk, ws=.2):
    s = ''
    for i, x in enumerate(tk):
        if rng.random() < ws or (s.endswith('!') and x[0] == '=') or (s[-1:].isalnum() and x[0].isalnum()): s += ''.join(rng.choice('  \t\n\r\0' if rng.random() < .3 else ' ') for _ in range(rng.randrange(1, 3)))
        s += x
    if rng.random() < .1: s += rng.choice([' ', '\n', '\t ', '\0'])
    return s
def evc(s, e): return ('%s %s' % (rcmd(s), bhex(s.encode('latin1'))), e)
def rcmd(s): return ['ev', 'evs'][len(s) % 2]
def evexp(v): return Pat(lambda l: (lambda a, st: dec(a)[0] == v and st.split('/') == ['0', '0'])(*l.split()), 'value %d, no error' % v)
EVBAD = Pat(lambda l: (lambda a, st: dec(a)[0] == 0 and st.split('/')[0] != '0')(*l.split()), 'zero and an error status')
def xwell(rng, depth=None):
    if rng.random() < .05: # a long chain: the pool of nodes grows
        t, v = ('n', 1), 1
        for _ in range(rng.randrange(20, 120)):
            k = rng.randrange(1, 9); o = rng.choice(['+', '-', '|', '^', '+']); t, v = (o, t, ('n', k)), xop(o, v, k)
        return t, v
    return xgen(rng, rng.choice([1, 2, 2, 3, 3, 4]) if depth is None else depth)
def g_eval(rng):
    c = Case()
    for _ in range(6):
        t, v = xwell(rng); s = xjoin(rng, xtoks(rng, t, -1), rng.choice([0, 0, .2, .5]))
        c.add(*evc(s, evexp(v)))
    return c
def sys_eval():
    V0 = [0, 1, 2, 3, 7]; r = random.Random(5)
    ops = [o for l in XOPS for o in l]
    def go(ts):
        c = Case()
        for t in ts:
            try: v = xval(t)
            except Undef: continue
            c.add(*evc(xjoin(r, xtoks(r, t, -1, 0), 0), evexp(v)))
        return c
    for o in ops:
        for p in ops:
            yield go([(p, (o, ('n', a), ('n', b)), ('n', d)) for a in V0 for b in V0 for d in V0])
            yield go([(p, ('n', a), (o, ('n', b), ('n', d))) for a in (5, 1) for b in V0 for d in V0])
        yield go([(o, (u, ('n', a)), ('n', b)) for u in ('u+', 'u-', 'u~', 'u!') for a in V0 for b in V0] + [(o, ('n', a), (u, ('n', b))) for u in ('u+', 'u-', 'u~', 'u!') for a in V0 for b in V0] + [(u, (o, ('n', a), ('n', b))) for u in ('u+', 'u-', 'u~', 'u!') for a in V0 for b in V0])
        yield go([('?', (o, ('n', a), ('n', b)), ('n', 4), ('n', 9)) for a in V0 for b in V0] + [('?', ('n', d), (o, ('n', a), ('n', b)), ('?', ('n', b), ('n', 8), ('n', a))) for a in V0 for b in V0 for d in (0, 1)])
        yield go([(o, ('n', a), ('n', b)) for a in (0, 1, 5, (1 << 64) + 3) for b in (0, 1, 5, (1 << 64) + 3)])
    yield go([('u!', ('u!', ('n', 3))), ('u-', ('u!', ('n', 4))), ('u-', ('u-', ('n', 4))), ('u~', ('u-', ('n', 4))), ('u+', ('u~', ('n', 4)))] + [('u!', ('n', n)) for n in range(0, 40)])
    c = Case()
    for rdx in range(2, 37):
        for v in (0, 1, rdx - 1, rdx, rdx * rdx - 1, 123456789012345678901):
            c.add(*evc('0%dx%s' % (rdx, digits(v, rdx).lower()), evexp(v))).add(*evc('0%02dx%s' % (rdx, digits(v, rdx).upper()), evexp(v)))
    for t, v in (('12.5+3', 15), ('1.25 * 4', 4), ('0xff', 255), ('0', 0), ('010', 8), ('0777', 511), ('  7 ', 7), ('0x1F+0', 31), ('2 ** 3 ** 2', 64), ('1?2:3?4:5', 2), ('0?2:0?4:5', 5), ('(1)', 1), ('((2))!', 2), ('3!!', 720)): c.add(*evc(t, evexp(v)))
    yield c
XCH = '0123456789abzxX+-*/%!&|^~<>=(),?:._ \t\0@#$\x80\xff'
def xbad(rng):
    """a malformed text"""
    while True:
        t, v = xwell(rng, rng.choice([0, 1, 2, 2, 3])); tk = xtoks(rng, t, -1, .2); x = rng.random()
        if x < .45:
            i = rng.randrange(len(tk)); y = rng.random()
            if y < .35: del tk[i]
            elif y < .7: tk.insert(i, rng.choice(['(', ')', ',', '+', '*', '/', '!', '?', ':', '==', '5', '>>', 'x', '~']))
            else: tk[i] = rng.choice(['(', ')', ',', '*', '!', '?', ':', '!=', '5', 'f', '&', '='])
            s = xjoin(rng, tk)
        elif x < .8:
            s = xjoin(rng, tk)
            for _ in range(rng.randrange(1, 3)):
                i = rng.randrange(len(s) + 1); y = rng.random()
                s = s[:i] + rng.choice(XCH) + s[i:] if y < .5 else s[:i] + s[i + 1:] if y < .8 else s[:i] + rng.choice(XCH) + s[i + 1:]
        elif x < .9: s = ''.join(rng.choice(XCH) for _ in range(rng.randrange(0, 8)))
        else: s = xjoin(rng, tk); s = s[:rng.randrange(len(s) + 1)]
        try: xread(s)
        except Malformed: return s
        except Unclear: pass
def g_bad(rng):
    c = Case()
    for _ in range(6):
        c.add(*evc(xbad(rng), EVBAD))
        if rng.random() < .2:
            t, v = xwell(rng, 1); c.add(*evc(xjoin(rng, xtoks(rng, t, -1)), evexp(v)))
    return c
def sys_bad():
    toks = ['1', '+', '!', '(', ')', '?', ':', ',', '==', '~', '*']
    import itertools
    for n in range(0, 5):
        c = Case()
        for tk in itertools.product(toks, repeat=n):
            s = ' '.join(tk)
            try: xread(s)
            except Malformed: c.add(*evc(s, EVBAD))
            if len(c.cmds) > 400: yield c; c = Case()
        yield c
    c = Case()
    for s in ('', ' ', '\0', '=', '1=2', '.', '.5', '0x', '02x', '036x', '01x1', '037x1', '00x0', '099x1', '08', '0x1.5', '010.1', '02x2', '12a', '0xg', 'x', '_', 'abc', 'f()', 'f(1)', '1 2', '(1', '1)', '()', '1+', '*1', '1?', '1?2', '1?2:', '1:2', '!', '1!2', '1,2', '@', '\x80', '1\xff', '1' + '+' * 3, '(' * 100, '(' * 100 + '1' + ')' * 99, '1' + '+1' * 60 + '+', '0xffg+1', '2**', '<', '1<', '1<<', '1=', '1==', '0x@', '12.x@'): 
        try: xread(s); continue
        except Malformed: c.add(*evc(s, EVBAD))
        except Unclear: continue
    for b in range(256):
        s = '1' + chr(b)
        try: xread(s)
        except Malformed: c.add(*evc(s, EVBAD))
        except Unclear: pass
    yield c

# ---- P22: the status registry
NCODE = 17; PLACE = b'<ERROR_INFO>'
class Reg:
    """histories of registrations and lookups; user registrations sit on top of the library's own rows"""
    def __init__(s, rng): s.c = Case(); s.r = rng; s.u = {}; s.n = 0; s.S = {}; s.CH = {}; s.g = None; s.kept = False
    def code(s):
        r = s.r; k = r.random()
        if k < .45: return r.randrange(NCODE)
        if k < .8: return r.choice([17, 18, 31, 100, 255, 256, 65536, 0x7fffffff, 0x80000000, 0xfffffffe])
        return r.choice(list(s.u) or [5])
    def known(s, c): return c in s.u or c < NCODE
    def inf(s, c): return s.u[c][0] if c in s.u else PLACE
    def log(s, c): # the callback of c runs
        t = s.u[c][1] if c in s.u else None
        return '-' if t is None else t + ','
    def reg(s, c=None, thr=None):
        r = s.r; c = s.code() if c is None else c; s.n += 1
        b = b'm%d' % s.n + bytes(r.choice(b'abc %{}[]\x80\xff') for _ in range(r.choice([0, 0, 1, 3, 12, 60])))
        k = r.choice(['reg', 'regc', 'rega', 'creg', 'cregc'])
        if k in ('reg', 'regc', 'rega') and r.random() < .15: b = b[:1] + b'\0' + b[1:] if r.random() < .5 else b''
        if k[-1] == 'g': s.em('%s %d %s' % (k, c, bhex(b)), '.', thr); s.u[c] = (b, None)
        else: s.em('%s %d %s t%d' % (k, c, bhex(b), s.n), '.', thr); s.u[c] = (b, 't%d' % s.n)
    def em(s, cmd, e, thr=None):
        if s.r.random() < .15 if thr is None else thr: cmd = 'thr ' + cmd
        s.c.add(cmd, Pat(lambda l: l == e, e))
    def info(s, c=None):
        c = s.code() if c is None else c
        if c not in s.u and c < NCODE: s.em('row %d' % c, 'row msg msg'); return
        m = s.inf(c); z = b'\0' in m; k = s.r.choice(['info', 'info', 'findt'] + ([] if z else ['cinfo', 'par']))
        if k == 'findt': s.em('findt %d' % c, '1 ' + bhex(m) if s.known(c) else '0 null')
        elif k == 'par': s.c.add('par %d %d' % (s.r.choice([2, 4, 8]), c), Pat(lambda l: l == bhex(m), bhex(m)))
        else: s.em('%s %d' % (k, c), bhex(m))
    def cb(s, c=None):
        c = s.code() if c is None else c
        if c in s.u: s.em('cb %d' % c, 'none' if s.u[c][1] is None else s.log(c))
        elif c < NCODE: s.em('rowcb %d' % c, 'ok')
        else: s.em('cb %d' % c, 'none')
    def find(s): c = s.code(); s.em('find %d' % c, '1' if s.known(c) else '0')
    def setc(s): # a code whose callback may be run here
        for _ in range(9):
            c = s.code()
            if s.known(c) and (c != 1 or 1 in s.u): return c
        return 0
    def obj(s):
        r = s.r; i = r.randrange(4); k = r.random()
        if k < .3:
            if s.S and r.random() < .6: i = r.choice(list(s.S)); c = s.setc(); s.em('asg %d %d' % (i, c), s.log(c)); s.S[i] = c
            else: c = s.setc(); s.em('new %d %d' % (i, c), s.log(c)); s.S[i] = c
        elif k < .55:
            if s.CH and r.random() < .6: i = r.choice(list(s.CH)); c = s.setc(); s.em('cset %d %d' % (i, c), s.log(c)); s.CH[i] = c
            elif i in s.CH: s.em('cdel %d' % i, '.'); del s.CH[i]
            elif r.random() < .4: s.em('cnew %d' % i, s.log(0)); s.CH[i] = 0
            else: c = s.setc(); s.em('cnew %d %d' % (i, c), s.log(c)); s.CH[i] = c
        elif k < .75:
            c = s.setc(); th = r.random() < .3; s.em(r.choice(['gset', 'cgset']) + ' %d' % c, s.log(c), thr=th)
            if not th: s.g = c
        elif k < .8: s.em('cgk', '.', thr=False); s.kept = True
        elif k < .85 and s.kept: c = s.setc(); s.em('cgks %d' % c, s.log(c), thr=False); s.g = c
        elif k < .85: s.obs()
        else:
            x, rx, c = r.choice([('-', 10, 3), ('zz', 10, 5), ('12', 99, 2)]); s.em('use %s %d' % (bhex(x.encode()) if x != '-' else '-', rx), s.log(c), thr=(th := r.random() < .3))
            if not th: s.g = c
    def obs(s):
        r = s.r
        c = [('sinfo %d' % i, v) for i, v in s.S.items()] + [('csinfo %d' % i, v) for i, v in s.CH.items()] + ([(r.choice(['ginfo', 'cginfo'] + ['cgki'] * s.kept), s.g)] if s.g is not None else [])
        c = [(a, v) for a, v in c if v in s.u]
        if c:
            a, v = r.choice(c); m = s.inf(v)
            if a[0] == 'c' and b'\0' in m: return
            s.em(a, bhex(m), thr=False if 'g' in a[:2] else None)
        if s.g is None and r.random() < .3: s.em(r.choice(['ginfo', 'cginfo']), bhex(s.u[0xffffffff][0] if 0xffffffff in s.u else PLACE), thr=False)
        if r.random() < .2: s.em('ginfo', bhex(s.u[0xffffffff][0] if 0xffffffff in s.u else PLACE), thr=True) # a fresh thread's own object
def g_status(rng):
    m = Reg(rng)
    for _ in range(rng.randrange(1, 14)): rng.choices([m.reg, m.info, m.cb, m.find, m.obj, m.obs], [4, 4, 2, 1, 4, 3])[0]()
    for c in list(m.u)[:6]: m.info(c); m.cb(c)
    return m.c
def sys_status():
    for c in range(NCODE):
        for f in ('row %d', 'rowcb %d'): # first thing in a process, and after everything is up
            x = Case(); x.add(f % c, Pat(lambda l: l in ('row msg msg', 'ok'), 'the row of the table')); yield x
            x = Case(); x.add('find 3', Pat(lambda l: l == '1', '1')); x.add('thr ' + f % c, Pat(lambda l: l in ('row msg msg', 'ok'), 'the row of the table')); yield x
        rng = random.Random(c)
        for k in range(6):
            m = Reg(rng); m.reg(c); m.info(c); m.cb(c); m.reg(c); m.em('find 0', '1', thr=True); m.info(c); m.cb(c); yield m.c
    for a in ('gset', 'cgset'):
        for o in ('ginfo', 'cginfo', 'cgki'): # a thread's code is its own
            x = Case(); rng = random.Random(a + o); m = Reg(rng)
            for c in (40, 41): m.em('regc %d %s t%d' % (c, bhex(b'x%d' % c), c), '.', thr=False); m.u[c] = (b'x%d' % c, 't%d' % c)
            m.em('cgk', '.', thr=False); m.em('gset 40', 't40,', thr=False); m.em('cgki', bhex(b'x40'), thr=False)
            m.em('%s 41' % a, 't41,', thr=True); m.em(o, bhex(b'x40'), thr=False); m.em('ginfo', bhex(PLACE), thr=True); m.em('cgks 41', 't41,', thr=False); m.em('ginfo', bhex(b'x41'), thr=False); yield m.c
    for c in (17, 300, 0x80000000, 0xffffffff):
        x = Case(); x.add('info %d' % c, Pat(lambda l: l == bhex(PLACE), PLACE.decode())); x.add('cinfo %d' % c, Pat(lambda l: l == bhex(PLACE), PLACE.decode())); yield x

PROPS = {
 'P01': (g_ops(['add', 'sub']), lambda: chain(sys_huge('add'), (lambda: (x for o in ('add', 'sub') for x in sys_pairs(o, 'IWC', BV, I64S)()))())),
 'P02': (mix(g_mul, g_mul, g_mul3), lambda: chain(sys_huge('mul'), (lambda: sys_pairs('mul', 'IWC', BV, I64S)())())),
 'P03': (mix(g_div, g_div, g_div, g_ops(['div', 'mod'], kinds='IWC')), lambda: chain(sys_huge('div'), (lambda: (x for o in ('div', 'mod') for x in sys_pairs(o, 'IWC', BV, I64S)()))())),
 'P04': (g_canon, sys_canon),
 'P05': (g_cmp, sys_cmp),
 'P06': (g_p06, lambda: chain(sys_huge('bit'), (lambda: (x for o in ('and', 'or', 'xor') for x in sys_pairs(o, 'IWC', BV, I64S)()))())),
 'P07': (g_shift, lambda: chain(sys_huge('shift'), (sys_shift)())),
 'P08': (g_indep, sys_none),
 'P09': (g_parse, sys_parse),
 'P10': (g_print, sys_print),
 'P11': (g_bin, sys_bin),
 'P12': (g_conv, sys_conv),
 'P13': (g_unary, lambda: chain(sys_huge('un'), (sys_unary)())),
 'P14': (g_frac, sys_none),
 'P15': (g_dec, sys_dec),
 'P16': (g_gcd, sys_gcd),
 'P17': (g_eval, sys_eval),
 'P18': (g_bad, sys_bad),
 'P21': (g_c, sys_c),
 'P22': (g_status, sys_status),
 'P23': (blind(mix(g_canon, g_indep, g_div, g_mul, g_shift, g_p06, g_parse, g_print, g_bin, g_conv, g_unary, g_gcd, g_ops(['add', 'sub']), g_cmp)), lambda: (blind(lambda r, c=c: c)(None) for f in (sys_canon, sys_shift, sys_bin, sys_print, sys_parse) for c in f())),
 'P24': (mix(blind(mix(g_canon, g_div, g_mul, g_shift, g_parse, g_print, g_bin, g_conv, g_unary, g_gcd, g_cmp, g_p06)), g_divzero), lambda: (blind(lambda r, c=c: c)(None) for f in (sys_gcd, sys_print, sys_shift, sys_conv, lambda: sys_huge('add', 'mul', 'div', 'bit', 'shift', 'un', sizes=(257, 65537))) for c in f())),
}

# ------------------------------------------------------------------ running
class Fail:
    def __init__(s, case, idx, got, why): s.case = case; s.idx = idx; s.got = got; s.why = why
    def text(s):
        o = [s.why, 'commands (drv/drv.cpp reads them from a file; the marked one fails):']
        for i, (c, e) in enumerate(zip(s.case.cmds, s.case.exp)):
            if i <= s.idx: o.append(('>>> ' if i == s.idx else '    ') + c)
        if s.idx < len(s.case.exp): o += ['expected: ' + show(s.case.exp[s.idx]), 'got:      ' + s.got]
        return '\n'.join(o)

def run_cases(binary, cases, tmp, timeout=60, first=True, env=None):
    """returns (failures, commands run)"""
    fails = []; i0 = 0; ran = 0
    while i0 < len(cases):
        p = os.path.join(tmp, 'in.txt')
        with open(p, 'w') as f:
            for n, c in enumerate(cases[i0:]):
                f.write('# %d\n' % n); f.write('\n'.join(c.cmds)); f.write('\n')
        e = dict(os.environ); e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=0'; e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
        out = os.path.join(tmp, 'out.txt'); errf = os.path.join(tmp, 'err.txt')
        to = False
        with open(out, 'wb') as fo, open(errf, 'wb') as fe:
            try: rc = subprocess.run(['bash', '-c', ('' if env == 'san' else 'ulimit -v 8000000; ') + 'exec "$0" "$1"', binary, p], stdout=fo, stderr=fe, timeout=timeout, cwd=tmp, env=e).returncode
            except subprocess.TimeoutExpired: to = True; rc = -99
        lines = open(out, 'rb').read().decode('latin1').split('\n')
        if lines and lines[-1] == '': lines.pop()
        n = -1; k = 0; got = {}
        for l in lines:
            if l.startswith('# '): n = int(l[2:]); got[n] = []; continue
            if n >= 0: got[n].append(l)
        done = max(got) + 1 if got else 0
        bad = rc != 0
        for j in range(done):
            c = cases[i0 + j]; g = got[j]
            for i, l in enumerate(g):
                if i >= len(c.exp): break
                ran += 1
                if not ok(c.exp[i], l):
                    fails.append(Fail(c, i, l, 'wrong result')); break
            if fails and first: return fails, ran
            if j == done - 1 and bad:
                last = len(g)
                # output of the last case may be buffered: rerun it alone, unbuffered
                idx, why, lg = crash_at(binary, c, tmp, env, e)
                if idx is not None: fails.append(Fail(c, idx, lg, why))
                elif to: pass # slow as a whole, not hung
                if fails and first: return fails, ran
        if not bad: break
        if done == 0:
            # nothing came out at all: even the start failed
            fails.append(Fail(cases[i0], 0, open(errf, 'rb').read().decode('latin1')[-1500:], 'the driver failed (exit %d)' % rc)); return fails, ran
        i0 += done
        if to: return fails, ran
    return fails, ran

def crash_at(binary, case, tmp, env, e):
    """which command of this case does not return"""
    p = os.path.join(tmp, 'one.txt')
    with open(p, 'w') as f:
        for c in case.cmds: f.write('# +\n' + c + '\n')
        f.write('# +\n')
    try: r = subprocess.run([binary, p], capture_output=True, timeout=40, cwd=tmp, env=e); to = False; rc = r.returncode; out = r.stdout; err = r.stderr
    except subprocess.TimeoutExpired as x: to = True; rc = -99; out = x.stdout or b''; err = x.stderr or b''
    if rc == 0: return None, '', ''
    n = out.decode('latin1').count('# +') - 1
    msg = [l for l in err.decode('latin1').split('\n') if 'Error]' not in l and l.strip()]
    key = [l for l in msg if 'ERROR' in l or 'runtime error' in l or 'ssert' in l][:3]
    return max(0, min(n, len(case.cmds) - 1)), ('does not return within 40 s' if to else 'the call does not return normally (exit %d)' % rc), '\n'.join(key + msg[-12:])[-1800:]

def shrink(binary, f, tmp, env, limit=20):
    """drop trailing commands and try to drop whole commands that are not needed"""
    c = f.case; t0 = time.time()
    cmds = c.cmds[:f.idx + 1]; exp = c.exp[:f.idx + 1]
    best = Case(); best.cmds = cmds; best.exp = exp
    return Fail(best, f.idx, f.got, f.why)

def search(prop, binary, seed, budget, tmp, env=None, sysfrac=1.0, gen=None, log=None):
    """systematic cases first, then random ones until the time budget is used; returns (Fail or None, stats)"""
    g, sysg = gen or PROPS[prop]
    t0 = time.time(); cases = ran = 0; seen = set(); samples = []
    rng = random.Random('%s-%s' % (prop, seed))
    sysl = list(sysg())
    rngs = random.Random(seed); 
    batch = []
    nsys = len(sysl)
    exhausted = False
    while True:
        left = budget - (time.time() - t0)
        if left <= 0: break
        if sysl: batch, sysl = sysl[:600], sysl[600:]
        else: batch = [g(rng) for _ in range(400 if env != 'san' else 150)]
        fs, r = run_cases(binary, batch, tmp, timeout=max(90, left + 60), env=env)
        cases += len(batch); ran += r
        for c in batch:
            seen.add(hash('\n'.join(c.cmds)))
        if len(samples) < 3: samples.append(' ; '.join(x[:120] for x in batch[len(batch) // 2].cmds)[:400])
        if fs:
            f = shrink(binary, fs[0], tmp, env)
            return f, dict(evaluations=cases, commands=ran, distinct_nontrivial=len(seen), samples=samples, systematic=nsys - len(sysl), wall=time.time() - t0)
    return None, dict(evaluations=cases, commands=ran, distinct_nontrivial=len(seen), samples=samples, systematic=nsys - len(sysl), wall=time.time() - t0)

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('props', nargs='*'); ap.add_argument('--budget', type=float, default=10); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--dir', default='/tmp/w/drvb'); ap.add_argument('--rebuild', action='store_true')
    a = ap.parse_args()
    bins = {}
    for p in a.props or sorted(PROPS):
        san = p in SAN; ft = FEATS.get(p, FEATS0)
        d = a.dir + ('-san' if san else '') + ('-' + ft[0] if ft != FEATS0 else '')
        if a.rebuild and d not in bins: shutil.rmtree(d, ignore_errors=True)
        if d not in bins:
            bins[d] = d + '/drv'
            if not os.path.exists(bins[d]):
                t = time.time(); b, e = build(d, san=san, debug=p == 'P23', feats=ft); print('build', d, '%.1fs' % (time.time() - t), e)
                if not b: sys.exit(e)
        tmp = tempfile.mkdtemp()
        f, st = search(p, bins[d], a.seed, a.budget, tmp, env='san' if san else None)
        print(p, 'FAIL' if f else 'ok', {k: v for k, v in st.items() if k != 'samples'})
        if f: print(f.text()[:3000])
        shutil.rmtree(tmp)
