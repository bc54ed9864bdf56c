"""Function bodies: clang AST -> Verus, in A-normal form over the heap handle h."""
from cpp2verus import *

KIDS = lambda n: n.get('inner', [])
SKIP1 = {'ParenExpr', 'ConstantExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'SubstNonTypeTemplateParmExpr'}

def strip(n):
    while n.get('kind') in SKIP1: n = KIDS(n)[0]
    return n
def strip_casts(n):
    while n.get('kind') in SKIP1 or (n.get('kind') in ('ImplicitCastExpr', 'CXXStaticCastExpr') and n.get('castKind') in
            ('NoOp', 'LValueToRValue', 'UncheckedDerivedToBase', 'DerivedToBase', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr')): n = KIDS(n)[0]
    return n

def walk(n):
    yield n
    for c in KIDS(n):
        if isinstance(c, dict): yield from walk(c)

def contains(n, kinds, stop=('LambdaExpr',)):
    if n.get('kind') in kinds: return True
    if n.get('kind') in stop: return False
    return any(contains(c, kinds, stop) for c in KIDS(n) if isinstance(c, dict))

def break_inside(n):
    """a break/continue that belongs to n itself"""
    k = n.get('kind')
    if k in ('BreakStmt', 'ContinueStmt'): return True
    if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'LambdaExpr'): return False
    return any(break_inside(c) for c in KIDS(n) if isinstance(c, dict))

class Contract:
    def __init__(s, name, params):
        s.name = name; s.params = params; s.pure = False; s.req = []; s.ens = []; s.loops = {}; s.hints = {}; s.ghosts = {}; s.file = None; s.line = 0
        s.attrs = []; s.dec = None; s.used = set(); s.trusted = False; s.noverify = False; s.hide = []

def parse_contracts(path):
    res = {}; cur = None; sec = None; lno = 0
    for raw in open(path):
        lno += 1
        line = raw.rstrip('\n')
        st = line.strip()
        if not st or st.startswith('//'): continue
        if st.startswith('@fn '):
            mm = re.match(r'@fn (\w+)\(([^)]*)\)(.*)', st)
            cur = Contract(mm.group(1), [x.strip() for x in mm.group(2).split(',') if x.strip()]); cur.file = path; cur.line = lno
            fl = mm.group(3)
            cur.pure = '@pure' in fl
            cur.trusted = '@trusted' in fl
            for a in re.findall(r'@attr\(([^)]*\)?)\)', fl): cur.attrs.append(a)
            mm = re.search(r'@hide\(([\w ,]*)\)', fl)
            if mm: cur.hide = [x.strip() for x in mm.group(1).split(',')]
            res[cur.name] = cur; sec = None; continue
        if st.startswith('@loop '):
            k = int(st.split()[1]); cur.loops[k] = {'inv': [], 'dec': None, 'iso': 'iso' in st.split()[2:]}; sec = ('loop', k); continue
        if st.startswith('@hint ') or st.startswith('@ghost '):
            a = ' '.join(st.split()[1:]); tgt = cur.hints if st.startswith('@hint') else cur.ghosts
            tgt.setdefault(a, []); sec = ('txt', tgt[a]); continue
        if st in ('requires', 'ensures') and cur is not None: sec = (st,); continue
        mm = re.match(r'(requires|ensures)\s+(.*)', st)
        if mm and cur is not None and not (sec and sec[0] == 'txt'): sec = (mm.group(1),); st = mm.group(2)
        mm = re.match(r'exit\s+(.*)', st)
        if mm and sec and sec[0] == 'loop': cur.loops[sec[1]]['exit'] = mm.group(1); continue
        mm = re.match(r'decreases\s+(.*)', st)
        if mm and not (sec and sec[0] == 'txt'):
            if sec and sec[0] == 'loop': cur.loops[sec[1]]['dec'] = mm.group(1).rstrip(','); continue
            cur.dec = mm.group(1).rstrip(','); continue
        if sec is None: raise Exception('%s:%d: stray %r' % (path, lno, st))
        if sec[0] == 'txt': sec[1].append(line.strip()); continue
        mm = re.match(r'\[([\w, ]+)\]\s*(.*)', st); tag = ''
        if mm: tag = mm.group(1); st = mm.group(2)
        if sec[0] == 'requires': cl = cur.req
        elif sec[0] == 'ensures': cl = cur.ens
        else:
            if st.startswith('invariant'): st = st[9:].strip()
            if not st: continue
            cl = cur.loops[sec[1]]['inv']
        # continuation lines: start with '&&', '||', '==>', or inside open brackets
        if cl and (cl[-1][3] or re.match(r'(&&|\|\||==>|==|\+|-|\))', st)):
            t, x, l, _ = cl[-1]; cl[-1] = (t, x + ' ' + st, l, unbalanced(x + ' ' + st))
        else: cl.append((tag, st, lno, unbalanced(st)))
    def fin(cl): return [(t, y, l) for t, x, l, _ in cl for y in split_clauses(x.rstrip().rstrip(','))]
    for c in res.values():
        c.req = fin(c.req); c.ens = fin(c.ens)
        for lp in c.loops.values(): lp['inv'] = fin(lp['inv'])
    return res

def split_clauses(x):
    out = []; d = 0; cur = ''
    for i, ch in enumerate(x):
        if ch in '([{': d += 1
        elif ch in ')]}': d -= 1
        if ch == ',' and d == 0 and not re.search(r'\b(forall|exists|let)\b', cur): out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def unbalanced(t):
    return t.count('(') + t.count('{') + t.count('[') > t.count(')') + t.count('}') + t.count(']')

class V:
    __slots__ = ('c', 'ty')
    def __init__(s, c, ty): s.c = c; s.ty = ty

class Ctx:
    """translation context of one C++ function body (top level or inlined)"""
    def __init__(s, fd, env, this, ret, inline):
        s.fd = fd; s.env = env; s.this = this; s.ret = ret; s.inline = inline; s.scopes = []

class Gen:
    def __init__(s, world, contracts, fd, baseline_locals=None):
        s.sigonly = False; s.reason = None; s.missing = []; s.loops_mismatch = False
        s.w = world; s.cs = contracts; s.fd = fd; s.con = contracts[fd.name]
        s.lines = []; s.ind = 1; s.tn = 0; s.names = {}; s.calls = {}; s.loopn = 0; s.retn = 0
        s.callees = set(); s.locals = []; s.base = baseline_locals; s.inlined = []; s.depth = 0; s.tables = {}; s.prims = set()
        s.temps = []; s.loopstack = []; s.pending = []; s.slotname = None; s.thisname = None
        s.obls = 0; s.recs = {}

    # ---------- emission
    def emit(s, t, tag=None): s.lines.append(('  ' * s.ind + t, tag))
    def tmp(s, code, ty=None, pre='t'):
        s.tn += 1; n = '%s%d_' % (pre, s.tn)
        s.emit('let %s = %s;' % (n, code)); return n
    def hint(s, anchor, args=(), res=None):
        def sub(l):
            if '$' not in l: return l
            if '$r' in l and res is None: raise ExtractError('%s: hint %s uses a result that is not bound' % (s.fd.name, anchor))
            def f(m):
                k = m.group(1)
                if k == 'r': return res
                if int(k) >= len(args): raise ExtractError('%s: hint %s uses argument %s' % (s.fd.name, anchor, k))
                return args[int(k)]
            return re.sub(r'\$(r|\d)', f, l)
        for kind, src in (('g', s.con.ghosts), ('h', s.con.hints)):
            if anchor in src:
                s.con.used.add(anchor)
                if kind == 'g':
                    for l in src[anchor]: s.emit(sub(l), ('hint', anchor))
                else:
                    s.emit('proof {', ('hint', anchor))
                    for l in src[anchor]: s.emit('  ' + sub(l), ('hint', anchor))
                    s.emit('}', ('hint', anchor))
    def call(s, name, code, bind=True):
        k = s.calls.get(name, 0); s.calls[name] = k + 1
        s.prims.add(name)
        args = []
        if '(' in code and code.endswith(')'):
            args = [a for a in split_clauses(code[code.index('(') + 1:-1])]
            if args and args[0] == 'h': args = args[1:]
        s.hint('before %s %d' % (name, k), args)
        if bind: s.tn += 1; n = 't%d_' % s.tn; s.emit('let %s = %s;' % (n, code), ('call', name))
        else: n = None; s.emit(code + ';', ('call', name))
        s.hint('after %s %d' % (name, k), args, n)
        return n
    def err(s, m, n=None): raise ExtractError('%s: %s%s' % (s.fd.name, m, ' at ' + str(n.get('kind')) if n else ''))

    # ---------- locals
    def newname(s, cname, ty):
        cname = cname or 'anon'
        base = cname + '_' if cname in RESERVED or re.match(r't\d+_$', cname) else cname
        k = s.names.get(base, 0); s.names[base] = k + 1
        n = base if k == 0 else '%s_%d' % (base, k + 1)
        s.locals.append((n, repr(ty)))
        if s.base:  # rename to the names the contracts use
            idx = len(s.locals) - 1
            n = s.base.get(idx, n)
        return n

    # ---------- types
    def ty(s, n): return parse_type(qt(n))

    # ---------- constants
    def const_eval(s, n, tu):
        n = strip(n); k = n['kind']
        if k == 'IntegerLiteral': return int(n['value'])
        if k == 'CharacterLiteral': return int(n['value'])
        if k == 'CXXBoolLiteralExpr': return 1 if n['value'] else 0
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr'):
            v = s.const_eval(KIDS(n)[0], tu); ty = s.ty(n)
            if v is None or ty.k != 'scal': return None
            return wrap(v, ty.a)
        if k == 'DeclRefExpr':
            d = tu.byid.get(n['referencedDecl']['id'])
            if d is None and n['referencedDecl'].get('name') == 'npos' and qt(n).replace('const ', '').strip() in ('unsigned long', 'size_type', 'std::size_t'): return (1 << 64) - 1
            if d is None or d.get('kind') != 'VarDecl' or not d.get('constexpr'): return None
            init = [x for x in KIDS(d) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
            if not init: return None
            ty = parse_type(qt(d)); v = s.const_eval(init[0], tu)
            return None if v is None or ty.k != 'scal' else wrap(v, ty.a)
        if k == 'UnaryOperator':
            v = s.const_eval(KIDS(n)[0], tu); ty = s.ty(n)
            if v is None or ty.k != 'scal': return None
            o = n['opcode']
            if o == '-': return wrap(-v, ty.a)
            if o == '~': return wrap(~v, ty.a)
            if o == '!': return int(not v)
            if o == '+': return v
            return None
        if k == 'BinaryOperator':
            o = n['opcode']
            if o in ('=', ','): return None
            a = s.const_eval(KIDS(n)[0], tu); b = s.const_eval(KIDS(n)[1], tu); ty = s.ty(n)
            if a is None or b is None or ty.k != 'scal': return None
            try: r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: int(a / b) if abs(a) < 1 << 50 else a // b, '<<': lambda: a << b, '>>': lambda: a >> b,
                     '|': lambda: a | b, '&': lambda: a & b, '^': lambda: a ^ b, '<': lambda: int(a < b), '>': lambda: int(a > b), '==': lambda: int(a == b), '!=': lambda: int(a != b),
                     '<=': lambda: int(a <= b), '>=': lambda: int(a >= b), '%': lambda: a % b if a >= 0 and b > 0 else None, '&&': lambda: int(bool(a) and bool(b)), '||': lambda: int(bool(a) or bool(b))}[o]()
            except Exception: return None
            return None if r is None else wrap(r, ty.a)
        if k == 'CallExpr':
            c = strip_casts(KIDS(n)[0])
            nm = c.get('referencedDecl', {}).get('name')
            if nm in ('max', 'min') and len(KIDS(n)) == 1:
                a = s.ty(n).a; b = BITS[a]; sg = a[0] == 'i'
                return ((1 << (b - (1 if sg else 0))) - 1) if nm == 'max' else (-(1 << (b - 1)) if sg else 0)
            return None
        if k == 'UnaryExprOrTypeTraitExpr' and n.get('name') == 'sizeof':
            t = n.get('argType', {}).get('qualType')
            if t is None: t = qt(KIDS(n)[0])
            mm = re.match(r'(.*)\[(\d+)\]$', t)
            if mm: t1 = parse_type(mm.group(1)); return None if t1.k != 'scal' else int(mm.group(2)) * BITS[t1.a] // 8
            t1 = parse_type(t); return None if t1.k != 'scal' else max(1, BITS[t1.a] // 8)
        return None
    def lit(s, v, a):
        if a == 'bool': return 'true' if v else 'false'
        return '(%d%s)' % (v, a) if v < 0 else '%d%s' % (v, a)

    # ---------- does evaluating n change locals (so that earlier operand reads must be saved)?
    def effects(s, n):
        for x in walk(n):
            k = x.get('kind')
            if k == 'UnaryOperator' and x.get('opcode') in ('++', '--'): return True
            if k == 'CompoundAssignOperator' or (k == 'BinaryOperator' and x.get('opcode') == '='): return True
            if k == 'LambdaExpr': return True
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'): return True
        return False

    # ---------- places
    def load(s, p):
        k = p[0]
        if k == 'var': return V(p[1], p[2])
        if k == 'const': return V(p[1], p[2])
        if k == 'elem': return V(s.call('it_get', 'it_get(h, %s)' % p[1]), Ty('scal', 'u32'))
        if k == 'flags': return V(s.call('big_get_flags', 'big_get_flags(h, %s)' % p[1]), Ty('scal', 'u32'))
        if k == 'lazy': return V(s.call('big_get_lazy', 'big_get_lazy(h, %s)' % p[1]), Ty('scal', 'u64'))
        if k == 'lo': return V(s.call('slice_get_lo', 'slice_get_lo(h, %s)' % p[1]), Ty('scal', 'u64'))
        if k == 'hi': return V(s.call('slice_get_hi', 'slice_get_hi(h, %s)' % p[1]), Ty('scal', 'u64'))
        if k == 'boolp': return V(s.call('bool_get', 'bool_get(h, %s)' % p[1]), Ty('scal', 'bool'))
        if k == 'byte': return V(s.call('bp_get' if p[2] == 'u8' else 'bp_get_i8', ('bp_get' if p[2] == 'u8' else 'bp_get_i8') + '(h, %s)' % p[1]), Ty('scal', p[2]))
        if k == 'u64wi':
            if p[2] == 0: return V('c_u64_u32(%s)' % p[1], Ty('scal', 'u32'))
            return V('c_u64_u32(shr64(%s, 32))' % p[1], Ty('scal', 'u32'))
        if k == 'obj': return V(p[2], Ty('cls', p[1]))
        if k == 'velem': return V(s.call('vecs_at', 'vecs_at(&%s, %s)' % (p[1], p[2])), Ty('sb'))
        if k == 'cimpl': return V(s.call('int_get_impl', 'int_get_impl(h, %s)' % p[1]), Ty('ptr', Ty('cls', 'Big')))
        if k == 'cstr': return V(s.call('cs_get', 'cs_get(h, %s)' % p[1]), Ty('sb'))
        if k == 'wp': return V(s.call('int_get_impl', 'int_get_impl(h, %s)' % p[1]), Ty('cls', 'Big'))
        s.err('load of %r' % (p,))
    def store(s, p, code):
        k = p[0]
        if k == 'var': s.emit('%s = %s;' % (p[1], code), ('store', p[1])); return
        f = {'elem': 'it_set', 'flags': 'big_set_flags', 'lazy': 'big_set_lazy', 'lo': 'slice_set_lo', 'hi': 'slice_set_hi', 'boolp': 'bool_set'}.get(k)
        if k == 'byte': f = 'bp_set'
        if k == 'cimpl': f = 'int_set_impl'
        if k == 'cstr': f = 'cs_set'
        if f is None: s.err('store to %r' % (p,))
        if '(' in code: code = s.tmp(code)
        s.call(f, '%s(h, %s, %s)' % (f, p[1], code), bind=False)
    def pty(s, p):
        k = p[0]
        if k in ('var', 'const'): return p[2]
        return Ty('scal', {'elem': 'u32', 'flags': 'u32', 'lazy': 'u64', 'lo': 'u64', 'hi': 'u64', 'boolp': 'bool', 'u64wi': 'u32', 'byte': p[2] if k == 'byte' else None}[k])

    def field(s, base_cls, fname, idc, n):
        if base_cls == 'Big':
            if fname == 'm_flags': return ('flags', idc)
            if fname == 'm_firstNotZeroU32IndexLazy': return ('lazy', idc)
            if fname == 'm_mag': return ('obj', 'Slice', 'mag_of(%s)' % idc)
        if base_cls == 'Slice':
            if fname == 'm_lo': return ('lo', idc)
            if fname == 'm_hi': return ('hi', idc)
            if fname == 'm_data': return ('sp', idc)
        if base_cls == 'Int' and fname == 'm_pImpl': return ('up', idc)
        if base_cls == 'Frac' and fname == 'm_num': return ('obj', 'Int', idc)
        if base_cls == 'Frac' and fname == 'm_den': return ('obj', 'Int', 'frac_den(%s)' % idc)
        if base_cls == 'Cb' and fname == 'impl': return ('cimpl', idc)
        if base_cls == 'Cs' and fname == 'str': return ('cstr', idc)
        s.err('field %s::%s' % (base_cls, fname), n)

    def lval(s, n):
        n0 = n; k = n['kind']
        if k in ('ParenExpr', 'ExprWithCleanups', 'ConstantExpr'): return s.lval(KIDS(n)[0])
        if k == 'ImplicitCastExpr' or k in ('CXXStaticCastExpr', 'CXXConstCastExpr'):
            ck = n.get('castKind')
            if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase'): return s.lval(KIDS(n)[0])
        if k in ('MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'):
            ty = s.ty(n)
            if ty.k in ('cls', 'sp'):
                v = s.rval(KIDS(n)[0]); return ('obj', ty.a, v.c)
            v = s.rval(KIDS(n)[0]); return ('const', v.c, v.ty)
        if k == 'DeclRefExpr':
            rid = n['referencedDecl']['id']
            if rid in s.cx.env: return s.cx.env[rid]
            for c in reversed(s.ctxs):
                if rid in c.env and c is s.cx: return c.env[rid]
            cv = s.const_eval(n, s.cx.fd.tu)
            if cv is not None: return ('const', s.lit(cv, s.ty(n).a), s.ty(n))
            s.err('unknown variable %s' % n['referencedDecl'].get('name'), n)
        if k == 'MemberExpr':
            b = KIDS(n)[0]; bt = s.ty(b)
            if n.get('isArrow') and isinstance(s.cx.this, dict) and strip(b)['kind'] == 'CXXThisExpr': return s.cx.this[n['name']]
            if n.get('isArrow'):
                bv = s.rval(b); cls = bt.a.a if bt.k == 'ptr' else None
                if cls is None: s.err('-> on %r' % bt, n)
                return s.field(cls, n['name'], bv.c, n)
            p = s.lval(b) if not (b['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')) else ('obj', bt.a, s.rval(b).c)
            if p[0] == 'obj': return s.field(p[1], n['name'], p[2], n)
            if p[0] in ('var', 'const') and p[2].k == 'fcr' and n['name'] in ('ec', 'ptr'):
                return ('var' if p[0] == 'var' else 'const', p[1] + '.' + n['name'], Ty('scal', 'i32') if n['name'] == 'ec' else Ty('ptr', Ty('scal', 'i8')))
            if p[0] == 'rec': 
                if n['name'] in p[1]: return p[1][n['name']]
            s.err('. on %r' % (p,), n)
        if k == 'UnaryOperator':
            o = n['opcode']
            if o == '*':
                e = strip(KIDS(n)[0])
                if e['kind'] == 'CallExpr':
                    r = s.callx(e)
                    if isinstance(r, tuple) and r[0] == 'status': return r
                    return s.deref(s.load(r) if isinstance(r, tuple) else r, n)
                v = s.rval(KIDS(n)[0]); t = v.ty
                return s.deref(v, n)
            if o in ('++', '--') and not n.get('isPostfix'): return s.incdec(n)[0]
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (n['opcode'].endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>=')): return s.assign(n)
        if k == 'BinaryOperator' and n['opcode'] == ',': s.discard(KIDS(n)[0]); return s.lval(KIDS(n)[1])
        if k == 'ArraySubscriptExpr':
            a, i = KIDS(n)
            ab = strip_casts(a)
            if ab['kind'] == 'ImplicitCastExpr' and ab.get('castKind') == 'ArrayToPointerDecay': return s.table(KIDS(ab)[0], i, n)
            if ab['kind'] == 'DeclRefExpr':
                p = s.cx.env.get(ab['referencedDecl']['id'])
                if p and p[0] == 'u64w':
                    cv = s.const_eval(i, s.cx.fd.tu)
                    if cv not in (0, 1): s.err('word index', n)
                    return ('u64wi', p[1], cv)
            pv = s.rval(a)
            if s.effects(i) and not re.match(r'\w+$', pv.c): pv = V(s.tmp(pv.c), pv.ty)
            iv = s.rval(i); ic = s.conv(iv, 'i64').c
            if rty(pv.ty) == 'It': return ('elem', 'it_add(%s, %s)' % (pv.c, ic))
            if rty(pv.ty) == 'Bp': return ('byte', 'bp_add(%s, %s)' % (pv.c, ic), pv.ty.a.a)
            s.err('subscript of %r' % pv.ty, n)
        if k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr'):
            r = s.callx(n)
            if isinstance(r, tuple): return r
            return s.aslval(r, s.ty(n), n)
        if k == 'ConditionalOperator':
            ty = s.ty(n)
            if ty.k == 'cls':
                v = s.cond3(n, lambda x: V(s.lval(x)[2], ty)); return ('obj', ty.a, v.c)
            if ty.k == 'scal':
                v = s.cond3(n, lambda x: s.load(s.lval(x))); return ('const', v.c, ty)
        if k in ('CXXTemporaryObjectExpr', 'CXXConstructExpr', 'CXXFunctionalCastExpr') and s.ty(n).k == 'cls': return ('obj', s.ty(n).a, s.rval(n).c)
        if k == 'CXXThisExpr': s.err('this lvalue', n)
        s.err('lvalue', n)

    def aslval(s, v, ty, n):
        if ty.k == 'cls': return ('obj', ty.a, v.c)
        if v is None: s.err('void lvalue', n)
        if rty(v.ty) == 'It' and ty.k == 'scal' and ty.a == 'u32': return ('elem', v.c)
        if ty.k == 'scal' and v.ty.k == 'scal': return ('const', v.c, v.ty)
        if ty.k == 'it': return ('const', v.c, v.ty)
        s.err('lvalue of call %r %r' % (ty, v.ty), n)

    def deref(s, v, n):
        t = v.ty
        if t.k == 'ptr' and t.a.k == 'cls': return ('obj', t.a.a, v.c)
        if t.k == 'ptr' and t.a.k == 'scal' and t.a.a == 'bool': return ('boolp', v.c)
        if t.k == 'it' or (t.k == 'ptr' and t.a.k == 'scal' and t.a.a == 'u32'): return ('elem', v.c)
        if t.k == 'ptr' and t.a.k == 'scal' and t.a.a in ('u8', 'i8'): return ('byte', v.c, t.a.a)
        if t.k == 'ptr' and t.a.k == 'scal' and t.a.a == 'i64' and v.c.startswith('OUT:'): return ('var', v.c[4:], t.a)
        s.err('deref of %r' % t, n)

    # ---------- conversions
    def conv(s, v, a):
        if v.ty.k != 'scal': s.err('conversion of %r' % v.ty)
        f = v.ty.a
        if f == a: return v
        if a == 'bool': return V('(%s != 0)' % v.c, Ty('scal', 'bool'))
        mm = re.match(r'\(?(-?\d+)(%s)\)?$' % f, v.c)
        if mm: return V(s.lit(wrap(int(mm.group(1)), a), a), Ty('scal', a))
        return V('c_%s_%s(%s)' % (f, a, v.c), Ty('scal', a))

    def arith(s, op, a, b, ty, n):
        A = ty.a
        if op in ('&', '|', '^'):
            nm = {'&': 'band', '|': 'bor', '^': 'bxor'}[op]
            if A == 'bool': s.err('bool bitop')
            suf = {'u64': '64', 'u32': '32', 'i64': '_i64', 'i32': '_i32'}[A]
            return '%s%s(%s, %s)' % (nm, suf, a, b)
        if op in ('<<', '>>'):
            nm = 'shl' if op == '<<' else 'shr'
            suf = {'u64': '64', 'u32': '32', 'i64': '_i64', 'i32': '_i32'}[A]
            return '%s%s(%s, %s)' % (nm, suf, a, b)
        if A[0] == 'u':
            if A not in ('u64', 'u32'): s.err('arith on ' + A)
            nm = {'+': 'wadd', '-': 'wsub', '*': 'wmul'}.get(op)
            if nm: return '%s%s(%s, %s)' % (nm, A[1:], a, b)
            if op in '/%': return '(%s %s %s)' % (a, op, b)
        else:
            if op in '+-*': return '(%s %s %s)' % (a, op, b)
            if op == '/': return 'div_%s(%s, %s)' % (A, a, b)
            if op == '%': return 'rem_%s(%s, %s)' % (A, a, b)
        s.err('operator %s on %s' % (op, A), n)

    # ---------- expressions
    def rval(s, n):
        cv = s.const_eval(n, s.cx.fd.tu)
        if cv is not None and s.ty(n).k == 'scal': return V(s.lit(cv, s.ty(n).a), s.ty(n))
        k = n['kind']
        if k in ('ParenExpr', 'ConstantExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'SubstNonTypeTemplateParmExpr'): return s.rval(KIDS(n)[0])
        if k == 'ImplicitCastExpr' or k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr'):
            ck = n.get('castKind'); e = KIDS(n)[0]
            if ck == 'LValueToRValue':
                es = strip(e)
                return s.load(s.lval(e))
            if ck in ('NoOp', 'ConstructorConversion', 'UncheckedDerivedToBase', 'DerivedToBase', 'UserDefinedConversion'):
                if e.get('valueCategory') in ('lvalue', 'xvalue') and n.get('valueCategory') in ('lvalue', 'xvalue'): return s.load(s.lval(e))
                return s.rval(e)
            if ck == 'IntegralCast': return s.conv(s.rval(e), s.ty(n).a)
            if ck == 'ArrayToPointerDecay':
                x = strip(e)
                if x['kind'] == 'StringLiteral': return s.strlit(x)
                if x['kind'] == 'DeclRefExpr':
                    p = s.cx.env.get(x['referencedDecl']['id'])
                    if p and p[0] == 'arr': return V(p[1], Ty('ptr', Ty('scal', p[2])))
            if ck == 'IntegralToBoolean': return s.conv(s.rval(e), 'bool')
            if ck == 'PointerToBoolean':
                v = s.rval(e)
                if rty(v.ty) == 'BoolP' or (v.ty.k == 'ptr' and v.ty.a.k == 'cls' and v.ty.a.a != 'Slice'): return V('(%s != 0)' % v.c, Ty('scal', 'bool'))
                if rty(v.ty) == 'Bp': return V('bp_nonnull(%s)' % v.c, Ty('scal', 'bool'))
            if ck == 'NullToPointer':
                t = s.ty(n)
                if rty(t) == 'Bp': return V('bp_null()', t)
                return V('0u64', t)
            if ck == 'BitCast':
                v = s.rval(e); t = s.ty(n)
                if rty(v.ty) == rty(t): return V(v.c, t)
            if ck == 'ToVoid': s.discard(e); return None
            s.err('cast %s %s' % (ck, qt(n)), n)
        if k == 'CXXThisExpr': return V(s.cx.this, s.ty(n))
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'): return V('0u64', s.ty(n))
        if k == 'CXXNewExpr':
            t = s.ty(n)
            if t.k == 'ptr' and t.a.k == 'cls' and t.a.a == 'Big':
                d = s.newbig(n); s.born(d); return V(d, t)
            if t.k == 'ptr' and t.a.k == 'cls' and t.a.a in ('Cb', 'Cs'):
                f = {'Cb': 'cb_new', 'Cs': 'cs_new'}[t.a.a]
                return V(s.call(f, '%s(h)' % f), t)
            s.err('new', n)
        if k == 'CXXDeleteExpr':
            e = KIDS(n)[0]; v = s.rval(e); t = v.ty
            if t.k == 'ptr' and t.a.k == 'cls' and t.a.a in ('Cb', 'Cs', 'Big'):
                f = {'Cb': 'cb_free', 'Cs': 'cs_free', 'Big': 'big_kill'}[t.a.a]
                s.call(f, '%s(h, %s)' % (f, s.simple(v.c)), bind=False); return None
            s.err('delete', n)
        if k in ('CXXScalarValueInitExpr', 'ImplicitValueInitExpr'): return V(s.lit(0, s.ty(n).a), s.ty(n))
        if k == 'InitListExpr' and s.ty(n).k == 'scal':
            if not KIDS(n): return V(s.lit(0, s.ty(n).a), s.ty(n))
            return s.rval(KIDS(n)[0])
        if k == 'UnaryOperator': return s.unary(n)
        if k == 'BinaryOperator': return s.binary(n)
        if k == 'CompoundAssignOperator': return s.load(s.assign(n))
        if k == 'ConditionalOperator':
            ty = s.ty(n)
            if ty.k == 'cls': s.err('class conditional', n)
            return s.cond3(n, s.rval)
        if k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr'):
            r = s.callx(n)
            if isinstance(r, tuple): return s.load(r)
            return r
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): return s.construct(n, None)
        if k in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr'): return s.load(s.lval(n))
        s.err('expression', n)

    def strlit(s, x):
        b = cstring(x['value'])
        if b is None: s.err('string literal', x)
        tn = 'lit_' + hashlib.sha256(b).hexdigest()[:8]
        s.tables[tn] = ('lit', list(b))
        return V(s.call('lit', '%s(h)' % tn), Ty('ptr', Ty('scal', 'i8')))

    def discard(s, n):
        n = strip(n)
        k = n['kind']
        if k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'ImplicitCastExpr') and n.get('castKind') == 'ToVoid':
            return s.discard(KIDS(n)[0])
        if k in ('DeclRefExpr', 'IntegerLiteral', 'CXXBoolLiteralExpr', 'StringLiteral', 'CXXThisExpr', 'CXXNullPtrLiteralExpr', 'UnaryExprOrTypeTraitExpr'): return
        if k == 'BinaryOperator' and n['opcode'] == '=' or k == 'CompoundAssignOperator': s.assign(n); return
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'): s.incdec(n, value=False); return
        if k == 'BinaryOperator' and n['opcode'] == ',': s.discard(KIDS(n)[0]); s.discard(KIDS(n)[1]); return
        if k == 'BinaryOperator' and n['opcode'] in ('&&', '||'):
            a = s.truth(KIDS(n)[0])
            s.emit('if %s%s {' % ('' if n['opcode'] == '&&' else '!', a)); s.ind += 1; s.discard(KIDS(n)[1]); s.ind -= 1; s.emit('}'); return
        if k == 'ConditionalOperator':
            c, a, b = KIDS(n); cc = s.truth(c)
            s.emit('if %s {' % cc); s.ind += 1; s.discard(a); s.ind -= 1; s.emit('} else {'); s.ind += 1; s.discard(b); s.ind -= 1; s.emit('}'); return
        if k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr'): s.callx(n); return
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr') and n.get('castKind') in ('NoOp', 'LValueToRValue', 'IntegralCast'): return s.discard(KIDS(n)[0])
        if k == 'MemberExpr': return
        s.rval(n)

    def truth(s, n):
        v = s.rval(n)
        if v.ty.k != 'scal' or v.ty.a != 'bool': s.err('condition of type %r' % v.ty, n)
        return v.c

    def cond3(s, n, f):
        c, a, b = KIDS(n)
        cc = s.truth(c)
        if cc == 'true': return f(a)
        if cc == 'false': return f(b)
        def arm(x):
            keep = s.lines; s.lines = []; s.ind += 1
            v = f(x); ls = s.lines; s.lines = keep; s.ind -= 1
            return v, ls
        va, la = arm(a); vb, lb = arm(b)
        if not la and not lb: return V('(if %s { %s } else { %s })' % (cc, va.c, vb.c), va.ty)
        s.tn += 1; t = 't%d_' % s.tn
        s.emit('let %s: %s;' % (t, rty(va.ty)))
        s.emit('if %s {' % cc); s.lines += la; s.ind += 1; s.emit('%s = %s;' % (t, va.c)); s.ind -= 1
        s.emit('} else {'); s.lines += lb; s.ind += 1; s.emit('%s = %s;' % (t, vb.c)); s.ind -= 1; s.emit('}')
        return V(t, va.ty)

    def unary(s, n):
        o = n['opcode']; e = KIDS(n)[0]
        if o in ('++', '--'): return s.incdec(n)[1]
        if o == '!':
            return V('!%s' % paren(s.truth(e)), Ty('scal', 'bool'))
        if o == '&':
            p = s.lval(e)
            t = s.ty(n)
            if p[0] == 'obj': return V(p[2], t)
            if p[0] == 'elem': return V(p[1], t)
            if p[0] == 'byte': return V(p[1], t)
            if p[0] == 'boolp': return V(p[1], t)
            if p[0] == 'var' and p[2].k == 'scal' and p[2].a in ('u64', 'i64'): return V('OUT:' + p[1], t)
            s.err('address of %r' % (p,), n)
        if o == '*': return s.load(s.lval(n))
        v = s.rval(e); ty = s.ty(n)
        if o == '+': return v
        if o == '-':
            if ty.a[0] == 'u': return V('wneg%s(%s)' % (ty.a[1:], v.c), ty)
            return V('(-%s)' % paren(v.c), ty)
        if o == '~':
            if ty.a == 'i32': return V('bnot_i32(%s)' % v.c, ty)
            if ty.a == 'i64': return V('bnot_i64(%s)' % v.c, ty)
            return V('bnot%s(%s)' % (ty.a[1:], v.c), ty)
        s.err('unary ' + o, n)

    def operand(s, a, later):
        v = s.rval(a)
        if later is not None and s.effects(later) and not re.match(r'(t\d+_|-?\d+\w*|true|false)$', v.c): v = V(s.tmp(v.c), v.ty)
        return v

    def binary(s, n):
        o = n['opcode']; a, b = KIDS(n)
        if o == '=': return s.load(s.assign(n))
        if o == ',': s.discard(a); return s.rval(b)
        if o in ('&&', '||'):
            ca = s.truth(a)
            keep = s.lines; s.lines = []; s.ind += 1
            cb = s.truth(b); ls = s.lines; s.lines = keep; s.ind -= 1
            if not ls: return V('(%s %s %s)' % (ca, o, cb), Ty('scal', 'bool'))
            s.tn += 1; t = 't%d_' % s.tn
            s.emit('let %s: bool;' % t)
            s.emit('if %s {' % ca if o == '&&' else 'if !%s {' % paren(ca)); s.lines += ls; s.ind += 1; s.emit('%s = %s;' % (t, cb)); s.ind -= 1
            s.emit('} else { %s = %s; }' % (t, 'false' if o == '&&' else 'true'))
            return V(t, Ty('scal', 'bool'))
        va = s.operand(a, b); vb = s.rval(b)
        ty = s.ty(n)
        if va is None or vb is None: s.err('void operand', n)
        if o in ('==', '!=', '<', '>', '<=', '>='):
            if va.ty.k == 'scal' and vb.ty.k == 'scal':
                if va.ty.a != vb.ty.a: s.err('comparison of %r and %r' % (va.ty, vb.ty), n)
                return V('(%s %s %s)' % (va.c, o, vb.c), Ty('scal', 'bool'))
            ra, rb = rty(va.ty), rty(vb.ty)
            if ra == 'It': return V('%s(%s, %s)' % ({'==': 'it_eq', '!=': 'it_ne', '<': 'it_lt', '>': 'it_gt', '<=': 'it_le', '>=': 'it_ge'}[o], va.c, vb.c), Ty('scal', 'bool'))
            if ra == 'Bp': return V('%s(%s, %s)' % ({'==': 'bp_eq', '!=': 'bp_ne', '<': 'bp_lt', '>': 'bp_gt', '<=': 'bp_le', '>=': 'bp_ge'}[o], va.c, vb.c), Ty('scal', 'bool'))
            if ra in ('BId', 'SRef', 'WId', 'BoolP', 'CId') and o in ('==', '!='):
                if ra == 'SRef': return V('%ssref_eq(%s, %s)' % ('' if o == '==' else '!', va.c, vb.c), Ty('scal', 'bool'))
                return V('(%s %s %s)' % (va.c, o, vb.c), Ty('scal', 'bool'))
            s.err('comparison of %r' % va.ty, n)
        if va.ty.k in ('ptr', 'it') or vb.ty.k in ('ptr', 'it'):
            if vb.ty.k in ('ptr', 'it') and va.ty.k in ('ptr', 'it') and o == '-':
                return V('%s_diff(%s, %s)' % ('it' if rty(va.ty) == 'It' else 'bp', va.c, vb.c), Ty('scal', 'i64'))
            if va.ty.k == 'scal': va, vb = vb, va
            pre = 'it' if rty(va.ty) == 'It' else 'bp' if rty(va.ty) == 'Bp' else s.err('pointer arithmetic', n)
            return V('%s_%s(%s, %s)' % (pre, 'add' if o == '+' else 'sub', va.c, s.conv(vb, 'i64').c), va.ty)
        if o in ('<<', '>>'): vb = s.conv(vb, 'u64')
        elif va.ty.a != ty.a or vb.ty.a != ty.a: s.err('operand types %r %r -> %r' % (va.ty, vb.ty, ty), n)
        return V(s.arith(o, va.c, vb.c, ty, n), ty)

    def incdec(s, n, value=True):
        e = KIDS(n)[0]; p = s.lval(e); o = n['opcode'][0]
        if p[0] == 'elem' and '(' in p[1]: p = ('elem', s.tmp(p[1]))
        old = s.load(p); t = old.ty
        if n.get('isPostfix') and value and p[0] == 'var': old = V(s.tmp(old.c), t)
        if t.k == 'scal':
            one = s.lit(1, t.a)
            if t.a in ('u8', 'i8', 'u16', 'i16'):  # promoted to int, then converted back
                new = s.conv(V(s.arith(o, s.conv(old, 'i32').c, s.lit(1, 'i32'), Ty('scal', 'i32'), n), Ty('scal', 'i32')), t.a).c
            else: new = s.arith(o, old.c, one, t, n)
        elif rty(t) == 'It': new = 'it_%s(%s, 1i64)' % ('add' if o == '+' else 'sub', old.c)
        elif rty(t) == 'Bp': new = 'bp_%s(%s, 1i64)' % ('add' if o == '+' else 'sub', old.c)
        else: s.err('++ on %r' % t, n)
        s.store(p, new)
        if n.get('isPostfix'): return p, old
        if not value: return p, None
        return p, s.load(p)

    def assign(s, n):
        o = n['opcode']; a, b = KIDS(n)
        bt = s.ty(a)
        if o == '=':
            if bt.k == 'cls': s.err('builtin assignment of class', n)
            vb = s.rval(b)
            if s.effects(a) and not re.match(r'(t\d+_|\w+)$', vb.c): vb = V(s.tmp(vb.c), vb.ty)
            p = s.lval(a)
            if p[0] == 'status': s.call('status_set', 'status_set(h, %s)' % s.conv(vb, 'u32').c, bind=False); return p
            s.store(p, vb.c); return p
        op = o[:-1]
        vb = s.rval(b)
        if s.effects(a) and not re.match(r'(t\d+_|-?\d+\w*)$', vb.c): vb = V(s.tmp(vb.c), vb.ty)
        p = s.lval(a)
        if p[0] == 'elem' and '(' in p[1]: p = ('elem', s.tmp(p[1]))
        va = s.load(p)
        if va.ty.k != 'scal':
            pre = 'it' if rty(va.ty) == 'It' else 'bp' if rty(va.ty) == 'Bp' else s.err('compound on %r' % va.ty, n)
            s.store(p, '%s_%s(%s, %s)' % (pre, 'add' if op == '+' else 'sub', va.c, s.conv(vb, 'i64').c)); return p
        ct = parse_type(n.get('computeResultType', {}).get('desugaredQualType') or n.get('computeResultType', {}).get('qualType') or qt(a))
        lt = parse_type(n.get('computeLHSType', {}).get('desugaredQualType') or n.get('computeLHSType', {}).get('qualType') or qt(a))
        x = s.conv(va, lt.a)
        if op in ('<<', '>>'): y = s.conv(vb, 'u64')
        else: y = s.conv(vb, lt.a) if vb.ty.a != lt.a else vb
        r = s.conv(V(s.arith(op, x.c, y.c, ct, n), ct), va.ty.a)
        s.store(p, r.c); return p

    # ---------- static constexpr tables
    def table(s, arr, i, n):
        ab = strip(arr)
        if ab['kind'] != 'DeclRefExpr': s.err('array', n)
        rid = ab['referencedDecl']['id']
        p = s.cx.env.get(rid)
        if p is None or p[0] not in ('tbl', 'objtbl'): s.err('array variable', n)
        iv = s.rval(i)
        ic = s.conv(iv, 'i64').c
        if p[0] == 'tbl': return ('const', s.call(p[1], '%s(%s)' % (p[1], ic)), Ty('scal', p[2]))
        return s.objtable(p, ic, n)

    def objtable(s, p, ic, n):
        v = s.call(p[1], '%s(%s)' % (p[1], ic))
        return ('obj', 'Big', s.call('const_big', 'const_big(h, %s)' % v))

    # ---------- construction of class objects
    def alloc(s, cls):
        f = {'Slice': 'slice_alloc', 'Big': 'big_alloc', 'Int': 'int_alloc', 'Frac': 'frac_alloc'}[cls]
        r = s.call(f, '%s(h, %s)' % (f, s.avoid(cls)))
        s.pending.append((cls, r)); return r
    def avoid(s, cls):
        ids = [i for c, i in s.pending if c == cls]
        if s.fd.retslot and s.fd.ret.a == cls: ids.append(s.slotname)
        if s.fd.is_ctor and s.fd.cls == cls: ids.append(s.thisname)
        if cls in ('Int', 'Frac'):
            fr = [i for c, i in s.pending if c == 'Frac'] + ([s.slotname] if s.fd.retslot and s.fd.ret.a == 'Frac' else []) + ([s.thisname] if s.fd.is_ctor and s.fd.cls == 'Frac' else [])
            if cls == 'Frac': ids = [i for c, i in s.pending if c == 'Int'] + fr
            else: ids += fr
            ids += ['(%s + 1) as u64' % i for i in fr]
        return 'Ghost(Set::empty()%s)' % ''.join('.insert(%s)' % i for i in ids)
    def born(s, idc): s.pending = [x for x in s.pending if x[1] != idc]
    def kill(s, cls, idc):
        if cls == 'lrec':      # object of a function-local record: its destructor's body, here
            rec, fields = idc
            old = s.cx.this; s.cx.this = fields
            for x in KIDS(rec):
                if x['kind'] == 'CXXDestructorDecl':
                    for b in KIDS(x):
                        if b['kind'] == 'CompoundStmt':
                            if contains(b, ('ReturnStmt',)): s.err('return in a local destructor')
                            s.block(KIDS(b))
            s.cx.this = old; return
        f = {'Slice': 'slice_kill', 'Big': 'big_kill', 'Int': 'int_kill', 'Frac': 'frac_kill', 'bool': 'bool_kill', 'vecb': 'vecb_kill', 'sp': 'slice_kill', 'bytes': 'bp_kill'}[cls]
        s.call(f, '%s(h, %s)' % (f, idc if cls != 'vecb' else '&' + idc), bind=False)

    def ctor_name(s, n, cls):
        t = re.sub(r'\)\s*noexcept.*$', ')', n.get('ctorType', {}).get('qualType', ''))
        mm = re.match(r'void \((.*)\)', t)
        ps = [x.strip() for x in split_args(mm.group(1))] if mm and mm.group(1) else []
        return cls + '_ctor' + ''.join('_' + kindname(parse_type(p)) for p in ps)

    def construct(s, n, dest):
        """evaluate a class prvalue; into object `dest` if given, else into a fresh temporary"""
        n = strip(n) if n['kind'] in ('ExprWithCleanups', 'ParenExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') else n
        k = n['kind']; ty = s.ty(n)
        if ty.k == 'scal': return s.rval(n)
        if k in ('ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion'):
            return s.construct(KIDS(n)[0], dest)
        if ty.k == 'it':
            if k == 'CXXConstructExpr': return s.rval(KIDS(n)[0]) if KIDS(n)[0].get('valueCategory') == 'prvalue' else s.load(s.lval(KIDS(n)[0]))
            return s.rval(n)
        if ty.k == 'vecb':
            if k == 'CXXConstructExpr' and not KIDS(n): return V('Vec::<BId>::new()', ty)
            if k == 'CXXMemberCallExpr': return s.rval(n)
            if k == 'CXXConstructExpr': return s.load(s.lval(KIDS(n)[0]))
        if ty.k == 'sb': return s.sb_value(n)
        if ty.k == 'vecs':
            if k == 'CXXConstructExpr' and not [x for x in KIDS(n) if x['kind'] != 'CXXDefaultArgExpr']: return V('Vec::<Sb>::new()', ty)
            s.err('vector<string> construction', n)
        if ty.k in ('fcr', 'rit'):
            if k == 'CXXConstructExpr' and len(KIDS(n)) == 1:
                e = KIDS(n)[0]; return s.rval(e) if e.get('valueCategory') == 'prvalue' else s.load(s.lval(e))
            return s.rval(n)
        if ty.k in ('str', 'tuple', 'ptr'):
            if k == 'CXXConstructExpr' and len(KIDS(n)) == 1:
                e = KIDS(n)[0]
                if ty.k == 'str' and s.ty(e).k == 'ptr' and rty(s.ty(e)) == 'Bp': return V(s.call('sv_cstr', 'sv_cstr(h, %s)' % s.simple(s.rval(e).c)), ty)
                v = s.rval(e) if e.get('valueCategory') == 'prvalue' else s.load(s.lval(e))
                if ty.k == 'tuple' and v.ty.k == 'tuple' and [rty(x) for x in ty.a] != [rty(x) for x in v.ty.a]:
                    c = s.tmp(v.c)
                    v = V('(%s)' % ', '.join(s.conv(V('%s.%d' % (c, i), x), rty(y)).c for i, (x, y) in enumerate(zip(v.ty.a, ty.a))), ty)
                return v
            return s.rval(n)
        if ty.k == 'sp': return s.construct_sp(n, dest)
        if ty.k != 'cls': s.err('construct %r' % ty, n)
        cls = ty.a
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            if n.get('elidable') and len(KIDS(n)) == 1 and strip(KIDS(n)[0]).get('valueCategory') == 'prvalue': return s.construct(KIDS(n)[0], dest)
            name = s.ctor_name(n, cls)
            args = KIDS(n)
            new = dest is None
            vals = s.args(name, args)
            if new: dest = s.alloc(cls)
            s.invoke(name, dest, vals, n)
            if new: s.temps[-1].append((cls, dest))
            return V(dest, ty)
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            r = s.callx(n, dest=dest)
            return r
        if k == 'InitListExpr' and not KIDS(n) or k == 'CXXDefaultInitExpr':
            new = dest is None
            if new: dest = s.alloc(cls); s.temps[-1].append((cls, dest))
            s.invoke(cls + '_ctor', dest, [], n); return V(dest, ty)
        if k == 'ConditionalOperator':
            c, a, b = KIDS(n)
            new = dest is None
            if new: dest = s.alloc(cls); s.temps[-1].append((cls, dest))
            cc = s.truth(c)
            for w, x in (('if %s {' % cc, a), ('} else {', b)):
                s.emit(w); s.ind += 1; s.temps.append([])
                s.pending.append((cls, dest)); s.construct(x, dest); s.flush(); s.temps.pop(); s.ind -= 1
            s.emit('}'); s.born(dest)
            return V(dest, ty)
        s.err('construct', n)

    def sb_value(s, n):
        """a std::string prvalue"""
        ty = Ty('sb'); k = n['kind']
        if k != 'CXXConstructExpr' and k != 'CXXTemporaryObjectExpr': return s.rval(n)
        a = [x for x in KIDS(n) if x['kind'] != 'CXXDefaultArgExpr']
        if not a: return V(s.call('sb_empty', 'sb_empty()'), ty)
        t0 = s.ty(a[0])
        if len(a) == 1:
            if t0.k == 'sb':
                e = a[0]
                while e['kind'] in ('ImplicitCastExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr') and e.get('castKind') in (None, 'NoOp', 'ConstructorConversion'): e = KIDS(e)[0]
                if e['kind'] == 'CallExpr' and strip_casts(KIDS(e)[0]).get('referencedDecl', {}).get('name') == 'move': e = KIDS(e)[1]
                return s.sb_arg(e)
            if t0.k == 'ptr' and rty(t0) == 'Bp': return V(s.call('sb_cstr', 'sb_cstr(h, %s)' % s.simple(s.rval(a[0]).c)), ty)
        if len(a) == 2 and t0.k == 'ptr' and rty(t0) == 'Bp':
            p = s.simple(s.rval(a[0]).c); c = s.simple(s.conv(s.rval(a[1]), 'u64').c)
            return V(s.call('sb_range', 'sb_range(h, %s, %s)' % (p, c)), ty)
        if len(a) == 2 and t0.k == 'scal' and s.ty(a[1]).k == 'scal':
            c = s.simple(s.conv(s.rval(a[0]), 'u64').c); x = s.simple(s.conv(s.rval(a[1]), 'i8').c)
            return V(s.call('sb_fill', 'sb_fill(%s, %s)' % (c, x)), ty)
        s.err('std::string construction', n)
    def sb_arg(s, e):
        if e.get('valueCategory') == 'prvalue': return s.construct(e, None)
        return s.load(s.lval(e))

    def construct_sp(s, n, dest):
        """shared_ptr<vector<uint32_t>> into the m_data of slice object dest"""
        if dest is None: s.err('temporary shared_ptr', n)
        a = KIDS(n)
        if n['kind'] == 'CXXConstructExpr' and a:
            e = strip(a[0])
            if e['kind'] == 'CXXNewExpr':
                c = s.newvec(e); s.call('sp_new', 'sp_new(h, %s, %s)' % (dest, c)); return V(dest, s.ty(n))
            if e.get('valueCategory') == 'xvalue' or e['kind'] == 'CallExpr':
                p = s.movearg(e); s.call('sp_move', 'sp_move(h, %s, %s)' % (dest, p[1]), bind=False); return V(dest, s.ty(n))
            p = s.lval(a[0])
            if p[0] == 'sp': s.call('sp_copy', 'sp_copy(h, %s, %s)' % (dest, p[1]), bind=False); return V(dest, s.ty(n))
        s.err('shared_ptr construction', n)
    def newvec(s, e):
        c = strip(KIDS(e)[0])
        if c['kind'] != 'CXXConstructExpr' or parse_type(qt(c)).k != 'vec': s.err('new', e)
        args = [x for x in KIDS(c) if x['kind'] != 'CXXDefaultArgExpr']
        if len(args) != 1: s.err('vector construction', e)
        v = s.rval(args[0])
        if v.ty.k != 'scal': s.err('vector construction', e)
        return s.conv(v, 'u64').c
    def movearg(s, e):
        e = strip(e)
        if e['kind'] == 'CallExpr':
            c = strip_casts(KIDS(e)[0])
            if c.get('referencedDecl', {}).get('name') in ('move', 'forward'): return s.lval(KIDS(e)[1])
        if e['kind'] == 'CXXStaticCastExpr': return s.lval(KIDS(e)[0])
        return s.lval(e)

    # ---------- calls
    def args(s, name, args, fd=None):
        """evaluate arguments for a repository function; returns list of V / places"""
        fd = fd or s.w.defs.get(name) or s.w.decls.get(name)
        if fd is None: s.err('call to unknown function ' + name)
        out = []
        for i, p in enumerate(fd.params):
            pt = parse_type(qt(p))
            a = args[i] if i < len(args) else None
            if a is None or a['kind'] == 'CXXDefaultArgExpr':
                # parameter default, from a declaration that has one
                d = None
                for cand in [fd] + [Fdef(fd.tu, x) for x in fd.tu.fns if x.get('name') == fd.d.get('name')]:
                    if cand.name == name and len(cand.params) > i:
                        init = [x for x in KIDS(cand.params[i]) if 'Expr' in x.get('kind', '') or 'Literal' in x.get('kind', '')]
                        if init: d = init[0]; break
                if d is None: s.err('default argument of ' + name)
                a = d
            later = [x for x in args[i + 1:]] if args else []
            out.append(s.arg(pt, a, name))
            if any(s.effects(x) for x in later):
                o = out[-1]
                if isinstance(o, V) and not re.match(r'(t\d+_|-?\d+\w*|true|false)$', o.c) and not o.c.startswith(('OUT:', 'mag_of(', 'frac_den(')) and o.ty.k == 'scal': out[-1] = V(s.tmp(o.c), o.ty)
        return out

    def arg(s, pt, a, name):
        if pt.k in ('ref', 'rref'):
            t = pt.a
            if t.k == 'cls':
                if a.get('valueCategory') == 'prvalue': return V(s.construct(a, None).c, t)
                p = s.movearg(a) if pt.k == 'rref' else s.lval(a)
                if p[0] != 'obj': s.err('class argument %r' % (p,))
                return V(p[2], t)
            if t.k == 'scal':
                if t.const:
                    if a.get('valueCategory') == 'prvalue': return s.rval(a)
                    return s.load(s.lval(a))
                return ('place', s.lval(a))
            if t.k == 'sb' : return s.sb_arg(a)
            if t.k in ('str', 'it', 'other', 'vecb', 'sp'):
                if a.get('valueCategory') == 'prvalue': return s.rval(a)
                p = s.lval(a); return s.load(p) if p[0] in ('var', 'const') else ('place', p)
        if pt.k == 'cls': return V(s.construct(a, None).c, pt)
        if pt.k == 'sb': return s.construct(a, None)
        if pt.k in ('it', 'str', 'vecb'): return s.construct(a, None) if strip(a)['kind'] == 'CXXConstructExpr' else (s.rval(a) if a.get('valueCategory') == 'prvalue' else s.load(s.lval(a)))
        v = s.rval(a)
        return v

    def callx(s, n, dest=None):
        k = n['kind']; ks = KIDS(n)
        tu = s.cx.fd.tu
        if k == 'CXXMemberCallExpr':
            me = strip(ks[0])
            if me['kind'] != 'MemberExpr': s.err('member call', n)
            base = KIDS(me)[0]; bt = s.ty(base); args = ks[1:]
            r = s.std_member(me, base, bt, args, n, dest)
            if r is not NotImplemented: return r
            name = s.w.lookup(tu, me['referencedMemberDecl'])
            if name is None: s.err('method %s of %r' % (me.get('name'), bt), n)
            if me.get('isArrow'): th = s.rval(base).c
            elif base.get('valueCategory') == 'prvalue': th = s.construct(base, None).c
            else: 
                p = s.lval(base)
                if p[0] != 'obj': s.err('method on %r' % (p,), n)
                th = p[2]
            vals = s.args(name, args)
            return s.invoke(name, th, vals, n, dest)
        if k == 'CXXOperatorCallExpr':
            fr = strip_casts(ks[0]); rd = fr.get('referencedDecl', {})
            opn = rd.get('name', ''); args = ks[1:]
            r = s.std_op(opn, args, n, dest)
            if r is not NotImplemented: return r
            name = s.w.lookup(tu, rd.get('id'))
            if name is None: s.err('operator ' + opn, n)
            fd = s.w.defs.get(name) or s.w.decls.get(name)
            if fd.is_method:
                # C++17: for assignment operators the right operand is evaluated first
                if opn.endswith('=') and opn not in ('operator==', 'operator!=', 'operator<=', 'operator>='):
                    vals = s.args(name, args[1:])
                    th = s.objid(args[0])
                else:
                    th = s.objid(args[0]); vals = s.args(name, args[1:])
                return s.invoke(name, th, vals, n, dest)
            return s.invoke(name, None, s.args(name, args), n, dest)
        if k == 'CallExpr':
            fr = strip_casts(ks[0]); rd = fr.get('referencedDecl', {}); args = ks[1:]
            if fr['kind'] == 'LambdaExpr': s.err('lambda call', n)
            r = s.std_fn(rd, args, n, dest)
            if r is not NotImplemented: return r
            name = s.w.lookup(tu, rd.get('id'))
            if name is None: s.err('function %s' % rd.get('name'), n)
            return s.invoke(name, None, s.args(name, args), n, dest)
        s.err('call', n)

    def objid(s, a):
        if a.get('valueCategory') == 'prvalue': return s.construct(a, None).c
        p = s.lval(a)
        if p[0] != 'obj': s.err('object expected, got %r' % (p,), a)
        return p[2]

    def invoke(s, name, th, vals, n, dest=None):
        con = s.cs.get(name)
        fd = s.w.defs.get(name)
        if fd is None and (con is None or not con.trusted): s.err('no definition of ' + name)
        fdd = fd or s.w.decls.get(name)
        for i, v in enumerate(vals):
            if isinstance(v, V) and '(' in v.c and not v.c.startswith(('mag_of(', 'frac_den(')): vals[i] = V(s.tmp(v.c), v.ty)
        if con is None: return s.inline(fd, th, vals, n, dest)
        s.callees.add(name)
        a = ['h']
        new = False
        if fdd.retslot:
            new = dest is None
            if new: dest = s.alloc(fdd.ret.a)
            a.append(dest)
        if fdd.is_method: a.append(th)
        for v in vals:
            if isinstance(v, tuple):
                p = v[1]
                if p[0] == 'var': a.append('&mut ' + p[1])
                elif p[0] == 'elem': a.append(p[1])
                else: s.err('reference argument %r' % (p,), n)
            elif v.c.startswith('OUT:'): a.append('&mut ' + v.c[4:])
            else: a.append(v.c)
        code = '%s(%s)' % (name, ', '.join(a))
        s.born(th); s.born(dest)
        if fdd.ret.k == 'void': s.call(name, code, bind=False); return None
        if fdd.retslot:
            s.call(name, code, bind=False)
            if new: s.temps[-1].append((fdd.ret.a, dest))
            return V(dest, fdd.ret)
        if fdd.ret.k == 'ref' and fdd.ret.a.k == 'cls':
            r = s.call(name, code); return ('obj', fdd.ret.a.a, r)
        r = s.call(name, code)
        if fdd.ret.k == 'ref' and fdd.ret.a.k == 'scal':
            if rty(fdd.ret) == 'It' : return ('elem', r)
            return V(r, fdd.ret.a)
        rt = rty(fdd.ret)
        if fdd.ret.k == 'ref' and fdd.ret.a.k == 'scal' and fdd.ret.a.a == 'u32': return ('elem', r)
        return V(r, fdd.ret)

    def inline(s, fd, th, vals, n, dest):
        if s.depth > 6: s.err('inlining too deep: ' + fd.name)
        if any(c.fd.name == fd.name for c in s.ctxs): s.err('recursion without a contract: ' + fd.name)
        s.inlined.append(fd.name)
        env = {}
        for p, v in zip(fd.params, vals):
            pt = parse_type(qt(p))
            if isinstance(v, tuple): env[p['id']] = v[1]
            elif pt.k in ('ref', 'rref') and pt.a.k == 'cls' or pt.k == 'cls': env[p['id']] = ('obj', (pt.a.a if pt.k != 'cls' else pt.a), v.c)
            elif v.c.startswith('OUT:'): env[p['id']] = ('const', v.c, v.ty)
            else:
                t = pt.a if pt.k in ('ref', 'rref') else pt
                nm = s.newname('a_' + (p.get('name') or 'p'), t); s.emit('let mut %s: %s = %s;' % (nm, rty(t), v.c))
                env[p['id']] = ('var', nm, t)
        ret = None; new = False
        if fd.retslot:
            new = dest is None
            if new: dest = s.alloc(fd.ret.a)
            ret = ('slot', dest)
        elif fd.ret.k != 'void':
            if fd.ret.k == 'ref' and fd.ret.a.k == 'cls': ret = ('refobj', None)
            else:
                s.tn += 1; nm = 'r%d_' % s.tn
                t = fd.ret.a if (fd.ret.k == 'ref' and fd.ret.a.k == 'scal' and fd.ret.a.const) else fd.ret
                s.emit('let %s: %s;' % (nm, rty(t))); ret = ('var', nm, t)
            if ret[0] == 'refobj':
                s.tn += 1; nm = 'r%d_' % s.tn; s.emit('let %s: %s;' % (nm, rty(fd.ret))); ret = ('refobj', nm)
        cx = Ctx(fd, env, th, ret, True)
        s.ctxs.append(cx); old = s.cx; s.cx = cx; s.depth += 1
        savetemps = s.temps; s.temps = [[]]
        saveloops = s.loopstack; s.loopstack = []
        cx.scopes.append([])
        if fd.is_ctor: s.ctor_inits(fd)
        ft = s.stmts(KIDS(fd.tu.body(fd.d)))
        if ft: s.unwind(cx.scopes)
        s.born(dest)
        if fd.is_ctor: s.born(th)
        s.loopstack = saveloops
        s.temps = savetemps
        s.depth -= 1; s.cx = old; s.ctxs.pop()
        if fd.ret.k == 'void': return None
        if fd.retslot:
            if new: s.temps[-1].append((fd.ret.a, dest))
            return V(dest, fd.ret)
        if ret[0] == 'refobj': return ('obj', fd.ret.a.a, ret[1])
        if fd.ret.k == 'ref' and fd.ret.a.k == 'scal' and not fd.ret.a.const and fd.ret.a.a == 'u32': return ('elem', ret[1])
        return V(ret[1], ret[2])

    # ---------- library calls
    def vecplace(s, base, arrow):
        """place of the vector an expression denotes: m_data-> / *m_data"""
        b = strip_casts(base)
        if b['kind'] == 'CXXOperatorCallExpr':
            opn = strip_casts(KIDS(b)[0]).get('referencedDecl', {}).get('name')
            if opn in ('operator->', 'operator*'):
                p = s.lval(KIDS(b)[1])
                if p[0] == 'sp': return p[1]
        return None

    def std_member(s, me, base, bt, args, n, dest):
        nm = me['name']
        b = strip_casts(base)
        btt = bt.a if bt.k == 'ptr' else bt
        bty = s.ty(b)
        # vector<uint32_t>
        if btt.k == 'vec' or (btt.k == 'other' and btt.a == 'element_type'):
            sl = s.vecplace(base, me.get('isArrow'))
            if sl is None: s.err('vector expression', n)
            if nm in ('begin', 'cbegin'): return V(s.call('vec_begin', 'vec_begin(h, %s)' % sl), Ty('it'))
            if nm in ('end', 'cend'): return V(s.call('vec_end', 'vec_end(h, %s)' % sl), Ty('it'))
            if nm == 'size': return V(s.call('vec_size', 'vec_size(h, %s)' % sl), Ty('scal', 'u64'))
            if nm == 'operator[]':
                return ('elem', s.call('vec_at', 'vec_at(h, %s, %s)' % (sl, s.conv(s.rval(args[0]), 'u64').c)))
            if nm == 'at': s.err('vector::at', n)
            if nm == 'resize' and len(args) == 1:
                v = s.conv(s.rval(args[0]), 'u64').c; s.call('vec_resize', 'vec_resize(h, %s, %s)' % (sl, s.simple(v)), bind=False); return None
            if nm in ('push_back', 'emplace_back'):
                v = s.arg(Ty('ref', Ty('scal', 'u32', True)), args[0], nm); s.call('vec_push_back', 'vec_push_back(h, %s, %s)' % (sl, s.simple(v.c)), bind=False); return None
            if nm == 'insert':
                pos = s.arg(Ty('it'), args[0], nm); pos = V(s.simple(pos.c), pos.ty)
                if len(args) == 3:
                    c = s.conv(s.rval(args[1]), 'u64'); c = s.simple(c.c)
                    v = s.arg(Ty('ref', Ty('scal', 'u32', True)), args[2], nm)
                    s.call('vec_insert_n', 'vec_insert_n(h, %s, %s, %s, %s)' % (sl, pos.c, c, s.simple(v.c)), bind=False); return V('it_dummy()', Ty('it'))
                if len(args) == 2:
                    v = s.arg(Ty('ref', Ty('scal', 'u32', True)), args[1], nm)
                    s.call('vec_insert_n', 'vec_insert_n(h, %s, %s, 1u64, %s)' % (sl, pos.c, s.simple(v.c)), bind=False); return V('it_dummy()', Ty('it'))
            s.err('vector::%s' % nm, n)
        # shared_ptr
        if bty.k == 'sp' or btt.k == 'sp':
            p = s.lval(b)
            if p[0] != 'sp': s.err('shared_ptr expression', n)
            if nm == 'operator bool': return V(s.call('sp_nonnull', 'sp_nonnull(h, %s)' % p[1]), Ty('scal', 'bool'))
            if nm == 'use_count': return V(s.call('sp_use_count', 'sp_use_count(h, %s)' % p[1]), Ty('scal', 'i64'))
            if nm == 'unique': return V('(%s == 1)' % s.call('sp_use_count', 'sp_use_count(h, %s)' % p[1]), Ty('scal', 'bool'))
            if nm == 'reset' and len(args) == 1 and strip(args[0])['kind'] == 'CXXNewExpr':
                c = s.newvec(strip(args[0])); s.call('sp_new', 'sp_new(h, %s, %s)' % (p[1], s.simple(c))); return None
            if nm == 'operator=':
                return s.sp_assign(p, args[0], n)
            if nm == 'swap':
                q = s.lval(args[0]); s.call('sp_swap', 'sp_swap(h, %s, %s)' % (p[1], q[1]), bind=False); return None
            s.err('shared_ptr::%s' % nm, n)
        if btt.k == 'vecb':
            p = s.lval(b)
            if p[0] != 'var': s.err('vector expression', n)
            v = p[1]
            if nm == 'emplace_back' or nm == 'push_back':
                d = s.alloc('Big')
                cname = 'Big_ctor' + {0: '', 1: None, 2: '_mS_i32'}.get(len(args))if len(args) != 1 else None
                if cname is None: s.err('emplace_back', n)
                vals = s.args(cname, args)
                s.invoke(cname, d, vals, n)
                s.call('vecb_push', 'vecb_push(h, &mut %s, %s)' % (v, d), bind=False); return ('obj', 'Big', d)
            if nm == 'size': return V('(%s.len() as u64)' % v, Ty('scal', 'u64'))
            if nm == 'back': return ('obj', 'Big', s.tmp('%s[%s.len() - 1]' % (v, v)))
            if nm == 'reserve': s.rval(args[0]); return None
            s.err('vector<BigIntegerImpl>::%s' % nm, n)
        if btt.k == 'vecs':
            p = s.lval(b)
            if p[0] != 'var': s.err('vector expression', n)
            v = p[1]
            if nm == 'size': return V('vecs_size(&%s)' % v, Ty('scal', 'u64'))
            if nm == 'empty': return V('(vecs_size(&%s) == 0)' % v, Ty('scal', 'bool'))
            if nm == 'reserve': s.rval(args[0]); return None
            if nm == 'back': return ('velem', v, '(vecs_size(&%s) - 1)' % v)
            if nm == 'front': return ('velem', v, '0')
            if nm == 'pop_back': s.call('vecs_pop', 'vecs_pop(&mut %s)' % v, bind=False); return None
            if nm in ('push_back', 'emplace_back'):
                if len(args) == 1: x = s.sb_arg(args[0]).c
                elif len(args) == 2:
                    a0 = strip(args[0])
                    pp = s.cx.env.get(a0.get('referencedDecl', {}).get('id')) if a0['kind'] == 'DeclRefExpr' else None
                    q = V(pp[1], None) if pp and pp[0] == 'arr' else (s.rval(args[0]) if args[0].get('valueCategory') == 'prvalue' else s.load(s.lval(args[0])))
                    c = s.rval(args[1]) if args[1].get('valueCategory') == 'prvalue' else s.arg(Ty('ref', Ty('scal', s.ty(args[1]).a, True)), args[1], nm)
                    x = s.call('sb_range', 'sb_range(h, %s, %s)' % (s.simple(q.c), s.simple(s.conv(c, 'u64').c)))
                else: s.err('vector<string>::%s' % nm, n)
                s.call('vecs_push', 'vecs_push(&mut %s, %s)' % (v, s.simple(x)), bind=False); return ('velem', v, '(vecs_size(&%s) - 1)' % v)
            if nm in ('rbegin', 'crbegin'): return V('0u64', Ty('rit', v))
            if nm in ('rend', 'crend'): return V('vecs_size(&%s)' % v, Ty('rit', v))
            s.err('vector<string>::%s' % nm, n)
        if btt.k == 'sb':
            if nm in ('size', 'length'): return V('sb_size(&%s)' % s.sb_ref(me, base).c, Ty('scal', 'u64'))
            if nm == 'empty': return V('(sb_size(&%s) == 0)' % s.sb_ref(me, base).c, Ty('scal', 'bool'))
            if nm == 'reserve':
                s.rval(args[0]); return None
            if nm == 'operator basic_string_view' and not args:
                # a view of a string, alive to the end of the full expression: a block of bytes with the string's characters
                b0 = s.sb_core(base)
                x = s.simple(s.construct(b0, None).c if b0.get('valueCategory') == 'prvalue' else s.load(s.lval(b0)).c)
                r = s.call('sb_c_str', 'sb_c_str(h, &%s)' % x); s.temps[-1].append(('bytes', r))
                return V(s.call('sb_view', 'sb_view(h, %s, &%s)' % (r, x)), Ty('str'))
            if nm in ('c_str', 'data') and not args and s.sb_core(base)['kind'] in ('CXXMemberCallExpr', 'CallExpr', 'CXXOperatorCallExpr') and s.sb_core(base).get('valueCategory') == 'prvalue':
                x = s.simple(s.construct(s.sb_core(base), None).c)
                r = s.call('sb_c_str', 'sb_c_str(h, &%s)' % x); s.temps[-1].append(('bytes', r)); return V(r, Ty('ptr', Ty('scal', 'i8')))
            p = s.lval(base) if not me.get('isArrow') else s.err('string via pointer', n)
            if p[0] != 'var': s.err('string object', n)
            if nm == 'append':
                ts = [s.ty(x) for x in args]
                if len(args) == 2 and rty(ts[0]) == 'Bp':
                    q = s.simple(s.rval(args[0]).c); c = s.simple(s.conv(s.rval(args[1]), 'u64').c)
                    x = s.call('sb_range', 'sb_range(h, %s, %s)' % (q, c))
                elif len(args) == 1 and ts[0].k == 'sb': x = s.simple(s.sb_arg(args[0]).c)
                elif len(args) == 1 and ts[0].k == 'ptr': x = s.call('sb_cstr', 'sb_cstr(h, %s)' % s.simple(s.rval(args[0]).c))
                elif len(args) == 2 and ts[0].k == 'scal': x = s.call('sb_fill', 'sb_fill(%s, %s)' % (s.simple(s.conv(s.rval(args[0]), 'u64').c), s.simple(s.conv(s.rval(args[1]), 'i8').c)))
                else: s.err('string::append', n)
                s.call('sb_append', 'sb_append(&mut %s, %s)' % (p[1], x), bind=False); return p
            if nm == 'push_back': s.call('sb_append', 'sb_append(&mut %s, sb_fill(1u64, %s))' % (p[1], s.simple(s.conv(s.rval(args[0]), 'i8').c)), bind=False); return None
            if nm == 'insert' and len(args) == 3 and s.ty(args[0]).k == 'scal' and s.ty(args[1]).k == 'scal':
                a = s.simple(s.conv(s.rval(args[0]), 'u64').c); c = s.simple(s.conv(s.rval(args[1]), 'u64').c); x = s.simple(s.conv(s.rval(args[2]), 'i8').c)
                s.call('sb_insert_n', 'sb_insert_n(&mut %s, %s, %s, %s)' % (p[1], a, c, x), bind=False); return p
            s.err('string::%s' % nm, n)
        if btt.k == 'str':
            p = s.lval(b) if not me.get('isArrow') else None
            sv = s.load(p).c
            if nm in ('size', 'length'): return V('%s.len' % sv, Ty('scal', 'u64'))
            if nm == 'empty': return V('(%s.len == 0)' % sv, Ty('scal', 'bool'))
            if nm == 'data': return V('str_data(%s)' % sv, Ty('ptr', Ty('scal', 'i8')))
            if nm == 'find_last_of' or nm == 'find_first_not_of':
                c = s.conv(s.rval(args[0]), 'i8').c
                a2 = args[1] if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else None
                p2 = s.conv(s.rval(a2), 'u64').c if a2 else ('0xffff_ffff_ffff_ffffu64' if nm == 'find_last_of' else '0u64')
                return V(s.call('str_' + nm, 'str_%s(h, %s, %s, %s)' % (nm, sv, c, s.simple(p2))), Ty('scal', 'u64'))
            s.err('string_view::%s' % nm, n)
        if btt.k == 'up':
            p = s.lval(b)
            if p[0] == 'up' and nm == 'reset' and args and args[0]['kind'] != 'CXXDefaultArgExpr':
                d = s.newbig(args[0])
                if d is not None:
                    s.call('int_reset', 'int_reset(h, %s, %s)' % (p[1], d), bind=False); s.born(d); return None
            if p[0] == 'up' and nm == 'reset': s.call('int_clear', 'int_clear(h, %s)' % p[1], bind=False); return None
            if p[0] == 'up' and nm == 'get': return V(s.call('int_get_impl', 'int_get_impl(h, %s)' % p[1]), Ty('ptr', Ty('cls', 'Big')))
            if p[0] == 'up' and nm == 'operator bool': return V('(%s != 0)' % s.call('int_get_impl', 'int_get_impl(h, %s)' % p[1]), Ty('scal', 'bool'))
            if p[0] == 'up' and nm == 'swap':
                q = s.lval(args[0])
                if q[0] == 'up': s.call('int_swap', 'int_swap(h, %s, %s)' % (p[1], q[1]), bind=False); return None
            s.err('unique_ptr::%s' % nm, n)
        return NotImplemented

    def sb_core(s, e):
        while e['kind'] in ('ImplicitCastExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr') and e.get('castKind') in (None, 'NoOp'): e = KIDS(e)[0]
        return e
    def sb_ref(s, me, base):
        if me.get('isArrow'):
            e = strip_casts(base)
            if e['kind'] == 'CXXOperatorCallExpr' and s.ty(KIDS(e)[1]).k == 'rit': return s.load(s.rit_elem(KIDS(e)[1]))
            s.err('string via pointer', base)
        if base.get('valueCategory') == 'prvalue': return V(s.simple(s.construct(base, None).c), Ty('sb'))
        return s.load(s.lval(base))
    def rit_elem(s, e):
        p = s.lval(e)
        if p[0] not in ('var', 'const') or not p[2].a: s.err('reverse iterator', e)
        return ('velem', p[2].a, 'rit_idx(&%s, %s)' % (p[2].a, p[1]))

    def simple(s, c):
        return s.tmp(c) if '(' in c and not c.startswith(('mag_of(', 'frac_den(')) else c

    def sp_assign(s, p, a, n):
        e = strip(a)
        if e.get('valueCategory') == 'xvalue' and e['kind'] == 'CallExpr' or e['kind'] == 'CXXStaticCastExpr':
            q = s.movearg(e)
            if q[0] != 'sp': s.err('shared_ptr move', n)
            s.call('sp_move', 'sp_move(h, %s, %s)' % (p[1], q[1]), bind=False)
        else:
            q = s.lval(a)
            if q[0] != 'sp': s.err('shared_ptr copy', n)
            s.call('sp_copy', 'sp_copy(h, %s, %s)' % (p[1], q[1]), bind=False)
        return p

    def std_op(s, opn, args, n, dest):
        ts = [s.ty(a) for a in args]
        t0 = ts[0]
        a0 = strip_casts(args[0])
        if t0.k == 'sp' or s.ty(a0).k == 'sp':
            if opn == 'operator=': return s.sp_assign(s.lval(a0), args[1], n)
            if opn in ('operator==', 'operator!='):
                p = s.lval(args[0]); q = s.lval(args[1])
                if p[0] != 'sp' or q[0] != 'sp': s.err('shared_ptr comparison', n)
                r = s.call('sp_eq', 'sp_eq(h, %s, %s)' % (p[1], q[1]))
                return V(r if opn == 'operator==' else '!' + r, Ty('scal', 'bool'))
        if t0.k == 'vec':
            if opn == 'operator[]':
                sl = s.vecplace(args[0], False)
                if sl is None: s.err('vector expression', n)
                return ('elem', s.call('vec_at', 'vec_at(h, %s, %s)' % (sl, s.conv(s.rval(args[1]), 'u64').c)))
        if t0.k == 'it' or (len(ts) > 1 and ts[1].k == 'it'):
            def iv(a): return s.rval(a) if a.get('valueCategory') == 'prvalue' else s.load(s.lval(a))
            if opn == 'operator*': return ('elem', iv(args[0]).c)
            if opn in ('operator++', 'operator--'):
                p = s.lval(args[0]); old = s.load(p)
                if len(args) > 1: old = V(s.tmp(old.c), old.ty)
                s.store(p, 'it_%s(%s, 1i64)' % ('add' if opn == 'operator++' else 'sub', old.c))
                return old if len(args) > 1 else p
            if opn in ('operator+=', 'operator-='):
                p = s.lval(args[0]); v = s.conv(s.rval(args[1]), 'i64')
                s.store(p, 'it_%s(%s, %s)' % ('add' if opn == 'operator+=' else 'sub', s.load(p).c, v.c)); return p
            if opn in ('operator+', 'operator-'):
                a = iv(args[0])
                b = iv(args[1])
                if b.ty.k == 'it' and a.ty.k == 'it': return V('it_diff(%s, %s)' % (a.c, b.c), Ty('scal', 'i64'))
                return V('it_%s(%s, %s)' % ('add' if opn == 'operator+' else 'sub', a.c, s.conv(b, 'i64').c), Ty('it'))
            if opn in ('operator<', 'operator>', 'operator<=', 'operator>=', 'operator==', 'operator!='):
                a = iv(args[0]); b = iv(args[1])
                return V('it_%s(%s, %s)' % ({'<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge', '==': 'eq', '!=': 'ne'}[opn[8:]], a.c, b.c), Ty('scal', 'bool'))
            if opn == 'operator=':
                b = iv(args[1]); p = s.lval(args[0]); s.store(p, b.c); return p
            if opn == 'operator[]': 
                a = iv(args[0]); return ('elem', 'it_add(%s, %s)' % (a.c, s.conv(s.rval(args[1]), 'i64').c))
            s.err('iterator %s' % opn, n)
        if t0.k == 'rit':
            if opn == 'operator*': return s.rit_elem(args[0])
            if opn in ('operator++', 'operator--'):
                p = s.lval(args[0]); old = s.load(p)
                if len(args) > 1: old = V(s.tmp(old.c), old.ty)
                s.store(p, '(%s %s 1)' % (old.c, '+' if opn == 'operator++' else '-')); return old if len(args) > 1 else p
            if opn in ('operator<', 'operator>', 'operator<=', 'operator>=', 'operator==', 'operator!='):
                a, b = [s.rval(x) if x.get('valueCategory') == 'prvalue' else s.load(s.lval(x)) for x in args]
                if a.ty.a != b.ty.a: s.err('iterators of different vectors', n)
                return V('(%s %s %s)' % (a.c, opn[8:], b.c), Ty('scal', 'bool'))
            s.err('reverse iterator %s' % opn, n)
        if t0.k == 'sb' and opn == 'operator=' :
            v = s.simple(s.sb_arg(args[1]).c) if ts[1].k == 'sb' else s.call('sb_cstr', 'sb_cstr(h, %s)' % s.simple(s.rval(args[1]).c)) if rty(ts[1]) == 'Bp' else s.err('string assignment', n)
            p = s.lval(args[0]); s.store(p, v); return p
        if t0.k == 'sb' and opn == 'operator+=' and t0.k == 'sb':
            x = s.sb_piece(args[1]); p = s.lval(args[0])
            if p[0] != 'var': s.err('string object', n)
            s.call('sb_append', 'sb_append(&mut %s, %s)' % (p[1], x), bind=False); return p
        if opn == 'operator+' and s.ty(n).k == 'sb' and len(args) == 2:
            a = s.sb_piece(args[0]); b = s.sb_piece(args[1])
            return V(s.call('sb_concat', 'sb_concat(%s, %s)' % (a, b)), Ty('sb'))
        if t0.k == 'vecb' and opn == 'operator[]':
            p = s.lval(args[0]); i = s.conv(s.rval(args[1]), 'u64').c
            return ('obj', 'Big', s.tmp('%s[%s as usize]' % (p[1], i)))
        if t0.k == 'other' and 'Status' in t0.a and opn == 'operator=':
            v = s.conv(s.rval(args[1]), 'u32'); s.call('status_set', 'status_set(h, %s)' % v.c, bind=False); return ('status',)
        if s.ty(a0).k == 'up' or t0.k == 'up':
            p = s.lval(a0)
            if p[0] == 'up' and opn in ('operator->',): return V(s.call('int_impl', 'int_impl(h, %s)' % p[1]), Ty('ptr', Ty('cls', 'Big')))
            if p[0] == 'up' and opn in ('operator*',): return ('obj', 'Big', s.call('int_impl', 'int_impl(h, %s)' % p[1]))
            if p[0] == 'up' and opn == 'operator=':
                e = strip_casts(args[1])
                if e['kind'] == 'CXXNullPtrLiteralExpr' or any(x['kind'] == 'CXXNullPtrLiteralExpr' for x in walk(e)):
                    s.call('int_clear', 'int_clear(h, %s)' % p[1], bind=False); return p
                d = s.newbig(args[1])
                if d is not None: s.call('int_reset', 'int_reset(h, %s, %s)' % (p[1], d), bind=False); s.born(d); return p
                q = s.movearg(e)
                if q[0] == 'up': s.call('int_move', 'int_move(h, %s, %s)' % (p[1], q[1]), bind=False); return p
            s.err('unique_ptr %s' % opn, n)
        return NotImplemented

    def sb_piece(s, e):
        t = s.ty(e)
        if t.k == 'sb': return s.simple(s.sb_arg(e).c)
        if t.k == 'scal': return s.call('sb_fill', 'sb_fill(1u64, %s)' % s.simple(s.conv(s.rval(e), 'i8').c))
        if rty(t) == 'Bp': return s.call('sb_cstr', 'sb_cstr(h, %s)' % s.simple(s.rval(e).c))
        s.err('string operand', e)

    def std_fn(s, rd, args, n, dest):
        nm = rd.get('name'); rid = rd.get('id')
        tu = s.cx.fd.tu
        ts = [s.ty(a) for a in args]
        if nm in ('move', 'forward') and len(args) == 1: return s.lval(args[0])
        if nm in ('max', 'min') and len(args) == 2 and rid not in tu.byid:
            a = s.arg(Ty('ref', Ty('scal', ts[0].a, True)), args[0], nm); a = V(s.simple(a.c), a.ty)
            b = s.arg(Ty('ref', Ty('scal', ts[1].a, True)), args[1], nm); b = V(s.simple(b.c), b.ty)
            if a.ty.k != 'scal' or a.ty.a != b.ty.a: s.err(nm, n)
            return V('(if %s < %s { %s } else { %s })' % ((a.c, b.c, b.c, a.c) if nm == 'max' else (b.c, a.c, b.c, a.c)), a.ty)
        if nm == 'swap' and (rid not in tu.byid or parse_type(qt(args[0])).k != 'cls'):
            p, q = s.lval(args[0]), s.lval(args[1])
            if p[0] == 'sp': s.call('sp_swap', 'sp_swap(h, %s, %s)' % (p[1], q[1]), bind=False); return None
            if p[0] in ('lo', 'hi', 'flags', 'lazy', 'var', 'elem'):
                a = s.load(p); a = V(s.tmp(a.c), a.ty) if p[0] == 'var' else a
                b = s.load(q); s.store(p, b.c); s.store(q, a.c); return None
            if p[0] == 'obj' and p[1] == 'Int' and q[0] == 'obj':
                # std::swap is one move construction and two move assignments
                s.temps.append([]); c = s.alloc('Int'); s.invoke('Int_ctor_mI', c, [V(q[2] if False else p[2], Ty('cls', 'Int'))], n)
                s.invoke('Int_op_assign_mI', p[2], [V(q[2], Ty('cls', 'Int'))], n); s.invoke('Int_op_assign_mI', q[2], [V(c, Ty('cls', 'Int'))], n)
                s.kill('Int', c); s.temps.pop(); return None
            if p[0] == 'obj':
                s.err('std::swap of class', n)
        if rid not in tu.byid:
            if nm == 'copy' and len(args) == 3:
                v = [V(s.simple(s.arg(Ty('it'), a, nm).c), None) for a in args]
                s.call('std_copy', 'std_copy(h, %s, %s, %s)' % tuple(x.c for x in v), bind=False); return V('it_dummy()', Ty('it'))
            if nm == 'fill' and len(args) == 3:
                a = s.simple(s.arg(Ty('it'), args[0], nm).c); b = s.simple(s.arg(Ty('it'), args[1], nm).c)
                v = s.conv(s.arg(Ty('ref', Ty('scal', 'u32', True)), args[2], nm), 'u32')
                s.call('std_fill', 'std_fill(h, %s, %s, %s)' % (a, b, s.simple(v.c)), bind=False); return None
            if nm == 'fill_n' and len(args) == 3:
                a = s.simple(s.arg(Ty('it'), args[0], nm).c); b = s.simple(s.conv(s.rval(args[1]), 'u64').c)
                v = s.conv(s.arg(Ty('ref', Ty('scal', 'u32', True)), args[2], nm), 'u32')
                s.call('std_fill_n', 'std_fill_n(h, %s, %s, %s)' % (a, b, s.simple(v.c)), bind=False); return V('it_dummy()', Ty('it'))
            if nm == 'memcpy':
                d = s.voidptr(args[0]); r = s.voidptr(args[1]); c = s.simple(s.conv(s.rval(args[2]), 'u64').c)
                kk = (rty(d.ty), rty(r.ty))
                f = {('It', 'It'): 'memcpy_limbs', ('Bp', 'It'): 'memcpy_lb', ('It', 'Bp'): 'memcpy_bl', ('Bp', 'Bp'): 'memcpy_bb'}[kk]
                s.call(f, '%s(h, %s, %s, %s)' % (f, s.simple(d.c), s.simple(r.c), c), bind=False); return None
            if nm == 'memset':
                d = s.voidptr(args[0]); v = s.conv(s.rval(args[1]), 'i32').c; c = s.simple(s.conv(s.rval(args[2]), 'u64').c)
                f = 'memset_l' if rty(d.ty) == 'It' else 'memset_b'
                s.call(f, '%s(h, %s, %s, %s)' % (f, s.simple(d.c), v, c), bind=False); return None
            if nm == 'reverse' and len(args) == 2:
                a = s.rval(args[0]); b = s.rval(args[1])
                if rty(a.ty) == 'Bp': s.call('bp_reverse', 'bp_reverse(h, %s, %s)' % (s.simple(a.c), s.simple(b.c)), bind=False); return None
            if nm == 'malloc':
                c = s.simple(s.conv(s.rval(args[0]), 'u64').c); return V(s.call('bp_malloc', 'bp_malloc(h, %s)' % c), s.ty(n))
            if nm == 'free':
                v = s.rval(args[0]); s.call('bp_free', 'bp_free(h, %s)' % s.simple(v.c), bind=False); return None
            if nm == 'from_chars' and len(args) in (3, 4):
                a = s.simple(s.rval(args[0]).c); b = s.simple(s.rval(args[1]).c); p = s.lval(args[2])
                if p[0] != 'var' or p[2].k != 'scal' or p[2].a not in ('u32', 'u64'): s.err('from_chars', n)
                x = s.simple(s.conv(s.rval(args[3]), 'i32').c) if len(args) > 3 and args[3]['kind'] != 'CXXDefaultArgExpr' else '10i32'
                return V(s.call('from_chars', 'from_chars_%s(h, %s, %s, &mut %s, %s)' % (p[2].a, a, b, p[1], x)), Ty('fcr'))
            if nm == 'to_chars' and len(args) in (3, 4):
                a = s.simple(s.rval(args[0]).c); b = s.simple(s.rval(args[1]).c); w = s.rval(args[2])
                if w.ty.k != 'scal' or w.ty.a not in ('u32', 'u64'): s.err('to_chars', n)
                x = s.simple(s.conv(s.rval(args[3]), 'i32').c) if len(args) > 3 and args[3]['kind'] != 'CXXDefaultArgExpr' else '10i32'
                return V(s.call('to_chars', 'to_chars_u64(h, %s, %s, %s, %s)' % (a, b, s.simple(s.conv(w, 'u64').c), x)), Ty('fcr'))
            if nm == 'find_if' and len(args) == 3: return s.find_if(args, n)
            if nm == 'make_tuple':
                vs = []
                tt = s.ty(n)
                for a in args:
                    v = s.rval(a) if a.get('valueCategory') == 'prvalue' else s.load(s.lval(a))
                    vs.append(v)
                return V('(%s)' % ', '.join(v.c for v in vs), Ty('tuple', [v.ty for v in vs]))
            if nm in ('__builtin_clz',): return V(s.call('util_clz', 'util_clz(%s)' % s.rval(args[0]).c), Ty('scal', 'i32'))
            if nm == '__assert_fail': return None
            if nm == 'advance' : s.err('advance', n)
        if nm == 'getInstance' and 'Status' in qt(n): return ('status',)
        if nm in ('clz', 'ctz', 'popcnt') and ts and ts[0].k == 'scal':
            v = s.arg(ts[0], args[0], nm); f = 'util_' + nm
            return V(s.call(f, '%s(%s)' % (f, s.simple(v.c))), Ty('scal', 'i32'))
        return NotImplemented

    def voidptr(s, a):
        e = a
        while e['kind'] in ('ImplicitCastExpr', 'CXXReinterpretCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr') and e.get('castKind') in ('BitCast', 'NoOp'): e = KIDS(e)[0]
        v = s.rval(e)
        return v

    def find_if(s, args, n):
        a = s.arg(Ty('it'), args[0], 'find_if'); b = s.arg(Ty('it'), args[1], 'find_if')
        lam = strip_casts(args[2])
        if lam['kind'] == 'CXXConstructExpr': lam = strip_casts(KIDS(lam)[0])
        if lam['kind'] != 'LambdaExpr': s.err('find_if predicate', n)
        op = [x for r in KIDS(lam) if r.get('kind') == 'CXXRecordDecl' for x in KIDS(r) if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()']
        body = [x for x in KIDS(op[0]) if x['kind'] == 'CompoundStmt']
        prm = [x for x in KIDS(op[0]) if x['kind'] == 'ParmVarDecl']
        if len(KIDS(body[0])) != 1 or KIDS(body[0])[0]['kind'] != 'ReturnStmt': s.err('find_if predicate body', n)
        e = KIDS(KIDS(body[0])[0])[0]
        s.tn += 1; it = 'fi%d_' % s.tn; en = 'fe%d_' % s.tn
        it = s.newname('find_it', Ty('it')); en = s.newname('find_end', Ty('it'))
        s.emit('let mut %s: It = %s;' % (it, a.c)); s.emit('let %s: It = %s;' % (en, b.c))
        lk = s.loop_begin()
        s.emit('if !it_ne(%s, %s) { break; }' % (it, en))
        x = s.call('it_get', 'it_get(h, %s)' % it)
        s.cx.env[prm[0]['id']] = ('const', x, Ty('scal', 'u32'))
        c = s.truth(e)
        s.emit('if %s { break; }' % c)
        s.emit('%s = it_add(%s, 1i64);' % (it, it))
        s.loop_end(lk)
        return V(it, Ty('it'))

    # ---------- statements
    def flush(s):
        for cls, idc in reversed(s.temps[-1]): s.kill(cls, idc)
        s.temps[-1] = []

    def full(s, f):
        """full-expression: temporaries die at its end"""
        s.temps.append([])
        r = f()
        if s.temps[-1] and isinstance(r, V) and not re.match(r'\w+$', r.c): r = V(s.tmp(r.c), r.ty)
        s.flush(); s.temps.pop()
        return r

    def unwind(s, scopes):
        for sc in reversed(scopes):
            for cls, idc in reversed(sc): s.kill(cls, idc)

    def block(s, stmts):
        """returns True if control can fall through"""
        s.cx.scopes.append([])
        ft = s.stmts(stmts)
        if ft: s.unwind(s.cx.scopes[-1:])
        s.cx.scopes.pop()
        return ft

    def stmts(s, L):
        L = [x for x in L if x.get('kind')]
        for i, st in enumerate(L):
            k = st['kind']
            if k == 'CompoundStmt' and s.cx.inline and contains(st, ('ReturnStmt',)):
                # flatten: scopes of the block end with the function here
                return s.stmts(KIDS(st) + L[i + 1:])
            if k == 'IfStmt' and s.cx.inline and contains(st, ('ReturnStmt',)):
                return s.if_inline(st, L[i + 1:])
            if not s.stmt(st): return False
        return True

    def if_parts(s, st):
        ks = list(KIDS(st)); init = var = els = None
        if st.get('hasInit'): init = ks.pop(0)
        if st.get('hasVar'): var = ks.pop(0)
        cond = ks.pop(0); then = ks.pop(0)
        if st.get('hasElse'): els = ks.pop(0)
        return init, var, cond, then, els

    def if_inline(s, st, rest):
        init, var, cond, then, els = s.if_parts(st)
        if init: s.stmt(init)
        if var: s.err('condition declaration', st)
        c = s.constcond(cond)
        if c is True: return s.stmts([then] + rest)
        if c is False: return s.stmts(([els] if els else []) + rest)
        cc = s.full(lambda: V(s.truth(cond), Ty('scal', 'bool'))).c
        sc = [list(x) for x in s.cx.scopes]; env = dict(s.cx.env)
        s.emit('if %s {' % cc); s.ind += 1
        f1 = s.stmts([then] + rest)
        if f1: s.unwind(s.cx.scopes)
        s.ind -= 1; s.cx.scopes = [list(x) for x in sc]; s.cx.env = dict(env)
        s.emit('} else {'); s.ind += 1
        f2 = s.stmts(([els] if els else []) + rest)
        if f2: s.unwind(s.cx.scopes)
        s.ind -= 1; s.cx.scopes = [list(x) for x in sc]; s.cx.env = env
        s.emit('}')
        return False

    def constcond(s, cond):
        c = strip(cond)
        if cond.get('kind') == 'ConstantExpr' and 'value' in cond: return str(cond['value']).lower() in ('true', '1')
        v = s.const_eval(cond, s.cx.fd.tu)
        if v is not None: return bool(v)
        return None

    def is_debug_assert(s, st):
        if st['kind'] != 'ForStmt': return None
        ks = KIDS(st)
        if len(ks) != 5: return None
        if ks[0].get('kind') or ks[1].get('kind') or ks[3].get('kind'): return None
        if any(x.get('referencedDecl', {}).get('name') == '__assert_fail' or x.get('foundReferencedDecl', {}).get('name') == '__assert_fail' for x in walk(ks[4])) and contains(ks[4], ('BreakStmt',)):
            return ks[2]
        return None

    def stmt(s, st):
        k = st['kind']
        if k == 'NullStmt': return True
        if k == 'CompoundStmt': return s.block(KIDS(st))
        if k == 'DeclStmt':
            for d in KIDS(st): s.decl(d)
            return True
        if k == 'IfStmt': return s.if_(st)
        c = s.is_debug_assert(st)
        if c is not None:
            cs = strip(c)
            if cs['kind'] == 'UnaryOperator' and cs['opcode'] == '!': e = KIDS(cs)[0]
            else: s.err('debug assertion shape', st)
            v = s.full(lambda: V(s.truth(e), Ty('scal', 'bool'))).c
            s.emit('debug_assert_(%s);' % v, ('dbgassert', None))
            return True
        if k == 'WhileStmt':
            ks = KIDS(st)
            if st.get('hasVar'): s.err('while declaration', st)
            return s.loop(None, ks[0], None, ks[1])
        if k == 'ForStmt':
            ks = KIDS(st)
            if ks[1].get('kind'): s.err('for condition declaration', st)
            s.cx.scopes.append([])
            if ks[0].get('kind'): s.stmt(ks[0])
            ft = s.loop(None, ks[2] if ks[2].get('kind') else None, ks[3] if ks[3].get('kind') else None, ks[4])
            if ft: s.unwind(s.cx.scopes[-1:])
            s.cx.scopes.pop(); return ft
        if k == 'DoStmt':
            body, cond = KIDS(st)
            if s.constcond(cond) is False and not break_inside(body): return s.stmt(body)
            return s.loop(None, cond, None, body, do=True)
        if k == 'ReturnStmt': return s.ret(st)
        if k == 'BreakStmt':
            lk, inc, depth = s.loopstack[-1]
            s.unwind(s.cx.scopes[depth:])
            s.hint('break %d' % lk)
            s.emit('break;'); return False
        if k == 'ContinueStmt':
            lk, inc, depth = s.loopstack[-1]
            s.unwind(s.cx.scopes[depth:])
            if inc == 'do': s.err('continue in do-while', st)
            if inc: s.full(lambda: s.discard(inc))
            s.hint('loop %d end' % lk)
            s.emit('continue;'); return False
        if k == 'SwitchStmt': return s.switch(st)
        if k in ('StaticAssertDecl', 'UsingDecl'): return True
        # expression statement
        s.full(lambda: s.discard(st))
        return True

    def if_(s, st):
        init, var, cond, then, els = s.if_parts(st)
        s.cx.scopes.append([])
        if init: s.stmt(init)
        if var: s.err('condition declaration', st)
        c = s.constcond(cond)
        if c is not None:
            ft = s.stmt(then) if c else (s.stmt(els) if els else True)
        else:
            cc = s.full(lambda: V(s.truth(cond), Ty('scal', 'bool'))).c
            env = dict(s.cx.env)
            s.emit('if %s {' % cc); s.ind += 1; f1 = s.block([then]); s.ind -= 1
            s.cx.env = dict(env)
            f2 = True
            if els:
                s.emit('} else {'); s.ind += 1; f2 = s.block([els]); s.ind -= 1
                s.cx.env = dict(env)
            s.emit('}')
            ft = f1 or f2
        if ft: s.unwind(s.cx.scopes[-1:])
        s.cx.scopes.pop()
        return ft

    def loop_begin(s):
        lk = s.loopn; s.loopn += 1
        lp = s.con.loops.get(lk)
        s.hint('loop %d before' % lk)
        s.emit('let ghost hL%d = h@;' % lk)
        iso = lp and lp.get('iso')
        if not iso: s.emit('#[verifier::loop_isolation(false)]')
        s.emit('loop', ('loop', lk))
        if lp:
            if lp['inv']:
                s.emit('  invariant')
                for t, x, l in lp['inv']: s.emit('    %s,' % x, ('inv', t, lk))
            if lp.get('exit'): s.emit('  ensures %s,' % lp['exit'], ('inv', '', lk))
            if lp['dec']: s.emit('  decreases %s,' % lp['dec'], ('dec', lk))
        s.emit('{'); s.ind += 1
        s.emit('let ghost hB%d = h@;' % lk)
        s.hint('loop %d start' % lk)
        return lk
    def loop_end(s, lk):
        s.ind -= 1; s.emit('}')
        s.hint('loop %d after' % lk)

    def loop(s, _, cond, inc, body, do=False):
        if s.cx.inline and contains(body, ('ReturnStmt',)): s.err('return inside a loop of an inlined function')
        lk = s.loop_begin()
        env = dict(s.cx.env)
        s.loopstack.append((lk, 'do' if do else inc, len(s.cx.scopes)))
        def test():
            if cond is None: return
            c = s.constcond(cond)
            if c is True: return
            v = s.full(lambda: V(s.truth(cond), Ty('scal', 'bool'))).c
            s.emit('if !%s {' % paren(v)); s.ind += 1; s.hint('exit %d' % lk); s.emit('break;'); s.ind -= 1; s.emit('}')
        infinite = cond is None or s.constcond(cond) is True
        if not do: test(); s.hint('loop %d body' % lk)
        ft = s.block([body])
        if ft:
            if do: test()
            elif inc: s.full(lambda: s.discard(inc))
            s.hint('loop %d end' % lk)
        s.loopstack.pop()
        s.cx.env = env
        s.loop_end(lk)
        if infinite and not break_inside_body(body): return False
        return True

    def switch(s, st):
        ks = KIDS(st)
        if st.get('hasInit') or st.get('hasVar'): s.err('switch declaration', st)
        cond, body = ks[0], ks[1]
        v = s.full(lambda: s.rval(cond))
        vn = s.tmp(v.c)
        # segments
        segs = []; cur = None
        for x in KIDS(body):
            lab = []
            while x['kind'] in ('CaseStmt', 'DefaultStmt'):
                if x['kind'] == 'CaseStmt':
                    kk = KIDS(x); cv = s.const_eval(kk[0], s.cx.fd.tu)
                    if cv is None: s.err('case label', x)
                    lab.append(wrap(cv, v.ty.a)); x = kk[-1]
                else: lab.append(None); x = KIDS(x)[0]
            if lab: cur = [lab, []]; segs.append(cur)
            if cur is None: s.err('switch body', st)
            cur[1].append(x)
        for i, (lab, body_) in enumerate(segs):
            def ends(b): 
                return b and (b[-1]['kind'] in ('BreakStmt', 'ReturnStmt') or (b[-1]['kind'] == 'CompoundStmt' and ends(KIDS(b[-1]))))
            if not ends(body_) and i != len(segs) - 1: s.err('switch fall-through', st)
            if any(break_inside(x) for x in body_[:-1]): s.err('break inside a case', st)
            if body_ and body_[-1]['kind'] == 'BreakStmt': body_.pop()
            elif body_ and body_[-1]['kind'] == 'CompoundStmt' and KIDS(body_[-1]) and KIDS(body_[-1])[-1]['kind'] == 'BreakStmt':
                body_[-1] = dict(body_[-1], inner=KIDS(body_[-1])[:-1])
            if any(break_inside(x) for x in body_ if s.is_debug_assert(x) is None): s.err('break inside a case', st)
        order = [x for x in segs if None not in x[0]] + [x for x in segs if None in x[0]]
        if s.cx.inline and contains(body, ('ReturnStmt',)): s.err('return in switch of an inlined function')
        anyft = not any(None in x[0] for x in segs)
        first = True; env = dict(s.cx.env)
        for lab, b in order:
            if None in lab: s.emit('%s{' % ('' if first else '} else ')) if not first else s.emit('{')
            else: s.emit('%sif %s {' % ('' if first else '} else ', ' || '.join('%s == %s' % (vn, s.lit(c, v.ty.a)) for c in lab)))
            first = False
            s.ind += 1; anyft = s.block(b) or anyft; s.ind -= 1; s.cx.env = dict(env)
        s.emit('}')
        return anyft

    def ret(s, st):
        ks = [x for x in KIDS(st) if x.get('kind')]
        fd = s.cx.fd; top = not s.cx.inline
        code = None
        if ks:
            e = ks[0]
            if fd.ret.k == 'void': s.full(lambda: s.discard(e))
            elif fd.retslot:
                slot = s.cx.ret[1]
                s.full(lambda: s.construct(e, slot))
            elif fd.ret.k == 'ref':
                if fd.ret.a.k == 'cls':
                    p = s.full(lambda: V(s.objid(e), None)); code = p.c
                elif fd.ret.a.k == 'scal' and fd.ret.a.const and rty(fd.ret) != 'It': code = s.full(lambda: s.load(s.lval(e))).c
                else:
                    def f():
                        p = s.lval(e)
                        if p[0] != 'elem': s.err('returned reference %r' % (p,), st)
                        return V(p[1], None)
                    code = s.full(f).c
            elif fd.ret.k in ('vecb',):
                p = s.lval(strip_casts(e) if strip(e)['kind'] != 'CXXConstructExpr' else strip_casts(KIDS(strip(e))[0]))
                if p[0] != 'var': s.err('returned vector', st)
                code = p[1]
                for sc in s.cx.scopes:
                    for x in list(sc):
                        if x == ('vecb', p[1]): sc.remove(x)
            else:
                def g():
                    if fd.ret.k in ('it', 'str', 'tuple', 'sb') : return s.construct(e, None)
                    return s.rval(e)
                v = s.full(g)
                code = v.c
                if fd.ret.k == 'scal' and v.ty.k == 'scal' and v.ty.a != fd.ret.a: s.err('return type', st)
        if code is not None and any(s.cx.scopes) and not re.match(r'(\w+|true|false)$', code): code = s.tmp(code)
        s.unwind(s.cx.scopes)
        if top:
            k = s.retn; s.retn += 1
            s.hint('return %d' % k); s.hint('return')
            s.emit('return %s;' % (code or ''), ('ret', k))
        else:
            r = s.cx.ret
            if r and r[0] in ('var', 'refobj') : s.emit('%s = %s;' % (r[1], code))
        return False

    def decl(s, d):
        k = d['kind']
        if k == 'CXXRecordDecl' and d.get('name'): s.recs[d['name']] = d
        if k in ('StaticAssertDecl', 'UsingDecl', 'TypedefDecl', 'TypeAliasDecl', 'CXXRecordDecl', 'EnumDecl', 'UsingDirectiveDecl', 'UnusedAttr', 'FunctionDecl'): return
        if k == 'DecompositionDecl': return s.decomp(d)
        if k != 'VarDecl': s.err('declaration %s' % k)
        ty = parse_type(qt(d))
        init = [x for x in KIDS(d) if x.get('kind') and not x['kind'].endswith('Attr')]
        init = init[0] if init else None
        nm = d.get('name')
        if d.get('constexpr') and ty.k == 'scal':
            ref = {'kind': 'DeclRefExpr', 'type': d['type'], 'referencedDecl': {'id': d['id']}}
            cv = s.const_eval(init, s.cx.fd.tu)
            if cv is not None:
                s.cx.env[d['id']] = ('const', s.lit(wrap(cv, ty.a), ty.a), ty); return
        mm = re.match(r'(const )?(.*)\[(\d+)\]$', qt(d).strip())
        if mm:
            et = parse_type(mm.group(2))
            if et.k == 'scal' and (d.get('constexpr') or 'const ' in qt(d)) and init is not None:
                vals = [s.const_eval(x, s.cx.fd.tu) for x in KIDS(strip(init))]
                if None in vals: s.err('table %s' % nm)
                while len(vals) < int(mm.group(3)): vals.append(0)
                vals = [wrap(v, et.a) for v in vals]
                key = hashlib.sha256(repr((et.a, vals)).encode()).hexdigest()[:8]
                tn = 'tbl_%s_%s' % (re.sub(r'\W', '_', s.fd.name), nm)
                s.tables[tn] = (et.a, vals)
                s.cx.env[d['id']] = ('tbl', tn, et.a); return
            if et.k == 'cls' and et.a == 'Big' and d.get('storageClass') == 'static' and 'const ' in qt(d) and init is not None:
                vals = []
                for x in KIDS(strip(init)):
                    y = strip(x)
                    while y['kind'] in ('CXXFunctionalCastExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups'): y = strip(KIDS(y)[0])
                    if y['kind'] not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') or s.ctor_name(y, 'Big') != 'Big_ctor_i64': s.err('object table %s' % nm)
                    vals.append(s.const_eval(KIDS(y)[0], s.cx.fd.tu))
                if None in vals or len(vals) != int(mm.group(3)): s.err('object table %s' % nm)
                tn = 'tbl_%s_%s' % (re.sub(r'\W', '_', s.fd.name), nm)
                s.tables[tn] = ('i64', [wrap(v, 'i64') for v in vals])
                s.cx.env[d['id']] = ('objtbl', tn); return
            if et.k == 'scal' and et.a in ('i8', 'u8') and d.get('storageClass') != 'static':
                n = s.newname(nm, Ty('ptr', et))
                z = init is not None and strip(init)['kind'] == 'InitListExpr'
                if z:
                    vals = [s.const_eval(x, s.cx.fd.tu) if x['kind'] != 'ImplicitValueInitExpr' else 0 for x in KIDS(strip(init))]
                    if any(v != 0 for v in vals): s.err('array initialiser %s' % nm)
                elif init is not None: s.err('array initialiser %s' % nm)
                s.emit('let %s: Bp = %s;' % (n, s.call('bp_local', 'bp_local(h, %su64)' % mm.group(3)))); s.cx.env[d['id']] = ('arr', n, et.a, int(mm.group(3))); s.cx.scopes[-1].append(('bytes', n)); return
            s.err('array %s' % nm)
        if d.get('storageClass') == 'static' and not ('const' in qt(d)): 
            if ty.k == 'scal':
                n = s.newname(nm, ty); s.emit('let mut %s: %s = any_%s();' % (n, ty.a, ty.a)); s.cx.env[d['id']] = ('var', n, ty); return
            s.err('static local %s' % nm)
        if d.get('storageClass') == 'static' and s.assigned_in(d['id'], s.cx.fd): s.err('static local %s is assigned' % nm)
        if ty.k in ('ref', 'rref'):
            t = ty.a
            if init.get('valueCategory') == 'prvalue' or strip(init).get('valueCategory') == 'prvalue' and init['kind'] == 'ExprWithCleanups':
                if t.k == 'cls':
                    n = s.newname(nm, t)
                    v = s.full_obj(init, t.a); s.emit('let %s: %s = %s;' % (n, rty(t), v)); s.cx.env[d['id']] = ('obj', t.a, n); s.cx.scopes[-1].append((t.a, n)); return
                v = s.full(lambda: s.rval(init)); n = s.newname(nm, t); s.emit('let %s: %s = %s;' % (n, rty(t), v.c)); s.cx.env[d['id']] = ('const', n, t); return
            mt = strip(init)
            p = s.lval(init)
            if p[0] == 'obj':
                n = s.newname(nm, t); s.emit('let %s: %s = %s;' % (n, rty(t), p[2])); s.cx.env[d['id']] = ('obj', p[1], n); return
            if p[0] == 'elem':
                n = s.newname(nm, Ty('it')); s.emit('let %s: It = %s;' % (n, p[1])); s.cx.env[d['id']] = ('elem', n); return
            s.cx.env[d['id']] = p; return
        n = s.newname(nm, ty)
        if ty.k == 'cls':
            idc = s.alloc(ty.a); s.emit('let %s: %s = %s;' % (n, rty(ty), idc)); s.born(idc); s.pending.append((ty.a, n))
            s.temps.append([])
            if init is None: s.invoke(ty.a + '_ctor', n, [], d)
            else: s.construct(init, n)
            s.flush(); s.temps.pop()
            s.cx.env[d['id']] = ('obj', ty.a, n); s.cx.scopes[-1].append((ty.a, n)); return
        if ty.k == 'sp':
            idc = s.alloc('Slice'); s.emit('let %s: SRef = %s;' % (n, idc)); s.born(idc)
            s.call('sp_local', 'sp_local(h, %s)' % n, bind=False)
            s.full(lambda: s.construct(init, n))
            s.cx.env[d['id']] = ('sp', n); s.cx.scopes[-1].append(('sp', n)); return
        if ty.k == 'scal':
            addr = s.addr_taken(d['id'])
            if ty.a == 'bool' and addr:
                c = s.full(lambda: s.rval(init)).c if init else 'any_bool()'
                s.emit('let %s: BoolP = bool_alloc(h, %s);' % (n, c)); s.cx.env[d['id']] = ('boolp', n); s.cx.scopes[-1].append(('bool', n)); return
            if init is None: s.emit('let mut %s: %s = any_%s();' % (n, ty.a, ty.a))
            else:
                v = s.full(lambda: s.rval(init))
                if v.ty.a != ty.a: s.err('initialiser type %r for %s' % (v.ty, nm))
                s.emit('let %s%s: %s = %s;' % ('' if ty.const else 'mut ', n, ty.a, v.c), ('store', n))
            s.hint('decl %s' % n)
            s.cx.env[d['id']] = ('var', n, ty); return
        if ty.k == 'ptr':
            e = strip(init) if init else None
            if e is not None and e['kind'] == 'CXXReinterpretCastExpr' and rty(ty) == 'It':
                x = strip(KIDS(e)[0])
                if x['kind'] == 'UnaryOperator' and x['opcode'] == '&':
                    p = s.lval(KIDS(x)[0])
                    if p[0] == 'var' and p[2].k == 'scal' and p[2].a == 'u64': s.cx.env[d['id']] = ('u64w', p[1]); return
            v = s.full(lambda: s.rval(init)) if init else s.err('uninitialised pointer')
            s.emit('let mut %s: %s = %s;' % (n, rty(ty), v.c)); s.cx.env[d['id']] = ('var', n, ty); return
        if ty.k in ('sb', 'fcr', 'rit', 'vecs'):
            v = s.full(lambda: s.construct(init, None)) if init is not None else s.err('uninitialised %s' % nm)
            if ty.k == 'rit': ty = v.ty
            s.emit('let mut %s: %s = %s;' % (n, rty(ty), v.c)); s.cx.env[d['id']] = ('var', n, ty); s.hint('decl %s' % n); return
        if ty.k in ('it', 'str'):
            v = s.full(lambda: s.construct(init, None))
            s.emit('let mut %s: %s = %s;' % (n, rty(ty), v.c)); s.cx.env[d['id']] = ('var', n, ty); return
        if ty.k == 'vecb':
            v = s.full(lambda: s.construct(init, None))
            s.emit('let mut %s: Vec<BId> = %s;' % (n, v.c)); s.cx.env[d['id']] = ('var', n, ty); s.cx.scopes[-1].append(('vecb', n)); return
        rn = re.sub(r'^(struct|class) ', '', qt(d).strip())
        if rn in s.recs:
            e = strip(init) if init is not None else None
            if e is not None and not (e['kind'] == 'CXXConstructExpr' and not KIDS(e)): s.err('local record initialiser', d)
            fields = {}
            for f in KIDS(s.recs[rn]):
                if f['kind'] != 'FieldDecl': 
                    if f['kind'] in ('CXXConstructorDecl',) and not f.get('isImplicit'): s.err('local record constructor', d)
                    continue
                ft = parse_type(qt(f)); fi = [x for x in KIDS(f) if x.get('kind') and not x['kind'].endswith('Attr')]
                if ft.k not in ('scal', 'ptr') or not fi: s.err('local record field %s' % f.get('name'), d)
                fn = s.newname('%s_%s' % (nm, f['name']), ft); v = s.full(lambda: s.rval(fi[0]))
                s.emit('let mut %s: %s = %s;' % (fn, rty(ft), v.c)); fields[f['name']] = ('var', fn, ft)
            s.cx.env[d['id']] = ('rec', fields); s.cx.scopes[-1].append(('lrec', (s.recs[rn], fields))); return
        s.err('local %s of type %r' % (nm, ty))

    def full_obj(s, init, cls):
        s.temps.append([])
        idc = s.alloc(cls); s.construct(init, idc); s.flush(); s.temps.pop(); return idc

    def decomp(s, d):
        init = [x for x in KIDS(d) if x.get('kind') and x['kind'] != 'BindingDecl']
        bs = [x for x in KIDS(d) if x.get('kind') == 'BindingDecl']
        v = s.full(lambda: s.rval(init[0]))
        ns = []
        for b, t in zip(bs, v.ty.a):
            n = s.newname(b.get('name'), t); ns.append(n); s.cx.env[b['id']] = ('var', n, t)
            for x in walk(b):
                if x.get('kind') == 'VarDecl': s.cx.env[x['id']] = ('var', n, t)
        s.emit('let (%s) = %s;' % (', '.join(ns), v.c))

    def addr_taken(s, did):
        for x in walk(s.cx.fd.tu.body(s.cx.fd.d)):
            if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '&':
                y = strip_casts(KIDS(x)[0])
                if y.get('kind') == 'DeclRefExpr' and y['referencedDecl']['id'] == did: return True
        return False

    def ctor_inits(s, fd):
        cls = fd.cls
        for x in KIDS(fd.d):
            if x.get('kind') != 'CXXCtorInitializer': continue
            if 'anyInit' not in x: s.err('base/delegating initialiser')
            f = x['anyInit']; fname = f['name']
            e = KIDS(x)[0] if KIDS(x) else None
            if e is None: s.err('initialiser of ' + fname)
            if e['kind'] == 'CXXDefaultInitExpr':
                fdcl = fd.tu.byid.get(f['id'])
                ie = [y for y in KIDS(fdcl) if y.get('kind') and not y['kind'].endswith('Attr')]
                e = ie[0] if ie else s.err('default initialiser of ' + fname)
            p = s.field(cls, fname, s.cx.this, x)
            if p[0] == 'obj':
                s.temps.append([]); s.construct(e, p[2]); s.flush(); s.temps.pop()
            elif p[0] == 'sp': s.full(lambda: s.construct(e, p[1]))
            elif p[0] == 'up': s.up_init(p, e)
            else:
                v = s.full(lambda: s.rval(e)); s.store(p, s.conv(v, s.pty(p).a).c)

    def newbig(s, e):
        """new BigIntegerImpl(args) / make_unique<BigIntegerImpl>(args): the new object, or None"""
        for x in walk(e):
            if x['kind'] == 'CXXNewExpr':
                c = [y for y in KIDS(x) if y['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')]
                if not c: s.err('new expression', x)
                d = s.alloc('Big'); s.temps.append([]); s.pending.append(('Big', d)); s.construct(c[0], d); s.flush(); s.temps.pop()
                s.pending.append(('Big', d)); return d
            if x['kind'] == 'CallExpr' and strip_casts(KIDS(x)[0]).get('referencedDecl', {}).get('name') == 'make_unique':
                as_ = KIDS(x)[1:]
                cn = 'Big_ctor' + ''.join('_' + kindname(Ty('ref', Ty(s.ty(a).k, s.ty(a).a, True)) if s.ty(a).k != 'scal' else s.ty(a)) for a in as_)
                if cn not in s.w.defs: s.err('make_unique', x)
                d = s.alloc('Big'); vals = s.args(cn, as_); s.invoke(cn, d, vals, x); s.pending.append(('Big', d)); return d
        return None
    def up_init(s, p, e):
        e = strip(e)
        d = s.newbig(e)
        if d is not None: s.call('int_set_impl', 'int_set_impl(h, %s, %s)' % (p[1], d), bind=False); s.born(d); return
        if e['kind'] == 'CXXConstructExpr' and len(KIDS(e)) == 1:
            q = s.movearg(KIDS(e)[0])
            if q[0] == 'up': s.call('int_move_init', 'int_move_init(h, %s, %s)' % (p[1], q[1]), bind=False); return
        s.err('unique_ptr initialiser', e)

    # ---------- whole function
    def run(s):
        fd, con = s.fd, s.con
        env = {}; sig = ['h: &%sH' % ('' if con.pure else 'mut ')]
        pn = list(con.params)
        ret = None
        def nxt():
            if not pn: s.err('contract has too few parameters')
            return pn.pop(0)
        pre = []
        if fd.retslot: r = nxt(); s.slotname = r; sig.append('%s: %s' % (r, rty(fd.ret))); ret = ('slot', r)
        th = None
        if fd.is_method: th = nxt(); s.thisname = th; sig.append('%s: %s' % (th, rty(Ty('cls', fd.cls))))
        for p in fd.params:
            pt = parse_type(qt(p)); n = nxt(); rt = rty(pt)
            sig.append('%s: %s' % (n, rt))
            if pt.k in ('ref', 'rref') and pt.a.k == 'cls' or pt.k == 'cls': env[p['id']] = ('obj', pt.a.a if pt.k != 'cls' else pt.a, n)
            elif pt.k in ('ref', 'rref') and pt.a.k == 'scal' and not pt.a.const:
                if rt == 'It': env[p['id']] = ('elem', n)
                else: env[p['id']] = ('var', '*' + n, pt.a)
            else:
                t = pt.a if pt.k in ('ref', 'rref') else pt
                env[p['id']] = ('var', n, t)
                if s.assigned(p['id']): pre.append('let mut %s = %s;' % (n, n))
        if pn: s.err('contract has too many parameters')
        s.cx = Ctx(fd, env, th, ret, False); s.ctxs = [s.cx]; s.temps = [[]]
        s.cx.scopes.append([])
        for x in pre: s.emit(x)
        s.emit('let ghost h0 = h@;')
        s.hint('entry')
        if not s.sigonly:
            if fd.is_ctor: s.ctor_inits(fd)
            ft = s.stmts(KIDS(fd.tu.body(fd.d)))
            if ft:
                s.unwind(s.cx.scopes)
                s.hint('exit'); s.hint('return')
        rt = '' if fd.ret.k == 'void' or fd.retslot else ' -> (RET: %s)' % rty(fd.ret)
        head = []
        for a in con.attrs: head.append(('#[verifier::%s]' % a, None))
        head.append(('pub fn %s(%s)%s' % (fd.name, ', '.join(sig), rt), ('fn', fd.name)))
        sub0, sub1 = ('h@', 'h@') if con.pure else ('old(h)@', 'final(h)@')
        def sb(x): return re.sub(r'\bh0\b', sub0, re.sub(r'\bh1\b', sub1, x))
        if con.req:
            head.append(('  requires', None))
            for t, x, l in con.req: head.append(('    %s,' % sb(x), ('req', t)))
        if con.ens:
            head.append(('  ensures', None))
            for t, x, l in con.ens: head.append(('    %s,' % sb(x), ('ens', t)))
        if con.dec: head.append(('  decreases %s' % sb(con.dec), ('fdec', None)))
        if con.trusted or s.sigonly: return head + [('{ unimplemented!() }', None)]
        missing = [a for a in list(con.hints) + list(con.ghosts) if a not in con.used]
        s.missing = missing
        s.loops_mismatch = set(con.loops) != set(range(s.loopn)) if con.loops or s.loopn else False
        return head + [('{', None)] + [('  hide(%s);' % x, None) for x in con.hide] + ([('  proof { assert(true || hide_all(h@)); }', None)] if con.hide else []) + s.lines + [('}', None)]

    def assigned_in(s, did, fd):
        return s.assigned(did, fd) or any(x.get('kind') == 'UnaryOperator' and x.get('opcode') == '&' and strip_casts(KIDS(x)[0]).get('referencedDecl', {}).get('id') == did for x in walk(fd.tu.body(fd.d)))
    def assigned(s, did, fd=None):
        fd = fd or s.fd
        for x in walk(fd.tu.body(fd.d)):
            k = x.get('kind')
            if k == 'CompoundAssignOperator' or (k == 'BinaryOperator' and x.get('opcode') == '=') or (k == 'UnaryOperator' and x.get('opcode') in ('++', '--')):
                y = strip_casts(KIDS(x)[0])
                if y.get('kind') == 'DeclRefExpr' and y['referencedDecl']['id'] == did: return True
        return False

def cstring(v):
    import ast
    try: b = ast.literal_eval(v)
    except Exception: return None
    try: return b.encode('latin-1')
    except UnicodeEncodeError: return None

def break_inside_body(b): return break_inside(b)

def paren(c):
    return c if re.match(r'[\w@.]+$', c) or (c.startswith('(') and balanced_outer(c)) or re.match(r'\w+\(', c) and balanced_call(c) else '(%s)' % c
def balanced_outer(c):
    d = 0
    for i, ch in enumerate(c):
        if ch == '(': d += 1
        elif ch == ')':
            d -= 1
            if d == 0 and i != len(c) - 1: return False
    return True
def balanced_call(c):
    i = c.index('('); return balanced_outer(c[i:])
def split_args(t):
    out = []; d = 0; cur = ''
    for ch in t:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return out
def wrap(v, a):
    if a == 'bool': return int(bool(v))
    b = BITS[a]; v &= (1 << b) - 1
    if a[0] == 'i' and v >= 1 << (b - 1): v -= 1 << b
    return v
