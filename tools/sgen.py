"""Status registry (src/Status.cpp, src/errInfos.cpp, the pgbn_Status functions of the C binding): clang AST -> Verus over the
registry heap Z of verus/stat.rs. A std::string, string_view or C string is its content, a std::function<void()> the
record of what was bound, a pointer to a registry entry its code, a Status or handle pointer an id."""
import re, json
from cpp2verus import *
from gen import KIDS, strip, strip_casts, walk, contains
from xgen import XGen

def sty(t):
    t = strip_cv(t.strip())
    t = re.sub(r'\b(pg::base::bigNumber::|pg::base::|pgbn::|pg::|std::__cxx11::|std::)', '', t)
    star = 0
    while t.endswith(('&', '*', 'const', ' ')):
        if t.endswith('*'): star += 1; t = t[:-1]
        elif t.endswith('&'): t = t[:-1]
        elif t.endswith('const'): t = t[:-5]
        else: t = t[:-1]
    t = strip_cv(t)
    if re.match(r'tuple<', t): return {0: 'Ep', 1: 'Ep', 2: 'u64'}.get(star, 'other:' + t)
    if t in ('char',) and star == 1: return 'Stg'
    if t == 'Status': return 'u64'
    if t == 'pgbn_Status_t': return 'u64'
    if t == 'void' and star == 1: return 'u64'
    if t == 'pgbn_Callback_t' or t == 'void (*)(void' or re.match(r'void \(\*', t): return 'u64'
    if star: return 'other:' + t
    if t in ('basic_string<char>', 'string', 'StringArg', 'basic_string_view<char>', 'string_view') or re.match(r'basic_string(_view)?<char', t): return 'Stg'
    if t in ('Callback', 'function<void ()>'): return 'Cb'
    if t in ('iterator', 'const_iterator') or '_Node_iterator' in t: return 'It'
    if t == 'ErrInfo': return 'Row'
    if t == 'pgbn_Enum_t' or t == 'Enum' or t == 'key_type': return 'u32'
    if t in SCAL: return SCAL[t] if t != 'void' else '()'
    if t in TYPEDEFS: return TYPEDEFS[t]
    return 'other:' + t

MAPN = 's_mp'
def core(n):
    """without casts, temporaries and parentheses"""
    while True:
        n = strip(n)
        if n.get('castKind') == 'ToVoid': return n
        if n['kind'] in ('ImplicitCastExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups', 'ParenExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'ConstantExpr'): n = KIDS(n)[0]
        elif n['kind'] == 'CallExpr' and core(KIDS(n)[0]).get('referencedDecl', {}).get('name') in ('forward', 'move', 'ref', 'addressof_') and len(KIDS(n)) == 2: n = KIDS(n)[1]
        else: return n
def is_map(n): n = core(n); return n.get('referencedDecl', {}).get('name') == MAPN or n.get('name') == MAPN

class SGen(XGen):
    def xt(s, n): return sty(qt(n))
    # ---- places
    def lval(s, n):
        c = core(n); k = c['kind']; ks = KIDS(c)
        if k == 'MemberExpr':
            f = c['name']; b = core(ks[0])
            if f == 'm_errno': return ('errno', 'this' if b['kind'] == 'CXXThisExpr' else s.rval(ks[0]))
            if f == 'status': return ('hs', s.rval(ks[0]))
            if b['kind'] == 'DeclRefExpr' and s.env.get(b['referencedDecl']['id'], ('',))[0] == 'row': return ('rowf', s.env[b['referencedDecl']['id']][1], f)
            if b['kind'] == 'ArraySubscriptExpr' and s.xt(b) == 'Row': return ('rowf', s.rowidx(b), f)
            s.err('member ' + f, c)
        if k == 'UnaryOperator' and c['opcode'] == '*' and s.xt(ks[0]) == 'u64' and 'tuple' in qt(ks[0]): return ('cell', s.rval(ks[0]))
        if k == 'CXXOperatorCallExpr' and core(ks[0]).get('referencedDecl', {}).get('name') == 'operator[]' and is_map(ks[1]): return ('ent', s.rval(ks[2]))
        if k == 'DeclRefExpr':
            e = s.env.get(c['referencedDecl']['id'])
            if e: return e
        s.err('place', c)
    def rowidx(s, c):
        ks = KIDS(c)
        if core(ks[0]).get('referencedDecl', {}).get('name') != 'errInfos': s.err('array', c)
        return s.tmp(s.rval(ks[1]))
    def load(s, p, byref=False):
        if p[0] in ('var', 'obj'): return p[1]
        if p[0] == 'errno': return s.callp('so_errno', 'so_errno(h, %s)' % p[1])
        if p[0] == 'hs': return s.callp('hd_get', 'hd_get(h, %s)' % p[1])
        if p[0] == 'cell': return s.callp('cell_get', 'cell_get(h, %s)' % p[1])
        if p[0] == 'rowf':
            if p[2] not in ('code', 'info', 'callback'): s.err('member ' + p[2])
            return s.callp('row_' + p[2], 'row_%s(%s)' % (p[2], p[1]))
        if p[0] == 'static': s.err('value of a static')
        s.err('load %r' % (p,))
    def store(s, p, v):
        if p[0] == 'var': s.emit('%s = %s;' % (p[1], v)); return
        f = {'errno': 'so_set', 'hs': 'hd_set', 'cell': 'cell_set'}.get(p[0])
        if not f: s.err('store %r' % (p,))
        s.call(f, '%s(h, %s, %s)' % (f, p[1], v), False)
    # ---- values
    def dup(s, v, t):
        return v
    def rval(s, n):
        c = core(n) if n['kind'] in ('MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups', 'ParenExpr') else strip(n)
        k = c['kind']; ks = KIDS(c)
        if k in ('CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'ImplicitCastExpr'):
            ck = c.get('castKind')
            if ck == 'ToVoid':
                x = core(ks[0])
                if x['kind'] in ('DeclRefExpr', 'IntegerLiteral'): return '()'
                s.rval(ks[0]); return '()'
            if ck == 'NullToPointer': return 'ep_null()' if s.xt(c) == 'Ep' else '0u64' if s.xt(c) == 'u64' else s.err('null pointer')
            if ck == 'LValueToRValue':
                x = core(ks[0])
                if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['id'] not in s.env:
                    if x['referencedDecl'].get('name') == 'errInfoCount': return s.callp('err_count', 'err_count()')
                    v = s.const_eval(x, s.fd.tu)
                    if v is not None: return s.lit_(v, s.xt(c))
                if x['kind'] == 'BinaryOperator' and x['opcode'] == '=': return s.rval(x)
                return s.load(s.lval(ks[0]))
            if ck == 'PointerToBoolean':
                t = s.xt(ks[0])
                if t == 'Ep': return s.callp('ep_some', 'ep_some(%s)' % s.rval(ks[0]))
                if t == 'u64': return '(%s != 0u64)' % s.rval(ks[0])
                s.err('pointer test ' + t)
            if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'BitCast', 'ArrayToPointerDecay', 'FunctionToPointerDecay'): return s.rval(ks[0])
            return super().rval(c)
        if k in ('MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups', 'ParenExpr', 'ConstantExpr'): return s.rval(ks[0])
        if k == 'CXXThisExpr': return 'this'
        if k == 'CXXNullPtrLiteralExpr': return '0u64'
        if k == 'DeclRefExpr':
            rd = c['referencedDecl']
            if rd.get('name') == 'NULL_CALLBACK' and rd['id'] not in s.env: return 'cb_null()'
            if rd['id'] in s.env: return s.load(s.env[rd['id']])
            v = s.const_eval(c, s.fd.tu)
            if v is not None: return s.lit_(v, s.xt(c))
            s.err('reference to ' + rd.get('name', ''))
        if k == 'MemberExpr': return s.load(s.lval(c))
        if k == 'UnaryOperator':
            o = c['opcode']; x = core(ks[0])
            if o == '&':
                if x['kind'] == 'DeclRefExpr':
                    e = s.env.get(x['referencedDecl']['id'])
                    if e and e[0] in ('cell', 'obj'): return e[1]
                if x['kind'] == 'MemberExpr' and x['name'] == 'second': return s.second(x)
                if x['kind'] == 'UnaryOperator' and x['opcode'] == '*': return s.rval(KIDS(x)[0])
                s.err('address', x)
            if o == '*' and 'tuple' in qt(ks[0]) and s.xt(ks[0]) == 'u64': return s.load(s.lval(c))
            if o == '*' and s.xt(ks[0]) in ('Ep', 'u64'): return s.rval(ks[0])
            if o in ('++', '--') and s.xt(ks[0]) in ('u64', 'u32'): return super().rval(c)
            if o in ('!', '-'): return super().rval(c)
            s.err('unary ' + o, c)
        if k == 'BinaryOperator':
            o = c['opcode']
            if o in ('==', '!=') and 'Ep' in (s.xt(ks[0]), s.xt(ks[1])):
                a = s.rval(ks[0]); b = s.rval(ks[1])
                if 'ep_null()' in (a, b): r = s.callp('ep_some', 'ep_some(%s)' % (b if a == 'ep_null()' else a)); return '!%s' % r if o == '==' else r
                s.err('pointer comparison')
            if o in ('%', '/'):
                return '(%s %s %s)' % (s.rval(ks[0]), o, s.rval(ks[1]))
            return super().rval(c)
        if k == 'StringLiteral':
            b = list(json.loads(c['value']).encode()) if '\\x' not in c['value'] else s.err('string literal')
            return s.callp('stg_lit', 'stg_lit(Ghost(Seq::<u8>::empty()%s))' % ''.join('.push(%du8)' % x for x in b))
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): return s.construct(c)
        if k == 'CXXNewExpr':
            t = sty(qt(c)); e = core(ks[0]) if ks else None
            if qt(c).replace('const', '').strip().startswith('pgbn_Status_t'): return s.callp('hd_new', 'hd_new(h)')
            if 'Status' in qt(c):
                r = s.callp('so_new', 'so_new(h)')
                a = [x for x in KIDS(e) if x.get('kind') != 'CXXDefaultArgExpr'] if e else []
                if a: s.invoke_('Status_ctor_u32', [r] + s.args(a))
                return r
            s.err('new', c)
        if k == 'CXXDeleteExpr':
            f = 'hd_del' if 'pgbn_Status_t' in qt(ks[0]) else 'so_del'
            s.call(f, '%s(h, %s)' % (f, s.rval(ks[0])), False); return '()'
        if k == 'CXXDefaultArgExpr':
            if s.xt(c) == 'u64' and '*' in qt(c): return '0u64'
            s.err('default argument', c)
        if k == 'CallExpr': return s.callf(c)
        if k == 'CXXMemberCallExpr': return s.callm(c)
        if k == 'CXXOperatorCallExpr': return s.callo(c)
        return super().rval(c)
    def second(s, x):
        it = core(KIDS(x)[0])
        if it['kind'] == 'CXXOperatorCallExpr' and core(KIDS(it)[0]).get('referencedDecl', {}).get('name') in ('operator->', 'operator*'):
            return s.callp('it_second', 'it_second(h, %s)' % s.rval(KIDS(it)[1]))
        s.err('iterator', x)
    def eref(s, n):
        """a reference to a registry entry"""
        c = core(n)
        if c['kind'] == 'MemberExpr' and c['name'] == 'second': return s.second(c)
        if c['kind'] == 'UnaryOperator' and c['opcode'] == '*': return s.rval(KIDS(c)[0])
        if c['kind'] == 'CXXMemberCallExpr' and core(KIDS(c)[0]).get('name') == 'at' and is_map(KIDS(core(KIDS(c)[0]))[0]): return s.callp('um_at', 'um_at(h, %s)' % s.rval(KIDS(c)[1]))
        s.err('registry entry', c)
    def construct(s, c):
        t = s.xt(c); ks = [x for x in KIDS(c) if x.get('kind') != 'CXXDefaultArgExpr']
        if t in ('Stg', 'Cb', 'It') and len(ks) == 1:
            if t == 'Cb' and core(ks[0])['kind'] in ('CXXNullPtrLiteralExpr',): return 'cb_null()'
            return s.rval(ks[0])
        if t == 'Cb' and not ks: return 'cb_null()'
        if t == 'Stg' and not ks: return s.callp('stg_lit', 'stg_lit(Ghost(Seq::<u8>::empty()))')
        if t == 'Stg' and len(ks) == 2:
            # from data() and size() of one text
            a, b = core(ks[0]), core(ks[1])
            if all(x['kind'] == 'CXXMemberCallExpr' for x in (a, b)) and core(KIDS(a)[0]).get('name') in ('data', 'c_str', 'begin', 'cbegin') and core(KIDS(b)[0]).get('name') in ('size', 'length', 'end', 'cend'):
                x, y = (core(KIDS(core(KIDS(z)[0]))[0]) for z in (a, b))
                if x['kind'] == y['kind'] == 'DeclRefExpr' and x['referencedDecl']['id'] == y['referencedDecl']['id']: return s.rval(x)
        if t == 'other:tuple' or t == 'Ep': return s.mktuple(ks, c)
        s.err('construction of ' + t, c)
    def mktuple(s, ks, c):
        if len(ks) != 2: s.err('tuple', c)
        a = s.rval(ks[0]); b = s.rval(ks[1]); return ('tuple', a, b)
    def callf(s, c):
        ks = KIDS(c); rd = core(ks[0]).get('referencedDecl', {}); nm = rd.get('name')
        if nm in ('forward', 'move', '__builtin_move') and len(ks) == 2: return s.rval(ks[1])
        if nm == 'get' and len(ks) == 2:
            x = core(ks[1]); t = s.xt(c); e = s.eref(x)
            if t == 'Stg': return s.callp('ep_info', 'ep_info(h, %s)' % e)
            if t == 'Cb': return s.callp('ep_cb', 'ep_cb(h, %s)' % e)
            # the return type names the element: 0 text, 1 callback
            m = re.match(r'(?:std::)?__tuple_element_t<(\d)UL', qt(c))
            if m: return s.callp('ep_info', 'ep_info(h, %s)' % e) if m.group(1) == '0' else s.callp('ep_cb', 'ep_cb(h, %s)' % e)
            s.err('element of an entry')
        if nm == 'bind':
            a = ks[1:]; f = core(a[0])
            if len(a) == 3 and s.xt(a[1]) == 'u32' and s.xt(a[2]) == 'Stg': return s.callp('cb_bind_row', 'cb_bind_row(%s)' % ', '.join(s.args(a)))
            if len(a) == 2 and s.xt(f) == 'u64' and s.xt(core(a[1])) == 'u64': return s.callp('cb_bind_arg', 'cb_bind_arg(%s)' % ', '.join(s.args(a)))
            s.err('bind', c)
        if nm == 'make_tuple': return s.mktuple(ks[1:], c)
        full = s.name_of(rd) if rd else None
        if full is None: s.err('call of ' + str(nm), c)
        return s.invoke_(full, s.args(ks[1:]))
    def invoke_(s, nm, vals):
        if nm not in s.cs: s.err('%s has no contract' % nm)
        s.callees.add(nm)
        r = s.call(nm, '%s(%s)' % (nm, ', '.join(['h'] + vals)), s.rtype(s.w.defs.get(nm) or s.w.decls[nm]) != '()')
        return r if r else '()'
    def callm(s, c):
        ks = KIDS(c); me = core(ks[0]); nm = me['name']; base = KIDS(me)[0]
        if is_map(base):
            if nm == 'find': return s.callp('um_find', 'um_find(h, %s)' % s.rval(ks[1]))
            if nm in ('end', 'cend'): return 'it_end()'
            if nm == 'count': return s.callp('um_count', 'um_count(h, %s)' % s.rval(ks[1]))
            if nm in ('reserve', 'rehash'): return '()'
            s.err('registry method ' + nm, c)
        t = s.xt(base)
        if nm == 'operator bool' and t == 'Cb' or nm == 'operator bool' and 'function' in qt(base): return s.callp('cb_some', 'cb_some(&%s)' % s.tmp(s.rval(base)))
        if t == 'Stg' and nm in ('c_str', 'data'): return s.rval(base)
        if t == 'Stg' and nm.startswith('operator basic_string_view'): return s.rval(base)
        full = s.w.lookup(s.fd.tu, me.get('referencedMemberDecl'))
        if full and full.startswith('Status_'):
            return s.invoke_(full, s.args([base] + ks[1:]))
        s.err('method %s of %s' % (nm, t), c)
    def callo(s, c):
        ks = KIDS(c); op = core(ks[0])['referencedDecl']['name']
        if op in ('operator==', 'operator!='):
            if s.xt(core(ks[1])) == 'It' or 'iterator' in qt(core(ks[1])):
                r = s.callp('it_eq', 'it_eq(%s, %s)' % tuple(s.args(ks[1:3]))); return r if op == 'operator==' else '!' + r
            if 'function' in qt(core(ks[1])) and core(ks[2])['kind'] == 'CXXNullPtrLiteralExpr':
                r = s.callp('cb_some', 'cb_some(&%s)' % s.tmp(s.rval(ks[1]))); return '!' + r if op == 'operator==' else r
        if op == 'operator()' and ('function' in qt(core(ks[1])) or s.xt(core(ks[1])) == 'Cb' or core(ks[1])['kind'] == 'CallExpr'):
            v = s.tmp(s.rval(ks[1])); s.call('cb_run', 'cb_run(h, &%s)' % v, False); return '()'
        if op == 'operator=':
            x = core(ks[1])
            if x['kind'] == 'CXXOperatorCallExpr' and core(KIDS(x)[0]).get('referencedDecl', {}).get('name') == 'operator[]' and is_map(KIDS(x)[1]):
                v = s.rval(ks[2])
                if not isinstance(v, tuple): s.err('value of an entry', c)
                a = s.tmp(v[1]); b = s.tmp(v[2])
                s.call('um_set', 'um_set(h, %s, %s, %s)' % (s.rval(KIDS(x)[2]), a, b), False); return '()'
            full = s.w.lookup(s.fd.tu, core(ks[0])['referencedDecl']['id'])
            if full == 'Status_op_assign_u32': return s.invoke_(full, s.args(ks[1:3]))
        s.err('operator ' + op, c)
    # ---- statements
    def stmt(s, st):
        if st['kind'] == 'ForStmt' and any('__assert_fail' in (x.get('referencedDecl', {}).get('name'), x.get('foundReferencedDecl', {}).get('name')) for x in walk(st)):
            c = core(KIDS(st)[2]) if len(KIDS(st)) > 2 else None
            if c is None or c['kind'] != 'UnaryOperator' or c['opcode'] != '!': s.err('assertion')
            v = s.tmp(s.rval(KIDS(c)[0])); s.emit('debug_assert_(%s);' % v, ('dbgassert', None)); return True
        return super().stmt(st)
    def decl(s, d):
        if d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDecl'): return
        if d['kind'] != 'VarDecl': s.err('declaration', d)
        q = qt(d); t = sty(q); init = [x for x in KIDS(d) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
        tls = bool(d.get('tls')); stat = d.get('storageClass') == 'static' or tls
        if stat:
            kd = 'flag' if t == 'bool' else 'obj'; k = s.statn.get(kd, 0); s.statn[kd] = k + 1; key = 'SK_%s_%s_%d()' % (s.fd.name, kd, k)
            if t == 'u64' and 'pgbn_Status_t' in q: s.env[d['id']] = ('obj', s.callp('hd_static', 'hd_static(h, Ghost(%s), %s)' % (key, 'true' if tls else 'false'))); s.keys.add(key); return
            if t == 'u64' and 'Status' in q and '*' not in q:
                if init and KIDS(core(init[0])): s.err('initial status')
                s.env[d['id']] = ('obj', s.callp('so_static', 'so_static(h, Ghost(%s), %s)' % (key, 'true' if tls else 'false'))); s.keys.add(key); return
            if t == 'bool':
                s.keys.add(key)
                f = s.callp('once', 'once(h, Ghost(%s), %s)' % (key, 'true' if tls else 'false')); s.emit('if %s {' % f); s.ind += 1
                s.tmp(s.rval(init[0])); s.call('once_done', 'once_done(h, Ghost(%s), %s)' % (key, 'true' if tls else 'false'), False); s.ind -= 1; s.emit('}'); s.hint('decl static')
                s.env[d['id']] = ('static', k); return
            if t == 'Stg':  # initialised once; nothing in the library assigns to it
                nm = s.newname(d.get('name'), t); v = s.rval(init[0]); s.emit('let %s = %s;' % (nm, v)); s.env[d['id']] = ('var', nm); return
            s.err('static ' + q)
        if t == 'Row':
            c = core(init[0])
            if c['kind'] != 'ArraySubscriptExpr' : s.err('row')
            s.env[d['id']] = ('row', s.rowidx(c)); return
        if t == 'Ep' and q.strip().endswith('*'):
            c = s.callp('cell_new', 'cell_new(h)'); v = s.rval(init[0]); s.call('cell_set', 'cell_set(h, %s, %s)' % (c, v), False)
            s.env[d['id']] = ('cell', c); return
        if not init: s.err('uninitialised ' + d.get('name', ''))
        if t.startswith('other:'): s.err('variable of type ' + t)
        v = s.rval(init[0]); nm = s.newname(d.get('name'), t); s.env[d['id']] = ('var', nm)
        s.emit('let mut %s = %s;' % (nm, v)); s.hint('decl ' + nm)
    # ---- function
    def rtype(s, fd):
        t = sty(s.rett_of(fd))
        if fd.is_ctor or fd.name.startswith('Status_op_assign'): return '()'
        return t
    def rett_of(s, fd):
        old = s.fd; s.fd = fd
        try: return s.rett()
        finally: s.fd = old
    def stmtret(s): pass
    def run(s):
        fd, con = s.fd, s.con
        s.env = {}; s.lamret = None; s.brk = set(); s.thisplace = None; s.this = None; s.statn = {}; s.keys = set(); s.missing = []; s.loops_mismatch = False
        sig = ['h: &mut Z']; pn = list(con.params); pre = []
        if fd.is_method: sig.append('this: u64'); (pn.pop(0) if pn and pn[0] == 'this' else s.err('contract lacks this'))
        for p in fd.params:
            if not pn: s.err('contract has too few parameters')
            n = pn.pop(0); t = sty(qt(p))
            if t.startswith('other:'): s.err('parameter type ' + t)
            sig.append('%s: %s' % (n, t)); s.env[p['id']] = ('var', n)
            if s.assigned_(p['id']): pre.append('let mut %s = %s;' % (n, n))
        if pn: s.err('contract has too many parameters')
        if not con.trusted and not s.sigonly:
            for x in pre: s.emit(x)
            s.emit('let ghost h0 = *h;'); s.hint('entry')
            if fd.is_ctor:
                for x in KIDS(fd.d):
                    if x.get('kind') != 'CXXCtorInitializer': continue
                    f = x.get('anyInit', {}).get('name')
                    if f == 'm_errno': v = s.tmp(s.rval(KIDS(x)[0])); s.store(('errno', 'this'), v)
                    elif f != 'm_context': s.err('initialiser of %s' % f)
            body = KIDS(fd.tu.body(fd.d))
            if fd.name.startswith('Status_op_assign') and body and body[-1]['kind'] == 'ReturnStmt': body = body[:-1]  # returns *this
            ft = s.block(body)
            if ft: s.hint('exit'); s.hint('return')
        rt = s.rtype(fd); rts = '' if rt == '()' else ' -> (RET: %s)' % rt
        if rt.startswith('other:'): s.err('return type ' + rt)
        head = []
        if con.trusted or s.sigonly: head.append(('#[verifier::external_body]', None))
        head.append(('pub fn %s(%s)%s' % (fd.name, ', '.join(sig), rts), ('fn', fd.name)))
        def sb(x): return re.sub(r'\bh0\b', '(*old(h))', re.sub(r'\bh1\b', '(*final(h))', x))
        def sb0(x): return re.sub(r'\bh0\b', '(*old(h))', x)
        if con.req:
            head.append(('  requires', None))
            for t, x, l in con.req: head.append(('    %s,' % sb0(x), ('req', t)))
        if con.ens:
            head.append(('  ensures', None))
            for t, x, l in con.ens: head.append(('    %s,' % sb(x), ('ens', t)))
        if con.dec: head.append(('  decreases %s' % sb0(con.dec), ('fdec', None)))
        if con.trusted or s.sigonly: return head + [('{ unimplemented!() }', None)]
        s.missing = [a for a in list(con.hints) + list(con.ghosts) if a not in con.used]
        s.loops_mismatch = set(con.loops) != set(range(s.loopn)) if con.loops or s.loopn else False
        return head + [('{', None)] + s.lines + [('}', None)]

SSRCS = ['Status.cpp', 'errInfos.cpp', '../c/src/pgbn.cpp']
def stable(w, done):
    """the table errInfos as the source has it, the codes of namespace ErrCode, and keys for static locals"""
    rows = None; cnt = None; codes = {}; size = None
    def ev(n, tu):
        n = core(n); k = n['kind']
        if k == 'IntegerLiteral': return int(n['value'])
        if k == 'UnaryExprOrTypeTraitExpr' and n.get('name') == 'sizeof':
            x = core(KIDS(n)[0]); nm = x.get('referencedDecl', {}).get('name')
            if nm == 'errInfos': return size * 1000
            if x['kind'] in ('UnaryOperator', 'ArraySubscriptExpr') and core(KIDS(x)[0]).get('referencedDecl', {}).get('name') == 'errInfos': return 1000
        if k == 'BinaryOperator':
            a, b = (ev(x, tu) for x in KIDS(n)); o = n['opcode']
            return a + b if o == '+' else a - b if o == '-' else a * b if o == '*' else a // b if o == '/' and b else a % b if o == '%' and b else bad(o)
        if k == 'DeclRefExpr':
            d = tu.byid.get(n['referencedDecl']['id'])
            i = [x for x in KIDS(d) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))] if d else []
            if i: return ev(i[0], tu)
        bad(k)
    def bad(k): raise ExtractError('errInfos: %s' % k)
    for tu in w.tus:
        for d in tu.byid.values():
            if d.get('kind') == 'NamespaceDecl' and d.get('name') == 'ErrCode':
                for x in KIDS(d):
                    if x.get('kind') == 'VarDecl': codes[x['name']] = ev([y for y in KIDS(x) if y.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))][0], tu)
    for tu in w.tus:
        for d in list(tu.byid.values()):
            if d.get('kind') == 'VarDecl' and d.get('name') == 'errInfos' and KIDS(d):
                il = core(KIDS(d)[0])
                if il['kind'] != 'InitListExpr': bad('table')
                rows = []
                for r in KIDS(il):
                    r = core(r); ks = KIDS(r)
                    if r['kind'] != 'InitListExpr' or len(ks) != 3: bad('row')
                    t = core(ks[1]); f = core(ks[2])
                    while f['kind'] in ('CXXConstructExpr', 'UnaryOperator') and KIDS(f): f = core(KIDS(f)[0])
                    if t['kind'] != 'StringLiteral': bad('message')
                    rows.append((ev(ks[0], tu), list(json.loads(t['value']).encode()), f.get('referencedDecl', {}).get('name') or bad('callback')))
                size = len(rows)
    for tu in w.tus:
        for d in list(tu.byid.values()):
            if d.get('kind') == 'VarDecl' and d.get('name') == 'errInfoCount' and KIDS(d):
                i = [x for x in KIDS(d) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
                if i: cnt = ev(i[0], tu)
    if rows is None or cnt is None or not codes: bad('not found')
    fns = sorted({r[2] for r in rows})
    o = ['pub open spec fn tab_n() -> int { %d }' % len(rows),
         'pub open spec fn tab_code(i: int) -> u32 { %s { 0u32 } }' % ' '.join('if i == %d { %du32 } else' % (i, r[0]) for i, r in enumerate(rows)),
         'pub open spec fn tab_info(i: int) -> Seq<u8> { %s { seq![] } }' % ' '.join('if i == %d { seq![%s] } else' % (i, ', '.join('%du8' % b for b in r[1])) for i, r in enumerate(rows)),
         'pub open spec fn tab_fn(i: int) -> int { %s { 0 } }' % ' '.join('if i == %d { %d } else' % (i, fns.index(r[2]) + 1) for i, r in enumerate(rows)),
         '#[verifier::external_body] pub fn err_count() -> (r: u64) ensures r == %du64 { unimplemented!() }' % cnt,
         'pub open spec fn is_err(c: u32) -> bool { %s }' % ' || '.join('c == %du32' % v for v in sorted(set(codes.values())))]
    o.append('/// every code of namespace ErrCode has a row\npub proof fn code_row(c: u32) requires is_err(c) ensures exists |i: int| 0 <= i < tab_n() && tab_code(i) == c\n{\n%s}' % ''.join('  if c == %du32 { assert(0 <= %d < tab_n() && tab_code(%d) == c); }\n' % (v, i, i) for v in sorted(set(codes.values())) for i in [([k for k, r in enumerate(rows) if r[0] == v] or [0])[-1]]))
    keys = set()
    for n, r in done.items():
        if not isinstance(r, ExtractError): keys |= getattr(r[1], 'keys', set())
    names = sorted(n for n in w.defs)
    keys |= {'SK_Status_getInstance_flag_0()', 'SK_Status_getInstance_obj_0()'}
    for k in sorted(keys):
        n = k[3:-2].rsplit('_', 2); o.append('pub open spec fn %s -> int { %d }' % (k, (names.index(n[0]) if n[0] in names else 9999) * 64 + int(n[2]) * 2 + (n[1] == 'flag')))
    return '\n'.join(o)
