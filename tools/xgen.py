"""Expression layer (src/eval.cpp, src/infixExpr): clang AST -> Verus over the expression heap X of verus/expr.rs.
Here a BigIntegerImpl is a value (its operations' contracts are the ones proved for the library itself), a node pointer
is an index into the pool, std::function members hold one of the library's callbacks."""
from cpp2verus import *
from gen import Gen, Contract, parse_contracts, KIDS, strip, strip_casts, walk, contains, V, break_inside, paren, wrap, split_clauses

def xty(t):
    t = strip_cv(t.strip())
    t = re.sub(r'\bpg::base::bigNumber::(infixExpr::)?', '', t).replace('infixExpr::', '').replace('pgbn::', '')
    ref = ''
    while t.endswith('&'): t = t[:-1].strip()
    t = strip_cv(t)
    if t in SCAL and t != 'void': return SCAL[t]
    if t in TYPEDEFS: return TYPEDEFS[t]
    if t in ('TokenType', 'Node::NodeType', 'NodeType', 'ExprNode::NodeType'): return 'u32'
    if t in ('ExprNode *', 'Node *', 'struct ExprNode *'): return 'NP'
    if t in ('BigIntegerImpl', 'Value'): return 'Val'
    if re.match(r'(std::)?vector<(ExprNode|Node) ?\*', t): return 'Ch'
    if re.match(r'(std::)?vector<(BigIntegerImpl|Value)\b', t): return 'Vals'
    if re.match(r'(std::)?vector<Token\b', t): return 'VTok'
    if t == 'Func': return 'Fu'
    if t == 'Token': return 'Token'
    if t in ('SymbolTable::Symbol *', 'Symbol *') or re.match(r'Variant<.*> \*$', t): return 'Sy'
    if t == 'std::any': return 'Any'
    if t in ('Status *',): return 'StP'
    if t == 'Status': return 'St'
    if re.match(r'(std::)?(__cxx11::)?basic_string<char', t) or t in ('std::string', 'string'): return 'Stg'
    if 'basic_string_view' in t or t == 'StringArg': return 'Sv'
    if t in ('StringReadStream', 'base::StringReadStream', 'pg::base::StringReadStream'): return 'Strm'
    if t in ('const char *', 'char *', 'const_pointer'): return 'Cp'
    if t == 'void': return '()'
    if t == 'NodePool *': return 'PoolP'
    if t in ('BigInteger', 'Int'): return 'Val'
    return 'other:' + t

NDF = {'children': 'Ch', 'evalCallback': 'u32', 'pevalTask': 'u32', 'nodeType': 'u32', 'type': 'u32', 'val': 'Val', 'symbol': 'Sy', 'indexInPool': 'u32'}
HF = {'m_flags', 'm_cStr', 'm_current', 'm_end', 'm_pNodePool', 'm_tokens', 'm_currTokenIndex', 'm_errCode', 'm_count'}
TOKF = {'type': 'type_', 'pSymbol': 'pSymbol', 'val': 'val'}
BW = {'u64': 64, 'u32': 32, 'i32': 32, 'i64': 64, 'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16}

def canon_ptr(n):
    t = n['type']; return t.get('desugaredQualType', '') + ' ' + t['qualType'] + (' char *' if 'const_pointer' in t['qualType'] else '')

class XGen(Gen):
    def __init__(s, world, contracts, fd, baseline_locals=None):
        super().__init__(world, contracts, fd, baseline_locals)
        s.breakable = []
    def xt(s, n): return xty(qt(n))
    def name_of(s, rd): return s.w.lookup(s.fd.tu, rd['id'])

    # ---- places
    def lval(s, n):
        k = n['kind']
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'): return s.lval(KIDS(n)[0])
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr') and n.get('castKind') in ('NoOp',): return s.lval(KIDS(n)[0])
        if k == 'DeclRefExpr':
            e = s.env.get(n['referencedDecl']['id'])
            if e is None: s.err('unknown variable ' + n['referencedDecl'].get('name', ''), n)
            return e
        if k == 'MemberExpr':
            b = KIDS(n)[0]; f = n['name']
            bb = strip_casts(b) if not n.get('isArrow') else strip(b)
            if bb['kind'] == 'CXXThisExpr':
                if s.thisplace: return s.thisplace(f)
                s.err('member ' + f)
            if n.get('isArrow'):
                t = s.xt(b)
                if t == 'NP':
                    if f not in NDF: s.err('node member ' + f)
                    return ('nd', s.rval(b), f)
                s.err('member access ' + f, n)
            p = s.lval(b); pt = s.xt(b)
            if pt == 'Token':
                if f not in TOKF: s.err('token member ' + f)
                return ('fld', p, TOKF[f])
            if pt == 'Fu': return ('fld', p, f)
            s.err('member access %s of %s' % (f, pt), n)
        if k == 'CXXOperatorCallExpr':
            ks = KIDS(n); op = strip_casts(ks[0])['referencedDecl']['name']
            if op == 'operator[]':
                t = s.xt(ks[1]); p = s.lval(ks[1]); i = s.rval(ks[2])
                if t in ('VTok', 'Ch', 'Vals'): return ('el', t, p, i)
        if k == 'CXXMemberCallExpr':
            me = strip_casts(KIDS(n)[0])
            if me['kind'] == 'MemberExpr' and me['name'] == 'back' and s.xt(KIDS(me)[0]) == 'VTok':
                p = s.lval(KIDS(me)[0]); v = s.load(p, True)
                return ('el', 'VTok', p, s.tmp('vt_back(&%s)' % v))
        if k == 'UnaryOperator' and n['opcode'] == '*' and 'char' in qt(n): return ('var', s.callp('chr_at', 'chr_at(h, %s)' % s.rval(KIDS(n)[0])))
        if k == 'CXXThisExpr' or (k == 'UnaryOperator' and n['opcode'] == '*'): s.err('lvalue', n)
        # a temporary
        return ('var', s.tmp(s.rval(n)))
    def load(s, p, byref=False):
        if p[0] == 'var': return p[1]
        if p[0] == 'h': return 'h.' + p[1]
        if p[0] == 'nd': return s.callp('nd_' + p[2], 'nd_%s(h, %s)' % (p[2], p[1]))
        if p[0] == 'fld': return s.load(p[1], True) + '.' + p[2]
        if p[0] == 'el':
            v = s.load(p[2], True)
            if p[1] == 'VTok': return '%s[(%s) as usize]' % (v, p[3])
            return s.callp('%s_at' % p[1].lower(), '%s_at(&%s, %s)' % (p[1].lower(), v, p[3]))
        s.err('load %r' % (p,))
    def store(s, p, v):
        if p[0] == 'var': s.emit('%s = %s;' % (p[1], v)); return
        if p[0] == 'h': s.emit('h.%s = %s;' % (p[1], v)); return
        if p[0] == 'nd': s.call('nd_set_' + p[2], 'nd_set_%s(h, %s, %s)' % (p[2], p[1], v), False); return
        if p[0] == 'fld' and p[1][0] == 'el' and p[1][1] == 'VTok':
            vec = s.load(p[1][2], True); i = s.tmp(p[1][3])
            t = s.tmp('%s[%s as usize]' % (vec, i)); t2 = 'tk%d_' % s.tn; s.emit('let mut %s = %s; %s.%s = %s;' % (t2, t, t2, p[2], v))
            s.call('vt_set', 'vt_set(&mut %s, %s, %s)' % (vec, i, t2), False); return
        s.err('store %r' % (p,))
    def callp(s, name, code): return s.call(name, code)

    # ---- values
    def lit_(s, v, t): return ('%d%s' % (v, t)) if t != 'bool' else ('true' if v else 'false')
    def rval(s, n):
        k = n['kind']; ks = KIDS(n)
        if k in ('ParenExpr', 'ConstantExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'SubstNonTypeTemplateParmExpr'): return s.rval(ks[0])
        if k == 'IntegerLiteral': return '%su%s' % (n['value'], '') if False else '%s%s' % (n['value'], s.xt(n))
        if k == 'CharacterLiteral': return '%d%s' % (wrap(int(n['value']), 'i8'), 'i8')
        if k == 'CXXBoolLiteralExpr': return 'true' if n['value'] else 'false'
        if k == 'CXXNullPtrLiteralExpr': return '0u64'
        if k in ('CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'ImplicitCastExpr'):
            ck = n.get('castKind')
            if ck == 'NullToPointer': return '0u64'
            if ck == 'ToVoid':
                if not contains(ks[0], ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'UnaryOperator', 'BinaryOperator', 'CompoundAssignOperator')): return '()'
                s.rval(ks[0]); return '()'
            if ck in ('LValueToRValue',):
                if strip(ks[0])['kind'] == 'DeclRefExpr' and strip(ks[0])['referencedDecl']['id'] not in s.env:
                    c = s.const_eval(ks[0], s.fd.tu)
                    if c is not None: return s.lit_(c, s.xt(n))
                return s.load(s.lval(ks[0]))
            if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion'): return s.rval(ks[0])
            if ck == 'IntegralCast':
                a = s.xt(ks[0]); b = s.xt(n); v = s.rval(ks[0])
                if a == b: return v
                if a == 'bool': return '(if %s { 1%s } else { 0%s })' % (v, b, b)
                if b == 'bool': return '(%s != 0)' % v
                if re.fullmatch(r'\d+[iu]\d+', v): return '%s%s' % (re.match(r'\d+', v).group(0), b) if wrap(int(re.match(r'\d+', v).group(0)), b) == int(re.match(r'\d+', v).group(0)) else s.err('literal cast')
                if a in ('i8', 'i32', 'i64') or BW.get(b, 0) < BW.get(a, 0) or b[0] == 'i': return s.callp('cast_%s_%s' % (a, b), 'cast_%s_%s(%s)' % (a, b, v))
                return '(%s as %s)' % (v, b)
            if ck == 'PointerToBoolean': return '(%s != 0u64)' % s.rval(ks[0])
            if ck == 'IntegralToBoolean': return '(%s != 0)' % s.rval(ks[0])
            s.err('cast %s' % ck, n)
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            if rd['kind'] == 'EnumConstantDecl':
                return '%du32' % s.enumval(rd)
            if rd['kind'] == 'FunctionDecl': return s.cbconst(rd)
            if rd['id'] in s.env: return s.load(s.env[rd['id']])
            c = s.const_eval(n, s.fd.tu)
            if c is not None: return s.lit_(c, s.xt(n))
            s.err('reference to ' + rd.get('name', ''), n)
        if k == 'MemberExpr' and strip(ks[0]).get('kind') != 'CXXThisExpr' or k == 'MemberExpr': return s.load(s.lval(n))
        if k == 'UnaryOperator':
            o = n['opcode']
            if o == '!': return '!(%s)' % s.truth(ks[0])
            if o == '-':
                c = s.const_eval(n, s.fd.tu)
                if c is not None: return '(%d%s)' % (c, s.xt(n))
            if o in ('++', '--'):
                p = s.lval(ks[0]); t = s.xt(ks[0])
                if t not in ('u64', 'u32', 'Cp'): s.err('increment of ' + t)
                old = s.tmp(s.load(p)); w = 'wrapping_add' if o == '++' else 'wrapping_sub'
                s.store(p, '%s.%s(1)' % (old, w))
                return old if n.get('isPostfix') else s.load(p)
            if o == '&':
                a = strip(ks[0])
                if s.xt(a) == 'other:NodePool': return s.load(s.lval(a))
                if a['kind'] == 'ArraySubscriptExpr':
                    b = strip_casts(KIDS(a)[0]); b = KIDS(b)[0] if b['kind'] == 'ImplicitCastExpr' else b
                    if b['kind'] == 'MemberExpr' and b['name'] == 'm_initBuffer': return s.callp('pool_init_ptr', 'pool_init_ptr(h, %s)' % s.rval(KIDS(a)[1]))
                if a['kind'] == 'CXXMemberCallExpr':
                    me = strip_casts(KIDS(a)[0])
                    if me.get('name') == 'back' and KIDS(me)[0].get('name') == 'm_exBuffer' and 'deque<' in qt(KIDS(me)[0]): return s.callp('pool_ex_back', 'pool_ex_back(h)')
                s.err('address', n)
            s.err('unary ' + o, n)
        if k == 'BinaryOperator':
            o = n['opcode']
            if o in ('&&', '||'): return s.cond(n)
            if o == '=':
                v = s.rval(ks[1]); v = s.tmp(v); p = s.lval(ks[0]); s.store(p, v); return v
            if o == ',': s.rval(ks[0]); return s.rval(ks[1])
            a = s.rval(ks[0])
            if any(x.get('kind') in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') or x.get('opcode') in ('++', '--', '=') for x in walk(ks[1])): a = s.tmp(a)
            b = s.rval(ks[1]); t = s.xt(ks[0])
            if o in ('==', '!=', '<', '<=', '>', '>='): return '(%s %s %s)' % (a, o, b)
            if o in ('+', '-', '*'):
                w = {'+': 'wrapping_add', '-': 'wrapping_sub', '*': 'wrapping_mul'}[o]
                if t in ('u64', 'u32'): return '(%s).%s(%s)' % (a, w, b)
                if t == 'i32': return '(%s %s %s)' % (a, o, b)
            s.err('operator ' + o, n)
        if k == 'CompoundAssignOperator':
            o = n['opcode'][:-1]; t = s.xt(ks[0])
            if o in ('+', '-') and t in ('u64', 'u32'):
                v = s.rval(ks[1]); v = s.tmp(v); p = s.lval(ks[0]); s.store(p, '%s.wrapping_%s(%s)' % (s.load(p), {'+': 'add', '-': 'sub'}[o], v)); return s.load(p)
            s.err('operator ' + n['opcode'], n)
        if k == 'ConditionalOperator':
            c = s.truth(ks[0]); t = s.newtmp()
            s.emit('let %s = if %s {' % (t, c)); s.ind += 1; v = s.rval(ks[1]); s.emit(v); s.ind -= 1
            s.emit('} else {'); s.ind += 1; v = s.rval(ks[2]); s.emit(v); s.ind -= 1; s.emit('};')
            return t
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): return s.construct(n)
        if k == 'InitListExpr':
            t = s.xt(n)
            if t == 'Token' and all(x.get('kind') in ('CXXDefaultInitExpr', 'ImplicitValueInitExpr', 'CXXConstructExpr') for x in ks): return 'token_new()'
            if t == 'Val' and not ks: return 'val_i64(0i64)'
            s.err('initialiser list of ' + t, n)
        if k == 'CallExpr': return s.callf(n)
        if k == 'CXXMemberCallExpr': return s.callm(n)
        if k == 'CXXOperatorCallExpr': return s.callo(n)
        if k == 'CXXDefaultArgExpr': s.err('default argument', n)
        s.err('expression', n)
    def newtmp(s): s.tn += 1; return 't%d_' % s.tn
    def truth(s, n): return s.rval(n)
    def cond(s, n):
        a, b = KIDS(n)[:2]; o = n['opcode']
        ca = s.rval(a); mark = len(s.lines); cb = s.rval(b)
        if len(s.lines) == mark: return '(%s %s %s)' % (ca, o, cb)
        tail = s.lines[mark:]; del s.lines[mark:]
        t = s.newtmp()
        if o == '&&': s.emit('let %s = if %s {' % (t, ca))
        else: s.emit('let %s = if %s { true } else {' % (t, ca))
        s.lines += tail; s.emit('  ' + cb)
        s.emit('} else { false };' if o == '&&' else '};')
        return t
    def enumval(s, rd):
        for tu in s.w.tus:
            d = tu.byid.get(rd['id'])
            if d is not None and d.get('kind') == 'EnumConstantDecl':
                v = s.w.enums.get((d['name']))
                if v is not None: return v
        s.err('enumerator ' + rd.get('name', ''))
    def cbconst(s, rd):
        nm = s.name_of(rd)
        if nm is None: s.err('function pointer ' + rd.get('name', ''))
        s.callees.add(nm) if nm in s.cs else None
        return 'cb_%s()' % nm
    def construct(s, n):
        t = s.xt(n); ks = [x for x in KIDS(n) if x.get('kind') != 'CXXDefaultArgExpr']
        if t == 'Val':
            if not ks: return 'val_i64(0i64)'
            if len(ks) == 1:
                a = s.xt(ks[0])
                if a == 'Val': return s.rval(ks[0])
                if a == 'i64': return 'val_i64(%s)' % s.rval(ks[0])
                if a.startswith('other:std::unique_ptr') or a.startswith('other:unique_ptr'): return s.rval(ks[0])
        if t == 'Ch' and not ks: return 'ch_new()'
        if t == 'Vals' and not ks: return 'vals_new()'
        if t == 'VTok' and not ks: return 'vt_new()'
        if t == 'Stg' and not ks: return 'stg_new()'
        if t == 'Stg' and len(ks) == 1 and s.xt(ks[0]) == 'Stg': return s.rval(ks[0])
        if t in ('Ch', 'Vals', 'Fu', 'VTok') and len(ks) == 1: return s.rval(ks[0])
        if t == 'Val' and len(ks) == 1 and 'unique_ptr' in qt(strip(ks[0])): return s.rval(ks[0])
        if t == 'Stg' and len(ks) == 2 and s.xt(ks[0]) in ('Cp', 'i8p') or t == 'Stg' and len(ks) == 2 and 'char *' in canon_ptr(ks[0]): return s.callp('stg_cp', 'stg_cp(%s)' % ', '.join(s.args(ks)))
        if t == 'Any': return 'any_()'
        if t == 'Sv': return 'sv_()'
        s.err('construction of ' + t, n)
    def stptr(s, n):
        x = strip_casts(n)
        if x['kind'] == 'UnaryOperator' and x['opcode'] == '*': return s.rval(KIDS(x)[0])
        s.err('status object', n)
    def args(s, a):
        out = []
        for i, x in enumerate(a):
            v = s.rval(x)
            if i + 1 < len(a) and any(y.get('kind') in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') for z in a[i+1:] for y in walk(z)) and not re.fullmatch(r'\w+', v): v = s.tmp(v)
            out.append(v)
        return out
    def invoke_(s, nm, vals):
        if nm not in s.cs: s.err('%s has no contract' % nm)
        s.callees.add(nm)
        fd = s.w.decls.get(nm)
        unit = fd is not None and fd.ret.k == 'void'
        r = s.call(nm, '%s(%s)' % (nm, ', '.join(['h'] + vals)), not unit)
        return '()' if unit else r
    def callf(s, n):
        ks = KIDS(n); c = strip_casts(ks[0]); rd = c.get('referencedDecl', {}); nm = rd.get('name')
        if nm == 'move' and len(ks) == 2: return s.load(s.lval(ks[1]))
        if nm in ('isdigit', 'isalpha', 'isalnum', 'tolower', 'toupper') and len(ks) == 2: return s.callp('c_' + nm, 'c_%s(%s)' % (nm, s.rval(ks[1])))
        if nm == 'getInstance' and s.xt(n) == 'StP': return s.callp('st_global', 'st_global()')
        if nm == 'getInstance': return '0u64'
        if nm == 'make_unique' and 'BigIntegerImpl' in qt(n) and len(ks) == 2: return s.rval(ks[1])
        full = s.name_of(rd) if rd else None
        if full is None: s.err('call of ' + str(nm), n)
        return s.invoke_(full, s.args([x for x in ks[1:] if s.xt(x) != 'Strm' and 'Hooks' not in qt(x)]))
    def callm(s, n):
        ks = KIDS(n); me = strip_casts(ks[0]); nm = me['name']; base = KIDS(me)[0]; bb = strip_casts(base)
        if bb['kind'] == 'CXXThisExpr' or (s.xt(base) == 'PoolP') or s.xt(base) == 'other:ExprParser':
            full = s.w.lookup(s.fd.tu, me.get('referencedMemberDecl'))
            if full is None: s.err('method ' + nm, n)
            if nm == 'badToken': return s.invoke_(full, [s.rval(ks[1])])
            return s.invoke_(full, s.args(ks[1:]))
        t = s.xt(base)
        if t == 'Val':
            p = s.lval(base); 
            vs = s.args(ks[1:]) if nm != 'fromString' else []
            un = {'negate': 'val_neg', 'notSelf': 'val_not', 'dec': 'val_dec', 'inc': 'val_inc', 'abs': 'val_abs'}
            bi = {'addAssign': 'add', 'subAssign': 'sub', 'mulAssign': 'mul', 'orAssign': 'or', 'andAssign': 'and', 'xorAssign': 'xor'}
            sig = [s.xt(x) for x in ks[1:]]
            if nm in un: s.store(p, s.callp(un[nm], '%s(%s)' % (un[nm], s.load(p)))); return '()'
            if nm in bi and sig == ['Val']: s.store(p, s.callp('val_' + bi[nm], 'val_%s(%s, %s)' % (bi[nm], s.load(p), vs[0]))); return '()'
            if nm == 'divAssign' and sig == ['Val']: s.store(p, s.callp('val_div', 'val_div(h, %s, %s)' % (s.load(p), vs[0]))); return '()'
            if nm in ('modAssignAndQuotient', 'divideAssignAndReminder') and sig == ['Val', 'Val']:
                q = s.lval(ks[2]); m = nm[:3]
                r = s.callp('val_%sq' % m, 'val_%sq(h, %s, %s, %s)' % (m, s.load(p), vs[0], s.load(q)))
                s.store(p, r + '.0'); s.store(q, r + '.1'); return '()'
            if nm in ('shiftLeftAssign', 'shiftRightAssign'):
                f = 'val_shl' if 'Left' in nm else 'val_shr'; s.store(p, s.callp(f, '%s(%s, %s)' % (f, s.load(p), vs[0]))); return '()'
            if nm == 'fromString' and sig[0] in ('Stg', 'Sv') and sig[1] == 'i32' and len(ks) == 4:
                a0 = strip_casts(ks[1])
                while a0['kind'] == 'ImplicitCastExpr': a0 = strip_casts(KIDS(a0)[0])
                if a0['kind'] == 'CXXMemberCallExpr' and strip_casts(KIDS(a0)[0]).get('name') == 'operator basic_string_view': a0 = KIDS(strip_casts(KIDS(a0)[0]))[0]
                if s.xt(a0) != 'Stg': s.err('text argument %s %s' % (a0['kind'], [(x['kind'], x.get('name'), qt(x)) for x in walk(a0)][:6]), n)
                x = strip_casts(ks[3])
                if x['kind'] != 'UnaryOperator' or x['opcode'] != '&': s.err('success flag', n)
                st = s.lval(a0); q = s.lval(KIDS(x)[0])
                r = s.callp('val_fromstr', 'val_fromstr(h, %s, &%s, %s)' % (s.load(p), s.load(st), s.rval(ks[2])))
                s.store(p, r + '.1'); s.store(q, r + '.0'); return '()'
            if nm == 'toU64': return s.callp('val_u64', 'val_u64(%s)' % s.load(p))
            if nm == 'cmp' and sig == ['Val']: return s.callp('val_cmp', 'val_cmp(%s, %s)' % (s.load(p), vs[0]))
            if nm in ('isZero', 'isOne', 'isNegOne', 'isOdd', 'isEven'): return s.callp('val_' + nm.lower(), 'val_%s(%s)' % (nm.lower(), s.load(p)))
            if nm == 'flagsContains': return s.callp('val_flag', 'val_flag(%s, %s)' % (s.load(p), vs[0]))
            s.err('method %s of a big integer' % nm, n)
        if t in ('Ch', 'Vals'):
            l = t.lower()
            if nm == 'size': return s.callp(l + '_size', '%s_size(&%s)' % (l, s.load(s.lval(base))))
            if nm == 'empty': return '(%s == 0u64)' % s.callp(l + '_size', '%s_size(&%s)' % (l, s.load(s.lval(base))))
            if nm == 'push_back':
                v = s.rval(ks[1]); p = s.lval(base)
                if p[0] != 'var': s.err('push_back on ' + str(p[0]))
                s.call(l + '_push', '%s_push(&mut %s, %s)' % (l, p[1], v), False); return '()'
        if t == 'VTok':
            p = s.lval(base); v = s.load(p, True)
            if nm == 'size': return '(%s.len() as u64)' % v
            if nm == 'push_back': a = s.rval(ks[1]); s.call('vt_push', 'vt_push(&mut %s, %s)' % (v, a), False); return '()'
            if nm == 'emplace_back' and len(ks) == 1: s.call('vt_push', 'vt_push(&mut %s, token_new())' % v, False); return '()'
        if t == 'Stg':
            p = s.lval(base)
            if nm == 'push_back' and p[0] == 'var': a = s.rval(ks[1]); s.call('stg_push', 'stg_push(&mut %s, %s)' % (p[1], a), False); return '()'
        if t == 'Sv':
            p = s.lval(base)
            if p[0] != 'var': s.err('string_view')
            if nm in ('data', 'size', 'length'): return s.callp('sv_data' if nm == 'data' else 'sv_size', 'sv_%s(&%s)' % ('data' if nm == 'data' else 'size', p[1]))
        if t == 'Stg' and nm in ('data', 'c_str', 'size', 'length'):
            p = s.lval(base); return s.callp('stg_size' if nm in ('size', 'length') else 'stg_data', '%s(&%s)' % ('stg_size' if nm in ('size', 'length') else 'stg_data', s.load(p)))
        if t == 'Strm':
            full = s.w.lookup(s.fd.tu, me.get('referencedMemberDecl'))
            if full is None: s.err('stream method ' + nm)
            return s.invoke_(full, s.args(ks[1:]))
        if t.startswith('other:') and 'deque<' in qt(base) and base.get('name') == 'm_exBuffer' and nm == 'push_back':
            a = strip(ks[1])
            if a['kind'] in ('CXXFunctionalCastExpr', 'CXXBindTemporaryExpr', 'InitListExpr', 'CXXConstructExpr'):
                il = [x for x in walk(a) if x.get('kind') in ('InitListExpr',)]
                if il and all(x.get('kind') in ('CXXDefaultInitExpr',) or (x.get('kind') == 'CXXConstructExpr' and not KIDS(x)) for x in KIDS(il[0])):
                    s.call('pool_ex_push', 'pool_ex_push(h)', False); return '()'
        if t == 'Sy' or t.startswith('other:Variant<'):
            tgt = xty(re.sub(r'^const ', '', n['type'].get('desugaredQualType') or n['type']['qualType']))
            p = s.rval(base) if t == 'Sy' else s.err('variant')
            full = qt(n)
            if nm == 'as' and tgt == 'Fu': return s.callp('sy_func', 'sy_func(%s)' % p)
            if nm == 'as' and tgt == 'Val': return s.callp('sy_value', 'sy_value(%s)' % p)
            if nm == 'is':
                d = s.fd.tu.byid.get(me.get('referencedMemberDecl')); ta = [x for x in KIDS(d) if x.get('kind') == 'TemplateArgument'] if d else []
                ta = xty(ta[0]['type'].get('desugaredQualType') or ta[0]['type']['qualType']) if ta else ''
                if ta in ('Fu', 'Val'): return s.callp('sy_is' + ta.lower(), 'sy_is%s(%s)' % (ta.lower(), p))
        if nm == 'operator bool' and strip_casts(base).get('name') == 'literal2Value' and 'function<' in qt(base): return 'true'
        if nm == 'setContext':
            s.stptr(base)
            return '()'
        if nm == 'get' and t.startswith('other:') and 'future<' in qt(base):
            g = strip(base)
            if g['kind'] == 'CXXMemberCallExpr' and strip_casts(KIDS(g)[0]).get('name') == 'get_future':
                m2 = KIDS(strip_casts(KIDS(g)[0]))[0]
                if m2.get('name') == 'valPromise': return s.callp('prom_get', 'prom_get(h, %s)' % s.rval(KIDS(m2)[0]))
        if nm == 'get' and 'ObjectManager' in t + qt(base) or (nm == 'get' and 'SymbolTable' in qt(base)):
            return s.callp('sy_get', 'sy_get(&%s)' % s.rval(ks[1]))
        s.err('method %s of %s' % (nm, t), n)
    def callo(s, n):
        ks = KIDS(n); op = strip_casts(ks[0])['referencedDecl']['name']
        t = s.xt(ks[1])
        if op == 'operator[]': return s.load(s.lval(n))
        if op == 'operator=':
            if t == 'St':
                v = s.tmp(s.rval(ks[2])); s.call('st_set', 'st_set(h, %s, %s)' % (s.stptr(ks[1]), v), False); return '()'
            if t in ('Val', 'Ch', 'Fu'):
                x = strip(ks[2])
                if x['kind'] == 'CXXStdInitializerListExpr':
                    il = strip(KIDS(x)[0]); vs = s.args(KIDS(il)); v = 'ch_list%d(%s)' % (len(vs), ', '.join(vs)) if t == 'Ch' else s.err('list')
                else: v = s.rval(ks[2])
                v = s.tmp(v); s.store(s.lval(ks[1]), v); return '()'
            if t == 'Stg':
                x = strip_casts(ks[2])
                v = s.rval(ks[2]) if s.xt(ks[2]) == 'Stg' else s.strc(ks[2])
                s.store(s.lval(ks[1]), v); return '()'
            if 'function<' in qt(ks[1]):
                v = s.rval(ks[2]); s.store(s.lval(ks[1]), v); return '()'
        if op == 'operator()':
            f = strip_casts(ks[1])
            if f['kind'] == 'MemberExpr' and f['name'] == 'evalCallback':
                cb = s.load(s.lval(f)); s.callees |= {c for c in s.cs if c.endswith('EvalCallback_pother_bool')}
                return s.call('cb_call', 'cb_call(h, %s, %s)' % (cb, ', '.join(s.args(ks[2:]))))
            if f['kind'] == 'MemberExpr' and f['name'] == 'nativeCall':
                fu = s.load(s.lval(KIDS(f)[0])); v = s.load(s.lval(ks[2]))
                return s.callp('native_call', 'native_call(h, %s, &%s)' % (fu, v))
            if f['kind'] == 'MemberExpr' and f['name'] == 'literal2Value': return s.lambda_call(s.hook_lambda(f['name']), ks[2:])
            if s.env.get(f.get('referencedDecl', {}).get('id'), (0,))[0] == 'lambda': return s.lambda_call(s.env[f['referencedDecl']['id']][1], ks[2:])
        s.err('operator %s' % op, n)
    def strc(s, n):
        x = strip_casts(n)
        while x['kind'] in ('ImplicitCastExpr',): x = strip_casts(KIDS(x)[0])
        if x['kind'] == 'StringLiteral': 
            v = json.loads(x['value'])
            if v == '0': return s.callp('stg_0', 'stg_0()')
        s.err('string', n)

    # ---- statements
    def block(s, L):
        """translate a list of statements; returns True when control can fall out of it"""
        for i, st in enumerate(L):
            if not s.stmt(st): return False
        return True
    def kids(s, st): return KIDS(st) if st['kind'] == 'CompoundStmt' else [st]
    def stmt(s, st):
        k = st['kind']; ks = KIDS(st)
        if k == 'CompoundStmt':
            s.emit('{'); s.ind += 1; e = dict(s.env); r = s.block(ks); s.env = e; s.ind -= 1; s.emit('}'); return r
        if k == 'NullStmt': return True
        if k == 'DeclStmt':
            for d in ks: s.decl(d)
            return True
        if k == 'ReturnStmt':
            v = s.rval(ks[0]) if ks else None
            if s.lamret is not None: s.err('return in lambda')
            if v is not None and v != '()':
                r = s.tmp(v, pre='ret'); s.hint('return %d' % s.retn, (), r); s.hint('return', (), r); s.retn += 1
                s.emit('return %s;' % r, ('ret',))
            else: s.hint('return'); s.retn += 1; s.emit('return;', ('ret',))
            return False
        if k == 'IfStmt':
            if st.get('hasInit') or st.get('hasVar'): s.err('if with a declaration')
            c = s.truth(ks[0]); s.emit('if %s {' % c); s.ind += 1; e = dict(s.env)
            a = s.block(s.kids(ks[1])); s.env = dict(e); s.ind -= 1; b = True
            if len(ks) > 2: s.emit('} else {'); s.ind += 1; b = s.block(s.kids(ks[2])); s.ind -= 1; s.env = e
            s.emit('}'); s.env = e
            return a or b
        if k in ('WhileStmt', 'ForStmt', 'CXXForRangeStmt'):
            e = dict(s.env); r = s.loop_(st); s.env = e; return r
        if k == 'SwitchStmt': return s.switch_(st)
        if k == 'BreakStmt':
            if not s.breakable or s.breakable[-1] == 'switch': s.err('break inside a switch')
            s.brk.add(len(s.breakable)); s.emit('break;'); return False
        if k == 'ContinueStmt':
            if not s.breakable or s.breakable[-1] is not True: s.err('continue')
            s.emit('continue;'); return False
        v = s.rval(st)
        return True
    def loop_(s, st):
        k = st['kind']; ks = KIDS(st)
        s.brk = getattr(s, 'brk', set())
        if k == 'CXXForRangeStmt':
            rng = KIDS(ks[1])[0]; var = KIDS(ks[-2])[0]; body = ks[-1]
            t = s.xt(KIDS(rng)[0]) if False else xty(qt(KIDS(rng)[0]))
            if t not in ('Ch',): s.err('range loop over ' + t)
            col = s.tmp(s.load(s.lval(KIDS(rng)[0]))); i = 'ri%d_' % s.loopn
            s.emit('let mut %s = 0u64;' % i)
            lk = s.loop_begin(); s.breakable.append(None); d = len(s.breakable); s.brk.discard(d)
            s.emit('if !(%s < %s_size(&%s)) {' % (i, t.lower(), col)); s.hint('exit %d' % lk); s.emit('break; }')
            nm = s.newname(var.get('name'), t)
            s.emit('let %s = %s_at(&%s, %s);' % (nm, t.lower(), col, i)); s.env[var['id']] = ('var', nm)
            s.hint('loop %d body' % lk)
            s.colname = col
            if s.block(s.kids(body)): s.emit('%s = %s + 1;' % (i, i)); s.hint('loop %d end' % lk)
            s.breakable.pop(); s.loop_end(lk); return True
        if k == 'WhileStmt': cond, inc, body = ks[0], None, ks[1]
        else:
            init, cv, cond, inc, body = ks
            if init.get('kind'): s.stmt(init)
        lk = s.loop_begin(); s.breakable.append(not (inc and inc.get('kind'))); d = len(s.breakable); s.brk.discard(d)
        inf = not (cond and cond.get('kind')) or s.const_eval(cond, s.fd.tu) == 1
        if not inf:
            c = s.truth(cond); s.emit('if !(%s) {' % c); s.hint('exit %d' % lk); s.emit('break; }')
        s.hint('loop %d body' % lk)
        if s.block(s.kids(body)):
            if inc and inc.get('kind'): s.rval(inc)
            s.hint('loop %d end' % lk)
        b = d in s.brk; s.breakable.pop(); s.loop_end(lk)
        return not inf or b
    def loop_begin(s):
        lk = s.loopn; s.loopn += 1
        lp = s.con.loops.get(lk)
        s.hint('loop %d before' % lk)
        s.emit('let ghost hL%d = *h;' % lk)
        if lp and lp.get('exit') and not lp.get('iso'): s.emit('#[verifier::allow_complex_invariants]')
        if not (lp and lp.get('iso')): s.emit('#[verifier::loop_isolation(false)]')
        s.emit('loop', ('loop', lk))
        if lp:
            if lp['inv']:
                s.emit('  invariant_except_break' if lp.get('exit') and not lp.get('iso') else '  invariant')
                for t, x, l in lp['inv']: s.emit('    %s,' % re.sub(r'\bh1\b', '(*h)', x), ('inv', t, lk))
            if lp.get('exit'): s.emit('  ensures %s,' % re.sub(r'\bh1\b', '(*h)', lp['exit']), ('inv', '', lk))
            if lp['dec']: s.emit('  decreases %s,' % re.sub(r'\bh1\b', '(*h)', lp['dec']), ('dec', lk))
        s.emit('{'); s.ind += 1
        s.emit('let ghost hB%d = *h;' % lk)
        return lk
    def switch_(s, st):
        ks = KIDS(st); v = s.tmp(s.rval(ks[0])); t = s.xt(ks[0])
        body = KIDS(ks[1]); groups = []; 
        for x in body:
            labels = []; y = x
            while y.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if y['kind'] == 'CaseStmt': labels.append(s.caseval(KIDS(y)[0], t)); y = KIDS(y)[-1]
                else: labels.append(None); y = KIDS(y)[-1]
            if labels: groups.append([labels, [y]])
            else:
                if not groups: s.err('statement before the first case')
                groups[-1][1].append(x)
        def ends(b):
            if not b: return None
            z = b[-1]
            if z['kind'] == 'CompoundStmt': return ends(KIDS(z))
            return z['kind'] if z['kind'] in ('BreakStmt', 'ReturnStmt') else None
        first = True; fall = False; default = None; anyd = False
        for gi, (labels, b) in enumerate(groups):
            if None in labels:
                if gi != len(groups) - 1: s.err('default is not the last case')
                anyd = True
        s.breakable.append('switch')
        for gi, (labels, b) in enumerate(groups):
            e = ends(b)
            if e is None and gi != len(groups) - 1 and s.falls(b): s.err('case falls through')
            if b and b[-1]['kind'] == 'BreakStmt': b = b[:-1]
            elif e == 'BreakStmt': b = b[:-1] + [dict(b[-1], inner=KIDS(b[-1])[:-1])]
            if None in labels: s.emit('} else {' if not first else '{')
            else: s.emit(('} else if ' if not first else 'if ') + ' || '.join('%s == %s' % (v, l) for l in labels) + ' {')
            first = False; s.ind += 1; en = dict(s.env)
            if s.block(b): fall = True
            s.env = en; s.ind -= 1
        s.emit('}'); s.breakable.pop()
        return fall or not anyd
    def falls(s, b):
        z = b[-1]
        if z['kind'] == 'CompoundStmt': return s.falls(KIDS(z)) if KIDS(z) else True
        if z['kind'] == 'IfStmt' and len(KIDS(z)) > 2: return s.falls([KIDS(z)[1]]) or s.falls([KIDS(z)[2]])
        return z['kind'] not in ('BreakStmt', 'ReturnStmt')
    def caseval(s, n, t):
        if n.get('kind') == 'ConstantExpr' and 'value' in n: return '%s%s' % (n['value'], t) if not str(n['value']).startswith('-') else '(%s%s)' % (n['value'], t)
        return s.rval(n)
    def decl(s, d):
        if d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDecl'): return
        if d['kind'] != 'VarDecl': s.err('declaration', d)
        q = qt(d); t = xty(q); init = [x for x in KIDS(d) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
        if t == 'Strm':
            c = [x for x in KIDS(strip(init[0])) if x.get('kind') != 'CXXDefaultArgExpr']
            if len(c) != 1 or s.xt(c[0]) != 'Stg': s.err('construction of a stream')
            s.call('strm_new', 'strm_new(h, &%s)' % s.load(s.lval(c[0])), False); s.env[d['id']] = ('strm',); return
        if t == 'other:NodePool':
            if KIDS(strip(init[0])): s.err('construction of a pool')
            s.env[d['id']] = ('var', s.callp('pool_new', 'pool_new(h)')); return
        if t == 'other:ExprParser':
            e = strip(init[0]); c = KIDS(e)
            nm = [n for n in s.cs if n.startswith('ExprParser_ctor_')]
            if len(c) != 3 or len(nm) != 1: s.err('construction of a parser')
            s.invoke_(nm[0], [s.rval(c[2])]); s.env[d['id']] = ('parser',); return
        if q.strip().endswith('&'):
            p = s.lval(init[0])
            s.env[d['id']] = s.freeze(p); return
        if init and strip_casts(init[0])['kind'] == 'LambdaExpr': s.env[d['id']] = ('lambda', strip_casts(init[0])); return
        if t == 'Any': 
            s.env[d['id']] = ('any',); return
        if not init: s.err('uninitialised ' + d.get('name', ''))
        v = s.rval(init[0]); nm = s.newname(d.get('name'), t); s.env[d['id']] = ('var', nm)
        s.emit('let mut %s = %s;' % (nm, v)); s.hint('decl ' + nm)
    def freeze(s, p):
        """a reference is bound once: the expressions that select the object are evaluated now"""
        if p[0] == 'el': return ('el', p[1], s.freeze(p[2]), p[3] if re.fullmatch(r'\w+', p[3]) else s.tmp(p[3]))
        if p[0] == 'fld': return ('fld', s.freeze(p[1]), p[2])
        if p[0] == 'nd': return ('nd', p[1] if re.fullmatch(r't\d+_', p[1]) else s.tmp(p[1]), p[2])
        return p
    def lambda_call(s, e, args):
        """a lambda called where it is visible: its body at the call, parameters bound to the arguments"""
        m = [x for x in walk(e) if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()']
        body = None
        for x in KIDS(e) + [y for x in m for y in KIDS(x)]:
            if x.get('kind') == 'CompoundStmt': body = x
        ps = [x for x in (KIDS(m[0]) if m else []) if x.get('kind') == 'ParmVarDecl']
        if body is None or len(ps) != len(args): s.err('lambda')
        for x, a in zip(ps, args):
            if x['type']['qualType'].strip().endswith('&'): s.env[x['id']] = s.freeze(s.lval(a))
            else: s.env[x['id']] = ('var', s.tmp(s.rval(a)))
        L = KIDS(body)
        for x in L[:-1]:
            if contains(x, ('ReturnStmt',)): s.err('lambda with several returns')
            s.stmt(x)
        if L[-1]['kind'] != 'ReturnStmt': s.err('lambda without return')
        return s.rval(KIDS(L[-1])[0])
    def hook_lambda(s, name):
        """the default of a member of Hooks: the lambda that initialises it"""
        for tu in [s.fd.tu] + s.w.tus:
            for d in tu.byid.values():
                if d.get('kind') == 'FieldDecl' and d.get('name') == name:
                    for x in walk(d):
                        if x.get('kind') == 'LambdaExpr': return x
        s.err('hook ' + name)
    def hfield(s, f):
        if f not in HF: s.err('member ' + f)
        return ('h', f)
    def run(s):
        fd, con = s.fd, s.con
        s.env = {}; s.lamret = None; s.brk = set(); s.thisplace = s.hfield; s.this = None
        extra = [x for x in con.params if ':' in x]
        sig = ['h: &mut X']; pn = [x for x in con.params if ':' not in x]; pre = []
        for p in fd.params:
            if xty(qt(p)) == 'Any' or xty(qt(p)) == 'Sv' and len([x for x in con.params]) < sum(1 for y in fd.params if xty(qt(y)) != 'Strm' and 'Hooks' not in qt(y)): s.env[p['id']] = ('any',); continue
            if xty(qt(p)) == 'Strm' or 'Hooks' in qt(p): s.env[p['id']] = ('strm',); continue
            if not pn: s.err('contract has too few parameters')
            n = pn.pop(0); sig.append('%s: %s' % (n, s.prm(p))); s.env[p['id']] = ('var', n)
            if any(True for x in walk(fd.tu.body(fd.d)) if x.get('kind') in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator', 'CXXMemberCallExpr', 'CXXOperatorCallExpr')) and s.assigned_(p['id']): pre.append('let mut %s = %s;' % (n, n))
        if pn: s.err('contract has too many parameters')
        if not con.trusted and not s.sigonly:
            for x in pre: s.emit(x)
            s.emit('let ghost h0 = *h;'); s.hint('entry')
            if fd.is_ctor: s.inits()
            ft = s.block(KIDS(fd.tu.body(fd.d)))
            if ft: s.hint('exit'); s.hint('return')
        rt = xty(s.rett()); rts = '' if rt == '()' else ' -> (RET: %s)' % rt
        if rt.startswith('other:'): s.err('return type ' + rt)
        head = [('#[verifier::%s]' % a, None) for a in con.attrs]
        if con.trusted or s.sigonly: head.append(('#[verifier::external_body]', None))
        head.append(('pub fn %s(%s)%s' % (fd.name, ', '.join(sig), rts), ('fn', fd.name)))
        def sb(x): return re.sub(r'\bh0\b', '(*old(h))', re.sub(r'\bh1\b', '(*final(h))', x))
        def sb0(x): return re.sub(r'\bh0\b', '(*old(h))', x)
        if con.req:
            head.append(('  requires', None))
            for t, x, l in con.req: head.append(('    %s,' % sb0(x), ('req', t)))
        if con.ens:
            head.append(('  ensures', None))
            for t, x, l in con.ens: head.append(('    %s,' % sb(x), ('ens', t)))
        if con.dec: head.append(('  decreases %s' % sb0(con.dec), ('fdec', None)))
        s.missing = []; s.loops_mismatch = False
        if con.trusted or s.sigonly: return head + [('{ unimplemented!() }', None)]
        s.missing = [a for a in list(con.hints) + list(con.ghosts) if a not in con.used]
        s.loops_mismatch = set(con.loops) != set(range(s.loopn)) if con.loops or s.loopn else False
        return head + [('{', None)] + [('  hide(%s);' % x, None) for x in con.hide] + s.lines + [('}', None)]
    def inits(s):
        """member initialisers in order; an in-class initialiser where the constructor gives none"""
        for x in KIDS(s.fd.d):
            if x.get('kind') != 'CXXCtorInitializer': continue
            f = x.get('anyInit', {})
            if 'name' not in f: s.err('base initialiser')
            e = KIDS(x)[0]
            if e['kind'] == 'CXXDefaultInitExpr':
                fdl = s.fd.tu.byid.get(f['id']); e = [y for y in KIDS(fdl) if y.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))] if fdl else []
                if not e: s.err('default initialiser of ' + f['name'])
                e = e[0]
            v = s.tmp(s.rval(e)); s.store(s.thisplace(f['name']), v)
    def prm(s, p):
        t = xty(qt(p))
        if t.startswith('other:'): s.err('parameter type ' + t)
        return t
    def rett(s):
        t = s.fd.d['type']['qualType']; i = len(re.sub(r'\s*(const|noexcept)*\s*$', '', t)) - 1; d = 0
        t = re.sub(r'(\s*(const|noexcept))*\s*$', '', t); i = len(t) - 1
        while i >= 0:
            d += (t[i] == ')') - (t[i] == '(')
            if d == 0: break
            i -= 1
        return t[:i].strip()
    def assigned_(s, did):
        for x in walk(s.fd.tu.body(s.fd.d)):
            k = x.get('kind')
            if (k == 'BinaryOperator' and x.get('opcode') == '=' or k == 'CompoundAssignOperator' or k == 'UnaryOperator' and x.get('opcode') in ('++', '--')) and strip_casts(KIDS(x)[0]).get('referencedDecl', {}).get('id') == did: return True
            if k == 'CXXMemberCallExpr' and strip_casts(KIDS(strip_casts(KIDS(x)[0]))[0]).get('referencedDecl', {}).get('id') == did: return True
            if k == 'CXXOperatorCallExpr' and len(KIDS(x)) > 1 and strip_casts(KIDS(x)[1]).get('referencedDecl', {}).get('id') == did: return True
        return False

class XWorld(World):
    def __init__(s, files):
        import cpp2verus
        s.enums = {}
        old = cpp2verus.clang_ast
        # the AST dump is filtered by 'pg': functions at file scope get a name it selects (a renaming, nothing else)
        def dump(src, defs=()):
            txt = open(src).read()
            inns = lambda i: len(re.findall(r'NAMESPACE_START|^\s*namespace\b[^;{]*\{', txt[:i], re.M)) > len(re.findall(r'NAMESPACE_END|^\}\s*//\s*namespace', txt[:i], re.M))
            ren = sorted({m.group(1) for m in re.finditer(r'^(?:static|inline)\b[^\n;={}():]*?\b(\w+)\s*\(', txt, re.M) if not inns(m.start())} - {'operator', 'main'})
            if ren:
                try: return old(src, tuple('%s=pg_%s' % (x, x) for x in ren))
                except ExtractError: pass
            return old(src, ())
        cpp2verus.clang_ast = dump
        try: super().__init__(files)
        finally: cpp2verus.clang_ast = old
        for tu in s.tus:
            for d in tu.byid.values():
                if d.get('kind') == 'EnumDecl' and d.get('name') == 'TokenType':
                    v = -1
                    for c in KIDS(d):
                        if c.get('kind') != 'EnumConstantDecl': continue
                        ce = [x for x in walk(c) if x.get('kind') == 'ConstantExpr']
                        v = int(ce[0]['value']) if ce else v + 1
                        s.enums[c['name']] = v
XSRCS = ['eval.cpp', 'infixExpr/ExprParser.cpp', 'infixExpr/ExprTree.cpp']
def xtable(w, done):
    """the enumerators of TokenType, ids for the callback functions, and the dispatch of a std::function over them"""
    out = ['#![allow(non_snake_case)]'] if False else []
    for n, v in sorted(w.enums.items()): out.append('pub open spec fn TK_%s() -> u32 { %du32 }' % (n, v))
    CB = ['detail_%sEvalCallback_pother_bool' % x for x in ('val', 'unaryOp', 'binOp', 'ifElseNode', 'builtinFunc')]
    more = sorted(n for n in w.defs if n.startswith('detail_') and n.endswith(('EvalCallback_pother_bool', 'pevalTask_pother')) and n not in CB)
    for i, n in enumerate(CB + more):
        out.append('pub open spec fn scb_%s() -> u32 { %du32 }\npub fn cb_%s() -> (r: u32) ensures r == scb_%s() { %du32 }' % (n, i + 1, n, n, i + 1))
    if any(n in done for n in CB):
        out.append('pub fn cb_call(h: &mut X, cb: u32, node: NP, peval: bool) -> (r: Val)\n  requires evpre(*old(h), node, peval), cb == old(h).nodes@[node - 1].cb\n  ensures evpost(*old(h), *final(h), node, r)\n  decreases node, 2int\n{')
        for n in CB: out.append('  if cb == cb_%s() { return %s(h, node, peval); }' % (n, n))
        out.append('  val_i64(0i64)\n}')
    return '\n'.join(out)
