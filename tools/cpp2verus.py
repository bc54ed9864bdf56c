#!/usr/bin/env python3
"""Mechanical translation of PGBigNumber's C++ (clang JSON AST, after preprocessing and template
instantiation) to Verus, with contracts spliced in from /verif/contracts.  Nothing about the code is written by hand:
every executable statement of the generated file comes from an AST node of /repo's current sources.
What is modelled by trusted primitives is listed in verus/prelude.rs."""
import json, subprocess, re, sys, os, hashlib

class ExtractError(Exception): pass

REPO = os.environ.get('VREPO', '/repo')

def clang_ast(src, defs=('PGBN_DEBUG', 'PGZXB_DEBUG')):
    cmd = ['clang++', '-std=c++17'] + ['-D' + d for d in defs] + ['-fsyntax-only', '-w', '-Xclang', '-ast-dump=json',
           '-Xclang', '-ast-dump-filter=pg', '-I' + REPO + '/src', src]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0: raise ExtractError('clang: ' + p.stderr[:400])
    out = p.stdout; dec = json.JSONDecoder(); i = 0; res = []
    n = len(out)
    while True:
        while i < n and out[i].isspace(): i += 1
        if i >= n: break
        o, i = dec.raw_decode(out, i); res.append(o)
    return res

CLS = {'BigIntegerImpl': 'Big', 'Slice': 'Slice', 'BigInteger': 'Int', 'Fraction': 'Frac', 'ExprParser': 'ExprParser', 'pgbn_BigInteger_t': 'Cb', 'pgbn_String_t': 'Cs'}
SCAL = {'unsigned long': 'u64', 'long': 'i64', 'unsigned int': 'u32', 'int': 'i32', 'bool': 'bool', 'unsigned char': 'u8',
        'signed char': 'i8', 'char': 'i8', 'short': 'i16', 'unsigned short': 'u16', 'unsigned long long': 'u64', 'long long': 'i64',
        'size_t': 'u64', 'void': 'void'}
TYPEDEFS = {'SizeType': 'u64', 'pgbn::SizeType': 'u64', 'Enum': 'u32', 'std::uint32_t': 'u32', 'std::int64_t': 'i64', 'std::uint64_t': 'u64', '::std::int64_t': 'i64',
            'uint32_t': 'u32', 'uint64_t': 'u64', 'int64_t': 'i64', 'std::int32_t': 'i32', 'int32_t': 'i32', 'Byte': 'u8', 'std::size_t': 'u64', 'difference_type': 'i64', 'std::int8_t': 'i8', 'std::uint8_t': 'u8', 'pgbn_Enum_t': 'u32', 'int8_t': 'i8', 'uint8_t': 'u8', 'std::errc': 'i32', 'errc': 'i32'}
BITS = {'u64': 64, 'u32': 32, 'i64': 64, 'i32': 32, 'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'bool': 1}

SPELL = {'long long': 'llong', 'unsigned long long': 'ullong', 'long': 'long', 'unsigned long': 'ulong', 'char': 'char', 'unsigned char': 'uchar', 'int': 'int', 'unsigned int': 'uint', 'short': 'short', 'unsigned short': 'ushort', 'bool': 'bool'}
OPN = {'operator=': 'op_assign', 'operator[]': 'op_index', 'operator+': 'op_add', 'operator-': 'op_sub', 'operator*': 'op_mul', 'operator/': 'op_div',
       'operator%': 'op_mod', 'operator+=': 'op_addeq', 'operator-=': 'op_subeq', 'operator*=': 'op_muleq', 'operator/=': 'op_diveq', 'operator%=': 'op_modeq',
       'operator&': 'op_and', 'operator|': 'op_or', 'operator^': 'op_xor', 'operator~': 'op_not', 'operator&=': 'op_andeq', 'operator|=': 'op_oreq', 'operator^=': 'op_xoreq',
       'operator<<': 'op_shl', 'operator>>': 'op_shr', 'operator<<=': 'op_shleq', 'operator>>=': 'op_shreq', 'operator++': 'op_inc', 'operator--': 'op_dec',
       'operator==': 'op_eq', 'operator!=': 'op_ne', 'operator<': 'op_lt', 'operator<=': 'op_le', 'operator>': 'op_gt', 'operator>=': 'op_ge', 'operator!': 'op_lnot', 'operator bool': 'op_bool',
       'operator()': 'op_call', 'operator->': 'op_arrow'}
RESERVED = set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try int nat seq spec proof exec ghost tracked h h0 h1 B U64 MAXN m cnt cell live wf val pw pv v'.split())

def cls_of(t):
    t = strip_cv(t)
    t = re.sub(r'^(class|struct) ', '', t)
    b = t.split('<')[0].split('::')[-1].strip()
    if b in CLS:
        if b == 'Slice' and '<' in t and not re.search(r'<\s*(unsigned int|std::uint32_t|uint32_t)\b', t): return None
        return CLS[b]
    return None

def strip_cv(t):
    t = t.strip()
    while True:
        if t.startswith('const '): t = t[6:].strip(); continue
        if t.startswith('volatile '): t = t[9:].strip(); continue
        if t.endswith(' const'): t = t[:-6].strip(); continue
        if t.endswith('*const'): t = t[:-5].strip(); continue
        return t

def qt(n): 
    ty = n.get('type', {})
    return ty.get('desugaredQualType') or ty.get('qualType', '')

class Ty:
    """k: scal / void / ref / rref / ptr / cls / it / sp / vec / vecb / bptr / str / tuple"""
    def __init__(s, k, a=None, const=False): s.k = k; s.a = a; s.const = const
    def __repr__(s): return '%s(%s%s)' % (s.k, 'const ' if s.const else '', s.a)

def parse_type(t):
    t0 = t; t = t.strip()
    if t.endswith('&&'): return Ty('rref', parse_type(t[:-2]))
    if t.endswith('&'): return Ty('ref', parse_type(t[:-1]))
    const = t.startswith('const ') or t.endswith(' const') or t.endswith('*const')
    t = strip_cv(t)
    if t.endswith('*'): return Ty('ptr', parse_type(t[:-1]), const)
    if t in SCAL: return Ty('void' if SCAL[t] == 'void' else 'scal', SCAL[t], const)
    if t in TYPEDEFS: return Ty('scal', TYPEDEFS[t], const)
    c = cls_of(t)
    if c: return Ty('cls', c, const)
    if 'reverse_iterator<' in t and 'basic_string' in t: return Ty('rit', None, const)
    if re.match(r'(std::)?vector<(std::)?(__cxx11::)?(basic_string<char|string\b)', t): return Ty('vecs', None, const)
    if re.match(r'(std::)?(__cxx11::)?basic_string<char', t) or t in ('std::string', 'string'): return Ty('sb', None, const)
    if re.search(r'(^|::)(from_chars_result|to_chars_result)$', t): return Ty('fcr', None, const)
    if '__normal_iterator' in t: return Ty('it', 'const' if re.search(r'normal_iterator<const', t) else 'mut', const)
    if re.search(r'(^|::)(iterator|const_iterator)$', t): return Ty('it', None, const)
    if re.search(r'shared_ptr(_access)?<', t) and ('vector<unsigned int' in t or 'Vec' in t): return Ty('sp', None, const)
    if re.match(r'(std::)?vector<(unsigned int|std::uint32_t)', t) or t in ('Vec', 'element_type'): return Ty('vec', None, const)
    if re.match(r'(std::)?vector<(pg::base::bigNumber::)?BigIntegerImpl', t): return Ty('vecb', None, const)
    if 'basic_string_view' in t or t in ('StringArg', 'pgbn::StringArg', 'std::string_view'): return Ty('str', None, const)
    if 'unique_ptr<' in t and 'BigIntegerImpl' in t: return Ty('up', None, const)
    if t.startswith('std::tuple<') or t.startswith('tuple<'):
        inner = t[t.index('<') + 1:t.rindex('>')]
        return Ty('tuple', [parse_type(x) for x in inner.split(',')], const)
    return Ty('other', t, const)

def rty(ty):
    """Rust type of a value of C++ type ty (class objects and pointers to them are ids)"""
    k = ty.k
    if k == 'scal': return ty.a
    if k == 'void': return '()'
    if k == 'cls': return {'Slice': 'SRef', 'Big': 'BId', 'Int': 'WId', 'Frac': 'FId', 'Cb': 'WId', 'Cs': 'CId'}.get(ty.a, 'Other')
    if k == 'it': return 'It'
    if k in ('ref', 'rref'):
        if ty.a.k == 'scal':
            if ty.a.const: return ty.a.a
            if ty.a.a == 'u32': return 'It'
            return '&mut ' + ty.a.a
        return rty(ty.a)
    if k == 'ptr':
        if ty.a.k == 'scal' and ty.a.a == 'bool': return 'BoolP'
        if ty.a.k == 'scal' and ty.a.a == 'u32': return 'It'
        if ty.a.k == 'scal' and ty.a.a in ('u8', 'i8'): return 'Bp'
        if ty.a.k == 'void': return 'Bp'
        if ty.a.k == 'cls': return rty(ty.a)
    if k == 'vecb': return 'Vec<BId>'
    if k == 'str': return 'Str'
    if k == 'sb': return 'Sb'
    if k == 'vecs': return 'Vec<Sb>'
    if k == 'rit': return 'u64'
    if k == 'fcr': return 'FcRes'
    if k == 'tuple': return '(' + ', '.join(rty(x) for x in ty.a) + ')'
    if k == 'sp': return 'SRef'
    raise ExtractError('no verifier type for %r' % ty)

def kindname(ty):
    def nm(t):
        if t.k == 'scal': return t.a
        if t.k == 'cls': return t.a if t.a in ('Cb', 'Cs') else t.a[0]
        if t.k == 'void': return 'v'
        return t.k
    if ty.k == 'ref': return nm(ty.a) if (ty.a.const or ty.a.k == 'other') else 'r' + nm(ty.a)
    if ty.k == 'rref': return 'm' + nm(ty.a)
    if ty.k == 'ptr': return 'p' + nm(ty.a)
    if ty.k == 'cls': return 'v' + nm(ty)
    return nm(ty)

class Decl: pass

class TU:
    def __init__(s, path):
        s.path = path
        s.roots = clang_ast(path)
        s.byid = {}
        s.parent = {}
        s.fns = []
        for r in s.roots: s.walk(r, None, None)
    def walk(s, n, cls, par):
        k = n.get('kind')
        if k is None: return
        if k.endswith('Decl') and 'id' in n:
            if n['id'] in s.byid and 'inner' in s.byid[n['id']] and 'inner' not in n: return
            s.byid[n['id']] = n; s.parent[n['id']] = (cls, par)
        c2, p2 = cls, par
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            c2 = n
        if k in ('NamespaceDecl',): p2 = n.get('name')
        if k == 'ClassTemplateDecl' or k == 'FunctionTemplateDecl':
            for x in n.get('inner', []):
                if x.get('kind') in ('ClassTemplateSpecializationDecl',): s.walk(x, None, p2)
                elif (x.get('kind') in ('FunctionDecl', 'CXXMethodDecl') or x.get('kind') == 'CXXConstructorDecl' and x.get('name') == 'ExprParser') and any(y.get('kind') == 'TemplateArgument' for y in x.get('inner', [])): s.walk(x, cls, p2)
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            s.fns.append(n)
            for x in n.get('inner', []):
                s.index(x)
            return
        for x in n.get('inner', []): s.walk(x, c2, p2)
    def index(s, n):
        if not isinstance(n, dict): return
        if str(n.get('kind', '')).endswith('Decl') and 'id' in n: s.byid.setdefault(n['id'], n)
        for x in n.get('inner', []): s.index(x)
    def first(s, d):
        seen = 0
        while 'previousDecl' in d and d['previousDecl'] in s.byid and seen < 20: d = s.byid[d['previousDecl']]; seen += 1
        return d
    def cls_name(s, d):
        f = s.first(d)
        c = s.parent.get(f['id'], (None, None))[0]
        if c is None and 'parentDeclContextId' in d and d['parentDeclContextId'] in s.byid: c = s.byid[d['parentDeclContextId']]
        if c is None: return None
        n = c.get('name')
        return CLS.get(n, n)
    def ns_name(s, d):
        f = s.first(d)
        return s.parent.get(f['id'], (None, None))[1]
    def params(s, d): return [p for p in d.get('inner', []) if p.get('kind') == 'ParmVarDecl']
    def mangle(s, d):
        cls = s.cls_name(d)
        ps = [kindname(parse_type(qt(p))) for p in s.params(d)]
        nm = d.get('name', '')
        if d['kind'] == 'CXXConstructorDecl': nm = 'ctor'
        elif d['kind'] == 'CXXDestructorDecl': nm = 'dtor'
        else: nm = OPN.get(nm, nm)
        nm = re.sub(r'[^A-Za-z0-9_]', '_', nm)
        if cls == 'Int' and nm == 'as':
            rt = parse_type(d['type']['qualType'].split('(')[0].strip())
            nm = 'as_' + ('string' if 'string' in str(rt.a) else SPELL.get(d['type']['qualType'].split('(')[0].strip(), kindname(rt)))
        pre = cls if cls else (s.ns_name(d) or '')
        r = (pre + '_' if pre else '') + nm + ''.join('_' + p for p in ps)
        t = d.get('type', {}).get('qualType', '')
        if cls == 'Slice' and re.search(r'\)\s*const', t) and nm in ('op_index', 'begin', 'end'): r += '_c'
        return r
    def is_const(s, d): return bool(re.search(r'\)\s*const', d.get('type', {}).get('qualType', '')))
    def is_static(s, d): return s.first(d).get('storageClass') == 'static' or d.get('storageClass') == 'static'
    def body(s, d):
        for x in d.get('inner', []):
            if x.get('kind') == 'CompoundStmt': return x
        return None

class Fdef:
    def __init__(s, tu, d):
        s.tu = tu; s.d = d; s.name = tu.mangle(d)
        s.cls = tu.cls_name(d)
        s.is_ctor = d['kind'] == 'CXXConstructorDecl'
        s.is_method = d['kind'] in ('CXXMethodDecl', 'CXXConversionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl') and not tu.is_static(d)
        s.params = tu.params(d)
        t = d['type']['qualType']
        if s.is_ctor: s.ret = Ty('void')
        else:
            # return type: text before the parameter list
            depth = 0; i = len(t) - 1
            t2 = re.sub(r'\s*(const|noexcept|&|&&)*\s*$', '', t)
            t2 = t.rstrip()
            for suf in (' noexcept', ' const'):
                if t2.endswith(suf): t2 = t2[:-len(suf)]
            if ' -> ' in t2: rt = t2.split(' -> ')[-1]
            else:
                i = len(t2) - 1
                if t2[i] != ')': raise ExtractError('fn type ' + t)
                depth = 0
                while i >= 0:
                    if t2[i] == ')': depth += 1
                    elif t2[i] == '(':
                        depth -= 1
                        if depth == 0: break
                    i -= 1
                rt = t2[:i].strip()
            s.ret = parse_type(rt)
            if s.ret.k in ('ref',) and s.ret.a.k == 'other' and s.ret.a.a == 'T': s.ret = Ty('ref', Ty('scal', 'u32'))
        if s.ret.k == 'ref' and s.ret.a.k == 'scal' and s.ret.a.a == 'u32': s.ret = Ty('ref', Ty('scal', 'u32'))
        s.retslot = s.ret.k == 'cls'
    def key(s): return s.name

class World:
    """All function definitions of the translation units, by mangled name"""
    def __init__(s, files):
        s.tus = []; s.defs = {}; s.decls = {}
        for f in files:
            tu = TU(f if f.startswith('/') else REPO + '/src/' + f); s.tus.append(tu)
            for d in tu.fns:
                if d.get('isInvalid') or 'T' == qt(d): continue
                try: fd = Fdef(tu, d)
                except ExtractError: continue
                if '<dependent type>' in json.dumps(d.get('type', {})): continue
                if tu.body(d) is not None:
                    if fd.name not in s.defs: s.defs[fd.name] = fd
                s.decls.setdefault(fd.name, fd)
    def lookup(s, tu, declid):
        d = tu.byid.get(declid)
        if d is None: return None
        try: return Fdef(tu, d).name
        except ExtractError: return None
