// Expression layer: the pool of nodes, the token list, the parser state and the two status objects form one heap X.
// A node pointer is the 1-based index of the node in the pool (0: null); a BigIntegerImpl is its value, its operations
// carry the contracts proved for the library itself; a std::function member holds the identity of one library callback.
pub type NP = u64; pub type Sy = u64; pub type StP = u64; pub type PoolP = u64;
#[derive(Clone, Copy)] pub struct Val { pub g: Ghost<int> }
#[derive(Clone, Copy)] pub struct Token { pub type_: u32, pub pSymbol: u64, pub val: Val }
pub struct Nd { pub ch: Seq<u64>, pub cb: u32, pub pt: u32, pub nt: u32, pub ty: u32, pub val: int, pub sym: u64, pub idx: u32 }
pub struct X { pub m_tokens: Vec<Token>, pub m_currTokenIndex: u64, pub m_errCode: u32, pub m_count: u32, pub m_pNodePool: u64,
  pub m_flags: u32, pub m_cStr: u64, pub m_current: u64, pub m_end: u64, pub src: Ghost<Seq<i8>>,
  pub st: u32, pub us: u32, pub nodes: Ghost<Seq<Nd>>, pub ex: Ghost<nat> }
pub struct Ch { pub s: Ghost<Seq<u64>> }
pub struct Vals { pub s: Ghost<Seq<int>> }
pub struct Fu { pub argCount: i32, pub sym: u64 }
pub type VTok = Vec<Token>;
pub struct Sv { pub s: Ghost<Seq<i8>> }
pub struct Stg { pub s: Ghost<Seq<i8>> }
pub struct Cp { pub s: Ghost<Seq<i8>> }        // a character pointer with what may be read from it

// ---- meaning of an expression: its value, whether it is defined (d) and free of calls of user functions (f)
pub struct Sem { pub v: int, pub d: bool, pub f: bool }
pub uninterp spec fn sy_isv(s: u64) -> bool;            // the symbol holds a Value / a Func with a callable
pub uninterp spec fn sy_isf(s: u64) -> bool;
pub uninterp spec fn sy_val(s: u64) -> int;
pub uninterp spec fn sy_argc(s: u64) -> int;
pub uninterp spec fn sy_app(s: u64, a: Seq<int>) -> int;
pub uninterp spec fn b_and(a: int, b: int) -> int;       // two's complement operations of the library (P06)
pub uninterp spec fn b_or(a: int, b: int) -> int;
pub uninterp spec fn b_xor(a: int, b: int) -> int;
pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
pub open spec fn tdiv(a: int, b: int) -> int { if b == 0 { 0 } else if (a >= 0) == (b > 0) { (if a < 0 { -a } else { a }) / (if b < 0 { -b } else { b }) } else { -((if a < 0 { -a } else { a }) / (if b < 0 { -b } else { b })) } }
pub open spec fn tmod(a: int, b: int) -> int { a - b * tdiv(a, b) }
pub open spec fn ipow(a: int, n: int) -> int decreases n { if n <= 0 { 1 } else { a * ipow(a, n - 1) } }
pub open spec fn fact(n: int) -> int decreases n { if n <= 1 { 1 } else { n * fact(n - 1) } }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn isbin(t: u32) -> bool { t == TK_OR() || t == TK_XOR() || t == TK_AND() || t == TK_EQU() || t == TK_NEQU() || t == TK_LT() || t == TK_LE() || t == TK_GT() || t == TK_GE()
  || t == TK_ADD() || t == TK_SUB() || t == TK_MUL() || t == TK_DIV() || t == TK_MOD() || t == TK_SHIFTLEFT() || t == TK_SHIFTRIGHT() || t == TK_POW() }
pub open spec fn isun(t: u32) -> bool { t == TK_ADD() || t == TK_SUB() || t == TK_NOT() || t == TK_FACT() }
pub open spec fn binv(t: u32, a: int, b: int) -> int {
  if t == TK_OR() { b_or(a, b) } else if t == TK_XOR() { b_xor(a, b) } else if t == TK_AND() { b_and(a, b) }
  else if t == TK_EQU() { b2i(a == b) } else if t == TK_NEQU() { b2i(a != b) } else if t == TK_LT() { b2i(a < b) } else if t == TK_LE() { b2i(a <= b) }
  else if t == TK_GT() { b2i(a > b) } else if t == TK_GE() { b2i(a >= b) } else if t == TK_ADD() { a + b } else if t == TK_SUB() { a - b }
  else if t == TK_MUL() { a * b } else if t == TK_DIV() { tdiv(a, b) } else if t == TK_MOD() { tmod(a, b) }
  else if t == TK_SHIFTLEFT() { a * p2(b) } else if t == TK_SHIFTRIGHT() { a / p2(b) } else { ipow(a, b) } }
pub open spec fn bind(t: u32, a: int, b: int) -> bool {
  if t == TK_DIV() || t == TK_MOD() { b != 0 } else if t == TK_SHIFTLEFT() || t == TK_SHIFTRIGHT() { 0 <= b < 0x1_0000_0000_0000_0000 } else if t == TK_POW() { b >= 0 } else { true } }
pub open spec fn sbin(t: u32, a: Sem, b: Sem) -> Sem { Sem { v: binv(t, a.v, b.v), d: a.d && b.d && bind(t, a.v, b.v), f: a.f && b.f } }
pub open spec fn sun(t: u32, a: Sem) -> Sem {
  Sem { v: if t == TK_ADD() { a.v } else if t == TK_SUB() { -a.v } else if t == TK_NOT() { -a.v - 1 } else { fact(a.v) }, d: a.d && (t == TK_FACT() ==> a.v >= 0), f: a.f } }
pub open spec fn sif(c: Sem, a: Sem, b: Sem) -> Sem { Sem { v: if c.v != 0 { a.v } else { b.v }, d: c.d && (if c.v != 0 { a.d } else { b.d }), f: c.f && a.f && b.f } }
pub open spec fn vals_of(a: Seq<Sem>) -> Seq<int> { Seq::new(a.len(), |i: int| a[i].v) }
pub open spec fn scall(s: u64, a: Seq<Sem>) -> Sem { Sem { v: sy_app(s, vals_of(a)), d: (sy_argc(s) == -1 || sy_argc(s) == a.len()) && forall |i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).d, f: false } }

// ---- the grammar over tokens: one function per precedence level; Some((meaning, index after)) or None
pub open spec fn isop(l: int, t: u32) -> bool {
  if l == 0 { t == TK_OR() } else if l == 1 { t == TK_XOR() } else if l == 2 { t == TK_AND() } else if l == 3 { t == TK_EQU() || t == TK_NEQU() }
  else if l == 4 { t == TK_LT() || t == TK_LE() || t == TK_GT() || t == TK_GE() } else if l == 5 { t == TK_SHIFTLEFT() || t == TK_SHIFTRIGHT() }
  else if l == 6 { t == TK_ADD() || t == TK_SUB() } else if l == 7 { t == TK_MUL() || t == TK_DIV() || t == TK_MOD() } else if l == 8 { t == TK_POW() } else { false } }
pub type PR = Option<(Sem, int)>;
pub open spec fn at(s: Seq<Token>, i: int) -> u32 { if 0 <= i < s.len() { s[i].type_ } else { TK_INVALID() } }
pub open spec fn pE(s: Seq<Token>, i: int) -> PR decreases s.len() - i, 20int {
  match pB(s, i, 0) { None => None, Some((c, j)) =>
    if at(s, j) != TK_QMARK() { Some((c, j)) } else if j < i || j >= s.len() { None } else { match pE(s, j + 1) { None => None, Some((a, k)) =>
      if at(s, k) != TK_COLON() || k < i || k >= s.len() { None } else { match pE(s, k + 1) { None => None, Some((b, m)) => Some((sif(c, a, b), m)) } } } } } }
pub open spec fn pB(s: Seq<Token>, i: int, l: int) -> PR decreases s.len() - i, if l < 0 { 19int } else if l <= 8 { 19 - l } else { 9 } {
  if l < 0 || l > 8 { pU(s, i) } else { match pB(s, i, l + 1) { None => None, Some((a, j)) => if j <= i || j >= s.len() { None } else { pL(s, l, a, j) } } } }
pub open spec fn pL(s: Seq<Token>, l: int, a: Sem, j: int) -> PR decreases s.len() - j, 30int {
  if !isop(l, at(s, j)) { Some((a, j)) } else if j >= s.len() || j < 0 || l < 0 || l > 8 { None } else { match pB(s, j + 1, l + 1) { None => None, Some((b, k)) => if k <= j || k >= s.len() { None } else { pL(s, l, sbin(at(s, j), a, b), k) } } } }
pub open spec fn pU(s: Seq<Token>, i: int) -> PR decreases s.len() - i, 8int {
  let t = at(s, i);
  if t == TK_ADD() || t == TK_SUB() || t == TK_NOT() { if i >= s.len() || i < 0 { None } else { match pU(s, i + 1) { None => None, Some((a, j)) => Some((sun(t, a), j)) } } }
  else { match pP(s, i) { None => None, Some((a, j)) => Some(pF(s, a, j)) } } }
pub open spec fn pF(s: Seq<Token>, a: Sem, j: int) -> (Sem, int) decreases s.len() - j { if at(s, j) != TK_FACT() || j >= s.len() || j < 0 { (a, j) } else { pF(s, sun(TK_FACT(), a), j + 1) } }
pub open spec fn pP(s: Seq<Token>, i: int) -> PR decreases s.len() - i, 7int {
  let t = at(s, i);
  if i < 0 || i >= s.len() { None }
  else if t == TK_LEFTBRACKET() { match pE(s, i + 1) { None => None, Some((a, j)) => if at(s, j) != TK_RIGHTBRACKET() { None } else { Some((a, j + 1)) } } }
  else if t == TK_LITERAL() { Some((Sem { v: s[i].val.g@, d: true, f: true }, i + 1)) }
  else if t == TK_BUILTINCONSTANT() { Some((Sem { v: sy_val(s[i].pSymbol), d: true, f: true }, i + 1)) }
  else if t == TK_BUILTINFUNC() { if at(s, i + 1) != TK_LEFTBRACKET() { None } else { match pA(s, i + 2, Seq::empty()) { None => None, Some((a, j)) => Some((scall(s[i].pSymbol, a), j)) } } }
  else { None } }
// arguments up to and including the closing bracket
pub open spec fn pA(s: Seq<Token>, i: int, acc: Seq<Sem>) -> Option<(Seq<Sem>, int)> decreases s.len() - i, 31int {
  if at(s, i) == TK_RIGHTBRACKET() { Some((acc, i + 1)) }
  else { let i2 = if acc.len() > 0 { i + 1 } else { i };
    if (acc.len() > 0 && at(s, i) != TK_COMMA()) || i < 0 || i2 >= s.len() { None } else { match pE(s, i2) { None => None, Some((a, j)) => if j <= i2 || j >= s.len() { None } else { pA(s, j, acc.push(a)) } } } } }

// ---- meaning of a node of the pool
pub open spec fn nv(n: Seq<Nd>, p: int) -> Option<Sem> decreases p, 2int, 0int {
  if !(1 <= p <= n.len()) { None } else { let d = n[p - 1];
    if d.cb == scb_detail_valEvalCallback_pother_bool() {
      if d.nt == TK_LITERAL() { Some(Sem { v: d.val, d: true, f: true }) } else if d.nt == TK_BUILTINCONSTANT() && sy_isv(d.sym) { Some(Sem { v: sy_val(d.sym), d: true, f: true }) } else { None } }
    else if d.cb == scb_detail_unaryOpEvalCallback_pother_bool() { if d.ch.len() != 1 || !isun(d.nt) { None } else { match nvk(n, p, 0) { Some(a) => Some(sun(d.nt, a)), None => None } } }
    else if d.cb == scb_detail_binOpEvalCallback_pother_bool() { if d.ch.len() != 2 || !isbin(d.nt) { None } else { match (nvk(n, p, 0), nvk(n, p, 1)) { (Some(a), Some(b)) => Some(sbin(d.nt, a, b)), _ => None } } }
    else if d.cb == scb_detail_ifElseNodeEvalCallback_pother_bool() { if d.ch.len() != 3 { None } else { match (nvk(n, p, 0), nvk(n, p, 1), nvk(n, p, 2)) { (Some(c), Some(a), Some(b)) => Some(sif(c, a, b)), _ => None } } }
    else if d.cb == scb_detail_builtinFuncEvalCallback_pother_bool() { if d.nt == TK_BUILTINFUNC() && sy_isf(d.sym) { match nva(n, p, d.ch.len() as int) { Some(a) => Some(scall(d.sym, a)), None => None } } else { None } }
    else { None } } }
// of its first m children
pub open spec fn nva(n: Seq<Nd>, p: int, m: int) -> Option<Seq<Sem>> decreases p, 1int, m {
  if m <= 0 { Some(Seq::empty()) } else { match (nva(n, p, m - 1), nvk(n, p, m - 1)) { (Some(a), Some(b)) => Some(a.push(b)), _ => None } } }
// of its k-th child
pub open spec fn nvk(n: Seq<Nd>, p: int, k: int) -> Option<Sem> decreases p, 0int, 0int {
  if 1 <= p <= n.len() && 0 <= k < n[p - 1].ch.len() && 1 <= n[p - 1].ch[k] < p { nv(n, n[p - 1].ch[k] as int) } else { None } }
pub open spec fn agree(a: Seq<Nd>, b: Seq<Nd>, q: int) -> bool { q <= a.len() && q <= b.len() && forall |i: int| 0 <= i < q ==> (#[trigger] a[i]) == b[i] }
pub proof fn nv_ext(a: Seq<Nd>, b: Seq<Nd>, q: int, p: int) requires agree(a, b, q), 1 <= p <= q ensures nv(a, p) == nv(b, p) decreases p {
  assert(a[p - 1] == b[p - 1]);
  let d = a[p - 1];
  {
    assert forall |k: int| 0 <= k < d.ch.len() implies (#[trigger] nvk(a, p, k)) == nvk(b, p, k) by { let c = d.ch[k]; if 1 <= c < p { nv_ext(a, b, q, c as int); } }
    if d.cb == scb_detail_unaryOpEvalCallback_pother_bool() && d.ch.len() == 1 { assert(nvk(a, p, 0) == nvk(b, p, 0)); }
    if d.cb == scb_detail_binOpEvalCallback_pother_bool() && d.ch.len() == 2 { assert(nvk(a, p, 0) == nvk(b, p, 0)); assert(nvk(a, p, 1) == nvk(b, p, 1)); }
    if d.cb == scb_detail_ifElseNodeEvalCallback_pother_bool() && d.ch.len() == 3 { assert(nvk(a, p, 0) == nvk(b, p, 0)); assert(nvk(a, p, 1) == nvk(b, p, 1)); assert(nvk(a, p, 2) == nvk(b, p, 2)); }
    nva_eq(a, b, p, d.ch.len() as int);
  }
}
pub proof fn nva_eq(a: Seq<Nd>, b: Seq<Nd>, p: int, m: int)
  requires 1 <= p <= a.len(), p <= b.len(), a[p - 1] == b[p - 1], m <= a[p - 1].ch.len(), forall |k: int| 0 <= k < a[p - 1].ch.len() ==> (#[trigger] nvk(a, p, k)) == nvk(b, p, k)
  ensures nva(a, p, m) == nva(b, p, m) decreases m {
  if m > 0 { nva_eq(a, b, p, m - 1); assert(nvk(a, p, m - 1) == nvk(b, p, m - 1)); }
}
pub proof fn nva_len(a: Seq<Nd>, p: int, m: int) requires m >= 0, nva(a, p, m) is Some ensures nva(a, p, m).unwrap().len() == m decreases m { if m > 0 { nva_len(a, p, m - 1); } }
pub proof fn nva_at(a: Seq<Nd>, p: int, m: int, k: int) requires 0 <= k < m, nva(a, p, m) is Some ensures nva(a, p, k) is Some, nva(a, p, k + 1) is Some, nvk(a, p, k) is Some, nva(a, p, m).unwrap().len() == m, nva(a, p, m).unwrap()[k] == nvk(a, p, k).unwrap(), nva(a, p, k + 1) == Some(nva(a, p, k).unwrap().push(nvk(a, p, k).unwrap())) decreases m {
  nva_len(a, p, m); nva_len(a, p, m - 1);
  if k < m - 1 { nva_at(a, p, m - 1, k); } }

pub proof fn nva_mk(n: Seq<Nd>, p: int, m: int, u: Seq<Sem>) requires 0 <= m <= u.len(), forall |k: int| 0 <= k < m ==> (#[trigger] nvk(n, p, k)) == Some(u[k]) ensures nva(n, p, m) == Some(u.take(m)) decreases m {
  if m > 0 { nva_mk(n, p, m - 1, u); assert(nvk(n, p, m - 1) == Some(u[m - 1])); assert(u.take(m) =~= u.take(m - 1).push(u[m - 1])); } else { assert(u.take(0) =~= Seq::empty()); } }
pub proof fn pb9(s: Seq<Token>) ensures forall |i: int| #[trigger] pB(s, i, 9) == pU(s, i) { assert forall |i: int| #[trigger] pB(s, i, 9) == pU(s, i) by { } }

// ---- invariants of the parser state and what a parsing function may do
pub open spec fn BADT() -> u32 { 15 }
pub open spec fn NEGF() -> u32 { 4 }
pub open spec fn toks_ok(s: Seq<Token>) -> bool {
  &&& 0 < s.len() < 0x8000_0000 && s[s.len() - 1].type_ == TK_INVALID()
  &&& forall |i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]).type_ == TK_BUILTINFUNC() ==> sy_isf(s[i].pSymbol)) && (s[i].type_ == TK_BUILTINCONSTANT() ==> sy_isv(s[i].pSymbol)) }
pub open spec fn pool_ok(h: X) -> bool { h.nodes@.len() == 32 + h.ex@ && h.ex@ == (if h.m_count > 32 { h.m_count - 32 } else { 0 }) }
pub open spec fn pinv(h: X) -> bool { toks_ok(h.m_tokens@) && pool_ok(h) && h.m_currTokenIndex < h.m_tokens@.len() && h.m_count <= h.m_currTokenIndex }
pub open spec fn pext(a: X, b: X) -> bool {
  &&& b.m_tokens == a.m_tokens && b.us == a.us && b.m_pNodePool == a.m_pNodePool && a.m_currTokenIndex <= b.m_currTokenIndex && a.m_count <= b.m_count
  &&& b.m_count - a.m_count <= b.m_currTokenIndex - a.m_currTokenIndex
  &&& same(a, b)
  &&& a.m_errCode != 0 ==> b.st == a.st || b.st == BADT()
  &&& a.m_errCode != 0 ==> b.m_errCode != 0
  &&& b.m_errCode == 0 ==> b.st == a.st
  &&& a.m_errCode == 0 && b.m_errCode != 0 ==> b.st == BADT() }
pub open spec fn okres(a: X, b: X, r: PR, p: u64) -> bool {
  match r { None => b.m_errCode != 0, Some((s, j)) => b.m_errCode == 0 && b.m_currTokenIndex == j && a.m_currTokenIndex < j && 1 <= p <= b.m_count && nv(b.nodes@, p as int) == Some(s) } }
// everything but the nodes (and the counters of the pool) is as before
pub open spec fn kstrm(a: X, b: X) -> bool { b.m_flags == a.m_flags && b.m_cStr == a.m_cStr && b.m_current == a.m_current && b.m_end == a.m_end && b.src == a.src }
pub open spec fn keep(a: X, b: X) -> bool { kstrm(a, b) && b.m_tokens == a.m_tokens && b.m_currTokenIndex == a.m_currTokenIndex && b.m_errCode == a.m_errCode && b.m_pNodePool == a.m_pNodePool && b.st == a.st && b.us == a.us }
pub open spec fn keepc(a: X, b: X) -> bool { keep(a, b) && b.m_count == a.m_count && b.ex == a.ex }
pub open spec fn same(a: X, b: X) -> bool { agree(a.nodes@, b.nodes@, a.m_count as int) && forall |p: int| 1 <= p <= a.m_count ==> (#[trigger] nv(b.nodes@, p)) == nv(a.nodes@, p) }
pub open spec fn newnode(a: X, b: X, p: u64) -> bool { keep(a, b) && pool_ok(b) && p == a.m_count + 1 && b.m_count == a.m_count + 1 && same(a, b) }
pub proof fn same_i(a: X, b: X) requires agree(a.nodes@, b.nodes@, a.m_count as int) ensures same(a, b) {
  assert forall |p: int| 1 <= p <= a.m_count implies (#[trigger] nv(b.nodes@, p)) == nv(a.nodes@, p) by { nv_ext(a.nodes@, b.nodes@, a.m_count as int, p); } }
pub open spec fn chk(h: X, p: u64) -> bool { 1 <= p <= h.m_count && nv(h.nodes@, p as int) is Some }
pub open spec fn nm(h: X, p: u64) -> Sem { nv(h.nodes@, p as int).unwrap() }
pub open spec fn chks(h: X, c: Seq<u64>) -> bool { forall |k: int| 0 <= k < c.len() ==> chk(h, #[trigger] c[k]) }
pub open spec fn nms(h: X, c: Seq<u64>) -> Seq<Sem> { Seq::new(c.len(), |k: int| nm(h, c[k])) }
pub open spec fn loopok(h0: X, h: X, l: int, node: u64) -> bool { let s = h0.m_tokens@; let r = pB(s, h0.m_currTokenIndex as int, l);
  if h.m_errCode != 0 { r is None } else { h0.m_currTokenIndex < h.m_currTokenIndex && chk(h, node) && r == pL(s, l, nm(h, node), h.m_currTokenIndex as int) } }
pub open spec fn pPF(s: Seq<Token>, i: int) -> PR { match pP(s, i) { None => None, Some((a, j)) => Some(pF(s, a, j)) } }
pub open spec fn loopf(h0: X, h: X, node: u64) -> bool { let s = h0.m_tokens@; let r = pPF(s, h0.m_currTokenIndex as int);
  if h.m_errCode != 0 { r is None } else { h0.m_currTokenIndex < h.m_currTokenIndex && chk(h, node) && r == Some(pF(s, nm(h, node), h.m_currTokenIndex as int)) } }
pub open spec fn argsok(h0: X, h: X, c: Ch) -> bool { let s = h0.m_tokens@;
  h.m_errCode == 0 && chks(h, c.s@) && pA(s, h0.m_currTokenIndex as int, Seq::empty()) == pA(s, h.m_currTokenIndex as int, nms(h, c.s@)) }
pub open spec fn wfexpr(s: Seq<Token>, i: int) -> bool { match pE(s, i) { None => false, Some((a, j)) => j + 1 == s.len() } }
pub open spec fn semexpr(s: Seq<Token>, i: int) -> Sem { pE(s, i).unwrap().0 }
// evaluation: only the status may change
pub open spec fn evs(a: X, b: X) -> bool { b == (X { st: b.st, ..a }) }
pub open spec fn evpre(h: X, p: u64, peval: bool) -> bool { nv(h.nodes@, p as int) is Some && !peval && pool_ok(h) }
pub open spec fn evpost(a: X, b: X, p: u64, r: Val) -> bool {
  let m = nv(a.nodes@, p as int).unwrap(); evs(a, b) && (m.d ==> r.g@ == m.v) && (m.d && m.f ==> b.st == a.st) }

// ---- primitive operations (assumed): fields of a pool node
#[verifier::external_body] pub fn nd_children(h: &X, p: NP) -> (r: Ch) requires 1 <= p <= h.nodes@.len() ensures r.s@ == h.nodes@[p - 1].ch { unimplemented!() }
#[verifier::external_body] pub fn nd_set_children(h: &mut X, p: NP, v: Ch) requires 1 <= p <= old(h).nodes@.len() ensures keepc(*old(h), *final(h)), final(h).nodes@ == old(h).nodes@.update(p - 1, Nd { ch: v.s@, ..old(h).nodes@[p - 1] }) { unimplemented!() }
#[verifier::external_body] pub fn nd_evalCallback(h: &X, p: NP) -> (r: u32) requires 1 <= p <= h.nodes@.len() ensures r == h.nodes@[p - 1].cb { unimplemented!() }
#[verifier::external_body] pub fn nd_set_evalCallback(h: &mut X, p: NP, v: u32) requires 1 <= p <= old(h).nodes@.len() ensures keepc(*old(h), *final(h)), final(h).nodes@ == old(h).nodes@.update(p - 1, Nd { cb: v, ..old(h).nodes@[p - 1] }) { unimplemented!() }
#[verifier::external_body] pub fn nd_pevalTask(h: &X, p: NP) -> (r: u32) requires 1 <= p <= h.nodes@.len() ensures r == h.nodes@[p - 1].pt { unimplemented!() }
#[verifier::external_body] pub fn nd_set_pevalTask(h: &mut X, p: NP, v: u32) requires 1 <= p <= old(h).nodes@.len() ensures keepc(*old(h), *final(h)), final(h).nodes@ == old(h).nodes@.update(p - 1, Nd { pt: v, ..old(h).nodes@[p - 1] }) { unimplemented!() }
#[verifier::external_body] pub fn nd_nodeType(h: &X, p: NP) -> (r: u32) requires 1 <= p <= h.nodes@.len() ensures r == h.nodes@[p - 1].nt { unimplemented!() }
#[verifier::external_body] pub fn nd_set_nodeType(h: &mut X, p: NP, v: u32) requires 1 <= p <= old(h).nodes@.len() ensures keepc(*old(h), *final(h)), final(h).nodes@ == old(h).nodes@.update(p - 1, Nd { nt: v, ..old(h).nodes@[p - 1] }) { unimplemented!() }
#[verifier::external_body] pub fn nd_type(h: &X, p: NP) -> (r: u32) requires 1 <= p <= h.nodes@.len() ensures r == h.nodes@[p - 1].ty { unimplemented!() }
#[verifier::external_body] pub fn nd_set_type(h: &mut X, p: NP, v: u32) requires 1 <= p <= old(h).nodes@.len() ensures keepc(*old(h), *final(h)), final(h).nodes@ == old(h).nodes@.update(p - 1, Nd { ty: v, ..old(h).nodes@[p - 1] }) { unimplemented!() }
#[verifier::external_body] pub fn nd_val(h: &X, p: NP) -> (r: Val) requires 1 <= p <= h.nodes@.len() ensures r.g@ == h.nodes@[p - 1].val { unimplemented!() }
#[verifier::external_body] pub fn nd_set_val(h: &mut X, p: NP, v: Val) requires 1 <= p <= old(h).nodes@.len() ensures keepc(*old(h), *final(h)), final(h).nodes@ == old(h).nodes@.update(p - 1, Nd { val: v.g@, ..old(h).nodes@[p - 1] }) { unimplemented!() }
#[verifier::external_body] pub fn nd_symbol(h: &X, p: NP) -> (r: u64) requires 1 <= p <= h.nodes@.len() ensures r == h.nodes@[p - 1].sym { unimplemented!() }
#[verifier::external_body] pub fn nd_set_symbol(h: &mut X, p: NP, v: u64) requires 1 <= p <= old(h).nodes@.len() ensures keepc(*old(h), *final(h)), final(h).nodes@ == old(h).nodes@.update(p - 1, Nd { sym: v, ..old(h).nodes@[p - 1] }) { unimplemented!() }
#[verifier::external_body] pub fn nd_indexInPool(h: &X, p: NP) -> (r: u32) requires 1 <= p <= h.nodes@.len() ensures r == h.nodes@[p - 1].idx { unimplemented!() }
#[verifier::external_body] pub fn nd_set_indexInPool(h: &mut X, p: NP, v: u32) requires 1 <= p <= old(h).nodes@.len() ensures keepc(*old(h), *final(h)), final(h).nodes@ == old(h).nodes@.update(p - 1, Nd { idx: v, ..old(h).nodes@[p - 1] }) { unimplemented!() }
// the pool: 32 nodes in place, further ones at the end of a deque (which never moves its elements)
#[verifier::external_body] pub fn pool_new(h: &mut X) -> (r: PoolP) ensures r != 0, *final(h) == (X { m_count: 0, nodes: final(h).nodes, ex: final(h).ex, ..*old(h) }), final(h).nodes@.len() == 32, final(h).ex@ == 0 { unimplemented!() }
#[verifier::external_body] pub fn pool_init_ptr(h: &X, i: u32) -> (r: NP) requires i < 32 ensures r == i + 1 { unimplemented!() }
#[verifier::external_body] pub fn pool_ex_push(h: &mut X) ensures keep(*old(h), *final(h)), final(h).m_count == old(h).m_count, final(h).ex@ == old(h).ex@ + 1, final(h).nodes@.len() == old(h).nodes@.len() + 1, agree(old(h).nodes@, final(h).nodes@, old(h).nodes@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn pool_ex_back(h: &X) -> (r: NP) requires h.ex@ > 0, h.nodes@.len() == 32 + h.ex@, h.ex@ < 0x1_0000_0000 ensures r == 32 + h.ex@ { unimplemented!() }
#[verifier::external_body] pub fn prom_get(h: &mut X, p: NP) -> (r: Val) requires false { unimplemented!() }
// containers
#[verifier::external_body] pub fn ch_new() -> (r: Ch) ensures r.s@ == Seq::<u64>::empty() { unimplemented!() }
#[verifier::external_body] pub fn ch_list1(a: NP) -> (r: Ch) ensures r.s@ == seq![a] { unimplemented!() }
#[verifier::external_body] pub fn ch_list2(a: NP, b: NP) -> (r: Ch) ensures r.s@ == seq![a, b] { unimplemented!() }
#[verifier::external_body] pub fn ch_list3(a: NP, b: NP, c: NP) -> (r: Ch) ensures r.s@ == seq![a, b, c] { unimplemented!() }
#[verifier::external_body] pub fn ch_at(c: &Ch, i: u64) -> (r: NP) requires i < c.s@.len() ensures r == c.s@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn ch_size(c: &Ch) -> (r: u64) ensures r == c.s@.len() { unimplemented!() }
#[verifier::external_body] pub fn ch_push(c: &mut Ch, a: NP) ensures final(c).s@ == old(c).s@.push(a) { unimplemented!() }
#[verifier::external_body] pub fn vals_new() -> (r: Vals) ensures r.s@ == Seq::<int>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vals_push(c: &mut Vals, a: Val) ensures final(c).s@ == old(c).s@.push(a.g@) { unimplemented!() }
#[verifier::external_body] pub fn vals_size(c: &Vals) -> (r: u64) ensures r == c.s@.len() { unimplemented!() }
#[verifier::external_body] pub fn vals_at(c: &Vals, i: u64) -> (r: Val) requires i < c.s@.len() ensures r.g@ == c.s@[i as int] { unimplemented!() }
// symbols (registered by the user of the library)
#[verifier::external_body] pub fn sy_func(s: Sy) -> (r: Fu) requires sy_isf(s) ensures r.argCount == sy_argc(s), r.sym == s { unimplemented!() }
#[verifier::external_body] pub fn sy_value(s: Sy) -> (r: Val) requires sy_isv(s) ensures r.g@ == sy_val(s) { unimplemented!() }
#[verifier::external_body] pub fn native_call(h: &mut X, f: Fu, a: &Vals) -> (r: Val) requires sy_isf(f.sym) ensures evs(*old(h), *final(h)), r.g@ == sy_app(f.sym, a.s@) { unimplemented!() }
// a BigIntegerImpl as a value: the contracts proved for the library's own functions (P01-P07, P12, P13)
#[verifier::external_body] pub fn val_i64(a: i64) -> (r: Val) ensures r.g@ == a { unimplemented!() }
#[verifier::external_body] pub fn val_add(a: Val, b: Val) -> (r: Val) ensures r.g@ == a.g@ + b.g@ { unimplemented!() }
#[verifier::external_body] pub fn val_sub(a: Val, b: Val) -> (r: Val) ensures r.g@ == a.g@ - b.g@ { unimplemented!() }
#[verifier::external_body] pub fn val_mul(a: Val, b: Val) -> (r: Val) ensures r.g@ == a.g@ * b.g@ { unimplemented!() }
#[verifier::external_body] pub fn val_or(a: Val, b: Val) -> (r: Val) ensures r.g@ == b_or(a.g@, b.g@) { unimplemented!() }
#[verifier::external_body] pub fn val_and(a: Val, b: Val) -> (r: Val) ensures r.g@ == b_and(a.g@, b.g@) { unimplemented!() }
#[verifier::external_body] pub fn val_xor(a: Val, b: Val) -> (r: Val) ensures r.g@ == b_xor(a.g@, b.g@) { unimplemented!() }
#[verifier::external_body] pub fn val_div(h: &mut X, a: Val, b: Val) -> (r: Val) ensures evs(*old(h), *final(h)), b.g@ != 0 ==> r.g@ == tdiv(a.g@, b.g@) && final(h).st == old(h).st { unimplemented!() }
#[verifier::external_body] pub fn val_modq(h: &mut X, a: Val, b: Val, q: Val) -> (r: (Val, Val)) ensures evs(*old(h), *final(h)), b.g@ != 0 ==> r.0.g@ == tmod(a.g@, b.g@) && r.1.g@ == tdiv(a.g@, b.g@) && final(h).st == old(h).st { unimplemented!() }
#[verifier::external_body] pub fn val_divq(h: &mut X, a: Val, b: Val, q: Val) -> (r: (Val, Val)) ensures evs(*old(h), *final(h)), b.g@ != 0 ==> r.0.g@ == tdiv(a.g@, b.g@) && r.1.g@ == tmod(a.g@, b.g@) && final(h).st == old(h).st { unimplemented!() }
#[verifier::external_body] pub fn val_shl(a: Val, n: u64) -> (r: Val) ensures r.g@ == a.g@ * p2(n as int) { unimplemented!() }
#[verifier::external_body] pub fn val_shr(a: Val, n: u64) -> (r: Val) ensures r.g@ == a.g@ / p2(n as int) { unimplemented!() }
#[verifier::external_body] pub fn val_neg(a: Val) -> (r: Val) ensures r.g@ == -a.g@ { unimplemented!() }
#[verifier::external_body] pub fn val_not(a: Val) -> (r: Val) ensures r.g@ == -a.g@ - 1 { unimplemented!() }
#[verifier::external_body] pub fn val_dec(a: Val) -> (r: Val) ensures r.g@ == a.g@ - 1 { unimplemented!() }
#[verifier::external_body] pub fn val_inc(a: Val) -> (r: Val) ensures r.g@ == a.g@ + 1 { unimplemented!() }
#[verifier::external_body] pub fn val_abs(a: Val) -> (r: Val) ensures r.g@ == (if a.g@ < 0 { -a.g@ } else { a.g@ }) { unimplemented!() }
#[verifier::external_body] pub fn val_u64(a: Val) -> (r: u64) ensures 0 <= a.g@ < 0x1_0000_0000_0000_0000 ==> r == a.g@ { unimplemented!() }
#[verifier::external_body] pub fn val_cmp(a: Val, b: Val) -> (r: i32) ensures a.g@ < b.g@ ==> r == -1, a.g@ == b.g@ ==> r == 0, a.g@ > b.g@ ==> r == 1 { unimplemented!() }
#[verifier::external_body] pub fn val_iszero(a: Val) -> (r: bool) ensures r == (a.g@ == 0) { unimplemented!() }
#[verifier::external_body] pub fn val_isone(a: Val) -> (r: bool) ensures r == (a.g@ == 1) { unimplemented!() }
#[verifier::external_body] pub fn val_isnegone(a: Val) -> (r: bool) ensures r == (a.g@ == -1) { unimplemented!() }
#[verifier::external_body] pub fn val_isodd(a: Val) -> (r: bool) ensures r == (a.g@ % 2 == 1) { unimplemented!() }
#[verifier::external_body] pub fn val_iseven(a: Val) -> (r: bool) ensures r == (a.g@ % 2 == 0) { unimplemented!() }
#[verifier::external_body] pub fn val_flag(a: Val, f: u32) -> (r: bool) ensures f == NEGF() ==> r == (a.g@ < 0) { unimplemented!() }
#[verifier::external_body] pub fn val_fromstr(h: &mut X, a: Val, b: &Stg, r: i32) -> (q: (bool, Val)) requires b.s@.len() <= 800_000_000 ensures evs(*old(h), *final(h)), q.0 == (2 <= r <= 36 && num_ok(b.s@, r as int)), q.0 ==> q.1.g@ == num_val(b.s@, r as int) && final(h).st == old(h).st { unimplemented!() }
// status objects: 1 is the library's own, any other non-null pointer the caller's
pub fn st_global() -> (r: StP) ensures r == 1 { 1u64 }
#[verifier::external_body] pub fn st_set(h: &mut X, p: StP, v: u32) requires p != 0 ensures p == 1 ==> *final(h) == (X { st: v, ..*old(h) }), p != 1 ==> *final(h) == (X { us: v, ..*old(h) }) { unimplemented!() }
#[verifier::external_body] pub fn cast_i32_u64(a: i32) -> (r: u64) ensures r == (if a < 0 { a + 0x1_0000_0000_0000_0000 } else { a as int }) { unimplemented!() }
#[verifier::external_body] pub fn cast_u64_u32(a: u64) -> (r: u32) ensures r == a % 0x1_0000_0000 { unimplemented!() }
#[verifier::external_body] pub fn cast_i32_u32(a: i32) -> (r: u32) ensures r == (if a < 0 { a + 0x1_0000_0000 } else { a as int }) { unimplemented!() }
#[verifier::external_body] pub fn cast_i32_i64(a: i32) -> (r: i64) ensures r == a { unimplemented!() }
#[verifier::external_body] pub fn cast_i8_i32(a: i8) -> (r: i32) ensures r == a { unimplemented!() }
#[verifier::external_body] pub fn cast_i32_i8(a: i32) -> (r: i8) ensures -128 <= a < 128 ==> r == a { unimplemented!() }
// character classes of the C locale
#[verifier::external_body] pub fn c_isdigit(a: i32) -> (r: i32) requires -128 <= a < 256 ensures (r != 0) == (48 <= a <= 57) { unimplemented!() }
#[verifier::external_body] pub fn c_isalpha(a: i32) -> (r: i32) requires -128 <= a < 256 ensures (r != 0) == (65 <= a <= 90 || 97 <= a <= 122) { unimplemented!() }
#[verifier::external_body] pub fn c_isalnum(a: i32) -> (r: i32) requires -128 <= a < 256 ensures (r != 0) == (48 <= a <= 57 || 65 <= a <= 90 || 97 <= a <= 122) { unimplemented!() }
#[verifier::external_body] pub fn c_tolower(a: i32) -> (r: i32) requires -128 <= a < 256 ensures r == (if 65 <= a <= 90 { a + 32 } else { a as int }) { unimplemented!() }
// the token list, symbols by name
pub fn token_new() -> (r: Token) ensures r == inv() { Token { type_: 0, pSymbol: 0, val: Val { g: Ghost(0) } } }
pub fn vt_new() -> (r: VTok) ensures r@ == Seq::<Token>::empty() { Vec::new() }
pub fn vt_push(v: &mut VTok, t: Token) ensures final(v)@ == old(v)@.push(t) { v.push(t); }
pub fn vt_back(v: &VTok) -> (r: u64) requires 0 < v@.len() < 0x1_0000_0000 ensures r == v@.len() - 1 { (v.len() - 1) as u64 }
pub fn vt_set(v: &mut VTok, i: u64, t: Token) requires i < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, t) { let n_ = v.len(); v.set(i as usize, t); assert(v@ =~= old(v)@.update(i as int, t)); }
#[verifier::external_body] pub fn sy_get(n: &Stg) -> (r: Sy) ensures r == sy_of(n.s@) { unimplemented!() }
#[verifier::external_body] pub fn sy_isfu(s: Sy) -> (r: bool) requires s != 0 ensures r == sy_isf(s) { unimplemented!() }
#[verifier::external_body] pub fn sy_isval(s: Sy) -> (r: bool) requires s != 0 ensures r == sy_isv(s) { unimplemented!() }
#[verifier::external_body] pub fn stg_new() -> (r: Stg) ensures r.s@ == Seq::<i8>::empty() { unimplemented!() }
#[verifier::external_body] pub fn stg_0() -> (r: Stg) ensures r.s@ == seq![48i8] { unimplemented!() }
#[verifier::external_body] pub fn stg_push(v: &mut Stg, c: i8) ensures final(v).s@ == old(v).s@.push(c) { unimplemented!() }
// strings and the stream over one: the character at address 1 + i is src[i]
#[verifier::external_body] pub fn sv_data(v: &Sv) -> (r: Cp) ensures r.s@ == v.s@ { unimplemented!() }
#[verifier::external_body] pub fn sv_size(v: &Sv) -> (r: u64) ensures r == v.s@.len() { unimplemented!() }
#[verifier::external_body] pub fn stg_cp(p: Cp, n: u64) -> (r: Stg) requires n <= p.s@.len() ensures r.s@ == p.s@.take(n as int) { unimplemented!() }
#[verifier::external_body] pub fn strm_new(h: &mut X, s: &Stg) requires s.s@.len() <= 800_000_000 ensures strm_ok(*final(h)), final(h).src@ == s.s@, final(h).m_current == 1, final(h).m_tokens == old(h).m_tokens, keepn(*old(h), *final(h)) { unimplemented!() }
#[verifier::external_body] pub fn chr_at(h: &X, p: u64) -> (r: i8) requires 1 <= p <= h.src@.len() ensures r == h.src@[p - 1] { unimplemented!() }
pub open spec fn strm_ok(h: X) -> bool { h.m_cStr == 1 && h.m_end == 1 + h.src@.len() && 1 <= h.m_current <= h.m_end && h.src@.len() <= 800_000_000 }
pub open spec fn keepn(a: X, b: X) -> bool { b.nodes == a.nodes && b.ex == a.ex && b.m_count == a.m_count && b.us == a.us && b.st == a.st }
pub open spec fn keepnt(a: X, b: X) -> bool { b.nodes == a.nodes && b.ex == a.ex && b.m_count == a.m_count && b.us == a.us }
pub open spec fn parsed(s: Seq<i8>, h0: X, h1: X, r: u64) -> bool {
  match sem(s) { Some(m) => r != 0 && nv(h1.nodes@, r as int) == Some(m), None => r == 0 } }
pub open spec fn parsed_st(s: Seq<i8>, h0: X, h1: X) -> bool { h1.st == (if sem(s) is Some { h0.st } else { BADT() }) }
