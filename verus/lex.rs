// ---- the lexical grammar: characters of the source to tokens
pub open spec fn c_dig(c: i8) -> bool { 48 <= c <= 57 }
pub open spec fn c_low(c: i8) -> i8 { if 65 <= c <= 90 { (c + 32) as i8 } else { c } }
pub open spec fn c_alp(c: i8) -> bool { 97 <= c_low(c) <= 122 }
pub open spec fn c_aln(c: i8) -> bool { c_dig(c) || c_alp(c) }
pub open spec fn c_wht(c: i8) -> bool { c == 0 || c == 32 || c == 13 || c == 10 || c == 9 }
pub open spec fn pk(s: Seq<i8>, i: int) -> i8 { if 0 <= i < s.len() { s[i] } else { 0i8 } }
pub open spec fn wrun(s: Seq<i8>, k: int) -> int decreases s.len() - k { if 0 <= k < s.len() && c_wht(s[k]) { wrun(s, k + 1) } else { k } }
pub open spec fn arun(s: Seq<i8>, k: int) -> int decreases s.len() - k { if 0 <= k < s.len() && c_aln(s[k]) { arun(s, k + 1) } else { k } }
pub open spec fn irun(s: Seq<i8>, k: int) -> int decreases s.len() - k { if 0 <= k < s.len() && (c_aln(s[k]) || s[k] == 95) { irun(s, k + 1) } else { k } }
pub open spec fn lowsub(s: Seq<i8>, a: int, b: int) -> Seq<i8> { Seq::new(if b < a { 0 } else { (b - a) as nat }, |i: int| c_low(pk(s, a + i))) }
// a numeral in a radix (P09)
pub open spec fn dval(c: i8) -> int { if c_dig(c) { c - 48 } else { c - 87 } }
pub open spec fn num_ok(b: Seq<i8>, r: int) -> bool { b.len() > 0 && forall |i: int| 0 <= i < b.len() ==> c_aln(#[trigger] b[i]) && c_low(b[i]) == b[i] && dval(b[i]) < r }
pub open spec fn num_val(b: Seq<i8>, r: int) -> int decreases b.len() { if b.len() == 0 { 0 } else { num_val(b.drop_last(), r) * r + dval(b.last()) } }
pub struct Lit { pub r: int, pub b: Seq<i8>, pub e: int }
pub open spec fn lit_fin(s: Seq<i8>, r: int, pre: Seq<i8>, j: int) -> Option<Lit> { let e = arun(s, j); if pk(s, e) == 46 { None } else { Some(Lit { r: r, b: pre + lowsub(s, j, e), e: e }) } }
// a literal that begins at i: 0x.. (16), 0NNx.. (NN), 0.. (8), otherwise decimal with an ignored fraction
pub open spec fn lexlit(s: Seq<i8>, i: int) -> Option<Lit> {
  let p1 = pk(s, i + 1); let p2 = pk(s, i + 2);
  if pk(s, i) == 48 {
    if p1 == 120 { lit_fin(s, 16, Seq::empty(), i + 2) }
    else if c_dig(p1) {
      let q = if c_dig(p2) { i + 3 } else { i + 2 };
      if pk(s, q) != 120 { lit_fin(s, 8, if c_dig(p2) { seq![p1, p2] } else { seq![p1] }, q) }
      else { lit_fin(s, if c_dig(p2) { (p1 - 48) * 10 + (p2 - 48) } else { p1 - 48 }, Seq::empty(), q + 1) } }
    else { Some(Lit { r: 10, b: seq![48i8], e: i + 1 }) } }
  else { let e = arun(s, i + 1); Some(Lit { r: 10, b: seq![pk(s, i)] + lowsub(s, i + 1, e), e: if pk(s, e) == 46 { arun(s, e + 1) } else { e } }) } }
pub open spec fn tk(t: u32) -> Token { Token { type_: t, pSymbol: 0, val: Val { g: Ghost(0) } } }
pub uninterp spec fn sy_of(name: Seq<i8>) -> u64;       // the symbol registered under a name (0: none)
// the token that begins at i (not white space), and the index after it; None: no token begins here
pub open spec fn lext(s: Seq<i8>, i: int) -> Option<(Token, int)> {
  let c = pk(s, i); let d = pk(s, i + 1);
  if c == 43 { Some((tk(TK_ADD()), i + 1)) } else if c == 45 { Some((tk(TK_SUB()), i + 1)) }
  else if c == 42 { if d == 42 { Some((tk(TK_POW()), i + 2)) } else { Some((tk(TK_MUL()), i + 1)) } }
  else if c == 47 { Some((tk(TK_DIV()), i + 1)) } else if c == 37 { Some((tk(TK_MOD()), i + 1)) }
  else if c == 33 { if d == 61 { Some((tk(TK_NEQU()), i + 2)) } else { Some((tk(TK_FACT()), i + 1)) } }
  else if c == 38 { Some((tk(TK_AND()), i + 1)) } else if c == 124 { Some((tk(TK_OR()), i + 1)) } else if c == 94 { Some((tk(TK_XOR()), i + 1)) } else if c == 126 { Some((tk(TK_NOT()), i + 1)) }
  else if c == 62 { if d == 62 { Some((tk(TK_SHIFTRIGHT()), i + 2)) } else if d == 61 { Some((tk(TK_GE()), i + 2)) } else { Some((tk(TK_GT()), i + 1)) } }
  else if c == 60 { if d == 60 { Some((tk(TK_SHIFTLEFT()), i + 2)) } else if d == 61 { Some((tk(TK_LE()), i + 2)) } else { Some((tk(TK_LT()), i + 1)) } }
  else if c == 61 { if d == 61 { Some((tk(TK_EQU()), i + 2)) } else { None } }
  else if c == 40 { Some((tk(TK_LEFTBRACKET()), i + 1)) } else if c == 41 { Some((tk(TK_RIGHTBRACKET()), i + 1)) } else if c == 44 { Some((tk(TK_COMMA()), i + 1)) }
  else if c == 63 { Some((tk(TK_QMARK()), i + 1)) } else if c == 58 { Some((tk(TK_COLON()), i + 1)) }
  else if c_dig(c) { match lexlit(s, i) { None => None, Some(l) => if 2 <= l.r <= 36 && num_ok(l.b, l.r) { Some((Token { type_: TK_LITERAL(), pSymbol: 0, val: Val { g: Ghost(num_val(l.b, l.r)) } }, l.e)) } else { None } } }
  else if c_alp(c) || c == 95 { let e = irun(s, i + 1); let y = sy_of(s.subrange(i, e));
    if y == 0 { None } else if sy_isf(y) { Some((Token { type_: TK_BUILTINFUNC(), pSymbol: y, val: Val { g: Ghost(0) } }, e)) }
    else if sy_isv(y) { Some((Token { type_: TK_BUILTINCONSTANT(), pSymbol: y, val: Val { g: Ghost(0) } }, e)) } else { None } }
  else { None } }
// all tokens from i on, behind those already found
pub open spec fn lexk(s: Seq<i8>, i: int, acc: Seq<Token>) -> Option<Seq<Token>> decreases s.len() - i {
  let j = wrun(s, i);
  if j < i || j >= s.len() { Some(acc) } else { match lext(s, j) { None => None, Some((t, k)) => if k <= j || k > s.len() { None } else { lexk(s, k, acc.push(t)) } } } }
pub proof fn runs(s: Seq<i8>, k: int) requires 0 <= k <= s.len() ensures k <= wrun(s, k) <= s.len(), k <= arun(s, k) <= s.len(), k <= irun(s, k) <= s.len() decreases s.len() - k { if k < s.len() { runs(s, k + 1); } }
pub proof fn lext_end(s: Seq<i8>, i: int) requires 0 <= i < s.len(), lext(s, i) is Some ensures i < lext(s, i).unwrap().1 <= s.len() {
  runs(s, i + 1); if i + 2 <= s.len() { runs(s, i + 2); } if i + 3 <= s.len() { runs(s, i + 3); } if i + 4 <= s.len() { runs(s, i + 4); }
  let e = arun(s, i + 1); if e + 1 <= s.len() { runs(s, e + 1); }
}

// ---- meaning of a text: None when it is not a well-formed expression
pub open spec fn inv() -> Token { tk(TK_INVALID()) }
pub open spec fn sem(s: Seq<i8>) -> Option<Sem> { match lexk(s, 0, Seq::empty()) { None => None, Some(t) => if wfexpr(t.push(inv()), 0) { Some(semexpr(t.push(inv()), 0)) } else { None } } }
pub open spec fn lexed(h0: X, h1: X, t: Seq<Token>) -> bool {
  toks_ok(t) && match lexk(h0.src@, 0, Seq::empty()) { Some(r) => t == r.push(inv()) && h1.st == h0.st, None => t.len() >= 2 && t[t.len() - 2].type_ == TK_INVALID() } }
// what is parsed never contains an invalid token
pub open spec fn clean(s: Seq<Token>, i: int, j: int) -> bool { i < j <= s.len() && forall |k: int| i <= k < j ==> (#[trigger] s[k]).type_ != TK_INVALID() }
pub open spec fn clean0(s: Seq<Token>, i: int, j: int) -> bool { i == j || clean(s, i, j) }
pub proof fn cl_E(s: Seq<Token>, i: int) requires 0 <= i, pE(s, i) is Some ensures clean(s, i, pE(s, i).unwrap().1) decreases s.len() - i, 20int {
  cl_B(s, i, 0); let (c, j) = pB(s, i, 0).unwrap();
  if at(s, j) == TK_QMARK() { cl_E(s, j + 1); let k = pE(s, j + 1).unwrap().1; cl_E(s, k + 1); }
}
pub proof fn cl_B(s: Seq<Token>, i: int, l: int) requires 0 <= i, pB(s, i, l) is Some ensures clean(s, i, pB(s, i, l).unwrap().1) decreases s.len() - i, if l < 0 { 19int } else if l <= 8 { 19 - l } else { 9 } {
  if l < 0 || l > 8 { cl_U(s, i); } else { cl_B(s, i, l + 1); let (a, j) = pB(s, i, l + 1).unwrap(); cl_L(s, l, a, j); }
}
pub proof fn cl_L(s: Seq<Token>, l: int, a: Sem, j: int) requires 0 <= j, pL(s, l, a, j) is Some ensures clean0(s, j, pL(s, l, a, j).unwrap().1) decreases s.len() - j, 30int {
  if isop(l, at(s, j)) { cl_B(s, j + 1, l + 1); let (b, k) = pB(s, j + 1, l + 1).unwrap(); cl_L(s, l, sbin(at(s, j), a, b), k); }
}
pub proof fn cl_U(s: Seq<Token>, i: int) requires 0 <= i, pU(s, i) is Some ensures clean(s, i, pU(s, i).unwrap().1) decreases s.len() - i, 8int {
  let t = at(s, i);
  if t == TK_ADD() || t == TK_SUB() || t == TK_NOT() { cl_U(s, i + 1); } else { cl_P(s, i); let (a, j) = pP(s, i).unwrap(); cl_F(s, a, j); }
}
pub proof fn cl_F(s: Seq<Token>, a: Sem, j: int) requires 0 <= j ensures clean0(s, j, pF(s, a, j).1) decreases s.len() - j { if at(s, j) != TK_FACT() || j >= s.len() { } else { cl_F(s, sun(TK_FACT(), a), j + 1); } }
pub proof fn cl_P(s: Seq<Token>, i: int) requires 0 <= i, pP(s, i) is Some ensures clean(s, i, pP(s, i).unwrap().1) decreases s.len() - i, 7int {
  let t = at(s, i);
  if t == TK_LEFTBRACKET() { cl_E(s, i + 1); } else if t == TK_BUILTINFUNC() { cl_A(s, i + 2, Seq::empty()); }
}
pub proof fn cl_A(s: Seq<Token>, i: int, acc: Seq<Sem>) requires 0 <= i, pA(s, i, acc) is Some ensures clean(s, i, pA(s, i, acc).unwrap().1) decreases s.len() - i, 31int {
  if at(s, i) != TK_RIGHTBRACKET() { let i2 = if acc.len() > 0 { i + 1 } else { i }; cl_E(s, i2); let (a, j) = pE(s, i2).unwrap(); cl_A(s, j, acc.push(a)); }
}
pub proof fn wf_lexed(h0: X, h1: X, t: Seq<Token>) requires lexed(h0, h1, t) ensures wfexpr(t, 0) == (sem(h0.src@) is Some), sem(h0.src@) is Some ==> semexpr(t, 0) == sem(h0.src@).unwrap() && h1.st == h0.st {
  if wfexpr(t, 0) { cl_E(t, 0); let j = pE(t, 0).unwrap().1; assert(j == t.len() - 1); assert(t[t.len() - 2].type_ != TK_INVALID()); }
}

pub open spec fn tk_ok(s: Seq<Token>) -> bool { forall |i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]).type_ == TK_BUILTINFUNC() ==> sy_isf(s[i].pSymbol)) && (s[i].type_ == TK_BUILTINCONSTANT() ==> sy_isv(s[i].pSymbol)) }
pub proof fn lex_step(s: Seq<i8>, i: int, acc: Seq<Token>) requires 0 <= i <= s.len() ensures ({ let j = wrun(s, i);
  &&& i <= j <= s.len()
  &&& j == s.len() ==> lexk(s, i, acc) == Some(acc)
  &&& j < s.len() && lext(s, j) is None ==> lexk(s, i, acc) is None
  &&& j < s.len() && lext(s, j) is Some ==> lexk(s, i, acc) == lexk(s, lext(s, j).unwrap().1, acc.push(lext(s, j).unwrap().0)) }) {
  runs(s, i); let j = wrun(s, i); if j < s.len() && lext(s, j) is Some { lext_end(s, j); } }
