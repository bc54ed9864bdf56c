// ---------------------------------------------------------------- Fraction objects: two BigInteger members, laid out one after the other (the numerator at the object's address)
pub type FId = u64;
pub open spec fn dn(f: FId) -> WId { (f + 1) as u64 }
pub fn frac_den(f: FId) -> (r: WId) requires f < u64::MAX ensures r == dn(f) { f + 1 }
#[verifier::external_body]
pub fn frac_alloc(h: &mut H, avoid: Ghost<Set<WId>>) -> (r: FId) ensures r < u64::MAX, !avoid@.contains(r), !avoid@.contains(dn(r)), final(h)@ == old(h)@, !old(h)@.wp.dom().contains(r), !old(h)@.wp.dom().contains(dn(r)) { unimplemented!() }
pub open spec fn newf(h: HS, f: FId) -> bool { f < u64::MAX && neww(h, f) && neww(h, dn(f)) }
// a live fraction (its denominator may be zero after a reported failure)
pub open spec fn fok(h: HS, f: FId) -> bool { f < u64::MAX && iok(h, f) && iok(h, dn(f)) }
pub open spec fn fn_(h: HS, f: FId) -> int { iv(h, f) }
pub open spec fn fd_(h: HS, f: FId) -> int { iv(h, dn(f)) }
// two names denote the same object or objects that do not overlap
pub open spec fn fsep(f: FId, g: FId) -> bool { f == g || (dn(f) != g && dn(g) != f) }
pub open spec fn fset(f: FId) -> Set<WId> { Set::empty().insert(f).insert(dn(f)) }
// every BigInteger outside f is as before, the caller's flags aside
pub open spec fn kF(h0: HS, h1: HS, f: FId) -> bool {
  &&& iwf(h1) && h1.cp == h0.cp && h1.by == h0.by
  &&& forall |w2: WId| #![trigger iok(h1, w2)] #![trigger iv(h1, w2)] #![trigger h1.wp.dom().contains(w2)] #![trigger h1.wp[w2]] w2 != f && w2 != dn(f) ==> h1.wp.dom().contains(w2) == h0.wp.dom().contains(w2) && (iok(h0, w2) ==> iok(h1, w2) && iv(h1, w2) == iv(h0, w2))
}
pub open spec fn st0(h0: HS, h1: HS) -> bool { h1.st == h0.st || h1.st == 0 }
pub open spec fn coprime(n: int, d: int) -> bool { forall |k: int| #[trigger] cd(k, n, d) ==> k == 1 || k == -1 }
// n/d in lowest terms, equal to N/D
pub open spec fn reduced(n: int, d: int, N: int, D: int) -> bool { d != 0 && coprime(n, d) && n * D == N * d && (d > 0) == (D > 0) }
pub fn frac_kill(h: &mut H, f: FId) requires iwf(old(h)@), f < u64::MAX, old(h)@.wp.dom().contains(f), old(h)@.wp.dom().contains(dn(f))
  ensures kF(old(h)@, final(h)@, f), newf(final(h)@, f), final(h)@.bl == old(h)@.bl, final(h)@.st == old(h)@.st
{ int_kill(h, frac_den(f)); int_kill(h, f); }
pub proof fn gcd_pos(g: int, n: int, d: int) requires isgcd(g, n, d), d != 0 ensures g > 0 { if g == 0 { let k = choose |k: int| d == mulz(0, k); assert(mulz(0, k) == 0) by(nonlinear_arith) requires mulz(0, k) == 0 * k; } }
// dividing both by their greatest common divisor
pub proof fn frac_reduce(g: int, n: int, d: int, an: int, ad: int) requires d != 0, isgcd(g, an, ad), an == iabs(n), ad == iabs(d)
  ensures g > 0, reduced(tdiv(n, g), tdiv(d, g), n, d)
{
  gcd_abs(n, d); assert(cd(g, n, d) == cd(g, an, ad)); gcd_pos(g, an, ad);
  let p = choose |k: int| n == mulz(g, k); let q = choose |k: int| d == mulz(g, k);
  tdiv_exact(n, g, p); tdiv_exact(d, g, q);
  assert(q != 0) by(nonlinear_arith) requires d == g * q, d != 0;
  assert(p * d == n * q) by(nonlinear_arith) requires d == g * q, n == g * p;
  assert((q > 0) == (d > 0)) by(nonlinear_arith) requires d == g * q, g > 0;
  assert forall |k: int| #[trigger] cd(k, p, q) implies k == 1 || k == -1 by {
    let a = choose |x: int| p == mulz(k, x); let b = choose |x: int| q == mulz(k, x);
    assert(n == (g * k) * a) by(nonlinear_arith) requires n == g * p, p == k * a; assert(n == mulz(g * k, a));
    assert(d == (g * k) * b) by(nonlinear_arith) requires d == g * q, q == k * b; assert(d == mulz(g * k, b));
    assert(cd(g * k, n, d)); assert(cd(g * k, an, ad)); assert(dv(g * k, g));
    let c = choose |x: int| g == #[trigger] mulz(g * k, x);
    assert(k * c == 1) by(nonlinear_arith) requires g == (g * k) * c, g > 0;
    assert(k == 1 || k == -1) by(nonlinear_arith) requires k * c == 1;
  }
}
pub proof fn tdiv_exact(n: int, g: int, p: int) requires g > 0, n == g * p ensures tdiv(n, g) == p
{
  assert(n == p * g + 0) by(nonlinear_arith) requires n == g * p;
  tuniq(n, g, p, 0);
}
pub proof fn iok_in(h: HS, w: WId) requires iok(h, w) ensures h.wp.dom().contains(w) { }
pub proof fn nz_prod(a: int, b: int) requires a != 0, b != 0 ensures a * b != 0 { assert(a * b != 0) by(nonlinear_arith) requires a != 0, b != 0; }
pub open spec fn kF2(h0: HS, h1: HS, f: FId, g: FId) -> bool {
  &&& iwf(h1) && h1.cp == h0.cp && h1.by == h0.by
  &&& forall |w2: WId| #![trigger iok(h1, w2)] #![trigger iv(h1, w2)] #![trigger h1.wp.dom().contains(w2)] #![trigger h1.wp[w2]] w2 != f && w2 != dn(f) && w2 != g && w2 != dn(g) ==> h1.wp.dom().contains(w2) == h0.wp.dom().contains(w2) && (iok(h0, w2) ==> iok(h1, w2) && iv(h1, w2) == iv(h0, w2))
}
pub open spec fn bok(h: HS, ok: BoolP) -> bool { ok == 0 || h.bl.dom().contains(ok) }
// ---------------------------------------------------------------- decimal expansion
pub fn sb_view(h: &H, p: Bp, x: &Sb) -> (r: Str) requires p.c@ != 0, p.i == 0, h@.by.dom().contains(p.c@), h@.by[p.c@] == x.d@.push(0) ensures strok(h@, r), sby(h@, r) == x.d@
{ let n = sb_size(x); let r = Str { c: p.c, i: 0, len: n }; proof { assert(sby(h@, r) =~= x.d@); } r }
// what the expansion of n/d to k digits reads: sign, integer part, and for k > 0 a point and the first k digits of the fraction
pub open spec fn decexp(n: int, d: int, k: int) -> Seq<u8> { let a = iabs(n); let b = iabs(d); (if (n < 0) != (d < 0) && n != 0 { seq![45u8] } else { Seq::empty() }) + numeral(a / b, 10) + (if k > 0 { seq![46u8] + pd(((a % b) * rpow(10, k)) / b, 10, k) } else { Seq::empty() }) }
pub open spec fn onez(k: int) -> Seq<u8> { seq![49u8] + nulls(k) }
pub proof fn onez_val(k: int) requires k >= 0 ensures nvalid(onez(k), 10), nval(onez(k), 10) == rpow(10, k), onez(k).len() == k + 1 {
  let s = onez(k); assert(s.len() == k + 1); assert(s[0] == 49); assert forall |j: int| 1 <= j < s.len() implies #[trigger] s[j] == 48 by {}
  nm_split(s, 0, 1, k + 1, 10); nm_zeros(s, 1, k + 1, 10); nm_step(s, 0, 1, 10); assert(nm(s, 0, 0, 10) == 0); assert(nm(s, 0, 1, 10) == 1);
  assert(alld(s, 0, k + 1, 10)) by { assert forall |j: int| 0 <= j < k + 1 implies isd(#[trigger] s[j], 10) by { if j > 0 { assert(s[j] == 48); } } }
  assert(sgl(s) == 0); assert(s.len() as int == k + 1); assert(nvalid(s, 10)); assert(nval(s, 10) == nm(s, 0, s.len() as int, 10)); let z = rpow(10, k); let p1 = nm(s, 0, 1, 10); let z1 = rpow(10, k + 1 - 1); assert(z1 == z); assert(p1 * z1 == z) by(nonlinear_arith) requires p1 == 1, z1 == z;
 assert(nm(s, 1, k + 1, 10) == 0);
 assert(nm(s, 0, k + 1, 10) == p1 * z1);
 assert(nm(s, 0, s.len() as int, 10) == z);
 assert(nval(s, 10) == z); assert(nvalid(onez(k), 10)); assert(onez(k).len() == k + 1);
}
pub proof fn dec_digits(a: int, b: int, k: int) requires a >= 0, b > 0, k >= 1 ensures ({ let y = ((a % b) * rpow(10, k)) / b; 0 <= y < rpow(10, k) && numeral(y, 10) == unum(y, 10) && pd(y, 10, k) =~= nulls(k - unum(y, 10).len()) + unum(y, 10) && 1 <= unum(y, 10).len() <= k }) {
  let p = rpow(10, k); rp_pos(10, k); let q = a % b; vstd::arithmetic::div_mod::lemma_mod_bound(a, b); let x = q * p; let y = x / b;
  assert(0 <= x < b * p) by(nonlinear_arith) requires x == q * p, 0 <= q < b, p >= 1;
  assert(0 <= y < p) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, b); vstd::arithmetic::div_mod::lemma_mod_bound(x, b); let r = x % b; assert(y < p) by(nonlinear_arith) requires x == b * y + r, 0 <= r, x < b * p, b > 0; assert(y >= 0) by(nonlinear_arith) requires x == b * y + r, r < b, x >= 0, b > 0; }
  pd_unum(y, 10, k);
}
pub proof fn iwf_wf(h: HS) requires iwf(h) ensures wf(h) { }
pub proof fn nn_prod(a: int, b: int) requires a >= 0, b >= 0 ensures a * b >= 0 { assert(a * b >= 0) by(nonlinear_arith) requires a >= 0, b >= 0; }
pub proof fn tdr_abs(n: int, d: int) requires d != 0 ensures tdiv(iabs(n), iabs(d)) == iabs(n) / iabs(d), trem(iabs(n), iabs(d)) == iabs(n) % iabs(d), iabs(n) % iabs(d) >= 0 {
  let a = iabs(n); let b = iabs(d); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b); vstd::arithmetic::div_mod::lemma_mod_bound(a, b); let q = a / b; let r = a % b; assert(a == q * b + r) by(nonlinear_arith) requires a == b * q + r;
  tuniq(a, b, q, r);
}
