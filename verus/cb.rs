// ---------------------------------------------------------------- C binding: a pgbn_BigInteger_t owns the BigIntegerImpl its impl points to (kept in wp, as for BigInteger)
#[verifier::external_body]
pub fn cb_new(h: &mut H) -> (r: WId) ensures r != 0, !old(h)@.wp.dom().contains(r), final(h)@ == (HS { wp: old(h)@.wp.insert(r, 0), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn cb_free(h: &mut H, w: WId) requires old(h)@.wp.dom().contains(w) ensures final(h)@ == (HS { wp: old(h)@.wp.remove(w), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn cs_new(h: &mut H) -> (r: CId) ensures r != 0, !old(h)@.cp.dom().contains(r), final(h)@ == (HS { cp: old(h)@.cp.insert(r, Seq::empty()), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn cs_free(h: &mut H, w: CId) requires old(h)@.cp.dom().contains(w) ensures final(h)@ == (HS { cp: old(h)@.cp.remove(w), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn cs_get(h: &H, w: CId) -> (r: Sb) requires h@.cp.dom().contains(w) ensures r.d@ == h@.cp[w] { unimplemented!() }
#[verifier::external_body]
pub fn cs_set(h: &mut H, w: CId, x: Sb) requires old(h)@.cp.dom().contains(w) ensures final(h)@ == (HS { cp: old(h)@.cp.insert(w, x.d@), ..old(h)@ }) { unimplemented!() }
// a NUL-terminated string of the caller
pub open spec fn csok(h: HS, p: Bp) -> bool { p.c@ != 0 && h.by.dom().contains(p.c@) && p.i <= MAXN() && exists |n: int| n <= MAXN() && iscstr(h.by[p.c@], p.i as int, n) }
pub open spec fn cslen(h: HS, p: Bp) -> int { choose |n: int| iscstr(h.by[p.c@], p.i as int, n) }
pub open spec fn csby(h: HS, p: Bp) -> Seq<u8> { h.by[p.c@].subrange(p.i as int, p.i + cslen(h, p)) }
pub proof fn cs_uniq(s: Seq<u8>, i: int, n: int, k: int) requires iscstr(s, i, n), iscstr(s, i, k) ensures n == k { if n < k { assert(s[i + n] != 0); } if k < n { assert(s[i + k] != 0); } }
#[verifier::external_body]
pub fn sv_cstr_raw(h: &H, p: Bp) -> (r: Str) requires csok(h@, p) ensures r.c@ == p.c@, r.i == p.i, iscstr(h@.by[p.c@], p.i as int, r.len as int) { unimplemented!() }
pub fn sv_cstr(h: &H, p: Bp) -> (r: Str) requires csok(h@, p) ensures r.c@ == p.c@, r.i == p.i, r.len == cslen(h@, p), strok(h@, r), sby(h@, r) == csby(h@, p)
{ let r = sv_cstr_raw(h, p); proof { let s = h@.by[p.c@]; let n = choose |n: int| n <= MAXN() && iscstr(s, p.i as int, n); cs_uniq(s, p.i as int, n, r.len as int); cs_uniq(s, p.i as int, cslen(h@, p), r.len as int); } r }
// std::string::c_str: the characters and a final NUL, in a block of their own
#[verifier::external_body]
pub fn sb_c_str_raw(h: &mut H, x: &Sb) -> (r: Bp) ensures x.d@.len() <= MAXN(), r.c@ != 0, r.i == 0, !old(h)@.by.dom().contains(r.c@), final(h)@ == setby(old(h)@, r.c@, x.d@.push(0)) { unimplemented!() }
pub fn sb_c_str(h: &mut H, x: &Sb) -> (r: Bp) requires wf(old(h)@) ensures r.c@ != 0, r.i == 0, !old(h)@.by.dom().contains(r.c@), final(h)@ == setby(old(h)@, r.c@, x.d@.push(0)), wf(final(h)@), (forall |k: int| 0 <= k < x.d@.len() ==> x.d@[k] != 0) ==> csok(final(h)@, r) && csby(final(h)@, r) == x.d@
{ let r = sb_c_str_raw(h, x); proof { ob(old(h)@, h@); let q = x.d@.push(0); let n = x.d@.len() as int; if (forall |k: int| 0 <= k < x.d@.len() ==> x.d@[k] != 0) { let w = h@.by[r.c@]; assert(w == q); assert(iscstr(w, r.i as int, n)); assert(csok(h@, r)); cs_uniq(q, 0, n, cslen(h@, r)); let e = csby(h@, r); assert(e =~= x.d@); } } r }
pub open spec fn only_cp(h0: HS, h1: HS) -> bool { h1 == (HS { cp: h1.cp, ..h0 }) }
// strings are no part of any number
pub proof fn i_cp(h0: HS, h1: HS) requires iwf(h0), h1 == (HS { cp: h1.cp, by: h1.by, ..h0 }) ensures iwf(h1), h1.wp == h0.wp, forall |w: WId| #[trigger] iok(h1, w) == iok(h0, w), forall |w: WId| #[trigger] iv(h1, w) == iv(h0, w)
{
  assert forall |s: SRef| #[trigger] m(h1, s) == m(h0, s) by {}
  assert forall |s: SRef| h1.sl.dom().contains(s) implies wfs(h1, s) by { assert(h0.sl.dom().contains(s)); assert(wfs(h0, s)); }
  assert(wf(h1));
  assert forall |b: BId| #[trigger] binv(h1, b) == binv(h0, b) by { assert(mg(h1, b) == mg(h0, b)); assert(m(h1, SRef::Mag(b)) == m(h0, SRef::Mag(b))); }
  assert forall |b: BId| #[trigger] v(h1, b) == v(h0, b) by { assert(m(h1, SRef::Mag(b)) == m(h0, SRef::Mag(b))); }
  assert forall |w: WId| #[trigger] h1.wp.dom().contains(w) && h1.wp[w] != 0 implies liveb(h1, h1.wp[w]) by { assert(h0.wp.dom().contains(w)); }
  assert forall |w1: WId, w2: WId| #![trigger h1.wp.dom().contains(w1), h1.wp.dom().contains(w2)] w1 != w2 && h1.wp.dom().contains(w1) && h1.wp.dom().contains(w2) && h1.wp[w1] != 0 implies h1.wp[w1] != h1.wp[w2] by { assert(h0.wp.dom().contains(w1) && h0.wp.dom().contains(w2)); }
  assert forall |w: WId| #[trigger] iok(h1, w) == iok(h0, w) by { assert(binv(h1, h1.wp[w]) == binv(h0, h0.wp[w])); }
  assert forall |w: WId| #[trigger] iv(h1, w) == iv(h0, w) by { assert(v(h1, h1.wp[w]) == v(h0, h0.wp[w])); }
}
// as kS with strings left open
pub open spec fn kC(h0: HS, h1: HS) -> bool {
  &&& iwf(h1) && h1.bl == h0.bl && h1.by == h0.by
  &&& forall |w2: WId| #![trigger iok(h1, w2)] #![trigger iv(h1, w2)] #![trigger h1.wp.dom().contains(w2)] #![trigger h1.wp[w2]] h1.wp.dom().contains(w2) == h0.wp.dom().contains(w2) && (iok(h0, w2) ==> iok(h1, w2) && iv(h1, w2) == iv(h0, w2))
}
// a numeral has no NUL
pub proof fn dig_nonul(x: int, r: int, k: int) requires 2 <= r <= 36, 0 <= k < digs(x, r).len() ensures digs(x, r)[k] != 0 decreases x {
  assert(x > 0); assert(0 <= x / r < x) by(nonlinear_arith) requires x > 0, r >= 2; assert(0 <= x % r < r) by { vstd::arithmetic::div_mod::lemma_mod_bound(x, r); }
  if k < digs(x, r).len() - 1 { assert(digs(x, r)[k] == digs(x / r, r)[k]); dig_nonul(x / r, r, k); } else { assert(digs(x, r)[k] == dch(x % r)); }
}
pub proof fn num_nonul(a: int, r: int) requires 2 <= r <= 36 ensures forall |k: int| 0 <= k < numeral(a, r).len() ==> #[trigger] numeral(a, r)[k] != 0 {
  assert forall |k: int| 0 <= k < numeral(a, r).len() implies #[trigger] numeral(a, r)[k] != 0 by {
    if a < 0 { if k > 0 { dig_nonul(-a, r, k - 1); } } else if a > 0 { dig_nonul(a, r, k); }
  }
}
pub proof fn len2(s: Seq<u32>) requires norm(s) ensures (s.len() <= 2) == (val(s) < U64()) { pw_0(); pw_step(1); pw_step(2); assert(pw(2) == U64()); if s.len() > 2 { norm_iff(s); pw_mono(2, s.len() - 1); } else { val_bound(s); pw_mono(s.len() as int, 2); } }
// delete impl and the struct around it
pub proof fn cb_drop(h0: HS, h1: HS, w: WId) requires iwf(h0), iok(h0, w), h1 == (HS { sl: h0.sl.remove(SRef::Mag(h0.wp[w])), bg: h0.bg.remove(h0.wp[w]), wp: h0.wp.remove(w), ..h0 }) ensures kI(h0, h1, w), !h1.wp.dom().contains(w) {
  let d = h0.wp[w]; let g = HS { wp: h0.wp.remove(w), ..h0 };
  lem_nowp(h0, g);
  assert forall |x: WId| #[trigger] g.wp.dom().contains(x) && g.wp[x] != 0 implies liveb(g, g.wp[x]) && g.wp[x] != d by { assert(h0.wp.dom().contains(x) && h0.wp.dom().contains(w)); }
  assert forall |w1: WId, w2: WId| #![trigger g.wp.dom().contains(w1), g.wp.dom().contains(w2)] w1 != w2 && g.wp.dom().contains(w1) && g.wp.dom().contains(w2) && g.wp[w1] != 0 implies g.wp[w1] != g.wp[w2] by { assert(h0.wp.dom().contains(w1) && h0.wp.dom().contains(w2)); }
  assert forall |s2: SRef| s2 != SRef::Mag(d) implies #[trigger] m(h1, s2) == m(g, s2) by { }
  i_dead(g, h1, d);
}
