// ---------------------------------------------------------------- big integers
pub open spec fn mg(h: HS, b: BId) -> Seq<u32> { m(h, SRef::Mag(b)) }
pub open spec fn fl(h: HS, b: BId) -> u32 { h.bg[b].flags }
pub open spec fn f1(f: u32) -> bool { (fb1(f) && !fb2(f) && !fb4(f)) || (!fb1(f) && fb2(f) && !fb4(f)) || (!fb1(f) && !fb2(f) && fb4(f)) }
pub open spec fn fnz(s: Seq<u32>, z: int) -> bool { 0 <= z <= s.len() && (forall |k: int| 0 <= k < z ==> s[k] == 0) && (z < s.len() ==> s[z] != 0) }
pub open spec fn lzok(h: HS, b: BId) -> bool { fb16(fl(h, b)) ==> fnz(mg(h, b), h.bg[b].lazy as int) }
// canonical form
pub open spec fn binv(h: HS, b: BId) -> bool { liveb(h, b) && f1(fl(h, b)) && norm(mg(h, b)) && (fb1(fl(h, b)) == (mg(h, b).len() == 0)) && lzok(h, b) }
// as canonical form, but leading zero words are allowed / an empty value may still carry the positive flag
pub open spec fn binw(h: HS, b: BId) -> bool { liveb(h, b) && f1(fl(h, b)) && (fb1(fl(h, b)) == (mg(h, b).len() == 0)) && lzok(h, b) }
pub open spec fn binz(h: HS, b: BId) -> bool { liveb(h, b) && f1(fl(h, b)) && norm(mg(h, b)) && (fb1(fl(h, b)) ==> mg(h, b).len() == 0) && (fb4(fl(h, b)) ==> mg(h, b).len() > 0) && lzok(h, b) }
pub open spec fn sgn(h: HS, b: BId) -> int { if fb2(fl(h, b)) { 1 } else if fb4(fl(h, b)) { -1 } else { 0 } }
pub open spec fn mv(h: HS, b: BId) -> int { val(mg(h, b)) }
// the integer a big stands for
pub open spec fn v(h: HS, b: BId) -> int { if fb2(fl(h, b)) { mv(h, b) } else if fb4(fl(h, b)) { -mv(h, b) } else { 0 } }
// same sign bits; a cached index, if any, is right
pub open spec fn bsame(h0: HS, h1: HS, b: BId) -> bool {
  fb1(fl(h1, b)) == fb1(fl(h0, b)) && fb2(fl(h1, b)) == fb2(fl(h0, b)) && fb4(fl(h1, b)) == fb4(fl(h0, b)) && (lzok(h0, b) ==> lzok(h1, b))
}
pub open spec fn glob(h0: HS, h1: HS) -> bool { wf(h1) && rest(h0, h1) && cmono(h0, h1) }
// no big but b changed (every other object keeps its value and its representation invariant)
pub open spec fn frB(h0: HS, h1: HS, b: BId) -> bool {
  &&& glob(h0, h1) && h1.sl.dom() =~= h0.sl.dom() && h1.bg.dom() =~= h0.bg.dom()
  &&& forall |s2: SRef| s2 != SRef::Mag(b) && live(h0, s2) ==> #[trigger] h1.sl[s2] == h0.sl[s2]
  &&& forall |s2: SRef| s2 != SRef::Mag(b) && live(h0, s2) ==> #[trigger] m(h1, s2) == m(h0, s2)
  &&& forall |b2: BId| b2 != b && h0.bg.dom().contains(b2) ==> #[trigger] h1.bg[b2] == h0.bg[b2]
}
// weak: the cached index of other bigs may have been filled in
pub open spec fn frW(h0: HS, h1: HS, b: BId) -> bool {
  &&& glob(h0, h1) && h1.sl.dom() =~= h0.sl.dom() && h1.bg.dom() =~= h0.bg.dom()
  &&& forall |s2: SRef| s2 != SRef::Mag(b) && live(h0, s2) ==> #[trigger] h1.sl[s2] == h0.sl[s2]
  &&& forall |s2: SRef| s2 != SRef::Mag(b) && live(h0, s2) ==> #[trigger] m(h1, s2) == m(h0, s2)
  &&& forall |b2: BId| b2 != b && liveb(h0, b2) ==> bsame(h0, h1, b2) && #[trigger] h1.bg.dom().contains(b2)
}
// nothing but the flags and the cached index of b changed
pub open spec fn flB(h0: HS, h1: HS, b: BId) -> bool {
  &&& h1 =~= (HS { bg: h0.bg.insert(b, h1.bg[b]), ..h0 })
  &&& forall |s2: SRef| #[trigger] m(h1, s2) == m(h0, s2)
}
// b is new
pub open spec fn crB(h0: HS, h1: HS, b: BId) -> bool {
  &&& glob(h0, h1) && h1.sl.dom() =~= h0.sl.dom().insert(SRef::Mag(b)) && h1.bg.dom() =~= h0.bg.dom().insert(b) && h1.st == h0.st
  &&& forall |s2: SRef| s2 != SRef::Mag(b) && live(h0, s2) ==> #[trigger] h1.sl[s2] == h0.sl[s2]
  &&& forall |s2: SRef| s2 != SRef::Mag(b) && live(h0, s2) ==> #[trigger] m(h1, s2) == m(h0, s2)
  &&& forall |b2: BId| b2 != b && h0.bg.dom().contains(b2) ==> #[trigger] h1.bg[b2] == h0.bg[b2]
}
pub open spec fn newb(h: HS, b: BId) -> bool { b != 0 && !h.bg.dom().contains(b) && !live(h, SRef::Mag(b)) }
pub open spec fn frB2(h0: HS, h1: HS, b: BId, o: BId) -> bool {
  &&& glob(h0, h1) && h1.sl.dom() =~= h0.sl.dom() && h1.bg.dom() =~= h0.bg.dom()
  &&& forall |s2: SRef| s2 != SRef::Mag(b) && s2 != SRef::Mag(o) && live(h0, s2) ==> #[trigger] h1.sl[s2] == h0.sl[s2]
  &&& forall |s2: SRef| s2 != SRef::Mag(b) && s2 != SRef::Mag(o) && live(h0, s2) ==> #[trigger] m(h1, s2) == m(h0, s2)
  &&& forall |b2: BId| b2 != b && b2 != o && h0.bg.dom().contains(b2) ==> #[trigger] h1.bg[b2] == h0.bg[b2]
}
pub proof fn val_one(s: Seq<u32>) requires norm(s) ensures (val(s) == 1) == (s.len() == 1 && s[0] == 1), val(s) == 0 <==> s.len() == 0 {
  pw_0(); pw_1();
  if s.len() == 1 { val_1(s); }
  if s.len() >= 1 { val_low(s); }
  if s.len() >= 2 { pw_mono(1, s.len() - 1); }
}
pub proof fn val_parity(s: Seq<u32>) requires s.len() > 0 ensures val(s) % 2 == s[0] as int % 2 {
  pv_split(s, 1, s.len() as int); pw_1(); pw_0(); reveal_with_fuel(pv, 3);
  assert(pv(s, 1) == s[0]);
  let q = pv(s.subrange(1, s.len() as int), s.len() - 1); let w = pw(1);
  assert(w * q == 0x1_0000_0000 * q) by(nonlinear_arith) requires w == 0x1_0000_0000;
  assert(val(s) == s[0] as int + w * q);
  let x = s[0] as int; let y = val(s); assert(y % 2 == x % 2) by(nonlinear_arith) requires y == x + w * q, w == 0x1_0000_0000;
}
pub proof fn len_mono(a: Seq<u32>, b: Seq<u32>) requires norm(a), norm(b) ensures val(a) >= val(b) ==> a.len() >= b.len(), val(b) >= val(a) ==> b.len() >= a.len() {
  val_bound(a); val_bound(b); if a.len() > 0 { norm_iff(a); } if b.len() > 0 { norm_iff(b); }
  if a.len() < b.len() { pw_mono(a.len() as int, b.len() - 1); } if b.len() < a.len() { pw_mono(b.len() as int, a.len() - 1); }
}
// ---------------------------------------------------------------- vectors of big integers
pub open spec fn crV(h0: HS, h1: HS, r: Seq<BId>) -> bool {
  &&& glob(h0, h1) && h1.st == h0.st && r.no_duplicates()
  &&& forall |k: int| 0 <= k < r.len() ==> !h0.bg.dom().contains(#[trigger] r[k]) && !live(h0, SRef::Mag(r[k])) && liveb(h1, r[k]) && r[k] != 0
  &&& forall |b2: BId| #[trigger] h1.bg.dom().contains(b2) ==> h0.bg.dom().contains(b2) || r.contains(b2)
  &&& forall |s2: SRef| #[trigger] live(h1, s2) ==> live(h0, s2) || (s2 matches SRef::Mag(x) && r.contains(x))
  &&& forall |s2: SRef| #![trigger h1.sl[s2]] #![trigger live(h1, s2)] #![trigger h1.sl.dom().contains(s2)] live(h0, s2) ==> live(h1, s2) && h1.sl[s2] == h0.sl[s2]
  &&& forall |s2: SRef| live(h0, s2) ==> #[trigger] m(h1, s2) == m(h0, s2)
  &&& forall |b2: BId| #![trigger h1.bg[b2]] #![trigger h1.bg.dom().contains(b2)] h0.bg.dom().contains(b2) ==> h1.bg.dom().contains(b2) && h1.bg[b2] == h0.bg[b2]
}
pub proof fn crV_push(h0: HS, h1: HS, h2: HS, r: Seq<BId>, d: BId) requires crV(h0, h1, r), crB(h1, h2, d), newb(h1, d)
  ensures crV(h0, h2, r.push(d)), forall |k: int| 0 <= k < r.len() ==> v(h2, #[trigger] r[k]) == v(h1, r[k]) && mg(h2, r[k]) == mg(h1, r[k]) && (binv(h1, r[k]) ==> binv(h2, r[k])) && d != r[k] {
  push_contains(r, d);
  assert forall |k: int| 0 <= k < r.len() implies v(h2, #[trigger] r[k]) == v(h1, r[k]) && mg(h2, r[k]) == mg(h1, r[k]) && (binv(h1, r[k]) ==> binv(h2, r[k])) && d != r[k] by {
    let x = r[k]; assert(liveb(h1, x)); assert(h2.sl[SRef::Mag(x)] == h1.sl[SRef::Mag(x)]); assert(m(h2, SRef::Mag(x)) == m(h1, SRef::Mag(x))); assert(h2.bg[x] == h1.bg[x]);
  }
  let q = r.push(d); assert(h1.bg.dom().contains(d) == false);
  assert(!h0.bg.dom().contains(d)) by { if h0.bg.dom().contains(d) { assert(h1.bg.dom().contains(d)); } }
  assert(!live(h0, SRef::Mag(d))) by { if live(h0, SRef::Mag(d)) { assert(live(h1, SRef::Mag(d))); } }
  assert forall |s2: SRef| live(h0, s2) implies h2.sl[s2] == h0.sl[s2] && live(h2, s2) && m(h2, s2) == m(h0, s2) by { assert(live(h1, s2)); assert(h1.sl[s2] == h0.sl[s2]); assert(m(h1, s2) == m(h0, s2)); }
  assert forall |b2: BId| h0.bg.dom().contains(b2) implies h2.bg[b2] == h0.bg[b2] && h2.bg.dom().contains(b2) by { assert(h1.bg.dom().contains(b2)); assert(h1.bg[b2] == h0.bg[b2]); }
  assert(q.no_duplicates()) by { assert forall |i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { if i < r.len() { assert(d != r[i]); } if j < r.len() { assert(d != r[j]); } } }
  assert forall |c: int| h0.cells.dom().contains(c) implies #[trigger] h2.cells.dom().contains(c) by { assert(h1.cells.dom().contains(c)); }
  assert forall |b2: BId| #[trigger] h2.bg.dom().contains(b2) implies h0.bg.dom().contains(b2) || q.contains(b2) by { if b2 != d { assert(h1.bg.dom().contains(b2)); } }
  assert forall |s2: SRef| #[trigger] live(h2, s2) implies live(h0, s2) || (s2 matches SRef::Mag(x) && q.contains(x)) by { if s2 != SRef::Mag(d) { assert(live(h1, s2)); } }
  assert(glob(h0, h2));
  assert forall |k: int| 0 <= k < q.len() implies !h0.bg.dom().contains(#[trigger] q[k]) && !live(h0, SRef::Mag(q[k])) && liveb(h2, q[k]) && q[k] != 0 by { if k < r.len() { assert(q[k] == r[k]); assert(liveb(h1, r[k])); } }
}
pub open spec fn kiV(h0: HS, h1: HS, r: Seq<BId>) -> bool {
  &&& h1 == (HS { sl: h1.sl, bg: h1.bg, ..h0 })
  &&& forall |b2: BId| #[trigger] h1.bg.dom().contains(b2) <==> h0.bg.dom().contains(b2) && !r.contains(b2)
  &&& forall |s2: SRef| #[trigger] h1.sl.dom().contains(s2) <==> h0.sl.dom().contains(s2) && !(s2 matches SRef::Mag(x) && r.contains(x))
  &&& forall |s2: SRef| live(h1, s2) ==> #[trigger] h1.sl[s2] == h0.sl[s2]
  &&& forall |s2: SRef| live(h1, s2) ==> #[trigger] m(h1, s2) == m(h0, s2)
  &&& forall |b2: BId| h1.bg.dom().contains(b2) ==> #[trigger] h1.bg[b2] == h0.bg[b2]
}
pub fn vecb_push(h: &H, v: &mut Vec<BId>, d: BId) ensures final(v)@ == old(v)@.push(d) { v.push(d); }
// destroy the elements of a vector
pub fn vecb_kill(h: &mut H, v: &Vec<BId>) requires v@.no_duplicates(), forall |k: int| 0 <= k < v@.len() ==> liveb(old(h)@, #[trigger] v@[k]) ensures kiV(old(h)@, final(h)@, v@) {
  let ghost h0 = h@; let mut i: usize = 0;
  while i < v.len() 
    invariant 0 <= i <= v@.len(), v@.no_duplicates(), kiV(h0, h@, v@.subrange(0, i as int)), forall |k: int| i <= k < v@.len() ==> liveb(h@, #[trigger] v@[k])
    decreases v@.len() - i
  {
    let ghost r0 = v@.subrange(0, i as int);
    big_kill(h, v[i]);
    i = i + 1;
    proof { let r1 = v@.subrange(0, i as int); assert(r1 =~= r0.push(v@[i - 1])); assert forall |x: BId| r1.contains(x) <==> r0.contains(x) || x == v@[i - 1] by { push_contains(r0, v@[i - 1]); } }
  }
  assert(v@.subrange(0, i as int) =~= v@);
}
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn chunk(s: Seq<u32>, size: int, k: int) -> Seq<u32> { s.subrange(imin(k * size, s.len() as int), imin((k + 1) * size, s.len() as int)) }
pub proof fn push_contains(r: Seq<BId>, d: BId) ensures forall |x: BId| #[trigger] r.push(d).contains(x) <==> r.contains(x) || x == d {
  assert forall |x: BId| #[trigger] r.push(d).contains(x) <==> r.contains(x) || x == d by {
    let q = r.push(d); assert(q[r.len() as int] == d);
    if r.contains(x) { let i = choose |i: int| 0 <= i < r.len() && r[i] == x; assert(q[i] == x); }
    if q.contains(x) { let i = choose |i: int| 0 <= i < q.len() && q[i] == x; if i < r.len() { assert(r[i] == x); } }
  }
}
pub proof fn len_ub(s: Seq<u32>, n: int) requires norm(s), val(s) < pw(n), n >= 0 ensures s.len() <= n { if s.len() > n { norm_iff(s); pw_mono(n, s.len() - 1); } }
pub proof fn chunk2(s: Seq<u32>, size: int) requires size >= 1, 2 * size >= s.len() ensures val(s) == val(chunk(s, size, 0)) + pw(size) * val(chunk(s, size, 1)), 0 <= val(chunk(s, size, 0)) < pw(size), 0 <= val(chunk(s, size, 1)) < pw(size) {
  val_bound(chunk(s, size, 0)); val_bound(chunk(s, size, 1)); pw_mono(chunk(s, size, 0).len() as int, size); pw_mono(chunk(s, size, 1).len() as int, size);
  let n = s.len() as int; assert(0 * size == 0 && 1 * size == size && 2 * size == size + size);
  if size <= n { val_split(s, size); } else { assert(chunk(s, size, 0) =~= s); assert(pw(size) * 0 == 0); }
}
pub proof fn kara(al: int, ah: int, bl: int, bh: int, p: int) ensures ((ah * bh) * p + ((ah + al) * (bh + bl) - ah * bh - al * bl)) * p + al * bl == (al + p * ah) * (bl + p * bh) {
  let x = ah * bh; let y = al * bl; let z = ah * bl; let w = al * bh;
  assert((ah + al) * (bh + bl) == x + z + w + y) by(nonlinear_arith) requires x == ah * bh, y == al * bl, z == ah * bl, w == al * bh;
  assert((x * p + (z + w)) * p == x * (p * p) + z * p + w * p) by(nonlinear_arith);
  assert((al + p * ah) * (bl + p * bh) == al * bl + al * (p * bh) + (p * ah) * bl + (p * ah) * (p * bh)) by(nonlinear_arith);
  assert(al * (p * bh) == p * w) by(nonlinear_arith) requires w == al * bh; assert((p * ah) * bl == p * z) by(nonlinear_arith) requires z == ah * bl;
  assert((p * ah) * (p * bh) == (p * p) * x) by(nonlinear_arith) requires x == ah * bh;
  assert(p * w == w * p && p * z == z * p && (p * p) * x == x * (p * p)) by(nonlinear_arith);
}
