// ---------------------------------------------------------------- bytes of limbs, raw memory functions
// byte k (least significant first) of a sequence of 32-bit words, as this little-endian machine stores them
pub open spec fn lb(s: Seq<u32>, k: int) -> u8 {
  let x = s[k / 4] as int;
  (if k % 4 == 0 { x % 256 } else if k % 4 == 1 { (x / 256) % 256 } else if k % 4 == 2 { (x / 65536) % 256 } else { (x / 16777216) % 256 }) as u8
}
pub open spec fn bytes_of(s: Seq<u32>) -> Seq<u8> { Seq::new((4 * s.len()) as nat, |k: int| lb(s, k)) }
pub open spec fn setby(h: HS, c: int, q: Seq<u8>) -> HS { HS { by: h.by.insert(c, q), ..h } }
pub open spec fn bsplice(q: Seq<u8>, d: int, w: Seq<u8>, s: int, n: int) -> Seq<u8> { Seq::new(q.len(), |i: int| if d <= i < d + n { w[s + i - d] } else { q[i] }) }
// every slice and limb as before
pub open spec fn only_by(h0: HS, h1: HS) -> bool { h1 == (HS { by: h1.by, ..h0 }) && (forall |s: SRef| #[trigger] m(h1, s) == m(h0, s)) && wf(h1) == wf(h0) }
#[verifier::external_body]
pub fn bp_set_raw(h: &mut H, p: Bp, x: u8) requires brg(old(h)@, p.c@, p.i as int, p.i + 1)
  ensures final(h)@ == setby(old(h)@, p.c@, old(h)@.by[p.c@].update(p.i as int, x)) { unimplemented!() }
pub fn bp_set(h: &mut H, p: Bp, x: u8) requires brg(old(h)@, p.c@, p.i as int, p.i + 1)
  ensures final(h)@ == setby(old(h)@, p.c@, old(h)@.by[p.c@].update(p.i as int, x)), only_by(old(h)@, final(h)@) { let ghost h0 = h@; bp_set_raw(h, p, x); proof { ob(h0, h@); } }
pub proof fn ob(h0: HS, h1: HS) requires h1 == (HS { by: h1.by, ..h0 }) ensures only_by(h0, h1) {
  assert forall |s: SRef| #[trigger] m(h1, s) == m(h0, s) by { }
  assert forall |s2: SRef| wfs(h0, s2) == wfs(h1, s2) by { }
  if wf(h0) { assert forall |s2: SRef| h1.sl.dom().contains(s2) implies wfs(h1, s2) by { assert(wfs(h0, s2)); } }
  if wf(h1) { assert forall |s2: SRef| h0.sl.dom().contains(s2) implies wfs(h0, s2) by { assert(wfs(h1, s2)); } }
}
// memcpy: bytes of limbs to a byte buffer, byte buffer to limbs, between byte buffers
#[verifier::external_body]
pub fn memcpy_lb_raw(h: &mut H, d: Bp, s_: It, n: u64) requires brg(old(h)@, d.c@, d.i as int, d.i + n), rgok(old(h)@, s_.c@, s_.i as int, s_.i + (n + 3) / 4)
  ensures final(h)@ == setby(old(h)@, d.c@, bsplice(old(h)@.by[d.c@], d.i as int, bytes_of(old(h)@.cells[s_.c@]), 4 * s_.i, n as int)) { unimplemented!() }
pub fn memcpy_lb(h: &mut H, d: Bp, s_: It, n: u64) requires brg(old(h)@, d.c@, d.i as int, d.i + n), rgok(old(h)@, s_.c@, s_.i as int, s_.i + (n + 3) / 4)
  ensures final(h)@ == setby(old(h)@, d.c@, bsplice(old(h)@.by[d.c@], d.i as int, bytes_of(old(h)@.cells[s_.c@]), 4 * s_.i, n as int)), only_by(old(h)@, final(h)@) { let ghost h0 = h@; memcpy_lb_raw(h, d, s_, n); proof { ob(h0, h@); } }
#[verifier::external_body]
pub fn memcpy_bb_raw(h: &mut H, d: Bp, s_: Bp, n: u64) requires brg(old(h)@, d.c@, d.i as int, d.i + n), brg(old(h)@, s_.c@, s_.i as int, s_.i + n), d.c@ != s_.c@ || d.i + n <= s_.i || s_.i + n <= d.i
  ensures final(h)@ == setby(old(h)@, d.c@, bsplice(old(h)@.by[d.c@], d.i as int, old(h)@.by[s_.c@], s_.i as int, n as int)) { unimplemented!() }
pub fn memcpy_bb(h: &mut H, d: Bp, s_: Bp, n: u64) requires brg(old(h)@, d.c@, d.i as int, d.i + n), brg(old(h)@, s_.c@, s_.i as int, s_.i + n), d.c@ != s_.c@ || d.i + n <= s_.i || s_.i + n <= d.i
  ensures final(h)@ == setby(old(h)@, d.c@, bsplice(old(h)@.by[d.c@], d.i as int, old(h)@.by[s_.c@], s_.i as int, n as int)), only_by(old(h)@, final(h)@) { let ghost h0 = h@; memcpy_bb_raw(h, d, s_, n); proof { ob(h0, h@); } }
#[verifier::external_body]
pub fn bp_reverse_raw(h: &mut H, a: Bp, b: Bp) requires a.c@ == b.c@, brg(old(h)@, a.c@, a.i as int, b.i as int)
  ensures final(h)@ == setby(old(h)@, a.c@, bsplice(old(h)@.by[a.c@], a.i as int, old(h)@.by[a.c@].subrange(a.i as int, b.i as int).reverse(), 0, b.i - a.i)) { unimplemented!() }
pub fn bp_reverse(h: &mut H, a: Bp, b: Bp) requires a.c@ == b.c@, brg(old(h)@, a.c@, a.i as int, b.i as int)
  ensures final(h)@ == setby(old(h)@, a.c@, bsplice(old(h)@.by[a.c@], a.i as int, old(h)@.by[a.c@].subrange(a.i as int, b.i as int).reverse(), 0, b.i - a.i)), only_by(old(h)@, final(h)@) { let ghost h0 = h@; bp_reverse_raw(h, a, b); proof { ob(h0, h@); } }
// the vector's bytes change as told; limbs outside the touched range keep their value because their bytes do
pub open spec fn byteset(v0: Seq<u32>, v1: Seq<u32>, d: int, w: Seq<u8>, s: int, n: int) -> bool {
  v1.len() == v0.len() && (forall |i: int| 4 * d <= i < 4 * d + n ==> #[trigger] lb(v1, i) == w[s + i - 4 * d]) && (forall |i: int| 0 <= i < 4 * v0.len() && !(4 * d <= i < 4 * d + n) ==> #[trigger] lb(v1, i) == lb(v0, i))
}
#[verifier::external_body]
pub fn memcpy_bl_raw(h: &mut H, d: It, s_: Bp, n: u64) requires brg(old(h)@, s_.c@, s_.i as int, s_.i + n), rgok(old(h)@, d.c@, d.i as int, d.i + (n + 3) / 4)
  ensures final(h)@ == setv(old(h)@, d.c@, final(h)@.cells[d.c@]), byteset(old(h)@.cells[d.c@], final(h)@.cells[d.c@], d.i as int, old(h)@.by[s_.c@], s_.i as int, n as int) { unimplemented!() }
pub open spec fn bz(n: int, x: u8) -> Seq<u8> { Seq::new(n as nat, |i: int| x) }
#[verifier::external_body]
pub fn memset_l_raw(h: &mut H, d: It, x: i32, n: u64) requires rgok(old(h)@, d.c@, d.i as int, d.i + (n + 3) / 4)
  ensures final(h)@ == setv(old(h)@, d.c@, final(h)@.cells[d.c@]), byteset(old(h)@.cells[d.c@], final(h)@.cells[d.c@], d.i as int, bz(n as int, (x as int % 256) as u8), 0, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn memset_b_raw(h: &mut H, d: Bp, x: i32, n: u64) requires brg(old(h)@, d.c@, d.i as int, d.i + n)
  ensures final(h)@ == setby(old(h)@, d.c@, bsplice(old(h)@.by[d.c@], d.i as int, bz(n as int, (x as int % 256) as u8), 0, n as int)) { unimplemented!() }
pub fn memset_b(h: &mut H, d: Bp, x: i32, n: u64) requires brg(old(h)@, d.c@, d.i as int, d.i + n)
  ensures final(h)@ == setby(old(h)@, d.c@, bsplice(old(h)@.by[d.c@], d.i as int, bz(n as int, (x as int % 256) as u8), 0, n as int)), only_by(old(h)@, final(h)@) { let ghost h0 = h@; memset_b_raw(h, d, x, n); proof { ob(h0, h@); } }
// restated for slices: the limbs of a slice on that vector which covers the touched range (proved)
pub open spec fn bset(q: Seq<u32>, r: Seq<u32>, d: int, w: Seq<u8>, s: int, n: int) -> bool { byteset(q, r, d, w, s, n) }
pub proof fn lb_eq(s: Seq<u32>, t: Seq<u32>, i: int, j: int) requires lb(s, 4 * i) == lb(t, 4 * j), lb(s, 4 * i + 1) == lb(t, 4 * j + 1), lb(s, 4 * i + 2) == lb(t, 4 * j + 2), lb(s, 4 * i + 3) == lb(t, 4 * j + 3) ensures s[i] == t[j] {
  let x = s[i] as int; let y = t[j] as int;
  assert(4 * i / 4 == i && 4 * i % 4 == 0 && (4 * i + 1) / 4 == i && (4 * i + 1) % 4 == 1 && (4 * i + 2) / 4 == i && (4 * i + 2) % 4 == 2 && (4 * i + 3) / 4 == i && (4 * i + 3) % 4 == 3);
  assert(4 * j / 4 == j && 4 * j % 4 == 0 && (4 * j + 1) / 4 == j && (4 * j + 1) % 4 == 1 && (4 * j + 2) / 4 == j && (4 * j + 2) % 4 == 2 && (4 * j + 3) / 4 == j && (4 * j + 3) % 4 == 3);
}
pub proof fn lem_bset(h0: HS, h1: HS, c: int, d: int, w: Seq<u8>, s: int, n: int)
  requires wf(h0), h1 == setv(h0, c, h1.cells[c]), h0.cells.dom().contains(c), byteset(h0.cells[c], h1.cells[c], d, w, s, n), d >= 0, n >= 0
  ensures wf(h1), forall |r: SRef| cell(h0, r) != c ==> #[trigger] m(h1, r) == m(h0, r),
    forall |r: SRef| live(h0, r) && cell(h0, r) == c && h0.sl[r].lo <= d && d + (n + 3) / 4 <= h0.sl[r].hi ==> bset(m(h0, r), #[trigger] m(h1, r), d - h0.sl[r].lo, w, s, n) {
  lem_setv(h0, h1, c, h1.cells[c]);
  assert forall |r: SRef| live(h0, r) && cell(h0, r) == c && h0.sl[r].lo <= d && d + (n + 3) / 4 <= h0.sl[r].hi implies bset(m(h0, r), #[trigger] m(h1, r), d - h0.sl[r].lo, w, s, n) by {
    let q = m(h0, r); let t = m(h1, r); let lo = h0.sl[r].lo; let e = d - lo; assert(wfs(h0, r));
    assert forall |i: int| 0 <= i < 4 * q.len() implies #[trigger] lb(t, i) == (if 4 * e <= i < 4 * e + n { w[s + i - 4 * e] } else { lb(q, i) }) by {
      assert((i + 4 * lo) / 4 == i / 4 + lo && (i + 4 * lo) % 4 == i % 4); assert(t[i / 4] == h1.cells[c][i / 4 + lo]); assert(q[i / 4] == h0.cells[c][i / 4 + lo]);
      assert(lb(t, i) == lb(h1.cells[c], i + 4 * lo)); assert(lb(q, i) == lb(h0.cells[c], i + 4 * lo));
    }
  }
}
pub fn memcpy_bl(h: &mut H, d: It, s_: Bp, n: u64) requires wf(old(h)@), brg(old(h)@, s_.c@, s_.i as int, s_.i + n), rgok(old(h)@, d.c@, d.i as int, d.i + (n + 3) / 4)
  ensures final(h)@ == setv(old(h)@, d.c@, final(h)@.cells[d.c@]), wf(final(h)@), forall |r: SRef| cell(old(h)@, r) != d.c@ ==> #[trigger] m(final(h)@, r) == m(old(h)@, r),
    forall |r: SRef| live(old(h)@, r) && cell(old(h)@, r) == d.c@ && old(h)@.sl[r].lo <= d.i && d.i + (n + 3) / 4 <= old(h)@.sl[r].hi ==> bset(m(old(h)@, r), #[trigger] m(final(h)@, r), d.i - old(h)@.sl[r].lo, old(h)@.by[s_.c@], s_.i as int, n as int),
{ let ghost h0 = h@; memcpy_bl_raw(h, d, s_, n); proof { lem_bset(h0, h@, d.c@, d.i as int, h0.by[s_.c@], s_.i as int, n as int); } }
pub fn memset_l(h: &mut H, d: It, x: i32, n: u64) requires wf(old(h)@), rgok(old(h)@, d.c@, d.i as int, d.i + (n + 3) / 4)
  ensures final(h)@ == setv(old(h)@, d.c@, final(h)@.cells[d.c@]), wf(final(h)@), forall |r: SRef| cell(old(h)@, r) != d.c@ ==> #[trigger] m(final(h)@, r) == m(old(h)@, r),
    forall |r: SRef| live(old(h)@, r) && cell(old(h)@, r) == d.c@ && old(h)@.sl[r].lo <= d.i && d.i + (n + 3) / 4 <= old(h)@.sl[r].hi ==> bset(m(old(h)@, r), #[trigger] m(final(h)@, r), d.i - old(h)@.sl[r].lo, bz(n as int, (x as int % 256) as u8), 0, n as int),
{ let ghost h0 = h@; memset_l_raw(h, d, x, n); proof { lem_bset(h0, h@, d.c@, d.i as int, bz(n as int, (x as int % 256) as u8), 0, n as int); } }
// malloc is taken to succeed; the contents are unspecified
#[verifier::external_body]
pub fn bp_malloc_raw(h: &mut H, n: u64) -> (r: Bp)
  ensures r.c@ != 0, r.i == 0, !old(h)@.by.dom().contains(r.c@), final(h)@ == setby(old(h)@, r.c@, final(h)@.by[r.c@]), final(h)@.by[r.c@].len() == n { unimplemented!() }
pub fn bp_malloc(h: &mut H, n: u64) -> (r: Bp)
  ensures r.c@ != 0, r.i == 0, !old(h)@.by.dom().contains(r.c@), final(h)@ == setby(old(h)@, r.c@, final(h)@.by[r.c@]), final(h)@.by[r.c@].len() == n, only_by(old(h)@, final(h)@) { let ghost h0 = h@; let r = bp_malloc_raw(h, n); proof { ob(h0, h@); } r }
#[verifier::external_body]
pub fn bp_free_raw(h: &mut H, p: Bp) requires p.c@ == 0 || p.i == 0 && old(h)@.by.dom().contains(p.c@)
  ensures final(h)@ == (if p.c@ == 0 { old(h)@ } else { HS { by: old(h)@.by.remove(p.c@), ..old(h)@ } }) { unimplemented!() }
pub fn bp_free(h: &mut H, p: Bp) requires p.c@ == 0 || p.i == 0 && old(h)@.by.dom().contains(p.c@)
  ensures final(h)@ == (if p.c@ == 0 { old(h)@ } else { HS { by: old(h)@.by.remove(p.c@), ..old(h)@ } }), only_by(old(h)@, final(h)@) { let ghost h0 = h@; bp_free_raw(h, p); proof { ob(h0, h@); } }
pub fn c_u8_i32(x: u8) -> (r: i32) ensures r == x { x as i32 }
pub fn c_i8_i32(x: i8) -> (r: i32) ensures r == x { x as i32 }
pub fn c_i32_u8(x: i32) -> (r: u8) ensures r == x as int % 256 { proof { assert(x < 0 || x >= 0); } let y = x as u32 & 255; proof { assert((x as u32 & 255) as int == x as int % 256) by { lem_i32_low(x); } } y as u8 }
pub proof fn lem_i32_low(x: i32) ensures (x as u32 & 255) as int == x as int % 256 {
  assert((x as u32 & 255) == (x as u32) % 256) by(bit_vector);
  if x >= 0 { assert(x >= 0 ==> (x as u32) == x) by(bit_vector); } else { assert(x < 0 ==> (x as u32) == sub(0xffff_ffffu32, ((-(x + 1)) as u32))) by(bit_vector); assert(x as u32 as int == x + B()); }
}
pub proof fn lem_bnot(x: i32) ensures !x == -1 - x { assert(!x == sub(-1i32, x)) by(bit_vector); }
// ---------------------------------------------------------------- integers as byte strings
// the non-negative integer whose base-256 digits, least significant first, are the first n bytes of s
pub open spec fn ble(s: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { ble(s, n - 1) + s[n - 1] as int * p2(8 * (n - 1)) } }
// two's complement, little endian / either order
pub open spec fn imp2(s: Seq<u8>) -> int { let n = s.len() as int; if n == 0 { 0 } else if s[n - 1] >= 128 { ble(s, n) - p2(8 * n) } else { ble(s, n) } }
pub open spec fn impv(s: Seq<u8>, little: bool) -> int { if little { imp2(s) } else { imp2(s.reverse()) } }
pub proof fn p2_8(n: int) requires n >= 0 ensures p2(8 * (n + 1)) == 256 * p2(8 * n), p2(8 * n) >= 1 { p2_pos(8 * n); p2_add(8 * n, 8); reveal_with_fuel(p2, 10); assert(8 * (n + 1) == 8 * n + 8); assert(p2(8) == 256); let p = p2(8 * n); assert(p * 256 == 256 * p); }
pub proof fn ble_ext(a: Seq<u8>, b: Seq<u8>, n: int) requires forall |k: int| 0 <= k < n ==> a[k] == b[k] ensures ble(a, n) == ble(b, n) decreases n { if n > 0 { ble_ext(a, b, n - 1); } }
pub proof fn ble_bound(s: Seq<u8>, n: int) requires n >= 0 ensures 0 <= ble(s, n) < p2(8 * n) decreases n {
  p2_0(); if n > 0 { ble_bound(s, n - 1); p2_8(n - 1); let p = p2(8 * (n - 1)); let d = s[n - 1] as int; assert(d * p >= 0 && d * p <= 255 * p) by(nonlinear_arith) requires 0 <= d <= 255, p >= 1; }
}
// sign bytes at the top do not matter
pub proof fn ble_strip(s: Seq<u8>, a: int, n: int, neg: bool) requires 0 <= a <= n, forall |k: int| a <= k < n ==> s[k] == (if neg { 255u8 } else { 0u8 })
  ensures ble(s, n) - (if neg { p2(8 * n) } else { 0 }) == ble(s, a) - (if neg { p2(8 * a) } else { 0 }) decreases n - a {
  if a < n { ble_strip(s, a, n - 1, neg); p2_8(n - 1); let p = p2(8 * (n - 1)); assert(0 * p == 0); assert(255 * p == 256 * p - p); }
}
// two's complement of a byte string, in place: zeros below f kept, byte f negated, the rest complemented
pub open spec fn bcompl(r: Seq<u8>, s: Seq<u8>, f: int, n: int) -> bool {
  forall |k: int| 0 <= k < n ==> #[trigger] s[k] as int == (if k < f { r[k] as int } else if k == f { 256 - r[k] } else { 255 - r[k] })
}
pub proof fn ble_zero(s: Seq<u8>, n: int) requires forall |k: int| 0 <= k < n ==> s[k] == 0 ensures ble(s, n) == 0 decreases n { if n > 0 { ble_zero(s, n - 1); assert(0 * p2(8 * (n - 1)) == 0); } }
pub proof fn ble_neg(r: Seq<u8>, s: Seq<u8>, f: int, n: int, j: int) requires 0 <= f < j <= n, forall |k: int| 0 <= k < f ==> r[k] == 0, bcompl(r, s, f, n) ensures ble(s, j) + ble(r, j) == p2(8 * j) decreases j {
  assert(s[j - 1] as int == (if j - 1 == f { 256 - r[j - 1] } else { 255 - r[j - 1] }));
  let p = p2(8 * (j - 1)); p2_8(j - 1); let a = s[j - 1] as int; let c = r[j - 1] as int;
  assert(a * p + c * p == (a + c) * p) by(nonlinear_arith);
  if j - 1 == f { ble_zero(r, f); assert forall |k: int| 0 <= k < f implies s[k] == 0 by { assert(r[k] == 0); assert(s[k] as int == r[k] as int); } ble_zero(s, f); assert((a + c) * p == 256 * p) by(nonlinear_arith) requires a + c == 256; }
  else { ble_neg(r, s, f, n, j - 1); assert((a + c) * p == 256 * p - p) by(nonlinear_arith) requires a + c == 255; }
}
// limbs and their bytes
pub proof fn bytes_val(r: Seq<u32>, b: Seq<u8>, j: int) requires 0 <= j <= r.len(), forall |k: int| 0 <= k < 4 * j ==> b[k] == #[trigger] lb(r, k) ensures ble(b, 4 * j) == pv(r, j) decreases j {
  if j > 0 {
    bytes_val(r, b, j - 1); let i = j - 1; let x = r[i] as int; pw_p2(i); assert(8 * (4 * i) == 32 * i);
    p2_8(4 * i); p2_8(4 * i + 1); p2_8(4 * i + 2); let p = p2(8 * (4 * i));
    assert(4 * i / 4 == i && 4 * i % 4 == 0 && (4 * i + 1) / 4 == i && (4 * i + 1) % 4 == 1 && (4 * i + 2) / 4 == i && (4 * i + 2) % 4 == 2 && (4 * i + 3) / 4 == i && (4 * i + 3) % 4 == 3);
    assert(b[4 * i] == lb(r, 4 * i)); assert(b[4 * i + 1] == lb(r, 4 * i + 1)); assert(b[4 * i + 2] == lb(r, 4 * i + 2)); assert(b[4 * i + 3] == lb(r, 4 * i + 3));
    reveal_with_fuel(ble, 5);
    let b0 = b[4 * i] as int; let b1 = b[4 * i + 1] as int; let b2 = b[4 * i + 2] as int; let b3 = b[4 * i + 3] as int;
    assert(x == b0 + 256 * b1 + 65536 * b2 + 16777216 * b3);
    assert(ble(b, 4 * i + 4) == ble(b, 4 * i) + b0 * p + b1 * (256 * p) + b2 * (256 * (256 * p)) + b3 * (256 * (256 * (256 * p))));
    assert(b0 * p + b1 * (256 * p) + b2 * (256 * (256 * p)) + b3 * (256 * (256 * (256 * p))) == x * p) by(nonlinear_arith) requires x == b0 + 256 * b1 + 65536 * b2 + 16777216 * b3;
  }
}
// limbs filled from n bytes, zero above
pub proof fn bytes_in(r: Seq<u32>, b: Seq<u8>, n: int) requires 0 <= n <= 4 * r.len(), n <= b.len(), forall |k: int| 0 <= k < n ==> #[trigger] lb(r, k) == b[k], forall |k: int| n <= k < 4 * r.len() ==> #[trigger] lb(r, k) == 0 ensures val(r) == ble(b, n) {
  let q = bytes_of(r); bytes_val(r, q, r.len() as int); ble_strip(q, n, 4 * r.len() as int, false); ble_ext(q, b, n);
}
pub proof fn ble_split(s: Seq<u8>, k: int, n: int) -> (q: int) requires 0 <= k <= n ensures q >= 0, ble(s, n) == ble(s, k) + q * p2(8 * k) decreases n - k {
  if k == n { 0 } else { let q = ble_split(s, k, n - 1); let d = s[n - 1] as int; let e = p2(8 * (n - 1 - k)); p2_pos(8 * (n - 1 - k)); p2_add(8 * (n - 1 - k), 8 * k); let p = p2(8 * k); let r = q + d * e;
    assert(d * (e * p) == (d * e) * p) by(nonlinear_arith); assert(q * p + (d * e) * p == r * p) by(nonlinear_arith) requires r == q + d * e; assert(d * e >= 0) by(nonlinear_arith) requires d >= 0, e >= 0; r }
}
pub proof fn ble_mod(s: Seq<u8>, k: int, n: int) requires 0 <= k <= n ensures ble(s, n) % p2(8 * k) == ble(s, k) {
  let q = ble_split(s, k, n); ble_bound(s, k); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(ble(s, n), p2(8 * k), q, ble(s, k));
}
// number of bytes of a non-negative integer
pub open spec fn nbytes(x: int) -> int { (nbits(x) + 7) / 8 }
pub proof fn nbits_ub(x: int, n: int) requires n >= 0, x < p2(n) ensures nbits(x) <= n decreases n { reveal_with_fuel(nbits, 2); p2_0(); if n > 0 { p2_step(n); if x > 0 { nbits_ub(x / 2, n - 1); } } }
pub proof fn nbits_lb(x: int, n: int) requires n >= 0, x >= p2(n) ensures nbits(x) > n decreases n { reveal_with_fuel(nbits, 2); p2_pos(n); if n > 0 { p2_step(n); nbits_lb(x / 2, n - 1); } else { p2_0(); nbits_0(x / 2); } }
pub proof fn nbits_0(x: int) ensures nbits(x) >= 0 decreases x { reveal_with_fuel(nbits, 2); if x > 0 { nbits_0(x / 2); } }
pub proof fn mag_bits(s: Seq<u32>) requires s.len() > 0, norm(s) ensures 32 * (s.len() - 1) < nbits(val(s)) <= 32 * s.len() { val_bound(s); val_low(s); pw_p2(s.len() as int); pw_p2(s.len() - 1); nbits_ub(val(s), 32 * s.len() as int); nbits_lb(val(s), 32 * (s.len() - 1)); }

// between h0 and h only big b changed, apart from byte arrays
pub open spec fn kby(h0: HS, h: HS, b: BId) -> bool { frB(h0, sby0(h0.by, h), b) && h.st == h0.st && excl(h, SRef::Mag(b)) && liveb(h, b) && wf(h) }
pub proof fn kby_fl(h0: HS, h: HS, h2: HS, b: BId) requires kby(h0, h, b), h2.bg =~= h.bg.insert(b, h2.bg[b]), h2 == (HS { bg: h2.bg, ..h }) ensures kby(h0, h2, b), mg(h2, b) == mg(h, b) {
  let g = sby0(h0.by, h); let g2 = sby0(h0.by, h2); y_wf(h0.by, h2); y_wf(h0.by, h); assert(g2 =~= HS { bg: g.bg.insert(b, g2.bg[b]), ..g });
  assert forall |s2: SRef| h2.sl.dom().contains(s2) implies wfs(h2, s2) by { assert(wfs(h, s2)); }
  assert forall |s2: SRef| #[trigger] m(g2, s2) == m(g, s2) by { }
  assert(g2.bg.dom() =~= h0.bg.dom());
}
pub proof fn kby_S(h0: HS, h: HS, h2: HS, b: BId) requires kby(h0, h, b), frS(h, h2, SRef::Mag(b)), wf(h2), cell(h2, SRef::Mag(b)) == cell(h, SRef::Mag(b)) ensures kby(h0, h2, b), h2.by == h.by, h2.bg == h.bg, h2.st == h.st {
  let s = SRef::Mag(b); let g = sby0(h0.by, h); let g2 = sby0(h0.by, h2); y_wf(h0.by, h2); y_wf(h0.by, h);
  assert forall |s2: SRef| s2 != s && live(h0, s2) implies #[trigger] m(g2, s2) == m(h0, s2) by { assert(live(h, s2)); assert(cell(h, s2) != cell(h, s)); assert(m(h2, s2) == m(h, s2)); assert(m(g, s2) == m(h0, s2)); }
  assert forall |s2: SRef| s2 != s && live(h0, s2) implies #[trigger] g2.sl[s2] == h0.sl[s2] by { assert(live(h, s2)); assert(h2.sl[s2] == h.sl[s2]); assert(g.sl[s2] == h0.sl[s2]); }
  assert forall |s2: SRef| s2 != s && h2.sl.dom().contains(s2) implies cell(h2, s2) != cell(h2, s) by { assert(live(h, s2)); assert(h2.sl[s2] == h.sl[s2]); }
  assert forall |c: int| h0.cells.dom().contains(c) implies #[trigger] g2.cells.dom().contains(c) by { assert(g.cells.dom().contains(c)); }
}
pub proof fn kby_v(h0: HS, h: HS, h2: HS, b: BId) requires kby(h0, h, b), h2 == setv(h, cell(h, SRef::Mag(b)), h2.cells[cell(h, SRef::Mag(b))]), wf(h2), forall |r: SRef| cell(h, r) != cell(h, SRef::Mag(b)) ==> #[trigger] m(h2, r) == m(h, r) ensures kby(h0, h2, b) {
  let s = SRef::Mag(b); let g = sby0(h0.by, h); let g2 = sby0(h0.by, h2); y_wf(h0.by, h2); y_wf(h0.by, h);
  assert forall |s2: SRef| s2 != s && live(h0, s2) implies #[trigger] m(g2, s2) == m(h0, s2) by { assert(live(h, s2)); assert(cell(h, s2) != cell(h, s)); assert(m(h2, s2) == m(h, s2)); assert(m(g, s2) == m(h0, s2)); }
  assert forall |s2: SRef| s2 != s && live(h0, s2) implies #[trigger] g2.sl[s2] == h0.sl[s2] by { assert(g.sl[s2] == h0.sl[s2]); }
  assert forall |c: int| h0.cells.dom().contains(c) implies #[trigger] g2.cells.dom().contains(c) by { assert(g.cells.dom().contains(c)); }
}
pub proof fn kby_by(h0: HS, h: HS, h2: HS, b: BId) requires kby(h0, h, b), h2 == (HS { by: h2.by, ..h }) ensures kby(h0, h2, b), only_by(h, h2), forall |s2: SRef| #[trigger] m(h2, s2) == m(h, s2) { ob(h, h2); assert(sby0(h0.by, h2) == sby0(h0.by, h)); }
pub proof fn kby_0(h0: HS, h: HS, b: BId) requires frB(h0, h, b), h.st == h0.st, excl(h, SRef::Mag(b)), liveb(h, b) ensures kby(h0, h, b) { assert(sby0(h0.by, h) == h); }
pub proof fn kby_end(h0: HS, h: HS, b: BId) requires kby(h0, h, b), h.by == h0.by ensures frB(h0, h, b) { assert(sby0(h0.by, h) == h); }
// the temporary byte buffer
pub open spec fn tby(h0: HS, h: HS, p: Bp) -> bool { if p.c@ == 0 { h.by == h0.by } else { p.i == 0 && !h0.by.dom().contains(p.c@) && h.by =~= h0.by.insert(p.c@, h.by[p.c@]) } }
pub open spec fn sgnb(neg: bool) -> u8 { if neg { 255 } else { 0 } }
pub open spec fn lebytes(s: Seq<u8>, little: bool) -> Seq<u8> { if little { s } else { s.reverse() } }
// the sign bytes at the top of t are gone after n
pub open spec fn stripped(t: Seq<u8>, n: int, neg: bool) -> bool { 0 <= n <= t.len() && (forall |k: int| n <= k < t.len() ==> t[k] == sgnb(neg)) && (n > 0 ==> t[n - 1] != sgnb(neg)) }
pub proof fn imp_strip(s: Seq<u8>, little: bool, n: int, neg: bool) requires s.len() > 0, stripped(lebytes(s, little), n, neg), neg == (lebytes(s, little)[s.len() - 1] >= 128)
  ensures impv(s, little) == ble(lebytes(s, little), n) - (if neg { p2(8 * n) } else { 0 }) { ble_strip(lebytes(s, little), n, s.len() as int, neg); }
pub proof fn kby_B(h0: HS, h: HS, h2: HS, b: BId) requires kby(h0, h, b), frB(h, h2, b), h2.st == h.st, excl(h2, SRef::Mag(b)) ensures kby(h0, h2, b), h2.by == h.by {
  let s = SRef::Mag(b); let g = sby0(h0.by, h); let g2 = sby0(h0.by, h2); y_wf(h0.by, h2); y_wf(h0.by, h);
  assert forall |s2: SRef| s2 != s && live(h0, s2) implies #[trigger] m(g2, s2) == m(h0, s2) by { assert(live(h, s2)); assert(m(h2, s2) == m(h, s2)); assert(m(g, s2) == m(h0, s2)); }
  assert forall |s2: SRef| s2 != s && live(h0, s2) implies #[trigger] g2.sl[s2] == h0.sl[s2] by { assert(live(h, s2)); assert(h2.sl[s2] == h.sl[s2]); assert(g.sl[s2] == h0.sl[s2]); }
  assert forall |b2: BId| b2 != b && h0.bg.dom().contains(b2) implies #[trigger] g2.bg[b2] == h0.bg[b2] by { assert(g.bg[b2] == h0.bg[b2]); assert(h2.bg[b2] == h.bg[b2]); }
  assert forall |c: int| h0.cells.dom().contains(c) implies #[trigger] g2.cells.dom().contains(c) by { assert(g.cells.dom().contains(c)); }
  assert(liveb(h2, b));
}
pub proof fn val_pow(s: Seq<u32>, k: int, x: int) requires s.len() == k + 1, k >= 0, forall |j: int| 0 <= j < k ==> s[j] == 0, s[k] == x ensures val(s) == x * pw(k) { pv_zeros(s, k); reveal_with_fuel(pv, 2); }
pub proof fn lb_zero(s: Seq<u32>, n: int) requires n <= s.len(), forall |i: int| 0 <= i < 4 * n ==> #[trigger] lb(s, i) == 0 ensures forall |j: int| 0 <= j < n ==> s[j] == 0 {
  assert forall |j: int| 0 <= j < n implies s[j] == 0 by { assert(lb(s, 4 * j) == 0 && lb(s, 4 * j + 1) == 0 && lb(s, 4 * j + 2) == 0 && lb(s, 4 * j + 3) == 0); let z = Seq::new(1, |i: int| 0u32); lb_eq(s, z, j, 0); }
}
pub proof fn kby_u(h0: HS, h: HS, b: BId) requires kby(h0, h, b) ensures wf(h), liveb(h, b), live(h, SRef::Mag(b)), h.bg.dom().contains(b), excl(h, SRef::Mag(b)), h.st == h0.st, wfs(h, SRef::Mag(b)) { }
pub proof fn kby_bw(h0: HS, g: HS, h: HS, b: BId) requires wf(h0), liveb(h0, b), flB(h0, g, b), frX(g, h, SRef::Mag(b)), excl(h, SRef::Mag(b)), wf(h) ensures kby(h0, h, b), h.by == h0.by, h.st == h0.st {
  frB_fl(h0, g, b); frB_X(g, h, b); let s = SRef::Mag(b);
  assert forall |s2: SRef| s2 != s && live(h0, s2) implies #[trigger] m(h, s2) == m(h0, s2) by { assert(live(g, s2)); assert(m(g, s2) == m(h0, s2)); assert(m(h, s2) == m(g, s2)); }
  assert forall |s2: SRef| s2 != s && live(h0, s2) implies #[trigger] h.sl[s2] == h0.sl[s2] by { assert(live(g, s2)); assert(g.sl[s2] == h0.sl[s2]); }
  kby_0(h0, h, b);
}
pub proof fn tby_u(h0: HS, h: HS, p: Bp) requires tby(h0, h, p) ensures p.c@ == 0 ==> h.by == h0.by, p.c@ != 0 ==> p.i == 0 && !h0.by.dom().contains(p.c@) && h.by.dom().contains(p.c@) && h.by.remove(p.c@) == h0.by { let e = h.by.remove(p.c@); assert(p.c@ != 0 ==> e =~= h0.by); }
pub proof fn tby_set(h0: HS, h: HS, h2: HS, p: Bp) requires tby(h0, h, p), p.c@ != 0, h2.by =~= h.by.insert(p.c@, h2.by[p.c@]) ensures tby(h0, h2, p) { }
pub proof fn tby_new(h0: HS, h: HS, h2: HS, p: Bp) requires h.by == h0.by, p.c@ != 0, p.i == 0, !h.by.dom().contains(p.c@), h2.by =~= h.by.insert(p.c@, h2.by[p.c@]) ensures tby(h0, h2, p) { }
pub proof fn tby_0(h0: HS, h: HS, p: Bp) requires h.by == h0.by, p.c@ == 0 ensures tby(h0, h, p) { }
pub proof fn tby_st(h0: HS, h: HS, h2: HS, p: Bp) requires tby(h0, h, p), h2.by == h.by ensures tby(h0, h2, p) { }
pub proof fn fl_wf(h0: HS, h: HS, b: BId) requires wf(h0), flB(h0, h, b) ensures wf(h) { assert forall |s2: SRef| h.sl.dom().contains(s2) implies wfs(h, s2) by { assert(wfs(h0, s2)); } }
pub proof fn all_zero_a(t: Seq<u8>, n: int, z: Seq<u32>, r: Seq<u32>) requires n > 0, n % 4 == 0, n <= t.len(), forall |k: int| 0 <= k < n ==> t[k] == 0, z.len() == n / 4, zlb(z), r =~= z.push(1u32)
  ensures ble(t, n) == 0, val(r) == p2(8 * n), norm(r) { ble_zero(t, n); lb_zero(z, n / 4); val_pow(r, n / 4, 1); pw_p2(n / 4); assert(32 * (n / 4) == 8 * n); }
pub proof fn all_zero_b(t: Seq<u8>, n: int, z: Seq<u32>, r: Seq<u32>, k: u32) requires n > 0, n % 4 != 0, n <= t.len(), forall |k: int| 0 <= k < n ==> t[k] == 0, z.len() == n / 4 + 1, zlb(z), k == 8 * (n % 4), r =~= z.update(n / 4, 1u32 << k)
  ensures ble(t, n) == 0, val(r) == p2(8 * n), norm(r) {
  ble_zero(t, n); lb_zero(z, z.len() as int); lem_shl32(1u32, k); p2_pos(k as int); p2_mono(k as int, 24); p2_add(24, 8); p2_32(); reveal_with_fuel(p2, 9); let x = (1u32 << k) as int; assert(p2(24) * 256 == B()); assert(x == p2(k as int));
  val_pow(r, n / 4, x); p2_split(8 * n); assert(8 * n / 32 == n / 4 && 8 * n % 32 == k as int); let A = pw(n / 4); assert(x * A == A * x) by(nonlinear_arith);
}
pub open spec fn zlb(z: Seq<u32>) -> bool { forall |i: int| 0 <= i < 4 * z.len() ==> #[trigger] lb(z, i) == 0 }
pub proof fn bset_z(q: Seq<u32>, r: Seq<u32>, d: int, w: Seq<u8>, n: int) requires bset(q, r, d, w, 0, n), d == 0, w == bz(n, 0u8), n == 4 * q.len() ensures zlb(r), r.len() == q.len() { assert forall |i: int| 0 <= i < 4 * r.len() implies #[trigger] lb(r, i) == 0 by { assert(lb(r, i) == w[i]); } }
pub proof fn bset_v(q: Seq<u32>, r: Seq<u32>, d: int, w: Seq<u8>, s: int, n: int) requires bset(q, r, d, w, s, n), d == 0, zlb(q), 0 <= n <= 4 * q.len(), 0 <= s, s + n <= w.len() ensures val(r) == ble(w.subrange(s, s + n), n), r.len() == q.len() {
  let e = w.subrange(s, s + n);
  assert forall |k: int| 0 <= k < n implies #[trigger] lb(r, k) == e[k] by { assert(lb(r, k) == w[s + k]); }
  assert forall |k: int| n <= k < 4 * r.len() implies #[trigger] lb(r, k) == 0 by { assert(lb(r, k) == lb(q, k)); }
  bytes_in(r, e, n);
}
