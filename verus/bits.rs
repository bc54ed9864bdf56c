// ---------------------------------------------------------------- two's complement words
// word i of the infinite two's complement representation of x
pub open spec fn tc(x: int, i: int) -> int { (x / pw(i)) % B() }
pub open spec fn nw(x: u32, n: int, z: int) -> int { if n > z { B() - 1 - x } else if n < z { 0 } else if x == 0 { 0 } else { B() - x } }
// what getU32 computes from flags, limbs and the cached index
pub open spec fn gw(f: u32, s: Seq<u32>, z: int, n: int) -> int {
  if fb1(f) { 0 } else if n >= s.len() { if fb4(f) { B() - 1 } else { 0 } } else if fb2(f) { s[n] as int } else { nw(s[n], n, z) }
}
pub proof fn div_neg(x: int, d: int) requires d > 0 ensures (-x) / d == (if x % d == 0 { -(x / d) } else { -(x / d) - 1 }) {
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, d); let q = x / d; let r = x % d;
  if r == 0 { assert(-x == (-q) * d + 0) by(nonlinear_arith) requires x == d * q + r, r == 0; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-x, d, -q, 0); }
  else { assert(-x == (-q - 1) * d + (d - r)) by(nonlinear_arith) requires x == d * q + r; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-x, d, -q - 1, d - r); }
}
pub proof fn mod_neg(x: int, d: int) requires d > 0 ensures (-x) % d == (if x % d == 0 { 0 } else { d - x % d }), (-x - 1) % d == d - 1 - x % d {
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, d); let q = x / d; let r = x % d;
  assert(-x - 1 == (-q - 1) * d + (d - 1 - r)) by(nonlinear_arith) requires x == d * q + r;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-x - 1, d, -q - 1, d - 1 - r);
  if r == 0 { assert(-x == (-q) * d + 0) by(nonlinear_arith) requires x == d * q + r, r == 0; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-x, d, -q, 0); }
  else { assert(-x == (-q - 1) * d + (d - r)) by(nonlinear_arith) requires x == d * q + r; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-x, d, -q - 1, d - r); }
}
pub proof fn val_div(s: Seq<u32>, i: int) requires 0 <= i <= s.len() ensures val(s) / pw(i) == val(s.subrange(i, s.len() as int)), val(s) % pw(i) == pv(s, i) {
  pv_split(s, i, s.len() as int); pv_bound(s, i); let q = val(s.subrange(i, s.len() as int));
  assert(pw(i) * q == q * pw(i)) by(nonlinear_arith);
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(val(s), pw(i), q, pv(s, i));
}
pub proof fn small_div(x: int, n: int, i: int) requires 0 <= x < pw(n), n <= i ensures x / pw(i) == 0, x % pw(i) == x { pw_mono(n, i); pw_pos(i); vstd::arithmetic::div_mod::lemma_basic_div(x, pw(i)); vstd::arithmetic::div_mod::lemma_small_mod(x as nat, pw(i) as nat); }
pub proof fn pv_pos(s: Seq<u32>, k: int, n: int) requires 0 <= k < n, s[k] != 0 ensures pv(s, n) > 0 decreases n {
  pv_bound(s, n - 1); pw_pos(n - 1); let d = s[n - 1] as int; let p = pw(n - 1);
  assert(d * p >= 0) by(nonlinear_arith) requires d >= 0, p >= 1;
  if k == n - 1 { assert(d * p >= 1) by(nonlinear_arith) requires d >= 1, p >= 1; } else { pv_pos(s, k, n - 1); }
}
pub proof fn tc_pos(s: Seq<u32>, i: int) requires i >= 0 ensures tc(val(s), i) == (if i < s.len() { s[i] as int } else { 0 }) {
  val_bound(s); if i < s.len() { pv_digit(s, i); } else { small_div(val(s), s.len() as int, i); }
}
pub proof fn tc_neg(s: Seq<u32>, z: int, i: int) requires i >= 0, fnz(s, z), z < s.len()
  ensures tc(-val(s), i) == (if i < s.len() { nw(s[i], i, z) } else { B() - 1 }) {
  let x = val(s); val_bound(s); pw_pos(i); div_neg(x, pw(i)); mod_neg(x / pw(i), B());
  tc_pos(s, i);
  if i < s.len() {
    val_div(s, i);
    if i > z { pv_pos(s, z, i); } else { pv_zeros(s, i); }
  } else { pv_pos(s, z, s.len() as int); small_div(x, s.len() as int, i); assert((-1int) % B() == B() - 1); }
}
pub proof fn tc_0(i: int) requires i >= 0 ensures tc(0, i) == 0 { pw_pos(i); vstd::arithmetic::div_mod::lemma_basic_div(0, pw(i)); }
pub proof fn gw_tc(h: HS, b: BId, z: int, n: int) requires binv(h, b), n >= 0, fb4(fl(h, b)) ==> fnz(mg(h, b), z)
  ensures gw(fl(h, b), mg(h, b), z, n) == tc(v(h, b), n) {
  tc_0(n); tc_pos(mg(h, b), n); let s = mg(h, b); if fb4(fl(h, b)) { if z >= s.len() { assert(s[s.len() - 1] == 0); } tc_neg(s, z, n); }
}
// a two's complement array: value R, minus pw(len) when the sign word is all ones
pub proof fn tc_arr(r: Seq<u32>, x: int, i: int) requires i >= 0, r.len() > 0, x == val(r) && r[r.len() - 1] == 0 || x == val(r) - pw(r.len() as int) && r[r.len() - 1] == 0xffff_ffff
  ensures tc(x, i) == (if i < r.len() { r[i] as int } else { r[r.len() - 1] as int }) {
  let n = r.len() as int;
  if r[n - 1] == 0 { tc_pos(r, i); }
  else if i < n {
    val_div(r, i); tc_pos(r, i); pw_pos(i); pw_add(i, n - i); pw_step(n - i); let q = val(r) / pw(i); let p = pw(i); let e = pw(n - i - 1); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(val(r), p);
    let rm = val(r) % p;
    assert(x == (q - B() * e) * p + rm) by(nonlinear_arith) requires x == val(r) - p * (B() * e), val(r) == p * q + rm;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, p, q - B() * e, rm);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(-e, q, B()); assert(B() * (-e) + q == q - B() * e) by(nonlinear_arith);
  } else {
    val_bound(r); pw_mono(n, i); pw_pos(i); val_low(r); pw_step(n); 
    let p = pw(i); assert(-p <= x < 0);
    assert(x == (-1) * p + (x + p)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, p, -1, x + p); assert((-1int) % B() == B() - 1);
  }
}
pub proof fn npo(r: Seq<u32>, s: Seq<u32>, f: int, j: int) requires r.len() == s.len(), fnz(r, f), f < j <= r.len(), f < r.len(),
    forall |k: int| 0 <= k < r.len() ==> #[trigger] s[k] == (if k < f { r[k] as int } else if k == f { if r[k] == 0 { 0 } else { B() - r[k] } } else { B() - 1 - r[k] })
  ensures pv(s, j) + pv(r, j) == pw(j) decreases j {
  assert(s[j - 1] == (if j - 1 == f { B() - r[j - 1] } else { B() - 1 - r[j - 1] }));
  let p = pw(j - 1); pw_step(j); let a = s[j - 1] as int; let c = r[j - 1] as int;
  assert(a * p + c * p == (a + c) * p) by(nonlinear_arith);
  if j - 1 == f { pv_zeros(r, f); assert forall |k: int| 0 <= k < f implies s[k] == 0 by { assert(r[k] == 0); } pv_zeros(s, f); assert((a + c) * p == B() * p) by(nonlinear_arith) requires a + c == B(); }
  else { npo(r, s, f, j - 1); assert((a + c) * p == B() * p - p) by(nonlinear_arith) requires a + c == B() - 1; }
}
// floor shift of a negative value
pub proof fn shr_rem(a: Seq<u32>, n: int) requires n >= 0, n / 32 < a.len()
  ensures val(a) % p2(n) == pv(a, n / 32) + pw(n / 32) * (a[n / 32] as int % p2(n % 32)),
    (val(a) % p2(n) != 0) == ((exists |k: int| 0 <= k < n / 32 && a[k] != 0) || a[n / 32] as int % p2(n % 32) != 0) {
  let k = n / 32; let s = n % 32; p2_split(n); val_div(a, k); pw_pos(k); let e = p2(s); let p = pw(k); p2_lt(s);
  let t = a.subrange(k, a.len() as int); let q = val(t); val_div(t, 1); pw_1(); pw_0(); reveal_with_fuel(pv, 3);
  assert(pv(t, 1) == a[k]); let q1 = q / B(); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, B());
  let c = a[k] as int; let d = p2(32 - s);
  assert(q == e * (d * q1) + c) by(nonlinear_arith) requires q == B() * q1 + c, e * d == B();
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, e); let c1 = c / e; let r = c % e;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(val(a), p); let lo = pv(a, k); pv_bound(a, k);
  assert(val(a) == (d * q1 + c1) * (p * e) + (lo + p * r)) by(nonlinear_arith) requires val(a) == p * q + lo, q == e * (d * q1) + c, c == e * c1 + r;
  assert(0 <= lo + p * r < p * e && p * r >= 0) by(nonlinear_arith) requires 0 <= lo < p, 0 <= r <= e - 1;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(val(a), p * e, d * q1 + c1, lo + p * r);
  if r != 0 { assert(p * r >= 1) by(nonlinear_arith) requires p >= 1, r >= 1; } else { assert(p * 0 == 0); }
  if exists |j: int| 0 <= j < k && a[j] != 0 { let j = choose |j: int| 0 <= j < k && a[j] != 0; pv_pos(a, j, k); } else { pv_zeros(a, k); }
}
pub proof fn lem_lost(x: u32, s: u64) requires 0 < s < 32 ensures (x << ((32 - s) as u32) != 0) == (x as int % p2(s as int) != 0) {
  let l = (32 - s) as u32; lem_shl32(x, l); p2_lt(s as int); p2_pos(32 - s); lem_mod_shift(x as int, p2(32 - s), p2(s as int));
  assert(p2(32 - s) * p2(s as int) == B()) by(nonlinear_arith) requires p2(s as int) * p2(32 - s) == B();
  let r = x as int % p2(s as int); let d = p2(32 - s); assert((r * d == 0) == (r == 0)) by(nonlinear_arith) requires d >= 1;
}
pub proof fn fnz_from(s: Seq<u32>, k: int) -> (z: int) requires 0 <= k <= s.len(), forall |j: int| 0 <= j < k ==> s[j] == 0 ensures fnz(s, z) decreases s.len() - k {
  if k == s.len() { k } else if s[k] != 0 { k } else { fnz_from(s, k + 1) }
}
pub proof fn fnz_ex(s: Seq<u32>) ensures exists |z: int| fnz(s, z) { let z = fnz_from(s, 0); assert(fnz(s, z)); }
pub proof fn tc_low64(x: int) ensures x % U64() == tc(x, 0) + B() * tc(x, 1) {
  pw_0(); pw_1(); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, B()); let q = x / B(); let r = x % B();
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, B()); let q2 = q / B(); let r2 = q % B();
  assert(x == q2 * U64() + (r + B() * r2)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, U64(), q2, r + B() * r2);
  assert(x / 1 == x);
}
pub proof fn lem_join(x: u32, y: u32) ensures ((0xffff_ffffu64 & (x as u64)) << 32u64) | (0xffff_ffffu64 & (y as u64)) == x as int * B() + y as int {
  assert(((0xffff_ffffu64 & (x as u64)) << 32u64) | (0xffff_ffffu64 & (y as u64)) == (x as u64) * 0x1_0000_0000u64 + (y as u64)) by(bit_vector);
  assert((x as u64) * 0x1_0000_0000u64 + (y as u64) == x as int * B() + y as int) by(nonlinear_arith);
}

// ---------------------------------------------------------------- bit counts
pub open spec fn nbits(x: int) -> int decreases x { if x <= 0 { 0 } else { 1 + nbits(x / 2) } }
pub proof fn nbits_range(x: int, n: int) requires n >= 1, p2(n - 1) <= x < p2(n) ensures nbits(x) == n decreases n {
  reveal_with_fuel(nbits, 2); p2_pos(n - 1);
  if n == 1 { p2_32(); assert(x == 1); reveal_with_fuel(nbits, 3); }
  else { p2_step(n); p2_step(n - 1); nbits_range(x / 2, n - 1); }
}
pub proof fn nbits_limbs(s: Seq<u32>, k: int) requires s.len() > 0, 0 <= k < 32, p2(k) <= s[s.len() - 1] < p2(k + 1)
  ensures nbits(val(s)) == 32 * (s.len() - 1) + k + 1, p2(nbits(val(s))) == pw(s.len() - 1) * p2(k + 1) {
  let n = s.len() - 1; pv_bound(s, n); pw_p2(n); p2_add(32 * n, k); p2_add(32 * n, k + 1); pw_pos(n); let p = pw(n); let t = s[n] as int;
  assert(t * p >= p * p2(k)) by(nonlinear_arith) requires t >= p2(k), p >= 1;
  assert(t * p + p <= p * p2(k + 1)) by(nonlinear_arith) requires t + 1 <= p2(k + 1), p >= 1;
  nbits_range(val(s), 32 * n + k + 1);
}

pub proof fn pv_compl(a: Seq<u32>, s: Seq<u32>, n: int) requires n >= 0, forall |k: int| 0 <= k < n ==> #[trigger] s[k] == B() - 1 - a[k] ensures pv(s, n) == pw(n) - 1 - pv(a, n) decreases n {
  pw_0();
  if n > 0 { pv_compl(a, s, n - 1); pw_step(n); let p = pw(n - 1); let x = a[n - 1] as int; assert(s[n - 1] == B() - 1 - a[n - 1]); assert((B() - 1 - x) * p == B() * p - p - x * p) by(nonlinear_arith); }
}
pub proof fn lem_compl(x: u32, z: u32) requires 0 <= z < 32, x < p2(32 - z) ensures (!x & (0xffff_ffffu32 >> z)) as int == p2(32 - z) - 1 - x {
  let m = 0xffff_ffffu32 >> z; lem_shr32(0xffff_ffffu32, z); p2_lt(z as int); p2_pos(32 - z); let e = p2(32 - z); let d = p2(z as int);
  assert(B() - 1 == d * (e - 1) + (d - 1)) by(nonlinear_arith) requires d * e == B();
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(B() - 1, d, e - 1, d - 1);
  assert(m == e - 1);
  assert((!x & m) == sub(m, x)) by(bit_vector) requires x <= m, m == 0xffff_ffffu32 >> z, z < 32;
}
pub proof fn gw_ext(h0: HS, b: BId, f: u32, s: Seq<u32>, z: int, i: int)
  requires binv(h0, b), fb1(f) == fb1(fl(h0, b)), fb2(f) == fb2(fl(h0, b)), fb4(f) == fb4(fl(h0, b)), s.len() > mg(h0, b).len(), 0 <= i < s.len(), s[i] == ext0(mg(h0, b), s.len() as int)[i], fb4(f) ==> fnz(mg(h0, b), z)
  ensures gw(f, s, z, i) == tc(v(h0, b), i) {
  gw_tc(h0, b, z, i); if fb4(f) && z >= mg(h0, b).len() { let a = mg(h0, b); assert(a[a.len() - 1] == 0); }
}
pub proof fn tc_sign(h0: HS, b: BId, i: int) requires binv(h0, b), i >= mg(h0, b).len() ensures tc(v(h0, b), i) == (if v(h0, b) < 0 { B() - 1 } else { 0 }) {
  let s = mg(h0, b); fnz_ex(s); let z = choose |z: int| fnz(s, z); gw_tc(h0, b, z, i); val_bound(s); val_one(s);
}
pub proof fn tc_i64s(x: int, i: int) requires -0x8000_0000_0000_0000 <= x < 0x8000_0000_0000_0000, i >= 2 ensures tc(x, i) == (if x < 0 { B() - 1 } else { 0 }) {
  pw_mono(2, i); pw_1(); pw_step(2); let p = pw(i);
  if x >= 0 { vstd::arithmetic::div_mod::lemma_basic_div(x, p); } else { assert(x == (-1) * p + (x + p)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, p, -1, x + p); assert((-1int) % B() == B() - 1); }
}
pub proof fn lem_i64w(x: i64, n: u64) requires n < 2 ensures ((((x >> ((n * 32) as u64)) & 0xffff_ffffi64) as u32) as int) == tc(x as int, n as int) {
  let u = x as u64; tc_low64(x as int);
  assert(u as int == x as int % U64()) by { if x < 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(-1, x as int + U64(), U64()); assert(U64() * (-1) + (x as int + U64()) == x as int); vstd::arithmetic::div_mod::lemma_small_mod((x as int + U64()) as nat, U64() as nat); assert(u as int == x as int + U64()) by { assert(x < 0 ==> (x as u64) == (0xffff_ffff_ffff_ffffu64 - ((-(x + 1)) as u64)) as u64) by(bit_vector); } } else { assert(x >= 0 ==> (x as u64) == x) by(bit_vector); } }
  if n == 0 { assert((((x >> 0u64) & 0xffff_ffffi64) as u32) as u64 == (u & 0xffff_ffff)) by(bit_vector) requires u == x as u64; assert(u & 0xffff_ffff == u % 0x1_0000_0000) by(bit_vector); }
  else { assert((((x >> 32u64) & 0xffff_ffffi64) as u32) as u64 == (u >> 32)) by(bit_vector) requires u == x as u64; assert(u >> 32 == u / 0x1_0000_0000) by(bit_vector); }
  let a = tc(x as int, 0); let c = tc(x as int, 1); pw_0(); pw_1();
  assert(u as int == a + B() * c); assert(0 <= a < B() && 0 <= c < B());
  assert(u as int / B() == c && u as int % B() == a) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(u as int, B(), c, a); }
}
pub proof fn tc_mod(x: int, s: Seq<u32>, n: int) requires n >= 0, forall |k: int| 0 <= k < n ==> #[trigger] tc(x, k) == s[k] ensures x % pw(n) == pv(s, n) decreases n {
  pw_0(); pw_pos(n);
  if n > 0 { tc_mod(x, s, n - 1); pw_step(n); let p = pw(n - 1); assert(tc(x, n - 1) == s[n - 1]); let q = x / p; let r = x % p; let q2 = q / B(); let d = q % B();
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, p); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, B());
    assert(x == q2 * (B() * p) + (r + d * p)) by(nonlinear_arith) requires x == p * q + r, q == B() * q2 + d;
    assert(0 <= r + d * p < B() * p) by(nonlinear_arith) requires 0 <= r < p, 0 <= d <= B() - 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, B() * p, q2, r + d * p); }
}
pub proof fn pw_big(x: int) -> (n: int) requires x >= 0 ensures n >= 0, x < pw(n) decreases x { pw_0(); if x == 0 { 0 } else { let m = pw_big(x - 1); pw_step(m + 1); m + 1 } }
pub proof fn tc_inj(x: int, y: int) requires forall |k: int| k >= 0 ==> #[trigger] tc(x, k) == tc(y, k) ensures x == y {
  let ax = if x < 0 { -x } else { x }; let ay = if y < 0 { -y } else { y }; let n = pw_big(ax + ay);
  let s = Seq::new(n as nat, |i: int| tc(x, i) as u32);
  assert forall |k: int| 0 <= k < n implies #[trigger] tc(x, k) == s[k] by { pw_pos(k); } assert forall |k: int| 0 <= k < n implies #[trigger] tc(y, k) == s[k] by { assert(tc(x, k) == s[k]); }
  tc_mod(x, s, n); tc_mod(y, s, n); let p = pw(n);
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, p); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, p); let q = x / p; let w = y / p;
  assert(q == w) by(nonlinear_arith) requires x - y == p * q - p * w, -p < x - y < p;
}
pub proof fn tc_not(x: int, y: int) requires forall |k: int| k >= 0 ==> #[trigger] tc(y, k) == (!(tc(x, k) as u32)) as int ensures y == -x - 1 {
  assert forall |k: int| k >= 0 implies #[trigger] tc(y, k) == tc(-x - 1, k) by {
    pw_pos(k); let p = pw(k); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, p); let q = x / p; let r = x % p;
    assert(-x - 1 == (-q - 1) * p + (p - 1 - r)) by(nonlinear_arith) requires x == p * q + r;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-x - 1, p, -q - 1, p - 1 - r); mod_neg(q, B());
    let t = tc(x, k) as u32; assert(!t == sub(0xffff_ffff, t)) by(bit_vector);
  }
  tc_inj(y, -x - 1);
}
pub open spec fn sgs(h1: HS, h0: HS, b: BId) -> bool { fb1(fl(h1, b)) == fb1(fl(h0, b)) && fb2(fl(h1, b)) == fb2(fl(h0, b)) && fb4(fl(h1, b)) == fb4(fl(h0, b)) }
pub proof fn frW_inv(h0: HS, h1: HS, b: BId, o: BId) requires frW(h0, h1, b), o != b, binv(h0, o) ensures binv(h1, o), v(h1, o) == v(h0, o) {
  assert(liveb(h0, o)); assert(h1.bg.dom().contains(o)); assert(m(h1, SRef::Mag(o)) == m(h0, SRef::Mag(o)));
}
