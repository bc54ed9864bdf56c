// ---------------------------------------------------------------- values of limb sequences
#[verifier::opaque]
pub open spec fn pw(n: int) -> int decreases n { if n <= 0 { 1 } else { B() * pw(n - 1) } }
pub open spec fn pv(s: Seq<u32>, n: int) -> int decreases n { if n <= 0 { 0 } else { pv(s, n - 1) + s[n - 1] as int * pw(n - 1) } }
pub open spec fn val(s: Seq<u32>) -> int { pv(s, s.len() as int) }
pub open spec fn ext0(s: Seq<u32>, n: int) -> Seq<u32> { Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { 0u32 }) }
pub proof fn pw_0() ensures pw(0) == 1 { reveal_with_fuel(pw, 2); }
pub proof fn pw_1() ensures pw(1) == B() { reveal_with_fuel(pw, 3); }
pub proof fn pw_step(n: int) requires n > 0 ensures pw(n) == B() * pw(n - 1), pw(n - 1) >= 1 { reveal_with_fuel(pw, 2); pw_pos(n - 1); }
pub proof fn pw_pos(n: int) ensures pw(n) >= 1 decreases n { reveal_with_fuel(pw, 2); if n > 0 { pw_pos(n - 1); } }
pub proof fn pw_add(a: int, b: int) requires a >= 0, b >= 0 ensures pw(a + b) == pw(a) * pw(b) decreases b {
  reveal_with_fuel(pw, 2);
  if b > 0 { pw_add(a, b - 1); assert(B() * (pw(a) * pw(b - 1)) == pw(a) * (B() * pw(b - 1))) by(nonlinear_arith); }
  else { assert(pw(a) * 1 == pw(a)); }
}
pub proof fn pw_mono(a: int, b: int) requires a <= b ensures pw(a) <= pw(b) decreases b - a { if a < b { pw_mono(a, b - 1); reveal_with_fuel(pw, 2); pw_pos(b - 1); } }
pub proof fn pw_p2(n: int) requires n >= 0 ensures pw(n) == p2(32 * n) decreases n {
  reveal_with_fuel(pw, 2);
  if n > 0 { pw_p2(n - 1); p2_add(32 * (n - 1), 32); p2_32(); assert(32 * (n - 1) + 32 == 32 * n); assert(p2(32 * (n - 1)) * B() == B() * pw(n - 1)) by(nonlinear_arith) requires p2(32 * (n - 1)) == pw(n - 1); }
  else { p2_0(); }
}
pub proof fn pv_ext(a: Seq<u32>, b: Seq<u32>, n: int) requires forall |k: int| 0 <= k < n ==> a[k] == b[k] ensures pv(a, n) == pv(b, n) decreases n { if n > 0 { pv_ext(a, b, n - 1); } }
pub proof fn pv_bound(s: Seq<u32>, n: int) requires n >= 0 ensures 0 <= pv(s, n) < pw(n) decreases n {
  pw_pos(n);
  if n > 0 {
    pv_bound(s, n - 1); pw_step(n);
    let p = pw(n - 1); let d = s[n - 1] as int;
    assert(pv(s, n - 1) + d * p < B() * p && d * p >= 0) by(nonlinear_arith) requires pv(s, n - 1) < p, 0 <= d <= B() - 1, p >= 1;
  } else { pw_0(); }
}
// the value of the prefix n, then the limbs [n, k)
pub proof fn pv_split(s: Seq<u32>, n: int, k: int) requires 0 <= n <= k <= s.len() ensures pv(s, k) == pv(s, n) + pw(n) * pv(s.subrange(n, s.len() as int), k - n) decreases k {
  let t = s.subrange(n, s.len() as int);
  if k == n { assert(pw(n) * 0 == 0); }
  else {
    pv_split(s, n, k - 1); pw_add(n, k - 1 - n);
    assert(t[k - 1 - n] == s[k - 1]);
    assert(pw(n) * pv(t, k - 1 - n) + s[k - 1] as int * (pw(n) * pw(k - 1 - n)) == pw(n) * (pv(t, k - 1 - n) + s[k - 1] as int * pw(k - 1 - n))) by(nonlinear_arith);
  }
}
pub proof fn val_split(s: Seq<u32>, n: int) requires 0 <= n <= s.len()
  ensures val(s) == val(s.subrange(0, n)) + pw(n) * val(s.subrange(n, s.len() as int)) {
  pv_split(s, n, s.len() as int); pv_ext(s, s.subrange(0, n), n);
}
pub proof fn val_concat(a: Seq<u32>, b: Seq<u32>) ensures val(a + b) == val(a) + pw(a.len() as int) * val(b) {
  val_split(a + b, a.len() as int);
  assert((a + b).subrange(0, a.len() as int) =~= a); assert((a + b).subrange(a.len() as int, (a + b).len() as int) =~= b);
}
pub proof fn val_push(a: Seq<u32>, x: u32) ensures val(a.push(x)) == val(a) + x as int * pw(a.len() as int) { pv_ext(a, a.push(x), a.len() as int); }
pub proof fn val_empty(s: Seq<u32>) requires s.len() == 0 ensures val(s) == 0 { }
pub proof fn pv_zeros(s: Seq<u32>, n: int) requires forall |k: int| 0 <= k < n ==> s[k] == 0 ensures pv(s, n) == 0 decreases n { if n > 0 { pv_zeros(s, n - 1); assert(0 * pw(n - 1) == 0); } }
pub proof fn pv_tail0(s: Seq<u32>, n: int, k: int) requires n <= k, forall |i: int| n <= i < k ==> s[i] == 0 ensures pv(s, k) == pv(s, n) decreases k - n { if k > n { pv_tail0(s, n, k - 1); assert(0 * pw(k - 1) == 0); if k <= 0 { } } }
pub proof fn val_ext0(s: Seq<u32>, n: int) requires n >= s.len() ensures val(ext0(s, n)) == val(s) { pv_tail0(ext0(s, n), s.len() as int, n); pv_ext(s, ext0(s, n), s.len() as int); }
pub proof fn val_bound(s: Seq<u32>) ensures 0 <= val(s) < pw(s.len() as int) { pv_bound(s, s.len() as int); }
pub proof fn val_1(s: Seq<u32>) requires s.len() == 1 ensures val(s) == s[0] { pw_0(); reveal_with_fuel(pv, 3); }
pub proof fn val_2(s: Seq<u32>) requires s.len() == 2 ensures val(s) == s[0] + s[1] * B() { pw_0(); pw_1(); reveal_with_fuel(pv, 4); }
// top limb non-zero: lower bound
pub proof fn val_low(s: Seq<u32>) requires s.len() > 0, s[s.len() - 1] != 0 ensures val(s) >= pw(s.len() - 1), val(s) >= 1 {
  let n = s.len() as int; pv_bound(s, n - 1); pw_pos(n - 1); let d = s[n - 1] as int; let p = pw(n - 1);
  assert(d * p >= p) by(nonlinear_arith) requires d >= 1, p >= 1;
}
pub proof fn val_zero(s: Seq<u32>) ensures (val(s) == 0) == (forall |k: int| 0 <= k < s.len() ==> s[k] == 0) {
  if forall |k: int| 0 <= k < s.len() ==> s[k] == 0 { pv_zeros(s, s.len() as int); }
  else { let k = choose |k: int| 0 <= k < s.len() && s[k] != 0; pv_split(s, k + 1, s.len() as int); pv_bound(s, k); pw_pos(k); pw_pos(k + 1);
    pv_bound(s.subrange(k + 1, s.len() as int), s.len() - k - 1);
    let d = s[k] as int; let p = pw(k); assert(d * p >= p) by(nonlinear_arith) requires d >= 1, p >= 1;
    let q = pv(s.subrange(k + 1, s.len() as int), s.len() - k - 1); assert(pw(k + 1) * q >= 0) by(nonlinear_arith) requires pw(k + 1) >= 1, q >= 0; }
}
// equal limbs <=> equal values, for equal lengths
pub proof fn pv_inj(a: Seq<u32>, b: Seq<u32>, n: int) requires n >= 0, pv(a, n) == pv(b, n) ensures forall |k: int| 0 <= k < n ==> a[k] == b[k] decreases n {
  if n > 0 {
    pv_bound(a, n - 1); pv_bound(b, n - 1); pw_pos(n - 1);
    let p = pw(n - 1); let x = a[n - 1] as int; let y = b[n - 1] as int; let u = pv(a, n - 1); let w = pv(b, n - 1);
    assert(x == y) by(nonlinear_arith) requires u + x * p == w + y * p, 0 <= u < p, 0 <= w < p;
    pv_inj(a, b, n - 1);
  }
}
// the limbs of a value are its digits in base B
pub proof fn pv_digit(s: Seq<u32>, i: int) requires 0 <= i < s.len() ensures (val(s) / pw(i)) % B() == s[i] {
  let n = s.len() as int;
  pv_split(s, i, n); pv_bound(s, i); pw_pos(i);
  let t = s.subrange(i, n); let q = pv(t, n - i); let p = pw(i); let r = pv(s, i);
  assert(val(s) / p == q) by { assert(p * q + r == val(s)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(val(s), p, q, r); }
  pv_split(t, 1, n - i); pw_1(); pw_0(); reveal_with_fuel(pv, 3);
  let q2 = pv(t.subrange(1, t.len() as int), n - i - 1);
  assert(t[0] == s[i]); assert(pv(t, 1) == s[i]) ;
  assert(q == B() * q2 + s[i]);
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(q, B(), q2, s[i] as int);
}
pub open spec fn norm(s: Seq<u32>) -> bool { s.len() > 0 ==> s[s.len() - 1] != 0 }
pub proof fn norm_iff(s: Seq<u32>) requires s.len() > 0 ensures norm(s) == (val(s) >= pw(s.len() - 1)) {
  let n = s.len() as int; pv_bound(s, n - 1);
  if s[n - 1] != 0 { val_low(s); } else { assert(0 * pw(n - 1) == 0); }
}
// normalised sequences with equal values are equal
pub proof fn norm_len(a: Seq<u32>, b: Seq<u32>) requires norm(a), norm(b), val(a) == val(b) ensures a.len() == b.len(), a =~= b {
  val_bound(a); val_bound(b); pw_0();
  if a.len() > 0 { norm_iff(a); } if b.len() > 0 { norm_iff(b); }
  if a.len() < b.len() { pw_mono(a.len() as int, b.len() - 1); }
  if b.len() < a.len() { pw_mono(b.len() as int, a.len() - 1); }
  pv_inj(a, b, a.len() as int);
}
pub proof fn pv_sum_tail(r: Seq<u32>, x: Seq<u32>, y: Seq<u32>, i: int, n: int) requires 0 <= i <= n, forall |k: int| i <= k < n ==> #[trigger] r[k] as int == x[k] as int + y[k] as int
  ensures pv(r, n) - pv(r, i) == (pv(x, n) - pv(x, i)) + (pv(y, n) - pv(y, i)) decreases n - i {
  if i < n { pv_sum_tail(r, x, y, i, n - 1); let p = pw(n - 1); assert(r[n-1] as int == x[n-1] as int + y[n-1] as int); assert(r[n-1] as int * p == x[n-1] as int * p + y[n-1] as int * p) by(nonlinear_arith) requires r[n-1] as int == x[n-1] as int + y[n-1] as int; }
}
// one step of a carry chain: prefix sums stay in step
pub proof fn carry_step(n: int, x: int, y: int, c0: int, r: int, c1: int) requires n > 0, x + y + c0 == r + c1 * B()
  ensures x * pw(n - 1) + y * pw(n - 1) + c0 * pw(n - 1) == r * pw(n - 1) + c1 * pw(n) {
  pw_step(n); let p = pw(n - 1);
  assert(x * p + y * p + c0 * p == r * p + c1 * (B() * p)) by(nonlinear_arith) requires x + y + c0 == r + c1 * B();
}
pub proof fn pv_same_tail(r: Seq<u32>, x: Seq<u32>, i: int, n: int) requires 0 <= i <= n, forall |k: int| i <= k < n ==> #[trigger] r[k] == x[k]
  ensures pv(r, n) - pv(r, i) == pv(x, n) - pv(x, i) decreases n - i { if i < n { pv_same_tail(r, x, i, n - 1); } }
// lexicographic comparison from the top limb
pub proof fn cmp_at(a: Seq<u32>, b: Seq<u32>, i: int) requires 0 <= i < a.len(), a.len() == b.len(), forall |k: int| i < k < a.len() ==> a[k] == b[k]
  ensures a[i] < b[i] ==> val(a) < val(b), a[i] > b[i] ==> val(a) > val(b), i == 0 && a[i] == b[i] ==> val(a) == val(b) {
  let n = a.len() as int;
  pv_same_tail(a, b, i + 1, n); pv_bound(a, i); pv_bound(b, i);
  let p = pw(i); let x = a[i] as int; let y = b[i] as int;
  assert(x < y ==> x * p + p <= y * p) by(nonlinear_arith) requires p >= 1 || p < 1, x < y ==> x + 1 <= y, p >= 0;
  assert(y < x ==> y * p + p <= x * p) by(nonlinear_arith) requires y < x ==> y + 1 <= x, p >= 0;
}
// ---------------------------------------------------------------- shifts
pub proof fn p2_lt(s: int) requires 0 <= s <= 32 ensures 1 <= p2(s) <= B(), p2(s) * p2(32 - s) == B() { p2_pos(s); p2_mono(s, 32); p2_32(); p2_add(s, 32 - s); }
pub proof fn lem_shl_or(x: u32, y: u32, s: u64) requires 0 < s < 32
  ensures ((x << (s as u32)) | (y >> ((32 - s) as u32))) as int == (x * p2(s as int)) % B() + y as int / p2(32 - s) {
  let k = s as u32; let l = (32 - s) as u32;
  lem_shl32(x, k); lem_shr32(y, l);
  assert(((x << k) | (y >> l)) == add(x << k, y >> l) && (((x << k) as u64) + ((y >> l) as u64)) < 0x1_0000_0000u64) by(bit_vector) requires 0 < k < 32, l == sub(32u32, k);
}
pub proof fn lem_shr_or(x: u32, y: u32, s: u64) requires 0 < s < 32
  ensures ((x >> (s as u32)) | (y << ((32 - s) as u32))) as int == x as int / p2(s as int) + (y as int % p2(s as int)) * p2(32 - s) {
  let k = s as u32; let l = (32 - s) as u32;
  lem_shr32(x, k); lem_shl32(y, l); p2_lt(s as int); p2_pos(32 - s);
  lem_mod_shift(y as int, p2(32 - s), p2(s as int));
  assert(p2(32 - s) * p2(s as int) == B()) by(nonlinear_arith) requires p2(s as int) * p2(32 - s) == B();
  assert(((x >> k) | (y << l)) == add(x >> k, y << l) && (((x >> k) as u64) + ((y << l) as u64)) < 0x1_0000_0000u64) by(bit_vector) requires 0 < k < 32, l == sub(32u32, k);
}
pub proof fn lem_top(x: int, s: int) requires 0 <= s <= 32, x >= 0 ensures x * p2(s) == (x / p2(32 - s)) * B() + (x * p2(s)) % B(), x / p2(32 - s) == 0 ==> (x * p2(s)) % B() == x * p2(s), x / p2(32 - s) >= 0, 0 <= (x * p2(s)) % B() {
  p2_lt(s); p2_pos(32 - s);
  let d = p2(32 - s); let q = x / d; let r = x % d; let e = p2(s);
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, d);
  assert(x * e == B() * q + r * e) by(nonlinear_arith) requires x == d * q + r, e * d == B();
  assert(0 <= r * e < B()) by(nonlinear_arith) requires 0 <= r < d, e * d == B(), e >= 1;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x * e, B(), q, r * e);
  vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, d);
}
pub open spec fn shll(a: Seq<u32>, s: int, j: int) -> int { (a[j] * p2(s)) % B() + (if j == 0 { 0 } else { a[j - 1] as int / p2(32 - s) }) }
pub open spec fn shrl(a: Seq<u32>, s: int, j: int) -> int { a[j] as int / p2(s) + (if j + 1 < a.len() { (a[j + 1] as int % p2(s)) * p2(32 - s) } else { 0 }) }
pub proof fn shl_pv(a: Seq<u32>, t: Seq<u32>, s: int, j: int) requires 0 < s < 32, 1 <= j <= a.len(), forall |i: int| 0 <= i < j ==> #[trigger] t[i] == shll(a, s, i)
  ensures pv(t, j) + (a[j - 1] as int / p2(32 - s)) * pw(j) == pv(a, j) * p2(s) decreases j {
  let c1 = a[j - 1] as int / p2(32 - s); let x = a[j - 1] as int; let e = p2(s); let p = pw(j - 1); let lo = (x * e) % B();
  lem_top(x, s); pw_step(j);
  assert(t[j - 1] == shll(a, s, j - 1));
  if j == 1 { pw_0(); reveal_with_fuel(pv, 3); assert(pv(a, 1) == x); assert(pv(t, 1) == lo); assert(c1 * pw(1) == c1 * B()) by { pw_1(); } }
  else {
    shl_pv(a, t, s, j - 1);
    let c0 = a[j - 2] as int / p2(32 - s); let u = pv(a, j - 1);
    assert((lo + c0) * p + c1 * (B() * p) == c0 * p + (x * e) * p) by(nonlinear_arith) requires x * e == c1 * B() + lo;
    assert((u + x * p) * e == u * e + (x * e) * p) by(nonlinear_arith);
  }
}
pub proof fn shr_pv(a: Seq<u32>, r: Seq<u32>, s: int, j: int) requires 0 < s < 32, 0 <= j <= a.len(), a.len() > 0, forall |i: int| 0 <= i < j ==> #[trigger] r[i] == shrl(a, s, i)
  ensures p2(s) * pv(r, j) + a[0] as int % p2(s) == pv(a, j) + (if j < a.len() { a[j] as int % p2(s) } else { 0 }) * pw(j) decreases j {
  let e = p2(s);
  if j == 0 { pw_0(); assert((a[0] as int % e) * 1 == a[0] as int % e); assert(e * 0 == 0); }
  else {
    shr_pv(a, r, s, j - 1); pw_step(j); p2_lt(s); p2_pos(32 - s);
    let x = a[j - 1] as int; let p = pw(j - 1); let y = if j < a.len() { a[j] as int % e } else { 0 }; let d = p2(32 - s);
    assert(r[j - 1] == shrl(a, s, j - 1)); let z = r[j - 1] as int;
    assert(z == x / e + y * d) by { if j >= a.len() { assert(0 * d == 0); } }
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, e);
    let qx = x / e; let mx = x % e; let w = pv(r, j - 1);
    assert(e * z == x - mx + y * B()) by(nonlinear_arith) requires z == qx + y * d, x == e * qx + mx, e * d == B();
    assert(e * (w + z * p) == e * w + (e * z) * p) by(nonlinear_arith);
    assert((x - mx + y * B()) * p == x * p - mx * p + y * (B() * p)) by(nonlinear_arith);
  }
}
pub proof fn p2_split(n: int) requires n >= 0 ensures p2(n) == pw(n / 32) * p2(n % 32), p2(n % 32) >= 1 { pw_p2(n / 32); p2_add(32 * (n / 32), n % 32); p2_pos(n % 32); }
pub proof fn shl_val(a: Seq<u32>, r: Seq<u32>, n: int) requires n >= 0, n % 32 > 0, a.len() > 0,
    r.len() == a.len() + n / 32 + (if a[a.len() - 1] as int / p2(32 - n % 32) == 0 { 0int } else { 1 }),
    a[a.len() - 1] as int / p2(32 - n % 32) != 0 ==> r[r.len() - 1] == a[a.len() - 1] as int / p2(32 - n % 32),
    forall |j: int| 0 <= j < n / 32 ==> r[j] == 0, forall |j: int| n / 32 <= j < a.len() + n / 32 ==> #[trigger] r[j] == shll(a, n % 32, j - n / 32)
  ensures val(r) == val(a) * p2(n), norm(a) ==> norm(r) {
  let k = n / 32; let s = n % 32; let N = a.len() as int; let t = r.subrange(k, r.len() as int);
  assert forall |i: int| 0 <= i < N implies #[trigger] t[i] == shll(a, s, i) by { assert(t[i] == r[i + k]); }
  shl_pv(a, t, s, N); val_split(r, k); pv_zeros(r.subrange(0, k), k); p2_split(n);
  let c = a[N - 1] as int / p2(32 - s); lem_top(a[N - 1] as int, s);
  if c != 0 { assert(t[N] == r[r.len() - 1]); assert(val(t) == pv(t, N) + c * pw(N)); } else { assert(0 * pw(N) == 0); assert(val(t) == pv(t, N)); }
  assert(val(t) == val(a) * p2(s)); let v = val(a); let x = pw(k); let y = p2(s);
  assert(x * (v * y) == v * (x * y)) by(nonlinear_arith);
  if norm(a) && c == 0 { assert(t[N - 1] == shll(a, s, N - 1)); let z = a[N - 1] as int; assert(z * y > 0) by(nonlinear_arith) requires z > 0, y >= 1; 
    if N > 1 { p2_pos(32 - s); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a[N - 2] as int, p2(32 - s)); } assert(r[r.len() - 1] == t[N - 1]); }
}
pub proof fn shr_small(a: Seq<u32>, n: int) requires n >= 0, n / 32 >= a.len() ensures val(a) / p2(n) == 0 {
  val_bound(a); pw_mono(a.len() as int, n / 32); pw_p2(n / 32); p2_mono(32 * (n / 32), n); vstd::arithmetic::div_mod::lemma_basic_div(val(a), p2(n));
}
pub proof fn shr_whole(a: Seq<u32>, n: int) requires n >= 0, n % 32 == 0, n / 32 <= a.len() ensures val(a.subrange(n / 32, a.len() as int)) == val(a) / p2(n) {
  let k = n / 32; val_split(a, k); val_bound(a.subrange(0, k)); pw_p2(k); pw_pos(k);
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(val(a), pw(k), val(a.subrange(k, a.len() as int)), val(a.subrange(0, k)));
}
pub proof fn shr_val(a: Seq<u32>, b: Seq<u32>, r: Seq<u32>, n: int) requires n >= 0, n % 32 > 0, n / 32 < a.len(), b == a.subrange(n / 32, a.len() as int),
    b[b.len() - 1] as int / p2(n % 32) == 0 ==> r.len() == b.len() - 1, b[b.len() - 1] as int / p2(n % 32) != 0 ==> r.len() == b.len(),
    forall |j: int| 0 <= j < r.len() ==> #[trigger] r[j] == shrl(b, n % 32, j)
  ensures val(r) == val(a) / p2(n), norm(a) ==> norm(r) {
  let k = n / 32; let s = n % 32; let N = b.len() as int; let e = p2(s); p2_pos(s); pw_pos(k); p2_split(n);
  let t = b[N - 1] as int / e;
  let r2 = if t == 0 { r.push(0u32) } else { r };
  assert(r2[N - 1] == shrl(b, s, N - 1));
  assert forall |j: int| 0 <= j < N implies #[trigger] r2[j] == shrl(b, s, j) by { if j < r.len() { assert(r[j] == shrl(b, s, j)); } }
  shr_pv(b, r2, s, N); assert(0 * pw(N) == 0);
  if t == 0 { val_push(r, 0u32); assert(0 * pw(r.len() as int) == 0); }
  vstd::arithmetic::div_mod::lemma_mod_bound(b[0] as int, e);
  assert(val(r) * e == e * val(r)) by(nonlinear_arith);
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(val(b), e, val(r), b[0] as int % e);
  shr_whole(a, 32 * k); pw_p2(k); assert(32 * k % 32 == 0 && 32 * k / 32 == k);
  val_bound(a); vstd::arithmetic::div_mod::lemma_div_denominator(val(a), pw(k), e);
  if norm(a) && r.len() > 0 {
    assert(b[N - 1] == a[a.len() - 1]);
    if t == 0 { let z = b[N - 1] as int; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(z, e); assert(e * 0 == 0); assert(z % e == z); p2_pos(32 - s);
      assert(r[N - 2] == shrl(b, s, N - 2)); let d = p2(32 - s); assert(z * d > 0) by(nonlinear_arith) requires z > 0, d >= 1; vstd::arithmetic::div_mod::lemma_div_pos_is_pos(b[N - 2] as int, e); }
    else { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(b[N - 1] as int, e); assert(r[N - 1] == shrl(b, s, N - 1)); }
  }
}
