// ---------------------------------------------------------------- mathematics
#[verifier::opaque]
pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
pub proof fn p2_pos(n: int) ensures p2(n) >= 1 decreases n { reveal_with_fuel(p2, 2); if n > 0 { p2_pos(n - 1); } }
pub proof fn p2_step(n: int) requires n > 0 ensures p2(n) == 2 * p2(n - 1) { reveal_with_fuel(p2, 2); }
pub proof fn p2_0() ensures p2(0) == 1 { reveal_with_fuel(p2, 2); }
pub proof fn p2_eq(n: int) requires n >= 0 ensures p2(n) == vstd::arithmetic::power2::pow2(n as nat) decreases n {
  reveal_with_fuel(p2, 2); vstd::arithmetic::power2::lemma2_to64();
  if n > 0 { p2_eq(n - 1); vstd::arithmetic::power2::lemma_pow2_unfold(n as nat); }
}
pub proof fn p2_32() ensures p2(32) == B(), p2(31) == 0x8000_0000, p2(0) == 1, p2(1) == 2 { p2_eq(32); p2_eq(31); p2_eq(0); p2_eq(1); vstd::arithmetic::power2::lemma2_to64(); }
pub proof fn p2_64() ensures p2(64) == U64() { p2_eq(64); vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma2_to64_rest(); }
pub proof fn p2_add(a: int, b: int) requires a >= 0, b >= 0 ensures p2(a + b) == p2(a) * p2(b) decreases b {
  reveal_with_fuel(p2, 2);
  if b > 0 { p2_add(a, b - 1); assert(2 * (p2(a) * p2(b - 1)) == p2(a) * (2 * p2(b - 1))) by(nonlinear_arith); }
  else { assert(p2(a) * 1 == p2(a)); }
}
pub proof fn p2_mono(a: int, b: int) requires a <= b ensures p2(a) <= p2(b) decreases b - a { if a < b { p2_mono(a, b - 1); reveal_with_fuel(p2, 2); p2_pos(b - 1); } }
pub proof fn lem_shr64(a: u64, k: u64) requires k < 64 ensures a >> k == a as int / p2(k as int) { p2_eq(k as int); vstd::bits::lemma_u64_shr_is_div(a, k); }
pub proof fn lem_shr32(a: u32, k: u32) requires k < 32 ensures a >> k == a as int / p2(k as int) { p2_eq(k as int); vstd::bits::lemma_u32_shr_is_div(a, k); }
pub proof fn lem_mod_shift(a: int, p: int, q: int) requires a >= 0, p > 0, q > 0 ensures (a * p) % (p * q) == (a % q) * p {
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, q);
  let d = a / q; let r = a % q;
  assert(a * p == (p * q) * d + r * p) by(nonlinear_arith) requires a == q * d + r;
  assert(0 <= r * p < p * q) by(nonlinear_arith) requires 0 <= r < q, p > 0;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a * p, p * q, d, r * p);
}
pub proof fn lem_shl64(a: u64, k: u64) requires k < 64 ensures a << k == (a * p2(k as int)) % U64() {
  p2_64();
  if k == 0 { p2_0(); assert(a << 0u64 == a) by(bit_vector); assert(a * 1 == a); }
  else {
    let j: u64 = (64 - k) as u64;
    p2_eq(k as int); p2_eq(j as int); p2_add(k as int, j as int); p2_pos(k as int); p2_pos(j as int);
    let lo = a & (sub(1u64 << j, 1));
    assert(a << k == lo << k) by(bit_vector) requires lo == a & (sub(1u64 << j, 1)), j == sub(64, k), 0 < k < 64;
    assert(lo <= sub(1u64 << j, 1)) by(bit_vector) requires lo == a & (sub(1u64 << j, 1));
    vstd::arithmetic::power2::lemma_pow2_strictly_increases(j as nat, 64); p2_eq(64);
    vstd::bits::lemma_u64_shl_is_mul(1, j);
    lem_and_mask64(a, j);
    assert(lo == a as int % p2(j as int));
    lem_mod_shift(a as int, p2(k as int), p2(j as int));
    assert(p2(k as int) * p2(j as int) == U64());
    assert(lo * p2(k as int) < U64());
    vstd::bits::lemma_u64_shl_is_mul(lo, k);
  }
}
pub proof fn lem_and_mask64(a: u64, j: u64) requires j < 64 ensures a & (sub(1u64 << j, 1)) == a as int % p2(j as int) {
  p2_eq(j as int); p2_eq(64); p2_64(); vstd::arithmetic::power2::lemma_pow2_strictly_increases(j as nat, 64); 
  vstd::bits::lemma_u64_shl_is_mul(1, j);
  p2_pos(j as int);
  let q = a >> j; let lo = a & (sub(1u64 << j, 1));
  lem_shr64(a, j);
  assert(a == add(mul(q, 1u64 << j), lo) && lo < (1u64 << j)) by(bit_vector) requires q == a >> j, lo == a & (sub(1u64 << j, 1)), j < 64;
  let P = p2(j as int);
  assert((1u64 << j) as int == P);
  assert(q * P <= a && q * P >= 0) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, P); vstd::arithmetic::div_mod::lemma_mod_bound(a as int, P); assert(q * P == P * (a as int / P)) by(nonlinear_arith) requires q as int == a as int / P; assert(q * P >= 0) by(nonlinear_arith) requires q >= 0, P > 0; }
  assert(mul(q, 1u64 << j) as int == q * P);
  assert(mul(q, 1u64 << j) <= sub(0xffff_ffff_ffff_ffffu64, lo)) by(bit_vector) requires q == a >> j, lo == a & (sub(1u64 << j, 1)), j < 64;
  assert(a as int == q * P + lo);
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a as int, P, q as int, lo as int);
}
pub proof fn lem_shl32(a: u32, k: u32) requires k < 32 ensures a << k == (a * p2(k as int)) % B() {
  lem_shl64(a as u64, k as u64); p2_pos(k as int);
  p2_mono(k as int, 31); p2_32();
  assert(a * p2(k as int) < U64()) by(nonlinear_arith) requires a < 0x1_0000_0000, 0 < p2(k as int) <= 0x8000_0000;
  assert(a * p2(k as int) >= 0) by(nonlinear_arith) requires p2(k as int) > 0;
  assert((a << k) as u64 == ((a as u64) << (k as u64)) % 0x1_0000_0000u64) by(bit_vector) requires k < 32;
}
