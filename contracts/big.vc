// BigIntegerImpl: flags, predicates, construction
@fn Big_flagsContains_u32(b, flags) @pure
requires liveb(h0, b)
ensures
[value] RET == ((fl(h0, b) & flags) == flags)
[value] flags == 1 ==> RET == fb1(fl(h0, b)), flags == 2 ==> RET == fb2(fl(h0, b)), flags == 4 ==> RET == fb4(fl(h0, b)), flags == 16 ==> RET == fb16(fl(h0, b))
@fn Big_beginWrite(b)
requires liveb(h0, b)
ensures
[frame] flB(h0, h1, b), fb1(fl(h1, b)) == fb1(fl(h0, b)), fb2(fl(h1, b)) == fb2(fl(h0, b)), fb4(fl(h1, b)) == fb4(fl(h0, b))
[canon] !fb16(fl(h1, b))
@fn Big_setFlagsToPositive(b)
requires liveb(h0, b)
ensures
[frame] flB(h0, h1, b), fb16(fl(h1, b)) == fb16(fl(h0, b)), h1.bg[b].lazy == h0.bg[b].lazy
[value] fb2(fl(h1, b)), f1(fl(h1, b))
@fn Big_setFlagsToNegative(b)
requires liveb(h0, b)
ensures
[frame] flB(h0, h1, b), fb16(fl(h1, b)) == fb16(fl(h0, b)), h1.bg[b].lazy == h0.bg[b].lazy
[value] fb4(fl(h1, b)), f1(fl(h1, b))
@fn Big_setFlagsToZero(b)
requires liveb(h0, b)
ensures
[frame] flB(h0, h1, b), fb16(fl(h1, b)) == fb16(fl(h0, b)), h1.bg[b].lazy == h0.bg[b].lazy
[value] fb1(fl(h1, b)), f1(fl(h1, b))
@fn Big_hasSameSigFlag_B(a, b) @pure
requires liveb(h0, a), liveb(h0, b)
ensures
[value] RET == (fb1(fl(h0, a)) == fb1(fl(h0, b)) && fb2(fl(h0, a)) == fb2(fl(h0, b)) && fb4(fl(h0, a)) == fb4(fl(h0, b)))
@fn Big_beZero(b)
requires wf(h0), liveb(h0, b)
ensures
[value] v(h1, b) == 0, fb1(fl(h1, b))
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st, excl(h1, SRef::Mag(b))
@fn Big_beOne(b)
requires wf(h0), liveb(h0, b)
ensures
[value] v(h1, b) == 1
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@hint exit
val_1(mg(h@, b));
@fn Big_beNegOne(b)
requires wf(h0), liveb(h0, b)
ensures
[value] v(h1, b) == -1
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@hint exit
val_1(mg(h@, b));
@fn Big_ctor(b)
requires wf(h0), newb(h0, b)
ensures
[value] v(h1, b) == 0
[canon] binv(h1, b)
[frame] crB(h0, h1, b), excl(h1, SRef::Mag(b))
@fn Big_assign_B(b, o)
requires wf(h0), liveb(h0, b), liveb(h0, o)
ensures
[value] RET == b, h1.bg[b] == h0.bg[o], h1.sl[SRef::Mag(b)] == h0.sl[SRef::Mag(o)], mg(h1, b) == mg(h0, o), v(h1, b) == v(h0, o)
[canon] binv(h0, o) ==> binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st, h1.cells =~= h0.cells
@fn Big_op_assign_B(b, o)
requires wf(h0), liveb(h0, b), liveb(h0, o)
ensures
[value] RET == b, h1.bg[b] == h0.bg[o], h1.sl[SRef::Mag(b)] == h0.sl[SRef::Mag(o)], mg(h1, b) == mg(h0, o), v(h1, b) == v(h0, o)
[canon] binv(h0, o) ==> binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st, h1.cells =~= h0.cells
@fn Big_op_assign_mB(b, o)
requires wf(h0), liveb(h0, b), liveb(h0, o)
ensures
[value] RET == b, v(h1, b) == v(h0, o)
[canon] binv(h0, o) ==> binv(h1, b)
[frame] b != o ==> frB2(h0, h1, b, o), b == o ==> frB(h0, h1, b), h1.st == h0.st
@fn Big_assign_mB(b, o)
requires wf(h0), liveb(h0, b), liveb(h0, o)
ensures
[value] RET == b, v(h1, b) == v(h0, o), h1.bg[b] == h0.bg[o], mg(h1, b) == mg(h0, o)
[canon] binv(h0, o) ==> binv(h1, b)
[frame] b != o ==> frB2(h0, h1, b, o), b == o ==> frB(h0, h1, b), h1.st == h0.st, b != o ==> excl(h1, SRef::Mag(o))
@fn Big_ctor_B(b, o)
requires wf(h0), newb(h0, b), liveb(h0, o)
ensures
[value] h1.bg[b] == h0.bg[o], h1.sl[SRef::Mag(b)] == h0.sl[SRef::Mag(o)], mg(h1, b) == mg(h0, o), v(h1, b) == v(h0, o)
[canon] binv(h0, o) ==> binv(h1, b)
[frame] crB(h0, h1, b), h1.cells =~= h0.cells
@fn Big_assign_i64(b, i64)
requires wf(h0), liveb(h0, b)
ensures
[value] RET == b, v(h1, b) == i64
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@hint return 1
let s = mg(h@, b);
if s.len() == 1 { val_1(s); } else { val_2(s); }
@fn Big_ctor_i64(b, i64)
requires wf(h0), newb(h0, b)
ensures
[value] v(h1, b) == i64
[canon] binv(h1, b)
[frame] crB(h0, h1, b)
@fn Big_swap_rB(b, o)
requires wf(h0), liveb(h0, b), liveb(h0, o)
ensures
[value] v(h1, b) == v(h0, o), v(h1, o) == v(h0, b), h1.bg[b] == h0.bg[o], h1.bg[o] == h0.bg[b], mg(h1, b) == mg(h0, o), mg(h1, o) == mg(h0, b)
[canon] binv(h0, o) ==> binv(h1, b), binv(h0, b) ==> binv(h1, o)
[frame] frB2(h0, h1, b, o), h1.st == h0.st
@fn Big_isZero(b) @pure
requires liveb(h0, b)
ensures
[value] RET == fb1(fl(h0, b)), binv(h0, b) ==> RET == (v(h0, b) == 0)
@hint return 0
if binv(h@, b) { val_one(mg(h@, b)); }
@fn Big_isOne(b) @pure
requires wf(h0), binv(h0, b)
ensures
[value] RET == (v(h0, b) == 1)
@ghost entry
proof { val_one(mg(h0, b)); val_bound(mg(h0, b)); }
@fn Big_isNegOne(b) @pure
requires wf(h0), binv(h0, b)
ensures
[value] RET == (v(h0, b) == -1)
@ghost entry
proof { val_one(mg(h0, b)); val_bound(mg(h0, b)); }
@fn Big_isEven(b) @pure
requires wf(h0), binv(h0, b)
ensures
[value] RET == (v(h0, b) % 2 == 0)
@ghost entry
proof { if mg(h0, b).len() > 0 { val_parity(mg(h0, b)); } }
@fn Big_isOdd(b) @pure
requires wf(h0), binv(h0, b)
ensures
[value] RET == (v(h0, b) % 2 != 0)
@fn Big_negate(b)
requires liveb(h0, b), f1(fl(h0, b))
ensures
[value] v(h1, b) == -v(h0, b), fb1(fl(h1, b)) == fb1(fl(h0, b))
[canon] binv(h0, b) ==> binv(h1, b), f1(fl(h1, b)), fb16(fl(h1, b)) == fb16(fl(h0, b)), h1.bg[b].lazy == h0.bg[b].lazy
[frame] flB(h0, h1, b)
@fn Big_abs(b)
requires liveb(h0, b), f1(fl(h0, b))
ensures
[value] v(h1, b) == (if v(h0, b) < 0 { -v(h0, b) } else { v(h0, b) })
[canon] binv(h0, b) ==> binv(h1, b), f1(fl(h1, b))
[frame] flB(h0, h1, b)
@ghost entry
proof { val_bound(mg(h0, b)); }
@fn Big_cmp_B(a, b) @pure
requires wf(h0), binv(h0, a), binv(h0, b)
ensures
[value] RET == (if v(h0, a) < v(h0, b) { -1int } else if v(h0, a) > v(h0, b) { 1int } else { 0int })
@ghost entry
proof { val_bound(mg(h0, a)); val_bound(mg(h0, b)); val_one(mg(h0, a)); val_one(mg(h0, b)); }
@fn Big_getMagU32Count(b) @pure
requires wf(h0), liveb(h0, b)
ensures
[value] RET == mg(h0, b).len()
@fn Big_addAssign_B(b, o)
requires wf(h0), binv(h0, b), binv(h0, o)
ensures
[value] v(h1, b) == v(h0, b) + v(h0, o)
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@ghost entry
proof { val_bound(mg(h0, b)); val_bound(mg(h0, o)); val_one(mg(h0, b)); val_one(mg(h0, o)); len_mono(mg(h0, b), mg(h0, o)); }
@hint exit
assert(glob(h0, h@)); assert(h@.sl.dom() =~= h0.sl.dom()); assert(h@.bg.dom() =~= h0.bg.dom());
assert forall |s2: SRef| s2 != SRef::Mag(b) && live(h0, s2) implies #[trigger] h@.sl[s2] == h0.sl[s2] by {}
assert forall |s2: SRef| s2 != SRef::Mag(b) && live(h0, s2) implies #[trigger] m(h@, s2) == m(h0, s2) by {}
val_one(mg(h@, b));
@fn Big_subAssign_B(b, o)
requires wf(h0), binv(h0, b), binv(h0, o)
ensures
[value] v(h1, b) == v(h0, b) - v(h0, o)
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@ghost entry
proof { val_bound(mg(h0, b)); val_bound(mg(h0, o)); val_one(mg(h0, b)); val_one(mg(h0, o)); len_mono(mg(h0, b), mg(h0, o)); }
@hint exit
val_one(mg(h@, b));
@fn Big_addAssign_i64(b, i64)
requires wf(h0), binv(h0, b)
ensures
[value] v(h1, b) == v(h0, b) + i64
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@fn Big_subAssign_i64(b, i64)
requires wf(h0), binv(h0, b)
ensures
[value] v(h1, b) == v(h0, b) - i64
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@fn Big_getFirstNonZeroU32Index(b)
requires wf(h0), liveb(h0, b)
ensures
[value] RET == h1.bg[b].lazy, fb16(fl(h0, b)) ==> h1 == h0, !fb16(fl(h0, b)) ==> fnz(mg(h0, b), RET as int)
[canon] lzok(h0, b) ==> lzok(h1, b), fb16(fl(h1, b))
[frame] flB(h0, h1, b), bsame(h0, h1, b)
@loop 0
invariant wf(h@), h@ == h0, find_it.c@ == cell(h0, SRef::Mag(b)), find_end.c@ == find_it.c@, find_end.i == h0.sl[SRef::Mag(b)].hi, h0.sl[SRef::Mag(b)].lo <= find_it.i <= find_end.i
invariant forall |k: int| 0 <= k < find_it.i - h0.sl[SRef::Mag(b)].lo ==> mg(h0, b)[k] == 0
decreases find_end.i - find_it.i
@fn Big_getU32_u64(b, n)
requires wf(h0), liveb(h0, b), f1(fl(h0, b))
ensures
[value] RET == gw(fl(h0, b), mg(h0, b), h1.bg[b].lazy as int, n as int), binv(h0, b) ==> RET == tc(v(h0, b), n as int)
[value] fb16(fl(h0, b)) ==> h1 == h0, fb4(fl(h0, b)) && n < mg(h0, b).len() ==> fb16(fl(h1, b)), fb4(fl(h0, b)) && n < mg(h0, b).len() && !fb16(fl(h0, b)) ==> fnz(mg(h0, b), h1.bg[b].lazy as int)
[canon] binv(h0, b) ==> binv(h1, b)
[frame] flB(h0, h1, b), bsame(h0, h1, b)
@hint return
if binv(h0, b) { let z = if fb4(fl(h0, b)) && n >= mg(h0, b).len() { choose |z: int| fnz(mg(h0, b), z) } else { h@.bg[b].lazy as int }; if fb4(fl(h0, b)) { fnz_ex(mg(h0, b)); } gw_tc(h0, b, z, n as int); }
@fn Big_toU64(b)
requires wf(h0), binv(h0, b)
ensures
[value] RET == v(h0, b) % U64()
[canon] binv(h1, b)
[frame] flB(h0, h1, b), bsame(h0, h1, b)
@hint return
lem_join(t1_, t3_); tc_low64(v(h0, b));

@fn Big_inc(b)
requires wf(h0), binv(h0, b)
ensures
[value] v(h1, b) == v(h0, b) + 1
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@ghost entry
proof { val_one(mg(h0, b)); val_bound(mg(h0, b)); }
@hint exit
val_one(mg(h@, b));
@fn Big_dec(b)
requires wf(h0), binv(h0, b)
ensures
[value] v(h1, b) == v(h0, b) - 1
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@ghost entry
proof { val_one(mg(h0, b)); val_bound(mg(h0, b)); }
@hint exit
val_one(mg(h@, b));
@fn Big_shiftLeftAssign_u64(b, n)
requires wf(h0), binv(h0, b) || binw(h0, b)
ensures
[value] v(h1, b) == v(h0, b) * p2(n as int)
[value] 0 < n < 32 && !fb1(fl(h0, b)) ==> mg(h1, b).len() == mg(h0, b).len() + (if mg(h0, b)[mg(h0, b).len() - 1] as int / p2(32 - n as int) == 0 { 0int } else { 1 }) && (mg(h1, b).len() > mg(h0, b).len() ==> mg(h1, b)[mg(h0, b).len() as int] == mg(h0, b)[mg(h0, b).len() - 1] as int / p2(32 - n as int))
[canon] binv(h0, b) ==> binv(h1, b), binw(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st, n == 0 ==> h1 == h0, n > 0 && !fb1(fl(h0, b)) ==> excl(h1, SRef::Mag(b)), fb1(fl(h1, b)) == fb1(fl(h0, b)), fb2(fl(h1, b)) == fb2(fl(h0, b)), fb4(fl(h1, b)) == fb4(fl(h0, b)), n > 0 && !fb1(fl(h0, b)) ==> !fb16(fl(h1, b))
@ghost entry
proof { if norm(mg(h0, b)) { val_one(mg(h0, b)); } val_bound(mg(h0, b)); p2_0(); p2_pos(n as int); let x = val(mg(h0, b)); let d = p2(n as int); assert((-x) * d == -(x * d)) by(nonlinear_arith); assert(x >= 1 ==> x * d >= 1) by(nonlinear_arith) requires d >= 1; }
@hint return
if norm(mg(h@, b)) { val_one(mg(h@, b)); }
@fn Big_shiftRightAssign_u64(b, n)
requires wf(h0), binv(h0, b) || binz(h0, b)
ensures
[value] v(h1, b) == v(h0, b) / p2(n as int)
[canon] binv(h0, b) ==> binv(h1, b), binz(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@ghost entry
let ghost A = mg(h0, b); let ghost N = A.len() as int; let ghost K = n as int / 32; let ghost s = n as int % 32;
proof { val_one(A); val_bound(A); p2_0(); p2_pos(n as int); div_neg(val(A), p2(n as int)); if n == 0 { assert(n as int == 0); assert(p2(n as int) == 1); assert(v(h0, b) / 1 == v(h0, b)); } vstd::arithmetic::div_mod::lemma_basic_div(0, p2(n as int));
  if K >= N { p2_split(n as int); pw_mono(N, K); pw_pos(K); p2_lt(s); let e = p2(s); let p = pw(K); assert(p * e >= p) by(nonlinear_arith) requires e >= 1, p >= 1; vstd::arithmetic::div_mod::lemma_basic_div(val(A), p2(n as int)); vstd::arithmetic::div_mod::lemma_small_mod(val(A) as nat, p2(n as int) as nat); }
  else { shr_rem(A, n as int); if s > 0 { lem_lost(A[K], s as u64); } else { assert(A[K] as int % 1 == 0); } } }
@loop 0
invariant wf(h@), h@ == h0, nU32 == K, i <= K, !lostOne ==> forall |k: int| 0 <= k < i ==> A[k] == 0, lostOne ==> exists |k: int| 0 <= k < i && A[k] != 0
decreases K - i
@hint loop 0 end
assert(t7_ == A[i - 1]); if lostOne { let k = i - 1; assert(0 <= k < i && A[k] != 0); }
@hint return
val_one(mg(h@, b));
@fn Big_getMagBitCount(b) @pure
requires wf(h0), binv(h0, b)
ensures
[value] RET.1 * 32 + RET.0 == nbits(mv(h0, b)), 0 <= RET.0 < 32

@hint return 1
if mg(h0, b).len() > 0 { let t = mg(h0, b)[mg(h0, b).len() - 1]; let k = 31 - lzCount; nbits_limbs(mg(h0, b), k); }
@fn Big_notBits(b)
requires wf(h0), binv(h0, b)
ensures
[value] v(h1, b) == sgn(h0, b) * (p2(nbits(mv(h0, b))) - 1 - mv(h0, b))
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@ghost entry
let ghost A = mg(h0, b); let ghost N = A.len() as int;
proof { val_bound(A); val_one(A); }
@loop 0
invariant frB(h0, h@, b), bsame(h0, h@, b), !fb16(fl(h@, b)), h@.st == h0.st, excl(h@, SRef::Mag(b)), cnt(h@, SRef::Mag(b)) == N, i < N, len == N
invariant forall |k: int| i <= k < N ==> mg(h@, b)[k] == A[k]
[value] forall |k: int| 0 <= k < i ==> #[trigger] mg(h@, b)[k] == B() - 1 - A[k]
decreases N - i
@hint after it_set 1
let k = 31 - leadingZeroCnt; nbits_limbs(A, k); lem_compl(A[N - 1], leadingZeroCnt as u32); pv_compl(A, mg(h@, b), N - 1);
let t = A[N - 1] as int; let p = pw(N - 1); let e = p2(k + 1);
assert((e - 1 - t) * p + p - 1 == p * e - 1 - t * p) by(nonlinear_arith);
@hint return
val_one(mg(h@, b));
@fn Big_notSelf(b)
requires wf(h0), binv(h0, b)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(v(h1, b), k) == (!(tc(v(h0, b), k) as u32)) as int
[value] v(h1, b) == -v(h0, b) - 1
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@ghost after Big_getU32_u64 0
let ghost z = h@.bg[b].lazy as int;
@ghost loop 0 before
let ghost hm = h@; let ghost n = len as int;
@loop 0
invariant frB(h0, h@, b), h@.st == hm.st, sgs(h@, hm, b), fb4(fl(h@, b)) ==> fb16(fl(h@, b)) && h@.bg[b].lazy == z, excl(h@, SRef::Mag(b)), cnt(h@, SRef::Mag(b)) == n, i <= n
[value] forall |k: int| i <= k < n ==> mg(h@, b)[k] == ext0(mg(h0, b), n)[k]
[value] forall |k: int| 0 <= k < i ==> #[trigger] mg(h@, b)[k] == (!(tc(v(h0, b), k) as u32)) as int
decreases n - i
@hint loop 0 start
if i < n { gw_ext(h0, b, fl(h@, b), mg(h@, b), z, i as int); }
@ghost loop 0 after
let ghost R = mg(h@, b);
proof { tc_sign(h0, b, n - 1); assert(R[n - 1] == 0 || R[n - 1] == 0xffff_ffff) by { assert(!0u32 == 0xffff_ffffu32 && !0xffff_ffffu32 == 0u32 && 0u32 & 0u32 == 0 && 0u32 & 0xffff_ffff == 0 && 0xffff_ffffu32 & 0 == 0 && 0xffff_ffffu32 & 0xffff_ffff == 0xffff_ffff && 0u32 | 0u32 == 0 && 0u32 | 0xffff_ffff == 0xffff_ffff && 0xffff_ffffu32 | 0 == 0xffff_ffff && 0xffff_ffffu32 | 0xffff_ffff == 0xffff_ffff && 0u32 ^ 0u32 == 0 && 0u32 ^ 0xffff_ffff == 0xffff_ffff && 0xffff_ffffu32 ^ 0 == 0xffff_ffff && 0xffff_ffffu32 ^ 0xffff_ffff == 0) by(bit_vector); } }
@hint after detail_notPlusOne_rS_u64 0
let S = mg(h@, b); val_bound(R); npo(R, S, h@.bg[b].lazy as int, n);
@hint return
val_one(mg(h@, b)); val_bound(R);
assert forall |k: int| k >= 0 implies #[trigger] tc(v(h@, b), k) == (!(tc(v(h0, b), k) as u32)) as int by { tc_arr(R, v(h@, b), k); if k >= n { tc_sign(h0, b, k); } }
tc_not(v(h0, b), v(h@, b));
@fn Big_andAssign_i64(b, i64)
requires wf(h0), binv(h0, b)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(v(h1, b), k) == ((tc(v(h0, b), k) as u32) & (tc(i64 as int, k) as u32)) as int
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@ghost after Big_getU32_u64 0
let ghost z = h@.bg[b].lazy as int;
@ghost loop 0 before
let ghost hm = h@; let ghost n = len as int;
@loop 0
invariant frB(h0, h@, b), h@.st == hm.st, sgs(h@, hm, b), fb4(fl(h@, b)) ==> fb16(fl(h@, b)) && h@.bg[b].lazy == z, excl(h@, SRef::Mag(b)), cnt(h@, SRef::Mag(b)) == n, i <= n
[value] forall |k: int| i <= k < n ==> mg(h@, b)[k] == ext0(mg(h0, b), n)[k]
[value] forall |k: int| 0 <= k < i ==> #[trigger] mg(h@, b)[k] == ((tc(v(h0, b), k) as u32) & (tc(i64 as int, k) as u32)) as int
decreases n - i
@hint loop 0 start
if i < n { gw_ext(h0, b, fl(h@, b), mg(h@, b), z, i as int); }
@ghost loop 0 after
let ghost R = mg(h@, b);
proof { tc_sign(h0, b, n - 1); tc_i64s(i64 as int, n - 1); assert(R[n - 1] == 0 || R[n - 1] == 0xffff_ffff) by { assert(!0u32 == 0xffff_ffffu32 && !0xffff_ffffu32 == 0u32 && 0u32 & 0u32 == 0 && 0u32 & 0xffff_ffff == 0 && 0xffff_ffffu32 & 0 == 0 && 0xffff_ffffu32 & 0xffff_ffff == 0xffff_ffff && 0u32 | 0u32 == 0 && 0u32 | 0xffff_ffff == 0xffff_ffff && 0xffff_ffffu32 | 0 == 0xffff_ffff && 0xffff_ffffu32 | 0xffff_ffff == 0xffff_ffff && 0u32 ^ 0u32 == 0 && 0u32 ^ 0xffff_ffff == 0xffff_ffff && 0xffff_ffffu32 ^ 0 == 0xffff_ffff && 0xffff_ffffu32 ^ 0xffff_ffff == 0) by(bit_vector); } }
@hint after detail_notPlusOne_rS_u64 0
let S = mg(h@, b); val_bound(R); npo(R, S, h@.bg[b].lazy as int, n);
@hint return
val_one(mg(h@, b)); val_bound(R);
assert forall |k: int| k >= 0 implies #[trigger] tc(v(h@, b), k) == ((tc(v(h0, b), k) as u32) & (tc(i64 as int, k) as u32)) as int by { tc_arr(R, v(h@, b), k); if k >= n { tc_sign(h0, b, k); tc_i64s(i64 as int, k); } }
@fn Big_andAssign_B(b, o)
requires wf(h0), binv(h0, b), binv(h0, o)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(v(h1, b), k) == ((tc(v(h0, b), k) as u32) & (tc(v(h0, o), k) as u32)) as int
[canon] binv(h1, b)
[frame] frW(h0, h1, b), h1.st == h0.st
@ghost after Big_getU32_u64 0
let ghost z = h@.bg[b].lazy as int;
@ghost loop 0 before
let ghost hm = h@; let ghost n = len as int;
@loop 0
invariant frW(h0, h@, b), h@.st == hm.st, sgs(h@, hm, b), fb4(fl(h@, b)) ==> fb16(fl(h@, b)) && h@.bg[b].lazy == z, excl(h@, SRef::Mag(b)), cnt(h@, SRef::Mag(b)) == n, i <= n
[value] forall |k: int| i <= k < n ==> mg(h@, b)[k] == ext0(mg(h0, b), n)[k]
[value] forall |k: int| 0 <= k < i ==> #[trigger] mg(h@, b)[k] == ((tc(v(h0, b), k) as u32) & (tc(v(h0, o), k) as u32)) as int
decreases n - i
@hint loop 0 start
if i < n { gw_ext(h0, b, fl(h@, b), mg(h@, b), z, i as int); if o != b { frW_inv(h0, h@, b, o); } }
@ghost loop 0 after
let ghost R = mg(h@, b);
proof { tc_sign(h0, b, n - 1); tc_sign(h0, o, n - 1); assert(R[n - 1] == 0 || R[n - 1] == 0xffff_ffff) by { assert(!0u32 == 0xffff_ffffu32 && !0xffff_ffffu32 == 0u32 && 0u32 & 0u32 == 0 && 0u32 & 0xffff_ffff == 0 && 0xffff_ffffu32 & 0 == 0 && 0xffff_ffffu32 & 0xffff_ffff == 0xffff_ffff && 0u32 | 0u32 == 0 && 0u32 | 0xffff_ffff == 0xffff_ffff && 0xffff_ffffu32 | 0 == 0xffff_ffff && 0xffff_ffffu32 | 0xffff_ffff == 0xffff_ffff && 0u32 ^ 0u32 == 0 && 0u32 ^ 0xffff_ffff == 0xffff_ffff && 0xffff_ffffu32 ^ 0 == 0xffff_ffff && 0xffff_ffffu32 ^ 0xffff_ffff == 0) by(bit_vector); } }
@hint after detail_notPlusOne_rS_u64 0
let S = mg(h@, b); val_bound(R); npo(R, S, h@.bg[b].lazy as int, n);
@hint return
val_one(mg(h@, b)); val_bound(R);
assert forall |k: int| k >= 0 implies #[trigger] tc(v(h@, b), k) == ((tc(v(h0, b), k) as u32) & (tc(v(h0, o), k) as u32)) as int by { tc_arr(R, v(h@, b), k); if k >= n { tc_sign(h0, b, k); tc_sign(h0, o, k); } }
@fn Big_orAssign_i64(b, i64)
requires wf(h0), binv(h0, b)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(v(h1, b), k) == ((tc(v(h0, b), k) as u32) | (tc(i64 as int, k) as u32)) as int
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@ghost after Big_getU32_u64 0
let ghost z = h@.bg[b].lazy as int;
@ghost loop 0 before
let ghost hm = h@; let ghost n = len as int;
@loop 0
invariant frB(h0, h@, b), h@.st == hm.st, sgs(h@, hm, b), fb4(fl(h@, b)) ==> fb16(fl(h@, b)) && h@.bg[b].lazy == z, excl(h@, SRef::Mag(b)), cnt(h@, SRef::Mag(b)) == n, i <= n
[value] forall |k: int| i <= k < n ==> mg(h@, b)[k] == ext0(mg(h0, b), n)[k]
[value] forall |k: int| 0 <= k < i ==> #[trigger] mg(h@, b)[k] == ((tc(v(h0, b), k) as u32) | (tc(i64 as int, k) as u32)) as int
decreases n - i
@hint loop 0 start
if i < n { gw_ext(h0, b, fl(h@, b), mg(h@, b), z, i as int); }
@ghost loop 0 after
let ghost R = mg(h@, b);
proof { tc_sign(h0, b, n - 1); tc_i64s(i64 as int, n - 1); assert(R[n - 1] == 0 || R[n - 1] == 0xffff_ffff) by { assert(!0u32 == 0xffff_ffffu32 && !0xffff_ffffu32 == 0u32 && 0u32 & 0u32 == 0 && 0u32 & 0xffff_ffff == 0 && 0xffff_ffffu32 & 0 == 0 && 0xffff_ffffu32 & 0xffff_ffff == 0xffff_ffff && 0u32 | 0u32 == 0 && 0u32 | 0xffff_ffff == 0xffff_ffff && 0xffff_ffffu32 | 0 == 0xffff_ffff && 0xffff_ffffu32 | 0xffff_ffff == 0xffff_ffff && 0u32 ^ 0u32 == 0 && 0u32 ^ 0xffff_ffff == 0xffff_ffff && 0xffff_ffffu32 ^ 0 == 0xffff_ffff && 0xffff_ffffu32 ^ 0xffff_ffff == 0) by(bit_vector); } }
@hint after detail_notPlusOne_rS_u64 0
let S = mg(h@, b); val_bound(R); npo(R, S, h@.bg[b].lazy as int, n);
@hint return
val_one(mg(h@, b)); val_bound(R);
assert forall |k: int| k >= 0 implies #[trigger] tc(v(h@, b), k) == ((tc(v(h0, b), k) as u32) | (tc(i64 as int, k) as u32)) as int by { tc_arr(R, v(h@, b), k); if k >= n { tc_sign(h0, b, k); tc_i64s(i64 as int, k); } }
@fn Big_orAssign_B(b, o)
requires wf(h0), binv(h0, b), binv(h0, o)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(v(h1, b), k) == ((tc(v(h0, b), k) as u32) | (tc(v(h0, o), k) as u32)) as int
[canon] binv(h1, b)
[frame] frW(h0, h1, b), h1.st == h0.st
@ghost after Big_getU32_u64 0
let ghost z = h@.bg[b].lazy as int;
@ghost loop 0 before
let ghost hm = h@; let ghost n = len as int;
@loop 0
invariant frW(h0, h@, b), h@.st == hm.st, sgs(h@, hm, b), fb4(fl(h@, b)) ==> fb16(fl(h@, b)) && h@.bg[b].lazy == z, excl(h@, SRef::Mag(b)), cnt(h@, SRef::Mag(b)) == n, i <= n
[value] forall |k: int| i <= k < n ==> mg(h@, b)[k] == ext0(mg(h0, b), n)[k]
[value] forall |k: int| 0 <= k < i ==> #[trigger] mg(h@, b)[k] == ((tc(v(h0, b), k) as u32) | (tc(v(h0, o), k) as u32)) as int
decreases n - i
@hint loop 0 start
if i < n { gw_ext(h0, b, fl(h@, b), mg(h@, b), z, i as int); if o != b { frW_inv(h0, h@, b, o); } }
@ghost loop 0 after
let ghost R = mg(h@, b);
proof { tc_sign(h0, b, n - 1); tc_sign(h0, o, n - 1); assert(R[n - 1] == 0 || R[n - 1] == 0xffff_ffff) by { assert(!0u32 == 0xffff_ffffu32 && !0xffff_ffffu32 == 0u32 && 0u32 & 0u32 == 0 && 0u32 & 0xffff_ffff == 0 && 0xffff_ffffu32 & 0 == 0 && 0xffff_ffffu32 & 0xffff_ffff == 0xffff_ffff && 0u32 | 0u32 == 0 && 0u32 | 0xffff_ffff == 0xffff_ffff && 0xffff_ffffu32 | 0 == 0xffff_ffff && 0xffff_ffffu32 | 0xffff_ffff == 0xffff_ffff && 0u32 ^ 0u32 == 0 && 0u32 ^ 0xffff_ffff == 0xffff_ffff && 0xffff_ffffu32 ^ 0 == 0xffff_ffff && 0xffff_ffffu32 ^ 0xffff_ffff == 0) by(bit_vector); } }
@hint after detail_notPlusOne_rS_u64 0
let S = mg(h@, b); val_bound(R); npo(R, S, h@.bg[b].lazy as int, n);
@hint return
val_one(mg(h@, b)); val_bound(R);
assert forall |k: int| k >= 0 implies #[trigger] tc(v(h@, b), k) == ((tc(v(h0, b), k) as u32) | (tc(v(h0, o), k) as u32)) as int by { tc_arr(R, v(h@, b), k); if k >= n { tc_sign(h0, b, k); tc_sign(h0, o, k); } }
@fn Big_xorAssign_i64(b, i64)
requires wf(h0), binv(h0, b)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(v(h1, b), k) == ((tc(v(h0, b), k) as u32) ^ (tc(i64 as int, k) as u32)) as int
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@ghost after Big_getU32_u64 0
let ghost z = h@.bg[b].lazy as int;
@ghost loop 0 before
let ghost hm = h@; let ghost n = len as int;
@loop 0
invariant frB(h0, h@, b), h@.st == hm.st, sgs(h@, hm, b), fb4(fl(h@, b)) ==> fb16(fl(h@, b)) && h@.bg[b].lazy == z, excl(h@, SRef::Mag(b)), cnt(h@, SRef::Mag(b)) == n, i <= n
[value] forall |k: int| i <= k < n ==> mg(h@, b)[k] == ext0(mg(h0, b), n)[k]
[value] forall |k: int| 0 <= k < i ==> #[trigger] mg(h@, b)[k] == ((tc(v(h0, b), k) as u32) ^ (tc(i64 as int, k) as u32)) as int
decreases n - i
@hint loop 0 start
if i < n { gw_ext(h0, b, fl(h@, b), mg(h@, b), z, i as int); }
@ghost loop 0 after
let ghost R = mg(h@, b);
proof { tc_sign(h0, b, n - 1); tc_i64s(i64 as int, n - 1); assert(R[n - 1] == 0 || R[n - 1] == 0xffff_ffff) by { assert(!0u32 == 0xffff_ffffu32 && !0xffff_ffffu32 == 0u32 && 0u32 & 0u32 == 0 && 0u32 & 0xffff_ffff == 0 && 0xffff_ffffu32 & 0 == 0 && 0xffff_ffffu32 & 0xffff_ffff == 0xffff_ffff && 0u32 | 0u32 == 0 && 0u32 | 0xffff_ffff == 0xffff_ffff && 0xffff_ffffu32 | 0 == 0xffff_ffff && 0xffff_ffffu32 | 0xffff_ffff == 0xffff_ffff && 0u32 ^ 0u32 == 0 && 0u32 ^ 0xffff_ffff == 0xffff_ffff && 0xffff_ffffu32 ^ 0 == 0xffff_ffff && 0xffff_ffffu32 ^ 0xffff_ffff == 0) by(bit_vector); } }
@hint after detail_notPlusOne_rS_u64 0
let S = mg(h@, b); val_bound(R); npo(R, S, h@.bg[b].lazy as int, n);
@hint return
val_one(mg(h@, b)); val_bound(R);
assert forall |k: int| k >= 0 implies #[trigger] tc(v(h@, b), k) == ((tc(v(h0, b), k) as u32) ^ (tc(i64 as int, k) as u32)) as int by { tc_arr(R, v(h@, b), k); if k >= n { tc_sign(h0, b, k); tc_i64s(i64 as int, k); } }
@fn Big_xorAssign_B(b, o)
requires wf(h0), binv(h0, b), binv(h0, o)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(v(h1, b), k) == ((tc(v(h0, b), k) as u32) ^ (tc(v(h0, o), k) as u32)) as int
[canon] binv(h1, b)
[frame] frW(h0, h1, b), h1.st == h0.st
@ghost after Big_getU32_u64 0
let ghost z = h@.bg[b].lazy as int;
@ghost loop 0 before
let ghost hm = h@; let ghost n = len as int;
@loop 0
invariant frW(h0, h@, b), h@.st == hm.st, sgs(h@, hm, b), fb4(fl(h@, b)) ==> fb16(fl(h@, b)) && h@.bg[b].lazy == z, excl(h@, SRef::Mag(b)), cnt(h@, SRef::Mag(b)) == n, i <= n
[value] forall |k: int| i <= k < n ==> mg(h@, b)[k] == ext0(mg(h0, b), n)[k]
[value] forall |k: int| 0 <= k < i ==> #[trigger] mg(h@, b)[k] == ((tc(v(h0, b), k) as u32) ^ (tc(v(h0, o), k) as u32)) as int
decreases n - i
@hint loop 0 start
if i < n { gw_ext(h0, b, fl(h@, b), mg(h@, b), z, i as int); if o != b { frW_inv(h0, h@, b, o); } }
@ghost loop 0 after
let ghost R = mg(h@, b);
proof { tc_sign(h0, b, n - 1); tc_sign(h0, o, n - 1); assert(R[n - 1] == 0 || R[n - 1] == 0xffff_ffff) by { assert(!0u32 == 0xffff_ffffu32 && !0xffff_ffffu32 == 0u32 && 0u32 & 0u32 == 0 && 0u32 & 0xffff_ffff == 0 && 0xffff_ffffu32 & 0 == 0 && 0xffff_ffffu32 & 0xffff_ffff == 0xffff_ffff && 0u32 | 0u32 == 0 && 0u32 | 0xffff_ffff == 0xffff_ffff && 0xffff_ffffu32 | 0 == 0xffff_ffff && 0xffff_ffffu32 | 0xffff_ffff == 0xffff_ffff && 0u32 ^ 0u32 == 0 && 0u32 ^ 0xffff_ffff == 0xffff_ffff && 0xffff_ffffu32 ^ 0 == 0xffff_ffff && 0xffff_ffffu32 ^ 0xffff_ffff == 0) by(bit_vector); } }
@hint after detail_notPlusOne_rS_u64 0
let S = mg(h@, b); val_bound(R); npo(R, S, h@.bg[b].lazy as int, n);
@hint return
val_one(mg(h@, b)); val_bound(R);
assert forall |k: int| k >= 0 implies #[trigger] tc(v(h@, b), k) == ((tc(v(h0, b), k) as u32) ^ (tc(v(h0, o), k) as u32)) as int by { tc_arr(R, v(h@, b), k); if k >= n { tc_sign(h0, b, k); tc_sign(h0, o, k); } }
@fn Big_ctor_mS_i32(b, s, signum)
requires wf(h0), newb(h0, b), live(h0, s), s != SRef::Mag(b), signum == 1 || signum == 0 || signum == -1
ensures
[value] v(h1, b) == signum * val(m(h0, s)), signum != 0 ==> mg(h1, b).len() <= m(h0, s).len()
[canon] binv(h1, b)
[frame] glob(h0, h1), h1.sl.dom() =~= h0.sl.dom().insert(SRef::Mag(b)), h1.bg.dom() =~= h0.bg.dom().insert(b), h1.st == h0.st
[frame] forall |s2: SRef| s2 != s && s2 != SRef::Mag(b) && live(h0, s2) ==> #[trigger] h1.sl[s2] == h0.sl[s2]
[frame] forall |s2: SRef| s2 != s && s2 != SRef::Mag(b) && live(h0, s2) ==> #[trigger] m(h1, s2) == m(h0, s2)
[frame] forall |b2: BId| b2 != b && h0.bg.dom().contains(b2) ==> #[trigger] h1.bg[b2] == h0.bg[b2]
@hint return
val_one(mg(h@, b)); val_bound(mg(h@, b));
@fn Big_split_u64_u64(b, n, size)
requires wf(h0), binv(h0, b), 1 <= size <= 0x4000_0000_0000_0000, n <= 3, n * size >= mg(h0, b).len()
ensures
[value] RET@.len() == n, forall |k: int| 0 <= k < n ==> #[trigger] v(h1, RET@[k]) == val(chunk(mg(h0, b), size as int, k))
[canon] forall |k: int| 0 <= k < n ==> binv(h1, #[trigger] RET@[k])
[frame] crV(h0, h1, RET@), forall |k: int| 0 <= k < n ==> mg(h1, #[trigger] RET@[k]).len() <= size
@ghost entry
let ghost A = mg(h0, b); let ghost N = A.len() as int; let ghost Z = size as int; let ghost nf = N / Z;
proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(N, Z); assert(n as int * Z >= N); if nf >= 4 { assert(Z * nf >= Z * 4) by(nonlinear_arith) requires nf >= 4, Z >= 1; } assert(n as int * Z <= 3 * Z) by(nonlinear_arith) requires n <= 3, Z >= 1; assert(Z * nf <= N); if nf > n { assert(Z * nf >= Z * (n as int + 1)) by(nonlinear_arith) requires nf >= n as int + 1, Z >= 1; assert(Z * (n as int + 1) == n as int * Z + Z) by(nonlinear_arith); }
  assert(0 * Z == 0); assert(1 * Z == Z); assert(2 * Z == Z + Z); assert(3 * Z == Z + Z + Z); assert(4 * Z == Z + Z + Z + Z); assert(Z * 0 == 0 && Z * 1 == Z && Z * 2 == Z + Z && Z * 3 == Z + Z + Z); }
@loop 0
invariant wf(h@), 0 <= i <= nf, res@.len() == i, numFull == nf, crV(h0, h@, res@)
invariant forall |k: int| 0 <= k < i ==> binv(h@, #[trigger] res@[k]) && mg(h@, res@[k]).len() <= size
[value] forall |k: int| 0 <= k < i ==> #[trigger] v(h@, res@[k]) == val(chunk(A, Z, k))
decreases nf - i
@ghost loop 0 body
let ghost r0 = res@; let ghost g0 = h@;
proof { assert(mg(h@, b) == A); assert((i as int + 1) * Z <= nf * Z) by(nonlinear_arith) requires i as int + 1 <= nf, Z >= 1; assert(i as int * Z >= 0) by(nonlinear_arith) requires i >= 0, Z >= 1; assert((i as int + 1) * Z == i as int * Z + Z) by(nonlinear_arith); assert(nf * Z == Z * nf) by(nonlinear_arith); }
@hint loop 0 end
crV_push(h0, g0, h@, r0, res@[r0.len() as int]); assert(v(h@, res@[r0.len() as int]) == val(chunk(A, Z, r0.len() as int)));
@ghost loop 0 after
let ghost r1 = res@; let ghost g1 = h@;
proof { assert(mg(h@, b) == A); assert((nf + 1) * Z == nf * Z + Z) by(nonlinear_arith); assert(nf * Z == Z * nf) by(nonlinear_arith); }
@hint after slice_kill 1
crV_push(h0, g1, h@, r1, res@[r1.len() as int]); assert(v(h@, res@[r1.len() as int]) == val(chunk(A, Z, nf)));
@loop 1
invariant wf(h@), res@.len() + (remNum - i_2) == n, i_2 <= remNum, crV(h0, h@, res@), res@.len() * Z >= N
invariant forall |k: int| 0 <= k < res@.len() ==> binv(h@, #[trigger] res@[k]) && mg(h@, res@[k]).len() <= size
[value] forall |k: int| 0 <= k < res@.len() ==> #[trigger] v(h@, res@[k]) == val(chunk(A, Z, k))
decreases remNum - i_2
@ghost loop 1 body
let ghost r2 = res@; let ghost g2 = h@;
@hint loop 1 end
crV_push(h0, g2, h@, r2, res@[r2.len() as int]);
let k = r2.len() as int; assert((k + 1) * Z == k * Z + Z) by(nonlinear_arith); assert(chunk(A, Z, k).len() == 0); val_one(mg(h@, res@[k])); assert(v(h@, res@[k]) == 0);
@fn Big_mul_rB_B_B(res, a, b)
requires wf(h0), liveb(h0, res), binv(h0, a), binv(h0, b), res != a, res != b
ensures
[value] v(h1, res) == v(h0, a) * v(h0, b)
[canon] binv(h1, res)
[frame] frB(h0, h1, res), h1.st == h0.st
decreases imax(mg(h0, a).len() as int, mg(h0, b).len() as int), 1int
@ghost entry
proof { val_one(mg(h0, a)); val_one(mg(h0, b)); val_bound(mg(h0, a)); val_bound(mg(h0, b)); if mg(h0, a).len() == 1 { val_1(mg(h0, a)); } if mg(h0, b).len() == 1 { val_1(mg(h0, b)); }
  let x = mv(h0, a); let y = mv(h0, b); assert((-x) * y == -(x * y) && x * (-y) == -(x * y) && (-x) * (-y) == x * y) by(nonlinear_arith); if x >= 1 && y >= 1 { assert(x * y >= 1) by(nonlinear_arith) requires x >= 1, y >= 1; } assert(x * y == y * x) by(nonlinear_arith); assert(0 * v(h0, b) == 0 && v(h0, a) * 0 == 0); }
@hint before detail_gradSchoolMulInplace_rS_u32 0
assert(mg(h@, b) == mg(h0, b)); assert(mg(h@, b)[0] == mg(h0, b)[0]); assert(mg(h@, res) == mg(h0, a));
@hint before detail_gradSchoolMulInplace_rS_u32 1
assert(mg(h@, a) == mg(h0, a)); assert(mg(h@, a)[0] == mg(h0, a)[0]); assert(mg(h@, res) == mg(h0, b));
@hint return
val_one(mg(h@, res));
@fn Big_mulKaratsuba_rB_B_B(res, a, b) @hide(v, binv, frB, crB, crV, kiV, nuN, wf, m, excl, frX, flB, cmono, disj)
requires wf(h0), liveb(h0, res), binv(h0, a), binv(h0, b), res != a, res != b, mg(h0, a).len() >= 1, mg(h0, b).len() >= 1, mg(h0, a).len() >= 4 || mg(h0, b).len() >= 4
ensures
[value] v(h1, res) == v(h0, a) * v(h0, b)
[canon] binv(h1, res)
[frame] frB(h0, h1, res), h1.st == h0.st
decreases imax(mg(h0, a).len() as int, mg(h0, b).len() as int), 0int
@ghost entry
let ghost na = mg(h0, a).len() as int; let ghost nb = mg(h0, b).len() as int; let ghost H = (imax(na, nb) + 1) / 2; let ghost P = pw(H); let ghost E = Set::<BId>::empty();
let ghost x = mv(h0, a); let ghost y = mv(h0, b);
proof { chunk2(mg(h0, a), H); chunk2(mg(h0, b), H); pw_p2(H); pw_pos(H); pw_step(H + 1); inv_live(h0, a); inv_live(h0, b); 
  assert((-x) * y == -(x * y) && x * (-y) == -(x * y) && (-x) * (-y) == x * y) by(nonlinear_arith); assert(x * y >= 1) by(nonlinear_arith) requires x >= 1, y >= 1; assert(2 * H >= na && 2 * H >= nb); }
let ghost al = val(chunk(mg(h0, a), H, 0)); let ghost ah = val(chunk(mg(h0, a), H, 1)); let ghost bl = val(chunk(mg(h0, b), H, 0)); let ghost bh = val(chunk(mg(h0, b), H, 1));
proof { kara(al, ah, bl, bh, P); nuN_0(h0, res); }
@ghost before Big_split_u64_u64 1
let ghost g1 = h@; let ghost sa = aBlocks@; let ghost A0 = sa[0]; let ghost A1 = sa[1]; let ghost Na = E.union(sa.to_set());
proof { assert(half == H); step_vec(h0, h0, g1, res, E, sa); }
@ghost before Big_beginWrite 0
let ghost g2 = h@; let ghost sb = bBlocks@; let ghost B0 = sb[0]; let ghost B1 = sb[1];
let ghost N = Na.union(sb.to_set());
proof { step_vec(h0, g1, g2, res, Na, sb); assert(sa.contains(A0) && sa.contains(A1) && sb.contains(B0) && sb.contains(B1));
  assert(N.contains(A0) && N.contains(A1) && N.contains(B0) && N.contains(B1)); 
  assert(A0 != A1 && B0 != B1);
  assert(liveb(g1, A0)); 
  assert(liveb(g1, A1)); 
  assert(!liveb(g1, B0)); 
  assert(!liveb(g1, B1)); 
  assert(liveb(g2, res));
  assert(!liveb(h0, A0)); 
  assert(!liveb(h0, A1));
  assert(binv(g1, A0) && v(g1, A0) == al); assert(binv(g1, A1) && v(g1, A1) == ah);
  assert(binv(g2, A0) && binv(g2, A1) && binv(g2, B0) && binv(g2, B1) && v(g2, A0) == al && v(g2, A1) == ah && v(g2, B0) == bl && v(g2, B1) == bh);
  inv_len(g2, A0, H); inv_len(g2, A1, H); inv_len(g2, B0, H); inv_len(g2, B1, H); }
@ghost after Big_beginWrite 0
let ghost g3 = h@;
proof { frB_fl(g2, g3, res); step(h0, g2, g3, res, N, res); }
@ghost after Slice_cloneData 0
let ghost g4 = h@;
proof { frB_X(g3, g4, res); step(h0, g3, g4, res, N, res); assert(liveb(g4, res)); }
@ghost after Big_mul_rB_B_B 0
let ghost g5 = h@;
proof { step(h0, g4, g5, res, N, res); }
@ghost after Big_ctor 0
let ghost g6 = h@; let ghost N2 = N.insert(p2);
proof { step_new(h0, g5, g6, res, N, p2); assert(liveb(g6, p2)); }
@ghost after Big_mul_rB_B_B 1
let ghost g7 = h@;
proof { step(h0, g6, g7, res, N2, p2); }
@ghost after Big_ctor 1
let ghost g8 = h@; let ghost N3 = N2.insert(p3);
proof { step_new(h0, g7, g8, res, N2, p3); }
@ghost after Big_addAssign_B 0
let ghost g9 = h@;
proof { step(h0, g8, g9, res, N3, A1); }
@ghost after Big_addAssign_B 1
let ghost g10 = h@;
proof { step(h0, g9, g10, res, N3, B1); inv_len(g10, A1, H + 1); inv_len(g10, B1, H + 1); }
@ghost after Big_mul_rB_B_B 2
let ghost g11 = h@;
proof { step(h0, g10, g11, res, N3, p3); }
@ghost after Big_subAssign_B 0
let ghost g12 = h@;
proof { step(h0, g11, g12, res, N3, p3); }
@ghost after Big_subAssign_B 1
let ghost g13 = h@;
proof { step(h0, g12, g13, res, N3, p3); }
@ghost after Big_shiftLeftAssign_u64 0
let ghost g14 = h@;
proof { step(h0, g13, g14, res, N3, res); }
@ghost after Big_addAssign_B 2
let ghost g15 = h@;
proof { step(h0, g14, g15, res, N3, res); }
@ghost after Big_shiftLeftAssign_u64 1
let ghost g16 = h@;
proof { step(h0, g15, g16, res, N3, res); }
@ghost after Big_addAssign_B 3
let ghost g17 = h@;
proof { step(h0, g16, g17, res, N3, res); inv_live(g17, res); inv_live(g17, a); inv_live(g17, b); assert(v(g17, res) == x * y) by { assert(x == al + P * ah); assert(y == bl + P * bh); } }
@ghost before big_kill 0
let ghost g18 = h@;
proof { inv_sign(g17, g18, res); frB_fl(g17, g18, res); step(h0, g17, g18, res, N3, res); inv_live(g18, p2); inv_live(g18, p3); }
@ghost after big_kill 0
let ghost g19 = h@;
proof { step_kill(h0, g18, g19, res, N3, p3); }
@ghost after big_kill 1
let ghost g20 = h@;
proof { step_kill(h0, g19, g20, res, N3.remove(p3), p2); }
@ghost after vecb_kill 0
let ghost g21 = h@; let ghost N4 = N3.remove(p3).remove(p2);
proof { assert forall |k: int| 0 <= k < sb.len() implies N4.contains(#[trigger] sb[k]) && sb[k] != res by { assert(k == 0 || k == 1); } step_killv(h0, g20, g21, res, N4, sb); }
@ghost after vecb_kill 1
let ghost g22 = h@; let ghost N5 = N4.difference(sb.to_set());
proof { assert forall |k: int| 0 <= k < sa.len() implies N5.contains(#[trigger] sa[k]) && sa[k] != res by { assert(k == 0 || k == 1); } step_killv(h0, g21, g22, res, N5, sa); 
  nuN_end(h0, g22, res, N5.difference(sa.to_set())); }
@fn Big_mulAssign_B(b, o)
requires wf(h0), binv(h0, b), binv(h0, o)
ensures
[value] v(h1, b) == v(h0, b) * v(h0, o)
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@ghost entry
proof { val_one(mg(h0, b)); val_one(mg(h0, o)); val_bound(mg(h0, b)); val_bound(mg(h0, o)); if mg(h0, b).len() == 1 { val_1(mg(h0, b)); } if mg(h0, o).len() == 1 { val_1(mg(h0, o)); }
  let x = mv(h0, b); let y = mv(h0, o); assert((-x) * y == -(x * y) && x * (-y) == -(x * y) && (-x) * (-y) == x * y) by(nonlinear_arith); if x >= 1 && y >= 1 { assert(x * y >= 1) by(nonlinear_arith) requires x >= 1, y >= 1; } assert(x * y == y * x) by(nonlinear_arith); assert(0 * v(h0, o) == 0 && v(h0, b) * 0 == 0); }
@hint before detail_gradSchoolMulInplace_rS_u32 0
assert(mg(h@, o).len() > 0); assert(mg(h@, o)[0] == mg(h0, o)[0]); assert(mg(h@, b) == mg(h0, b));
@hint before detail_gradSchoolMulInplace_rS_u32 1
assert(mg(h0, b)[0] == h0.cells[cell(h0, SRef::Mag(b))][h0.sl[SRef::Mag(b)].lo]); assert(mg(h@, b) == mg(h0, o));
@hint return
val_one(mg(h@, b));
@fn Big_mulAssign_i64(b, i64)
requires wf(h0), binv(h0, b)
ensures
[value] v(h1, b) == v(h0, b) * i64
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@fn Big_knuthDivImpl_rB_rB_B_B(q, r, u, w) @hide(nuX, crB, crS, oth2, frB2, flB, frX, frB, frS, crV, kiV, nuN, chg, cmono)
requires wf(h0), liveb(h0, q), liveb(h0, r), binw(h0, u), binv(h0, w), fb2(fl(h0, u)), fb2(fl(h0, w)), !fb16(fl(h0, u)), excl(h0, SRef::Mag(u)), q != r, q != u, q != w, r != u, r != w, u != w
requires mg(h0, w).len() >= 2, mg(h0, u).len() > mg(h0, w).len(), mv(h0, u) >= mv(h0, w)
ensures
[value] mv(h0, u) == v(h1, q) * mv(h0, w) + v(h1, r), 0 <= v(h1, r) < mv(h0, w)
[canon] binv(h1, q), binv(h1, r), fb2(fl(h1, q))
[frame] chg(h0, h1, one(SRef::Mag(q)).insert(SRef::Mag(r)).insert(SRef::Mag(u))), h1.st == h0.st
@ghost entry
let ghost A = mg(h0, u); let ghost Y = mg(h0, w); let ghost n = Y.len() as int; let ghost MM = A.len() - n; let ghost W = one(SRef::Mag(q)).insert(SRef::Mag(r)).insert(SRef::Mag(u));
proof { x_0(h0, W); val_bound(A); val_bound(Y); val_low(Y); p2_0(); }
@ghost after Big_ctor_B 0
let ghost g1 = h@; let ghost sd = SRef::Mag(dividend); let ghost n1 = Set::<SRef>::empty().insert(sd);
proof { x_new(h0, h0, g1, W, Set::empty(), dividend); }
@ghost after Big_ctor_B 1
let ghost g2 = h@; let ghost sv = SRef::Mag(divisor); let ghost n2 = n1.insert(sv);
proof { x_new(h0, g1, g2, W, n1, divisor); assert(mg(g2, dividend) == A && mg(g2, divisor) == Y && mg(g2, w) == Y); }
@loop 0
invariant vn1_copy as int == Y[n - 1] * p2(lShift as int), vn1_copy < b, b == 0x1_0000_0000, 0 <= lShift < 32, h@ == g2, Y[n - 1] >= 1, vn1_copy >= 1
decreases 0x1_0000_0000 - vn1_copy
@hint loop 0 body
p2_step(lShift as int + 1); let t = Y[n - 1] as int; let e = p2(lShift as int); assert(t * (2 * e) == 2 * (t * e)) by(nonlinear_arith);
if lShift == 31 { p2_32(); assert(t * e >= 0x8000_0000) by(nonlinear_arith) requires t >= 1, e == 0x8000_0000; }
@ghost loop 0 after
let ghost l = lShift as int; let ghost d = p2(l);
proof { p2_pos(l); if l > 0 { small_top(A[A.len() - 1] as int, l); small_top(Y[n - 1] as int, l); } assert(val(A) * 1 == val(A) && val(Y) * 1 == val(Y)); }
@ghost after Big_shiftLeftAssign_u64 0
let ghost g3 = h@;
proof { chg_frB(g2, g3, dividend); x_step(h0, g2, g3, W, n2, one(sd)); }
@ghost after Big_shiftLeftAssign_u64 1
let ghost g4 = h@;
proof { chg_frB(g3, g4, divisor); x_step(h0, g3, g4, W, n2, one(sv)); assert(mg(g4, dividend) == mg(g3, dividend));
  assert(excl2(g4, sd, SRef::Mag(u))) by { assert forall |s2: SRef| s2 != sd && s2 != SRef::Mag(u) && g4.sl.dom().contains(s2) implies cell(g4, s2) != cell(g4, sd) by { assert(g3.sl.dom().contains(s2)); assert(g2.sl.dom().contains(s2)); if l == 0 { if s2 != sv { assert(h0.sl.dom().contains(s2)); assert(g2.sl[s2] == g1.sl[s2]); assert(g1.sl[s2] == h0.sl[s2]); } assert(h0.sl.dom().contains(SRef::Mag(w))); } else { if s2 != sv { assert(g4.sl[s2] == g3.sl[s2]); } } } }
  assert(mg(g4, divisor).len() == n); assert(mv(g4, divisor) == mv(h0, w) * d); assert(mv(g4, dividend) == mv(h0, u) * d); }
@ghost after Slice_append_u32 0
let ghost g5 = h@;
proof { chg_frS(g4, g5, sd, SRef::Mag(u)); x_step(h0, g4, g5, W, n2, one(sd).insert(SRef::Mag(u))); }
let ghost U0 = mg(g5, dividend); let ghost D = mg(g5, divisor); let ghost DV = val(D); let ghost L = U0.len() as int; let ghost X = val(U0);
proof { assert(sv != SRef::Mag(u)); assert(D == mg(g4, divisor)); val_bound(D); assert(U0 =~= mg(g4, dividend).push(0u32)); val_top0(U0); assert(U0.subrange(0, L - 1) =~= mg(g4, dividend)); assert(X == mv(h0, u) * d);
  if l == 0 { assert(D =~= Y); } else { } assert(D[n - 1] >= 0x8000_0000) by { scaled(Y, D, l); }
  assert(L >= MM + n + 1); assert(U0[MM + n] < 0x8000_0000); assert forall |i: int| MM + n + 1 <= i < L implies U0[i] == 0 by { } }
@ghost after Slice_ctor 0
let ghost g6 = h@; let ghost n3 = n2.insert(qArr);
proof { x_newS(h0, g5, g6, W, n2, qArr); }
@ghost after Slice_slice_u64_u64 0
let ghost g7 = h@;
proof { chg_frS(g6, g7, qArr, qArr); x_step(h0, g6, g7, W, n3, one(qArr).insert(qArr)); assert(live(g6, sd) && live(g6, sv) && live(g7, sd) && live(g7, sv)); assert(mg(g7, divisor) == D && mg(g7, dividend) == U0); 
assert(m(g7, qArr) =~= zeros(MM + 1)); 
val_zero(m(g7, qArr)); assert(one(sd).contains(sd)); }
let ghost cd = cell(g7, sd); let ghost cq = cell(g7, qArr); let ghost cv = cell(g7, sv);
proof { assert(mg(g7, divisor) == D && mg(g7, dividend) == U0); assert(cv != cd); assert(cq != cd); assert(cq != cv);
  let t = U0.subrange(MM + 1, MM + 1 + n); val_bound(t); val_low(D); 
  assert(val(t) < DV) by { let p = pw(n - 1); pw_pos(n - 1); pv_bound(t, n - 1); pv_bound(D, n - 1); reveal_with_fuel(pv, 2); let a = t[n - 1] as int; let c = D[n - 1] as int; let x = pv(t, n - 1); let y = pv(D, n - 1); assert(x + a * p < y + c * p) by(nonlinear_arith) requires x < p, y >= 0, a + 1 <= c, p >= 1; }
  assert(DV * 0 == 0); }
@loop 1 iso
invariant N == n, M == MM, b == 0x1_0000_0000, uMag == sd, vMag == sv, sd == SRef::Mag(dividend), sv == SRef::Mag(divisor), live(g7, sd), live(g7, sv), live(g7, qArr), cd == cell(g7, sd), cq == cell(g7, qArr), cv == cell(g7, sv), cd != cq, cd != cv, cq != cv, wf(g7)
invariant n >= 2, MM >= 1, L >= MM + n + 1, L <= MAXN(), D.len() == n, DV == val(D), 0 < DV < pw(n), vn1 == D[n - 1], vn2 == D[n - 2], D[n - 1] >= 0x8000_0000
invariant only2(g7, h@, cd, cq), -1 <= sj(j) <= MM, mg(h@, divisor) == D, mg(h@, dividend).len() == L, m(h@, qArr).len() == MM + 1
[value] val(mg(h@, dividend)) + DV * val(m(h@, qArr)) == X, val(mg(h@, dividend).subrange(sj(j) + 1, sj(j) + 1 + n)) < DV
invariant forall |i: int| sj(j) + 1 + n <= i < L ==> mg(h@, dividend)[i] == 0, forall |i: int| 0 <= i <= sj(j) ==> m(h@, qArr)[i] == 0
exit sj(j) == -1
decreases sj(j) + 1
@ghost loop 1 body
let ghost e0 = h@; let ghost jj = j as int; let ghost UM = mg(e0, dividend); let ghost O = UM.subrange(jj, jj + n + 1); let ghost Q0 = m(e0, qArr);
proof { win_next(UM, jj, n, DV); assert(O[n] == UM[jj + n] && O[n - 1] == UM[jj + n - 1] && O[n - 2] == UM[jj + n - 2]);
  qhat(O, D, n, (O[n] * B() + O[n - 1]) / (D[n - 1] as int), (O[n] * B() + O[n - 1]) % (D[n - 1] as int)); val_bound(O); }
@ghost loop 2 before
let ghost qh1 = qHat as int;
proof { assert(val(O) < (qh1 + 1) * DV && 0 <= qh1 <= B()); assert(qh1 * 0 == 0); assert(pw(0) * 0 == 0); assert(pv(O, 0) == 0 && pv(D, 0) == 0); }
@loop 2
invariant only2(e0, h@, cd, cd), mg(h@, divisor) == D, mg(h@, dividend).len() == L, m(h@, qArr) == Q0, 0 <= k <= n, -1 <= borrow <= 0, 0 <= carry < B()
invariant forall |i: int| 0 <= i < L && !(jj <= i < jj + k) ==> mg(h@, dividend)[i] == UM[i]
[value] pv(mg(h@, dividend).subrange(jj, jj + n + 1), k as int) == pv(O, k as int) - qh1 * pv(D, k as int) + pw(k as int) * (carry - borrow)
decreases n - k
@ghost loop 2 body
let ghost X0 = mg(h@, dividend).subrange(jj, jj + n + 1); let ghost c0 = carry as int; let ghost b0 = borrow as int; let ghost k0 = k as int;
proof { let x = D[k0] as int; assert(0 <= qh1 * x <= B() * (B() - 1)) by(nonlinear_arith) requires 0 <= qh1 <= B(), 0 <= x <= B() - 1; assert(X0[k0] == O[k0]); }
@hint loop 2 end
let X2 = mg(h@, dividend).subrange(jj, jj + n + 1); let c2 = c0 + qh1 * D[k0]; let bo = b0 + O[k0] - c2 % B();
assert(X2 =~= X0.update(k0, (bo % B()) as u32)); mulsub(X0, X2, O, D, k0, qh1, c0, b0, c2, bo);
@ghost loop 2 after
let ghost X3 = mg(h@, dividend).subrange(jj, jj + n + 1); let ghost c3 = carry as int; let ghost b3 = borrow as int; 
proof { assert(X3[n] == O[n]); }
@ghost before it_set 2
let ghost e1 = h@; let ghost X4 = mg(h@, dividend).subrange(jj, jj + n + 1);
proof { let bo = b3 + O[n] - c3; assert(X4 =~= X3.update(n, (bo % B()) as u32)); pv_same(X3, X4, n); reveal_with_fuel(pv, 2); pw_step(n + 1); let p = pw(n); let x = bo % B(); assert(x as u32 as int == x); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(bo, B()); let bq = bo / B(); assert(borrow == bq);
  let a = pv(O, n); let t = O[n] as int;
  assert(a - qh1 * DV + p * (c3 - b3) + x * p == a + t * p - qh1 * DV - (B() * p) * bq) by(nonlinear_arith) requires x == bo - B() * bq, bo == b3 + t - c3;
  assert(val(X4) == val(O) - qh1 * DV - pw(n + 1) * bq); val_bound(X4);
  assert(bq == 0 || bq == -1); assert(bq == 0 ==> val(O) - qh1 * DV == val(X4)) by { assert(pw(n + 1) * 0 == 0); } assert(bq == -1 ==> val(O) - qh1 * DV == val(X4) - pw(n + 1)) by { assert(pw(n + 1) * (-1) == -pw(n + 1)); } assert((qh1 + 1) * DV == qh1 * DV + DV) by(nonlinear_arith); }
@hint loop 3 before
assert(mg(h@, dividend) == mg(e1, dividend)); assert(mg(h@, dividend).subrange(jj, jj + n + 1) == X4);
@loop 3
invariant only2(e0, h@, cd, cq), mg(h@, divisor) == D, mg(h@, dividend).len() == L, m(h@, qArr).len() == MM + 1, 0 <= qHat <= B(), borrow == 0 || borrow == -1
invariant forall |i: int| 0 <= i <= MM && i != jj ==> m(h@, qArr)[i] == Q0[i]
invariant forall |i: int| 0 <= i < L && !(jj <= i < jj + n + 1) ==> mg(h@, dividend)[i] == UM[i]
[value] val(mg(h@, dividend).subrange(jj, jj + n + 1)) == val(O) - qHat * DV + (if borrow < 0 { pw(n + 1) } else { 0 }), (borrow < 0) == (val(O) - qHat * DV < 0), val(O) - qHat * DV < DV
decreases qHat
@ghost loop 3 body
let ghost e2 = h@; let ghost WN = mg(e2, dividend).subrange(jj, jj + n + 1); let ghost q2 = qHat as int; let ghost U2 = mg(e2, dividend);
proof { assert(q2 >= 1) by { if q2 == 0 { assert(q2 * DV == 0) by(nonlinear_arith) requires q2 == 0; } } assert((q2 - 1) * DV == q2 * DV - DV) by(nonlinear_arith); assert(pw(0) * 0 == 0); }
@loop 4
invariant only2(e2, h@, cd, cd), mg(h@, divisor) == D, mg(h@, dividend).len() == L, m(h@, qArr) == m(e2, qArr), 0 <= k_2 <= n, 0 <= carry <= 1
invariant forall |i: int| 0 <= i < L && !(jj <= i < jj + k_2) ==> mg(h@, dividend)[i] == U2[i]
[value] pv(mg(h@, dividend).subrange(jj, jj + n + 1), k_2 as int) == pv(WN, k_2 as int) + pv(D, k_2 as int) - pw(k_2 as int) * carry
decreases n - k_2
@ghost loop 4 body
let ghost X5 = mg(h@, dividend).subrange(jj, jj + n + 1); let ghost c5 = carry as int; let ghost k5 = k_2 as int;
proof { assert(X5[k5] == WN[k5]); }
@hint loop 4 end
let X6 = mg(h@, dividend).subrange(jj, jj + n + 1); let c6 = c5 + WN[k5] + D[k5];
assert(X6 =~= X5.update(k5, (c6 % B()) as u32)); addback(X5, X6, WN, D, k5, c5, c6);
@ghost loop 4 after
let ghost X7 = mg(h@, dividend).subrange(jj, jj + n + 1); let ghost c7 = carry as int; proof { assert(X7[n] == WN[n]); }
@hint loop 3 end
let X8 = mg(h@, dividend).subrange(jj, jj + n + 1); let c8 = c7 + WN[n]; assert(X8 =~= X7.update(n, (c8 % B()) as u32)); pv_same(X7, X8, n); reveal_with_fuel(pv, 2); pw_step(n + 1); let p = pw(n); let x = c8 % B(); assert(x as u32 as int == x); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c8, B()); let cc = c8 / B(); assert(cc == 0 || cc == 1);
let a = pv(WN, n); let t = WN[n] as int; 
assert(a + DV - p * c7 + x * p == a + t * p + DV - (B() * p) * cc) by(nonlinear_arith) requires x == c8 - B() * cc, c8 == c7 + t;
assert(val(X8) == val(WN) + DV - pw(n + 1) * cc); val_bound(X8); assert(pw(n + 1) * 0 == 0 && pw(n + 1) * 1 == pw(n + 1)); assert(borrow == cc - 1);
@hint loop 1 end
let U9 = mg(h@, dividend); let Q9 = m(h@, qArr); let qf = qHat as int; let w9 = U9.subrange(jj, jj + n + 1); win_upd(UM, U9, jj, n + 1); win_upd(Q0, Q9, jj, 1); val_bound(w9);
assert(qf < B()) by { if qf >= B() { assert(qf * DV >= DV * B()) by(nonlinear_arith) requires qf >= B(), DV >= 0; } }
let qs = Q9.subrange(jj, jj + 1); val_1(qs); val_1(Q0.subrange(jj, jj + 1)); assert(qs[0] == qf); 
let p = pw(jj); let y = val(Q0); assert(val(U9) == val(UM) + p * (0 - qf * DV)); assert(val(Q9) == y + p * qf);
assert(p * (0 - qf * DV) + DV * (y + p * qf) == DV * y) by(nonlinear_arith);
win_rem(U9, jj, n, DV); assert(sj(j) == jj - 1);
assert forall |i: int| jj + n <= i < L implies U9[i] == 0 by { if i > jj + n { assert(UM[i] == 0); } }
assert forall |i: int| 0 <= i < jj implies Q9[i] == 0 by { assert(Q0[i] == 0); }
@ghost loop 1 after
let ghost g8 = h@; let ghost UF = mg(g8, dividend); let ghost QF = m(g8, qArr); let ghost sq = SRef::Mag(q); let ghost sr = SRef::Mag(r); let ghost su = SRef::Mag(u);
proof { assert(UF.subrange(0, n) =~= UF.subrange(sj(j) + 1, sj(j) + 1 + n)); pv_tail0(UF, n, L); pv_same(UF, UF.subrange(0, n), n); assert(val(UF) < DV); val_bound(UF); val_bound(QF);
  assert(excl2(g7, sd, su)) by { assert forall |s2: SRef| s2 != sd && s2 != su && g7.sl.dom().contains(s2) implies cell(g7, s2) != cell(g7, sd) by { if s2 != qArr { assert(g6.sl.dom().contains(s2)); assert(g7.sl[s2] == g6.sl[s2]); assert(g5.sl.dom().contains(s2)); assert(g6.sl[s2] == g5.sl[s2]); assert(g4.sl.dom().contains(s2)); assert(g5.sl[s2] == g4.sl[s2]); } } }
  assert(excl(g7, qArr)) by { assert forall |s2: SRef| s2 != qArr && g7.sl.dom().contains(s2) implies cell(g7, s2) != cell(g7, qArr) by { assert(g6.sl.dom().contains(s2)); assert(g7.sl[s2] == g6.sl[s2]); } }
  chg_only2(g7, g8, sd, su, qArr); x_step(h0, g7, g8, W, n3, one(sd).insert(su).insert(qArr));
  let x = mv(h0, u); let y = mv(h0, w); let qf = val(QF); let wv = val(UF); assert(wv + (y * d) * qf == x * d); rem_scale(x, qf, y, d, wv); 
  if qf <= 0 { assert(qf * y == 0) by(nonlinear_arith) requires qf == 0; } }
let ghost RF = val(UF) / d;
proof { assert(mv(h0, u) == val(QF) * mv(h0, w) + RF && 0 <= RF < mv(h0, w) && val(QF) >= 1);
  assert(fl(g8, dividend) == fl(g7, dividend));
  assert(fl(g7, dividend) == fl(g6, dividend));
  assert(fl(g6, dividend) == fl(g5, dividend));
  assert(fl(g5, dividend) == fl(g4, dividend));
  assert(fl(g4, dividend) == fl(g3, dividend));

  assert(fl(g2, dividend) == fl(h0, u));
  assert(fb2(fl(g8, dividend)));
  assert(f1(fl(g8, dividend)));
  assert(!fb16(fl(g8, dividend)));
  assert(liveb(g8, q) && liveb(g8, r) && liveb(g8, dividend) && live(g8, qArr)); assert(sd != sq && sd != sr && sd != su && sv != sd); }
@ghost after Big_beginWrite 0
let ghost g9 = h@; proof { chg_flB(g8, g9, q); x_step(h0, g8, g9, W, n3, one(sq)); }
@ghost after Big_beginWrite 1
let ghost g10 = h@; proof { chg_flB(g9, g10, r); x_step(h0, g9, g10, W, n3, one(sr)); assert(fl(g10, q) == fl(g9, q)); }
@ghost after Big_setFlagsToPositive 0
let ghost g11 = h@; proof { chg_flB(g10, g11, q); x_step(h0, g10, g11, W, n3, one(sq)); assert(fl(g11, r) == fl(g10, r)); }
@ghost after Big_setFlagsToPositive 1
let ghost g12 = h@; proof { chg_flB(g11, g12, r); x_step(h0, g11, g12, W, n3, one(sr)); assert(fl(g12, q) == fl(g11, q)); assert(m(g12, qArr) == QF); assert(mg(g12, dividend) == UF); assert(fl(g12, dividend) == fl(g8, dividend)); }
@ghost after detail_eraseZerosSuffix_rS 0
let ghost g13 = h@; proof { chg_frX(g12, g13, qArr); x_step(h0, g12, g13, W, n3, one(qArr)); assert(fl(g13, q) == fl(g12, q) && fl(g13, r) == fl(g12, r) && fl(g13, dividend) == fl(g12, dividend)); }
@ghost after Slice_op_assign_mS 0
let ghost g14 = h@; proof { chg_oth2(g13, g14, sq, qArr); x_step(h0, g13, g14, W, n3, one(sq).insert(qArr)); assert(fl(g14, q) == fl(g13, q)) by { assert(g14.bg == g13.bg); } assert(liveb(g14, q)); binv_pos(g14, q); assert(v(g14, q) == val(QF)); assert(binv(g14, q)); assert(fl(g14, r) == fl(g13, r) && fl(g14, dividend) == fl(g13, dividend)); assert(mg(g14, dividend) == UF); }
@ghost after detail_eraseZerosSuffix_rS 1
let ghost g15 = h@; proof { chg_frX(g14, g15, sd); x_step(h0, g14, g15, W, n3, one(sd)); assert(fl(g15, dividend) == fl(g14, dividend)) by { assert(g15.bg == g14.bg); } assert(fl(g15, r) == fl(g14, r)); assert(binz(g15, dividend)); assert(v(g15, dividend) == val(UF)); }
@ghost after Big_shiftRightAssign_u64 0
let ghost g16 = h@; proof { chg_frB(g15, g16, dividend); x_step(h0, g15, g16, W, n3, one(sd)); binz_v(g16, dividend); assert(mv(g16, dividend) == RF); assert(fl(g16, r) == fl(g15, r)); }
@ghost after Slice_op_assign_mS 1
let ghost g17 = h@; proof { chg_oth2(g16, g17, sr, sd); x_step(h0, g16, g17, W, n3, one(sr).insert(sd)); assert(fl(g17, r) == fl(g16, r)) by { assert(g17.bg == g16.bg); } assert(mg(g17, r) =~= mg(g16, dividend)); binv_pos(g17, r); assert(v(g17, r) == RF); }
@ghost before slice_kill 0
let ghost g18 = h@; proof { if g18 != g17 { chg_frB(g17, g18, r); x_step(h0, g17, g18, W, n3, one(sr)); } assert(binv(g18, r) && v(g18, r) == RF); assert(binv(g18, q) && v(g18, q) == val(QF)); assert(fl(g18, q) == fl(g14, q)); }
@ghost after slice_kill 0
let ghost g19 = h@; proof { x_killS(h0, g18, g19, W, n3, qArr); }
@ghost after big_kill 0
let ghost g20 = h@; proof { x_kill(h0, g19, g20, W, n3.remove(qArr), divisor); }
@ghost after big_kill 1
let ghost g21 = h@; proof { x_kill(h0, g20, g21, W, n3.remove(qArr).remove(sv), dividend); let z = n3.remove(qArr).remove(sv).remove(sd); assert forall |s: SRef| !z.contains(s) by { } x_end(h0, g21, W, z); assert(fl(g21, q) == fl(g18, q)); }
@fn Big_divideAssignAndReminderByU32_u32_rB(b, u, r)
requires wf(h0), binv(h0, b), liveb(h0, r), b != r
ensures
[value] u != 0 ==> v(h0, b) == v(h1, b) * u + v(h1, r) && (v(h0, b) >= 0 ==> 0 <= v(h1, r) < u) && (v(h0, b) <= 0 ==> -u < v(h1, r) <= 0)
[canon] binv(h1, b), u != 0 ==> binv(h1, r)
[frame] chg(h0, h1, one(SRef::Mag(b)).insert(SRef::Mag(r)))
[value] u == 0 ==> h1 == (HS { st: 1, ..h0 }), u != 0 ==> h1.st == h0.st || h1.st == 0
@ghost entry
let ghost sb = SRef::Mag(b); let ghost sr = SRef::Mag(r); let ghost W = one(sb).insert(sr); let ghost E = Set::<SRef>::empty(); let ghost A = mg(h0, b);
proof { x_0(h0, W); val_one(A); val_bound(A); assert(0 * u as int == 0); assert(val(A) * 1 == val(A)); assert(W.contains(sb) && W.contains(sr)); }
@ghost after status_set 0
proof { chg_st(h0, h@, W); }
@ghost after Big_beZero 0
proof { chg_frB(h0, h@, r); x_step(h0, h0, h@, W, E, one(sr)); x_end(h0, h@, W, E); }
@ghost after Big_beZero 1
let ghost k1 = h@; proof { chg_frB(h0, k1, r); x_step(h0, h0, k1, W, E, one(sr)); }
@ghost after Big_setFlagsToPositive 0
proof { chg_flB(k1, h@, b); x_step(h0, k1, h@, W, E, one(sb)); x_end(h0, h@, W, E); }
@ghost after Big_setFlagsToNegative 0
proof { chg_flB(k1, h@, b); x_step(h0, k1, h@, W, E, one(sb)); x_end(h0, h@, W, E); }
@ghost after Big_beginWrite 0
let ghost g1 = h@; proof { chg_flB(h0, g1, b); x_step(h0, h0, g1, W, E, one(sb)); assert(mg(g1, b) == A); assert(liveb(g1, r)); }
@ghost after Slice_cloneData 0
let ghost g2 = h@; proof { chg_frX(g1, g2, sb); x_step(h0, g1, g2, W, E, one(sb)); }
let ghost c = cell(g2, sb); let ghost n = A.len() as int;
proof { val_zero(A.subrange(n, n)); assert(A.subrange(n, n) =~= zeros(0)); assert(mg(g2, b) =~= A); }
@loop 0 iso
invariant mag == sb, sb == SRef::Mag(b), live(g2, sb), wf(g2), c == cell(g2, sb), n == A.len(), n <= MAXN(), x == u, u >= 2, y < x, only2(g2, h@, c, c), -1 <= sj(i) < n, m(h@, sb).len() == n
invariant forall |k: int| 0 <= k <= sj(i) ==> m(h@, sb)[k] == A[k]
[value] val(A.subrange(sj(i) + 1, n)) == val(m(h@, sb).subrange(sj(i) + 1, n)) * u + y
exit sj(i) == -1
decreases sj(i) + 1
@ghost loop 0 body
let ghost e0 = h@; let ghost M0 = m(e0, sb); let ghost y0 = y as int; let ghost k0 = i as int; 
proof { let a = A[k0] as int; let t = y0 * B() + a; assert(0 <= t < B() * u) by(nonlinear_arith) requires t == y0 * B() + a, 0 <= y0 <= u - 1, 0 <= a < B(); assert(t < U64()) by(nonlinear_arith) requires t < B() * u, u < B(); p2_32();
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, u as int); vstd::arithmetic::div_mod::lemma_mod_bound(t, u as int); let q = t / (u as int); assert(0 <= q < B()) by(nonlinear_arith) requires t == u * q + t % (u as int), 0 <= t % (u as int) < u, 0 <= t < B() * u, u >= 2; }
@hint loop 0 end
let M1 = m(h@, sb); let s1 = A.subrange(k0, n); let s2 = M1.subrange(k0, n); val_cons(s1); val_cons(s2); assert(s1.subrange(1, n - k0) =~= A.subrange(k0 + 1, n)); assert(s2.subrange(1, n - k0) =~= M0.subrange(k0 + 1, n));
assert(M1 =~= M0.update(k0, M1[k0])); let t = y0 * B() + A[k0]; let q = M1[k0] as int; assert(t == u * q + y); let z = val(M0.subrange(k0 + 1, n)); 
assert(A[k0] + B() * (z * u + y0) == (q + B() * z) * u + y) by(nonlinear_arith) requires y0 * B() + A[k0] == u * q + y;
@ghost loop 0 after
let ghost g3 = h@; let ghost QF = m(g3, sb); let ghost yf = y as int;
proof { chg_only2(g2, g3, sb, sb, sb); x_step(h0, g2, g3, W, E, one(sb).insert(sb).insert(sb)); assert(A.subrange(0, n) =~= A); assert(QF.subrange(0, n) =~= QF); assert(val(A) == val(QF) * u + yf); val_bound(QF); let x = val(QF); assert((-x) * u == -(x * u)) by(nonlinear_arith); }
@ghost after detail_eraseZerosSuffix_rS 0
let ghost g4 = h@; proof { chg_frX(g3, g4, sb); x_step(h0, g3, g4, W, E, one(sb)); assert(fl(g4, b) == fl(g1, b)); val_one(mg(g4, b)); assert(0 * u as int == 0); }
@ghost after Big_beZero 2
proof { chg_frB(g4, h@, b); x_step(h0, g4, h@, W, E, one(sb)); }
@ghost after Big_setFlagsToPositive 1
proof { chg_flB(g4, h@, b); x_step(h0, g4, h@, W, E, one(sb)); binv_pos(h@, b); }
@ghost after Big_setFlagsToNegative 1
proof { chg_flB(g4, h@, b); x_step(h0, g4, h@, W, E, one(sb)); }
@ghost before Big_assign_i64 0
let ghost g5 = h@; proof { assert(binv(g5, b)); assert(v(h0, b) == v(g5, b) * u + (if v(h0, b) > 0 { yf } else { -yf })); }
@ghost after Big_assign_i64 0
let ghost g6 = h@; proof { chg_frB(g5, g6, r); x_step(h0, g5, g6, W, E, one(sr)); val_one(mg(g6, r)); val_bound(mg(g6, r)); assert(yf < B()); }
@ghost after Big_setFlagsToPositive 2
proof { chg_flB(g6, h@, r); x_step(h0, g6, h@, W, E, one(sr)); }
@ghost after Big_setFlagsToNegative 2
proof { chg_flB(g6, h@, r); x_step(h0, g6, h@, W, E, one(sr)); }
@ghost before status_set 1
let ghost g7 = h@; proof { assert(binv(g7, r) && v(g7, r) == (if v(h0, b) > 0 { yf } else { -yf })); assert(binv(g7, b) && v(g7, b) == v(g5, b)); }
@ghost after status_set 1
proof { chg_st(g7, h@, E); x_step(h0, g7, h@, W, E, E); x_end(h0, h@, W, E); }
@fn Big_div_rB_rB_B_B(q, r, a, b) @hide(nuX, crB, crS, oth2, frB2, flB, frX, frB, frS, crV, kiV, nuN, chg, cmono, wf, m, excl, fnz, keepX, v, binv)
requires wf(h0), liveb(h0, q), liveb(h0, r), binv(h0, a), binv(h0, b), q != r, q != b
ensures
[value] v(h0, b) != 0 ==> v(h0, a) == v(h1, q) * v(h0, b) + v(h1, r), v(h0, b) != 0 && v(h0, a) >= 0 ==> 0 <= v(h1, r) < iabs(v(h0, b)), v(h0, b) != 0 && v(h0, a) <= 0 ==> -iabs(v(h0, b)) < v(h1, r) <= 0
[canon] v(h0, b) != 0 ==> binv(h1, q) && binv(h1, r)
[frame] v(h0, b) != 0 ==> chg(h0, h1, one(SRef::Mag(q)).insert(SRef::Mag(r))), v(h0, b) == 0 ==> chg(h0, h1, Set::empty())
[value] v(h0, b) == 0 ==> h1.st == 1, v(h0, b) != 0 ==> h1.st == h0.st || h1.st == 0
@ghost entry
let ghost sq = SRef::Mag(q); let ghost sr = SRef::Mag(r); let ghost W = one(sq).insert(sr); let ghost E = Set::<SRef>::empty(); let ghost A = mg(h0, a); let ghost Y = mg(h0, b); let ghost va = v(h0, a); let ghost vb = v(h0, b);
proof { x_0(h0, E); bsg(h0, a); bsg(h0, b); val_one(A); val_bound(A); val_one(Y); val_bound(Y); assert(W.contains(sq) && W.contains(sr)); assert(0 * vb == 0); assert(1 * vb == vb && -1 * vb == -vb); assert(0 * val(Y) == 0); }
@ghost after Big_ctor_B 0
let ghost g1 = h@; let ghost sd = SRef::Mag(dividend); let ghost n1 = E.insert(sd);
proof { x_new(h0, h0, g1, E, E, dividend); kp4(h0, g1, one(SRef::Mag(dividend)), q, r, a, b); }
@ghost after Big_ctor_B 1
let ghost g2 = h@; let ghost sv = SRef::Mag(divisor); let ghost n2 = n1.insert(sv); let ghost n3 = n2.remove(sv); let ghost n4 = n3.remove(sd);
proof { x_new(h0, g1, g2, E, n1, divisor); kp4(g1, g2, one(SRef::Mag(divisor)), q, r, a, b); kp2(g1, g2, one(SRef::Mag(divisor)), dividend, divisor); assert(n2.contains(sv) && n2.contains(sd) && n3.contains(sd)); assert forall |s: SRef| !n4.contains(s) by { } }
@ghost after Big_setFlagsToPositive 0
let ghost g3 = h@; proof { if A.len() > 0 { } bsg(g2, dividend); bsg(g2, divisor); chg_flB(g2, g3, dividend); x_step(h0, g2, g3, E, n2, one(sd)); kp4(g2, g3, one(sd), q, r, a, b); kp2(g2, g3, one(sd), dividend, divisor); }
@ghost after Big_setFlagsToPositive 1
let ghost g4 = h@; proof { chg_flB(g3, g4, divisor); x_step(h0, g3, g4, E, n2, one(sv)); kp4(g3, g4, one(sv), q, r, a, b); kp2(g3, g4, one(sv), dividend, divisor);
 x_weak(h0, g4, E, W, n2);
 assert(liveb(g1, q) && liveb(g1, r) && liveb(g1, a) && liveb(g1, b) && liveb(g1, dividend));
 assert(liveb(g2, q) && liveb(g2, r) && liveb(g2, a) && liveb(g2, b) && liveb(g2, dividend) && liveb(g2, divisor));
 assert(liveb(g4, q) && liveb(g4, r));
 assert(sd != sq && sd != sr && sv != sq && sv != sr && sv != sd);
 assert(v(g4, a) == va && v(g4, b) == vb && mg(g4, b) == Y && mg(g4, a) == A && binv(g4, a) && binv(g4, b));
 assert(mg(g4, dividend) == A && mg(g4, divisor) == Y); assert(g4.st == h0.st); 
 assert(fl(g4, dividend) == fl(g3, dividend));
 assert(fb2(fl(g4, dividend)) && f1(fl(g4, dividend)) && fb2(fl(g4, divisor)) && f1(fl(g4, divisor))); 
 cnt_len(g4, SRef::Mag(b)); cnt_len(g4, sd); cnt_len(g4, sv); if A.len() > 0 { pos_b(g4, dividend); } if Y.len() > 0 { pos_b(g4, divisor); } }
@ghost after status_set 0
let ghost z1 = h@; proof { chg_st(g4, z1, E); x_step(h0, g4, z1, E, n2, E); kp4(g4, z1, E, q, r, b, divisor); }
@ghost after big_kill 0
let ghost z2 = h@; proof { x_kill(h0, z1, z2, E, n2, divisor); kp2(z1, z2, one(SRef::Mag(divisor)), q, r); }
@ghost after big_kill 1
proof { x_kill(h0, z2, h@, E, n3, dividend); kp2(z2, h@, one(SRef::Mag(dividend)), q, r); x_end(h0, h@, E, n4); }
@ghost after Big_beZero 0
let ghost a1 = h@; proof { chg_frB(g4, a1, q); x_step(h0, g4, a1, W, n2, one(sq)); kp4(g4, a1, one(sq), q, r, b, divisor); }
@ghost after Big_beZero 1
let ghost a2 = h@; proof { chg_frB(a1, a2, r); x_step(h0, a1, a2, W, n2, one(sr)); kp2(a1, a2, one(sr), q, r); assert(v(a2, q) == 0 && binv(a2, q)); }
@ghost after big_kill 2
let ghost a3 = h@; proof { x_kill(h0, a2, a3, W, n2, divisor); kp2(a2, a3, one(SRef::Mag(divisor)), q, r); }
@ghost after big_kill 3
proof { x_kill(h0, a3, h@, W, n3, dividend); kp2(a3, h@, one(SRef::Mag(dividend)), q, r); x_end(h0, h@, W, n4); }
@ghost after Big_assign_B 0
let ghost b1 = h@; proof { chg_frB(g4, b1, q); x_step(h0, g4, b1, W, n2, one(sq)); kp4(g4, b1, one(sq), q, r, b, divisor); assert(v(b1, q) == va); assert(binv(b1, b) && mg(b1, b) == Y && liveb(b1, r)); val_1(Y); it_at(b1, SRef::Mag(b), 0); }
@hint before Big_divideAssignAndReminderByU32_u32_rB 0
assert(Y.len() == 1);
assert(Y[0] == val(Y) && m(b1, SRef::Mag(b))[0] == Y[0]);
assert(b1 == h@);
@ghost after Big_divideAssignAndReminderByU32_u32_rB 0
let ghost b2 = h@; let ghost kq = v(b2, q); let ghost kr = v(b2, r); let ghost qq = if vb > 0 { kq } else { -kq };
proof { d1(va, kq, kr, val(Y), vb); assert(va == qq * vb + kr); x_step(h0, b1, b2, W, n2, one(sq).insert(sr)); }
@ghost after Big_setFlagsToPositive 2
proof { bsg(b2, q); bsg(b2, r); sg(b2, h@, q); x_step(h0, b2, h@, W, n2, one(sq)); kp2(b2, h@, one(sq), q, r); }
@ghost after Big_setFlagsToNegative 0
proof { bsg(b2, q); bsg(b2, r); sg(b2, h@, q); x_step(h0, b2, h@, W, n2, one(sq)); kp2(b2, h@, one(sq), q, r); }
@ghost before Big_flagsContains_u32 5
let ghost b3 = h@; proof { if b3 != b2 { } bsg(b2, q); bsg(b2, r);
  assert(v(b3, q) == qq);
  assert(binv(b3, q));
  assert(v(b3, r) == v(b2, r) && binv(b3, r) && mg(b3, r) == mg(b2, r)); }
@ghost after Big_setFlagsToNegative 1
proof { bsg(b3, r); sg(b3, h@, r); x_step(h0, b3, h@, W, n2, one(sr)); kp2(b3, h@, one(sr), q, r); }
@ghost after Big_setFlagsToPositive 3
proof { bsg(b3, r); sg(b3, h@, r); x_step(h0, b3, h@, W, n2, one(sr)); kp2(b3, h@, one(sr), q, r); }
@ghost before big_kill 4
let ghost b4 = h@; proof { bsg(b3, r);
  assert(v(b4, r) == v(b2, r) && binv(b4, r));
  assert(v(b4, q) == v(b3, q) && binv(b4, q)); }
@ghost after big_kill 4
let ghost b5 = h@; proof { x_kill(h0, b4, b5, W, n2, divisor); kp2(b4, b5, one(SRef::Mag(divisor)), q, r); }
@ghost after big_kill 5
proof { x_kill(h0, b5, h@, W, n3, dividend); kp2(b5, h@, one(SRef::Mag(dividend)), q, r); x_end(h0, h@, W, n4); }
@ghost after Big_beOne 0
proof { chg_frB(g4, h@, q); x_step(h0, g4, h@, W, n2, one(sq)); kp4(g4, h@, one(sq), q, r, b, divisor); }
@ghost after Big_beNegOne 0
proof { chg_frB(g4, h@, q); x_step(h0, g4, h@, W, n2, one(sq)); kp4(g4, h@, one(sq), q, r, b, divisor); }
@ghost before Big_beZero 2
let ghost c1 = h@; proof { assert(v(c1, q) == (if (va > 0) == (vb > 0) { 1int } else { -1int })); }
@ghost after Big_beZero 2
let ghost c2 = h@; proof { chg_frB(c1, c2, r); x_step(h0, c1, c2, W, n2, one(sr)); kp2(c1, c2, one(sr), q, r); assert(v(c2, q) == v(c1, q) && binv(c2, q)); }
@ghost after Big_beZero 3
let ghost d1 = h@; proof { chg_frB(g4, d1, q); x_step(h0, g4, d1, W, n2, one(sq)); kp4(g4, d1, one(sq), q, r, b, dividend); }
@ghost after Big_assign_B 1
let ghost d2 = h@; proof { assert(mg(d2, r) == A && binv(d2, r)); bsg(d2, r); chg_frB(d1, d2, r); x_step(h0, d1, d2, W, n2, one(sr)); kp2(d1, d2, one(sr), q, r); assert(v(d2, q) == 0 && binv(d2, q)); }
@ghost after Big_setFlagsToPositive 4
proof { sg(d2, h@, r); x_step(h0, d2, h@, W, n2, one(sr)); kp2(d2, h@, one(sr), q, r); }
@ghost after Big_setFlagsToNegative 2
proof { sg(d2, h@, r); x_step(h0, d2, h@, W, n2, one(sr)); kp2(d2, h@, one(sr), q, r); }
@ghost before big_kill 6
let ghost c3 = h@; proof {
  assert(binv(c3, q) && binv(c3, r));
  assert(v(c3, r) == (if val(A) == val(Y) { 0 } else { va })); }
@ghost after big_kill 6
let ghost c4 = h@; proof { x_kill(h0, c3, c4, W, n2, divisor); kp2(c3, c4, one(SRef::Mag(divisor)), q, r); }
@ghost after big_kill 7
proof { x_kill(h0, c4, h@, W, n3, dividend); kp2(c4, h@, one(SRef::Mag(dividend)), q, r); x_end(h0, h@, W, n4); }
@ghost before Slice_count 1
proof { norm_cmp(A, Y); assert(Y.len() >= 2); assert(val(A) > val(Y)); }
@ghost after Big_beginWrite 0
let ghost e1 = h@; proof { chg_flB(g4, e1, dividend); x_step(h0, g4, e1, W, n2, one(sd)); kp4(g4, e1, one(sd), q, r, b, divisor); }
@ghost after Slice_cloneData 0
let ghost e2 = h@; proof { chg_frX(e1, e2, sd); x_step(h0, e1, e2, W, n2, one(sd)); kp4(e1, e2, one(sd), q, r, dividend, divisor);
  assert(mg(e2, dividend) == A);
  assert(binv(e2, divisor) && mg(e2, divisor) == Y); cnt_len(e2, sd); cnt_len(e2, sv); }
@ghost after Slice_append_u32 0
proof { let x = A.push(0u32); val_top0(x); assert(x.subrange(0, x.len() - 1) =~= A); excl_frS(e2, h@, sd); x_step(h0, e2, h@, W, n2, one(sd)); kp4(e2, h@, one(sd), q, r, dividend, divisor); cnt_len(h@, sd); cnt_len(h@, sv); }
@ghost before Big_knuthDivImpl_rB_rB_B_B 0
let ghost e3 = h@; proof { bsg(e3, divisor); lz0(e3, dividend);
  assert(mv(e3, dividend) == val(A));
  assert(fl(e3, dividend) == fl(e1, dividend));
  assert(binw(e3, dividend));
  assert(binv(e3, divisor) && mg(e3, divisor) == Y && fl(e3, divisor) == fl(g4, divisor));
  assert(liveb(e3, q) && liveb(e3, r)); }
@ghost after Big_knuthDivImpl_rB_rB_B_B 0
let ghost e4 = h@; proof { x_step(h0, e3, e4, W, n2, one(sq).insert(sr).insert(sd)); kp4(e3, e4, one(sq).insert(sr).insert(sd), q, r, dividend, divisor); let u = val(Y); let k = v(e4, q); assert(k * (-u) == -(k * u)) by(nonlinear_arith); assert((-k) * u == -(k * u)) by(nonlinear_arith); assert((-k) * (-u) == k * u) by(nonlinear_arith);
  assert(vb == u || vb == -u); assert(k > 0) by(nonlinear_arith) requires val(A) == k * u + v(e4, r), v(e4, r) < u, val(A) > u, u >= 1; }
@ghost after Big_setFlagsToPositive 5
proof { bsg(e4, q); sg(e4, h@, q); x_step(h0, e4, h@, W, n2, one(sq)); kp4(e4, h@, one(sq), q, r, dividend, divisor); }
@ghost after Big_setFlagsToNegative 3
proof { bsg(e4, q); sg(e4, h@, q); x_step(h0, e4, h@, W, n2, one(sq)); kp4(e4, h@, one(sq), q, r, dividend, divisor); }
@ghost before Big_flagsContains_u32 6
let ghost e5 = h@; proof {
  assert(v(e5, q) == (if (va > 0) == (vb > 0) { v(e4, q) } else { -v(e4, q) }));
  assert(binv(e5, q));
  assert(v(e5, r) == v(e4, r) && binv(e5, r) && mg(e5, r) == mg(e4, r)); 
  assert(v(e5, q) * vb == (if va > 0 { v(e4, q) * val(Y) } else { -(v(e4, q) * val(Y)) })); }
@ghost after Big_setFlagsToNegative 4
proof { bsg(e5, r); sg(e5, h@, r); x_step(h0, e5, h@, W, n2, one(sr)); kp4(e5, h@, one(sr), q, r, dividend, divisor); }
@ghost after Big_setFlagsToPositive 6
proof { bsg(e5, r); sg(e5, h@, r); x_step(h0, e5, h@, W, n2, one(sr)); kp4(e5, h@, one(sr), q, r, dividend, divisor); }
@ghost before status_set 1
let ghost e6 = h@; proof { bsg(e5, r);
  assert(v(e6, r) == (if va > 0 { v(e4, r) } else { -v(e4, r) }) && binv(e6, r));
  assert(v(e6, q) == v(e5, q) && binv(e6, q)); }
@ghost after status_set 1
let ghost e7 = h@; proof { chg_st(e6, e7, E); x_step(h0, e6, e7, W, n2, E); kp4(e6, e7, E, q, r, dividend, divisor); assert(v(e7, r) == v(e6, r) && binv(e7, r)); assert(v(e7, q) == v(e5, q) && binv(e7, q)); }
@ghost after big_kill 8
let ghost e8 = h@; proof { x_kill(h0, e7, e8, W, n2, divisor); kp4(e7, e8, one(SRef::Mag(divisor)), q, r, dividend, divisor); }
@ghost after big_kill 9
proof { x_kill(h0, e8, h@, W, n3, dividend); kp4(e8, h@, one(SRef::Mag(dividend)), q, r, dividend, divisor); x_end(h0, h@, W, n4);
  assert(v(h@, q) == v(e5, q) && v(h@, r) == v(e6, r));
  assert(va == v(h@, q) * vb + v(h@, r)); }
@fn Big_divAssign_B(b, o) @hide(nuX, crB, crS, oth2, frB2, flB, frX, frB, frS, crV, kiV, nuN, chg, cmono, wf, m, excl, fnz)
requires wf(h0), binv(h0, b), binv(h0, o)
ensures
[value] v(h0, o) != 0 ==> v(h1, b) == tdiv(v(h0, b), v(h0, o)), v(h0, o) == 0 ==> h1.st == 1, v(h0, o) != 0 ==> h1.st == h0.st || h1.st == 0
[canon] binv(h1, b)
[frame] chg(h0, h1, one(SRef::Mag(b)))
@ghost entry
let ghost sb = SRef::Mag(b); let ghost W = one(sb); let ghost E = Set::<SRef>::empty(); let ghost va = v(h0, b); let ghost vo = v(h0, o);
proof { x_0(h0, W); }
@ghost after Big_ctor 0
let ghost g1 = h@; let ghost sr = SRef::Mag(r); let ghost n1 = E.insert(sr); proof { x_new(h0, h0, g1, W, E, r); }
@ghost after Big_ctor 1
let ghost g2 = h@; let ghost sq = SRef::Mag(q); let ghost n2 = n1.insert(sq); let ghost n3 = n2.remove(sq); let ghost n4 = n3.remove(sr); proof { x_new(h0, g1, g2, W, n1, q); assert(v(g2, b) == va && v(g2, o) == vo && binv(g2, b) && binv(g2, o)); }
@ghost after Big_div_rB_rB_B_B 0
let ghost g3 = h@; proof { let D = if vo != 0 { one(sq).insert(sr) } else { E }; x_step(h0, g2, g3, W, n2, D); if vo != 0 { tuniq(va, vo, v(g3, q), v(g3, r)); } assert(binv(g3, q)); assert(liveb(g3, b)); }
@ghost after Big_assign_mB 0
let ghost g4 = h@; proof { chg_frB2(g3, g4, b, q); x_step(h0, g3, g4, W, n2, one(sb).insert(sq)); }
@ghost after big_kill 0
let ghost g5 = h@; proof { x_kill(h0, g4, g5, W, n2, q); }
@ghost after big_kill 1
proof { x_kill(h0, g5, h@, W, n3, r); assert forall |s: SRef| !n4.contains(s) by { } x_end(h0, h@, W, n4); }
@fn Big_divAssign_i64(b, i64) @hide(nuX, crB, crS, oth2, frB2, flB, frX, frB, frS, crV, kiV, nuN, chg, cmono, wf, m, excl, fnz)
requires wf(h0), binv(h0, b)
ensures
[value] i64 != 0 ==> v(h1, b) == tdiv(v(h0, b), i64 as int), i64 == 0 ==> h1.st == 1, i64 != 0 ==> h1.st == h0.st || h1.st == 0
[canon] binv(h1, b)
[frame] chg(h0, h1, one(SRef::Mag(b)))
@ghost entry
let ghost W = one(SRef::Mag(b)); let ghost E = Set::<SRef>::empty(); proof { x_0(h0, W); }
@ghost after Big_ctor_i64 0
let ghost g1 = h@; let ghost tb = $0; let ghost n1 = E.insert(SRef::Mag(tb)); proof { x_new(h0, h0, g1, W, E, tb); }
@ghost after Big_divAssign_B 0
let ghost g2 = h@; proof { x_step(h0, g1, g2, W, n1, W); assert(liveb(g2, tb)); }
@ghost after big_kill 0
proof { x_kill(h0, g2, h@, W, n1, tb); let z = n1.remove(SRef::Mag(tb)); assert forall |s: SRef| !z.contains(s) by { } x_end(h0, h@, W, z); }
@fn Big_divideAssignAndReminder_B_rB(b, o, r) @hide(nuX, crB, crS, oth2, frB2, flB, frX, frB, frS, crV, kiV, nuN, chg, cmono, wf, m, excl, fnz)
requires wf(h0), binv(h0, b), liveb(h0, r), binv(h0, o)
ensures
[value] v(h0, o) != 0 ==> v(h1, b) == tdiv(v(h0, b), v(h0, o)), v(h0, o) != 0 && b != r ==> v(h1, r) == trem(v(h0, b), v(h0, o)), v(h0, o) == 0 ==> h1.st == 1, v(h0, o) != 0 ==> h1.st == h0.st || h1.st == 0
[canon] binv(h1, b), v(h0, o) != 0 ==> binv(h1, r), binv(h0, r) ==> binv(h1, r)
[frame] chg(h0, h1, one(SRef::Mag(b)).insert(SRef::Mag(r))), v(h0, o) == 0 && b != r ==> v(h1, r) == v(h0, r)
@ghost entry
let ghost sb = SRef::Mag(b); let ghost so = SRef::Mag(r); let ghost W = one(sb).insert(so); let ghost E = Set::<SRef>::empty(); let ghost va = v(h0, b); let ghost vo = v(h0, o);
proof { x_0(h0, W); assert(W.contains(sb) && W.contains(so)); }
@ghost after Big_ctor 0
let ghost g1 = h@; let ghost sr = SRef::Mag(result); let ghost n1 = E.insert(sr); proof { x_new(h0, h0, g1, W, E, result); assert(v(g1, b) == va && binv(g1, b)); }
@ghost after Big_div_rB_rB_B_B 0
let ghost g4 = h@; proof { let D = if vo != 0 { one(SRef::Mag(result)).insert(SRef::Mag(r)) } else { E }; x_step(h0, g1, g4, W, n1, D); if vo != 0 { tuniq(va, vo, v(g4, result), v(g4, r)); } assert(binv(g4, result)); assert(liveb(g4, b)); }
@ghost after Big_assign_mB 0
let ghost g5 = h@; proof { chg_frB2(g4, g5, b, result); x_step(h0, g4, g5, W, n1, one(sb).insert(sr)); }
@ghost after big_kill 0
proof { x_kill(h0, g5, h@, W, n1, result); let z = n1.remove(sr); assert forall |s: SRef| !z.contains(s) by { } x_end(h0, h@, W, z); }
@fn Big_divideAssignAndReminder_i64_rB(b, i64, r) @hide(nuX, crB, crS, oth2, frB2, flB, frX, frB, frS, crV, kiV, nuN, chg, cmono, wf, m, excl, fnz)
requires wf(h0), binv(h0, b), liveb(h0, r)
ensures
[value] i64 as int != 0 ==> v(h1, b) == tdiv(v(h0, b), i64 as int), i64 as int != 0 && b != r ==> v(h1, r) == trem(v(h0, b), i64 as int), i64 as int == 0 ==> h1.st == 1, i64 as int != 0 ==> h1.st == h0.st || h1.st == 0
[canon] binv(h1, b), i64 as int != 0 ==> binv(h1, r), binv(h0, r) ==> binv(h1, r)
[frame] chg(h0, h1, one(SRef::Mag(b)).insert(SRef::Mag(r))), i64 as int == 0 && b != r ==> v(h1, r) == v(h0, r)
@ghost entry
let ghost sb = SRef::Mag(b); let ghost so = SRef::Mag(r); let ghost W = one(sb).insert(so); let ghost E = Set::<SRef>::empty(); let ghost va = v(h0, b); let ghost vo = i64 as int;
proof { x_0(h0, W); assert(W.contains(sb) && W.contains(so)); }
@ghost after Big_ctor 0
let ghost g1 = h@; let ghost sr = SRef::Mag(result); let ghost n1 = E.insert(sr); proof { x_new(h0, h0, g1, W, E, result); assert(v(g1, b) == va && binv(g1, b)); }
@ghost after Big_ctor_i64 0
let ghost g2 = h@; let ghost tb = $0; let ghost stb = SRef::Mag(tb); let ghost n2 = n1.insert(stb); proof { x_new(h0, g1, g2, W, n1, tb); assert(v(g2, b) == va && binv(g2, b)); assert(liveb(g2, r)); assert(v(g2, tb) == i64); }
@ghost after Big_div_rB_rB_B_B 0
let ghost g3 = h@; proof { let D = if vo != 0 { one(SRef::Mag(result)).insert(SRef::Mag(r)) } else { E }; x_step(h0, g2, g3, W, n2, D); if vo != 0 { tuniq(va, vo, v(g3, result), v(g3, r)); } assert(binv(g3, result)); assert(liveb(g3, b) && liveb(g3, r)); assert(liveb(g3, tb)); }
@ghost after big_kill 0
let ghost g4 = h@; proof { x_kill(h0, g3, g4, W, n2, tb); assert(n2.remove(stb) =~= n1); assert(v(g4, result) == v(g3, result) && binv(g4, result)); assert(liveb(g4, b)); }
@ghost after Big_assign_mB 0
let ghost g5 = h@; proof { chg_frB2(g4, g5, b, result); x_step(h0, g4, g5, W, n1, one(sb).insert(sr)); }
@ghost after big_kill 1
proof { x_kill(h0, g5, h@, W, n1, result); let z = n1.remove(sr); assert forall |s: SRef| !z.contains(s) by { } x_end(h0, h@, W, z); }
@fn Big_modAssignAndQuotient_B_rB(b, o, q) @hide(nuX, crB, crS, oth2, frB2, flB, frX, frB, frS, crV, kiV, nuN, chg, cmono, wf, m, excl, fnz)
requires wf(h0), binv(h0, b), liveb(h0, q), binv(h0, o), q != o
ensures
[value] v(h0, o) != 0 ==> v(h1, b) == trem(v(h0, b), v(h0, o)), v(h0, o) != 0 && b != q ==> v(h1, q) == tdiv(v(h0, b), v(h0, o)), v(h0, o) == 0 ==> h1.st == 1, v(h0, o) != 0 ==> h1.st == h0.st || h1.st == 0
[canon] binv(h1, b), v(h0, o) != 0 ==> binv(h1, q), binv(h0, q) ==> binv(h1, q)
[frame] chg(h0, h1, one(SRef::Mag(b)).insert(SRef::Mag(q))), v(h0, o) == 0 && b != q ==> v(h1, q) == v(h0, q)
@ghost entry
let ghost sb = SRef::Mag(b); let ghost so = SRef::Mag(q); let ghost W = one(sb).insert(so); let ghost E = Set::<SRef>::empty(); let ghost va = v(h0, b); let ghost vo = v(h0, o);
proof { x_0(h0, W); assert(W.contains(sb) && W.contains(so)); }
@ghost after Big_ctor 0
let ghost g1 = h@; let ghost sr = SRef::Mag(result); let ghost n1 = E.insert(sr); proof { x_new(h0, h0, g1, W, E, result); assert(v(g1, b) == va && binv(g1, b)); }
@ghost after Big_div_rB_rB_B_B 0
let ghost g4 = h@; proof { let D = if vo != 0 { one(SRef::Mag(q)).insert(SRef::Mag(result)) } else { E }; x_step(h0, g1, g4, W, n1, D); if vo != 0 { tuniq(va, vo, v(g4, q), v(g4, result)); } assert(binv(g4, result)); assert(liveb(g4, b)); }
@ghost after Big_assign_mB 0
let ghost g5 = h@; proof { chg_frB2(g4, g5, b, result); x_step(h0, g4, g5, W, n1, one(sb).insert(sr)); }
@ghost after big_kill 0
proof { x_kill(h0, g5, h@, W, n1, result); let z = n1.remove(sr); assert forall |s: SRef| !z.contains(s) by { } x_end(h0, h@, W, z); }
@fn Big_modAssignAndQuotient_i64_rB(b, i64, q) @hide(nuX, crB, crS, oth2, frB2, flB, frX, frB, frS, crV, kiV, nuN, chg, cmono, wf, m, excl, fnz)
requires wf(h0), binv(h0, b), liveb(h0, q)
ensures
[value] i64 as int != 0 ==> v(h1, b) == trem(v(h0, b), i64 as int), i64 as int != 0 && b != q ==> v(h1, q) == tdiv(v(h0, b), i64 as int), i64 as int == 0 ==> h1.st == 1, i64 as int != 0 ==> h1.st == h0.st || h1.st == 0
[canon] binv(h1, b), i64 as int != 0 ==> binv(h1, q), binv(h0, q) ==> binv(h1, q)
[frame] chg(h0, h1, one(SRef::Mag(b)).insert(SRef::Mag(q))), i64 as int == 0 && b != q ==> v(h1, q) == v(h0, q)
@ghost entry
let ghost sb = SRef::Mag(b); let ghost so = SRef::Mag(q); let ghost W = one(sb).insert(so); let ghost E = Set::<SRef>::empty(); let ghost va = v(h0, b); let ghost vo = i64 as int;
proof { x_0(h0, W); assert(W.contains(sb) && W.contains(so)); }
@ghost after Big_ctor 0
let ghost g1 = h@; let ghost sr = SRef::Mag(result); let ghost n1 = E.insert(sr); proof { x_new(h0, h0, g1, W, E, result); assert(v(g1, b) == va && binv(g1, b)); }
@ghost after Big_ctor_i64 0
let ghost g2 = h@; let ghost tb = $0; let ghost stb = SRef::Mag(tb); let ghost n2 = n1.insert(stb); proof { x_new(h0, g1, g2, W, n1, tb); assert(v(g2, b) == va && binv(g2, b)); assert(liveb(g2, q)); assert(v(g2, tb) == i64); }
@ghost after Big_div_rB_rB_B_B 0
let ghost g3 = h@; proof { let D = if vo != 0 { one(SRef::Mag(q)).insert(SRef::Mag(result)) } else { E }; x_step(h0, g2, g3, W, n2, D); if vo != 0 { tuniq(va, vo, v(g3, q), v(g3, result)); } assert(binv(g3, result)); assert(liveb(g3, b) && liveb(g3, q)); assert(liveb(g3, tb)); }
@ghost after big_kill 0
let ghost g4 = h@; proof { x_kill(h0, g3, g4, W, n2, tb); assert(n2.remove(stb) =~= n1); assert(v(g4, result) == v(g3, result) && binv(g4, result)); assert(liveb(g4, b)); }
@ghost after Big_assign_mB 0
let ghost g5 = h@; proof { chg_frB2(g4, g5, b, result); x_step(h0, g4, g5, W, n1, one(sb).insert(sr)); }
@ghost after big_kill 1
proof { x_kill(h0, g5, h@, W, n1, result); let z = n1.remove(sr); assert forall |s: SRef| !z.contains(s) by { } x_end(h0, h@, W, z); }
@fn Big_div_rB_rB_B_i64(q, r, a, i64) @hide(nuX, crB, crS, oth2, frB2, flB, frX, frB, frS, crV, kiV, nuN, chg, cmono, wf, m, excl, fnz)
requires wf(h0), binv(h0, a), liveb(h0, q), liveb(h0, r), q != r
ensures
[value] i64 != 0 ==> v(h1, q) == tdiv(v(h0, a), i64 as int), i64 != 0 ==> v(h1, r) == trem(v(h0, a), i64 as int), i64 == 0 ==> h1.st == 1, i64 != 0 ==> h1.st == h0.st || h1.st == 0
[canon] i64 != 0 ==> binv(h1, q) && binv(h1, r)
[frame] chg(h0, h1, one(SRef::Mag(q)).insert(SRef::Mag(r)))
@ghost entry
let ghost W = one(SRef::Mag(q)).insert(SRef::Mag(r)); let ghost E = Set::<SRef>::empty(); proof { x_0(h0, W); }
@ghost after Big_ctor_i64 0
let ghost g1 = h@; let ghost tb = $0; let ghost n1 = E.insert(SRef::Mag(tb)); proof { x_new(h0, h0, g1, W, E, tb); assert(v(g1, a) == v(h0, a) && binv(g1, a)); }
@ghost after Big_div_rB_rB_B_B 0
let ghost g2 = h@; proof { x_step(h0, g1, g2, W, n1, if i64 != 0 { W } else { E }); assert(liveb(g2, tb)); if i64 != 0 { tuniq(v(h0, a), i64 as int, v(g2, q), v(g2, r)); } }
@ghost after big_kill 0
proof { x_kill(h0, g2, h@, W, n1, tb); let z = n1.remove(SRef::Mag(tb)); assert forall |s: SRef| !z.contains(s) by { } x_end(h0, h@, W, z); }
