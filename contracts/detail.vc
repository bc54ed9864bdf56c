@fn detail_eraseZerosSuffix_rS(s)
requires wf(h0), live(h0, s)
ensures
[value] val(m(h1, s)) == val(m(h0, s)), m(h1, s).len() <= m(h0, s).len(), forall |k: int| 0 <= k < m(h1, s).len() ==> m(h1, s)[k] == m(h0, s)[k]
[canon] norm(m(h1, s))
[frame] upS(h0, h1, s), frX(h0, h1, s), h1.cells == h0.cells
@ghost entry
let ghost A = m(h0, s);
@loop 0
invariant iter.c@ == cell(h0, s), h0.sl[s].lo - 1 <= iter.i < h0.sl[s].hi
invariant forall |k: int| iter.i - h0.sl[s].lo < k < A.len() ==> A[k] == 0
decreases iter.i - h0.sl[s].lo + 1
@hint exit
let n = iter.i - h0.sl[s].lo + 1;
assert(m(h@, s) =~= A.subrange(0, n));
pv_tail0(A, n, A.len() as int); pv_ext(A, m(h@, s), n);

@fn detail_notPlusOne_rS_u64(s, firstNonZeroU32Index)
requires wf(h0), live(h0, s), cnt(h0, s) != 0, firstNonZeroU32Index <= cnt(h0, s)
ensures
[value] m(h1, s) =~= Seq::new(m(h0, s).len(), |k: int| if k < firstNonZeroU32Index { m(h0, s)[k] } else if k == firstNonZeroU32Index { (if m(h0, s)[k] == 0 { 0 } else { B() - m(h0, s)[k] }) as u32 } else { (B() - 1 - m(h0, s)[k]) as u32 })
[frame] upS(h0, h1, s), h1.sl == h0.sl
@ghost entry
let ghost A = m(h0, s); let ghost f = firstNonZeroU32Index as int;
@loop 0
invariant f < i <= cnt_, upS(h0, h@, s), h@.sl == h0.sl, m(h@, s).len() == cnt_
invariant forall |k: int| 0 <= k < f || i <= k < cnt_ ==> m(h@, s)[k] == A[k]
invariant m(h@, s)[f] == (if A[f] == 0 { 0 } else { B() - A[f] })
invariant forall |k: int| f < k < i ==> m(h@, s)[k] == B() - 1 - A[k]
decreases cnt_ - i

@fn detail_cmpMag_S_S(a, b) @pure
requires wf(h0), live(h0, a), live(h0, b), norm(m(h0, a)), norm(m(h0, b))
ensures
[value] RET == (if val(m(h0, a)) < val(m(h0, b)) { -1int } else if val(m(h0, a)) > val(m(h0, b)) { 1int } else { 0int })
@ghost entry
let ghost A = m(h0, a); let ghost Bs = m(h0, b);
proof { val_bound(A); val_bound(Bs); if A.len() > 0 { norm_iff(A); } if Bs.len() > 0 { norm_iff(Bs); } if A.len() < Bs.len() { pw_mono(A.len() as int, Bs.len() - 1); } if A.len() > Bs.len() { pw_mono(Bs.len() as int, A.len() - 1); } }
@loop 0
invariant 0 <= i < alen, forall |k: int| i < k < alen ==> A[k] == Bs[k]
decreases i
@hint loop 0 start
cmp_at(A, Bs, i as int);

@fn detail_addMag_rS_S(a, b)
requires wf(h0), live(h0, a), live(h0, b), excl(h0, a)
ensures
[value] val(m(h1, a)) == val(m(h0, a)) + val(m(h0, b))
[canon] norm(m(h0, a)) && norm(m(h0, b)) ==> norm(m(h1, a))
[frame] upS(h0, h1, a)
@ghost entry
let ghost A = m(h0, a); let ghost Bs = m(h0, b); let ghost N = if A.len() > Bs.len() { A.len() as int } else { Bs.len() as int };
let ghost A2 = ext0(A, N); let ghost B2 = ext0(Bs, N);
proof { val_ext0(A, N); val_ext0(Bs, N); pw_0(); val_bound(A); val_bound(Bs); }
@loop 0
invariant upS(h0, h@, a), i <= minlen, m(h@, a).len() == N, sum < 0x2_0000_0000, live(h@, temp)
invariant forall |k: int| i <= k < N ==> m(h@, a)[k] == A2[k]
[value] pv(m(h@, a), i as int) + (sum as int / B()) * pw(i as int) == pv(A2, i as int) + pv(B2, i as int)
decreases minlen - i
@ghost loop 0 body
let ghost P = m(h@, a); let ghost s0 = sum;
assert(m(h@, b)[i as int] == Bs[i as int]) by { if a == b { assert(A2[i as int] == A[i as int]); } else { assert(cell(h0, b) != cell(h0, a)); } }
@hint loop 0 end
pv_ext(P, m(h@, a), i - 1);
carry_step(i as int, A2[i - 1] as int, B2[i - 1] as int, s0 as int / B(), m(h@, a)[i - 1] as int, sum as int / B());
@loop 1
invariant upS(h0, h@, a), minlen <= i <= N, m(h@, a).len() == N, live(h@, temp)
invariant forall |k: int| i <= k < N ==> m(h@, a)[k] == A2[k]
[value] pv(m(h@, a), i as int) + (if carry { 1int } else { 0 }) * pw(i as int) == pv(A2, i as int) + pv(B2, i as int)
decreases N - i
@ghost loop 1 body
let ghost P = m(h@, a);
assert(m(h@, temp)[i as int] as int == A2[i as int] as int + B2[i as int] as int);
@hint loop 1 end
pv_ext(P, m(h@, a), i - 1);
carry_step(i as int, A2[i - 1] as int, B2[i - 1] as int, 1, m(h@, a)[i - 1] as int, if carry { 1 } else { 0 });
@ghost loop 1 after
let ghost P = m(h@, a); let ghost hP = h@;
@hint after Slice_append_u32 0
val_push(P, 1u32);
@hint exit
let R = m(h@, a);
if carry { pw_pos(N); }
else {
  assert forall |k: int| i <= k < N implies #[trigger] R[k] as int == A2[k] as int + B2[k] as int by {
  assert(P[k] == A2[k]);
  if temp != a { assert(cell(h0, b) != cell(h0, a)); assert(m(hP, b) == Bs); assert(m(hP, b)[k] == Bs[k]); assert(hP.cells[cell(hP, b)][hP.sl[b].lo + k] == Bs[k]); }
}
  pv_ext(P, R, i as int); pv_sum_tail(R, A2, B2, i as int, N);
  if norm(A) && norm(Bs) && N > 0 { norm_iff(R); if A.len() > 0 { norm_iff(A); } if Bs.len() > 0 { norm_iff(Bs); } }
}

@fn detail_subMag_rS_S(a, b)
requires wf(h0), live(h0, a), live(h0, b), excl(h0, a), cnt(h0, a) >= cnt(h0, b), val(m(h0, a)) >= val(m(h0, b))
ensures
[value] val(m(h1, a)) == val(m(h0, a)) - val(m(h0, b))
[frame] upS(h0, h1, a), h1.sl == h0.sl
@ghost entry
let ghost A = m(h0, a); let ghost Bs = m(h0, b); let ghost N = A.len() as int; let ghost B2 = ext0(Bs, N);
proof { val_ext0(Bs, N); pw_0(); }
@loop 0
invariant upS(h0, h@, a), h@.sl == h0.sl, i <= minlen, -B() <= diff < B()
invariant forall |k: int| i <= k < N ==> m(h@, a)[k] == A[k]
[value] pv(m(h@, a), i as int) + (diff as int / B()) * pw(i as int) == pv(A, i as int) - pv(B2, i as int)
decreases minlen - i
@ghost loop 0 body
let ghost P = m(h@, a); let ghost d0 = diff;
assert(m(h@, b)[i as int] == Bs[i as int]);
@hint loop 0 end
pv_ext(P, m(h@, a), i - 1);
carry_step(i as int, A[i - 1] as int, -(B2[i - 1] as int), d0 as int / B(), m(h@, a)[i - 1] as int, diff as int / B());
assert((-(B2[i - 1] as int)) * pw(i - 1) == -(B2[i - 1] as int * pw(i - 1))) by(nonlinear_arith);
@hint loop 1 before
let dd = diff as int / B(); assert(dd == -(if borrow { 1int } else { 0 }));
assert(dd * pw(i as int) == -((if borrow { 1int } else { 0 }) * pw(i as int))) by(nonlinear_arith) requires dd == -(if borrow { 1int } else { 0 });
@loop 1
invariant upS(h0, h@, a), h@.sl == h0.sl, minlen <= i <= N
invariant forall |k: int| i <= k < N ==> m(h@, a)[k] == A[k]
[value] pv(m(h@, a), i as int) - (if borrow { 1int } else { 0 }) * pw(i as int) == pv(A, i as int) - pv(B2, i as int)
decreases N - i
@ghost loop 1 body
let ghost P = m(h@, a);
@hint loop 1 end
pv_ext(P, m(h@, a), i - 1);
carry_step(i as int, A[i - 1] as int, -(B2[i - 1] as int), -1, m(h@, a)[i - 1] as int, if borrow { -1 } else { 0 });
assert((-(B2[i - 1] as int)) * pw(i - 1) == -(B2[i - 1] as int * pw(i - 1))) by(nonlinear_arith);
@hint exit
let R = m(h@, a);
pv_tail0(B2, i as int, N); pv_tail0(Bs, i as int, i as int);
val_bound(R); val_bound(A);
if borrow { assert(i == N); }
else { pv_same_tail(R, A, i as int, N); }

@fn detail_gradSchoolMulInplace_rS_u32(a, b)
requires wf(h0), live(h0, a), excl(h0, a), cnt(h0, a) > 0
ensures
[value] val(m(h1, a)) == val(m(h0, a)) * b
[canon] norm(m(h0, a)) && b != 0 ==> norm(m(h1, a))
[frame] upS(h0, h1, a)
@ghost entry
let ghost A = m(h0, a); let ghost N = A.len() as int;
proof { pw_0(); }
@loop 0
invariant upS(h0, h@, a), i <= alen, m(h@, a).len() == N, carry < B()
invariant forall |k: int| i <= k < N ==> m(h@, a)[k] == A[k]
[value] pv(m(h@, a), i as int) + carry as int * pw(i as int) == pv(A, i as int) * b
decreases alen - i
@ghost loop 0 body
let ghost P = m(h@, a); let ghost c0 = carry;
proof { assert(P[i as int] * b + c0 < U64()) by(nonlinear_arith) requires P[i as int] < B(), b < B(), c0 < B(); }
@hint loop 0 end
pv_ext(P, m(h@, a), i - 1);
let x = A[i - 1] as int * b; let r = m(h@, a)[i - 1] as int; let p = pw(i - 1); let q = pv(A, i - 1);
carry_step(i as int, x, 0, c0 as int, r, carry as int);
assert((q + A[i - 1] as int * p) * b == q * b + (A[i - 1] as int * b) * p) by(nonlinear_arith);
assert(0 * p == 0);
@ghost loop 0 after
let ghost P = m(h@, a);
@hint after Slice_append_u32 0
val_push(P, carry as u32);
@hint exit
if norm(A) && b != 0 {
  let R = m(h@, a);
  norm_iff(A); let va = val(A); val_bound(A); assert(va * b >= va) by(nonlinear_arith) requires va >= 0, b >= 1;
  if carry == 0 { assert(0 * pw(N) == 0); norm_iff(R); }
}
if carry == 0 { assert(0 * pw(N) == 0); }

@fn detail_gradeSchoolMul_S_S(r, a, b)
requires wf(h0), live(h0, a), live(h0, b), !live(h0, r), cnt(h0, a) > 0, cnt(h0, b) > 0
ensures
[value] val(m(h1, r)) == val(m(h0, a)) * val(m(h0, b)), cnt(h1, r) == cnt(h0, a) + cnt(h0, b)
[frame] wf(h1), crS(h0, h1, r), excl(h1, r)
@ghost entry
let ghost A = m(h0, a); let ghost Bs = m(h0, b); let ghost na = A.len() as int; let ghost nb = Bs.len() as int;
proof { pw_0(); }
@ghost loop 0 before
let ghost R0 = m(h@, result);
proof { pv_zeros(R0, nb); assert(0 * val(Bs) == 0); }
@loop 0
invariant wf(h@), crS(h0, h@, result), excl(h@, result), i <= alen, cnt(h@, result) == na + nb
invariant forall |k: int| i + nb <= k < na + nb ==> m(h@, result)[k] == 0
[value] pv(m(h@, result), i + nb) == pv(A, i as int) * val(Bs)
decreases alen - i
@ghost loop 0 body
let ghost Q = m(h@, result); let ghost ii = i as int;
assert(m(h@, a)[ii] == A[ii]);
proof { pv_tail0(Q, ii + nb, na + nb); }
@loop 1
invariant wf(h@), crS(h0, h@, result), excl(h@, result), j <= blen, k == i + j, i == ii, carry < B(), cnt(h@, result) == na + nb
invariant forall |t: int| (0 <= t < ii || k <= t < na + nb) ==> m(h@, result)[t] == Q[t]
[value] pv(m(h@, result), k as int) + carry as int * pw(k as int) == pv(Q, k as int) + pw(ii) * (A[ii] * pv(Bs, j as int))
decreases blen - j
@ghost loop 1 body
let ghost P = m(h@, result); let ghost c0 = carry;
assert(m(h@, a)[ii] == A[ii]); assert(m(h@, b)[j as int] == Bs[j as int]);
proof { assert(A[ii] * Bs[j as int] + P[k as int] + c0 < U64() && A[ii] * Bs[j as int] >= 0 && A[ii] * Bs[j as int] <= 0xffff_fffe_0000_0001) by(nonlinear_arith) requires A[ii] < B(), Bs[j as int] < B(), P[k as int] < B(), c0 < B(); }
@hint loop 1 before
assert(0 * pw(ii) == 0); assert(pw(ii) * (A[ii] * 0) == 0) by(nonlinear_arith);
@hint loop 1 end
pv_ext(P, m(h@, result), k - 1);
let x = A[ii] as int * Bs[j - 1] as int; let p = pw(k - 1);
carry_step(k as int, x, Q[k - 1] as int, c0 as int, m(h@, result)[k - 1] as int, carry as int);
pw_add(ii, j - 1);
let u = pv(Bs, j - 1); let y = Bs[j - 1] as int; let w = A[ii] as int; let e = pw(ii); let f = pw(j - 1);
assert(e * (w * (u + y * f)) == e * (w * u) + (w * y) * (e * f)) by(nonlinear_arith);
@ghost loop 1 after
let ghost P1 = m(h@, result); let ghost hP = h@;
@hint loop 0 end
let R = m(h@, result); let tp = ii + nb;
assert(R =~= P1.update(tp, carry as u32));
pv_ext(R, P1, tp);
assert forall |k: int| ii + 1 + nb <= k < na + nb implies R[k] == 0 by { assert(P1[k] == Q[k]); assert(Q[k] == 0); assert(R[k] == P1[k]); }
let w = A[ii] as int; let vb = val(Bs); let e = pw(ii); let q = pv(A, ii);
assert((q + w * e) * vb == q * vb + e * (w * vb)) by(nonlinear_arith);
@ghost before Slice_ctor_mS 0
let ghost hR = h@;
@ghost after Slice_ctor_mS 0
let ghost hC = h@;
@hint return
assert(h@.sl.dom() =~= h0.sl.dom().insert(r));
assert forall |s2: SRef| s2 != r && live(h0, s2) implies #[trigger] m(h@, s2) == m(h0, s2) by {
  assert(s2 != result); assert(m(hR, s2) == m(h0, s2)); assert(hR.sl[s2] == h0.sl[s2]); assert(m(hC, s2) == m(hR, s2)); assert(h@.sl[s2] == hC.sl[s2]); assert(h@.cells == hC.cells); }
assert(forall |s2: SRef| s2 != r && live(h0, s2) ==> #[trigger] h@.sl[s2] == h0.sl[s2]);
assert(forall |s2: SRef| s2 != r && live(h0, s2) ==> #[trigger] m(h@, s2) == m(h0, s2));

@fn detail_shlMag_rS_u64(a, n)
requires wf(h0), live(h0, a), excl(h0, a), cnt(h0, a) > 0
ensures
[value] val(m(h1, a)) == val(m(h0, a)) * p2(n as int)
[value] m(h1, a).len() >= m(h0, a).len(), 0 < n < 32 ==> m(h1, a).len() == m(h0, a).len() + (if m(h0, a)[m(h0, a).len() - 1] as int / p2(32 - n as int) == 0 { 0int } else { 1 }) && (m(h1, a).len() > m(h0, a).len() ==> m(h1, a)[m(h0, a).len() as int] == m(h0, a)[m(h0, a).len() - 1] as int / p2(32 - n as int))
[canon] norm(m(h0, a)) ==> norm(m(h1, a))
[frame] upS(h0, h1, a)
@ghost entry
let ghost A = m(h0, a); let ghost N = A.len() as int; let ghost K = n as int / 32; let ghost s = n as int % 32;
@loop 0
invariant upS(h0, h@, a), nU32s == K, nBits == s, s > 0, nLastBits == 32 - s, temp == A[N - 1] as int / p2(32 - s), K <= i <= N + K - 1
invariant m(h@, a).len() == N + K + (if temp == 0 { 0int } else { 1 }), temp != 0 ==> m(h@, a)[N + K] == temp
invariant forall |j: int| 0 <= j <= i && j < N ==> m(h@, a)[j] == A[j]
[value] forall |j: int| i < j <= N + K - 1 ==> #[trigger] m(h@, a)[j] == shll(A, s, j - K)
decreases i
@hint loop 0 body
lem_shl_or(A[i - K], A[i - K - 1], s as u64);
@hint exit
if s == 0 { val_concat(Seq::new(K as nat, |i: int| 0u32), A); pv_zeros(Seq::new(K as nat, |i: int| 0u32), K); p2_split(n as int); p2_0(); assert(val(A) * pw(K) == pw(K) * val(A)) by(nonlinear_arith); }
else { shl_val(A, m(h@, a), n as int); }

@fn detail_shrMag_rS_u64(a, n)
requires wf(h0), live(h0, a), excl(h0, a), cnt(h0, a) > 0
ensures
[value] val(m(h1, a)) == val(m(h0, a)) / p2(n as int)
[canon] norm(m(h0, a)) ==> norm(m(h1, a))
[frame] upS(h0, h1, a)
@ghost entry
let ghost A = m(h0, a); let ghost N = A.len() as int; let ghost K = n as int / 32; let ghost s = n as int % 32;
let ghost C = A.subrange(K, N);
@hint return 0
shr_small(A, n as int);
@hint return 1
shr_whole(A, n as int); assert(m(h@, a) =~= C);
@loop 0
invariant upS(h0, h@, a), i <= lMinu1, cnt(h@, a) == N - K
invariant forall |j: int| i <= j < N - K ==> m(h@, a)[j] == C[j]
[value] forall |j: int| 0 <= j < i ==> #[trigger] m(h@, a)[j] == shrl(C, s, j)
decreases lMinu1 - i
@hint loop 0 body
lem_shr_or(C[i as int], C[i + 1], s as u64);
@hint exit
if s != 0 {shr_val(A, C, m(h@, a), n as int); }

@fn detail_inc_rS(a)
requires wf(h0), live(h0, a), excl(h0, a), cnt(h0, a) > 0
ensures
[value] val(m(h1, a)) == val(m(h0, a)) + 1
[canon] norm(m(h0, a)) ==> norm(m(h1, a))
[frame] upS(h0, h1, a)
@ghost entry
let ghost A = m(h0, a); let ghost N = A.len() as int;
proof { pw_0(); }
@loop 0
invariant upS(h0, h@, a), i <= alen, cnt(h@, a) == N
invariant forall |k: int| i <= k < N ==> m(h@, a)[k] == A[k]
[value] pv(m(h@, a), i as int) + (if carry { 1int } else { 0 }) * pw(i as int) == pv(A, i as int) + 1
decreases alen - i
@ghost loop 0 body
let ghost P = m(h@, a);
@hint loop 0 end
pv_ext(P, m(h@, a), i - 1);
carry_step(i as int, A[i - 1] as int, 1, 0, m(h@, a)[i - 1] as int, if carry { 1 } else { 0 });
assert(0 * pw(i - 1) == 0); assert(1 * pw(i - 1) == pw(i - 1));
@ghost loop 0 after
let ghost P = m(h@, a); 
proof { pv_same_tail(P, A, i as int, N); assert(0 * pw(i as int) == 0); if carry { assert(1 * pw(N) == pw(N)); if N > 0 { pv_bound(P, N - 1); pv_bound(A, N); let d = P[N - 1] as int; let q = pw(N - 1); pw_step(N); assert(d * q <= 0) by(nonlinear_arith) requires d * q + pv(P, N - 1) + B() * q <= B() * q, pv(P, N - 1) >= 0; assert(d == 0) by(nonlinear_arith) requires d * q <= 0, d >= 0, q >= 1; } } }
@hint after Slice_append_u32 0
val_push(P, 1u32);
@hint exit
if norm(A) && !carry { norm_iff(A); norm_iff(m(h@, a)); }

@fn detail_dec_rS(a)
requires wf(h0), live(h0, a), excl(h0, a), cnt(h0, a) > 0, val(m(h0, a)) > 0
ensures
[value] val(m(h1, a)) == val(m(h0, a)) - 1
[canon] norm(m(h1, a))
[frame] upS(h0, h1, a)
@ghost entry
let ghost A = m(h0, a); let ghost N = A.len() as int;
proof { pw_0(); }
@loop 0
invariant upS(h0, h@, a), i <= alen, cnt(h@, a) == N
invariant forall |k: int| i <= k < N ==> m(h@, a)[k] == A[k]
[value] pv(m(h@, a), i as int) - (if borrow { 1int } else { 0 }) * pw(i as int) == pv(A, i as int) - 1
decreases alen - i
@ghost loop 0 body
let ghost P = m(h@, a);
@hint loop 0 end
pv_ext(P, m(h@, a), i - 1);
carry_step(i as int, A[i - 1] as int, 0, -1, m(h@, a)[i - 1] as int, if borrow { -1 } else { 0 });
assert(0 * pw(i - 1) == 0); assert((-1) * pw(i - 1) == -pw(i - 1)); assert((-1) * pw(i as int) == -pw(i as int)); assert(1 * pw(i as int) == pw(i as int)); assert(0 * pw(i as int) == 0);
@ghost loop 0 after
proof { pv_same_tail(m(h@, a), A, i as int, N); pv_bound(m(h@, a), N); assert(0 * pw(i as int) == 0);
if borrow { assert(1 * pw(N) == pw(N)); } }

@fn detail_getU32OfI64ByIndex_i64_u64(i64, n) @pure
ensures
[value] RET == tc(i64 as int, n as int)
@hint return 0
tc_0(n as int);
@hint return 1
tc_i64s(i64 as int, n as int);
@hint return 2
lem_i64w(i64, n);
