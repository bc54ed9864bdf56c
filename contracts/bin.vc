@fn Big_assign_pv_u64_bool(b, bin, len, little) @hide(kby, frB, frS, excl, ble, wf, tby, bset, zlb)
requires wf(h0), liveb(h0, b), brg(h0, bin.c@, bin.i as int, bin.i + len), len <= MAXN(), bin.i <= MAXN()
ensures
[value] RET == b, v(h1, b) == impv(h0.by[bin.c@].subrange(bin.i as int, bin.i + len), little)
[canon] binv(h1, b)
[frame] frB(h0, h1, b), h1.st == h0.st
@ghost entry
let ghost S = h0.by[bin.c@].subrange(bin.i as int, bin.i + len); let ghost T = lebytes(S, little); let ghost L = len as int; let ghost bi = bin.i as int; let ghost bc = bin.c@; let ghost neg = L > 0 && T[L - 1] >= 128;
@ghost after Big_beginWrite 0
let ghost g0 = h@;
proof { fl_wf(h0, g0, b); }
@ghost after Slice_cloneData 0
let ghost g1 = h@;
proof { kby_bw(h0, g0, h@, b); kby_u(h0, h@, b); }
@ghost after big_set_flags 0
let ghost g2 = h@;
proof { kby_fl(h0, g1, h@, b); kby_u(h0, h@, b); }
@hint return 0
kby_S(h0, g2, h@, b); kby_u(h0, h@, b); kby_end(h0, h@, b);
@hint after big_set_flags 1
kby_fl(h0, g1, h@, b); kby_u(h0, h@, b);
@loop 0
invariant bytes.c@ == bc, bi - 1 <= bytes.i < bi + L, forall |k: int| bytes.i - bi < k < L ==> T[k] == sgnb(neg)
decreases bytes.i - bi + 1
@hint loop 0 after
assert(stripped(T, bytes.i + 1 - bi, neg));
@hint after big_set_flags 2
kby_fl(h0, g1, h@, b); kby_u(h0, h@, b);
@loop 1
invariant bytes_2.c@ == bc, bi <= bytes_2.i <= bi + L, forall |k: int| 0 <= k < bytes_2.i - bi ==> S[k] == sgnb(neg)
decreases bi + L - bytes_2.i
@hint loop 1 after
assert(stripped(T, bi + L - bytes_2.i, neg));
@ghost before Slice_slice_u64_u64 1
let ghost g3 = h@;
proof { assert(stripped(T, 0, neg)); imp_strip(S, little, 0, neg); ble_zero(T, 0); p2_0(); }
@hint after Slice_slice_u64_u64 1
kby_S(h0, g3, h@, b); kby_u(h0, h@, b);
@ghost before it_set 0
let ghost g4 = h@;
@hint after it_set 0
kby_v(h0, g4, h@, b); kby_u(h0, h@, b); val_1(mg(h@, b));
@hint before big_set_flags 3
assert(stripped(T, 0, neg)); imp_strip(S, little, 0, neg); ble_zero(T, 0); p2_0();
@ghost after big_set_flags 3
let ghost g5 = h@;
proof { kby_fl(h0, g1, h@, b); kby_u(h0, h@, b); }
@hint after Slice_slice_u64_u64 2
kby_S(h0, g5, h@, b); kby_u(h0, h@, b);
@hint return 1
kby_end(h0, h@, b);
@ghost before Slice_slice_u64_u64 3
let ghost g6 = h@; let ghost n = len as int;
proof { assert(stripped(T, n, neg)); imp_strip(S, little, n, neg); assert(g6.by == h0.by && kby(h0, g6, b)); assert(fl(g6, b) == (if neg { 4u32 } else { 2u32 })); assert(forall |k: int| 0 <= k < n ==> #[trigger] h@.by[bc][bin.i + k] == (if little { T[k] } else { T[n - 1 - k] })); }
@ghost after Slice_slice_u64_u64 3
let ghost g7 = h@;
proof { kby_S(h0, g6, g7, b); kby_u(h0, g7, b); }
@ghost after memset_l 0
let ghost g8 = h@; let ghost C = cell(g8, SRef::Mag(b)); let ghost lo = g8.sl[SRef::Mag(b)].lo;
proof { kby_v(h0, g7, g8, b); kby_u(h0, g8, b); bset_z(m(g7, SRef::Mag(b)), m(g8, SRef::Mag(b)), t18_.i - g7.sl[SRef::Mag(b)].lo, bz(tlen as int, (0i32 as int % 256) as u8), tlen as int); }
@ghost after bp_malloc 0
let ghost g9 = h@;
proof { kby_by(h0, g8, g9, b); kby_u(h0, g9, b); }
@ghost after memcpy_bb 0
let ghost g10 = h@;
proof { tby_new(h0, g8, g10, src); kby_by(h0, g9, g10, b); kby_u(h0, g10, b); assert(forall |k: int| 0 <= k < n ==> #[trigger] g10.by[src.c@][k] == T[n - 1 - k]); }
@hint after bp_reverse 0
tby_set(h0, g10, h@, src); kby_by(h0, g10, h@, b); kby_u(h0, h@, b); assert(forall |k: int| 0 <= k < n ==> #[trigger] h@.by[src.c@][k] == T[k]);
@ghost before big_get_flags 3
let ghost g11 = h@;
proof { if temp_ptr.c@ == 0 { tby_0(h0, g11, temp_ptr); } assert(fl(g11, b) == (if neg { 4u32 } else { 2u32 })); assert(kby(h0, g11, b) && g11 == (HS { by: g11.by, ..g8 }) && tby(h0, g11, temp_ptr)); assert(forall |k: int| 0 <= k < n ==> #[trigger] g11.by[bin.c@][bin.i + k] == T[k]); assert(brg(g11, bin.c@, bin.i as int, bin.i + n)); assert(temp_ptr.c@ == 0 || temp_ptr == bin); assert(temp_ptr.c@ != 0 ==> g11.by[bin.c@].len() == n); }
@ghost after bp_malloc 1
let ghost g12 = h@;
proof { kby_by(h0, g11, g12, b); kby_u(h0, g12, b); }
@hint after memcpy_bb 1
kby_by(h0, g12, h@, b); kby_u(h0, h@, b);
@ghost loop 2 before
let ghost g13 = h@; let ghost tc = temp_ptr.c@;
proof { if g13 != g11 { tby_new(h0, g11, g13, temp_ptr); } else { tby_u(h0, g11, temp_ptr); } assert(tc != 0 && kby(h0, g13, b) && g13 == (HS { by: g13.by, ..g8 }) && tby(h0, g13, temp_ptr)); assert(g13.by[tc].len() == n); assert(forall |k: int| 0 <= k < n ==> #[trigger] g13.by[tc][k] == T[k]); }
@loop 2 iso
invariant h@ == g13, tc != 0, bytes_3.c@ == tc, bytes_3.i == 0, h@.by.dom().contains(tc), h@.by[tc].len() == n, n == len, n <= MAXN(), forall |k: int| 0 <= k < n ==> #[trigger] g13.by[tc][k] == T[k]
invariant 0 <= i <= n, forall |k: int| 0 <= k < i ==> T[k] == 0
exit i == n || T[i as int] != 0
decreases n - i
@hint after Slice_append_u32 0
kby_S(h0, g13, h@, b); kby_u(h0, h@, b); all_zero_a(T, n, mg(g8, b), mg(h@, b)); assert(v(h@, b) == -p2(8 * n));
@hint after it_set 1
kby_v(h0, g13, h@, b); kby_u(h0, h@, b); all_zero_b(T, n, mg(g8, b), mg(h@, b), (8 * (len % 4)) as u32); assert(v(h@, b) == -p2(8 * n));
@ghost before bp_free 0
let ghost g14 = h@;
proof { tby_st(h0, g13, g14, temp_ptr); tby_u(h0, g14, temp_ptr); }
@hint after bp_free 0
tby_u(h0, g14, temp_ptr); kby_by(h0, g14, h@, b); kby_u(h0, h@, b); kby_end(h0, h@, b);
@ghost before bp_set 0
let ghost f = i as int;
@hint after bp_set 0
tby_set(h0, g13, h@, temp_ptr); kby_by(h0, g13, h@, b); kby_u(h0, h@, b); assert(forall |k: int| 0 <= k < n ==> #[trigger] h@.by[tc][k] as int == (if k == f { 256 - T[f] } else { T[k] as int }));
@loop 3 iso
invariant tc != 0, bytes_3.c@ == tc, bytes_3.i == 0, temp_ptr.c@ == tc, h@.by.dom().contains(tc), n == len, n <= MAXN(), 0 <= f < n, T.len() >= n
invariant f < i <= n, h@ == (HS { by: h@.by, ..g8 }), kby(h0, h@, b), tby(h0, h@, temp_ptr), h@.by[tc].len() == n
invariant forall |k: int| 0 <= k < n ==> #[trigger] h@.by[tc][k] as int == (if k < f { T[k] as int } else if k == f { 256 - T[k] } else if k < i { 255 - T[k] } else { T[k] as int })
exit i == n
decreases n - i
@hint loop 3 body
lem_bnot(T[i as int] as i32);
@hint loop 3 end
tby_set(h0, hB3, h@, temp_ptr); kby_by(h0, hB3, h@, b); kby_u(h0, h@, b);
@hint loop 3 after
assert(bcompl(T, h@.by[tc], f, n)); ble_neg(T, h@.by[tc], f, n, n);
@ghost before Slice_op_index_u64 3
proof { if h@ != g11 { kby_by(h0, g11, h@, b); } kby_u(h0, h@, b); }
@ghost before memcpy_bl 0
let ghost g15 = h@; let ghost E = g15.by[bin.c@].subrange(bin.i as int, bin.i + n);
proof { kby_u(h0, g15, b); assert(kby(h0, g15, b) && g15 == (HS { by: g15.by, ..g8 }) && tby(h0, g15, temp_ptr)); if neg { ble_ext(E, g15.by[bin.c@], n); } else { ble_ext(E, T, n); } ble_bound(T, n); assert(ble(E, n) == (if neg { p2(8 * n) - ble(T, n) } else { ble(T, n) })); }
@ghost after memcpy_bl 0
let ghost g16 = h@;
proof { kby_v(h0, g15, g16, b); kby_u(h0, g16, b); bset_v(m(g15, SRef::Mag(b)), m(g16, SRef::Mag(b)), t33_.i - g15.sl[SRef::Mag(b)].lo, g15.by[bin.c@], bin.i as int, n); }
@ghost after detail_eraseZerosSuffix_rS 0
let ghost g17 = h@;
proof { kby_S(h0, g16, g17, b); kby_u(h0, g17, b); }
@ghost before bp_free 1
let ghost g18 = h@;
proof { if g18 != g17 { kby_B(h0, g17, g18, b); kby_u(h0, g18, b); } assert(g18.by == g17.by && g17.by == g16.by && g16.by == g15.by); tby_st(h0, g15, g18, temp_ptr); tby_u(h0, g18, temp_ptr); assert(kby(h0, g18, b)); }
@hint after bp_free 1
kby_by(h0, g18, h@, b); kby_u(h0, h@, b); kby_end(h0, h@, b);
@fn Big_copyMagDataTo_pv_u64(b, dest, maxlen)
requires wf(h0), binv(h0, b), v(h0, b) != 0 ==> brg(h0, dest.c@, dest.i as int, dest.i + imin(maxlen as int, nbytes(mv(h0, b))))
ensures
[value] RET == imin(maxlen as int, nbytes(mv(h0, b))), RET > 0 ==> ble(h1.by[dest.c@].subrange(dest.i as int, dest.i + RET), RET as int) == mv(h0, b) % p2(8 * RET)
[frame] only_by(h0, h1), h1.by == (if v(h0, b) == 0 { h0.by } else { h0.by.insert(dest.c@, bsplice(h0.by[dest.c@], dest.i as int, h1.by[dest.c@].subrange(dest.i as int, dest.i + RET), 0, RET as int)) })
@hint entry
inv_live(h0, b); reveal_with_fuel(nbits, 2);
if v(h0, b) != 0 { mag_bits(mg(h0, b)); }
@hint return 1
let q = h@.by[dest.c@].subrange(dest.i as int, dest.i + len); let s = mg(h0, b); let w = bytes_of(s);
bytes_val(s, w, s.len() as int); ble_mod(w, len as int, 4 * s.len() as int);
assert forall |k: int| 0 <= k < len implies q[k] == w[k] by { let lo = h0.sl[SRef::Mag(b)].lo; assert((k + 4 * lo) / 4 == k / 4 + lo && (k + 4 * lo) % 4 == k % 4); assert(s[k / 4] == h0.cells[cell(h0, SRef::Mag(b))][k / 4 + lo]); }
ble_ext(q, w, len as int);
let e = bsplice(h0.by[dest.c@], dest.i as int, q, 0, len as int); assert(e =~= h@.by[dest.c@]);
@fn Big_ctor_pv_u64_bool(b, bin, len, little)
requires wf(h0), newb(h0, b), brg(h0, bin.c@, bin.i as int, bin.i + len), len <= MAXN(), bin.i <= MAXN()
ensures
[value] v(h1, b) == impv(h0.by[bin.c@].subrange(bin.i as int, bin.i + len), little)
[canon] binv(h1, b)
[frame] crB(h0, h1, b), h1.st == h0.st
@hint exit
assert(crB(h0, h@, b));
@fn Int_ctor_u64_pv_bool(w, len, bin, little)
requires iwf(h0), neww(h0, w), brg(h0, bin.c@, bin.i as int, bin.i + len), len <= MAXN(), bin.i <= MAXN()
ensures
[value] iv(h1, w) == impv(h0.by[bin.c@].subrange(bin.i as int, bin.i + len), little)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint after Big_ctor_pv_u64_bool 0
i_cr(h0, h@, $0);
@ghost before int_set_impl 0
let ghost g = h@;
@hint after int_set_impl 0
i_own(g, h@, w, $1);
@fn Int_fromBinary_pv_u64_bool(w, bin, len, little)
requires iwf(h0), iok(h0, w), brg(h0, bin.c@, bin.i as int, bin.i + len), len <= MAXN(), bin.i <= MAXN()
ensures
[value] RET == w, iv(h1, w) == impv(h0.by[bin.c@].subrange(bin.i as int, bin.i + len), little)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_copyMagDataTo_pv_u64(w, dest, maxlen)
requires iwf(h0), iok(h0, w), iv(h0, w) != 0 ==> brg(h0, dest.c@, dest.i as int, dest.i + imin(maxlen as int, nbytes(if iv(h0, w) < 0 { -iv(h0, w) } else { iv(h0, w) })))
ensures
[value] RET == imin(maxlen as int, nbytes(if iv(h0, w) < 0 { -iv(h0, w) } else { iv(h0, w) }))
[value] RET > 0 ==> ble(h1.by[dest.c@].subrange(dest.i as int, dest.i + RET), RET as int) == (if iv(h0, w) < 0 { -iv(h0, w) } else { iv(h0, w) }) % p2(8 * RET)
[frame] only_by(h0, h1), h1.by == (if iv(h0, w) == 0 { h0.by } else { h0.by.insert(dest.c@, bsplice(h0.by[dest.c@], dest.i as int, h1.by[dest.c@].subrange(dest.i as int, dest.i + RET), 0, RET as int)) })
@hint entry
inv_live(h0, h0.wp[w]); 
