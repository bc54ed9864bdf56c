@fn pgbn_BigInteger_AddAssign_pCb_pCb(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] iv(h1, w) == iv(h0, w) + iv(h0, o)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_AddAssignWithI64_pCb_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] iv(h1, w) == iv(h0, w) + i64
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_SubAssign_pCb_pCb(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] iv(h1, w) == iv(h0, w) - iv(h0, o)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_SubAssignWithI64_pCb_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] iv(h1, w) == iv(h0, w) - i64
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_MulAssign_pCb_pCb(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] iv(h1, w) == iv(h0, w) * iv(h0, o)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_MulAssignWithI64_pCb_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] iv(h1, w) == iv(h0, w) * i64
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_DivAssign_pCb_pCb(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] iv(h0, o) != 0 ==> iv(h1, w) == tdiv(iv(h0, w), iv(h0, o)), iv(h0, o) == 0 ==> h1.st == 1, iv(h0, o) != 0 ==> h1.st == h0.st || h1.st == 0
[canon] iok(h1, w)
[frame] kI(h0, h1, w)
@hint return
i_chg(h0, h@, w);
@fn pgbn_BigInteger_DivAssignWithI64_pCb_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] i64 as int != 0 ==> iv(h1, w) == tdiv(iv(h0, w), i64 as int), i64 as int == 0 ==> h1.st == 1, i64 as int != 0 ==> h1.st == h0.st || h1.st == 0
[canon] iok(h1, w)
[frame] kI(h0, h1, w)
@hint return
i_chg(h0, h@, w);
@fn pgbn_BigInteger_ModAssign_pCb_pCb(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] iv(h0, o) != 0 ==> iv(h1, w) == trem(iv(h0, w), iv(h0, o)), iv(h0, o) == 0 ==> h1.st == 1, iv(h0, o) != 0 ==> h1.st == h0.st || h1.st == 0
[canon] iok(h1, w)
[frame] kI(h0, h1, w)
@ghost entry
let ghost b = h0.wp[w]; let ghost sb = SRef::Mag(b); let ghost W = one(sb); let ghost E = Set::<SRef>::empty(); proof { x_0(h0, W); }
@ghost after Big_ctor 0
let ghost g1 = h@; let ghost qq = $0; let ghost n1 = E.insert(SRef::Mag(qq)); proof { assert(liveb(h0, b)); x_new(h0, h0, g1, W, E, qq); }
@ghost after Big_modAssignAndQuotient_B_rB 0
let ghost g2 = h@; proof { x_step(h0, g1, g2, W, n1, one(sb).insert(SRef::Mag(qq))); assert(binv(g2, b)); }
@hint return
x_kill(h0, g2, h@, W, n1, qq); x_end(h0, h@, W, n1.remove(SRef::Mag(qq))); i_chg(h0, h@, w);
@fn pgbn_BigInteger_ModAssignWithI64_pCb_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] i64 as int != 0 ==> iv(h1, w) == trem(iv(h0, w), i64 as int), i64 as int == 0 ==> h1.st == 1, i64 as int != 0 ==> h1.st == h0.st || h1.st == 0
[canon] iok(h1, w)
[frame] kI(h0, h1, w)
@ghost entry
let ghost b = h0.wp[w]; let ghost sb = SRef::Mag(b); let ghost W = one(sb); let ghost E = Set::<SRef>::empty(); proof { x_0(h0, W); }
@ghost after Big_ctor 0
let ghost g1 = h@; let ghost qq = $0; let ghost n1 = E.insert(SRef::Mag(qq)); proof { assert(liveb(h0, b)); x_new(h0, h0, g1, W, E, qq); }
@ghost after Big_modAssignAndQuotient_i64_rB 0
let ghost g2 = h@; proof { x_step(h0, g1, g2, W, n1, one(sb).insert(SRef::Mag(qq))); assert(binv(g2, b)); }
@hint return
x_kill(h0, g2, h@, W, n1, qq); x_end(h0, h@, W, n1.remove(SRef::Mag(qq))); i_chg(h0, h@, w);
@fn pgbn_BigInteger_AndAssign_pCb_pCb(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, w), k) == ((tc(iv(h0, w), k) as u32) & (tc(iv(h0, o), k) as u32)) as int
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frW(h0, h@, w);
@fn pgbn_BigInteger_AndAssignWithI64_pCb_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, w), k) == ((tc(iv(h0, w), k) as u32) & (tc(i64 as int, k) as u32)) as int
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_OrAssign_pCb_pCb(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, w), k) == ((tc(iv(h0, w), k) as u32) | (tc(iv(h0, o), k) as u32)) as int
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frW(h0, h@, w);
@fn pgbn_BigInteger_OrAssignWithI64_pCb_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, w), k) == ((tc(iv(h0, w), k) as u32) | (tc(i64 as int, k) as u32)) as int
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_XorAssign_pCb_pCb(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, w), k) == ((tc(iv(h0, w), k) as u32) ^ (tc(iv(h0, o), k) as u32)) as int
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frW(h0, h@, w);
@fn pgbn_BigInteger_XorAssignWithI64_pCb_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, w), k) == ((tc(iv(h0, w), k) as u32) ^ (tc(i64 as int, k) as u32)) as int
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_IsZero_pCb(w) @pure
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (iv(h0, w) == 0)
@hint entry
inv_live(h0, h0.wp[w]);
@fn pgbn_BigInteger_IsOne_pCb(w) @pure
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (iv(h0, w) == 1)
@hint entry
inv_live(h0, h0.wp[w]);
@fn pgbn_BigInteger_IsNegOne_pCb(w) @pure
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (iv(h0, w) == -1)
@hint entry
inv_live(h0, h0.wp[w]);
@fn pgbn_BigInteger_IsPositive_pCb(w) @pure
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (iv(h0, w) > 0)
@hint entry
inv_live(h0, h0.wp[w]);
@fn pgbn_BigInteger_IsNegative_pCb(w) @pure
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (iv(h0, w) < 0)
@hint entry
inv_live(h0, h0.wp[w]);
@fn pgbn_BigInteger_IsEven_pCb(w) @pure
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (iv(h0, w) % 2 == 0)
@hint entry
inv_live(h0, h0.wp[w]);
@fn pgbn_BigInteger_IsOdd_pCb(w) @pure
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (iv(h0, w) % 2 != 0)
@hint entry
inv_live(h0, h0.wp[w]);
@fn pgbn_BigInteger_Inc_pCb(w)
requires iwf(h0), iok(h0, w)
ensures
[value] iv(h1, w) == iv(h0, w) + 1
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_Dec_pCb(w)
requires iwf(h0), iok(h0, w)
ensures
[value] iv(h1, w) == iv(h0, w) - 1
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_NotSelf_pCb(w)
requires iwf(h0), iok(h0, w)
ensures
[value] iv(h1, w) == -iv(h0, w) - 1
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_Negate_pCb(w)
requires iwf(h0), iok(h0, w)
ensures
[value] iv(h1, w) == -iv(h0, w)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_flB(h0, h@, w);
@fn pgbn_BigInteger_AbsSelf_pCb(w)
requires iwf(h0), iok(h0, w)
ensures
[value] iv(h1, w) == iabs(iv(h0, w))
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_flB(h0, h@, w);
@fn pgbn_BigInteger_NotSelfBits_pCb(w)
requires iwf(h0), iok(h0, w)
ensures
[value] iv(h1, w) == isgn(iv(h0, w)) * (p2(nbits(iabs(iv(h0, w)))) - 1 - iabs(iv(h0, w)))
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint entry
inv_live(h0, h0.wp[w]);
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_CmpWithI64_pCb_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == icmp(iv(h0, w), i64 as int)
[frame] k0(h0, h1), h1.st == h0.st
@ghost entry
let ghost E = Set::<SRef>::empty(); let ghost b = h0.wp[w]; proof { x_0(h0, E); assert(liveb(h0, b)); }
@ghost after Big_ctor_i64 0
let ghost g1 = h@; let ghost t = $0; let ghost n1 = E.insert(SRef::Mag(t)); proof { x_new(h0, h0, g1, E, E, t); assert(binv(g1, b) && v(g1, b) == v(h0, b)); }
@hint return
x_kill(h0, g1, h@, E, n1, t); x_end(h0, h@, E, n1.remove(SRef::Mag(t))); i_chg0(h0, h@);
@fn pgbn_BigInteger_Cmp_pCb_pCb(w, o) @pure
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] RET == icmp(iv(h0, w), iv(h0, o))
@fn pgbn_BigInteger_SHLAssignWithI64_pCb_i64(w, n)
requires iwf(h0), iok(h0, w)
ensures
[value] iv(h1, w) == iv(h0, w) * p2(if n < 0 { n + U64() } else { n as int })
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_SHRAssignWithI64_pCb_i64(w, n)
requires iwf(h0), iok(h0, w)
ensures
[value] iv(h1, w) == iv(h0, w) / p2(if n < 0 { n + U64() } else { n as int })
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_GetInt64WithChecking_pCb_pbool(w, ok)
requires iwf(h0), iok(h0, w), ok == 0 || h0.bl.dom().contains(ok)
ensures
[value] (-0x8000_0000_0000_0000 <= iv(h0, w) <= 0x7fff_ffff_ffff_ffff) ==> RET == iv(h0, w) && h1.st == 0 && (ok != 0 ==> h1.bl[ok])
[value] !(-0x8000_0000_0000_0000 <= iv(h0, w) <= 0x7fff_ffff_ffff_ffff) ==> RET == 0x7fff_ffff_ffff_ffff && h1.st == 6 && (ok != 0 ==> !h1.bl[ok])
[frame] kB(h0, h1, ok), ok != 0 ==> h1.bl =~= h0.bl.insert(ok, h1.bl[ok])
@hint before Big_toU64 0
assert(iok(h@, w)); inv_live(h@, h@.wp[w]);
@ghost before Big_toU64 0
let ghost g = h@;
@hint after Big_toU64 0
i_flB(g, h@, w); assert(iok(h@, w) && iv(h@, w) == iv(g, w)) by { inv_same(g, h@, h@.wp[w]); } i_same(g, h@, w);
@ghost before status_set 0
let ghost s0 = h@;
@hint after status_set 0
i_st(s0, h@);
@ghost before bool_set 0
let ghost b0 = h@;
@hint after bool_set 0
i_st(b0, h@);
@ghost before status_set 1
let ghost s1 = h@;
@hint after status_set 1
i_st(s1, h@);
@ghost before bool_set 1
let ghost b1 = h@;
@hint after bool_set 1
i_st(b1, h@);
@fn pgbn_BigInteger_GetUInt64WithChecking_pCb_pbool(w, ok)
requires iwf(h0), iok(h0, w), ok == 0 || h0.bl.dom().contains(ok)
ensures
[value] (0 <= iv(h0, w) < U64()) ==> RET == iv(h0, w) && h1.st == 0 && (ok != 0 ==> h1.bl[ok])
[value] !(0 <= iv(h0, w) < U64()) ==> RET == U64() - 1 && h1.st == 6 && (ok != 0 ==> !h1.bl[ok])
[frame] kB(h0, h1, ok), ok != 0 ==> h1.bl =~= h0.bl.insert(ok, h1.bl[ok])
@hint before Big_flagsContains_u32 0
len2(mg(h0, h0.wp[w])); assert(iok(h@, w)); inv_live(h@, h@.wp[w]);
@hint before Big_toU64 0
assert(iok(h@, w)); inv_live(h@, h@.wp[w]);
@ghost before Big_toU64 0
let ghost g = h@;
@hint after Big_toU64 0
i_flB(g, h@, w); assert(iok(h@, w) && iv(h@, w) == iv(g, w)) by { inv_same(g, h@, h@.wp[w]); } i_same(g, h@, w);
@ghost before status_set 0
let ghost s0 = h@;
@hint after status_set 0
i_st(s0, h@);
@ghost before bool_set 0
let ghost b0 = h@;
@hint after bool_set 0
i_st(b0, h@);
@ghost before status_set 1
let ghost s1 = h@;
@hint after status_set 1
i_st(s1, h@);
@ghost before bool_set 1
let ghost b1 = h@;
@hint after bool_set 1
i_st(b1, h@);
@fn pgbn_BigInteger_Get2sComplementBlock_pCb_u64(w, i)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == tc(iv(h0, w), i as int)
[frame] k0(h0, h1), h1.st == h0.st
@hint return
i_flB(h0, h@, w); inv_same(h0, h@, h@.wp[w]); i_same(h0, h@, w);
@fn pgbn_BigInteger_GetMagData_pCb_pv_u64(w, dest, maxlen)
requires iwf(h0), iok(h0, w), iv(h0, w) != 0 ==> brg(h0, dest.c@, dest.i as int, dest.i + imin(maxlen as int, nbytes(if iv(h0, w) < 0 { -iv(h0, w) } else { iv(h0, w) })))
ensures
[value] RET == imin(maxlen as int, nbytes(if iv(h0, w) < 0 { -iv(h0, w) } else { iv(h0, w) }))
[value] RET > 0 ==> ble(h1.by[dest.c@].subrange(dest.i as int, dest.i + RET), RET as int) == (if iv(h0, w) < 0 { -iv(h0, w) } else { iv(h0, w) }) % p2(8 * RET)
[frame] only_by(h0, h1), h1.by == (if iv(h0, w) == 0 { h0.by } else { h0.by.insert(dest.c@, bsplice(h0.by[dest.c@], dest.i as int, h1.by[dest.c@].subrange(dest.i as int, dest.i + RET), 0, RET as int)) })
@hint entry
inv_live(h0, h0.wp[w]); 
@fn pgbn_BigInteger_AssignWithI64_pCb_i64(w, i)
requires iwf(h0), iok(h0, w)
ensures
[value] iv(h1, w) == i
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_AssignWithBin_pCb_pv_u64_bool(w, bin, len, little)
requires iwf(h0), iok(h0, w), brg(h0, bin.c@, bin.i as int, bin.i + len), len <= MAXN(), bin.i <= MAXN()
ensures
[value] iv(h1, w) == impv(h0.by[bin.c@].subrange(bin.i as int, bin.i + len), little)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_Copy_pCb_pCb(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] iv(h1, w) == iv(h0, o)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn pgbn_BigInteger_GetInt64_pCb(w)
requires iwf(h0), iok(h0, w)
ensures
[value] (-0x8000_0000_0000_0000 <= iv(h0, w) <= 0x7fff_ffff_ffff_ffff) ==> RET == iv(h0, w) && h1.st == 0
[value] !(-0x8000_0000_0000_0000 <= iv(h0, w) <= 0x7fff_ffff_ffff_ffff) ==> RET == 0x7fff_ffff_ffff_ffff && h1.st == 6
[frame] k0(h0, h1)
@fn pgbn_BigInteger_GetUInt64_pCb(w)
requires iwf(h0), iok(h0, w)
ensures
[value] (0 <= iv(h0, w) < U64()) ==> RET == iv(h0, w) && h1.st == 0
[value] !(0 <= iv(h0, w) < U64()) ==> RET == U64() - 1 && h1.st == 6
[frame] k0(h0, h1)
@fn pgbn_BigInteger_Create()
requires iwf(h0)
ensures
[value] RET != 0, !h0.wp.dom().contains(RET), iv(h1, RET) == 0
[canon] iok(h1, RET)
[frame] kI(h0, h1, RET), h1.st == h0.st
@ghost after cb_new 0
let ghost g = h@; let ghost w = $r; proof { i_own(h0, g, w, 0); }
@ghost after Big_ctor 0
let ghost g1 = h@; proof { i_cr(g, g1, $0); }
@hint after int_set_impl 0
i_own(g1, h@, w, $1);
@fn pgbn_BigInteger_CreateWithCopying_pCb(o)
requires iwf(h0), iok(h0, o)
ensures
[value] RET != 0, !h0.wp.dom().contains(RET), iv(h1, RET) == iv(h0, o)
[canon] iok(h1, RET)
[frame] kI(h0, h1, RET), h1.st == h0.st
@ghost after cb_new 0
let ghost g = h@; let ghost w = $r; proof { i_own(h0, g, w, 0); }
@ghost after Big_ctor_B 0
let ghost g1 = h@; proof { i_cr(g, g1, $0); }
@hint after int_set_impl 0
i_own(g1, h@, w, $1);
@fn pgbn_BigInteger_CreateWithI64_i64(i)
requires iwf(h0)
ensures
[value] RET != 0, !h0.wp.dom().contains(RET), iv(h1, RET) == i
[canon] iok(h1, RET)
[frame] kI(h0, h1, RET), h1.st == h0.st
@ghost after cb_new 0
let ghost g = h@; let ghost w = $r; proof { i_own(h0, g, w, 0); }
@ghost after Big_ctor_i64 0
let ghost g1 = h@; proof { i_cr(g, g1, $0); }
@hint after int_set_impl 0
i_own(g1, h@, w, $1);
@fn pgbn_BigInteger_CreateWithBin_u64_pv_bool(len, bin, little)
requires iwf(h0), brg(h0, bin.c@, bin.i as int, bin.i + len), len <= MAXN(), bin.i <= MAXN()
ensures
[value] RET != 0, !h0.wp.dom().contains(RET), iv(h1, RET) == impv(h0.by[bin.c@].subrange(bin.i as int, bin.i + len), little)
[canon] iok(h1, RET)
[frame] kI(h0, h1, RET), h1.st == h0.st
@ghost after cb_new 0
let ghost g = h@; let ghost w = $r; proof { i_own(h0, g, w, 0); }
@ghost after Big_ctor 0
let ghost g1 = h@; proof { i_cr(g, g1, $0); }
@ghost after int_set_impl 0
let ghost g2 = h@; proof { i_own(g1, h@, w, $1); }
@hint return
i_frB(g2, h@, w);
@fn pgbn_BigInteger_Destroy_pCb(w)
requires iwf(h0), iok(h0, w)
ensures
[frame] kI(h0, h1, w), !h1.wp.dom().contains(w), h1.st == h0.st
@hint exit
cb_drop(h0, h@, w);
@fn pgbn_BigInteger_CreateWithStr_pi8_i32(s, radix)
requires iwf(h0), csok(h0, s)
ensures
[value] RET != 0 ==> !h0.wp.dom().contains(RET) && nvalid(csby(h0, s), radix as int) && iv(h1, RET) == nval(csby(h0, s), radix as int) && h1.st == 0
[value] RET == 0 ==> (!nvalid(csby(h0, s), radix as int) || csby(h0, s).len() > 800_000_000) && h1.st != 0
[canon] RET != 0 ==> iok(h1, RET)
[frame] RET != 0 ==> kI(h0, h1, RET), RET == 0 ==> k0(h0, h1)
@ghost after cb_new 0
let ghost a1 = h@; let ghost w = $r; proof { i_own(h0, a1, w, 0); }
@ghost before Big_ctor 0
let ghost a2 = h@; proof { i_st(a1, a2); }
@ghost after Big_ctor 0
let ghost a3 = h@; proof { i_cr(a2, a3, $0); }
@ghost after int_set_impl 0
let ghost a4 = h@; proof { i_own(a3, a4, w, $1); assert(kI(a2, a4, w)); }
@ghost after Big_fromString_str_i32_pbool 0
let ghost a5 = h@; let ghost d = a4.wp[w]; proof { nb_chg(a4, a5, one(SRef::Mag(d))); i_chg(a4, nb(a4, a5), w); nb_wf(a4, a5); }
@hint after cb_free 0
cb_drop(a5, h@, w);
@ghost before bool_kill 0
let ghost a6 = h@;
@hint after bool_kill 0
i_st(a6, h@); assert(h@.bl =~= h0.bl);
@ghost before bool_kill 1
let ghost a6 = h@;
@hint after bool_kill 1
i_st(a6, h@); assert(h@.bl =~= h0.bl);
@fn pgbn_BigInteger_AssignWithStr_pCb_pi8_i32(w, s, radix)
requires iwf(h0), iok(h0, w), csok(h0, s)
ensures
[value] RET ==> nvalid(csby(h0, s), radix as int) && iv(h1, w) == nval(csby(h0, s), radix as int) && h1.st == 0
[value] !RET ==> (!nvalid(csby(h0, s), radix as int) || csby(h0, s).len() > 800_000_000) && iv(h1, w) == iv(h0, w) && h1.st != 0
[canon] iok(h1, w)
[frame] kI(h0, h1, w)
@ghost before Big_fromString_str_i32_pbool 0
let ghost a2 = h@; proof { i_st(h0, a2); }
@ghost after Big_fromString_str_i32_pbool 0
let ghost a5 = h@; let ghost d = a2.wp[w]; proof { nb_chg(a2, a5, one(SRef::Mag(d))); i_chg(a2, nb(a2, a5), w); nb_wf(a2, a5); }
@hint after bool_kill 0
i_st(a5, h@); assert(h@.bl =~= h0.bl);
@fn pgbn_String_Create_pi8(s)
requires iwf(h0), csok(h0, s)
ensures
[value] RET != 0, !h0.cp.dom().contains(RET), h1 == (HS { cp: h0.cp.insert(RET, csby(h0, s)), ..h0 })
@fn pgbn_String_Length_pCs(s) @pure
requires h0.cp.dom().contains(s), h0.cp[s].len() <= MAXN()
ensures
[value] RET == h0.cp[s].len()
@fn pgbn_String_Destroy_pCs(s)
requires h0.cp.dom().contains(s)
ensures
[frame] h1 == (HS { cp: h0.cp.remove(s), ..h0 })
@fn pgbn_BigInteger_ToString_pCb_i32(w, radix)
requires iwf(h0), iok(h0, w), 2 <= radix <= 36
ensures
[value] RET != 0, !h0.cp.dom().contains(RET), h1.cp == h0.cp.insert(RET, numeral(iv(h0, w), radix as int))
[frame] kC(h0, h1), h1.st == h0.st || h1.st == 0
@ghost after Big_toString_i32 0
let ghost a1 = h@; proof { i_chg0(h0, a1); num_nonul(iv(h0, w), radix as int); }
@ghost after sb_c_str 0
let ghost a2 = h@; proof { i_cp(a1, a2); }
@hint after bp_kill 0
i_cp(a1, h@); assert(h@.by =~= h0.by);
