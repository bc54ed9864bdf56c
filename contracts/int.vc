@fn Int_ctor(w)
requires iwf(h0), neww(h0, w)
ensures
[value] iv(h1, w) == 0
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint after Big_ctor 0
i_cr(h0, h@, $0);
@ghost before int_set_impl 0
let ghost g = h@;
@hint after int_set_impl 0
i_own(g, h@, w, $1);
@fn Int_ctor_I(w, o)
requires iwf(h0), neww(h0, w), iok(h0, o)
ensures
[value] iv(h1, w) == iv(h0, o)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint after Big_ctor_B 0
i_cr(h0, h@, $0);
@ghost before int_set_impl 0
let ghost g = h@;
@hint after int_set_impl 0
i_own(g, h@, w, $1);
@fn Int_ctor_i64(w, i)
requires iwf(h0), neww(h0, w)
ensures
[value] iv(h1, w) == i
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint after Big_ctor_i64 0
i_cr(h0, h@, $0);
@ghost before int_set_impl 0
let ghost g = h@;
@hint after int_set_impl 0
i_own(g, h@, w, $1);
@fn Int_ctor_mI(w, o)
requires iwf(h0), neww(h0, w), h0.wp.dom().contains(o)
ensures
[value] iok(h0, o) ==> iv(h1, w) == iv(h0, o)
[canon] iok(h0, o) ==> iok(h1, w)
[frame] kI2(h0, h1, w, o), h1.wp.dom().contains(w), h1.wp.dom().contains(o), h1.st == h0.st
@fn Int_op_assign_I(w, o)
requires iwf(h0), h0.wp.dom().contains(w), iok(h0, o)
ensures
[value] RET == w, iv(h1, w) == iv(h0, o)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint after Big_ctor_B 0
i_cr(h0, h@, $0);
@fn Int_op_assign_mI(w, o)
requires iwf(h0), h0.wp.dom().contains(w), h0.wp.dom().contains(o)
ensures
[value] RET == w, iok(h0, o) ==> iv(h1, w) == iv(h0, o)
[canon] iok(h0, o) ==> iok(h1, w)
[frame] kI2(h0, h1, w, o), h1.wp.dom().contains(w), h1.wp.dom().contains(o), h1.st == h0.st
@fn Int_op_assign_i64(w, i)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w, iv(h1, w) == i
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_assign_i64(w, i)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w, iv(h1, w) == i
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_op_addeq_I(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] RET == w
[value] iv(h1, w) == iv(h0, w) + iv(h0, o)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_op_addeq_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] iv(h1, w) == iv(h0, w) + i64
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_op_subeq_I(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] RET == w
[value] iv(h1, w) == iv(h0, w) - iv(h0, o)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_op_subeq_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] iv(h1, w) == iv(h0, w) - i64
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_op_muleq_I(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] RET == w
[value] iv(h1, w) == iv(h0, w) * iv(h0, o)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_op_muleq_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] iv(h1, w) == iv(h0, w) * i64
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_op_diveq_I(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] RET == w
[value] iv(h0, o) != 0 ==> iv(h1, w) == tdiv(iv(h0, w), iv(h0, o)), iv(h0, o) == 0 ==> h1.st == 1, iv(h0, o) != 0 ==> h1.st == h0.st || h1.st == 0
[canon] iok(h1, w)
[frame] kI(h0, h1, w)
@hint return
i_chg(h0, h@, w);
@fn Int_op_diveq_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] i64 as int != 0 ==> iv(h1, w) == tdiv(iv(h0, w), i64 as int), i64 as int == 0 ==> h1.st == 1, i64 as int != 0 ==> h1.st == h0.st || h1.st == 0
[canon] iok(h1, w)
[frame] kI(h0, h1, w)
@hint return
i_chg(h0, h@, w);
@fn Int_op_modeq_I(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] RET == w
[value] iv(h0, o) != 0 ==> iv(h1, w) == trem(iv(h0, w), iv(h0, o)), iv(h0, o) == 0 ==> h1.st == 1, iv(h0, o) != 0 ==> h1.st == h0.st || h1.st == 0
[canon] iok(h1, w)
[frame] kI(h0, h1, w)
@ghost entry
let ghost b = h0.wp[w]; let ghost sb = SRef::Mag(b); let ghost W = one(sb); let ghost E = Set::<SRef>::empty(); proof { x_0(h0, W); }
@ghost after Big_ctor 0
let ghost g1 = h@; let ghost qq = $0; let ghost n1 = E.insert(SRef::Mag(qq)); proof { assert(liveb(h0, b)); x_new(h0, h0, g1, W, E, qq); }
@ghost after Big_modAssignAndQuotient_B_rB 0
let ghost g2 = h@; proof { x_step(h0, g1, g2, W, n1, one(sb).insert(SRef::Mag(qq))); assert(binv(g2, b)); }
@hint return
x_kill(h0, g2, h@, W, n1, qq); x_end(h0, h@, W, n1.remove(SRef::Mag(qq))); i_chg(h0, h@, w);
@fn Int_op_modeq_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] i64 as int != 0 ==> iv(h1, w) == trem(iv(h0, w), i64 as int), i64 as int == 0 ==> h1.st == 1, i64 as int != 0 ==> h1.st == h0.st || h1.st == 0
[canon] iok(h1, w)
[frame] kI(h0, h1, w)
@ghost entry
let ghost b = h0.wp[w]; let ghost sb = SRef::Mag(b); let ghost W = one(sb); let ghost E = Set::<SRef>::empty(); proof { x_0(h0, W); }
@ghost after Big_ctor 0
let ghost g1 = h@; let ghost qq = $0; let ghost n1 = E.insert(SRef::Mag(qq)); proof { assert(liveb(h0, b)); x_new(h0, h0, g1, W, E, qq); }
@ghost after Big_modAssignAndQuotient_i64_rB 0
let ghost g2 = h@; proof { x_step(h0, g1, g2, W, n1, one(sb).insert(SRef::Mag(qq))); assert(binv(g2, b)); }
@hint return
x_kill(h0, g2, h@, W, n1, qq); x_end(h0, h@, W, n1.remove(SRef::Mag(qq))); i_chg(h0, h@, w);
@fn Int_op_andeq_I(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] RET == w
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, w), k) == ((tc(iv(h0, w), k) as u32) & (tc(iv(h0, o), k) as u32)) as int
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frW(h0, h@, w);
@fn Int_op_andeq_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, w), k) == ((tc(iv(h0, w), k) as u32) & (tc(i64 as int, k) as u32)) as int
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_op_oreq_I(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] RET == w
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, w), k) == ((tc(iv(h0, w), k) as u32) | (tc(iv(h0, o), k) as u32)) as int
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frW(h0, h@, w);
@fn Int_op_oreq_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, w), k) == ((tc(iv(h0, w), k) as u32) | (tc(i64 as int, k) as u32)) as int
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_op_xoreq_I(w, o)
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] RET == w
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, w), k) == ((tc(iv(h0, w), k) as u32) ^ (tc(iv(h0, o), k) as u32)) as int
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frW(h0, h@, w);
@fn Int_op_xoreq_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, w), k) == ((tc(iv(h0, w), k) as u32) ^ (tc(i64 as int, k) as u32)) as int
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_op_shleq_u64(w, n)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] iv(h1, w) == iv(h0, w) * p2(n as int)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_op_shreq_u64(w, n)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] iv(h1, w) == iv(h0, w) / p2(n as int)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_op_inc(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] iv(h1, w) == iv(h0, w) + 1
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_op_dec(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] iv(h1, w) == iv(h0, w) - 1
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_negate(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] iv(h1, w) == -iv(h0, w)
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_flB(h0, h@, w);
@fn Int_abs(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] iv(h1, w) == iabs(iv(h0, w))
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_flB(h0, h@, w);
@fn Int_notSelf(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] iv(h1, w) == -iv(h0, w) - 1
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint return
i_frB(h0, h@, w);
@fn Int_notBits(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == w
[value] iv(h1, w) == isgn(iv(h0, w)) * (p2(nbits(iabs(iv(h0, w)))) - 1 - iabs(iv(h0, w)))
[canon] iok(h1, w)
[frame] kI(h0, h1, w), h1.st == h0.st
@hint entry
inv_live(h0, h0.wp[w]);
@hint return
i_frB(h0, h@, w);
@fn Int_op_inc_i32(r, w, i)
requires iwf(h0), neww(h0, r), iok(h0, w), r != w
ensures
[value] iv(h1, r) == iv(h0, w)
[value] iv(h1, w) == iv(h0, w) + 1
[canon] iok(h1, r), iok(h1, w)
[frame] kI2(h0, h1, r, w), h1.st == h0.st
@fn Int_op_dec_i32(r, w, i)
requires iwf(h0), neww(h0, r), iok(h0, w), r != w
ensures
[value] iv(h1, r) == iv(h0, w)
[value] iv(h1, w) == iv(h0, w) - 1
[canon] iok(h1, r), iok(h1, w)
[frame] kI2(h0, h1, r, w), h1.st == h0.st
@fn Int_op_not(r, w)
requires iwf(h0), neww(h0, r), iok(h0, w)
ensures
[value] iv(h1, r) == -iv(h0, w) - 1
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@ghost before Big_notSelf 0
let ghost g = h@;
@hint after Big_notSelf 0
i_frB(g, h@, temp);
@fn Int_op_add(r, w)
requires iwf(h0), neww(h0, r), iok(h0, w)
ensures
[value] iv(h1, r) == iv(h0, w)
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn Int_op_sub(r, w)
requires iwf(h0), neww(h0, r), iok(h0, w)
ensures
[value] iv(h1, r) == -iv(h0, w)
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn Int_negated(r, w)
requires iwf(h0), neww(h0, r), iok(h0, w)
ensures
[value] iv(h1, r) == -iv(h0, w)
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn Int_absoluted(r, w)
requires iwf(h0), neww(h0, r), iok(h0, w)
ensures
[value] iv(h1, r) == iabs(iv(h0, w))
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn Int_isZero(w) @pure
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (iv(h0, w) == 0)
@hint entry
inv_live(h0, h0.wp[w]);
@fn Int_isOne(w) @pure
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (iv(h0, w) == 1)
@hint entry
inv_live(h0, h0.wp[w]);
@fn Int_isNegOne(w) @pure
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (iv(h0, w) == -1)
@hint entry
inv_live(h0, h0.wp[w]);
@fn Int_isPositive(w) @pure
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (iv(h0, w) > 0)
@hint entry
inv_live(h0, h0.wp[w]);
@fn Int_isNegative(w) @pure
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (iv(h0, w) < 0)
@hint entry
inv_live(h0, h0.wp[w]);
@fn Int_isEven(w) @pure
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (iv(h0, w) % 2 == 0)
@hint entry
inv_live(h0, h0.wp[w]);
@fn Int_isOdd(w) @pure
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (iv(h0, w) % 2 != 0)
@hint entry
inv_live(h0, h0.wp[w]);
@fn Int_cmp_I(w, o) @pure
requires iwf(h0), iok(h0, w), iok(h0, o)
ensures
[value] RET == icmp(iv(h0, w), iv(h0, o))
@fn Int_cmp_i64(w, i64)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == icmp(iv(h0, w), i64 as int)
[frame] k0(h0, h1), h1.st == h0.st
@ghost entry
let ghost E = Set::<SRef>::empty(); let ghost b = h0.wp[w]; proof { x_0(h0, E); assert(liveb(h0, b)); }
@ghost after Big_ctor_i64 0
let ghost g1 = h@; let ghost t = $0; let ghost n1 = E.insert(SRef::Mag(t)); proof { x_new(h0, h0, g1, E, E, t); assert(binv(g1, b) && v(g1, b) == v(h0, b)); }
@hint return
x_kill(h0, g1, h@, E, n1, t); x_end(h0, h@, E, n1.remove(SRef::Mag(t))); i_chg0(h0, h@);
@fn bigNumber_op_add_I_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a), iok(h0, b)
ensures
[value] iv(h1, r) == (iv(h0, a)) + (iv(h0, b))
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_add_I_i64(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a)
ensures
[value] iv(h1, r) == (iv(h0, a)) + (b as int)
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_add_i64_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, b)
ensures
[value] iv(h1, r) == (a as int) + (iv(h0, b))
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_sub_I_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a), iok(h0, b)
ensures
[value] iv(h1, r) == (iv(h0, a)) - (iv(h0, b))
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_sub_I_i64(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a)
ensures
[value] iv(h1, r) == (iv(h0, a)) - (b as int)
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_sub_i64_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, b)
ensures
[value] iv(h1, r) == (a as int) - (iv(h0, b))
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_mul_I_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a), iok(h0, b)
ensures
[value] iv(h1, r) == (iv(h0, a)) * (iv(h0, b))
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_mul_I_i64(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a)
ensures
[value] iv(h1, r) == (iv(h0, a)) * (b as int)
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_mul_i64_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, b)
ensures
[value] iv(h1, r) == (a as int) * (iv(h0, b))
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_and_I_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a), iok(h0, b)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, r), k) == ((tc(iv(h0, a), k) as u32) & (tc(iv(h0, b), k) as u32)) as int
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_and_I_i64(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, r), k) == ((tc(iv(h0, a), k) as u32) & (tc(b as int, k) as u32)) as int
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_and_i64_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, b)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, r), k) == ((tc(a as int, k) as u32) & (tc(iv(h0, b), k) as u32)) as int
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_or_I_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a), iok(h0, b)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, r), k) == ((tc(iv(h0, a), k) as u32) | (tc(iv(h0, b), k) as u32)) as int
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_or_I_i64(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, r), k) == ((tc(iv(h0, a), k) as u32) | (tc(b as int, k) as u32)) as int
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_or_i64_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, b)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, r), k) == ((tc(a as int, k) as u32) | (tc(iv(h0, b), k) as u32)) as int
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_xor_I_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a), iok(h0, b)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, r), k) == ((tc(iv(h0, a), k) as u32) ^ (tc(iv(h0, b), k) as u32)) as int
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_xor_I_i64(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, r), k) == ((tc(iv(h0, a), k) as u32) ^ (tc(b as int, k) as u32)) as int
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_xor_i64_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, b)
ensures
[value] forall |k: int| k >= 0 ==> #[trigger] tc(iv(h1, r), k) == ((tc(a as int, k) as u32) ^ (tc(iv(h0, b), k) as u32)) as int
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_div_I_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a), iok(h0, b)
ensures
[value] iv(h0, b) != 0 ==> iv(h1, r) == tdiv(iv(h0, a), iv(h0, b)), iv(h0, b) == 0 ==> h1.st == 1, iv(h0, b) != 0 ==> h1.st == h0.st || h1.st == 0
[canon] iok(h1, r)
[frame] kI(h0, h1, r)
@fn bigNumber_op_div_I_i64(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a)
ensures
[value] b as int != 0 ==> iv(h1, r) == tdiv(iv(h0, a), b as int), b as int == 0 ==> h1.st == 1, b as int != 0 ==> h1.st == h0.st || h1.st == 0
[canon] iok(h1, r)
[frame] kI(h0, h1, r)
@fn bigNumber_op_div_i64_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, b)
ensures
[value] iv(h0, b) != 0 ==> iv(h1, r) == tdiv(a as int, iv(h0, b)), iv(h0, b) == 0 ==> h1.st == 1, iv(h0, b) != 0 ==> h1.st == h0.st || h1.st == 0
[canon] iok(h1, r)
[frame] kI(h0, h1, r)
@fn bigNumber_op_mod_I_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a), iok(h0, b)
ensures
[value] iv(h0, b) != 0 ==> iv(h1, r) == trem(iv(h0, a), iv(h0, b)), iv(h0, b) == 0 ==> h1.st == 1, iv(h0, b) != 0 ==> h1.st == h0.st || h1.st == 0
[canon] iok(h1, r)
[frame] kI(h0, h1, r)
@fn bigNumber_op_mod_I_i64(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, a)
ensures
[value] b as int != 0 ==> iv(h1, r) == trem(iv(h0, a), b as int), b as int == 0 ==> h1.st == 1, b as int != 0 ==> h1.st == h0.st || h1.st == 0
[canon] iok(h1, r)
[frame] kI(h0, h1, r)
@fn bigNumber_op_mod_i64_I(r, a, b)
requires iwf(h0), neww(h0, r), iok(h0, b)
ensures
[value] iv(h0, b) != 0 ==> iv(h1, r) == trem(a as int, iv(h0, b)), iv(h0, b) == 0 ==> h1.st == 1, iv(h0, b) != 0 ==> h1.st == h0.st || h1.st == 0
[canon] iok(h1, r)
[frame] kI(h0, h1, r)
@fn bigNumber_op_shl_I_i64(r, a, n)
requires iwf(h0), neww(h0, r), iok(h0, a), n >= 0
ensures
[value] iv(h1, r) == iv(h0, a) * p2(n as int)
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_shr_I_i64(r, a, n)
requires iwf(h0), neww(h0, r), iok(h0, a), n >= 0
ensures
[value] iv(h1, r) == iv(h0, a) / p2(n as int)
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@fn bigNumber_op_eq_I_I(a, b) @pure
requires iwf(h0), iok(h0, a), iok(h0, b)
ensures
[value] RET == (iv(h0, a) == iv(h0, b))
@fn bigNumber_op_eq_I_i64(a, b)
requires iwf(h0), iok(h0, a)
ensures
[value] RET == (iv(h0, a) == b as int)
[frame] k0(h0, h1), h1.st == h0.st
@fn bigNumber_op_eq_i64_I(a, b)
requires iwf(h0), iok(h0, b)
ensures
[value] RET == ((a as int) == iv(h0, b))
[frame] k0(h0, h1), h1.st == h0.st
@fn bigNumber_op_ne_I_I(a, b) @pure
requires iwf(h0), iok(h0, a), iok(h0, b)
ensures
[value] RET == (iv(h0, a) != iv(h0, b))
@fn bigNumber_op_ne_I_i64(a, b)
requires iwf(h0), iok(h0, a)
ensures
[value] RET == (iv(h0, a) != b as int)
[frame] k0(h0, h1), h1.st == h0.st
@fn bigNumber_op_ne_i64_I(a, b)
requires iwf(h0), iok(h0, b)
ensures
[value] RET == ((a as int) != iv(h0, b))
[frame] k0(h0, h1), h1.st == h0.st
@fn bigNumber_op_lt_I_I(a, b) @pure
requires iwf(h0), iok(h0, a), iok(h0, b)
ensures
[value] RET == (iv(h0, a) < iv(h0, b))
@fn bigNumber_op_lt_I_i64(a, b)
requires iwf(h0), iok(h0, a)
ensures
[value] RET == (iv(h0, a) < b as int)
[frame] k0(h0, h1), h1.st == h0.st
@fn bigNumber_op_lt_i64_I(a, b)
requires iwf(h0), iok(h0, b)
ensures
[value] RET == ((a as int) < iv(h0, b))
[frame] k0(h0, h1), h1.st == h0.st
@fn bigNumber_op_le_I_I(a, b) @pure
requires iwf(h0), iok(h0, a), iok(h0, b)
ensures
[value] RET == (iv(h0, a) <= iv(h0, b))
@fn bigNumber_op_le_I_i64(a, b)
requires iwf(h0), iok(h0, a)
ensures
[value] RET == (iv(h0, a) <= b as int)
[frame] k0(h0, h1), h1.st == h0.st
@fn bigNumber_op_le_i64_I(a, b)
requires iwf(h0), iok(h0, b)
ensures
[value] RET == ((a as int) <= iv(h0, b))
[frame] k0(h0, h1), h1.st == h0.st
@fn bigNumber_op_gt_I_I(a, b) @pure
requires iwf(h0), iok(h0, a), iok(h0, b)
ensures
[value] RET == (iv(h0, a) > iv(h0, b))
@fn bigNumber_op_gt_I_i64(a, b)
requires iwf(h0), iok(h0, a)
ensures
[value] RET == (iv(h0, a) > b as int)
[frame] k0(h0, h1), h1.st == h0.st
@fn bigNumber_op_gt_i64_I(a, b)
requires iwf(h0), iok(h0, b)
ensures
[value] RET == ((a as int) > iv(h0, b))
[frame] k0(h0, h1), h1.st == h0.st
@fn bigNumber_op_ge_I_I(a, b) @pure
requires iwf(h0), iok(h0, a), iok(h0, b)
ensures
[value] RET == (iv(h0, a) >= iv(h0, b))
@fn bigNumber_op_ge_I_i64(a, b)
requires iwf(h0), iok(h0, a)
ensures
[value] RET == (iv(h0, a) >= b as int)
[frame] k0(h0, h1), h1.st == h0.st
@fn bigNumber_op_ge_i64_I(a, b)
requires iwf(h0), iok(h0, b)
ensures
[value] RET == ((a as int) >= iv(h0, b))
[frame] k0(h0, h1), h1.st == h0.st
@fn Int_getInt64_pbool(w, ok)
requires iwf(h0), iok(h0, w), ok == 0 || h0.bl.dom().contains(ok)
ensures
[value] (-0x8000_0000_0000_0000 <= iv(h0, w) <= 0x7fff_ffff_ffff_ffff) ==> RET == iv(h0, w) && h1.st == 0 && (ok != 0 ==> h1.bl[ok])
[value] !(-0x8000_0000_0000_0000 <= iv(h0, w) <= 0x7fff_ffff_ffff_ffff) ==> RET == 0x7fff_ffff_ffff_ffff && h1.st == 6 && (ok != 0 ==> !h1.bl[ok])
[frame] kB(h0, h1, ok), ok != 0 ==> h1.bl =~= h0.bl.insert(ok, h1.bl[ok])
@hint before Big_flagsContains_u32 0
assert(iok(h@, w)); inv_live(h@, h@.wp[w]);
@hint before Big_toU64 0
assert(iok(h@, w)); inv_live(h@, h@.wp[w]);
@ghost before Big_toU64 0
let ghost g = h@;
@hint after Big_toU64 0
i_flB(g, h@, w); assert(iok(h@, w) && iv(h@, w) == iv(g, w)) by { inv_same(g, h@, h@.wp[w]); } i_same(g, h@, w);
@ghost before status_set 0
let ghost s0 = h@;
@hint after status_set 0
i_st(s0, h@);
@ghost before bool_set 0
let ghost b0 = h@;
@hint after bool_set 0
i_st(b0, h@);
@ghost before status_set 1
let ghost s1 = h@;
@hint after status_set 1
i_st(s1, h@);
@ghost before bool_set 1
let ghost b1 = h@;
@hint after bool_set 1
i_st(b1, h@);
@fn Int_tryGetInt64_ri64(w, res)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (-0x8000_0000_0000_0000 <= iv(h0, w) <= 0x7fff_ffff_ffff_ffff), RET ==> *final(res) == iv(h0, w)
[frame] k0(h0, h1)
@ghost before bool_kill 0
let ghost g = h@;
@hint after bool_kill 0
i_st(g, h@); assert(h@.bl =~= h0.bl);
@fn Int_getUInt64_pbool(w, ok)
requires iwf(h0), iok(h0, w), ok == 0 || h0.bl.dom().contains(ok)
ensures
[value] (0 <= iv(h0, w) < U64()) ==> RET == iv(h0, w) && h1.st == 0 && (ok != 0 ==> h1.bl[ok])
[value] !(0 <= iv(h0, w) < U64()) ==> RET == U64() - 1 && h1.st == 6 && (ok != 0 ==> !h1.bl[ok])
[frame] kB(h0, h1, ok), ok != 0 ==> h1.bl =~= h0.bl.insert(ok, h1.bl[ok])
@hint before Big_flagsContains_u32 0
assert(iok(h@, w)); inv_live(h@, h@.wp[w]);
@hint before Big_toU64 0
assert(iok(h@, w)); inv_live(h@, h@.wp[w]);
@ghost before Big_toU64 0
let ghost g = h@;
@hint after Big_toU64 0
i_flB(g, h@, w); assert(iok(h@, w) && iv(h@, w) == iv(g, w)) by { inv_same(g, h@, h@.wp[w]); } i_same(g, h@, w);
@ghost before status_set 0
let ghost s0 = h@;
@hint after status_set 0
i_st(s0, h@);
@ghost before bool_set 0
let ghost b0 = h@;
@hint after bool_set 0
i_st(b0, h@);
@ghost before status_set 1
let ghost s1 = h@;
@hint after status_set 1
i_st(s1, h@);
@ghost before bool_set 1
let ghost b1 = h@;
@hint after bool_set 1
i_st(b1, h@);
@fn Int_tryGetUInt64_ru64(w, res)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (0 <= iv(h0, w) < U64()), RET ==> *final(res) == iv(h0, w)
[frame] k0(h0, h1)
@ghost before bool_kill 0
let ghost g = h@;
@hint after bool_kill 0
i_st(g, h@); assert(h@.bl =~= h0.bl);
@fn detail_getU64Max(r)
requires iwf(h0), neww(h0, r)
ensures
[value] iv(h1, r) == U64() - 1
[canon] iok(h1, r)
[frame] kI(h0, h1, r), h1.st == h0.st
@hint after Int_op_oreq_i64 0
p2_0(); p2_step(1); let x = 2 * 0x7fff_ffff_ffff_ffffint; tc_or1(x); assert forall |k: int| k >= 0 implies #[trigger] tc(iv(h@, $0), k) == tc(x + 1, k) by {} tc_inj(iv(h@, $0), x + 1);
@fn Int_as_char(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (if iv(h0, w) % 0x100 < 0x80 { iv(h0, w) % 0x100 } else { iv(h0, w) % 0x100 - 0x100 })
[frame] k0(h0, h1), h1.st == h0.st
@hint after Big_toU64 0
i_flB(h0, h@, w); inv_same(h0, h@, h@.wp[w]); i_same(h0, h@, w);
lem_modmod(iv(h0, w));
@fn Int_as_uchar(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == iv(h0, w) % 0x100
[frame] k0(h0, h1), h1.st == h0.st
@hint after Big_toU64 0
i_flB(h0, h@, w); inv_same(h0, h@, h@.wp[w]); i_same(h0, h@, w);
lem_modmod(iv(h0, w));
@fn Int_as_int(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (if iv(h0, w) % 0x100000000 < 0x80000000 { iv(h0, w) % 0x100000000 } else { iv(h0, w) % 0x100000000 - 0x100000000 })
[frame] k0(h0, h1), h1.st == h0.st
@hint after Big_toU64 0
i_flB(h0, h@, w); inv_same(h0, h@, h@.wp[w]); i_same(h0, h@, w);
lem_modmod(iv(h0, w));
@fn Int_as_uint(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == iv(h0, w) % 0x100000000
[frame] k0(h0, h1), h1.st == h0.st
@hint after Big_toU64 0
i_flB(h0, h@, w); inv_same(h0, h@, h@.wp[w]); i_same(h0, h@, w);
lem_modmod(iv(h0, w));
@fn Int_as_short(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (if iv(h0, w) % 0x10000 < 0x8000 { iv(h0, w) % 0x10000 } else { iv(h0, w) % 0x10000 - 0x10000 })
[frame] k0(h0, h1), h1.st == h0.st
@hint after Big_toU64 0
i_flB(h0, h@, w); inv_same(h0, h@, h@.wp[w]); i_same(h0, h@, w);
lem_modmod(iv(h0, w));
@fn Int_as_ushort(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == iv(h0, w) % 0x10000
[frame] k0(h0, h1), h1.st == h0.st
@hint after Big_toU64 0
i_flB(h0, h@, w); inv_same(h0, h@, h@.wp[w]); i_same(h0, h@, w);
lem_modmod(iv(h0, w));
@fn Int_as_long(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (if iv(h0, w) % 0x10000000000000000 < 0x8000000000000000 { iv(h0, w) % 0x10000000000000000 } else { iv(h0, w) % 0x10000000000000000 - 0x10000000000000000 })
[frame] k0(h0, h1), h1.st == h0.st
@hint after Big_toU64 0
i_flB(h0, h@, w); inv_same(h0, h@, h@.wp[w]); i_same(h0, h@, w);
lem_modmod(iv(h0, w));
@fn Int_as_ulong(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == iv(h0, w) % 0x10000000000000000
[frame] k0(h0, h1), h1.st == h0.st
@hint after Big_toU64 0
i_flB(h0, h@, w); inv_same(h0, h@, h@.wp[w]); i_same(h0, h@, w);
lem_modmod(iv(h0, w));
@fn Int_as_llong(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (if iv(h0, w) % 0x10000000000000000 < 0x8000000000000000 { iv(h0, w) % 0x10000000000000000 } else { iv(h0, w) % 0x10000000000000000 - 0x10000000000000000 })
[frame] k0(h0, h1), h1.st == h0.st
@hint after Big_toU64 0
i_flB(h0, h@, w); inv_same(h0, h@, h@.wp[w]); i_same(h0, h@, w);
lem_modmod(iv(h0, w));
@fn Int_as_ullong(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == iv(h0, w) % 0x10000000000000000
[frame] k0(h0, h1), h1.st == h0.st
@hint after Big_toU64 0
i_flB(h0, h@, w); inv_same(h0, h@, h@.wp[w]); i_same(h0, h@, w);
lem_modmod(iv(h0, w));
@fn Int_as_bool(w) @pure
requires iwf(h0), iok(h0, w)
ensures
[value] RET == (iv(h0, w) != 0)
@hint entry
inv_live(h0, h0.wp[w]);
@fn Int_get2sComplement_u64(w, i)
requires iwf(h0), iok(h0, w)
ensures
[value] RET == tc(iv(h0, w), i as int)
[frame] k0(h0, h1), h1.st == h0.st
@hint return
i_flB(h0, h@, w); inv_same(h0, h@, h@.wp[w]); i_same(h0, h@, w);
@fn algo_gcd_I_I(r, x, y)
requires iwf(h0), neww(h0, r), iok(h0, x), iok(h0, y)
ensures
[value] isgcd(iv(h1, r), iv(h0, x), iv(h0, y)), h1.st == h0.st || h1.st == 0
[canon] iok(h1, r)
[frame] kI(h0, h1, r)
@hint after Int_absoluted 1
gcd_abs(iv(h0, x), iv(h0, y));
@hint loop 0 before
gcd_swap(iv(h0, x), iv(h0, y), iabs(iv(h0, x)), iabs(iv(h0, y)));
@loop 0
invariant neww(h0, a), neww(h0, b), a != b, a != r, b != r
invariant iok(h@, a), iok(h@, b), iv(h@, a) >= 0, iv(h@, b) >= 0, neww(h@, r)
[value] samecd(iv(h0, x), iv(h0, y), iv(h@, a), iv(h@, b)), h@.st == h0.st || h@.st == 0
invariant kS(h0, h@, Set::empty().insert(a).insert(b))
decreases iv(h@, a)
@hint before bigNumber_op_mod_I_I 0
gcd_step(iv(h0, x), iv(h0, y), iv(h@, a), iv(h@, b));
@hint loop 0 after
gcd_end(iv(h0, x), iv(h0, y), iv(h@, b));
