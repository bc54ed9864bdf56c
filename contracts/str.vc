@fn detail_getDigitCountPerU32_i32(radix) @pure
requires 2 <= radix <= 36
ensures
[value] RET == D32(radix as int)
@fn detail_getU32BlockRadix_i32(radix) @pure
requires 2 <= radix <= 36
ensures
[value] RET == K32(radix as int)
@fn detail_getDigitCountPerU64_i32(radix) @pure
requires 2 <= radix <= 36
ensures
[value] RET == D64(radix as int)
@fn detail_getU64BlockRadix_i32(radix) @pure
requires 2 <= radix <= 36
ensures
[value] v(h0, RET) == K64(radix as int), RET != 0
[canon] binv(h0, RET)
@fn detail_getZerosStr_i32(count) @pure
requires 0 <= count <= 63
ensures
[value] brg(h0, RET.c@, RET.i as int, RET.i + count + 1), forall |k: int| RET.i <= k < RET.i + count ==> #[trigger] h0.by[RET.c@][k] == 48
@fn detail_getBitCountByDigitCount_u64_i32(n, radix) @pure
requires 2 <= radix <= 36, n <= MAXN()
ensures
[value] 1 <= RET <= 0x10_0000_0000_0000, n <= 800_000_000 ==> RET + 31 < 0x100000000
@hint return
let x = n as int; let y = t1_ as int; assert(0 <= y <= 5295); assert(0 <= x * y <= x * 5295) by(nonlinear_arith) requires 0 <= y <= 5295, x >= 0;
@fn Big_fromString_str_i32_pbool(b, s, radix, ok) @hide(nuX, crB, crS, oth2, frB2, flB, frX, frB, frS, nuN, chg, cmono, wf, m, excl, fcspec)
requires wf(h0), binv(h0, b), strok(h0, s), ok == 0 || h0.bl.dom().contains(ok)
ensures
[value] RET == b, h1.st == 0 ==> nvalid(sby(h0, s), radix as int) && v(h1, b) == nval(sby(h0, s), radix as int) && h1.bl == blset(h0, ok, true)
[value] h1.st != 0 ==> (!nvalid(sby(h0, s), radix as int) || s.len > 800_000_000) && v(h1, b) == v(h0, b) && h1.bl == blset(h0, ok, false)
[canon] binv(h1, b)
[frame] chg(h0, HS { bl: h0.bl, ..h1 }, one(SRef::Mag(b)))
@ghost entry
let ghost q = sby(h0, s); let ghost r = radix as int; let ghost sb = SRef::Mag(b); let ghost W = one(sb); let ghost E = Set::<SRef>::empty(); proof { x_0(h0, W); x_end(h0, h0, W, E); assert(W.contains(sb)); }
@hint return 0
x_done(h0, h0, h@, W);
@hint return 1
x_done(h0, h0, h@, W); assert(q.len() == 0);
@hint return 2
x_done(h0, h0, h@, W); if negIndex != 0 { assert(q[negIndex as int] == 45); if nvalid(q, r) { assert(isd(q[negIndex as int], r)); } } else { assert(q[0] == 45); assert(q[posiIndex as int] == 43); if nvalid(q, r) { assert(isd(q[posiIndex as int], r)); } }
@hint return 3
x_done(h0, h0, h@, W); assert(q[posiIndex as int] == 43); if nvalid(q, r) { assert(isd(q[posiIndex as int], r)); }
@hint return 4
x_done(h0, h0, h@, W);
@ghost before str_find_first_not_of 0
let ghost p0 = pos as int; proof { assert(q.len() == s.len); assert(sigNum == (if q[0] == 45 { -1int } else { 1 })); assert(p0 == sgl(q)); }
@hint after str_find_first_not_of 0
let z = if $r == 0xffff_ffff_ffff_ffff { q.len() as int } else { $r as int }; nval_z(q, p0, z, r);
@ghost after Big_beZero 0
proof { chg_frB(h0, h@, b); c_by(h0, h@, W); } let ghost g1 = h@;
@hint return 5
x_done(h0, g1, h@, W); assert(nm(q, q.len() as int, q.len() as int, r) == 0);
@ghost after Big_ctor 0
let ghost z = pos as int; let ghost g1 = h@; let ghost st = SRef::Mag(temp); let ghost n1 = E.insert(st); proof { x_new(h0, h0, g1, W, E, temp); assert(temp != b); assert(!W.contains(st)) by { if W.contains(st) { assert(st == sb); } } inv_live(g1, temp); }
@ghost after Big_setFlagsToPositive 0
let ghost g2 = h@; proof { chg_flB(g1, g2, temp); x_step(h0, g1, g2, W, n1, one(st)); x_by(h0, g2, W, n1); }
@ghost after big_kill 0
let ghost gk = HS { sl: g2.sl.remove(st), bg: g2.bg.remove(temp), ..g2 }; proof { reveal(m); x_kill(h0, g2, gk, W, n1, temp); x_end(h0, gk, W, n1.remove(st)); x_done(h0, gk, h@, W); chg_keep(h0, gk, W); }
@ghost before from_chars 0
let ghost m0 = mag0 as int; proof { lem_blk0(digitCnt as int, D32(r)); lem_d32(r); assert(q[z] != 48); }
@hint after from_chars 0
let fb = fistBlockDigitCnt as int; fc_block(h@, q, s, $0, $1, z, fb, r, m0, mag0 as int, $r); if alld(q, z, z + fb, r) { nm_lead(q, z, z + fb, r); }
@ghost after big_kill 1
let ghost gk = HS { sl: g2.sl.remove(st), bg: g2.bg.remove(temp), ..g2 }; proof { reveal(m); x_kill(h0, g2, gk, W, n1, temp); x_end(h0, gk, W, n1.remove(st)); x_done(h0, gk, h@, W); chg_keep(h0, gk, W); }
@ghost before Slice_append_u32 0
proof { assert(excl(g2, st)) by { reveal(excl); } }
@ghost after Slice_append_u32 0
let ghost g3 = h@; proof { excl_frS(g2, g3, st); x_step(h0, g2, g3, W, n1, one(st)); x_by(h0, g3, W, n1); assert(mg(g2, temp).len() == 0); val_1(mg(g3, temp)); assert(binv(g3, temp)); assert(v(g3, temp) == mag0); }
@loop 0
invariant nuX(h0, h@, W, n1), binv(h@, temp), binv(h@, b), wf(h@), v(h@, b) == v(h0, b), h@.by == h0.by, h@.bl == h0.bl
invariant v(h@, temp) == nm(q, z, pos as int, r), alld(q, z, pos as int, r), v(h@, temp) > 0, z < pos <= slen, (slen - pos) % D32(r) == 0
decreases slen - pos
@ghost before from_chars 1
let ghost v0 = blockValue as int; let ghost c0 = h@; let ghost ps = pos as int; proof { lem_blk(slen as int, D32(r), ps); }
@hint after from_chars 1
fc_block(h@, q, s, $0, $1, ps, D32(r), r, v0, blockValue as int, $r); if alld(q, ps, ps + D32(r), r) { nm_lead(q, z, ps, r); }
@ghost after big_kill 2
let ghost gk = HS { sl: c0.sl.remove(st), bg: c0.bg.remove(temp), ..c0 }; proof { reveal(m); x_kill(h0, c0, gk, W, n1, temp); x_end(h0, gk, W, n1.remove(st)); x_done(h0, gk, h@, W); chg_keep(h0, gk, W); }
@ghost after Big_mulAssign_i64 0
let ghost c1 = h@; proof { chg_frB(c0, c1, temp); x_step(h0, c0, c1, W, n1, one(st)); assert(v(c1, temp) == nm(q, z, ps, r) * K32(r)); }
@ghost after Big_addAssign_i64 0
let ghost c2 = h@; proof { chg_frB(c1, c2, temp); x_step(h0, c1, c2, W, n1, one(st)); x_by(h0, c2, W, n1); nm_split(q, z, ps, ps + D32(r), r); nm_lead(q, z, ps + D32(r), r); }
@ghost before Big_assign_mB 0
let ghost d1 = h@; proof { if q[0] == 45 { } inv_sign(d0, d1, temp); chg_flB(d0, d1, temp); x_step(h0, d0, d1, W, n1, one(st)); }
@ghost loop 0 after
let ghost d0 = h@; proof { inv_live(d0, temp); }
@ghost after Big_assign_mB 0
let ghost d2 = h@; proof { chg_frB2(d1, d2, b, temp); x_step(h0, d1, d2, W, n1, one(sb).insert(st)); x_by(h0, d2, W, n1); }
@ghost after big_kill 3
let ghost gk = HS { sl: d2.sl.remove(st), bg: d2.bg.remove(temp), ..d2 }; proof { reveal(m); x_kill(h0, d2, gk, W, n1, temp); x_end(h0, gk, W, n1.remove(st)); x_done(h0, gk, h@, W); }
@fn Big_ctor_str_i32_pbool(b, s, radix, ok)
requires wf(h0), newb(h0, b), strok(h0, s), ok == 0 || h0.bl.dom().contains(ok)
ensures
[value] parsed(h0, h1, sby(h0, s), radix as int, ok, 0, v(h1, b))
[canon] binv(h1, b)
[frame] crB(h0, nb(h0, h1), b), wf(h1)
@ghost before Big_fromString_str_i32_pbool 0
let ghost g = h@; proof { assert(crB(h0, g, b)); assert(binv(g, b)); assert(v(g, b) == 0); assert(sby(g, s) == sby(h0, s)); }
@hint after Big_fromString_str_i32_pbool 0
nb_chg(g, h@, one(SRef::Mag(b))); assert(nb(g, h@) == nb(h0, h@)); cr_chg(h0, g, nb(h0, h@), b); nb_wf(h0, h@);
@fn Int_assign_str_i32_pbool(w, s, radix, ok)
requires iwf(h0), iok(h0, w), strok(h0, s), ok == 0 || h0.bl.dom().contains(ok)
ensures
[value] RET == w, parsed(h0, h1, sby(h0, s), radix as int, ok, iv(h0, w), iv(h1, w))
[canon] iok(h1, w)
[frame] kI(h0, nb(h0, h1), w)
@hint after Big_fromString_str_i32_pbool 0
nb_chg(h0, h@, one(SRef::Mag(h0.wp[w]))); i_chg(h0, nb(h0, h@), w); nb_wf(h0, h@);
@fn Int_ctor_str_i32_pbool(w, s, radix, ok)
requires iwf(h0), neww(h0, w), strok(h0, s), ok == 0 || h0.bl.dom().contains(ok)
ensures
[value] parsed(h0, h1, sby(h0, s), radix as int, ok, 0, iv(h1, w))
[canon] iok(h1, w)
[frame] kI(h0, nb(h0, h1), w)
@hint after Big_ctor_str_i32_pbool 0
nb_wf(h0, h@); i_cr(h0, nb(h0, h@), $0);
@ghost before int_set_impl 0
let ghost g = h@;
@hint after int_set_impl 0
assert(iwf(g)); i_own(g, h@, w, $1); i_own(nb(h0, g), nb(h0, h@), w, $1); nb_wf(h0, h@);
@fn Big_toString_i32(b, radix) @hide(nuX, crB, crS, oth2, frB2, flB, frX, frB, frS, nuN, chg, cmono, wf, m, excl)
requires wf(h0), binv(h0, b), 2 <= radix <= 36
ensures
[value] RET.d@ == numeral(v(h0, b), radix as int)
[frame] chg(h0, h1, Set::empty()), h1.st == h0.st || h1.st == 0
@ghost entry
let ghost A = v(h0, b); let ghost a = if A < 0 { -A } else { A }; let ghost r0 = radix as int; let ghost by0 = h0.by; let ghost E = Set::<SRef>::empty(); proof { x_0(h0, E); x_end(h0, h0, E, E); inv_live(h0, b); y_wf(by0, h0); lem_d64(r0); }
@hint after sb_cstr 0
let w = h0.by[$0.c@]; assert(iscstr(w, $0.i as int, 1)); let e = w.subrange($0.i as int, $0.i + 1); assert($r.d@ == e); assert(e =~= seq![48u8]); assert(A == 0);
@hint after sb_cstr 1
let n = if A < 0 { 1int } else { 0 }; let w = h0.by[$0.c@]; assert(iscstr(w, $0.i as int, n)); let e = w.subrange($0.i as int, $0.i + n); assert($r.d@ == e); if A < 0 { assert(e =~= seq![45u8]); } else { assert(e =~= Seq::<u8>::empty()); } assert($r.d@ == (if A < 0 { seq![45u8] } else { Seq::<u8>::empty() }));
@ghost before Slice_count 0
let ghost sg = res.d@;
@ghost after bp_local 0
let ghost g0 = h@; let ghost bc = $r.c@; proof { y_same(by0, h0, g0); y_wf(by0, g0); assert(binv(g0, b) && v(g0, b) == A); }
@ghost after Big_ctor 0
let ghost g1 = h@; let ghost sr = SRef::Mag(r); let ghost n1 = E.insert(sr); proof { y_wf(by0, g1); y_cr(by0, g0, g1, r); x_new(h0, sby0(by0, g0), sby0(by0, g1), E, E, r); }
@ghost after Big_ctor_B 0
let ghost g2 = h@; let ghost st = SRef::Mag(temp); let ghost n2 = n1.insert(st); proof { y_wf(by0, g2); y_cr(by0, g1, g2, temp); x_new(h0, sby0(by0, g1), sby0(by0, g2), E, n1, temp); inv_live(g2, temp); }
@ghost after Big_abs 0
let ghost g3 = h@; proof { y_wf(by0, g3); chg_flB(g2, g3, temp); y_chg(by0, g2, g3, one(st)); x_step(h0, sby0(by0, g2), sby0(by0, g3), E, n2, one(st)); ts_start(a, r0); assert(strs@ =~= Seq::<Sb>::empty()); }
@loop 0 iso
invariant r0 == radix, 2 <= radix <= 36, bc == buf.c@, bc != 0, buf.i == 0, st == SRef::Mag(temp), sr == SRef::Mag(r), st != sr, n2 == E.insert(sr).insert(st), E == Set::<SRef>::empty(), a > 0, !n2.contains(SRef::Mag(blockRadix))
invariant nuX(h0, sby0(by0, h@), E, n2), wf(h@), liveb(h@, r), binv(h@, temp), binv(h@, blockRadix), v(h@, blockRadix) == K64(r0), tsinv(a, v(h@, temp), strs@, r0)
invariant h@.by.dom().contains(bc), h@.by[bc].len() == 65, h@.by.remove(bc) =~= by0, h@.st == h0.st || h@.st == 0
exit v(h@, temp) == 0
decreases v(h@, temp)
@hint loop 0 body
inv_live(h@, temp);
@ghost before Big_divideAssignAndReminder_B_rB 0
let ghost c0 = h@; let ghost t0 = v(c0, temp); let ghost s0 = strs@;
@ghost after Big_divideAssignAndReminder_B_rB 0
let ghost c1 = h@; let ghost D = one(st).insert(sr); proof { y_wf(by0, c1); y_chg(by0, c0, c1, D); x_step(h0, sby0(by0, c0), sby0(by0, c1), E, n2, D); chg_keep(c0, c1, D); assert(!D.contains(SRef::Mag(blockRadix))); }
@ghost after Big_toU64 0
let ghost c2 = h@; proof { y_wf(by0, c2); chg_flB(c1, c2, r); y_chg(by0, c1, c2, one(sr)); x_step(h0, sby0(by0, c1), sby0(by0, c2), E, n2, one(sr)); chg_keep(c1, c2, one(sr)); }
@ghost before to_chars 0
let ghost y = trem(t0, K64(r0)); let ghost q0 = tdiv(t0, K64(r0)); proof { ts_step(a, t0, s0, q0, y, Sb { d: Ghost(unum(y, r0)) }, r0); assert(u64 == y) by { assert(y == v(c1, r)); vstd::arithmetic::div_mod::lemma_small_mod(y as nat, U64() as nat); } lem_d64(r0); pd_unum(y, r0, D64(r0)); }
@ghost after to_chars 0
let ghost c3 = h@; proof { y_same(by0, c2, c3); y_wf(by0, c3); assert(c3.by.remove(bc) =~= by0); }
@hint after vecs_push 0
ts_step(a, t0, s0, q0, y, t20_, r0); assert(strs@ =~= s0.push(t20_));
@ghost loop 0 after
let ghost e0 = h@; let ghost ss = strs@; let ghost N = ss.len() as int; proof { inv_live(e0, temp); assert(v(e0, temp) == 0); }
@ghost loop 1 before
let ghost s1 = strs@; proof { catp_ext(ss, s1, N - 1, D64(r0)); assert(s1 =~= ss.subrange(0, N - 1)); assert(res.d@ + catp(s1, N - 1, D64(r0)) =~= sg + digs(a, r0)); }
@loop 1 iso
invariant e0 == h@, wf(h@), r0 == radix, 2 <= r0 <= 36, digitCountPerU64 == D64(r0), strs@ == s1, forall |j: int| 0 <= j < s1.len() ==> 1 <= #[trigger] s1[j].d@.len() <= D64(r0), s1.len() == N - 1, N >= 1, 0 <= iter <= N - 1, rend == N - 1, res.d@ + catp(s1, N - 1 - iter, D64(r0)) =~= sg + digs(a, r0)
exit iter == N - 1
decreases N - 1 - iter
@ghost loop 1 body
let ghost k = N - 1 - iter; let ghost R0 = res.d@; proof { lem_d64(r0); }
@hint after sb_range 1
assert($r.d@ =~= nulls($1 as int));
@hint loop 1 end
assert(res.d@ + catp(s1, k - 1, D64(r0)) =~= R0 + (padz(s1[k - 1].d@, D64(r0)) + catp(s1, k - 1, D64(r0))));
@ghost after big_kill 0
let ghost k1 = h@; proof { y_kill(by0, h0, e0, k1, E, n2, temp); assert(n2.remove(st) =~= n1); }
@ghost after big_kill 1
let ghost k2 = h@; proof { y_kill(by0, h0, k1, k2, E, n1, r); let z = n1.remove(sr); assert forall |s: SRef| !z.contains(s) by { } x_end(h0, sby0(by0, k2), E, z); }
@hint return 1
assert(h@ == sby0(by0, k2)); assert(res.d@ =~= numeral(A, r0));
@fn Int_toString_i32(w, radix)
requires iwf(h0), iok(h0, w), 2 <= radix <= 36
ensures
[value] RET.d@ == numeral(iv(h0, w), radix as int)
[frame] k0(h0, h1), h1.st == h0.st || h1.st == 0
@hint after Big_toString_i32 0
i_chg0(h0, h@);
@fn Int_as_sb(w)
requires iwf(h0), iok(h0, w)
ensures
[value] RET.d@ == numeral(iv(h0, w), 10)
[frame] k0(h0, h1), h1.st == h0.st || h1.st == 0
