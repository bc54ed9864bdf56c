@fn Frac_ctor(f)
requires iwf(h0), newf(h0, f)
ensures
[value] fn_(h1, f) == 0, fd_(h1, f) == 1
[canon] fok(h1, f)
[frame] kF(h0, h1, f), h1.bl == h0.bl, h1.st == h0.st
@fn Frac_ctor_F(f, o)
requires iwf(h0), newf(h0, f), fok(h0, o)
ensures
[value] fn_(h1, f) == fn_(h0, o), fd_(h1, f) == fd_(h0, o)
[canon] fok(h1, f)
[frame] kF(h0, h1, f), h1.bl == h0.bl, h1.st == h0.st
@fn Frac_fix(f) @hide(iwf,binv,iv,isgcd,reduced,cd,dv)
requires iwf(h0), fok(h0, f), fd_(h0, f) != 0
ensures
[value] reduced(fn_(h1, f), fd_(h1, f), fn_(h0, f), fd_(h0, f))
[canon] fok(h1, f)
[frame] kF(h0, h1, f), h1.bl == h0.bl, st0(h0, h1)
@hint before Int_op_diveq_I 0
frac_reduce(iv(h@, g), fn_(h0, f), fd_(h0, f), iabs(fn_(h0, f)), iabs(fd_(h0, f)));
@fn Frac_ctor_mF(f, o) @hide(iwf,binv,iv)
requires iwf(h0), newf(h0, f), o < u64::MAX, h0.wp.dom().contains(o), h0.wp.dom().contains(dn(o))
ensures
[value] fok(h0, o) ==> fn_(h1, f) == fn_(h0, o) && fd_(h1, f) == fd_(h0, o)
[canon] fok(h0, o) ==> fok(h1, f)
[frame] kF2(h0, h1, f, o), h1.wp.dom().contains(f), h1.wp.dom().contains(dn(f)), h1.wp.dom().contains(o), h1.wp.dom().contains(dn(o)), h1.bl == h0.bl, h1.st == h0.st
@fn Frac_ctor_I_I_pbool(f, num, den, ok) @hide(iwf,binv,iv,reduced)
requires bok(h0, ok), iwf(h0), newf(h0, f), iok(h0, num), iok(h0, den)
ensures
[value] iv(h0, den) == 0 ==> h1.st == 1, iv(h0, den) != 0 ==> h1.st == 0, iv(h0, den) != 0 ==> reduced(fn_(h1, f), fd_(h1, f), iv(h0, num), iv(h0, den)), iv(h0, den) == 0 ==> fd_(h1, f) == 0, ok != 0 ==> h1.bl[ok] == (iv(h0, den) != 0)
[canon] fok(h1, f)
[frame] kF(h0, h1, f), ok == 0 ==> h1.bl == h0.bl
@ghost before status_set 0
let ghost s0 = h@;
@hint after status_set 0
i_st(s0, h@);
@ghost before bool_set 0
let ghost b0 = h@;
@hint after bool_set 0
i_st(b0, h@);
@ghost before status_set 1
let ghost s1 = h@;
@hint after status_set 1
i_st(s1, h@);
@ghost before bool_set 1
let ghost b1 = h@;
@hint after bool_set 1
i_st(b1, h@);
@fn Frac_setNum_I(f, num) @hide(iwf,binv,iv,reduced)
requires iwf(h0), fok(h0, f), iok(h0, num), fd_(h0, f) != 0
ensures
[value] reduced(fn_(h1, f), fd_(h1, f), iv(h0, num), fd_(h0, f)), st0(h0, h1)
[canon] fok(h1, f)
[frame] kF(h0, h1, f), h1.bl == h0.bl
@fn Frac_setDen_I_pbool(f, den, ok) @hide(iwf,binv,iv,reduced)
requires bok(h0, ok), iwf(h0), fok(h0, f), iok(h0, den)
ensures
[value] iv(h0, den) == 0 ==> h1.st == 1 && fn_(h1, f) == fn_(h0, f) && fd_(h1, f) == fd_(h0, f), iv(h0, den) != 0 ==> h1.st == 0, iv(h0, den) != 0 ==> reduced(fn_(h1, f), fd_(h1, f), fn_(h0, f), iv(h0, den)), ok != 0 ==> h1.bl[ok] == (iv(h0, den) != 0)
[canon] fok(h1, f)
[frame] kF(h0, h1, f), ok == 0 ==> h1.bl == h0.bl
@ghost before status_set 0
let ghost s0 = h@;
@hint after status_set 0
i_st(s0, h@);
@ghost before bool_set 0
let ghost b0 = h@;
@hint after bool_set 0
i_st(b0, h@);
@ghost before status_set 1
let ghost s1 = h@;
@hint after status_set 1
i_st(s1, h@);
@ghost before bool_set 1
let ghost b1 = h@;
@hint after bool_set 1
i_st(b1, h@);
@fn Frac_getNum(f) @pure
ensures
[value] RET == f
@fn Frac_getDen(f) @pure
requires f < u64::MAX
ensures
[value] RET == dn(f)
@fn Frac_reciprocal_pbool(r, f, ok) @hide(iwf,binv,iv)
requires bok(h0, ok), iwf(h0), newf(h0, r), fok(h0, f)
ensures
[value] fn_(h0, f) == 0 ==> h1.st == 1, fn_(h0, f) != 0 ==> h1.st == 0 && fn_(h1, r) == fd_(h0, f) && fd_(h1, r) == fn_(h0, f), ok != 0 ==> h1.bl[ok] == (fn_(h0, f) != 0)
[canon] fok(h1, r), fd_(h1, r) != 0
[frame] kF(h0, h1, r), ok == 0 ==> h1.bl == h0.bl
@ghost before status_set 0
let ghost s0 = h@;
@hint after status_set 0
i_st(s0, h@);
@ghost before bool_set 0
let ghost b0 = h@;
@hint after bool_set 0
i_st(b0, h@);
@ghost before status_set 1
let ghost s1 = h@;
@hint after status_set 1
i_st(s1, h@);
@ghost before bool_set 1
let ghost b1 = h@;
@hint after bool_set 1
i_st(b1, h@);
@fn experimental_op_add_F_F(r, a, b) @hide(iwf,binv,iv,reduced)
requires iwf(h0), newf(h0, r), fok(h0, a), fok(h0, b), fd_(h0, a) != 0, fd_(h0, b) != 0
ensures
[value] reduced(fn_(h1, r), fd_(h1, r), fn_(h0, a) * fd_(h0, b) + fn_(h0, b) * fd_(h0, a), fd_(h0, a) * fd_(h0, b)), st0(h0, h1)
[canon] fok(h1, r)
[frame] kF(h0, h1, r), h1.bl == h0.bl
@hint before Frac_fix 0
nz_prod(fd_(h0, a), fd_(h0, b));
@fn experimental_op_sub_F_F(r, a, b) @hide(iwf,binv,iv,reduced)
requires iwf(h0), newf(h0, r), fok(h0, a), fok(h0, b), fd_(h0, a) != 0, fd_(h0, b) != 0
ensures
[value] reduced(fn_(h1, r), fd_(h1, r), fn_(h0, a) * fd_(h0, b) - fn_(h0, b) * fd_(h0, a), fd_(h0, a) * fd_(h0, b)), st0(h0, h1)
[canon] fok(h1, r)
[frame] kF(h0, h1, r), h1.bl == h0.bl
@hint before Frac_fix 0
nz_prod(fd_(h0, a), fd_(h0, b));
@fn experimental_op_mul_F_F(r, a, b) @hide(iwf,binv,iv,reduced)
requires iwf(h0), newf(h0, r), fok(h0, a), fok(h0, b), fd_(h0, a) != 0, fd_(h0, b) != 0
ensures
[value] reduced(fn_(h1, r), fd_(h1, r), fn_(h0, a) * fn_(h0, b), fd_(h0, a) * fd_(h0, b)), st0(h0, h1)
[canon] fok(h1, r)
[frame] kF(h0, h1, r), h1.bl == h0.bl
@hint before Frac_fix 0
nz_prod(fd_(h0, a), fd_(h0, b));
@fn experimental_op_div_F_F(r, a, b) @hide(iwf,binv,iv)
requires iwf(h0), newf(h0, r), fok(h0, a), fok(h0, b), fd_(h0, a) != 0, fd_(h0, b) != 0
ensures
[value] fn_(h0, b) == 0 ==> h1.st == 1, fn_(h0, b) != 0 ==> h1.st == 0 && reduced(fn_(h1, r), fd_(h1, r), fn_(h0, a) * fd_(h0, b), fd_(h0, a) * fn_(h0, b))
[canon] fok(h1, r), fd_(h1, r) != 0
[frame] kF(h0, h1, r), h1.bl == h0.bl
@hint before Frac_fix 0
nz_prod(fd_(h0, a), fn_(h0, b));
@ghost before status_set 0
let ghost s0 = h@;
@hint after status_set 0
i_st(s0, h@);
@ghost before status_set 1
let ghost s1 = h@;
@hint after status_set 1
i_st(s1, h@);
@fn Frac_toDecimal_i32(f, k) @hide(iwf,binv,iv,pd,numeral,nvalid,nval)
requires iwf(h0), fok(h0, f), fd_(h0, f) != 0, 0 <= k < 799_999_999
ensures
[value] RET.d@ == decexp(fn_(h0, f), fd_(h0, f), k as int)
[frame] k0(h0, h1), h1.st == h0.st || h1.st == 0
@hint entry
let a = iabs(fn_(h0, f)); let b = iabs(fd_(h0, f)); if k > 0 { dec_digits(a, b, k as int); } tdr_abs(fn_(h0, f), fd_(h0, f)); onez_val(k as int); rp_pos(10, k as int);
@hint after sb_cstr 0
let w = h0.by[$0.c@]; assert(iscstr(w, $0.i as int, 1)); let e = w.subrange($0.i as int, $0.i + 1); assert($r.d@ == e); assert(e =~= seq![49u8]);
@hint after sb_concat 0
assert($r.d@ =~= onez(k as int));
@ghost before sb_c_str 0
let ghost g1 = h@; proof { iwf_wf(g1); }
@hint after sb_c_str 0
i_cp(g1, h@);
@ghost before Int_ctor_str_i32_pbool 0
let ghost g2 = h@;
@hint after Int_ctor_str_i32_pbool 0
assert(sby(g2, $1) == onez(k as int)); assert(nb(g2, h@).st == g2.st); i_st(nb(g2, h@), h@); assert(h@.st == 0); assert(iv(h@, mul) == rpow(10, k as int));
@ghost before bp_kill 0
let ghost g3 = h@;
@hint after bp_kill 0
i_cp(g3, h@); assert(h@.by =~= h0.by);
@hint after Int_toString_i32 0
let a = iabs(fn_(h0, f)); let b = iabs(fd_(h0, f)); let y = ((a % b) * rpow(10, k as int)) / b; nn_prod(a % b, rpow(10, k as int)); tdr_abs((a % b) * rpow(10, k as int), b); assert($r.d@ == numeral(y, 10));
@hint after sb_cstr 1
let w = h0.by[$0.c@]; assert(iscstr(w, $0.i as int, 1)); let e = w.subrange($0.i as int, $0.i + 1); assert($r.d@ == e); assert(e =~= seq![46u8]);
@hint after sb_append 2
let a = iabs(fn_(h0, f)); let b = iabs(fd_(h0, f)); let e = seq![46u8] + pd(((a % b) * rpow(10, k as int)) / b, 10, k as int); assert(digitalDigitsStr.d@ =~= e);
@ghost after Int_cmp_i64 0
let ghost c0 = $r;
@hint after Int_cmp_i64 1
let c1 = $r; assert(-1 <= c0 <= 1 && -1 <= c1 <= 1); assert(c0 * c1 == (if c0 == 0 || c1 == 0 { 0int } else if c0 == c1 { 1 } else { -1 })) by(nonlinear_arith) requires -1 <= c0 <= 1, -1 <= c1 <= 1;
@hint after sb_cstr 2
let s = fn_(h0, f) != 0 && (fn_(h0, f) < 0) != (fd_(h0, f) < 0); let n = if s { 1int } else { 0 }; let w = h0.by[$0.c@]; assert(iscstr(w, $0.i as int, n)); let e = w.subrange($0.i as int, $0.i + n); assert($r.d@ == e); if s { assert(e =~= seq![45u8]); } else { assert(e =~= Seq::<u8>::empty()); }
@hint after sb_concat 2
let e = decexp(fn_(h0, f), fd_(h0, f), k as int); assert($r.d@ =~= e);
