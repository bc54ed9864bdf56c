// ---------------------------------------------------------------- histories in which several objects change
// D: the objects that may have changed (Mag(b) stands for the big b, flags included)
pub open spec fn chg(h0: HS, h1: HS, D: Set<SRef>) -> bool {
  &&& wf(h1) && rest(h0, h1) && cmono(h0, h1) && h1.sl.dom() =~= h0.sl.dom() && h1.bg.dom() =~= h0.bg.dom()
  &&& forall |s2: SRef| !D.contains(s2) && live(h0, s2) ==> #[trigger] h1.sl[s2] == h0.sl[s2]
  &&& forall |s2: SRef| !D.contains(s2) && live(h0, s2) ==> #[trigger] m(h1, s2) == m(h0, s2)
  &&& forall |b2: BId| !D.contains(SRef::Mag(b2)) && h0.bg.dom().contains(b2) ==> #[trigger] h1.bg[b2] == h0.bg[b2]
}
// n: objects that are new
pub open spec fn nuX(h0: HS, h1: HS, W: Set<SRef>, n: Set<SRef>) -> bool {
  &&& wf(h1) && rest(h0, h1) && cmono(h0, h1)
  &&& forall |b2: BId| #[trigger] h1.bg.dom().contains(b2) <==> h0.bg.dom().contains(b2) || n.contains(SRef::Mag(b2))
  &&& forall |s2: SRef| #[trigger] h1.sl.dom().contains(s2) <==> h0.sl.dom().contains(s2) || n.contains(s2)
  &&& forall |s2: SRef| !W.contains(s2) && live(h0, s2) ==> #[trigger] h1.sl[s2] == h0.sl[s2]
  &&& forall |s2: SRef| !W.contains(s2) && live(h0, s2) ==> #[trigger] m(h1, s2) == m(h0, s2)
  &&& forall |b2: BId| !W.contains(SRef::Mag(b2)) && h0.bg.dom().contains(b2) ==> #[trigger] h1.bg[b2] == h0.bg[b2]
  &&& forall |s2: SRef| #![trigger n.contains(s2)] #![trigger h0.sl.dom().contains(s2)] n.contains(s2) ==> !h0.sl.dom().contains(s2)
  &&& forall |b2: BId| #![trigger n.contains(SRef::Mag(b2))] #![trigger h0.bg.dom().contains(b2)] n.contains(SRef::Mag(b2)) ==> !h0.bg.dom().contains(b2)
}
pub open spec fn keepX(h0: HS, h1: HS, D: Set<SRef>) -> bool {
  &&& forall |o: BId| #![trigger binv(h1, o)] #![trigger v(h1, o)] #![trigger mg(h1, o)] #![trigger fl(h1, o)] !D.contains(SRef::Mag(o)) && liveb(h0, o) ==> binv(h1, o) == binv(h0, o) && v(h1, o) == v(h0, o) && mg(h1, o) == mg(h0, o) && fl(h1, o) == fl(h0, o) && lzok(h1, o) == lzok(h0, o)
  &&& forall |o: BId| #[trigger] liveb(h0, o) && !D.contains(SRef::Mag(o)) ==> liveb(h1, o)
  &&& forall |s2: SRef| #![trigger h1.sl[s2]] #![trigger m(h1, s2)] !D.contains(s2) && live(h0, s2) ==> live(h1, s2) && h1.sl[s2] == h0.sl[s2] && m(h1, s2) == m(h0, s2)
  &&& forall |s2: SRef| #![trigger h1.sl.dom().contains(s2)] !D.contains(s2) ==> h1.sl.dom().contains(s2) == h0.sl.dom().contains(s2)
}
pub open spec fn one(s: SRef) -> Set<SRef> { Set::empty().insert(s) }
pub proof fn chg_keep(h0: HS, h1: HS, D: Set<SRef>) requires chg(h0, h1, D) ensures keepX(h0, h1, D) {
  assert forall |o: BId| !D.contains(SRef::Mag(o)) && liveb(h0, o) implies binv(h1, o) == binv(h0, o) && v(h1, o) == v(h0, o) && mg(h1, o) == mg(h0, o) && fl(h1, o) == fl(h0, o) && liveb(h1, o) by {
    assert(live(h0, SRef::Mag(o))); assert(m(h1, SRef::Mag(o)) == m(h0, SRef::Mag(o))); assert(h1.bg[o] == h0.bg[o]); assert(h1.sl.dom().contains(SRef::Mag(o))); }
}
pub proof fn chg_frB(h0: HS, h1: HS, b: BId) requires frB(h0, h1, b) ensures chg(h0, h1, one(SRef::Mag(b))) { }
pub proof fn frB_chg(h0: HS, h1: HS, b: BId) requires chg(h0, h1, one(SRef::Mag(b))) ensures frB(h0, h1, b) {
  let D = one(SRef::Mag(b));
  assert forall |s2: SRef| s2 != SRef::Mag(b) && live(h0, s2) implies h1.sl[s2] == h0.sl[s2] && m(h1, s2) == m(h0, s2) by { assert(!D.contains(s2)); }
  assert forall |b2: BId| b2 != b && h0.bg.dom().contains(b2) implies h1.bg[b2] == h0.bg[b2] by { assert(!D.contains(SRef::Mag(b2))); }
}
pub proof fn chg_frX(h0: HS, h1: HS, s: SRef) requires wf(h1), frX(h0, h1, s) ensures chg(h0, h1, one(s)), h1.bg == h0.bg, h1.st == h0.st { }
pub proof fn chg_st(h0: HS, h1: HS, D: Set<SRef>) requires wf(h0), h1 == (HS { st: h1.st, ..h0 }), forall |s2: SRef| #[trigger] m(h1, s2) == m(h0, s2) ensures chg(h0, h1, D), wf(h1) { }
pub proof fn chg_flB(h0: HS, h1: HS, b: BId) requires wf(h0), flB(h0, h1, b), liveb(h0, b) ensures chg(h0, h1, one(SRef::Mag(b))), h1.st == h0.st, mg(h1, b) == mg(h0, b), liveb(h1, b), h1.sl == h0.sl { frB_fl(h0, h1, b); }
pub proof fn chg_oth2(h0: HS, h1: HS, s: SRef, o: SRef) requires wf(h1), oth2(h0, h1, s, o), h1.sl.dom() =~= h0.sl.dom() ensures chg(h0, h1, one(s).insert(o)), h1.bg == h0.bg, h1.st == h0.st { }
pub proof fn chg_frB2(h0: HS, h1: HS, b: BId, o: BId) requires frB2(h0, h1, b, o) ensures chg(h0, h1, one(SRef::Mag(b)).insert(SRef::Mag(o))) { }
// the vector of slice s, shared with slice u at most
pub open spec fn excl2(h: HS, s: SRef, u: SRef) -> bool { forall |s2: SRef| #![trigger h.sl.dom().contains(s2)] #![trigger cell(h, s2)] s2 != s && s2 != u && h.sl.dom().contains(s2) ==> cell(h, s2) != cell(h, s) }
pub proof fn chg_frS(h0: HS, h1: HS, s: SRef, u: SRef) requires wf(h1), frS(h0, h1, s), excl2(h0, s, u) ensures chg(h0, h1, one(s).insert(u)), h1.bg == h0.bg, h1.st == h0.st {
  assert forall |s2: SRef| !one(s).insert(u).contains(s2) && live(h0, s2) implies m(h1, s2) == m(h0, s2) by { assert(s2 != s && s2 != u); }
}
pub proof fn excl_frS(h0: HS, h1: HS, s: SRef) requires wf(h1), frS(h0, h1, s), excl(h0, s), cell(h1, s) == cell(h0, s) ensures chg(h0, h1, one(s)), h1.bg == h0.bg, h1.st == h0.st, excl(h1, s) {
  assert forall |s2: SRef| !one(s).contains(s2) && live(h0, s2) implies m(h1, s2) == m(h0, s2) by { assert(s2 != s); assert(h0.sl.dom().contains(s2)); }
  assert forall |s2: SRef| s2 != s && h1.sl.dom().contains(s2) implies cell(h1, s2) != cell(h1, s) by { assert(h0.sl.dom().contains(s2)); assert(live(h0, s2)); assert(h1.sl[s2] == h0.sl[s2]); assert(cell(h0, s2) != cell(h0, s)); }
}
pub proof fn it_at(h: HS, s: SRef, i: int) requires wf(h), live(h, s), 0 <= i < m(h, s).len() ensures cnt(h, s) == m(h, s).len(), forall |p: It| #![trigger itok(h, p)] #![trigger h.cells[p.c@][p.i as int]] p.c@ == cell(h, s) && p.i == h.sl[s].lo + i ==> itok(h, p) && h.cells[p.c@][p.i as int] == m(h, s)[i] { }
pub proof fn x_0(h0: HS, W: Set<SRef>) requires wf(h0) ensures nuX(h0, h0, W, Set::empty()) { }
pub proof fn x_step(h0: HS, h1: HS, h2: HS, W: Set<SRef>, n: Set<SRef>, D: Set<SRef>) requires nuX(h0, h1, W, n), chg(h1, h2, D), forall |s: SRef| #[trigger] D.contains(s) ==> W.contains(s) || n.contains(s)
  ensures nuX(h0, h2, W, n), keepX(h1, h2, D), wf(h2), h2.sl.dom() =~= h1.sl.dom(), h2.bg.dom() =~= h1.bg.dom() {
  chg_keep(h1, h2, D);
  assert forall |s2: SRef| !W.contains(s2) && live(h0, s2) implies h2.sl[s2] == h0.sl[s2] && m(h2, s2) == m(h0, s2) by { assert(h1.sl.dom().contains(s2)); assert(live(h1, s2)); assert(!n.contains(s2)); assert(!D.contains(s2)); assert(m(h1, s2) == m(h0, s2)); assert(h1.sl[s2] == h0.sl[s2]); assert(m(h2, s2) == m(h1, s2)); }
  assert forall |b2: BId| !W.contains(SRef::Mag(b2)) && h0.bg.dom().contains(b2) implies h2.bg[b2] == h0.bg[b2] by { assert(h1.bg.dom().contains(b2)); assert(!n.contains(SRef::Mag(b2))); assert(!D.contains(SRef::Mag(b2))); assert(h1.bg[b2] == h0.bg[b2]); }
  assert forall |c: int| h0.cells.dom().contains(c) implies #[trigger] h2.cells.dom().contains(c) by { assert(h1.cells.dom().contains(c)); }
}
pub proof fn x_weak(h0: HS, h1: HS, W0: Set<SRef>, W: Set<SRef>, n: Set<SRef>) requires nuX(h0, h1, W0, n), forall |s: SRef| #[trigger] W0.contains(s) ==> W.contains(s) ensures nuX(h0, h1, W, n) { }
pub proof fn x_new(h0: HS, h1: HS, h2: HS, W: Set<SRef>, n: Set<SRef>, d: BId) requires nuX(h0, h1, W, n), crB(h1, h2, d), newb(h1, d)
  ensures nuX(h0, h2, W, n.insert(SRef::Mag(d))), keepX(h1, h2, one(SRef::Mag(d))), wf(h2), liveb(h2, d), !n.contains(SRef::Mag(d)), !h0.bg.dom().contains(d), h2.st == h1.st {
  assert forall |o: BId| o != d && liveb(h1, o) implies binv(h1, o) == binv(h2, o) && v(h2, o) == v(h1, o) && mg(h2, o) == mg(h1, o) && fl(h2, o) == fl(h1, o) && liveb(h2, o) by { assert(live(h1, SRef::Mag(o))); assert(m(h2, SRef::Mag(o)) == m(h1, SRef::Mag(o))); assert(h2.bg[o] == h1.bg[o]); assert(h2.sl.dom().contains(SRef::Mag(o))); }
  assert forall |o: BId| liveb(h1, o) && !one(SRef::Mag(d)).contains(SRef::Mag(o)) implies o != d by { if o == d { assert(one(SRef::Mag(d)).contains(SRef::Mag(d))); } }
  assert forall |s2: SRef| !W.contains(s2) && live(h0, s2) implies h2.sl[s2] == h0.sl[s2] && m(h2, s2) == m(h0, s2) by { assert(h1.sl.dom().contains(s2)); assert(live(h1, s2)); assert(m(h1, s2) == m(h0, s2)); assert(h1.sl[s2] == h0.sl[s2]); assert(m(h2, s2) == m(h1, s2)); }
  assert forall |b2: BId| !W.contains(SRef::Mag(b2)) && h0.bg.dom().contains(b2) implies h2.bg[b2] == h0.bg[b2] by { assert(h1.bg.dom().contains(b2)); assert(h1.bg[b2] == h0.bg[b2]); }
  assert forall |c: int| h0.cells.dom().contains(c) implies #[trigger] h2.cells.dom().contains(c) by { assert(h1.cells.dom().contains(c)); }
  assert(!h0.sl.dom().contains(SRef::Mag(d))) by { if h0.sl.dom().contains(SRef::Mag(d)) { assert(h1.sl.dom().contains(SRef::Mag(d))); } }
  assert(!h0.bg.dom().contains(d)) by { if h0.bg.dom().contains(d) { assert(h1.bg.dom().contains(d)); } }
  assert(!n.contains(SRef::Mag(d))) by { if n.contains(SRef::Mag(d)) { assert(h1.bg.dom().contains(d)); } }
}
pub proof fn x_newS(h0: HS, h1: HS, h2: HS, W: Set<SRef>, n: Set<SRef>, s: SRef) requires nuX(h0, h1, W, n), crS(h1, h2, s), wf(h2), !h1.sl.dom().contains(s), s is Loc
  ensures nuX(h0, h2, W, n.insert(s)), keepX(h1, h2, one(s)), wf(h2), live(h2, s), !n.contains(s), !live(h0, s), h2.st == h1.st, h2.bg == h1.bg {
  assert forall |o: BId| liveb(h1, o) implies binv(h1, o) == binv(h2, o) && v(h2, o) == v(h1, o) && mg(h2, o) == mg(h1, o) && fl(h2, o) == fl(h1, o) && liveb(h2, o) by { assert(live(h1, SRef::Mag(o))); assert(m(h2, SRef::Mag(o)) == m(h1, SRef::Mag(o))); assert(h2.sl.dom().contains(SRef::Mag(o))); }
  assert forall |s2: SRef| !W.contains(s2) && live(h0, s2) implies h2.sl[s2] == h0.sl[s2] && m(h2, s2) == m(h0, s2) by { assert(h1.sl.dom().contains(s2)); assert(live(h1, s2)); assert(m(h1, s2) == m(h0, s2)); assert(h1.sl[s2] == h0.sl[s2]); assert(m(h2, s2) == m(h1, s2)); }
  assert forall |b2: BId| !W.contains(SRef::Mag(b2)) && h0.bg.dom().contains(b2) implies h2.bg[b2] == h0.bg[b2] by { assert(h1.bg.dom().contains(b2)); assert(h1.bg[b2] == h0.bg[b2]); }
  assert forall |c: int| h0.cells.dom().contains(c) implies #[trigger] h2.cells.dom().contains(c) by { assert(h1.cells.dom().contains(c)); }
  assert(!h0.sl.dom().contains(s)) by { if h0.sl.dom().contains(s) { assert(h1.sl.dom().contains(s)); } }
  assert(!n.contains(s)) by { if n.contains(s) { assert(h1.sl.dom().contains(s)); } }
}
pub proof fn x_kill(h0: HS, h1: HS, h2: HS, W: Set<SRef>, n: Set<SRef>, d: BId) requires nuX(h0, h1, W, n), n.contains(SRef::Mag(d)), !W.contains(SRef::Mag(d)),
    h2 == (HS { sl: h1.sl.remove(SRef::Mag(d)), bg: h1.bg.remove(d), ..h1 }), forall |s2: SRef| s2 != SRef::Mag(d) ==> #[trigger] m(h2, s2) == m(h1, s2)
  ensures nuX(h0, h2, W, n.remove(SRef::Mag(d))), keepX(h1, h2, one(SRef::Mag(d))), wf(h2) {
  assert forall |s2: SRef| h2.sl.dom().contains(s2) implies wfs(h2, s2) by { assert(h1.sl.dom().contains(s2)); assert(wfs(h1, s2)); }
  assert forall |o: BId| liveb(h1, o) && !one(SRef::Mag(d)).contains(SRef::Mag(o)) implies binv(h2, o) == binv(h1, o) && v(h2, o) == v(h1, o) && mg(h2, o) == mg(h1, o) && fl(h2, o) == fl(h1, o) && liveb(h2, o) by { if o == d { assert(one(SRef::Mag(d)).contains(SRef::Mag(d))); } assert(m(h2, SRef::Mag(o)) == m(h1, SRef::Mag(o))); assert(h2.bg[o] == h1.bg[o]); }
  assert forall |s2: SRef| !W.contains(s2) && live(h0, s2) implies h2.sl[s2] == h0.sl[s2] && m(h2, s2) == m(h0, s2) by { assert(h1.sl.dom().contains(s2)); assert(s2 != SRef::Mag(d)); assert(m(h1, s2) == m(h0, s2)); assert(h1.sl[s2] == h0.sl[s2]); }
  assert forall |b2: BId| !W.contains(SRef::Mag(b2)) && h0.bg.dom().contains(b2) implies h2.bg[b2] == h0.bg[b2] by { assert(h1.bg.dom().contains(b2)); assert(h1.bg[b2] == h0.bg[b2]); }
}
pub proof fn x_killS(h0: HS, h1: HS, h2: HS, W: Set<SRef>, n: Set<SRef>, s: SRef) requires nuX(h0, h1, W, n), n.contains(s), !W.contains(s), s is Loc,
    h2 == (HS { sl: h1.sl.remove(s), ..h1 }), forall |s2: SRef| s2 != s ==> #[trigger] m(h2, s2) == m(h1, s2)
  ensures nuX(h0, h2, W, n.remove(s)), keepX(h1, h2, one(s)), wf(h2) {
  assert forall |s2: SRef| h2.sl.dom().contains(s2) implies wfs(h2, s2) by { assert(h1.sl.dom().contains(s2)); assert(wfs(h1, s2)); }
  assert forall |o: BId| liveb(h1, o) implies binv(h2, o) == binv(h1, o) && v(h2, o) == v(h1, o) && mg(h2, o) == mg(h1, o) && fl(h2, o) == fl(h1, o) && liveb(h2, o) by { assert(m(h2, SRef::Mag(o)) == m(h1, SRef::Mag(o))); }
  assert forall |s2: SRef| !W.contains(s2) && live(h0, s2) implies h2.sl[s2] == h0.sl[s2] && m(h2, s2) == m(h0, s2) by { assert(h1.sl.dom().contains(s2)); assert(s2 != s); assert(m(h1, s2) == m(h0, s2)); assert(h1.sl[s2] == h0.sl[s2]); }
  assert forall |b2: BId| !W.contains(SRef::Mag(b2)) && h0.bg.dom().contains(b2) implies h2.bg[b2] == h0.bg[b2] by { assert(h1.bg.dom().contains(b2)); assert(h1.bg[b2] == h0.bg[b2]); }
}
pub proof fn x_end(h0: HS, h1: HS, W: Set<SRef>, n: Set<SRef>) requires nuX(h0, h1, W, n), forall |s: SRef| !n.contains(s) ensures chg(h0, h1, W) { assert(h1.bg.dom() =~= h0.bg.dom()); assert(h1.sl.dom() =~= h0.sl.dom()); }
// only the contents of two vectors changed
pub open spec fn only2(h0: HS, h1: HS, c1: int, c2: int) -> bool {
  &&& h1 == (HS { cells: h1.cells, ..h0 }) && h1.cells.dom() =~= h0.cells.dom() && wf(h1)
  &&& forall |s: SRef| live(h0, s) && cell(h0, s) != c1 && cell(h0, s) != c2 ==> #[trigger] m(h1, s) == m(h0, s)
}
pub proof fn chg_only2(h0: HS, h1: HS, s: SRef, u: SRef, t: SRef) requires only2(h0, h1, cell(h0, s), cell(h0, t)), excl2(h0, s, u), excl(h0, t) ensures chg(h0, h1, one(s).insert(u).insert(t)), h1.bg == h0.bg, h1.st == h0.st {
  assert forall |s2: SRef| !one(s).insert(u).insert(t).contains(s2) && live(h0, s2) implies m(h1, s2) == m(h0, s2) by { assert(s2 != s && s2 != u && s2 != t); assert(h0.sl.dom().contains(s2)); assert(cell(h0, s2) != cell(h0, s)); assert(cell(h0, s2) != cell(h0, t)); }
}
// ---------------------------------------------------------------- long division
pub proof fn qhat(U: Seq<u32>, V: Seq<u32>, n: int, qh: int, rh: int)
  requires n >= 2, U.len() == n + 1, V.len() == n, val(U) < val(V) * B(), 2 * V[n - 1] >= B(), qh == (U[n] * B() + U[n - 1]) / (V[n - 1] as int), rh == (U[n] * B() + U[n - 1]) % (V[n - 1] as int)
  ensures val(U) < (qh + 1) * val(V), 0 <= qh <= B() + 1, 0 <= rh < V[n - 1], 0 <= qh * V[n - 2] < U64(), U[n] * B() + U[n - 1] < U64(), B() * rh + U[n - 2] < U64(),
    qh == B() || qh * V[n - 2] > B() * rh + U[n - 2] ==> val(U) < qh * val(V) && qh >= 1,
    qh == B() + 1 ==> qh * V[n - 2] > B() * rh + U[n - 2],
{
  let vt = V[n - 1] as int; let v2 = V[n - 2] as int; let u0 = U[n] as int; let u1 = U[n - 1] as int; let u2 = U[n - 2] as int;
  let p2 = pw(n - 2); let p = pw(n - 1); pw_step(n - 1); pw_step(n); pw_pos(n - 2); pw_pos(n - 1);
  pv_bound(V, n - 2); pv_bound(U, n - 2); let lv = pv(V, n - 2); let lu = pv(U, n - 2);
  reveal_with_fuel(pv, 4);
  let vv_ = val(V); let uu = val(U); let t2 = u0 * B() + u1;
  assert(p == B() * p2);
  assert(vv_ == lv + v2 * p2 + vt * p);
  assert(uu == lu + u2 * p2 + u1 * p + u0 * (B() * p));
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t2, vt); vstd::arithmetic::div_mod::lemma_mod_bound(t2, vt);
  assert(t2 == vt * qh + rh);
  assert(uu < (t2 + 1) * p) by(nonlinear_arith) requires uu == lu + u2 * p2 + u1 * p + u0 * (B() * p), p == B() * p2, t2 == u0 * B() + u1, lu < p2, u2 <= B() - 1, p2 >= 1;
  assert((t2 + 1) * p <= (qh + 1) * (vt * p)) by(nonlinear_arith) requires t2 == vt * qh + rh, rh <= vt - 1, p >= 1;
  assert(v2 * p2 >= 0) by(nonlinear_arith) requires v2 >= 0, p2 >= 1;
  assert(vt * p <= vv_);
  assert(qh >= 0) by(nonlinear_arith) requires t2 == vt * qh + rh, rh <= vt - 1, vt >= 1, t2 >= 0;
  assert((qh + 1) * (vt * p) <= (qh + 1) * vv_) by(nonlinear_arith) requires qh >= 0, vt * p <= vv_;
  assert(vv_ < (vt + 1) * p) by(nonlinear_arith) requires vv_ == lv + v2 * p2 + vt * p, p == B() * p2, lv < p2, v2 <= B() - 1, p2 >= 1;
  assert(u0 <= vt) by(nonlinear_arith) requires uu < vv_ * B(), vv_ < (vt + 1) * p, uu >= u0 * (B() * p), p >= 1 { if u0 >= vt + 1 { assert(u0 * (B() * p) >= (vt + 1) * (B() * p)) by(nonlinear_arith) requires u0 >= vt + 1, p >= 1; assert((vt + 1) * (B() * p) == (vt + 1) * p * B()) by(nonlinear_arith); assert(vv_ * B() < (vt + 1) * p * B()); } }
  assert(t2 <= vt * B() + B() - 1);
  assert(qh <= B() + 1) by(nonlinear_arith) requires vt * qh + rh <= vt * B() + B() - 1, 2 * vt >= B(), rh >= 0;
  assert(0 <= qh * v2 <= (B() + 1) * (B() - 1)) by(nonlinear_arith) requires 0 <= qh <= B() + 1, 0 <= v2 <= B() - 1;
  if qh == B() { assert(vv_ * B() == qh * vv_) by(nonlinear_arith) requires qh == B(); }
  if qh * v2 > B() * rh + u2 {
    let t3 = t2 * B() + u2; let w2 = vt * B() + v2;
    assert(uu < (t3 + 1) * p2) by(nonlinear_arith) requires uu == lu + u2 * p2 + u1 * p + u0 * (B() * p), p == B() * p2, t2 == u0 * B() + u1, t3 == t2 * B() + u2, lu < p2;
    assert(t3 + 1 <= qh * w2) by(nonlinear_arith) requires t3 == t2 * B() + u2, t2 == vt * qh + rh, qh * v2 >= B() * rh + u2 + 1, w2 == vt * B() + v2;
    assert((t3 + 1) * p2 <= qh * w2 * p2) by(nonlinear_arith) requires t3 + 1 <= qh * w2, p2 >= 1;
    assert(w2 * p2 <= vv_) by(nonlinear_arith) requires vv_ == lv + v2 * p2 + vt * p, p == B() * p2, lv >= 0, w2 == vt * B() + v2;
    assert(qh * w2 * p2 <= qh * vv_) by(nonlinear_arith) requires qh >= 0, w2 * p2 <= vv_;
    assert(qh >= 1) by(nonlinear_arith) requires qh * v2 > B() * rh + u2, rh >= 0, u2 >= 0, qh >= 0;
  }
  if qh == B() + 1 {
    assert(u0 == vt) by(nonlinear_arith) requires t2 == vt * (B() + 1) + rh, t2 == u0 * B() + u1, u1 <= B() - 1, u0 <= vt, rh >= 0, vt >= 1;
    assert(rh == u1 - vt) by(nonlinear_arith) requires t2 == vt * (B() + 1) + rh, t2 == vt * B() + u1;
    assert(u1 <= v2) by { 
      assert(vt * (B() * p) + u1 * p <= uu) by(nonlinear_arith) requires uu == lu + u2 * p2 + u1 * p + u0 * (B() * p), u0 == vt, lu >= 0, u2 >= 0, p2 >= 1;
      assert(vv_ * B() < vt * (B() * p) + (v2 + 1) * p) by(nonlinear_arith) requires vv_ == lv + v2 * p2 + vt * p, p == B() * p2, lv < p2;
      assert(u1 < v2 + 1) by(nonlinear_arith) requires u1 * p < (v2 + 1) * p, p >= 1; }
    assert(qh * v2 == B() * v2 + v2) by(nonlinear_arith) requires qh == B() + 1;
    assert(qh * v2 > B() * rh + u2);
  }
}
// one step of multiply-and-subtract
pub proof fn mulsub(X: Seq<u32>, X2: Seq<u32>, O: Seq<u32>, V: Seq<u32>, k: int, q: int, carry: int, borrow: int, c2: int, bo: int)
  requires 0 <= k < V.len(), X.len() == O.len(), O.len() == V.len() + 1, pv(X, k) == pv(O, k) - q * pv(V, k) + pw(k) * (carry - borrow), c2 == carry + q * V[k], bo == borrow + O[k] - c2 % B(), X2 == X.update(k, (bo % B()) as u32)
  ensures pv(X2, k + 1) == pv(O, k + 1) - q * pv(V, k + 1) + pw(k + 1) * (c2 / B() - bo / B())
{
  reveal_with_fuel(pv, 2); pw_step(k + 1); let p = pw(k); pv_same(X, X2, k);
  let x = bo % B(); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(bo, B()); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c2, B());
  assert(x as u32 as int == x);
  let a = pv(O, k); let s = pv(V, k); let ok = O[k] as int; let vk = V[k] as int; let cq = c2 / B(); let bq = bo / B(); let cr = c2 % B();
  assert(pv(X2, k + 1) == pv(X, k) + x * p); assert(pv(O, k + 1) == a + ok * p); assert(pv(V, k + 1) == s + vk * p);
  assert((a - q * s + p * (carry - borrow)) + x * p == (a + ok * p) - q * (s + vk * p) + (B() * p) * (cq - bq)) by(nonlinear_arith)
    requires x == bo - B() * bq, cr == c2 - B() * cq, bo == borrow + ok - cr, c2 == carry + q * vk;
}
pub proof fn addback(X: Seq<u32>, X2: Seq<u32>, O: Seq<u32>, V: Seq<u32>, k: int, carry: int, c2: int)
  requires 0 <= k < V.len(), X.len() == O.len(), O.len() == V.len() + 1, pv(X, k) == pv(O, k) + pv(V, k) - pw(k) * carry, c2 == carry + O[k] + V[k], X2 == X.update(k, (c2 % B()) as u32)
  ensures pv(X2, k + 1) == pv(O, k + 1) + pv(V, k + 1) - pw(k + 1) * (c2 / B())
{
  reveal_with_fuel(pv, 2); pw_step(k + 1); let p = pw(k); pv_same(X, X2, k);
  let x = c2 % B(); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c2, B()); assert(x as u32 as int == x);
  let cq = c2 / B(); let ok = O[k] as int; let vk = V[k] as int; let a = pv(O, k); let s = pv(V, k);
  assert(a + s - p * carry + x * p == a + ok * p + (s + vk * p) - (B() * p) * cq) by(nonlinear_arith) requires x == c2 - B() * cq, c2 == carry + ok + vk;
}
pub proof fn pv_same(a: Seq<u32>, b: Seq<u32>, k: int) requires 0 <= k, forall |i: int| 0 <= i < k ==> a[i] == b[i] ensures pv(a, k) == pv(b, k) decreases k { if k > 0 { pv_same(a, b, k - 1); } reveal_with_fuel(pv, 2); }
// replacing a window of words
pub proof fn win_upd(a: Seq<u32>, b: Seq<u32>, j: int, n: int) requires 0 <= j, 0 <= n, j + n <= a.len(), a.len() == b.len(), forall |i: int| 0 <= i < a.len() && !(j <= i < j + n) ==> a[i] == b[i]
  ensures val(b) == val(a) + pw(j) * (val(b.subrange(j, j + n)) - val(a.subrange(j, j + n)))
{
  let L = a.len() as int; let wa = a.subrange(j, j + n); let wb = b.subrange(j, j + n);
  pv_split(a, j, L); pv_split(b, j, L); pv_same(a, b, j);
  let ta = a.subrange(j, L); let tb = b.subrange(j, L);
  pv_split(ta, n, L - j); pv_split(tb, n, L - j); assert(ta.subrange(n, L - j) =~= tb.subrange(n, L - j)); pv_same(ta, wa, n); pv_same(tb, wb, n);
  let p = pw(j); let q = pv(ta.subrange(n, L - j), L - j - n); let e = pw(n); let x = val(wa); let y = val(wb); let lo = pv(a, j);
  assert(lo + p * (y + e * q) == lo + p * (x + e * q) + p * (y - x)) by(nonlinear_arith);
}
pub proof fn val_cons(s: Seq<u32>) requires s.len() >= 1 ensures val(s) == s[0] + B() * val(s.subrange(1, s.len() as int)) { pv_split(s, 1, s.len() as int); pw_1(); pw_0(); reveal_with_fuel(pv, 3); }
pub proof fn val_top0(s: Seq<u32>) requires s.len() >= 1, s[s.len() - 1] == 0 ensures val(s) == val(s.subrange(0, s.len() - 1)) { pv_same(s, s.subrange(0, s.len() - 1), s.len() - 1); reveal_with_fuel(pv, 2); }
pub proof fn top0(s: Seq<u32>, n: int) requires s.len() == n + 1, n >= 0, val(s) < pw(n) ensures s[n] == 0 { pv_bound(s, n); let d = s[n] as int; let p = pw(n); reveal_with_fuel(pv, 2); if d >= 1 { assert(d * p >= p) by(nonlinear_arith) requires d >= 1, p >= 1; } }
pub open spec fn sj(j: u64) -> int { if j == 0xffff_ffff_ffff_ffff { -1 } else { j as int } }
// the window below a remainder
pub proof fn win_next(u: Seq<u32>, j: int, n: int, v: int) requires 0 <= j, n >= 1, j + n + 1 <= u.len(), val(u.subrange(j + 1, j + 1 + n)) < v ensures val(u.subrange(j, j + n + 1)) < v * B() {
  let w = u.subrange(j, j + n + 1); val_cons(w); assert(w.subrange(1, n + 1) =~= u.subrange(j + 1, j + 1 + n));
  let x = val(u.subrange(j + 1, j + 1 + n)); assert(w[0] + B() * x < v * B()) by(nonlinear_arith) requires x <= v - 1, w[0] <= B() - 1;
}
pub proof fn win_rem(u: Seq<u32>, j: int, n: int, v: int) requires 0 <= j, n >= 0, j + n + 1 <= u.len(), val(u.subrange(j, j + n + 1)) < v, v <= pw(n) ensures u[j + n] == 0, val(u.subrange(j, j + n)) < v {
  let w = u.subrange(j, j + n + 1); top0(w, n); val_top0(w); assert(w.subrange(0, n) =~= u.subrange(j, j + n));
}
// top words of the scaled divisor and dividend
pub proof fn scaled(a: Seq<u32>, s: Seq<u32>, l: int) requires a.len() >= 1, s.len() == a.len(), val(s) == val(a) * p2(l), 0 <= l < 32, a[a.len() - 1] * p2(l) >= 0x8000_0000 ensures s[s.len() - 1] >= 0x8000_0000 {
  let n = a.len() as int; let p = pw(n - 1); pv_bound(a, n - 1); pv_bound(s, n - 1); let d = p2(l); p2_pos(l); let t = a[n - 1] as int; let z = s[n - 1] as int; let lo = pv(a, n - 1);
  reveal_with_fuel(pv, 2);
  assert(val(a) * d >= t * d * p) by(nonlinear_arith) requires val(a) == lo + t * p, lo >= 0, d >= 1;
  assert(t * d * p >= 0x8000_0000 * p) by(nonlinear_arith) requires t * d >= 0x8000_0000, p >= 1;
  assert(val(s) < (z + 1) * p) by(nonlinear_arith) requires val(s) == pv(s, n - 1) + z * p, pv(s, n - 1) < p;
  if z < 0x8000_0000 { assert((z + 1) * p <= 0x8000_0000 * p) by(nonlinear_arith) requires z + 1 <= 0x8000_0000, p >= 1; }
}
pub proof fn small_top(x: int, l: int) requires 0 <= x < B(), 0 < l < 32 ensures 0 <= x / p2(32 - l) < p2(l), x / p2(32 - l) < 0x8000_0000, x * p2(l) < B() ==> x / p2(32 - l) == 0 {
  p2_lt(l); p2_lt(32 - l); let e = p2(32 - l); let d = p2(l); let q = x / e; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, e);
  assert(0 <= q < d) by(nonlinear_arith) requires x == e * q + x % e, 0 <= x % e, x < d * e, x >= 0, e >= 1, x % e < e;
  p2_mono(l, 31); p2_32();
  if x * d < B() && q >= 1 { assert(x >= e) by(nonlinear_arith) requires x == e * q + x % e, q >= 1, x % e >= 0, e >= 1; assert(x * d >= B()) by(nonlinear_arith) requires x >= e, d * e == B(), d >= 1; }
}
pub proof fn rem_scale(x: int, q: int, y: int, d: int, wv: int) requires d >= 1, wv + (y * d) * q == x * d, 0 <= wv < y * d ensures wv / d == x - q * y, 0 <= x - q * y < y {
  let r = x - q * y; assert(wv == d * r) by(nonlinear_arith) requires wv + (y * d) * q == x * d, r == x - q * y;
  vstd::arithmetic::div_mod::lemma_div_multiples_vanish(r, d);
  assert(0 <= r < y) by(nonlinear_arith) requires 0 <= wv < y * d, wv == d * r, d >= 1;
}
pub proof fn binv_pos(h: HS, b: BId) requires liveb(h, b), f1(fl(h, b)), fb2(fl(h, b)), !fb16(fl(h, b)), norm(mg(h, b)) ensures mg(h, b).len() > 0 ==> binv(h, b), v(h, b) == mv(h, b), mv(h, b) >= 1 ==> mg(h, b).len() > 0, (mv(h, b) == 0) == (mg(h, b).len() == 0) { val_one(mg(h, b)); val_bound(mg(h, b)); }
pub proof fn binz_v(h: HS, b: BId) requires binz(h, b), v(h, b) >= 0 ensures mv(h, b) == v(h, b), norm(mg(h, b)) { val_one(mg(h, b)); val_bound(mg(h, b)); }
// mentions every predicate a contract may hide (the verifier rejects hiding what a function does not reach)
pub proof fn cnt_len(h: HS, s: SRef) requires wf(h), live(h, s) ensures cnt(h, s) == m(h, s).len() { }
// sign and flags of a canonical value
pub proof fn bsg(h: HS, b: BId) requires binv(h, b) ensures fb1(fl(h, b)) == (v(h, b) == 0), fb2(fl(h, b)) == (v(h, b) > 0), fb4(fl(h, b)) == (v(h, b) < 0), mv(h, b) == iabs(v(h, b)), (mg(h, b).len() == 0) == (v(h, b) == 0), norm(mg(h, b)), liveb(h, b), lzok(h, b), f1(fl(h, b)) { val_one(mg(h, b)); val_bound(mg(h, b)); }
pub proof fn sg(h0: HS, h1: HS, b: BId) requires wf(h0), flB(h0, h1, b), liveb(h0, b), f1(fl(h1, b)), !fb1(fl(h1, b)), mg(h0, b).len() > 0, norm(mg(h0, b)), lzok(h0, b), fb16(fl(h1, b)) == fb16(fl(h0, b)) && h1.bg[b].lazy == h0.bg[b].lazy
  ensures chg(h0, h1, one(SRef::Mag(b))), h1.st == h0.st, mg(h1, b) == mg(h0, b), binv(h1, b), v(h1, b) == (if fb2(fl(h1, b)) { mv(h0, b) } else { -mv(h0, b) }), v(h1, b) != 0 { chg_flB(h0, h1, b); val_one(mg(h0, b)); val_bound(mg(h0, b)); }
pub proof fn pos_b(h: HS, b: BId) requires liveb(h, b), norm(mg(h, b)), mg(h, b).len() > 0, fb2(fl(h, b)), f1(fl(h, b)), lzok(h, b) ensures binv(h, b), v(h, b) == mv(h, b), mv(h, b) >= 1 { val_one(mg(h, b)); val_bound(mg(h, b)); }
pub proof fn lz0(h: HS, b: BId) ensures !fb16(fl(h, b)) ==> lzok(h, b) { }
pub proof fn bl(h: HS, b: BId) requires binv(h, b) ensures lzok(h, b), liveb(h, b), f1(fl(h, b)) { }
pub proof fn d1(va: int, k: int, r: int, u: int, vb: int) requires va == k * u + r, u >= 1, va >= 0 ==> 0 <= r < u, va <= 0 ==> -u < r <= 0, vb == u || vb == -u
  ensures va > 0 ==> k >= 0, va < 0 ==> k <= 0, va == (if vb > 0 { k } else { -k }) * vb + r {
  assert((va > 0 ==> k >= 0) && (va < 0 ==> k <= 0)) by(nonlinear_arith) requires va == k * u + r, u >= 1, va >= 0 ==> 0 <= r < u, va <= 0 ==> -u < r <= 0;
  assert((-k) * (-u) == k * u) by(nonlinear_arith);
}
// quotient and remainder of the division that truncates towards zero
pub open spec fn tdiv(a: int, b: int) -> int { if (a >= 0) == (b >= 0) { iabs(a) / iabs(b) } else { -(iabs(a) / iabs(b)) } }
pub open spec fn trem(a: int, b: int) -> int { if a >= 0 { iabs(a) % iabs(b) } else { -(iabs(a) % iabs(b)) } }
pub proof fn tuniq(a: int, b: int, q: int, r: int) requires b != 0, a == q * b + r, a >= 0 ==> 0 <= r < iabs(b), a <= 0 ==> -iabs(b) < r <= 0 ensures q == tdiv(a, b), r == trem(a, b) {
  let x = iabs(a); let y = iabs(b); let qq = if (a >= 0) == (b >= 0) { q } else { -q }; let rr = iabs(r);
  assert((-q) * b == -(q * b) && q * (-b) == -(q * b) && (-q) * (-b) == q * b) by(nonlinear_arith);
  assert(x == qq * y + rr);
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, y, qq, rr);
}
// what keepX says about one object
pub open spec fn kept(h0: HS, h1: HS, D: Set<SRef>, o: BId) -> bool { !D.contains(SRef::Mag(o)) && liveb(h0, o) ==> liveb(h1, o) && binv(h1, o) == binv(h0, o) && v(h1, o) == v(h0, o) && mg(h1, o) == mg(h0, o) && fl(h1, o) == fl(h0, o) && lzok(h1, o) == lzok(h0, o) }
pub proof fn kp2(h0: HS, h1: HS, D: Set<SRef>, o: BId, p: BId) requires keepX(h0, h1, D) ensures kept(h0, h1, D, o), kept(h0, h1, D, p) { }
pub proof fn kp4(h0: HS, h1: HS, D: Set<SRef>, o: BId, p: BId, q: BId, r: BId) requires keepX(h0, h1, D) ensures kept(h0, h1, D, o), kept(h0, h1, D, p), kept(h0, h1, D, q), kept(h0, h1, D, r) { }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
pub proof fn norm_cmp(a: Seq<u32>, b: Seq<u32>) requires norm(a), norm(b) ensures val(a) >= val(b) ==> a.len() >= b.len() {
  val_bound(a); val_bound(b); pw_0(); if b.len() > 0 { norm_iff(b); if a.len() < b.len() { pw_mono(a.len() as int, b.len() - 1); } }
}
pub open spec fn hide_all(h: HS) -> bool {
  let e = Set::<BId>::empty(); let b = Seq::<BId>::empty(); let s = SRef::Mag(0); let t = Set::<SRef>::empty();
  v(h, 0) == 0 && binv(h, 0) && frB(h, h, 0) && crB(h, h, 0) && crV(h, h, b) && kiV(h, h, b) && nuN(h, h, 0, e) && wf(h) && m(h, s).len() == 0 && excl(h, s) && frX(h, h, s) && flB(h, h, 0) && cmono(h, h) && disj(b, e)
  && crS(h, h, s) && oth2(h, h, s, s) && frB2(h, h, 0, 0) && frS(h, h, s) && nuX(h, h, t, t) && chg(h, h, t) && keepX(h, h, t) && only2(h, h, 0, 0) && frW(h, h, 0) && fnz(m(h, s), 0)
}
