// ---------------------------------------------------------------- BigInteger objects: each owns the BigIntegerImpl its m_pImpl points to (0: moved from)
pub open spec fn iv(h: HS, w: WId) -> int { v(h, h.wp[w]) }
pub open spec fn iok(h: HS, w: WId) -> bool { h.wp.dom().contains(w) && h.wp[w] != 0 && binv(h, h.wp[w]) }
pub open spec fn iwf(h: HS) -> bool {
  &&& wf(h)
  &&& forall |w: WId| #[trigger] h.wp.dom().contains(w) && h.wp[w] != 0 ==> liveb(h, h.wp[w])
  &&& forall |w1: WId, w2: WId| #![trigger h.wp.dom().contains(w1), h.wp.dom().contains(w2)] w1 != w2 && h.wp.dom().contains(w1) && h.wp.dom().contains(w2) && h.wp[w1] != 0 ==> h.wp[w1] != h.wp[w2]
}
pub open spec fn neww(h: HS, w: WId) -> bool { !h.wp.dom().contains(w) }
pub open spec fn irest(h0: HS, h1: HS) -> bool { h1.cp == h0.cp && h1.bl == h0.bl && h1.by == h0.by }
// every BigInteger outside S keeps its existence and its value
pub open spec fn kS(h0: HS, h1: HS, S: Set<WId>) -> bool {
  &&& iwf(h1) && irest(h0, h1)
  &&& forall |w2: WId| #![trigger iok(h1, w2)] #![trigger iv(h1, w2)] #![trigger h1.wp.dom().contains(w2)] #![trigger h1.wp[w2]] !S.contains(w2) ==> h1.wp.dom().contains(w2) == h0.wp.dom().contains(w2) && (iok(h0, w2) ==> iok(h1, w2) && iv(h1, w2) == iv(h0, w2))
}
pub open spec fn kI(h0: HS, h1: HS, w: WId) -> bool {
  &&& iwf(h1) && irest(h0, h1)
  &&& forall |w2: WId| #![trigger iok(h1, w2)] #![trigger iv(h1, w2)] #![trigger h1.wp.dom().contains(w2)] #![trigger h1.wp[w2]] w2 != w ==> h1.wp.dom().contains(w2) == h0.wp.dom().contains(w2) && (iok(h0, w2) ==> iok(h1, w2) && iv(h1, w2) == iv(h0, w2))
}
pub open spec fn kI2(h0: HS, h1: HS, w: WId, o: WId) -> bool {
  &&& iwf(h1) && irest(h0, h1)
  &&& forall |w2: WId| #![trigger iok(h1, w2)] #![trigger iv(h1, w2)] #![trigger h1.wp.dom().contains(w2)] #![trigger h1.wp[w2]] w2 != w && w2 != o ==> h1.wp.dom().contains(w2) == h0.wp.dom().contains(w2) && (iok(h0, w2) ==> iok(h1, w2) && iv(h1, w2) == iv(h0, w2))
}
pub open spec fn k0(h0: HS, h1: HS) -> bool {
  &&& iwf(h1) && irest(h0, h1)
  &&& forall |w2: WId| #![trigger iok(h1, w2)] #![trigger iv(h1, w2)] #![trigger h1.wp.dom().contains(w2)] #![trigger h1.wp[w2]] h1.wp.dom().contains(w2) == h0.wp.dom().contains(w2) && (iok(h0, w2) ==> iok(h1, w2) && iv(h1, w2) == iv(h0, w2))
}
pub proof fn i_keep(h0: HS, h1: HS, D: Set<SRef>) requires iwf(h0), chg(h0, h1, D)
  ensures iwf(h1), h1.wp == h0.wp, irest(h0, h1), forall |w2: WId| #![trigger iok(h1, w2)] #![trigger iv(h1, w2)] h0.wp.dom().contains(w2) && h0.wp[w2] != 0 && !D.contains(SRef::Mag(h0.wp[w2])) ==> iok(h1, w2) == iok(h0, w2) && iv(h1, w2) == iv(h0, w2)
{
  chg_keep(h0, h1, D);
  assert forall |w: WId| #[trigger] h1.wp.dom().contains(w) && h1.wp[w] != 0 implies liveb(h1, h1.wp[w]) by { assert(h0.wp.dom().contains(w)); assert(liveb(h0, h0.wp[w])); assert(h0.sl.dom().contains(SRef::Mag(h0.wp[w]))); }
  assert forall |w1: WId, w2: WId| #![trigger h1.wp.dom().contains(w1), h1.wp.dom().contains(w2)] w1 != w2 && h1.wp.dom().contains(w1) && h1.wp.dom().contains(w2) && h1.wp[w1] != 0 implies h1.wp[w1] != h1.wp[w2] by { assert(h0.wp.dom().contains(w1) && h0.wp.dom().contains(w2)); }
  assert forall |w2: WId| h0.wp.dom().contains(w2) && h0.wp[w2] != 0 && !D.contains(SRef::Mag(h0.wp[w2])) implies iok(h1, w2) == iok(h0, w2) && iv(h1, w2) == iv(h0, w2) by { assert(liveb(h0, h0.wp[w2])); }
}
pub proof fn i_chg(h0: HS, h1: HS, w: WId) requires iwf(h0), h0.wp.dom().contains(w), h0.wp[w] != 0, chg(h0, h1, one(SRef::Mag(h0.wp[w]))) ensures kI(h0, h1, w), h1.wp == h0.wp {
  let D = one(SRef::Mag(h0.wp[w]));
  i_keep(h0, h1, D);
  assert forall |w2: WId| w2 != w && iok(h0, w2) implies iok(h1, w2) && iv(h1, w2) == iv(h0, w2) by { assert(h0.wp.dom().contains(w) && h0.wp.dom().contains(w2)); assert(!D.contains(SRef::Mag(h0.wp[w2]))); }
}
pub proof fn i_chg0(h0: HS, h1: HS) requires iwf(h0), chg(h0, h1, Set::empty()) ensures k0(h0, h1), h1.wp == h0.wp { i_keep(h0, h1, Set::empty()); }
pub proof fn i_frB(h0: HS, h1: HS, w: WId) requires iwf(h0), h0.wp.dom().contains(w), h0.wp[w] != 0, frB(h0, h1, h0.wp[w]) ensures kI(h0, h1, w), h1.wp == h0.wp { chg_frB(h0, h1, h0.wp[w]); i_chg(h0, h1, w); }
pub proof fn i_flB(h0: HS, h1: HS, w: WId) requires iwf(h0), h0.wp.dom().contains(w), h0.wp[w] != 0, flB(h0, h1, h0.wp[w]) ensures kI(h0, h1, w), h1.wp == h0.wp { assert(liveb(h0, h0.wp[w])); chg_flB(h0, h1, h0.wp[w]); i_chg(h0, h1, w); }
// only the owned object's representation changed, not its value
pub proof fn i_same(h0: HS, h1: HS, w: WId) requires kI(h0, h1, w), h1.wp == h0.wp, iok(h1, w), iv(h1, w) == iv(h0, w) ensures k0(h0, h1) { }
pub proof fn i_cr(h0: HS, h1: HS, d: BId) requires iwf(h0), crB(h0, h1, d), newb(h0, d) ensures k0(h0, h1), h1.wp == h0.wp, forall |w: WId| #[trigger] h1.wp.dom().contains(w) && h1.wp[w] != 0 ==> h1.wp[w] != d {
  assert forall |w: WId| #[trigger] h0.wp.dom().contains(w) && h0.wp[w] != 0 implies liveb(h1, h0.wp[w]) && h0.wp[w] != d by { assert(liveb(h0, h0.wp[w])); }
  assert forall |w2: WId| iok(h0, w2) implies iok(h1, w2) && iv(h1, w2) == iv(h0, w2) by { let o = h0.wp[w2]; assert(liveb(h0, o)); assert(live(h0, SRef::Mag(o))); assert(m(h1, SRef::Mag(o)) == m(h0, SRef::Mag(o))); assert(h1.bg[o] == h0.bg[o]); }
  assert forall |w1: WId, w2: WId| #![trigger h1.wp.dom().contains(w1), h1.wp.dom().contains(w2)] w1 != w2 && h1.wp.dom().contains(w1) && h1.wp.dom().contains(w2) && h1.wp[w1] != 0 implies h1.wp[w1] != h1.wp[w2] by { assert(h0.wp.dom().contains(w1) && h0.wp.dom().contains(w2)); }
}
// w becomes (or is born as) the owner of the unowned object d
pub proof fn i_own(h0: HS, h1: HS, w: WId, d: BId) requires iwf(h0), h1 == (HS { wp: h0.wp.insert(w, d), ..h0 }), d != 0 ==> liveb(h0, d), forall |x: WId| x != w && #[trigger] h0.wp.dom().contains(x) && h0.wp[x] != 0 ==> h0.wp[x] != d
  ensures kI(h0, h1, w), h1.wp[w] == d, h1.wp.dom().contains(w), d != 0 ==> iv(h1, w) == v(h0, d) && iok(h1, w) == binv(h0, d)
{
  lem_nowp(h0, h1);
  assert forall |w: WId| #[trigger] h1.wp.dom().contains(w) && h1.wp[w] != 0 implies liveb(h1, h1.wp[w]) by { assert(h0.wp.dom().contains(w) || h1.wp[w] == d); }
  assert forall |w1: WId, w2: WId| #![trigger h1.wp.dom().contains(w1), h1.wp.dom().contains(w2)] w1 != w2 && h1.wp.dom().contains(w1) && h1.wp.dom().contains(w2) && h1.wp[w1] != 0 implies h1.wp[w1] != h1.wp[w2] by { assert(w1 == w || h0.wp.dom().contains(w1)); assert(w2 == w || h0.wp.dom().contains(w2)); }
}
// nothing below BigInteger depends on who owns what
pub proof fn lem_nowp(h0: HS, h1: HS) requires h1 == (HS { wp: h1.wp, st: h1.st, bl: h1.bl, ..h0 })
  ensures wf(h1) == wf(h0), forall |s: SRef| #[trigger] m(h1, s) == m(h0, s), forall |b: BId| #[trigger] binv(h1, b) == binv(h0, b), forall |b: BId| #[trigger] v(h1, b) == v(h0, b), forall |b: BId| #[trigger] mg(h1, b) == mg(h0, b), forall |b: BId| #[trigger] liveb(h1, b) == liveb(h0, b)
{
  assert forall |s: SRef| #[trigger] m(h1, s) == m(h0, s) by {}
  assert(wf(h0) ==> wf(h1)) by { if wf(h0) { assert forall |s: SRef| #![trigger h1.sl.dom().contains(s)] #![trigger cell(h1, s)] #![trigger m(h1, s)] h1.sl.dom().contains(s) implies wfs(h1, s) by { assert(h0.sl.dom().contains(s)); } } }
  assert(wf(h1) ==> wf(h0)) by { if wf(h1) { assert forall |s: SRef| #![trigger h0.sl.dom().contains(s)] #![trigger cell(h0, s)] #![trigger m(h0, s)] h0.sl.dom().contains(s) implies wfs(h0, s) by { assert(h1.sl.dom().contains(s)); } } }
}
pub proof fn i_dead(h0: HS, h1: HS, d: BId) requires iwf(h0), h1 == (HS { sl: h0.sl.remove(SRef::Mag(d)), bg: h0.bg.remove(d), ..h0 }), forall |s2: SRef| s2 != SRef::Mag(d) ==> #[trigger] m(h1, s2) == m(h0, s2), forall |x: WId| #[trigger] h0.wp.dom().contains(x) && h0.wp[x] != 0 ==> h0.wp[x] != d
  ensures k0(h0, h1), h1.wp == h0.wp
{
  assert forall |s2: SRef| h1.sl.dom().contains(s2) implies wfs(h1, s2) by { assert(h0.sl.dom().contains(s2)); assert(wfs(h0, s2)); }
  assert forall |w: WId| #[trigger] h1.wp.dom().contains(w) && h1.wp[w] != 0 implies liveb(h1, h1.wp[w]) by { assert(h0.wp.dom().contains(w)); }
  assert forall |w1: WId, w2: WId| #![trigger h1.wp.dom().contains(w1), h1.wp.dom().contains(w2)] w1 != w2 && h1.wp.dom().contains(w1) && h1.wp.dom().contains(w2) && h1.wp[w1] != 0 implies h1.wp[w1] != h1.wp[w2] by { assert(h0.wp.dom().contains(w1) && h0.wp.dom().contains(w2)); }
  assert forall |w2: WId| iok(h0, w2) implies iok(h1, w2) && iv(h1, w2) == iv(h0, w2) by { let o = h0.wp[w2]; assert(h0.wp.dom().contains(w2)); assert(o != d); assert(m(h1, SRef::Mag(o)) == m(h0, SRef::Mag(o))); assert(h1.bg[o] == h0.bg[o]); }
}
// ---------------------------------------------------------------- std::unique_ptr<BigIntegerImpl> (trusted: the four raw moves of a pointer; the rest is proved from them)
#[verifier::external_body]
pub fn int_alloc(h: &mut H, avoid: Ghost<Set<WId>>) -> (r: WId) ensures !avoid@.contains(r), final(h)@ == old(h)@, !old(h)@.wp.dom().contains(r) { unimplemented!() }
#[verifier::external_body]
pub fn int_get_impl(h: &H, w: WId) -> (r: BId) requires h@.wp.dom().contains(w) ensures r == h@.wp[w] { unimplemented!() }
#[verifier::external_body]
pub fn int_set_impl(h: &mut H, w: WId, d: BId) ensures final(h)@ == (HS { wp: old(h)@.wp.insert(w, d), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn int_forget(h: &mut H, w: WId) ensures final(h)@ == (HS { wp: old(h)@.wp.remove(w), ..old(h)@ }) { unimplemented!() }
// * and -> : undefined on a null pointer
pub fn int_impl(h: &H, w: WId) -> (r: BId) requires h@.wp.dom().contains(w), h@.wp[w] != 0 ensures r == h@.wp[w] { int_get_impl(h, w) }
// reset(d): take over d, destroy what was owned
pub fn int_reset(h: &mut H, w: WId, d: BId) requires iwf(old(h)@), old(h)@.wp.dom().contains(w), d != 0, liveb(old(h)@, d), forall |x: WId| #[trigger] old(h)@.wp.dom().contains(x) && old(h)@.wp[x] != 0 ==> old(h)@.wp[x] != d
  ensures kI(old(h)@, final(h)@, w), final(h)@.wp == old(h)@.wp.insert(w, d), iv(final(h)@, w) == v(old(h)@, d), iok(final(h)@, w) == binv(old(h)@, d), final(h)@.st == old(h)@.st
{
  let ghost h0 = h@;
  let p = int_get_impl(h, w);
  int_set_impl(h, w, d);
  let ghost g = h@; proof { i_own(h0, g, w, d); }
  if p != 0 { proof { assert(h0.wp.dom().contains(w)); lem_nowp(h0, g); assert forall |x: WId| #[trigger] g.wp.dom().contains(x) && g.wp[x] != 0 implies g.wp[x] != p by { assert(h0.wp.dom().contains(x)); } } big_kill(h, p); proof { i_dead(g, h@, p); assert(m(h@, SRef::Mag(d)) == m(g, SRef::Mag(d))); assert(h@.bg[d] == g.bg[d]); assert(iok(h@, w) == binv(h@, d)); } }
}
// reset() / = nullptr
pub fn int_clear(h: &mut H, w: WId) requires iwf(old(h)@), old(h)@.wp.dom().contains(w)
  ensures kI(old(h)@, final(h)@, w), final(h)@.wp == old(h)@.wp.insert(w, 0), final(h)@.st == old(h)@.st
{
  let ghost h0 = h@;
  let p = int_get_impl(h, w);
  int_set_impl(h, w, 0);
  let ghost g = h@; proof { i_own(h0, g, w, 0); }
  if p != 0 { proof { assert(h0.wp.dom().contains(w)); lem_nowp(h0, g); assert forall |x: WId| #[trigger] g.wp.dom().contains(x) && g.wp[x] != 0 implies g.wp[x] != p by { assert(h0.wp.dom().contains(x)); } } big_kill(h, p); proof { i_dead(g, h@, p); } }
}
// d(std::move(s)) for a pointer d that is being born
pub fn int_move_init(h: &mut H, d: WId, s: WId) requires iwf(old(h)@), old(h)@.wp.dom().contains(s), neww(old(h)@, d)
  ensures kI2(old(h)@, final(h)@, d, s), final(h)@.wp == old(h)@.wp.insert(s, 0).insert(d, old(h)@.wp[s]), iok(old(h)@, s) ==> iok(final(h)@, d) && iv(final(h)@, d) == iv(old(h)@, s), final(h)@.st == old(h)@.st
{
  let ghost h0 = h@;
  let p = int_get_impl(h, s);
  int_set_impl(h, s, 0); let ghost g = h@; proof { i_own(h0, g, s, 0); lem_nowp(h0, g); assert(h0.wp.dom().contains(s)); assert forall |x: WId| x != d && #[trigger] g.wp.dom().contains(x) && g.wp[x] != 0 implies g.wp[x] != p by { assert(h0.wp.dom().contains(x)); } }
  int_set_impl(h, d, p); proof { i_own(g, h@, d, p); }
}
// d = std::move(s)
pub fn int_move(h: &mut H, d: WId, s: WId) requires iwf(old(h)@), old(h)@.wp.dom().contains(s), old(h)@.wp.dom().contains(d)
  ensures kI2(old(h)@, final(h)@, d, s), d == s ==> final(h)@ == old(h)@, d != s ==> final(h)@.wp == old(h)@.wp.insert(s, 0).insert(d, old(h)@.wp[s]), iok(old(h)@, s) ==> iok(final(h)@, d) && iv(final(h)@, d) == iv(old(h)@, s), final(h)@.st == old(h)@.st
{
  if d == s { return; }
  let ghost h0 = h@;
  let p = int_get_impl(h, s);
  int_set_impl(h, s, 0); let ghost g = h@; proof { i_own(h0, g, s, 0); lem_nowp(h0, g); assert(h0.wp.dom().contains(s)); assert forall |x: WId| #[trigger] g.wp.dom().contains(x) && g.wp[x] != 0 implies g.wp[x] != p by { assert(h0.wp.dom().contains(x)); } }
  if p != 0 { int_reset(h, d, p); } else { int_clear(h, d); }
  proof { assert(h@.wp =~= h0.wp.insert(s, 0).insert(d, h0.wp[s])); }
}
pub fn int_kill(h: &mut H, w: WId) requires iwf(old(h)@), old(h)@.wp.dom().contains(w)
  ensures kI(old(h)@, final(h)@, w), neww(final(h)@, w), final(h)@.st == old(h)@.st
{
  let ghost h0 = h@;
  int_clear(h, w);
  let ghost g = h@;
  int_forget(h, w);
  proof {
    lem_nowp(g, h@);
    assert forall |x: WId| #[trigger] h@.wp.dom().contains(x) && h@.wp[x] != 0 implies liveb(h@, h@.wp[x]) by { assert(g.wp.dom().contains(x)); }
    assert forall |w1: WId, w2: WId| #![trigger h@.wp.dom().contains(w1), h@.wp.dom().contains(w2)] w1 != w2 && h@.wp.dom().contains(w1) && h@.wp.dom().contains(w2) && h@.wp[w1] != 0 implies h@.wp[w1] != h@.wp[w2] by { assert(g.wp.dom().contains(w1) && g.wp.dom().contains(w2)); }
    assert forall |w2: WId| w2 != w implies h@.wp.dom().contains(w2) == h0.wp.dom().contains(w2) && (iok(h0, w2) ==> iok(h@, w2) && iv(h@, w2) == iv(h0, w2)) by { assert(g.wp.dom().contains(w2) == h0.wp.dom().contains(w2)); if iok(h0, w2) { assert(iok(g, w2)); assert(h@.wp[w2] == g.wp[w2]); } }
  }
}
pub proof fn i_frW(h0: HS, h1: HS, w: WId) requires iwf(h0), h0.wp.dom().contains(w), h0.wp[w] != 0, frW(h0, h1, h0.wp[w]) ensures kI(h0, h1, w), h1.wp == h0.wp {
  let b = h0.wp[w];
  assert forall |x: WId| #[trigger] h1.wp.dom().contains(x) && h1.wp[x] != 0 implies liveb(h1, h1.wp[x]) by { assert(h0.wp.dom().contains(x)); }
  assert forall |w1: WId, w2: WId| #![trigger h1.wp.dom().contains(w1), h1.wp.dom().contains(w2)] w1 != w2 && h1.wp.dom().contains(w1) && h1.wp.dom().contains(w2) && h1.wp[w1] != 0 implies h1.wp[w1] != h1.wp[w2] by { assert(h0.wp.dom().contains(w1) && h0.wp.dom().contains(w2)); }
  assert forall |w2: WId| w2 != w && iok(h0, w2) implies iok(h1, w2) && iv(h1, w2) == iv(h0, w2) by { assert(h0.wp.dom().contains(w) && h0.wp.dom().contains(w2)); let o = h0.wp[w2]; assert(o != b); assert(liveb(h0, o)); assert(m(h1, SRef::Mag(o)) == m(h0, SRef::Mag(o))); assert(h1.bg.dom().contains(o)); assert(bsame(h0, h1, o)); }
}
pub open spec fn icmp(a: int, b: int) -> int { if a < b { -1 } else if a > b { 1 } else { 0 } }
pub open spec fn isgn(x: int) -> int { if x < 0 { -1 } else if x > 0 { 1 } else { 0 } }
// everything but the bool at ok is as before
pub open spec fn kB(h0: HS, h1: HS, ok: BoolP) -> bool {
  &&& iwf(h1) && h1.cp == h0.cp && h1.by == h0.by && (ok == 0 ==> h1.bl == h0.bl)
  &&& forall |w2: WId| #![trigger iok(h1, w2)] #![trigger iv(h1, w2)] #![trigger h1.wp.dom().contains(w2)] #![trigger h1.wp[w2]] h1.wp.dom().contains(w2) == h0.wp.dom().contains(w2) && (iok(h0, w2) ==> iok(h1, w2) && iv(h1, w2) == iv(h0, w2))
}
pub proof fn inv_same(h0: HS, h1: HS, b: BId) requires binv(h0, b), flB(h0, h1, b), bsame(h0, h1, b), binv(h1, b) ensures v(h1, b) == v(h0, b) { assert(mg(h1, b) == mg(h0, b)); }
pub proof fn tc_or1(x: int) requires x % 2 == 0, x >= 0 ensures forall |k: int| k >= 0 ==> #[trigger] tc(x + 1, k) == ((tc(x, k) as u32) | (tc(1, k) as u32)) as int {
  assert forall |k: int| k >= 0 implies #[trigger] tc(x + 1, k) == ((tc(x, k) as u32) | (tc(1, k) as u32)) as int by {
    pw_pos(k); pw_0();
    if k == 0 {
      assert(x / 1 == x && (x + 1) / 1 == x + 1);
      let a = (x % B()) as u32; assert(a % 2 == 0); assert((x + 1) % B() == x % B() + 1); assert(a % 2 == 0 ==> a | 1u32 == add(a, 1)) by(bit_vector); assert(tc(1, 0) == 1);
    } else {
      pw_step(k); pw_mono(1, k); pw_1(); pw_even(k); let p = pw(k);
      vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, p); vstd::arithmetic::div_mod::lemma_mod_bound(x, p);
      let q = x / p; let rr = x % p; assert(x == p * q + rr);
      assert(rr % 2 == 0) by { let hp = p / 2; assert(p == 2 * hp); assert(rr == 2 * (x / 2 - hp * q)) by(nonlinear_arith) requires x == p * q + rr, p == 2 * hp, x == 2 * (x / 2); }
      assert(rr + 1 < p);
      assert((x + 1) / p == q) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x + 1, p, q, rr + 1); }
      assert(1int / p == 0) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(1, p, 0, 1); }
      assert(tc(1, k) == 0);
      let a = tc(x, k) as u32; assert(a | 0u32 == a) by(bit_vector);
    }
  }
}
pub proof fn pw_even(k: int) requires k >= 1 ensures pw(k) % 2 == 0 { pw_step(k); let q = pw(k - 1); assert(B() * q == 2 * (0x8000_0000 * q)) by(nonlinear_arith); }
pub proof fn lem_modmod(x: int) ensures (x % U64()) % 0x1_0000_0000 == x % 0x1_0000_0000, (x % U64()) % 0x1_0000 == x % 0x1_0000, (x % U64()) % 0x100 == x % 0x100 {
  vstd::arithmetic::div_mod::lemma_mod_mod(x, 0x1_0000_0000, 0x1_0000_0000); vstd::arithmetic::div_mod::lemma_mod_mod(x, 0x1_0000, 0x1_0000_0000_0000); vstd::arithmetic::div_mod::lemma_mod_mod(x, 0x100, 0x100_0000_0000_0000);
}
// the status and the caller's bools are not part of any number
pub proof fn i_st(h0: HS, h1: HS) requires iwf(h0), h1 == (HS { st: h1.st, bl: h1.bl, ..h0 }) ensures iwf(h1), h1.wp == h0.wp, h1.cp == h0.cp, h1.by == h0.by, forall |w: WId| #[trigger] iok(h1, w) == iok(h0, w), forall |w: WId| #[trigger] iv(h1, w) == iv(h0, w)
{
  lem_nowp(h0, h1);
  assert forall |w: WId| #[trigger] h1.wp.dom().contains(w) && h1.wp[w] != 0 implies liveb(h1, h1.wp[w]) by { assert(h0.wp.dom().contains(w)); }
  assert forall |w1: WId, w2: WId| #![trigger h1.wp.dom().contains(w1), h1.wp.dom().contains(w2)] w1 != w2 && h1.wp.dom().contains(w1) && h1.wp.dom().contains(w2) && h1.wp[w1] != 0 implies h1.wp[w1] != h1.wp[w2] by { assert(h0.wp.dom().contains(w1) && h0.wp.dom().contains(w2)); }
}
// ---------------------------------------------------------------- divisibility (greatest common divisor)
pub open spec fn dv(d: int, x: int) -> bool { exists |k: int| x == #[trigger] mulz(d, k) }
pub open spec fn mulz(d: int, k: int) -> int { d * k }
pub open spec fn cd(d: int, x: int, y: int) -> bool { dv(d, x) && dv(d, y) }
pub open spec fn isgcd(g: int, x: int, y: int) -> bool { g >= 0 && cd(g, x, y) && forall |d: int| #[trigger] cd(d, x, y) ==> dv(d, g) }
pub open spec fn samecd(x: int, y: int, a: int, b: int) -> bool { forall |d: int| #![trigger cd(d, x, y)] #![trigger cd(d, a, b)] cd(d, x, y) == cd(d, a, b) }
pub proof fn dv_abs(d: int, x: int) ensures dv(d, iabs(x)) == dv(d, x) {
  if dv(d, x) { let k = choose |k: int| x == mulz(d, k); assert(d * (-k) == -(d * k)) by(nonlinear_arith); assert(-x == mulz(d, -k)); }
  if dv(d, iabs(x)) { let k = choose |k: int| iabs(x) == mulz(d, k); assert(d * (-k) == -(d * k)) by(nonlinear_arith); assert(-iabs(x) == mulz(d, -k)); assert(iabs(x) == mulz(d, k)); }
}
pub proof fn gcd_abs(x: int, y: int) ensures samecd(x, y, iabs(x), iabs(y)) { assert forall |d: int| cd(d, x, y) == cd(d, iabs(x), iabs(y)) by { dv_abs(d, x); dv_abs(d, y); } }
pub proof fn dv_lin(d: int, a: int, q: int, r: int) requires dv(d, a), dv(d, r) ensures dv(d, q * a + r) {
  let k = choose |k: int| a == mulz(d, k); let l = choose |l: int| r == mulz(d, l);
  assert(d * (q * k + l) == q * (d * k) + d * l) by(nonlinear_arith);
  assert(q * a + r == mulz(d, q * k + l));
}
pub proof fn gcd_step(x: int, y: int, a: int, b: int) requires a > 0, b >= 0, samecd(x, y, a, b) ensures samecd(x, y, trem(b, a), a), 0 <= trem(b, a) < a {
  let q = tdiv(b, a); let r = trem(b, a);
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, a); vstd::arithmetic::div_mod::lemma_mod_bound(b, a);
  assert(q == b / a); assert(q * a == a * q) by(nonlinear_arith); assert(r == b - q * a); assert(b == q * a + r); assert(r == (-q) * a + b) by(nonlinear_arith) requires b == q * a + r;
  assert forall |d: int| cd(d, x, y) == cd(d, r, a) by { assert(cd(d, x, y) == cd(d, a, b)); if cd(d, a, b) { dv_lin(d, a, -q, b); } if cd(d, r, a) { dv_lin(d, a, q, r); } }
}
pub proof fn gcd_end(x: int, y: int, b: int) requires b >= 0, samecd(x, y, 0, b) ensures isgcd(b, x, y) {
  assert forall |d: int| dv(d, 0) by { assert(d * 0 == 0) by(nonlinear_arith); assert(0 == mulz(d, 0)); }
  assert(b * 1 == b) by(nonlinear_arith); assert(b == mulz(b, 1)); assert(cd(b, 0, b)); assert(cd(b, x, y));
  assert forall |d: int| #[trigger] cd(d, x, y) implies dv(d, b) by { assert(cd(d, 0, b)); }
}
pub proof fn gcd_swap(x: int, y: int, a: int, b: int) requires samecd(x, y, a, b) ensures samecd(x, y, b, a) { assert forall |d: int| cd(d, x, y) == cd(d, b, a) by { assert(cd(d, a, b) == cd(d, x, y)); } }
