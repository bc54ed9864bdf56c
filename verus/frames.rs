// ---------------------------------------------------------------- reasoning about a sequence of heaps
// between h0 and h1 only res changed, and exactly the bigs in n are new
pub open spec fn nuN(h0: HS, h1: HS, res: BId, n: Set<BId>) -> bool {
  &&& wf(h1) && rest(h0, h1) && cmono(h0, h1) && h1.st == h0.st
  &&& forall |b2: BId| #[trigger] h1.bg.dom().contains(b2) <==> h0.bg.dom().contains(b2) || n.contains(b2)
  &&& forall |s2: SRef| #[trigger] h1.sl.dom().contains(s2) <==> h0.sl.dom().contains(s2) || (s2 matches SRef::Mag(x) && n.contains(x))
  &&& forall |s2: SRef| s2 != SRef::Mag(res) && live(h0, s2) ==> #[trigger] h1.sl[s2] == h0.sl[s2]
  &&& forall |s2: SRef| s2 != SRef::Mag(res) && live(h0, s2) ==> #[trigger] m(h1, s2) == m(h0, s2)
  &&& forall |b2: BId| b2 != res && h0.bg.dom().contains(b2) ==> #[trigger] h1.bg[b2] == h0.bg[b2]
  &&& forall |b2: BId| n.contains(b2) ==> !#[trigger] h0.bg.dom().contains(b2)
  &&& forall |b2: BId| #![trigger n.contains(b2)] #![trigger h0.sl.dom().contains(SRef::Mag(b2))] n.contains(b2) ==> !h0.sl.dom().contains(SRef::Mag(b2))
}
// every big but ch keeps its value
pub open spec fn keep(h0: HS, h1: HS, ch: BId) -> bool {
  forall |o: BId| #![trigger binv(h1, o)] #![trigger v(h1, o)] #![trigger mg(h1, o)] o != ch && binv(h0, o) ==> binv(h1, o) && v(h1, o) == v(h0, o) && mg(h1, o) == mg(h0, o) && fl(h1, o) == fl(h0, o)
}
pub proof fn keep_frB(h0: HS, h1: HS, ch: BId) requires frB(h0, h1, ch) ensures keep(h0, h1, ch) {
  assert forall |o: BId| o != ch && binv(h0, o) implies binv(h1, o) && v(h1, o) == v(h0, o) && mg(h1, o) == mg(h0, o) && fl(h1, o) == fl(h0, o) by { assert(live(h0, SRef::Mag(o))); assert(m(h1, SRef::Mag(o)) == m(h0, SRef::Mag(o))); assert(h1.bg[o] == h0.bg[o]); assert(h1.sl.dom().contains(SRef::Mag(o))); }
}
pub proof fn frB_fl(h0: HS, h1: HS, b: BId) requires wf(h0), flB(h0, h1, b), liveb(h0, b) ensures frB(h0, h1, b), liveb(h1, b), h1.st == h0.st {
  assert forall |s2: SRef| h1.sl.dom().contains(s2) implies wfs(h1, s2) by { assert(h0.sl.dom().contains(s2)); }
  assert(h1.bg.dom() =~= h0.bg.dom());
}
pub proof fn frB_X(h0: HS, h1: HS, b: BId) requires wf(h1), frX(h0, h1, SRef::Mag(b)), liveb(h0, b) ensures frB(h0, h1, b), liveb(h1, b), h1.st == h0.st, fl(h1, b) == fl(h0, b) { }
pub proof fn nuN_0(h0: HS, res: BId) requires wf(h0) ensures nuN(h0, h0, res, Set::empty()) { }
pub proof fn step(h0: HS, h1: HS, h2: HS, res: BId, n: Set<BId>, ch: BId) requires nuN(h0, h1, res, n), frB(h1, h2, ch), h2.st == h1.st, ch == res || n.contains(ch)
  ensures nuN(h0, h2, res, n), keep(h1, h2, ch), wf(h2), forall |b2: BId| #[trigger] liveb(h1, b2) ==> liveb(h2, b2) {
  keep_frB(h1, h2, ch);
  assert forall |s2: SRef| s2 != SRef::Mag(res) && live(h0, s2) implies h2.sl[s2] == h0.sl[s2] && m(h2, s2) == m(h0, s2) by { assert(h1.sl.dom().contains(s2)); assert(live(h1, s2)); assert(s2 != SRef::Mag(ch)); assert(m(h1, s2) == m(h0, s2)); assert(h1.sl[s2] == h0.sl[s2]); assert(m(h2, s2) == m(h1, s2)); }
  assert forall |b2: BId| b2 != res && h0.bg.dom().contains(b2) implies h2.bg[b2] == h0.bg[b2] by { assert(h1.bg.dom().contains(b2)); assert(b2 != ch); assert(h1.bg[b2] == h0.bg[b2]); }
  assert forall |c: int| h0.cells.dom().contains(c) implies #[trigger] h2.cells.dom().contains(c) by { assert(h1.cells.dom().contains(c)); }
}
pub proof fn step_new(h0: HS, h1: HS, h2: HS, res: BId, n: Set<BId>, d: BId) requires nuN(h0, h1, res, n), crB(h1, h2, d), newb(h1, d)
  ensures nuN(h0, h2, res, n.insert(d)), keep(h1, h2, d), wf(h2), liveb(h2, d), !n.contains(d), !liveb(h0, d), forall |b2: BId| #[trigger] liveb(h1, b2) ==> liveb(h2, b2) {
  assert forall |o: BId| o != d && binv(h1, o) implies binv(h2, o) && v(h2, o) == v(h1, o) && mg(h2, o) == mg(h1, o) && fl(h2, o) == fl(h1, o) by { assert(live(h1, SRef::Mag(o))); assert(m(h2, SRef::Mag(o)) == m(h1, SRef::Mag(o))); assert(h2.bg[o] == h1.bg[o]); assert(h2.sl.dom().contains(SRef::Mag(o))); }
  assert forall |s2: SRef| s2 != SRef::Mag(res) && live(h0, s2) implies h2.sl[s2] == h0.sl[s2] && m(h2, s2) == m(h0, s2) by { assert(h1.sl.dom().contains(s2)); assert(live(h1, s2)); assert(m(h1, s2) == m(h0, s2)); assert(h1.sl[s2] == h0.sl[s2]); assert(m(h2, s2) == m(h1, s2)); }
  assert forall |b2: BId| b2 != res && h0.bg.dom().contains(b2) implies h2.bg[b2] == h0.bg[b2] by { assert(h1.bg.dom().contains(b2)); assert(h1.bg[b2] == h0.bg[b2]); }
  assert forall |c: int| h0.cells.dom().contains(c) implies #[trigger] h2.cells.dom().contains(c) by { assert(h1.cells.dom().contains(c)); }
  assert(!h0.sl.dom().contains(SRef::Mag(d))) by { if h0.sl.dom().contains(SRef::Mag(d)) { assert(h1.sl.dom().contains(SRef::Mag(d))); } }
}
pub proof fn step_kill(h0: HS, h1: HS, h2: HS, res: BId, n: Set<BId>, d: BId) requires nuN(h0, h1, res, n), n.contains(d), d != res,
    h2 == (HS { sl: h1.sl.remove(SRef::Mag(d)), bg: h1.bg.remove(d), ..h1 }), forall |s2: SRef| s2 != SRef::Mag(d) ==> #[trigger] m(h2, s2) == m(h1, s2)
  ensures nuN(h0, h2, res, n.remove(d)), keep(h1, h2, d), wf(h2), forall |b2: BId| b2 != d && #[trigger] liveb(h1, b2) ==> liveb(h2, b2) {
  assert forall |s2: SRef| h2.sl.dom().contains(s2) implies wfs(h2, s2) by { assert(h1.sl.dom().contains(s2)); assert(wfs(h1, s2)); }
  assert forall |o: BId| o != d && binv(h1, o) implies binv(h2, o) && v(h2, o) == v(h1, o) && mg(h2, o) == mg(h1, o) && fl(h2, o) == fl(h1, o) by { assert(m(h2, SRef::Mag(o)) == m(h1, SRef::Mag(o))); assert(h2.bg[o] == h1.bg[o]); }
  assert forall |s2: SRef| s2 != SRef::Mag(res) && live(h0, s2) implies h2.sl[s2] == h0.sl[s2] && m(h2, s2) == m(h0, s2) by { assert(h1.sl.dom().contains(s2)); assert(s2 != SRef::Mag(d)); assert(m(h1, s2) == m(h0, s2)); assert(h1.sl[s2] == h0.sl[s2]); }
  assert forall |b2: BId| b2 != res && h0.bg.dom().contains(b2) implies h2.bg[b2] == h0.bg[b2] by { assert(h1.bg.dom().contains(b2)); assert(h1.bg[b2] == h0.bg[b2]); }
}
pub proof fn nuN_end(h0: HS, h1: HS, res: BId, n: Set<BId>) requires nuN(h0, h1, res, n), forall |b2: BId| !n.contains(b2) ensures frB(h0, h1, res), h1.st == h0.st {
  assert(h1.bg.dom() =~= h0.bg.dom()); assert(h1.sl.dom() =~= h0.sl.dom());
}
pub open spec fn disj(r: Seq<BId>, n: Set<BId>) -> bool { forall |b2: BId| r.contains(b2) ==> !#[trigger] n.contains(b2) }
pub proof fn step_vec(h0: HS, h1: HS, h2: HS, res: BId, n: Set<BId>, r: Seq<BId>) requires nuN(h0, h1, res, n), crV(h1, h2, r)
  ensures nuN(h0, h2, res, n.union(r.to_set())), wf(h2), forall |o: BId| #![trigger binv(h2, o)] #![trigger v(h2, o)] #![trigger mg(h2, o)] binv(h1, o) ==> binv(h2, o) && v(h2, o) == v(h1, o) && mg(h2, o) == mg(h1, o) && fl(h2, o) == fl(h1, o), disj(r, n), r.no_duplicates(),
    forall |b2: BId| #[trigger] liveb(h1, b2) ==> liveb(h2, b2), forall |k: int| #![trigger liveb(h1, r[k])] #![trigger liveb(h2, r[k])] 0 <= k < r.len() ==> !liveb(h1, r[k]) && liveb(h2, r[k]) {
  assert forall |o: BId| binv(h1, o) implies binv(h2, o) && v(h2, o) == v(h1, o) && mg(h2, o) == mg(h1, o) && fl(h2, o) == fl(h1, o) by { assert(live(h1, SRef::Mag(o))); assert(live(h2, SRef::Mag(o))); assert(m(h2, SRef::Mag(o)) == m(h1, SRef::Mag(o))); assert(h2.bg[o] == h1.bg[o]); }
  let q = n.union(r.to_set());
  assert forall |b2: BId| r.contains(b2) implies !h1.bg.dom().contains(b2) && !h1.sl.dom().contains(SRef::Mag(b2)) && h2.bg.dom().contains(b2) && h2.sl.dom().contains(SRef::Mag(b2)) by { let k = choose |k: int| 0 <= k < r.len() && r[k] == b2; assert(!h1.bg.dom().contains(r[k])); assert(!live(h1, SRef::Mag(r[k]))); assert(liveb(h2, r[k])); }
  assert forall |s2: SRef| s2 != SRef::Mag(res) && live(h0, s2) implies h2.sl[s2] == h0.sl[s2] && m(h2, s2) == m(h0, s2) && live(h2, s2) by { assert(h1.sl.dom().contains(s2)); assert(live(h1, s2)); assert(m(h1, s2) == m(h0, s2)); assert(h1.sl[s2] == h0.sl[s2]); assert(m(h2, s2) == m(h1, s2)); }
  assert forall |b2: BId| b2 != res && h0.bg.dom().contains(b2) implies h2.bg[b2] == h0.bg[b2] by { assert(h1.bg.dom().contains(b2)); assert(h1.bg[b2] == h0.bg[b2]); }
  assert forall |c: int| h0.cells.dom().contains(c) implies #[trigger] h2.cells.dom().contains(c) by { assert(h1.cells.dom().contains(c)); }
  assert forall |s2: SRef| #[trigger] h2.sl.dom().contains(s2) <==> h0.sl.dom().contains(s2) || (s2 matches SRef::Mag(x) && q.contains(x)) by { assert(live(h2, s2) ==> live(h1, s2) || (s2 matches SRef::Mag(x) && r.contains(x))); if live(h1, s2) { assert(live(h2, s2)); } assert(h1.sl.dom().contains(s2) <==> h0.sl.dom().contains(s2) || (s2 matches SRef::Mag(x) && n.contains(x))); }
  assert forall |b2: BId| #[trigger] h2.bg.dom().contains(b2) <==> h0.bg.dom().contains(b2) || q.contains(b2) by { if h1.bg.dom().contains(b2) { assert(h2.bg.dom().contains(b2)); } }
  assert forall |b2: BId| q.contains(b2) implies !#[trigger] h0.bg.dom().contains(b2) && !h0.sl.dom().contains(SRef::Mag(b2)) by { if r.contains(b2) { if h0.bg.dom().contains(b2) { assert(h1.bg.dom().contains(b2)); } if h0.sl.dom().contains(SRef::Mag(b2)) { assert(h1.sl.dom().contains(SRef::Mag(b2))); } } }
  assert(disj(r, n)) by { assert forall |b2: BId| r.contains(b2) implies !#[trigger] n.contains(b2) by { if n.contains(b2) { assert(h1.bg.dom().contains(b2)); } } }
}
pub proof fn step_killv(h0: HS, h1: HS, h2: HS, res: BId, n: Set<BId>, r: Seq<BId>) requires nuN(h0, h1, res, n), kiV(h1, h2, r), forall |k: int| 0 <= k < r.len() ==> n.contains(#[trigger] r[k]) && r[k] != res
  ensures nuN(h0, h2, res, n.difference(r.to_set())), wf(h2), forall |o: BId| #![trigger binv(h2, o)] #![trigger v(h2, o)] #![trigger mg(h2, o)] !r.contains(o) && binv(h1, o) ==> binv(h2, o) && v(h2, o) == v(h1, o) && mg(h2, o) == mg(h1, o) && fl(h2, o) == fl(h1, o),
    forall |b2: BId| !r.contains(b2) && #[trigger] liveb(h1, b2) ==> liveb(h2, b2) {
  let q = n.difference(r.to_set());
  assert forall |s2: SRef| h2.sl.dom().contains(s2) implies wfs(h2, s2) by { assert(h1.sl.dom().contains(s2)); assert(wfs(h1, s2)); assert(h2.sl[s2] == h1.sl[s2]); }
  assert forall |o: BId| !r.contains(o) && binv(h1, o) implies binv(h2, o) && v(h2, o) == v(h1, o) && mg(h2, o) == mg(h1, o) && fl(h2, o) == fl(h1, o) by { assert(h2.sl.dom().contains(SRef::Mag(o))); assert(live(h2, SRef::Mag(o))); assert(m(h2, SRef::Mag(o)) == m(h1, SRef::Mag(o))); assert(h2.bg.dom().contains(o)); assert(h2.bg[o] == h1.bg[o]); }
  assert forall |b2: BId| r.contains(b2) implies n.contains(b2) && b2 != res by { let k = choose |k: int| 0 <= k < r.len() && r[k] == b2; assert(n.contains(r[k])); }
  assert forall |s2: SRef| s2 != SRef::Mag(res) && live(h0, s2) implies h2.sl[s2] == h0.sl[s2] && m(h2, s2) == m(h0, s2) by { assert(h1.sl.dom().contains(s2)); assert(h2.sl.dom().contains(s2)) by { if let SRef::Mag(x) = s2 { if r.contains(x) { assert(n.contains(x)); assert(!h0.sl.dom().contains(SRef::Mag(x))); } } } assert(live(h2, s2)); assert(m(h1, s2) == m(h0, s2)); assert(h1.sl[s2] == h0.sl[s2]); assert(m(h2, s2) == m(h1, s2)); assert(h2.sl[s2] == h1.sl[s2]); }
  assert forall |b2: BId| b2 != res && h0.bg.dom().contains(b2) implies h2.bg[b2] == h0.bg[b2] by { assert(h1.bg.dom().contains(b2)); assert(!n.contains(b2)); assert(!r.contains(b2)); assert(h2.bg.dom().contains(b2)); assert(h1.bg[b2] == h0.bg[b2]); }
  assert forall |s2: SRef| #[trigger] h2.sl.dom().contains(s2) <==> h0.sl.dom().contains(s2) || (s2 matches SRef::Mag(x) && q.contains(x)) by { assert(h1.sl.dom().contains(s2) <==> h0.sl.dom().contains(s2) || (s2 matches SRef::Mag(x) && n.contains(x))); if let SRef::Mag(x) = s2 { if n.contains(x) { assert(!h0.sl.dom().contains(SRef::Mag(x))); } } }
  assert forall |b2: BId| #[trigger] h2.bg.dom().contains(b2) <==> h0.bg.dom().contains(b2) || q.contains(b2) by { assert(h1.bg.dom().contains(b2) <==> h0.bg.dom().contains(b2) || n.contains(b2)); if n.contains(b2) { assert(!h0.bg.dom().contains(b2)); } }
}
pub proof fn inv_len(h: HS, b: BId, n: int) requires binv(h, b), 0 <= v(h, b) < pw(n), n >= 0 ensures mg(h, b).len() <= n { val_bound(mg(h, b)); if fb4(fl(h, b)) { val_one(mg(h, b)); pw_0(); } len_ub(mg(h, b), n); }
pub proof fn inv_live(h: HS, b: BId) requires binv(h, b) ensures liveb(h, b), live(h, SRef::Mag(b)), f1(fl(h, b)), (v(h, b) == 0) == fb1(fl(h, b)), (v(h, b) < 0) == fb4(fl(h, b)), (v(h, b) > 0) == fb2(fl(h, b)), mv(h, b) == (if v(h, b) < 0 { -v(h, b) } else { v(h, b) }), (v(h, b) == 0) == (mg(h, b).len() == 0) { val_one(mg(h, b)); val_bound(mg(h, b)); }
// changing the sign flag of a canonical non-zero big
pub proof fn inv_sign(h0: HS, h1: HS, b: BId) requires binv(h0, b), flB(h0, h1, b), v(h0, b) != 0, fb16(fl(h1, b)) == fb16(fl(h0, b)), h1.bg[b].lazy == h0.bg[b].lazy, f1(fl(h1, b)), !fb1(fl(h1, b))
  ensures binv(h1, b), v(h1, b) == (if fb2(fl(h1, b)) { mv(h0, b) } else { -mv(h0, b) }) { inv_live(h0, b); assert(mg(h1, b) == mg(h0, b)); }
