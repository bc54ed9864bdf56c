// ---------------------------------------------------------------- specification vocabulary
// s is new; every other slice and its limbs are unchanged
pub open spec fn crS(h0: HS, h1: HS, s: SRef) -> bool {
  &&& h1.sl.dom() =~= h0.sl.dom().insert(s) && live(h1, s)
  &&& h1.bg == h0.bg && rest(h0, h1) && h1.st == h0.st && cmono(h0, h1)
  &&& forall |s2: SRef| s2 != s && live(h0, s2) ==> #[trigger] h1.sl[s2] == h0.sl[s2]
  &&& forall |s2: SRef| s2 != s && live(h0, s2) ==> #[trigger] m(h1, s2) == m(h0, s2)
}
pub open spec fn oth2(h0: HS, h1: HS, s: SRef, o: SRef) -> bool {
  &&& h1.bg == h0.bg && rest(h0, h1) && h1.st == h0.st && cmono(h0, h1)
  &&& forall |s2: SRef| s2 != s && s2 != o && live(h0, s2) ==> #[trigger] h1.sl[s2] == h0.sl[s2]
  &&& forall |s2: SRef| s2 != s && s2 != o && live(h0, s2) ==> #[trigger] m(h1, s2) == m(h0, s2)
}
// slice a changed in place (same vector)
pub open spec fn upS(h0: HS, h1: HS, a: SRef) -> bool { wf(h1) && frS(h0, h1, a) && cell(h1, a) == cell(h0, a) }
