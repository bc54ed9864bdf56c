// ---------------------------------------------------------------- state model
pub type BId = u64;   // a BigIntegerImpl object
pub type WId = u64;   // a BigInteger object (owns a BigIntegerImpl)
pub type CId = u64;   // a pgbn_String_t of the C binding; 0 is NULL
pub type BoolP = u64; // bool*; 0 is nullptr
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum SRef { Loc(u64), Mag(u64) } // a Slice object: a local / temporary, or the m_mag member of a big
#[verifier::ext_equal]
pub struct SV { pub cell: int, pub lo: int, pub hi: int } // m_data (0 = null), m_lo, m_hi
#[verifier::ext_equal]
pub struct BV { pub flags: u32, pub lazy: u64 }           // m_flags, m_firstNotZeroU32IndexLazy
#[verifier::ext_equal]
pub struct HS {
  pub sl: Map<SRef, SV>, pub cells: Map<int, Seq<u32>>, pub bg: Map<BId, BV>,
  pub wp: Map<WId, BId>, pub cp: Map<CId, Seq<u8>>, pub bl: Map<BoolP, bool>, pub by: Map<int, Seq<u8>>, pub st: int,
}
#[verifier::external_body]
pub struct H { x: u64 }
impl H { pub uninterp spec fn view(&self) -> HS; }
// iterator / pointer into a limb vector
pub struct It { pub c: Ghost<int>, pub i: i64 }
impl Clone for It { fn clone(&self) -> (r: Self) ensures r == *self { It { c: self.c, i: self.i } } }
impl Copy for It {}

pub open spec fn B() -> int { 0x1_0000_0000 }
pub open spec fn MAXN() -> int { 0x1_0000_0000_0000 }
pub open spec fn U64() -> int { 0x1_0000_0000_0000_0000 }

pub open spec fn live(h: HS, s: SRef) -> bool { h.sl.dom().contains(s) }
pub open spec fn liveb(h: HS, b: BId) -> bool { h.bg.dom().contains(b) && h.sl.dom().contains(SRef::Mag(b)) }
pub open spec fn cell(h: HS, s: SRef) -> int { h.sl[s].cell }
pub open spec fn cnt(h: HS, s: SRef) -> int { h.sl[s].hi - h.sl[s].lo }
// the limbs of a slice
pub open spec fn m(h: HS, s: SRef) -> Seq<u32> { h.cells[h.sl[s].cell].subrange(h.sl[s].lo, h.sl[s].hi) }
pub open spec fn wfs(h: HS, s: SRef) -> bool {
  h.cells.dom().contains(h.sl[s].cell) && h.sl[s].cell != 0
  && 0 <= h.sl[s].lo <= h.sl[s].hi <= h.cells[h.sl[s].cell].len() <= MAXN()
}
pub open spec fn wf(h: HS) -> bool {
  forall |s: SRef| #![trigger h.sl.dom().contains(s)] #![trigger cell(h, s)] #![trigger m(h, s)] h.sl.dom().contains(s) ==> wfs(h, s)
}
pub open spec fn excl(h: HS, s: SRef) -> bool {
  forall |s2: SRef| #![trigger h.sl.dom().contains(s2)] #![trigger cell(h, s2)] s2 != s && h.sl.dom().contains(s2) ==> cell(h, s2) != cell(h, s)
}
pub open spec fn rest(h0: HS, h1: HS) -> bool { h1.wp == h0.wp && h1.cp == h0.cp && h1.bl == h0.bl && h1.by == h0.by }
pub open spec fn cmono(h0: HS, h1: HS) -> bool { forall |c: int| h0.cells.dom().contains(c) ==> #[trigger] h1.cells.dom().contains(c) }
// only slice s (and slices sharing its vector) may have changed
pub open spec fn frS(h0: HS, h1: HS, s: SRef) -> bool {
  &&& h1.sl.dom() =~= h0.sl.dom() && (live(h0, s) ==> live(h1, s))
  &&& h1.bg == h0.bg && rest(h0, h1) && h1.st == h0.st
  &&& cmono(h0, h1)
  &&& (cell(h1, s) == cell(h0, s) || !h0.cells.dom().contains(cell(h1, s)))
  &&& forall |s2: SRef| s2 != s && live(h0, s2) ==> #[trigger] h1.sl[s2] == h0.sl[s2]
  &&& forall |s2: SRef| s2 != s && live(h0, s2) && cell(h0, s2) != cell(h0, s) ==> #[trigger] m(h1, s2) == m(h0, s2)
}
// no other slice changed at all
pub open spec fn frX(h0: HS, h1: HS, s: SRef) -> bool {
  &&& frS(h0, h1, s)
  &&& forall |s2: SRef| s2 != s && live(h0, s2) ==> #[trigger] m(h1, s2) == m(h0, s2)
}

// ---------------------------------------------------------------- trusted primitives: objects
#[verifier::external_body]
pub fn slice_alloc(h: &mut H, avoid: Ghost<Set<SRef>>) -> (r: SRef)
  ensures !avoid@.contains(r), final(h)@ == old(h)@, !old(h)@.sl.dom().contains(r), r is Loc
{ unimplemented!() }
#[verifier::external_body]
pub fn slice_kill_raw(h: &mut H, s: SRef) requires live(old(h)@, s)
  ensures final(h)@ == (HS { sl: old(h)@.sl.remove(s), ..old(h)@ }) { unimplemented!() }
pub fn slice_kill(h: &mut H, s: SRef) requires live(old(h)@, s)
  ensures final(h)@ == (HS { sl: old(h)@.sl.remove(s), ..old(h)@ }), forall |s2: SRef| s2 != s ==> #[trigger] m(final(h)@, s2) == m(old(h)@, s2)
{ slice_kill_raw(h, s); }
#[verifier::external_body]
pub fn big_alloc(h: &mut H, avoid: Ghost<Set<BId>>) -> (r: BId)
  ensures !avoid@.contains(r), final(h)@ == old(h)@, !old(h)@.bg.dom().contains(r), !old(h)@.sl.dom().contains(SRef::Mag(r)), r != 0,
    forall |w: WId| old(h)@.wp.dom().contains(w) ==> #[trigger] old(h)@.wp[w] != r,
{ unimplemented!() }
#[verifier::external_body]
pub fn big_kill_raw(h: &mut H, b: BId) requires liveb(old(h)@, b)
  ensures final(h)@ == (HS { sl: old(h)@.sl.remove(SRef::Mag(b)), bg: old(h)@.bg.remove(b), ..old(h)@ }) { unimplemented!() }
pub fn big_kill(h: &mut H, b: BId) requires liveb(old(h)@, b)
  ensures final(h)@ == (HS { sl: old(h)@.sl.remove(SRef::Mag(b)), bg: old(h)@.bg.remove(b), ..old(h)@ }), forall |s2: SRef| s2 != SRef::Mag(b) ==> #[trigger] m(final(h)@, s2) == m(old(h)@, s2)
{ big_kill_raw(h, b); }
#[verifier::external_body]
pub fn slice_get_lo(h: &H, s: SRef) -> (r: u64) requires live(h@, s) ensures r == h@.sl[s].lo { unimplemented!() }
#[verifier::external_body]
pub fn slice_get_hi(h: &H, s: SRef) -> (r: u64) requires live(h@, s) ensures r == h@.sl[s].hi { unimplemented!() }
#[verifier::external_body]
pub fn slice_set_lo_raw(h: &mut H, s: SRef, v: u64) 
  ensures final(h)@ == (HS { sl: old(h)@.sl.insert(s, SV { lo: v as int, ..old(h)@.sl[s] }), ..old(h)@ }) { unimplemented!() }
pub fn slice_set_lo(h: &mut H, s: SRef, v: u64) 
  ensures final(h)@ == (HS { sl: old(h)@.sl.insert(s, SV { lo: v as int, ..old(h)@.sl[s] }), ..old(h)@ }), forall |s2: SRef| s2 != s ==> #[trigger] m(final(h)@, s2) == m(old(h)@, s2)
{ slice_set_lo_raw(h, s, v); }
#[verifier::external_body]
pub fn slice_set_hi_raw(h: &mut H, s: SRef, v: u64) 
  ensures final(h)@ == (HS { sl: old(h)@.sl.insert(s, SV { hi: v as int, ..old(h)@.sl[s] }), ..old(h)@ }) { unimplemented!() }
pub fn slice_set_hi(h: &mut H, s: SRef, v: u64) 
  ensures final(h)@ == (HS { sl: old(h)@.sl.insert(s, SV { hi: v as int, ..old(h)@.sl[s] }), ..old(h)@ }), forall |s2: SRef| s2 != s ==> #[trigger] m(final(h)@, s2) == m(old(h)@, s2)
{ slice_set_hi_raw(h, s, v); }
#[verifier::external_body]
pub fn big_get_flags(h: &H, b: BId) -> (r: u32) requires h@.bg.dom().contains(b) ensures r == h@.bg[b].flags { unimplemented!() }
#[verifier::external_body]
pub fn big_get_lazy(h: &H, b: BId) -> (r: u64) requires h@.bg.dom().contains(b) ensures r == h@.bg[b].lazy { unimplemented!() }
#[verifier::external_body]
pub fn big_set_flags_raw(h: &mut H, b: BId, v: u32) 
  ensures final(h)@ == (HS { bg: old(h)@.bg.insert(b, BV { flags: v, ..old(h)@.bg[b] }), ..old(h)@ }) { unimplemented!() }
pub fn big_set_flags(h: &mut H, b: BId, v: u32) 
  ensures final(h)@ == (HS { bg: old(h)@.bg.insert(b, BV { flags: v, ..old(h)@.bg[b] }), ..old(h)@ }), forall |s2: SRef| #[trigger] m(final(h)@, s2) == m(old(h)@, s2)
{ big_set_flags_raw(h, b, v); }
#[verifier::external_body]
pub fn big_set_lazy_raw(h: &mut H, b: BId, v: u64) 
  ensures final(h)@ == (HS { bg: old(h)@.bg.insert(b, BV { lazy: v, ..old(h)@.bg[b] }), ..old(h)@ }) { unimplemented!() }
pub fn big_set_lazy(h: &mut H, b: BId, v: u64) 
  ensures final(h)@ == (HS { bg: old(h)@.bg.insert(b, BV { lazy: v, ..old(h)@.bg[b] }), ..old(h)@ }), forall |s2: SRef| #[trigger] m(final(h)@, s2) == m(old(h)@, s2)
{ big_set_lazy_raw(h, b, v); }
pub fn mag_of(b: BId) -> (r: SRef) ensures r == SRef::Mag(b) { SRef::Mag(b) }
// status: assigning a code (the registered callback of DIVBY0 leaves the process; every other one returns)
#[verifier::external_body]
pub fn status_set_raw(h: &mut H, e: u32) 
  ensures final(h)@ == (HS { st: e as int, ..old(h)@ }) { unimplemented!() }
pub fn status_set(h: &mut H, e: u32) 
  ensures final(h)@ == (HS { st: e as int, ..old(h)@ }), forall |s2: SRef| #[trigger] m(final(h)@, s2) == m(old(h)@, s2)
{ status_set_raw(h, e); }
#[verifier::external_body]
pub fn bool_alloc(h: &mut H, v: bool) -> (r: BoolP)
  ensures r != 0, !old(h)@.bl.dom().contains(r), final(h)@ == (HS { bl: old(h)@.bl.insert(r, v), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn bool_get(h: &H, p: BoolP) -> (r: bool) requires h@.bl.dom().contains(p) ensures r == h@.bl[p] { unimplemented!() }
#[verifier::external_body]
pub fn bool_set_raw(h: &mut H, p: BoolP, v: bool) requires p != 0, old(h)@.bl.dom().contains(p)
  ensures final(h)@ == (HS { bl: old(h)@.bl.insert(p, v), ..old(h)@ }) { unimplemented!() }
pub fn bool_set(h: &mut H, p: BoolP, v: bool) requires p != 0, old(h)@.bl.dom().contains(p)
  ensures final(h)@ == (HS { bl: old(h)@.bl.insert(p, v), ..old(h)@ }), forall |s2: SRef| #[trigger] m(final(h)@, s2) == m(old(h)@, s2)
{ bool_set_raw(h, p, v); }
#[verifier::external_body]
pub fn bool_kill_raw(h: &mut H, p: BoolP) 
  ensures final(h)@ == (HS { bl: old(h)@.bl.remove(p), ..old(h)@ }) { unimplemented!() }
pub fn bool_kill(h: &mut H, p: BoolP) 
  ensures final(h)@ == (HS { bl: old(h)@.bl.remove(p), ..old(h)@ }), forall |s2: SRef| #[trigger] m(final(h)@, s2) == m(old(h)@, s2)
{ bool_kill_raw(h, p); }

// ---------------------------------------------------------------- trusted primitives: std::shared_ptr<std::vector<uint32_t>>
pub open spec fn zeros(n: int) -> Seq<u32> { Seq::new(n as nat, |i: int| 0u32) }
// p.reset(new vector(n)) / p(new vector(n)); allocation either succeeds with n elements or does not return
#[verifier::external_body]
pub fn sp_new(h: &mut H, s: SRef, n: u64) -> (c: Ghost<int>)
  ensures n <= MAXN(), c@ != 0, !old(h)@.cells.dom().contains(c@),
    forall |s2: SRef| old(h)@.sl.dom().contains(s2) ==> #[trigger] old(h)@.sl[s2].cell != c@,
    final(h)@ == (HS { sl: old(h)@.sl.insert(s, SV { cell: c@, ..old(h)@.sl[s] }), cells: old(h)@.cells.insert(c@, zeros(n as int)), ..old(h)@ })
{ unimplemented!() }
#[verifier::external_body]
pub fn sp_copy(h: &mut H, d: SRef, s: SRef) requires live(old(h)@, s)
  ensures final(h)@ == (HS { sl: old(h)@.sl.insert(d, SV { cell: old(h)@.sl[s].cell, ..old(h)@.sl[d] }), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn sp_move(h: &mut H, d: SRef, s: SRef) requires live(old(h)@, s)
  ensures d == s ==> final(h)@ == old(h)@,
    d != s ==> final(h)@ == (HS { sl: old(h)@.sl.insert(d, SV { cell: old(h)@.sl[s].cell, ..old(h)@.sl[d] }).insert(s, SV { cell: 0, ..old(h)@.sl[s] }), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn sp_swap(h: &mut H, a: SRef, b: SRef) requires live(old(h)@, a), live(old(h)@, b)
  ensures final(h)@ == (HS { sl: old(h)@.sl.insert(a, SV { cell: old(h)@.sl[b].cell, ..old(h)@.sl[a] }).insert(b, SV { cell: old(h)@.sl[a].cell, ..old(h)@.sl[b] }), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn sp_nonnull(h: &H, s: SRef) -> (r: bool) requires live(h@, s) ensures r == (h@.sl[s].cell != 0) { unimplemented!() }
#[verifier::external_body]
pub fn sp_use_count(h: &H, s: SRef) -> (r: i64) requires live(h@, s), h@.sl[s].cell != 0 ensures r >= 1, (r == 1) == excl(h@, s) { unimplemented!() }
#[verifier::external_body]
pub fn sp_eq(h: &H, a: SRef, b: SRef) -> (r: bool) requires live(h@, a), live(h@, b) ensures r == (h@.sl[a].cell == h@.sl[b].cell) { unimplemented!() }
// ---------------------------------------------------------------- trusted primitives: std::vector<uint32_t> reached through the shared_ptr of slice s
pub open spec fn vok(h: HS, s: SRef) -> bool { live(h, s) && cell(h, s) != 0 && h.cells.dom().contains(cell(h, s)) && h.cells[cell(h, s)].len() <= MAXN() }
pub open spec fn vv(h: HS, s: SRef) -> Seq<u32> { h.cells[cell(h, s)] }
pub open spec fn setv(h: HS, c: int, v: Seq<u32>) -> HS { HS { cells: h.cells.insert(c, v), ..h } }
pub open spec fn resized(v: Seq<u32>, n: int) -> Seq<u32> { Seq::new(n as nat, |i: int| if i < v.len() { v[i] } else { 0u32 }) }
pub open spec fn filled(v: Seq<u32>, a: int, b: int, x: u32) -> Seq<u32> { Seq::new(v.len(), |i: int| if a <= i < b { x } else { v[i] }) }
pub open spec fn spliced(v: Seq<u32>, d: int, w: Seq<u32>, s: int, n: int) -> Seq<u32> { Seq::new(v.len(), |i: int| if d <= i < d + n { w[s + i - d] } else { v[i] }) }
#[verifier::external_body]
pub fn vec_size(h: &H, s: SRef) -> (r: u64) requires vok(h@, s) ensures r == vv(h@, s).len() { unimplemented!() }
#[verifier::external_body]
pub fn vec_resize(h: &mut H, s: SRef, n: u64) requires vok(old(h)@, s)
  ensures n <= MAXN(), final(h)@ == setv(old(h)@, cell(old(h)@, s), resized(vv(old(h)@, s), n as int)) { unimplemented!() }
#[verifier::external_body]
pub fn vec_push_back(h: &mut H, s: SRef, x: u32) requires vok(old(h)@, s)
  ensures vv(old(h)@, s).len() + 1 <= MAXN(), final(h)@ == setv(old(h)@, cell(old(h)@, s), vv(old(h)@, s).push(x)) { unimplemented!() }
#[verifier::external_body]
pub fn vec_insert_n(h: &mut H, s: SRef, pos: It, n: u64, x: u32) requires vok(old(h)@, s), pos.c@ == cell(old(h)@, s), 0 <= pos.i <= vv(old(h)@, s).len()
  ensures vv(old(h)@, s).len() + n <= MAXN(), final(h)@ == setv(old(h)@, cell(old(h)@, s),
     vv(old(h)@, s).subrange(0, pos.i as int) + Seq::new(n as nat, |i: int| x) + vv(old(h)@, s).subrange(pos.i as int, vv(old(h)@, s).len() as int)) { unimplemented!() }
#[verifier::external_body]
pub fn vec_begin(h: &H, s: SRef) -> (r: It) requires vok(h@, s) ensures r.c@ == cell(h@, s), r.i == 0 { unimplemented!() }
#[verifier::external_body]
pub fn vec_end(h: &H, s: SRef) -> (r: It) requires vok(h@, s) ensures r.c@ == cell(h@, s), r.i == vv(h@, s).len() { unimplemented!() }
#[verifier::external_body]
pub fn vec_at(h: &H, s: SRef, i: u64) -> (r: It) requires vok(h@, s), i < vv(h@, s).len() ensures r.c@ == cell(h@, s), r.i == i { unimplemented!() }
// ---------------------------------------------------------------- iterators
pub open spec fn itok(h: HS, p: It) -> bool { h.cells.dom().contains(p.c@) && 0 <= p.i < h.cells[p.c@].len() }
#[verifier::external_body]
pub fn it_get(h: &H, p: It) -> (r: u32) requires itok(h@, p) ensures r == h@.cells[p.c@][p.i as int] { unimplemented!() }
#[verifier::external_body]
pub fn it_set_raw(h: &mut H, p: It, x: u32) requires itok(old(h)@, p)
  ensures final(h)@ == setv(old(h)@, p.c@, old(h)@.cells[p.c@].update(p.i as int, x)) { unimplemented!() }
// the same, restated for slices (proved)
pub fn it_set(h: &mut H, p: It, x: u32) requires itok(old(h)@, p)
  ensures final(h)@ == setv(old(h)@, p.c@, old(h)@.cells[p.c@].update(p.i as int, x)),
    wf(old(h)@) ==> wf(final(h)@),
    forall |s: SRef| cell(old(h)@, s) != p.c@ ==> #[trigger] m(final(h)@, s) == m(old(h)@, s),
    forall |s: SRef| wf(old(h)@) && live(old(h)@, s) && cell(old(h)@, s) == p.c@ && old(h)@.sl[s].lo <= p.i < old(h)@.sl[s].hi ==> #[trigger] m(final(h)@, s) == m(old(h)@, s).update(p.i - old(h)@.sl[s].lo, x),
{
  let ghost h0 = h@;
  it_set_raw(h, p, x);
  assert forall |s: SRef| wf(h0) && live(h0, s) && cell(h0, s) == p.c@ && h0.sl[s].lo <= p.i < h0.sl[s].hi implies #[trigger] m(h@, s) == m(h0, s).update(p.i - h0.sl[s].lo, x) by {
    assert(m(h@, s) =~= m(h0, s).update(p.i - h0.sl[s].lo, x)); }
}
pub fn it_add(p: It, n: i64) -> (r: It) requires -0x4000_0000_0000_0000 <= p.i + n <= 0x4000_0000_0000_0000 ensures r.c == p.c, r.i == p.i + n { It { c: p.c, i: p.i + n } }
pub fn it_sub(p: It, n: i64) -> (r: It) requires -0x4000_0000_0000_0000 <= p.i - n <= 0x4000_0000_0000_0000 ensures r.c == p.c, r.i == p.i - n { It { c: p.c, i: p.i - n } }
pub fn it_diff(p: It, q: It) -> (r: i64) requires p.c@ == q.c@, -0x4000_0000_0000_0000 <= p.i - q.i <= 0x4000_0000_0000_0000 ensures r == p.i - q.i { p.i - q.i }
pub fn it_lt(p: It, q: It) -> (r: bool) requires p.c@ == q.c@ ensures r == (p.i < q.i) { p.i < q.i }
pub fn it_le(p: It, q: It) -> (r: bool) requires p.c@ == q.c@ ensures r == (p.i <= q.i) { p.i <= q.i }
pub fn it_gt(p: It, q: It) -> (r: bool) requires p.c@ == q.c@ ensures r == (p.i > q.i) { p.i > q.i }
pub fn it_ge(p: It, q: It) -> (r: bool) requires p.c@ == q.c@ ensures r == (p.i >= q.i) { p.i >= q.i }
pub fn it_eq(p: It, q: It) -> (r: bool) requires p.c@ == q.c@ ensures r == (p.i == q.i) { p.i == q.i }
pub fn it_ne(p: It, q: It) -> (r: bool) requires p.c@ == q.c@ ensures r == (p.i != q.i) { p.i != q.i }
pub open spec fn rgok(h: HS, c: int, a: int, b: int) -> bool { h.cells.dom().contains(c) && 0 <= a <= b <= h.cells[c].len() }
pub proof fn lem_setv(h0: HS, h1: HS, c: int, v: Seq<u32>) requires h0.cells.dom().contains(c), h1 == setv(h0, c, v), v.len() == h0.cells[c].len()
  ensures wf(h0) ==> wf(h1), forall |s: SRef| cell(h0, s) != c ==> #[trigger] m(h1, s) == m(h0, s) {}
pub proof fn lem_splice(h0: HS, h1: HS, c: int, d: int, w: Seq<u32>, sx: int, n: int) requires wf(h0), h0.cells.dom().contains(c), h1 == setv(h0, c, spliced(h0.cells[c], d, w, sx, n))
  ensures forall |s: SRef| live(h0, s) && cell(h0, s) == c && h0.sl[s].lo <= d && d + n <= h0.sl[s].hi ==> #[trigger] m(h1, s) == spliced(m(h0, s), d - h0.sl[s].lo, w, sx, n) {
  assert forall |s: SRef| live(h0, s) && cell(h0, s) == c && h0.sl[s].lo <= d && d + n <= h0.sl[s].hi implies #[trigger] m(h1, s) == spliced(m(h0, s), d - h0.sl[s].lo, w, sx, n) by {
    assert(m(h1, s) =~= spliced(m(h0, s), d - h0.sl[s].lo, w, sx, n)); }
}
pub proof fn lem_fill(h0: HS, h1: HS, c: int, a: int, b: int, x: u32) requires wf(h0), h0.cells.dom().contains(c), h1 == setv(h0, c, filled(h0.cells[c], a, b, x))
  ensures forall |s: SRef| live(h0, s) && cell(h0, s) == c && h0.sl[s].lo <= a && b <= h0.sl[s].hi ==> #[trigger] m(h1, s) == filled(m(h0, s), a - h0.sl[s].lo, b - h0.sl[s].lo, x) {
  assert forall |s: SRef| live(h0, s) && cell(h0, s) == c && h0.sl[s].lo <= a && b <= h0.sl[s].hi implies #[trigger] m(h1, s) == filled(m(h0, s), a - h0.sl[s].lo, b - h0.sl[s].lo, x) by {
    assert(m(h1, s) =~= filled(m(h0, s), a - h0.sl[s].lo, b - h0.sl[s].lo, x)); }
}
#[verifier::external_body]
pub fn std_copy_raw(h: &mut H, a: It, b: It, d: It)
  requires a.c@ == b.c@, rgok(old(h)@, a.c@, a.i as int, b.i as int), rgok(old(h)@, d.c@, d.i as int, d.i + (b.i - a.i)), a.c@ != d.c@
  ensures final(h)@ == setv(old(h)@, d.c@, spliced(old(h)@.cells[d.c@], d.i as int, old(h)@.cells[a.c@], a.i as int, b.i - a.i)) { unimplemented!() }
pub fn std_copy(h: &mut H, a: It, b: It, d: It)
  requires a.c@ == b.c@, rgok(old(h)@, a.c@, a.i as int, b.i as int), rgok(old(h)@, d.c@, d.i as int, d.i + (b.i - a.i)), a.c@ != d.c@
  ensures final(h)@ == setv(old(h)@, d.c@, spliced(old(h)@.cells[d.c@], d.i as int, old(h)@.cells[a.c@], a.i as int, b.i - a.i)),
    wf(old(h)@) ==> wf(final(h)@), forall |s: SRef| cell(old(h)@, s) != d.c@ ==> #[trigger] m(final(h)@, s) == m(old(h)@, s),
    forall |s: SRef| wf(old(h)@) && live(old(h)@, s) && cell(old(h)@, s) == d.c@ && old(h)@.sl[s].lo <= d.i && d.i + (b.i - a.i) <= old(h)@.sl[s].hi ==> #[trigger] m(final(h)@, s) == spliced(m(old(h)@, s), d.i - old(h)@.sl[s].lo, old(h)@.cells[a.c@], a.i as int, b.i - a.i),
{ let ghost h0 = h@; std_copy_raw(h, a, b, d); proof { lem_setv(h0, h@, d.c@, spliced(h0.cells[d.c@], d.i as int, h0.cells[a.c@], a.i as int, b.i - a.i)); if wf(h0) { lem_splice(h0, h@, d.c@, d.i as int, h0.cells[a.c@], a.i as int, b.i - a.i); } } }
#[verifier::external_body]
pub fn std_fill_raw(h: &mut H, a: It, b: It, x: u32)
  requires a.c@ == b.c@, rgok(old(h)@, a.c@, a.i as int, b.i as int)
  ensures final(h)@ == setv(old(h)@, a.c@, filled(old(h)@.cells[a.c@], a.i as int, b.i as int, x)) { unimplemented!() }
pub fn std_fill(h: &mut H, a: It, b: It, x: u32)
  requires a.c@ == b.c@, rgok(old(h)@, a.c@, a.i as int, b.i as int)
  ensures final(h)@ == setv(old(h)@, a.c@, filled(old(h)@.cells[a.c@], a.i as int, b.i as int, x)),
    wf(old(h)@) ==> wf(final(h)@), forall |s: SRef| cell(old(h)@, s) != a.c@ ==> #[trigger] m(final(h)@, s) == m(old(h)@, s),
    forall |s: SRef| wf(old(h)@) && live(old(h)@, s) && cell(old(h)@, s) == a.c@ && old(h)@.sl[s].lo <= a.i && b.i <= old(h)@.sl[s].hi ==> #[trigger] m(final(h)@, s) == filled(m(old(h)@, s), a.i - old(h)@.sl[s].lo, b.i - old(h)@.sl[s].lo, x),
{ let ghost h0 = h@; std_fill_raw(h, a, b, x); proof { lem_setv(h0, h@, a.c@, filled(h0.cells[a.c@], a.i as int, b.i as int, x)); if wf(h0) { lem_fill(h0, h@, a.c@, a.i as int, b.i as int, x); } } }
#[verifier::external_body]
pub fn std_fill_n_raw(h: &mut H, a: It, n: u64, x: u32)
  requires n <= MAXN(), rgok(old(h)@, a.c@, a.i as int, a.i + n)
  ensures final(h)@ == setv(old(h)@, a.c@, filled(old(h)@.cells[a.c@], a.i as int, a.i + n, x)) { unimplemented!() }
pub fn std_fill_n(h: &mut H, a: It, n: u64, x: u32)
  requires n <= MAXN(), rgok(old(h)@, a.c@, a.i as int, a.i + n)
  ensures final(h)@ == setv(old(h)@, a.c@, filled(old(h)@.cells[a.c@], a.i as int, a.i + n, x)),
    wf(old(h)@) ==> wf(final(h)@), forall |s: SRef| cell(old(h)@, s) != a.c@ ==> #[trigger] m(final(h)@, s) == m(old(h)@, s),
    forall |s: SRef| wf(old(h)@) && live(old(h)@, s) && cell(old(h)@, s) == a.c@ && old(h)@.sl[s].lo <= a.i && a.i + n <= old(h)@.sl[s].hi ==> #[trigger] m(final(h)@, s) == filled(m(old(h)@, s), a.i - old(h)@.sl[s].lo, (a.i + n) - old(h)@.sl[s].lo, x),
{ let ghost h0 = h@; std_fill_n_raw(h, a, n, x); proof { lem_setv(h0, h@, a.c@, filled(h0.cells[a.c@], a.i as int, a.i + n, x)); if wf(h0) { lem_fill(h0, h@, a.c@, a.i as int, a.i + n, x); } } }
// memcpy between limb vectors; the byte count must be a whole number of limbs here
#[verifier::external_body]
pub fn memcpy_limbs_raw(h: &mut H, d: It, s_: It, n: u64)
  requires n % 4 == 0, rgok(old(h)@, d.c@, d.i as int, d.i + n / 4), rgok(old(h)@, s_.c@, s_.i as int, s_.i + n / 4), d.c@ != s_.c@ || d.i + n / 4 <= s_.i || s_.i + n / 4 <= d.i
  ensures final(h)@ == setv(old(h)@, d.c@, spliced(old(h)@.cells[d.c@], d.i as int, old(h)@.cells[s_.c@], s_.i as int, (n / 4) as int)) { unimplemented!() }
pub fn memcpy_limbs(h: &mut H, d: It, s_: It, n: u64)
  requires n % 4 == 0, rgok(old(h)@, d.c@, d.i as int, d.i + n / 4), rgok(old(h)@, s_.c@, s_.i as int, s_.i + n / 4), d.c@ != s_.c@ || d.i + n / 4 <= s_.i || s_.i + n / 4 <= d.i
  ensures final(h)@ == setv(old(h)@, d.c@, spliced(old(h)@.cells[d.c@], d.i as int, old(h)@.cells[s_.c@], s_.i as int, (n / 4) as int)),
    wf(old(h)@) ==> wf(final(h)@), forall |s: SRef| cell(old(h)@, s) != d.c@ ==> #[trigger] m(final(h)@, s) == m(old(h)@, s),
    forall |s: SRef| wf(old(h)@) && live(old(h)@, s) && cell(old(h)@, s) == d.c@ && old(h)@.sl[s].lo <= d.i && d.i + n / 4 <= old(h)@.sl[s].hi ==> #[trigger] m(final(h)@, s) == spliced(m(old(h)@, s), d.i - old(h)@.sl[s].lo, old(h)@.cells[s_.c@], s_.i as int, (n / 4) as int),
{ let ghost h0 = h@; memcpy_limbs_raw(h, d, s_, n); proof { lem_setv(h0, h@, d.c@, spliced(h0.cells[d.c@], d.i as int, h0.cells[s_.c@], s_.i as int, (n / 4) as int)); if wf(h0) { lem_splice(h0, h@, d.c@, d.i as int, h0.cells[s_.c@], s_.i as int, (n / 4) as int); } } }
// ---------------------------------------------------------------- C++ machine arithmetic (definitional, verified against Rust's)
pub fn wadd64(a: u64, b: u64) -> (r: u64) ensures r == (if a + b < U64() { a + b } else { a + b - U64() }) { a.wrapping_add(b) }
pub fn wsub64(a: u64, b: u64) -> (r: u64) ensures r == (if a >= b { a - b } else { a - b + U64() }) { a.wrapping_sub(b) }
pub fn wmul64(a: u64, b: u64) -> (r: u64)
  ensures (0 <= a * b < U64()) ==> r == a * b, a * b >= 0, r == (a * b) % U64(),
    a < B() && b < B() ==> r == a * b && r <= 0xffff_fffe_0000_0001
{ proof { assert(a < B() && b < B() ==> a * b <= 0xffff_fffe_0000_0001) by(nonlinear_arith); assert(a * b >= 0) by(nonlinear_arith); } a.wrapping_mul(b) }
pub fn wneg64(a: u64) -> (r: u64) ensures r == (if a == 0 { 0 } else { U64() - a }) { 0u64.wrapping_sub(a) }
pub fn wadd32(a: u32, b: u32) -> (r: u32) ensures r == (if a + b < B() { a + b } else { a + b - B() }) { a.wrapping_add(b) }
pub fn wsub32(a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a - b } else { a - b + B() }) { a.wrapping_sub(b) }
pub fn wmul32(a: u32, b: u32) -> (r: u32)
  ensures (0 <= a * b < B()) ==> r == a * b, a * b >= 0, r == (a * b) % B()
{ proof { assert(a * b >= 0) by(nonlinear_arith); } a.wrapping_mul(b) }
pub fn wneg32(a: u32) -> (r: u32) ensures r == (if a == 0 { 0 } else { B() - a }) { 0u32.wrapping_sub(a) }
// flag bits used by BNFlag
pub open spec fn fb1(x: u32) -> bool { x % 2 == 1 }
pub open spec fn fb2(x: u32) -> bool { (x / 2) % 2 == 1 }
pub open spec fn fb4(x: u32) -> bool { (x / 4) % 2 == 1 }
pub open spec fn fb16(x: u32) -> bool { (x / 16) % 2 == 1 }
pub fn band32(a: u32, b: u32) -> (r: u32)
  ensures r == a & b, fb1(r) == (fb1(a) && fb1(b)), fb2(r) == (fb2(a) && fb2(b)), fb4(r) == (fb4(a) && fb4(b)), fb16(r) == (fb16(a) && fb16(b)),
    r <= a, r <= b, a == 1 || b == 1 ==> r <= 1, b == 1 ==> r == a % 2, b == 0xffff_ffff ==> r == a, a == 0xffff_ffff ==> r == b,
    b == 1 ==> r == (if fb1(a) {1int} else {0}), b == 2 ==> r == (if fb2(a) {2int} else {0}), b == 4 ==> r == (if fb4(a) {4int} else {0}), b == 16 ==> r == (if fb16(a) {16int} else {0}),
    a == 7 ==> r == (if fb1(b) {1int} else {0}) + (if fb2(b) {2int} else {0}) + (if fb4(b) {4int} else {0}),
    b == 7 ==> r == (if fb1(a) {1int} else {0}) + (if fb2(a) {2int} else {0}) + (if fb4(a) {4int} else {0}),
{
  let r = a & b;
  assert(r == a & b ==> ((r % 2 == 1) == ((a % 2 == 1) && (b % 2 == 1))) && (((r / 2) % 2 == 1) == (((a / 2) % 2 == 1) && ((b / 2) % 2 == 1)))
    && (((r / 4) % 2 == 1) == (((a / 4) % 2 == 1) && ((b / 4) % 2 == 1))) && (((r / 16) % 2 == 1) == (((a / 16) % 2 == 1) && ((b / 16) % 2 == 1)))
    && r <= a && r <= b && (b == 1 ==> r == a % 2) && (a == 1 ==> r <= 1) && (b == 0xffff_ffffu32 ==> r == a) && (a == 0xffff_ffffu32 ==> r == b)) by(bit_vector);
  assert(r == a & b ==> (b == 1 ==> r == (if a % 2 == 1 {1u32} else {0})) && (b == 2 ==> r == (if (a/2) % 2 == 1 {2u32} else {0})) && (b == 4 ==> r == (if (a/4) % 2 == 1 {4u32} else {0})) && (b == 16 ==> r == (if (a/16) % 2 == 1 {16u32} else {0}))) by(bit_vector);
  assert(r == a & b ==> (b == 7 ==> r == add(add((if a % 2 == 1 {1u32} else {0}), (if (a/2) % 2 == 1 {2u32} else {0})), (if (a/4) % 2 == 1 {4u32} else {0})))
     && (a == 7 ==> r == add(add((if b % 2 == 1 {1u32} else {0}), (if (b/2) % 2 == 1 {2u32} else {0})), (if (b/4) % 2 == 1 {4u32} else {0})))) by(bit_vector);
  r
}
pub fn bor32(a: u32, b: u32) -> (r: u32)
  ensures r == a | b, fb1(r) == (fb1(a) || fb1(b)), fb2(r) == (fb2(a) || fb2(b)), fb4(r) == (fb4(a) || fb4(b)), fb16(r) == (fb16(a) || fb16(b)),
    r >= a, r >= b, r <= a + b, b == 0 ==> r == a, a == 0 ==> r == b,
{
  let r = a | b;
  assert(r == a | b ==> ((r % 2 == 1) == ((a % 2 == 1) || (b % 2 == 1))) && (((r / 2) % 2 == 1) == (((a / 2) % 2 == 1) || ((b / 2) % 2 == 1)))
    && (((r / 4) % 2 == 1) == (((a / 4) % 2 == 1) || ((b / 4) % 2 == 1))) && (((r / 16) % 2 == 1) == (((a / 16) % 2 == 1) || ((b / 16) % 2 == 1)))
    && r >= a && r >= b && (b == 0 ==> r == a) && (a == 0 ==> r == b)) by(bit_vector);
  assert((a | b) as u64 <= add(a as u64, b as u64)) by(bit_vector);
  r
}
pub fn bxor32(a: u32, b: u32) -> (r: u32)
  ensures r == a ^ b, fb1(r) == (fb1(a) != fb1(b)), fb2(r) == (fb2(a) != fb2(b)), fb4(r) == (fb4(a) != fb4(b)), fb16(r) == (fb16(a) != fb16(b)), b == 0xffff_ffff ==> r == 0xffff_ffff - a, a == 0xffff_ffff ==> r == 0xffff_ffff - b,
{
  let r = a ^ b;
  assert(b == 0xffff_ffffu32 ==> a ^ b == sub(0xffff_ffffu32, a)) by(bit_vector);
  assert(a == 0xffff_ffffu32 ==> a ^ b == sub(0xffff_ffffu32, b)) by(bit_vector);
  assert(r == a ^ b ==> ((r % 2 == 1) == ((a % 2 == 1) != (b % 2 == 1))) && (((r / 2) % 2 == 1) == (((a / 2) % 2 == 1) != ((b / 2) % 2 == 1)))
    && (((r / 4) % 2 == 1) == (((a / 4) % 2 == 1) != ((b / 4) % 2 == 1))) && (((r / 16) % 2 == 1) == (((a / 16) % 2 == 1) != ((b / 16) % 2 == 1)))) by(bit_vector);
  r
}
pub fn bnot32(a: u32) -> (r: u32)
  ensures r == !a, r == 0xffff_ffff - a, fb1(r) == !fb1(a), fb2(r) == !fb2(a), fb4(r) == !fb4(a), fb16(r) == !fb16(a)
{
  let r = !a;
  assert(r == !a ==> r == sub(0xffff_ffffu32, a) && ((r % 2 == 1) == !(a % 2 == 1)) && (((r / 2) % 2 == 1) == !((a / 2) % 2 == 1))
    && (((r / 4) % 2 == 1) == !((a / 4) % 2 == 1)) && (((r / 16) % 2 == 1) == !((a / 16) % 2 == 1))) by(bit_vector);
  r
}
pub fn band64(a: u64, b: u64) -> (r: u64)
  ensures r == a & b, r <= a, r <= b, a == 0xffff_ffff ==> r == b % 0x1_0000_0000, b == 0xffff_ffff ==> r == a % 0x1_0000_0000, b == 0x1f ==> r == a % 32, b == 1 ==> r == a % 2,
{
  assert((a & b) <= a && (a & b) <= b && (a == 0xffff_ffffu64 ==> (a & b) == b % 0x1_0000_0000u64) && (b == 0xffff_ffffu64 ==> (a & b) == a % 0x1_0000_0000u64) && (b == 0x1fu64 ==> (a & b) == a % 32u64) && (b == 1u64 ==> (a & b) == a % 2u64)) by(bit_vector);
  a & b
}
pub fn bor64(a: u64, b: u64) -> (r: u64)
  ensures r == a | b, a % 0x1_0000_0000 == 0 && b < 0x1_0000_0000 ==> r == a + b, b == 0 ==> r == a
{
  assert((a % 0x1_0000_0000u64 == 0 && b < 0x1_0000_0000u64 ==> (a | b) == add(a, b)) && (b == 0 ==> (a | b) == a)) by(bit_vector);
  assert(a % 0x1_0000_0000u64 == 0 && b < 0x1_0000_0000u64 ==> a <= 0xffff_ffff_0000_0000u64) by(bit_vector);
  a | b
}
pub fn bxor64(a: u64, b: u64) -> (r: u64) ensures r == a ^ b { a ^ b }
pub fn bnot64(a: u64) -> (r: u64) ensures r == !a, r == 0xffff_ffff_ffff_ffff - a { assert(!a == sub(0xffff_ffff_ffff_ffffu64, a)) by(bit_vector); !a }
pub fn shr64(a: u64, k: u64) -> (r: u64) requires k < 64
  ensures r == a >> k, r <= a, k == 32 ==> r == a / 0x1_0000_0000, k == 10 ==> r == a / 1024, k == 5 ==> r == a / 32, k == 1 ==> r == a / 2, r == a as int / p2(k as int)
{ proof { lem_shr64(a, k); } assert((a >> k) <= a && (k == 32 ==> a >> k == a / 0x1_0000_0000u64) && (k == 10 ==> a >> k == a / 1024u64) && (k == 5 ==> a >> k == a / 32u64) && (k == 1 ==> a >> k == a / 2u64)) by(bit_vector) requires k < 64; a >> k }
pub fn shl64(a: u64, k: u64) -> (r: u64) requires k < 64
  ensures r == a << k, k == 32 ==> r == (a % 0x1_0000_0000) * 0x1_0000_0000, k == 1 ==> r == (if a < 0x8000_0000_0000_0000 { a * 2 } else { a * 2 - U64() }), r == (a * p2(k as int)) % U64()
{ proof { lem_shl64(a, k); } 
  assert((k == 32 ==> a << k == mul(a % 0x1_0000_0000u64, 0x1_0000_0000u64)) && (k == 1 ==> a << k == (if a < 0x8000_0000_0000_0000u64 { mul(a, 2) } else { mul(sub(a, 0x8000_0000_0000_0000u64), 2) }))) by(bit_vector) requires k < 64; a << k }
pub fn shr32(a: u32, k: u64) -> (r: u32) requires k < 32 ensures r == a >> (k as u32), r <= a, r == a as int / p2(k as int)
{ proof { lem_shr32(a, k as u32); } assert((a >> (k as u32)) <= a) by(bit_vector) requires k < 32; a >> (k as u32) }
pub fn shl32(a: u32, k: u64) -> (r: u32) requires k < 32 ensures r == a << (k as u32), r == (a * p2(k as int)) % B()
{ proof { lem_shl32(a, k as u32); } a << (k as u32) }
pub fn band_i64(a: i64, b: i64) -> (r: i64)
  ensures r == a & b, a == 0xffff_ffff ==> r == b as int % 0x1_0000_0000, b == 0xffff_ffff ==> r == a as int % 0x1_0000_0000
{
  assert((a == 0xffff_ffffi64 ==> (a & b) == (b as u64 & 0xffff_ffffu64) as i64)) by(bit_vector);
  assert((b == 0xffff_ffffi64 ==> (a & b) == (a as u64 & 0xffff_ffffu64) as i64)) by(bit_vector);
  proof { lem_i64_low(a); lem_i64_low(b); }
  a & b
}
pub fn shr_i64(a: i64, k: u64) -> (r: i64) requires k < 64 ensures r == a >> (k as i64), k == 32 ==> r == a as int / 0x1_0000_0000, k == 0 ==> r == a
{ proof { lem_shr_i64(a); } assert(a >> 0i64 == a) by(bit_vector); a >> (k as i64) }
pub proof fn lem_i64_low(b: i64) ensures (b as u64 & 0xffff_ffffu64) as i64 == b as int % 0x1_0000_0000
{
  let u = b as u64;
  assert(u & 0xffff_ffffu64 == u % 0x1_0000_0000u64) by(bit_vector);
  lem_neg_cast(b);
  assert(u as int == b as int || u as int == b as int + 0x1_0000_0000 * 0x1_0000_0000);
}
pub proof fn lem_neg_cast(b: i64) ensures b as u64 as int == if b >= 0 { b as int } else { b as int + U64() } {
  if b < 0 {
    let d = !b;
    assert(b < 0i64 && d == !b ==> 0 <= d && d <= 0x7fff_ffff_ffff_ffffi64 && b == sub(sub(0i64, d), 1i64) && b as u64 == sub(0xffff_ffff_ffff_ffffu64, d as u64)) by(bit_vector);
    assert(d as u64 as int == d as int);
  }
}
pub proof fn lem_shr_i64(a: i64) ensures a >> 32i64 == a as int / 0x1_0000_0000
{
  assert(a >> 32i64 <= 0x7fff_ffffi64 && a >> 32i64 >= -0x8000_0000i64) by(bit_vector);
  let q = a >> 32i64; let r = a & 0xffff_ffffi64;
  assert(q == a >> 32i64 && r == a & 0xffff_ffffi64 ==> a == add(mul(q, 0x1_0000_0000i64), r) && 0 <= r && r < 0x1_0000_0000i64) by(bit_vector);
  assert(a as int == q as int * 0x1_0000_0000 + r as int);
}
pub fn bnot_i32(a: i32) -> (r: i32) ensures r == !a { !a }
// integral conversions
pub fn c_u32_u64(a: u32) -> (r: u64) ensures r == a { a as u64 }
pub fn c_u32_i64(a: u32) -> (r: i64) ensures r == a { a as i64 }
pub fn c_i32_i64(a: i32) -> (r: i64) ensures r == a { a as i64 }
pub fn c_u64_u32(a: u64) -> (r: u32) ensures r == a % 0x1_0000_0000, a < 0x1_0000_0000 ==> r == a { assert((a as u32) as u64 == a % 0x1_0000_0000u64) by(bit_vector); #[verifier::truncate] (a as u32) }
pub fn c_i64_u64(a: i64) -> (r: u64) ensures r == (if a >= 0 { a as int } else { a + U64() }) { if a >= 0 { a as u64 } else { 0xffff_ffff_ffff_ffff - ((-(a + 1)) as u64) } }
pub fn c_u64_i64(a: u64) -> (r: i64) ensures r == (if a < 0x8000_0000_0000_0000 { a as int } else { a - U64() }) { if a < 0x8000_0000_0000_0000 { a as i64 } else { -((0xffff_ffff_ffff_ffff - a) as i64) - 1 } }
pub fn c_i32_u64(a: i32) -> (r: u64) ensures r == (if a >= 0 { a as int } else { a + U64() }) { c_i64_u64(a as i64) }
pub fn c_i32_u32(a: i32) -> (r: u32) ensures r == (if a >= 0 { a as int } else { a + B() }) { if a >= 0 { a as u32 } else { 0xffff_ffff - ((-(a + 1)) as u32) } }
pub fn c_u32_i32(a: u32) -> (r: i32) ensures r == (if a < 0x8000_0000 { a as int } else { a - B() }) { if a < 0x8000_0000 { a as i32 } else { -((0xffff_ffff - a) as i32) - 1 } }
pub fn c_i64_u32(a: i64) -> (r: u32) ensures r == a as int % 0x1_0000_0000, 0 <= a < B() ==> r == a
{ let u = c_i64_u64(a); assert(u as int == a as int || u as int == a as int + 0x1_0000_0000 * 0x1_0000_0000); c_u64_u32(u) }
pub fn c_u64_i32(a: u64) -> (r: i32) ensures a < 0x8000_0000 ==> r == a, r == (if a % 0x1_0000_0000 < 0x8000_0000 { a as int % 0x1_0000_0000 } else { a as int % 0x1_0000_0000 - B() }) { c_u32_i32(c_u64_u32(a)) }
pub fn c_i64_i32(a: i64) -> (r: i32) ensures -0x8000_0000 <= a < 0x8000_0000 ==> r == a, r == (if a as int % 0x1_0000_0000 < 0x8000_0000 { a as int % 0x1_0000_0000 } else { a as int % 0x1_0000_0000 - B() })
{ c_u32_i32(c_i64_u32(a)) }
pub fn c_u64_u16(a: u64) -> (r: u16) ensures r == a % 0x1_0000 { assert((a as u16) as u64 == a % 0x1_0000u64) by(bit_vector); #[verifier::truncate] (a as u16) }
pub fn c_u64_u8(a: u64) -> (r: u8) ensures r == a % 0x100 { assert((a as u8) as u64 == a % 0x100u64) by(bit_vector); #[verifier::truncate] (a as u8) }
pub fn c_u64_i16(a: u64) -> (r: i16) ensures r == (if a % 0x1_0000 < 0x8000 { a as int % 0x1_0000 } else { a as int % 0x1_0000 - 0x1_0000 }) { let x = c_u64_u16(a); if x < 0x8000 { x as i16 } else { -((0xffff - x) as i16) - 1 } }
pub fn c_u64_i8(a: u64) -> (r: i8) ensures r == (if a % 0x100 < 0x80 { a as int % 0x100 } else { a as int % 0x100 - 0x100 }) { let x = c_u64_u8(a); if x < 0x80 { x as i8 } else { -((0xff - x) as i8) - 1 } }
pub fn c_bool_i32(a: bool) -> (r: i32) ensures r == (if a { 1int } else { 0 }) { if a { 1 } else { 0 } }
pub fn c_bool_u64(a: bool) -> (r: u64) ensures r == (if a { 1int } else { 0 }) { if a { 1 } else { 0 } }
pub fn c_bool_u32(a: bool) -> (r: u32) ensures r == (if a { 1int } else { 0 }) { if a { 1 } else { 0 } }
#[verifier::external_body] pub fn any_u64() -> u64 { unimplemented!() }
#[verifier::external_body] pub fn any_u32() -> u32 { unimplemented!() }
#[verifier::external_body] pub fn any_i64() -> i64 { unimplemented!() }
#[verifier::external_body] pub fn any_i32() -> i32 { unimplemented!() }
#[verifier::external_body] pub fn any_bool() -> bool { unimplemented!() }
// __builtin_clz: undefined for 0
#[verifier::external_body]
pub fn util_clz(a: u32) -> (r: i32) requires a != 0 ensures 0 <= r < 32, p2(31 - r) <= a < p2(32 - r) { unimplemented!() }
pub fn debug_assert_(c: bool) requires c { }
pub fn sref_eq(a: SRef, b: SRef) -> (r: bool) ensures r == (a == b) { a == b }
pub fn it_dummy() -> (r: It) { It { c: Ghost(0), i: 0 } }
// a local std::shared_ptr is modelled as a slice object with an empty range
#[verifier::external_body]
pub fn sp_local(h: &mut H, s: SRef) requires !old(h)@.sl.dom().contains(s)
  ensures final(h)@ == (HS { sl: old(h)@.sl.insert(s, SV { cell: 0, lo: 0, hi: 0 }), ..old(h)@ }) { unimplemented!() }
