// ---------------------------------------------------------------- bytes, strings
pub struct Bp { pub c: Ghost<int>, pub i: i64 }            // char* / void* into byte array c; c == 0 is the null pointer
impl Clone for Bp { fn clone(&self) -> (r: Self) ensures r == *self { Bp { c: self.c, i: self.i } } }
impl Copy for Bp {}
pub struct Str { pub c: Ghost<int>, pub i: i64, pub len: u64 } // std::string_view
impl Clone for Str { fn clone(&self) -> (r: Self) ensures r == *self { Str { c: self.c, i: self.i, len: self.len } } }
impl Copy for Str {}
pub struct FcRes { pub ptr: Bp, pub ec: i32 }              // std::from_chars_result, std::to_chars_result
pub struct Sb { pub d: Ghost<Seq<u8>> }                    // std::string as a value
impl Clone for Sb { fn clone(&self) -> (r: Self) ensures r == *self { Sb { d: self.d } } }
impl Copy for Sb {}
pub open spec fn brg(h: HS, c: int, lo: int, hi: int) -> bool { c != 0 && h.by.dom().contains(c) && 0 <= lo <= hi <= h.by[c].len() }
pub open spec fn strok(h: HS, s: Str) -> bool { brg(h, s.c@, s.i as int, s.i + s.len) && s.len <= MAXN() && s.i <= MAXN() }
// the characters of a string view
pub open spec fn sby(h: HS, s: Str) -> Seq<u8> { h.by[s.c@].subrange(s.i as int, s.i + s.len) }
pub open spec fn i8u(c: i8) -> int { if c < 0 { c + 256 } else { c as int } }
pub open spec fn iscstr(s: Seq<u8>, i: int, n: int) -> bool { 0 <= i && 0 <= n && i + n < s.len() && s[i + n] == 0 && forall |k: int| i <= k < i + n ==> #[trigger] s[k] != 0 }
pub fn bp_null() -> (r: Bp) ensures r.c@ == 0 { Bp { c: Ghost(0), i: 0 } }
#[verifier::external_body]
pub fn bp_nonnull(p: Bp) -> (r: bool) ensures r == (p.c@ != 0) { unimplemented!() }
pub fn bp_add(p: Bp, n: i64) -> (r: Bp) requires -0x4000_0000_0000_0000 <= p.i + n <= 0x4000_0000_0000_0000 ensures r.c == p.c, r.i == p.i + n { Bp { c: p.c, i: p.i + n } }
pub fn bp_sub(p: Bp, n: i64) -> (r: Bp) requires -0x4000_0000_0000_0000 <= p.i - n <= 0x4000_0000_0000_0000 ensures r.c == p.c, r.i == p.i - n { Bp { c: p.c, i: p.i - n } }
pub fn bp_diff(p: Bp, q: Bp) -> (r: i64) requires p.c@ == q.c@, -0x4000_0000_0000_0000 <= p.i - q.i <= 0x4000_0000_0000_0000 ensures r == p.i - q.i { p.i - q.i }
pub fn bp_lt(p: Bp, q: Bp) -> (r: bool) requires p.c@ == q.c@ ensures r == (p.i < q.i) { p.i < q.i }
pub fn bp_le(p: Bp, q: Bp) -> (r: bool) requires p.c@ == q.c@ ensures r == (p.i <= q.i) { p.i <= q.i }
pub fn bp_gt(p: Bp, q: Bp) -> (r: bool) requires p.c@ == q.c@ ensures r == (p.i > q.i) { p.i > q.i }
pub fn bp_ge(p: Bp, q: Bp) -> (r: bool) requires p.c@ == q.c@ ensures r == (p.i >= q.i) { p.i >= q.i }
#[verifier::external_body]
pub fn bp_eq(p: Bp, q: Bp) -> (r: bool) requires p.c@ == q.c@ || p.c@ == 0 || q.c@ == 0 ensures (r == (p.c@ == q.c@ && (p.c@ == 0 || p.i == q.i))) { unimplemented!() }
#[verifier::external_body]
pub fn bp_ne(p: Bp, q: Bp) -> (r: bool) requires p.c@ == q.c@ || p.c@ == 0 || q.c@ == 0 ensures !(r == (p.c@ == q.c@ && (p.c@ == 0 || p.i == q.i))) { unimplemented!() }
#[verifier::external_body]
pub fn bp_get(h: &H, p: Bp) -> (r: u8) requires brg(h@, p.c@, p.i as int, p.i + 1) ensures r == h@.by[p.c@][p.i as int] { unimplemented!() }
#[verifier::external_body]
pub fn bp_get_i8(h: &H, p: Bp) -> (r: i8) requires brg(h@, p.c@, p.i as int, p.i + 1) ensures i8u(r) == h@.by[p.c@][p.i as int] { unimplemented!() }
// a local array of n zero bytes
#[verifier::external_body]
pub fn bp_local_raw(h: &mut H, n: u64) -> (r: Bp)
  ensures r.c@ != 0, r.i == 0, !old(h)@.by.dom().contains(r.c@), final(h)@ == (HS { by: old(h)@.by.insert(r.c@, Seq::new(n as nat, |i: int| 0u8)), ..old(h)@ }) { unimplemented!() }
pub fn bp_local(h: &mut H, n: u64) -> (r: Bp)
  ensures r.c@ != 0, r.i == 0, !old(h)@.by.dom().contains(r.c@), final(h)@ == (HS { by: final(h)@.by, ..old(h)@ }), final(h)@.by.remove(r.c@) =~= old(h)@.by,
    final(h)@.by.dom().contains(r.c@), final(h)@.by[r.c@].len() == n, forall |c: int| c != r.c@ ==> #[trigger] final(h)@.by[c] == old(h)@.by[c], forall |s2: SRef| #[trigger] m(final(h)@, s2) == m(old(h)@, s2) { bp_local_raw(h, n) }
#[verifier::external_body]
pub fn bp_kill_raw(h: &mut H, p: Bp) requires old(h)@.by.dom().contains(p.c@) ensures final(h)@ == (HS { by: old(h)@.by.remove(p.c@), ..old(h)@ }) { unimplemented!() }
pub fn bp_kill(h: &mut H, p: Bp) requires old(h)@.by.dom().contains(p.c@) ensures final(h)@ == (HS { by: old(h)@.by.remove(p.c@), ..old(h)@ }), forall |s2: SRef| #[trigger] m(final(h)@, s2) == m(old(h)@, s2) { bp_kill_raw(h, p); }
// std::string_view
pub fn str_data(s: Str) -> (r: Bp) ensures r.c == s.c, r.i == s.i { Bp { c: s.c, i: s.i } }
#[verifier::external_body]
pub fn str_find_last_of(h: &H, s: Str, c: i8, p: u64) -> (r: u64) requires strok(h@, s)
  ensures r == 0xffff_ffff_ffff_ffff || (r < s.len && r <= p && sby(h@, s)[r as int] == i8u(c)),
    forall |k: int| 0 <= k < s.len && k <= p && (r == 0xffff_ffff_ffff_ffff || k > r) ==> #[trigger] sby(h@, s)[k] != i8u(c) { unimplemented!() }
#[verifier::external_body]
pub fn str_find_first_not_of(h: &H, s: Str, c: i8, p: u64) -> (r: u64) requires strok(h@, s)
  ensures r == 0xffff_ffff_ffff_ffff || (r < s.len && r >= p && sby(h@, s)[r as int] != i8u(c)),
    forall |k: int| 0 <= k < s.len && k >= p && (r == 0xffff_ffff_ffff_ffff || k < r) ==> #[trigger] sby(h@, s)[k] == i8u(c) { unimplemented!() }
// std::string values
pub fn sb_empty() -> (r: Sb) ensures r.d@ =~= Seq::<u8>::empty() { Sb { d: Ghost(Seq::empty()) } }
#[verifier::external_body]
pub fn sb_size(s: &Sb) -> (r: u64) ensures r == s.d@.len(), r <= MAXN() { unimplemented!() }
pub fn sb_range(h: &H, p: Bp, n: u64) -> (r: Sb) requires brg(h@, p.c@, p.i as int, p.i + n) ensures r.d@ == h@.by[p.c@].subrange(p.i as int, p.i + n) { Sb { d: Ghost(h@.by[p.c@].subrange(p.i as int, p.i + n)) } }
#[verifier::external_body]
pub fn sb_cstr(h: &H, p: Bp) -> (r: Sb) requires p.c@ != 0, h@.by.dom().contains(p.c@), exists |n: int| iscstr(h@.by[p.c@], p.i as int, n)
  ensures forall |n: int| iscstr(h@.by[p.c@], p.i as int, n) ==> r.d@ == #[trigger] h@.by[p.c@].subrange(p.i as int, p.i + n), forall |n: int| #[trigger] iscstr(h@.by[p.c@], p.i as int, n) ==> r.d@.len() == n { unimplemented!() }
pub fn sb_fill(n: u64, c: i8) -> (r: Sb) ensures r.d@ == Seq::new(n as nat, |i: int| i8u(c) as u8) { Sb { d: Ghost(Seq::new(n as nat, |i: int| i8u(c) as u8)) } }
pub fn sb_append(s: &mut Sb, x: Sb) ensures final(s).d@ == old(s).d@ + x.d@ { s.d = Ghost(s.d@ + x.d@); }
pub fn sb_concat(a: Sb, b: Sb) -> (r: Sb) ensures r.d@ == a.d@ + b.d@ { Sb { d: Ghost(a.d@ + b.d@) } }
pub fn sb_insert_n(s: &mut Sb, p: u64, n: u64, c: i8) requires p <= old(s).d@.len()
  ensures final(s).d@ == old(s).d@.subrange(0, p as int) + Seq::new(n as nat, |i: int| i8u(c) as u8) + old(s).d@.subrange(p as int, old(s).d@.len() as int)
{ s.d = Ghost(s.d@.subrange(0, p as int) + Seq::new(n as nat, |i: int| i8u(c) as u8) + s.d@.subrange(p as int, s.d@.len() as int)); }
pub fn vecs_size(v: &Vec<Sb>) -> (r: u64) ensures r == v@.len() { v.len() as u64 }
pub fn vecs_push(v: &mut Vec<Sb>, x: Sb) ensures final(v)@ == old(v)@.push(x) { v.push(x); }
pub fn vecs_pop(v: &mut Vec<Sb>) requires old(v)@.len() > 0 ensures final(v)@ == old(v)@.subrange(0, old(v)@.len() - 1) { v.pop(); assert(v@ =~= old(v)@.subrange(0, old(v)@.len() - 1)); }
pub fn vecs_at(v: &Vec<Sb>, i: u64) -> (r: Sb) requires i < v@.len() ensures r == v@[i as int] { let n = v.len(); v[i as usize] }
pub fn rit_idx(v: &Vec<Sb>, k: u64) -> (r: u64) requires k < v@.len() ensures r == v@.len() - 1 - k { (v.len() as u64) - 1 - k }
// ---------------------------------------------------------------- numerals
pub open spec fn dval(c: u8) -> int { if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 122 { c - 87 } else if 65 <= c <= 90 { c - 55 } else { -1 } }
pub open spec fn isd(c: u8, r: int) -> bool { 0 <= dval(c) < r }
pub open spec fn dch(d: int) -> u8 { if d < 10 { (48 + d) as u8 } else { (87 + d) as u8 } }
pub open spec fn rpow(r: int, n: int) -> int decreases n { if n <= 0 { 1 } else { r * rpow(r, n - 1) } }
// the number written by characters lo..hi of s
pub open spec fn nm(s: Seq<u8>, lo: int, hi: int, r: int) -> int decreases hi - lo { if hi <= lo { 0 } else { nm(s, lo, hi - 1, r) * r + dval(s[hi - 1]) } }
pub open spec fn alld(s: Seq<u8>, lo: int, hi: int, r: int) -> bool { forall |k: int| lo <= k < hi ==> isd(#[trigger] s[k], r) }
pub open spec fn sgl(s: Seq<u8>) -> int { if s.len() > 0 && (s[0] == 43 || s[0] == 45) { 1 } else { 0 } }
// the number syntax: an optional sign and at least one digit
pub open spec fn nvalid(s: Seq<u8>, r: int) -> bool { 2 <= r <= 36 && s.len() > sgl(s) && alld(s, sgl(s), s.len() as int, r) }
pub open spec fn nval(s: Seq<u8>, r: int) -> int { let x = nm(s, sgl(s), s.len() as int, r); if s.len() > 0 && s[0] == 45 { -x } else { x } }
// the digits of x > 0, the numeral of any integer
pub open spec fn digs(x: int, r: int) -> Seq<u8> decreases x via digs_dec { if x <= 0 || r < 2 { Seq::empty() } else { digs(x / r, r).push(dch(x % r)) } }
#[via_fn] proof fn digs_dec(x: int, r: int) { if x > 0 && r >= 2 { assert(0 <= x / r < x) by(nonlinear_arith) requires x > 0, r >= 2; } }
pub open spec fn unum(x: int, r: int) -> Seq<u8> { if x == 0 { seq![48u8] } else { digs(x, r) } }
pub open spec fn numeral(x: int, r: int) -> Seq<u8> { if x < 0 { seq![45u8] + digs(-x, r) } else { unum(x, r) } }
pub open spec fn D32(r: int) -> int { if r == 2 { 30 } else if r == 3 { 19 } else if r == 4 { 15 } else if r == 5 { 13 } else if r == 6 { 11 } else if r == 7 { 11 } else if r == 8 { 10 } else if r == 9 { 9 } else if r == 10 { 9 } else if r == 11 { 8 } else if r == 12 { 8 } else if r == 13 { 8 } else if r == 14 { 8 } else if r == 15 { 7 } else if r == 16 { 7 } else if r == 17 { 7 } else if r == 18 { 7 } else if r == 19 { 7 } else if r == 20 { 7 } else if r == 21 { 7 } else if r == 22 { 6 } else if r == 23 { 6 } else if r == 24 { 6 } else if r == 25 { 6 } else if r == 26 { 6 } else if r == 27 { 6 } else if r == 28 { 6 } else if r == 29 { 6 } else if r == 30 { 6 } else if r == 31 { 6 } else if r == 32 { 6 } else if r == 33 { 6 } else if r == 34 { 6 } else if r == 35 { 6 } else if r == 36 { 5 } else { 0 } }
pub open spec fn D64(r: int) -> int { if r == 2 { 62 } else if r == 3 { 39 } else if r == 4 { 31 } else if r == 5 { 27 } else if r == 6 { 24 } else if r == 7 { 22 } else if r == 8 { 20 } else if r == 9 { 19 } else if r == 10 { 18 } else if r == 11 { 18 } else if r == 12 { 17 } else if r == 13 { 17 } else if r == 14 { 16 } else if r == 15 { 16 } else if r == 16 { 15 } else if r == 17 { 15 } else if r == 18 { 15 } else if r == 19 { 14 } else if r == 20 { 14 } else if r == 21 { 14 } else if r == 22 { 14 } else if r == 23 { 13 } else if r == 24 { 13 } else if r == 25 { 13 } else if r == 26 { 13 } else if r == 27 { 13 } else if r == 28 { 13 } else if r == 29 { 12 } else if r == 30 { 12 } else if r == 31 { 12 } else if r == 32 { 12 } else if r == 33 { 12 } else if r == 34 { 12 } else if r == 35 { 12 } else if r == 36 { 12 } else { 0 } }
// std::from_chars for unsigned types: the longest prefix of digits; all or nothing
pub open spec fn fcspec(h: HS, a: Bp, b: Bp, lim: int, v0: int, v1: int, r: int, q: FcRes) -> bool {
  let s = h.by[a.c@]; let n = q.ptr.i - a.i;
  &&& q.ptr.c == a.c && a.i <= q.ptr.i <= b.i && alld(s, a.i as int, q.ptr.i as int, r) && (q.ptr.i < b.i ==> !isd(s[q.ptr.i as int], r))
  &&& (n == 0 ==> q.ec == 22 && v1 == v0)
  &&& (n > 0 && nm(s, a.i as int, q.ptr.i as int, r) < lim ==> q.ec == 0 && v1 == nm(s, a.i as int, q.ptr.i as int, r))
  &&& (n > 0 && nm(s, a.i as int, q.ptr.i as int, r) >= lim ==> q.ec == 34 && v1 == v0)
}
#[verifier::external_body]
pub fn from_chars_u32(h: &H, a: Bp, b: Bp, val: &mut u32, r: i32) -> (q: FcRes) requires 2 <= r <= 36, a.c@ == b.c@, brg(h@, a.c@, a.i as int, b.i as int)
  ensures fcspec(h@, a, b, B(), *old(val) as int, *final(val) as int, r as int, q) { unimplemented!() }
#[verifier::external_body]
pub fn from_chars_u64(h: &H, a: Bp, b: Bp, val: &mut u64, r: i32) -> (q: FcRes) requires 2 <= r <= 36, a.c@ == b.c@, brg(h@, a.c@, a.i as int, b.i as int)
  ensures fcspec(h@, a, b, U64(), *old(val) as int, *final(val) as int, r as int, q) { unimplemented!() }
// std::to_chars: the numeral of v, if there is room
pub open spec fn bwr(s: Seq<u8>, i: int, w: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |k: int| if i <= k < i + w.len() { w[k - i] } else { s[k] }) }
#[verifier::external_body]
pub fn to_chars_u64_raw(h: &mut H, a: Bp, b: Bp, x: u64, r: i32) -> (q: FcRes) requires 2 <= r <= 36, a.c@ == b.c@, brg(old(h)@, a.c@, a.i as int, b.i as int)
  ensures q.ptr.c == a.c, unum(x as int, r as int).len() <= b.i - a.i ==> q.ec == 0 && q.ptr.i == a.i + unum(x as int, r as int).len() && final(h)@ == (HS { by: old(h)@.by.insert(a.c@, bwr(old(h)@.by[a.c@], a.i as int, unum(x as int, r as int))), ..old(h)@ }),
    unum(x as int, r as int).len() > b.i - a.i ==> q.ec == 75 && q.ptr.i == b.i && final(h)@ == (HS { by: final(h)@.by, ..old(h)@ }) && final(h)@.by.remove(a.c@) == old(h)@.by.remove(a.c@) && final(h)@.by.dom().contains(a.c@) && final(h)@.by[a.c@].len() == old(h)@.by[a.c@].len() { unimplemented!() }
pub fn to_chars_u64(h: &mut H, a: Bp, b: Bp, x: u64, r: i32) -> (q: FcRes) requires 2 <= r <= 36, a.c@ == b.c@, brg(old(h)@, a.c@, a.i as int, b.i as int)
  ensures q.ptr.c == a.c, final(h)@ == (HS { by: final(h)@.by, ..old(h)@ }), final(h)@.by.remove(a.c@) =~= old(h)@.by.remove(a.c@), final(h)@.by.dom().contains(a.c@), final(h)@.by[a.c@].len() == old(h)@.by[a.c@].len(),
    forall |s2: SRef| #[trigger] m(final(h)@, s2) == m(old(h)@, s2),
    unum(x as int, r as int).len() <= b.i - a.i ==> q.ec == 0 && q.ptr.i == a.i + unum(x as int, r as int).len() && final(h)@.by[a.c@].subrange(a.i as int, q.ptr.i as int) =~= unum(x as int, r as int),
    unum(x as int, r as int).len() > b.i - a.i ==> q.ec == 75 && q.ptr.i == b.i,
{ let ghost h0 = h@; let q = to_chars_u64_raw(h, a, b, x, r); q }
// the objects of a static const table: they exist before the call, and nothing ever writes to them
#[verifier::external_body]
pub fn const_big(h: &H, x: i64) -> (r: BId) ensures binv(h@, r), v(h@, r) == x, r != 0 { unimplemented!() }
// ---------------------------------------------------------------- lemmas
pub proof fn rp_0(r: int) ensures rpow(r, 0) == 1, rpow(r, 1) == r { reveal_with_fuel(rpow, 3); }
pub proof fn rp_step(r: int, n: int) requires n >= 1 ensures rpow(r, n) == r * rpow(r, n - 1) { }
pub proof fn rp_pos(r: int, n: int) requires r >= 1 ensures rpow(r, n) >= 1 decreases n { if n > 0 { rp_pos(r, n - 1); let x = rpow(r, n - 1); assert(r * x >= 1) by(nonlinear_arith) requires r >= 1, x >= 1; } }
pub proof fn nm_step(s: Seq<u8>, lo: int, hi: int, r: int) requires hi > lo ensures nm(s, lo, hi, r) == nm(s, lo, hi - 1, r) * r + dval(s[hi - 1]) { }
pub proof fn nm_split(s: Seq<u8>, lo: int, mid: int, hi: int, r: int) requires lo <= mid <= hi ensures nm(s, lo, hi, r) == nm(s, lo, mid, r) * rpow(r, hi - mid) + nm(s, mid, hi, r) decreases hi - mid {
  if hi > mid {
    nm_split(s, lo, mid, hi - 1, r); let a = nm(s, lo, mid, r); let p = rpow(r, hi - 1 - mid); let c = nm(s, mid, hi - 1, r); let d = dval(s[hi - 1]);
    nm_step(s, lo, hi, r); nm_step(s, mid, hi, r); rp_step(r, hi - mid);
    assert((a * p + c) * r + d == a * (r * p) + (c * r + d)) by(nonlinear_arith);
  } else { rp_0(r); let a = nm(s, lo, mid, r); assert(a * 1 == a); }
}
pub proof fn nm_bound(s: Seq<u8>, lo: int, hi: int, r: int) requires alld(s, lo, hi, r), r >= 2, lo <= hi ensures 0 <= nm(s, lo, hi, r) < rpow(r, hi - lo) decreases hi - lo {
  if hi > lo { nm_bound(s, lo, hi - 1, r); nm_step(s, lo, hi, r); rp_step(r, hi - lo); assert(isd(s[hi - 1], r)); let x = nm(s, lo, hi - 1, r); let p = rpow(r, hi - 1 - lo); let d = dval(s[hi - 1]);
    assert(0 <= x * r + d < r * p) by(nonlinear_arith) requires 0 <= x, x < p, 0 <= d, d < r, r >= 2; } else { rp_0(r); }
}
pub proof fn nm_zeros(s: Seq<u8>, lo: int, hi: int, r: int) requires forall |k: int| lo <= k < hi ==> #[trigger] s[k] == 48 ensures nm(s, lo, hi, r) == 0 decreases hi - lo {
  if hi > lo { nm_zeros(s, lo, hi - 1, r); nm_step(s, lo, hi, r); assert(s[hi - 1] == 48); assert(0 * r == 0); }
}
pub proof fn nm_sub(s: Seq<u8>, w: Seq<u8>, o: int, lo: int, hi: int, r: int) requires forall |k: int| lo <= k < hi ==> #[trigger] s[k] == w[o + k] ensures nm(s, lo, hi, r) == nm(w, o + lo, o + hi, r) decreases hi - lo {
  if hi > lo { nm_sub(s, w, o, lo, hi - 1, r); nm_step(s, lo, hi, r); nm_step(w, o + lo, o + hi, r); assert(s[hi - 1] == w[o + hi - 1]); }
}
pub open spec fn K32(r: int) -> int { if r == 2 { 1073741824 } else if r == 3 { 1162261467 } else if r == 4 { 1073741824 } else if r == 5 { 1220703125 } else if r == 6 { 362797056 } else if r == 7 { 1977326743 } else if r == 8 { 1073741824 } else if r == 9 { 387420489 } else if r == 10 { 1000000000 } else if r == 11 { 214358881 } else if r == 12 { 429981696 } else if r == 13 { 815730721 } else if r == 14 { 1475789056 } else if r == 15 { 170859375 } else if r == 16 { 268435456 } else if r == 17 { 410338673 } else if r == 18 { 612220032 } else if r == 19 { 893871739 } else if r == 20 { 1280000000 } else if r == 21 { 1801088541 } else if r == 22 { 113379904 } else if r == 23 { 148035889 } else if r == 24 { 191102976 } else if r == 25 { 244140625 } else if r == 26 { 308915776 } else if r == 27 { 387420489 } else if r == 28 { 481890304 } else if r == 29 { 594823321 } else if r == 30 { 729000000 } else if r == 31 { 887503681 } else if r == 32 { 1073741824 } else if r == 33 { 1291467969 } else if r == 34 { 1544804416 } else if r == 35 { 1838265625 } else if r == 36 { 60466176 } else { 0 } }
pub proof fn lem_d32(r: int) requires 2 <= r <= 36 ensures rpow(r, D32(r)) == K32(r), D32(r) >= 1, D32(r) <= 30, 1 < K32(r) < 0x100000000 {
  assert(rpow(2, 30) == 1073741824) by(compute_only);
  assert(rpow(3, 19) == 1162261467) by(compute_only);
  assert(rpow(4, 15) == 1073741824) by(compute_only);
  assert(rpow(5, 13) == 1220703125) by(compute_only);
  assert(rpow(6, 11) == 362797056) by(compute_only);
  assert(rpow(7, 11) == 1977326743) by(compute_only);
  assert(rpow(8, 10) == 1073741824) by(compute_only);
  assert(rpow(9, 9) == 387420489) by(compute_only);
  assert(rpow(10, 9) == 1000000000) by(compute_only);
  assert(rpow(11, 8) == 214358881) by(compute_only);
  assert(rpow(12, 8) == 429981696) by(compute_only);
  assert(rpow(13, 8) == 815730721) by(compute_only);
  assert(rpow(14, 8) == 1475789056) by(compute_only);
  assert(rpow(15, 7) == 170859375) by(compute_only);
  assert(rpow(16, 7) == 268435456) by(compute_only);
  assert(rpow(17, 7) == 410338673) by(compute_only);
  assert(rpow(18, 7) == 612220032) by(compute_only);
  assert(rpow(19, 7) == 893871739) by(compute_only);
  assert(rpow(20, 7) == 1280000000) by(compute_only);
  assert(rpow(21, 7) == 1801088541) by(compute_only);
  assert(rpow(22, 6) == 113379904) by(compute_only);
  assert(rpow(23, 6) == 148035889) by(compute_only);
  assert(rpow(24, 6) == 191102976) by(compute_only);
  assert(rpow(25, 6) == 244140625) by(compute_only);
  assert(rpow(26, 6) == 308915776) by(compute_only);
  assert(rpow(27, 6) == 387420489) by(compute_only);
  assert(rpow(28, 6) == 481890304) by(compute_only);
  assert(rpow(29, 6) == 594823321) by(compute_only);
  assert(rpow(30, 6) == 729000000) by(compute_only);
  assert(rpow(31, 6) == 887503681) by(compute_only);
  assert(rpow(32, 6) == 1073741824) by(compute_only);
  assert(rpow(33, 6) == 1291467969) by(compute_only);
  assert(rpow(34, 6) == 1544804416) by(compute_only);
  assert(rpow(35, 6) == 1838265625) by(compute_only);
  assert(rpow(36, 5) == 60466176) by(compute_only);
}
pub open spec fn K64(r: int) -> int { if r == 2 { 4611686018427387904 } else if r == 3 { 4052555153018976267 } else if r == 4 { 4611686018427387904 } else if r == 5 { 7450580596923828125 } else if r == 6 { 4738381338321616896 } else if r == 7 { 3909821048582988049 } else if r == 8 { 1152921504606846976 } else if r == 9 { 1350851717672992089 } else if r == 10 { 1000000000000000000 } else if r == 11 { 5559917313492231481 } else if r == 12 { 2218611106740436992 } else if r == 13 { 8650415919381337933 } else if r == 14 { 2177953337809371136 } else if r == 15 { 6568408355712890625 } else if r == 16 { 1152921504606846976 } else if r == 17 { 2862423051509815793 } else if r == 18 { 6746640616477458432 } else if r == 19 { 799006685782884121 } else if r == 20 { 1638400000000000000 } else if r == 21 { 3243919932521508681 } else if r == 22 { 6221821273427820544 } else if r == 23 { 504036361936467383 } else if r == 24 { 876488338465357824 } else if r == 25 { 1490116119384765625 } else if r == 26 { 2481152873203736576 } else if r == 27 { 4052555153018976267 } else if r == 28 { 6502111422497947648 } else if r == 29 { 353814783205469041 } else if r == 30 { 531441000000000000 } else if r == 31 { 787662783788549761 } else if r == 32 { 1152921504606846976 } else if r == 33 { 1667889514952984961 } else if r == 34 { 2386420683693101056 } else if r == 35 { 3379220508056640625 } else if r == 36 { 4738381338321616896 } else { 0 } }
pub proof fn lem_d64(r: int) requires 2 <= r <= 36 ensures rpow(r, D64(r)) == K64(r), D64(r) >= 1, D64(r) <= 62, 1 < K64(r) < 0x8000000000000000 {
  assert(rpow(2, 62) == 4611686018427387904) by(compute_only);
  assert(rpow(3, 39) == 4052555153018976267) by(compute_only);
  assert(rpow(4, 31) == 4611686018427387904) by(compute_only);
  assert(rpow(5, 27) == 7450580596923828125) by(compute_only);
  assert(rpow(6, 24) == 4738381338321616896) by(compute_only);
  assert(rpow(7, 22) == 3909821048582988049) by(compute_only);
  assert(rpow(8, 20) == 1152921504606846976) by(compute_only);
  assert(rpow(9, 19) == 1350851717672992089) by(compute_only);
  assert(rpow(10, 18) == 1000000000000000000) by(compute_only);
  assert(rpow(11, 18) == 5559917313492231481) by(compute_only);
  assert(rpow(12, 17) == 2218611106740436992) by(compute_only);
  assert(rpow(13, 17) == 8650415919381337933) by(compute_only);
  assert(rpow(14, 16) == 2177953337809371136) by(compute_only);
  assert(rpow(15, 16) == 6568408355712890625) by(compute_only);
  assert(rpow(16, 15) == 1152921504606846976) by(compute_only);
  assert(rpow(17, 15) == 2862423051509815793) by(compute_only);
  assert(rpow(18, 15) == 6746640616477458432) by(compute_only);
  assert(rpow(19, 14) == 799006685782884121) by(compute_only);
  assert(rpow(20, 14) == 1638400000000000000) by(compute_only);
  assert(rpow(21, 14) == 3243919932521508681) by(compute_only);
  assert(rpow(22, 14) == 6221821273427820544) by(compute_only);
  assert(rpow(23, 13) == 504036361936467383) by(compute_only);
  assert(rpow(24, 13) == 876488338465357824) by(compute_only);
  assert(rpow(25, 13) == 1490116119384765625) by(compute_only);
  assert(rpow(26, 13) == 2481152873203736576) by(compute_only);
  assert(rpow(27, 13) == 4052555153018976267) by(compute_only);
  assert(rpow(28, 13) == 6502111422497947648) by(compute_only);
  assert(rpow(29, 12) == 353814783205469041) by(compute_only);
  assert(rpow(30, 12) == 531441000000000000) by(compute_only);
  assert(rpow(31, 12) == 787662783788549761) by(compute_only);
  assert(rpow(32, 12) == 1152921504606846976) by(compute_only);
  assert(rpow(33, 12) == 1667889514952984961) by(compute_only);
  assert(rpow(34, 12) == 2386420683693101056) by(compute_only);
  assert(rpow(35, 12) == 3379220508056640625) by(compute_only);
  assert(rpow(36, 12) == 4738381338321616896) by(compute_only);
}
// ---------------------------------------------------------------- parsing
pub open spec fn blset(h0: HS, ok: BoolP, x: bool) -> Map<BoolP, bool> { if ok == 0 { h0.bl } else { h0.bl.insert(ok, x) } }
pub proof fn x_done(h0: HS, g: HS, h1: HS, W: Set<SRef>) requires chg(h0, g, W), h1 == (HS { bl: h1.bl, st: h1.st, ..g })
  ensures chg(h0, HS { bl: h0.bl, ..h1 }, W), wf(h1), keepX(h0, h1, W), forall |b: BId| #![trigger binv(h1, b)] #![trigger v(h1, b)] binv(h1, b) == binv(g, b) && v(h1, b) == v(g, b) && liveb(h1, b) == liveb(g, b) && mg(h1, b) == mg(g, b) && fl(h1, b) == fl(g, b) {
  let q = HS { bl: h0.bl, ..h1 };
  assert forall |s2: SRef| h1.sl.dom().contains(s2) implies wfs(h1, s2) by { assert(wfs(g, s2)); }
  assert forall |s2: SRef| q.sl.dom().contains(s2) implies wfs(q, s2) by { assert(wfs(g, s2)); }
  assert forall |s2: SRef| m(h1, s2) == m(g, s2) && m(q, s2) == m(g, s2) by { }
  assert forall |s2: SRef| !W.contains(s2) && live(h0, s2) implies #[trigger] m(q, s2) == m(h0, s2) by { assert(m(g, s2) == m(h0, s2)); }
  assert(rest(h0, q)); assert(chg(h0, q, W)); chg_keep(h0, g, W);
}
pub proof fn x_by(h0: HS, h: HS, W: Set<SRef>, n: Set<SRef>) requires nuX(h0, h, W, n) ensures h.by == h0.by, h.bl == h0.bl, wf(h) { }
pub proof fn c_by(h0: HS, h: HS, W: Set<SRef>) requires chg(h0, h, W) ensures h.by == h0.by, h.bl == h0.bl, wf(h) { }
pub proof fn rp_mono(r: int, a: int, b: int) requires r >= 2, 0 <= a <= b ensures 1 <= rpow(r, a) <= rpow(r, b) decreases b - a { rp_pos(r, a); if a < b { rp_mono(r, a, b - 1); rp_step(r, b); let x = rpow(r, b - 1); assert(x <= r * x) by(nonlinear_arith) requires r >= 2, x >= 1; } }
// one call of from_chars on characters p..p+n of q, n at most the number of digits that fit
pub proof fn fc_block(h: HS, q: Seq<u8>, s: Str, a: Bp, b: Bp, p: int, n: int, r: int, v0: int, v1: int, c: FcRes)
  requires strok(h, s), q == sby(h, s), a.c == s.c, b.c == s.c, a.i == s.i + p, b.i == a.i + n, 0 <= p, 1 <= n <= D32(r), p + n <= s.len, 2 <= r <= 36, fcspec(h, a, b, B(), v0, v1, r, c)
  ensures c.ptr.c == s.c, (c.ec == 0 && c.ptr.i == b.i) ==> alld(q, p, p + n, r) && v1 == nm(q, p, p + n, r) && 0 <= v1, !(c.ec == 0 && c.ptr.i == b.i) ==> !alld(q, p, p + n, r)
{
  let w = h.by[s.c@]; let e = c.ptr.i as int;
  assert forall |k: int| p <= k < p + n implies #[trigger] q[k] == w[s.i + k] by { }
  nm_sub(q, w, s.i as int, p, p + n, r); lem_d32(r); rp_mono(r, n, D32(r));
  if c.ptr.i < b.i { let k = e - s.i; assert(q[k] == w[e]); if alld(q, p, p + n, r) { assert(isd(q[k], r)); } }
  else {
    assert forall |k: int| p <= k < p + n implies isd(#[trigger] q[k], r) by { assert(q[k] == w[s.i + k]); assert(isd(w[s.i + k], r)); }
    nm_bound(q, p, p + n, r);
  }
}
pub proof fn lem_blk(n: int, d: int, p: int) requires d >= 1, n > p, (n - p) % d == 0 ensures p + d <= n, (n - (p + d)) % d == 0 {
  let x = n - p; let k = x / d; assert(x == d * k) by(nonlinear_arith) requires k == x / d, x % d == 0, d >= 1; assert(k >= 1) by(nonlinear_arith) requires x == d * k, x > 0, d >= 1;
  let y = k - 1; assert(x - d == d * y && d <= x) by(nonlinear_arith) requires x == d * k, y == k - 1, k >= 1, d >= 1; assert(d * y == y * d) by(nonlinear_arith); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(y, d); assert(n - (p + d) == d * y); 
}
pub proof fn lem_blk0(n: int, d: int) requires d >= 1, n >= 1 ensures n % d == 0 ==> d <= n, n % d != 0 ==> (n - n % d) % d == 0 && n % d <= n, n % d < d, n % d >= 0, n % d == 0 ==> (n - d) % d == 0 {
  let k = n / d; let r = n % d; assert(n == d * k + r && 0 <= r < d) by(nonlinear_arith) requires k == n / d, r == n % d, d >= 1;
  assert(d * k == k * d) by(nonlinear_arith); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k, d); assert(n - r == d * k); assert(k >= 0) by(nonlinear_arith) requires n == d * k + r, r < d, n >= 1, d >= 1; assert(d * k >= 0) by(nonlinear_arith) requires d >= 1, k >= 0;
  if r == 0 { lem_blk(n, d, 0); }
}
pub proof fn nm_lead(q: Seq<u8>, z: int, e: int, r: int) requires 0 <= z < e <= q.len(), alld(q, z, e, r), q[z] != 48, r >= 2 ensures nm(q, z, e, r) > 0 {
  nm_split(q, z, z + 1, e, r); nm_bound(q, z + 1, e, r); nm_step(q, z, z + 1, r); assert(isd(q[z], r)); let d = dval(q[z]); assert(d > 0); assert(nm(q, z, z, r) == 0); assert(0 * r == 0); rp_pos(r, e - z - 1); let w = rpow(r, e - z - 1);
  assert(d * w > 0) by(nonlinear_arith) requires d > 0, w >= 1;
}
// the digits before z are zeros
pub proof fn nval_z(q: Seq<u8>, p0: int, z: int, r: int) requires 0 <= p0 <= z <= q.len(), p0 == sgl(q), forall |k: int| p0 <= k < z ==> #[trigger] q[k] == 48, 2 <= r <= 36, q.len() > p0
  ensures nvalid(q, r) == alld(q, z, q.len() as int, r), nval(q, r) == (if q[0] == 45 { -nm(q, z, q.len() as int, r) } else { nm(q, z, q.len() as int, r) }) {
  let n = q.len() as int; nm_split(q, p0, z, n, r); nm_zeros(q, p0, z, r); let w = rpow(r, n - z); assert(0 * w == 0);
  assert forall |k: int| p0 <= k < z implies isd(#[trigger] q[k], r) by { assert(q[k] == 48); }
  if alld(q, z, n, r) { assert forall |k: int| p0 <= k < n implies isd(#[trigger] q[k], r) by { } }
}
pub open spec fn nb(h0: HS, h1: HS) -> HS { HS { bl: h0.bl, st: h0.st, ..h1 } }
pub open spec fn parsed(h0: HS, h1: HS, q: Seq<u8>, r: int, ok: BoolP, v0: int, v1: int) -> bool {
  &&& h1.st == 0 ==> nvalid(q, r) && v1 == nval(q, r) && h1.bl == blset(h0, ok, true)
  &&& h1.st != 0 ==> (!nvalid(q, r) || q.len() > 800_000_000) && v1 == v0 && h1.bl == blset(h0, ok, false)
}
pub proof fn nb_chg(h0: HS, h1: HS, W: Set<SRef>) requires chg(h0, HS { bl: h0.bl, ..h1 }, W) ensures chg(h0, nb(h0, h1), W) {
  let x = HS { bl: h0.bl, ..h1 }; let y = nb(h0, h1); assert forall |s2: SRef| y.sl.dom().contains(s2) implies wfs(y, s2) by { assert(wfs(x, s2)); }
  assert forall |s2: SRef| !W.contains(s2) && live(h0, s2) implies #[trigger] m(y, s2) == m(h0, s2) by { assert(m(x, s2) == m(h0, s2)); }
}
pub proof fn cr_chg(h0: HS, g: HS, h2: HS, b: BId) requires crB(h0, g, b), newb(h0, b), chg(g, h2, one(SRef::Mag(b))), h2.st == g.st ensures crB(h0, h2, b) {
  let W = one(SRef::Mag(b));
  assert forall |s2: SRef| s2 != SRef::Mag(b) && live(h0, s2) implies h2.sl[s2] == h0.sl[s2] && m(h2, s2) == m(h0, s2) by { assert(!W.contains(s2)); assert(live(g, s2)); assert(m(g, s2) == m(h0, s2)); assert(g.sl[s2] == h0.sl[s2]); assert(m(h2, s2) == m(g, s2)); }
  assert forall |b2: BId| b2 != b && h0.bg.dom().contains(b2) implies h2.bg[b2] == h0.bg[b2] by { assert(!W.contains(SRef::Mag(b2))); assert(g.bg[b2] == h0.bg[b2]); }
  assert forall |c: int| h0.cells.dom().contains(c) implies #[trigger] h2.cells.dom().contains(c) by { assert(g.cells.dom().contains(c)); }
}
pub proof fn nb_wf(h0: HS, h1: HS) ensures iwf(h1) == iwf(nb(h0, h1)), wf(h1) == wf(nb(h0, h1)), forall |b: BId| #![trigger binv(h1, b)] #![trigger v(h1, b)] binv(h1, b) == binv(nb(h0, h1), b) && v(h1, b) == v(nb(h0, h1), b), forall |w: WId| #![trigger iok(h1, w)] #![trigger iv(h1, w)] iok(h1, w) == iok(nb(h0, h1), w) && iv(h1, w) == iv(nb(h0, h1), w) {
  let x = nb(h0, h1);
  assert forall |s2: SRef| wfs(h1, s2) == wfs(x, s2) by { }
  if wf(h1) { assert forall |s2: SRef| x.sl.dom().contains(s2) implies wfs(x, s2) by { assert(wfs(h1, s2)); } }
  if wf(x) { assert forall |s2: SRef| h1.sl.dom().contains(s2) implies wfs(h1, s2) by { assert(wfs(x, s2)); } }
  if iwf(h1) { assert forall |w: WId| #[trigger] x.wp.dom().contains(w) && x.wp[w] != 0 implies liveb(x, x.wp[w]) by { assert(h1.wp.dom().contains(w)); assert(liveb(h1, h1.wp[w])); }
    assert forall |w1: WId, w2: WId| #![trigger x.wp.dom().contains(w1), x.wp.dom().contains(w2)] w1 != w2 && x.wp.dom().contains(w1) && x.wp.dom().contains(w2) && x.wp[w1] != 0 implies x.wp[w1] != x.wp[w2] by { assert(h1.wp.dom().contains(w1) && h1.wp.dom().contains(w2)); } }
  if iwf(x) { assert forall |w: WId| #[trigger] h1.wp.dom().contains(w) && h1.wp[w] != 0 implies liveb(h1, h1.wp[w]) by { assert(x.wp.dom().contains(w)); assert(liveb(x, x.wp[w])); }
    assert forall |w1: WId, w2: WId| #![trigger h1.wp.dom().contains(w1), h1.wp.dom().contains(w2)] w1 != w2 && h1.wp.dom().contains(w1) && h1.wp.dom().contains(w2) && h1.wp[w1] != 0 implies h1.wp[w1] != h1.wp[w2] by { assert(x.wp.dom().contains(w1) && x.wp.dom().contains(w2)); } }
}
// ---------------------------------------------------------------- printing
pub open spec fn sby0(by: Map<int, Seq<u8>>, h: HS) -> HS { HS { by: by, ..h } }
pub proof fn y_wf(by: Map<int, Seq<u8>>, h: HS) ensures wf(h) == wf(sby0(by, h)), iwf(h) == iwf(sby0(by, h)), forall |b: BId| #![trigger binv(h, b)] #![trigger v(h, b)] #![trigger v(sby0(by, h), b)] #![trigger binv(sby0(by, h), b)] #![trigger liveb(sby0(by, h), b)] binv(h, b) == binv(sby0(by, h), b) && v(h, b) == v(sby0(by, h), b) && liveb(h, b) == liveb(sby0(by, h), b) {
  let x = sby0(by, h);
  assert forall |s2: SRef| wfs(h, s2) == wfs(x, s2) by { }
  if wf(h) { assert forall |s2: SRef| x.sl.dom().contains(s2) implies wfs(x, s2) by { assert(wfs(h, s2)); } }
  if wf(x) { assert forall |s2: SRef| h.sl.dom().contains(s2) implies wfs(h, s2) by { assert(wfs(x, s2)); } }
  if iwf(h) { assert forall |w: WId| #[trigger] x.wp.dom().contains(w) && x.wp[w] != 0 implies liveb(x, x.wp[w]) by { assert(h.wp.dom().contains(w)); assert(liveb(h, h.wp[w])); }
    assert forall |w1: WId, w2: WId| #![trigger x.wp.dom().contains(w1), x.wp.dom().contains(w2)] w1 != w2 && x.wp.dom().contains(w1) && x.wp.dom().contains(w2) && x.wp[w1] != 0 implies x.wp[w1] != x.wp[w2] by { assert(h.wp.dom().contains(w1) && h.wp.dom().contains(w2)); } }
  if iwf(x) { assert forall |w: WId| #[trigger] h.wp.dom().contains(w) && h.wp[w] != 0 implies liveb(h, h.wp[w]) by { assert(x.wp.dom().contains(w)); assert(liveb(x, x.wp[w])); }
    assert forall |w1: WId, w2: WId| #![trigger h.wp.dom().contains(w1), h.wp.dom().contains(w2)] w1 != w2 && h.wp.dom().contains(w1) && h.wp.dom().contains(w2) && h.wp[w1] != 0 implies h.wp[w1] != h.wp[w2] by { assert(x.wp.dom().contains(w1) && x.wp.dom().contains(w2)); } }
}
pub proof fn y_chg(by: Map<int, Seq<u8>>, g: HS, h: HS, D: Set<SRef>) requires chg(g, h, D) ensures chg(sby0(by, g), sby0(by, h), D), g.by == h.by {
  let x = sby0(by, g); let y = sby0(by, h); y_wf(by, h);
  assert forall |s2: SRef| !D.contains(s2) && live(x, s2) implies #[trigger] m(y, s2) == m(x, s2) by { assert(m(h, s2) == m(g, s2)); }
}
pub proof fn y_cr(by: Map<int, Seq<u8>>, g: HS, h: HS, d: BId) requires crB(g, h, d) ensures crB(sby0(by, g), sby0(by, h), d), g.by == h.by, newb(g, d) == newb(sby0(by, g), d) {
  let x = sby0(by, g); let y = sby0(by, h); y_wf(by, h);
  assert forall |s2: SRef| s2 != SRef::Mag(d) && live(x, s2) implies #[trigger] m(y, s2) == m(x, s2) by { assert(m(h, s2) == m(g, s2)); }
}
// destroy d
pub proof fn y_kill(by: Map<int, Seq<u8>>, h0: HS, g: HS, h: HS, W: Set<SRef>, n: Set<SRef>, d: BId) requires nuX(h0, sby0(by, g), W, n), n.contains(SRef::Mag(d)), !W.contains(SRef::Mag(d)), h == (HS { sl: g.sl.remove(SRef::Mag(d)), bg: g.bg.remove(d), ..g })
  ensures nuX(h0, sby0(by, h), W, n.remove(SRef::Mag(d))), g.by == h.by {
  let x = sby0(by, g); let y = sby0(by, h); assert(y == (HS { sl: x.sl.remove(SRef::Mag(d)), bg: x.bg.remove(d), ..x })); assert forall |s2: SRef| s2 != SRef::Mag(d) implies #[trigger] m(y, s2) == m(x, s2) by { } x_kill(h0, x, y, W, n, d);
}
pub proof fn y_same(by: Map<int, Seq<u8>>, g: HS, h: HS) requires h == (HS { by: h.by, ..g }) ensures sby0(by, h) == sby0(by, g) { }
pub open spec fn nulls(n: int) -> Seq<u8> { Seq::new((if n < 0 { 0 } else { n }) as nat, |i: int| 48u8) }
pub open spec fn padz(s: Seq<u8>, d: int) -> Seq<u8> { nulls(d - s.len()) + s }
// the last d digits of y
pub open spec fn pd(y: int, r: int, d: int) -> Seq<u8> decreases d { if d <= 0 { Seq::empty() } else { pd(y / r, r, d - 1).push(dch(y % r)) } }
pub proof fn pd_zero(r: int, d: int) requires r >= 2, d >= 0 ensures pd(0, r, d) =~= nulls(d) decreases d { if d > 0 { pd_zero(r, d - 1); assert(0int / r == 0 && 0int % r == 0) by(nonlinear_arith) requires r >= 2; } }
pub proof fn digs_step(x: int, r: int) requires x > 0, r >= 2 ensures digs(x, r) == digs(x / r, r).push(dch(x % r)), 0 <= x / r < x, 0 <= x % r < r, x == r * (x / r) + x % r { assert(0 <= x / r < x) by(nonlinear_arith) requires x > 0, r >= 2; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, r); vstd::arithmetic::div_mod::lemma_mod_bound(x, r); }
pub proof fn pd_digs(y: int, r: int, d: int) requires 0 <= y < rpow(r, d), r >= 2, d >= 0 ensures pd(y, r, d) =~= padz(digs(y, r), d), digs(y, r).len() <= d decreases d {
  if y == 0 { pd_zero(r, d); assert(digs(0, r).len() == 0); }
  else if d == 0 { rp_0(r); }
  else { digs_step(y, r); rp_step(r, d); let p = rpow(r, d - 1); let q = y / r; let t = y % r; assert(q < p) by(nonlinear_arith) requires r * q + t < r * p, t >= 0, r >= 2, y == r * q + t; pd_digs(q, r, d - 1); assert(pd(y, r, d) =~= nulls(d - digs(y, r).len()) + digs(y, r)); }
}
pub proof fn pd_unum(y: int, r: int, d: int) requires 0 <= y < rpow(r, d), r >= 2, d >= 1 ensures pd(y, r, d) =~= padz(unum(y, r), d), 1 <= unum(y, r).len() <= d { pd_digs(y, r, d); if y == 0 { assert(digs(0, r).len() == 0); assert(nulls(d) =~= nulls(d - 1) + seq![48u8]); } else { digs_step(y, r); } }
pub proof fn digs_cat(q: int, y: int, r: int, d: int) requires q > 0, 0 <= y < rpow(r, d), r >= 2, d >= 0 ensures digs(q * rpow(r, d) + y, r) =~= digs(q, r) + pd(y, r, d), q * rpow(r, d) + y > 0 decreases d {
  let p = rpow(r, d); rp_pos(r, d); let x = q * p + y; assert(q * p > 0) by(nonlinear_arith) requires q > 0, p >= 1;
  if d == 0 { rp_0(r); assert(q * 1 == q); }
  else {
    rp_step(r, d); let p1 = rpow(r, d - 1); let a = y / r; let t = y % r; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, r); vstd::arithmetic::div_mod::lemma_mod_bound(y, r);
    assert(0 <= a < p1) by(nonlinear_arith) requires r * a + t < r * p1, t >= 0, r >= 2, t < r, r * a + t >= 0;
    let z = q * p1 + a; assert(x == z * r + t) by(nonlinear_arith) requires x == q * (r * p1) + y, y == r * a + t, z == q * p1 + a;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, r, z, t);
    digs_step(x, r); digs_cat(q, a, r, d - 1);
  }
}
pub open spec fn catp(s: Seq<Sb>, k: int, d: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { padz(s[k - 1].d@, d) + catp(s, k - 1, d) } }
pub proof fn catp_ext(s: Seq<Sb>, t: Seq<Sb>, k: int, d: int) requires forall |j: int| 0 <= j < k ==> #[trigger] s[j].d == t[j].d ensures catp(s, k, d) == catp(t, k, d) decreases k { if k > 0 { catp_ext(s, t, k - 1, d); assert(s[k - 1].d == t[k - 1].d); } }
// blocks s[0..k] printed so far, the rest of the number is t
pub open spec fn tsinv(a: int, t: int, s: Seq<Sb>, r: int) -> bool {
  &&& t >= 0 && (s.len() == 0 ==> t == a && a > 0) && forall |j: int| 0 <= j < s.len() ==> 1 <= #[trigger] s[j].d@.len() <= D64(r)
  &&& t > 0 ==> digs(a, r) == digs(t, r) + catp(s, s.len() as int, D64(r))
  &&& t == 0 ==> s.len() > 0 && digs(a, r) == s[s.len() - 1].d@ + catp(s, s.len() - 1, D64(r))
}
pub proof fn ts_start(a: int, r: int) requires a > 0 ensures tsinv(a, a, Seq::<Sb>::empty(), r) { assert(digs(a, r) + Seq::<u8>::empty() =~= digs(a, r)); }
pub proof fn ts_step(a: int, t: int, s: Seq<Sb>, q: int, y: int, e: Sb, r: int) requires tsinv(a, t, s, r), t > 0, 2 <= r <= 36, q == tdiv(t, K64(r)), y == trem(t, K64(r)), e.d@ == unum(y, r) ensures tsinv(a, q, s.push(e), r), 0 <= q < t, 0 <= y < K64(r) {
  lem_d64(r); let k = K64(r); let d = D64(r); let u = s.push(e); let n = s.len() as int;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, k); vstd::arithmetic::div_mod::lemma_mod_bound(t, k); assert(q == t / k); assert(q * k == k * q) by(nonlinear_arith); assert(y == t - q * k); assert(y == t % k);
  assert(0 <= q < t) by(nonlinear_arith) requires t == k * q + y, 0 <= y < k, k > 1, t > 0;
  pd_unum(y, r, d);
  assert forall |j: int| 0 <= j < u.len() implies 1 <= #[trigger] u[j].d@.len() <= d by { if j < n { assert(u[j] == s[j]); } }
  catp_ext(u, s, n, d);
  if q > 0 { digs_cat(q, y, r, d); assert(u[n] == e); assert(digs(a, r) =~= digs(q, r) + catp(u, n + 1, d)); }
  else { assert(k * 0 == 0); assert(t == y); assert(u[n] == e); assert(digs(a, r) == e.d@ + catp(u, n, d)); }
}
// every numeral is a valid number in its radix, means the number, and has no superfluous digit
pub proof fn digs_ok(x: int, r: int) requires x > 0, 2 <= r <= 36 ensures digs(x, r).len() > 0, digs(x, r)[0] != 48, alld(digs(x, r), 0, digs(x, r).len() as int, r), nm(digs(x, r), 0, digs(x, r).len() as int, r) == x, forall |k: int| 0 <= k < digs(x, r).len() ==> !(65 <= #[trigger] digs(x, r)[k] <= 90) decreases x {
  digs_step(x, r); let q = x / r; let t = x % r; let s = digs(x, r); let n = s.len() as int; let w = digs(q, r);
  assert(s[n - 1] == dch(t)); assert(dval(dch(t)) == t);
  assert forall |k: int| 0 <= k < n - 1 implies s[k] == w[k] by { }
  nm_step(s, 0, n, r); nm_sub(s, w, 0, 0, n - 1, r);
  if q > 0 { digs_ok(q, r); } else { assert(w.len() == 0); assert(r * 0 == 0); }
  assert forall |k: int| 0 <= k < n implies isd(#[trigger] s[k], r) && !(65 <= s[k] <= 90) by { if k < n - 1 { assert(s[k] == w[k]); assert(isd(w[k], r)); } }
  assert(q * r == r * q) by(nonlinear_arith);
}
pub proof fn round_trip(x: int, r: int) requires 2 <= r <= 36 ensures nvalid(numeral(x, r), r), nval(numeral(x, r), r) == x {
  let s = numeral(x, r); let n = s.len() as int;
  if x == 0 { assert(s =~= seq![48u8]); assert(dval(s[0]) == 0); nm_step(s, 0, 1, r); assert(nm(s, 0, 0, r) == 0); assert(0 * r == 0); }
  else if x > 0 { digs_ok(x, r); assert(isd(s[0], r)); }
  else { let w = digs(-x, r); digs_ok(-x, r); assert(s[0] == 45); assert forall |k: int| 1 <= k < n implies isd(#[trigger] s[k], r) by { assert(s[k] == w[k - 1]); assert(isd(w[k - 1], r)); }
    assert forall |k: int| 0 <= k < n - 1 implies #[trigger] w[k] == s[1 + k] by { } nm_sub(w, s, 1, 0, n - 1, r); }
}
