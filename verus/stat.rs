// Status registry: messages and callbacks by code, the Status objects' codes, static locals, handles of the C binding.
pub enum CbS { Null, Row { f: int, code: u32, info: Seq<u8> }, Arg { f: u64, arg: u64 } }
pub struct Stg { pub v: Ghost<Seq<u8>> }
pub struct Cb { pub v: Ghost<CbS> }
pub struct RowFn { pub f: Ghost<int> }
#[derive(Clone, Copy)] pub struct Ep { pub c: Ghost<int> }   // pointer to a registry entry: its code, -1 null
#[derive(Clone, Copy)] pub struct It { pub c: Ghost<int> }   // iterator: the code it stands at, -1 end
pub type Reg = Map<u32, (Seq<u8>, CbS)>;
pub struct Z {
  pub mp: Ghost<Reg>,                  // Status::s_mp
  pub log: Ghost<Seq<CbS>>,            // callbacks run, oldest first
  pub er: Ghost<Map<u64, u32>>,        // code held by each Status object
  pub ce: Ghost<Map<u64, int>>,        // variables that hold an entry pointer and have their address taken
  pub hd: Ghost<Map<u64, u64>>,        // handles: the Status object behind each
  pub pf: Ghost<Set<int>>,             // static locals initialised in this process
  pub tf: Ghost<Set<(int, int)>>,      // thread_local static locals initialised, by thread
  pub tid: Ghost<int>,                 // the running thread
}
pub uninterp spec fn tls_obj(k: int, t: int) -> u64;         // address of a thread_local static object
pub uninterp spec fn stc_obj(k: int) -> u64;                 // address of a static object
pub open spec fn is_static_obj(x: u64) -> bool { (exists |k: int, t: int| x == #[trigger] tls_obj(k, t)) || (exists |k: int| x == #[trigger] stc_obj(k)) }
pub open spec fn row_cb(i: int) -> CbS { CbS::Row { f: tab_fn(i), code: tab_code(i), info: tab_info(i) } }
/// the first n rows of the table registered on top of m
pub open spec fn wd(m: Reg, n: int) -> Reg decreases n { if n <= 0 { m } else { wd(m, n - 1).insert(tab_code(n - 1), (tab_info(n - 1), row_cb(n - 1))) } }
pub open spec fn KI() -> int { SK_Status_getInstance_flag_0() }
/// the registry as the user sees it: the library's own codes come first
pub open spec fn cur(h: Z) -> Reg { if h.pf@.contains(KI()) { h.mp@ } else { wd(h.mp@, tab_n()) } }
/// every library code has a message
pub open spec fn covers(m: Reg) -> bool { forall |c: u32| #[trigger] is_err(c) ==> m.dom().contains(c) && m[c].0.len() > 0 }
/// what holds between any two operations, in any thread
pub open spec fn zinv(h: Z) -> bool { h.pf@.contains(KI()) ==> (forall |c: u32| #[trigger] is_err(c) ==> h.mp@.dom().contains(c)) }
pub open spec fn placeholder() -> Seq<u8> { seq![60u8, 69, 82, 82, 79, 82, 95, 73, 78, 70, 79, 62] }
/// nothing but the initialisation of static locals and thread objects
pub open spec fn quiet(a: Z, b: Z) -> bool { b.hd@ == a.hd@ && b.tid@ == a.tid@ && cur(b) == cur(a) && a.pf@.subset_of(b.pf@) && er_kept(a.er@, b.er@) }
pub open spec fn er_kept(a: Map<u64, u32>, b: Map<u64, u32>) -> bool { forall |x: u64| #![trigger a.dom().contains(x)] #![trigger b.dom().contains(x)] a.dom().contains(x) ==> b.dom().contains(x) && b[x] == a[x] }
pub open spec fn ran(l0: Seq<CbS>, c: CbS) -> Seq<CbS> { if c is Null { l0 } else { l0.push(c) } }

/// the table has a row, with a message, for every code of namespace ErrCode
pub proof fn table_covers(m: Reg) ensures covers(wd(m, tab_n()))
{
  wd_all(m, tab_n());
  assert forall |c: u32| #[trigger] is_err(c) implies wd(m, tab_n()).dom().contains(c) && wd(m, tab_n())[c].0.len() > 0 by {
    assert(exists |i: int| 0 <= i < tab_n() && tab_code(i) == c) by { code_row(c); }
  }
}
pub proof fn wd_all(m: Reg, n: int)
  requires 0 <= n <= tab_n()
  ensures forall |i: int| 0 <= i < n ==> wd(m, n).dom().contains(#[trigger] tab_code(i)) && wd(m, n)[tab_code(i)].0.len() > 0
  decreases n
{ if n > 0 { wd_all(m, n - 1); } }

// ---- primitives (no body: assumed)
pub fn debug_assert_(c: bool) requires c { }
#[verifier::external_body] pub fn stg_lit(Ghost(s): Ghost<Seq<u8>>) -> (r: Stg) ensures r.v@ == s { unimplemented!() }
#[verifier::external_body] pub fn cb_null() -> (r: Cb) ensures r.v@ == CbS::Null { unimplemented!() }
#[verifier::external_body] pub fn cb_some(c: &Cb) -> (r: bool) ensures r == !(c.v@ is Null) { unimplemented!() }
#[verifier::external_body] pub fn cb_run(h: &mut Z, c: &Cb) requires !(c.v@ is Null)
  ensures *final(h) == (Z { log: Ghost(old(h).log@.push(c.v@)), ..*old(h) }) { unimplemented!() }
#[verifier::external_body] pub fn cb_bind_row(f: RowFn, code: u32, info: Stg) -> (r: Cb) ensures r.v@ == (CbS::Row { f: f.f@, code: code, info: info.v@ }) { unimplemented!() }
#[verifier::external_body] pub fn cb_bind_arg(f: u64, arg: u64) -> (r: Cb) ensures r.v@ == (CbS::Arg { f: f, arg: arg }) { unimplemented!() }
#[verifier::external_body] pub fn row_code(i: u64) -> (r: u32) requires i < tab_n() ensures r == tab_code(i as int) { unimplemented!() }
#[verifier::external_body] pub fn row_info(i: u64) -> (r: Stg) requires i < tab_n() ensures r.v@ == tab_info(i as int) { unimplemented!() }
#[verifier::external_body] pub fn row_callback(i: u64) -> (r: RowFn) requires i < tab_n() ensures r.f@ == tab_fn(i as int) { unimplemented!() }
#[verifier::external_body] pub fn um_find(h: &mut Z, no: u32) -> (r: It) ensures *final(h) == *old(h), r.c@ == (if old(h).mp@.dom().contains(no) { no as int } else { -1 }) { unimplemented!() }
#[verifier::external_body] pub fn um_count(h: &mut Z, no: u32) -> (r: u64) ensures *final(h) == *old(h), r == (if old(h).mp@.dom().contains(no) { 1u64 } else { 0 }) { unimplemented!() }
#[verifier::external_body] pub fn um_at(h: &mut Z, no: u32) -> (r: Ep) requires old(h).mp@.dom().contains(no) ensures *final(h) == *old(h), r.c@ == no { unimplemented!() }
#[verifier::external_body] pub fn um_set(h: &mut Z, no: u32, i: Stg, c: Cb) ensures *final(h) == (Z { mp: Ghost(old(h).mp@.insert(no, (i.v@, c.v@))), ..*old(h) }) { unimplemented!() }
#[verifier::external_body] pub fn it_end() -> (r: It) ensures r.c@ == -1 { unimplemented!() }
#[verifier::external_body] pub fn it_eq(a: It, b: It) -> (r: bool) ensures r == (a.c@ == b.c@) { unimplemented!() }
#[verifier::external_body] pub fn it_second(h: &mut Z, i: It) -> (r: Ep) requires 0 <= i.c@ < 0x1_0000_0000, old(h).mp@.dom().contains(i.c@ as u32) ensures *final(h) == *old(h), r.c@ == i.c@ { unimplemented!() }
#[verifier::external_body] pub fn ep_null() -> (r: Ep) ensures r.c@ == -1 { unimplemented!() }
#[verifier::external_body] pub fn ep_some(p: Ep) -> (r: bool) ensures r == (p.c@ != -1) { unimplemented!() }
#[verifier::external_body] pub fn ep_info(h: &mut Z, p: Ep) -> (r: Stg) requires 0 <= p.c@ < 0x1_0000_0000, old(h).mp@.dom().contains(p.c@ as u32) ensures *final(h) == *old(h), r.v@ == old(h).mp@[p.c@ as u32].0 { unimplemented!() }
#[verifier::external_body] pub fn ep_cb(h: &mut Z, p: Ep) -> (r: Cb) requires 0 <= p.c@ < 0x1_0000_0000, old(h).mp@.dom().contains(p.c@ as u32) ensures *final(h) == *old(h), r.v@ == old(h).mp@[p.c@ as u32].1 { unimplemented!() }
#[verifier::external_body] pub fn cell_new(h: &mut Z) -> (r: u64) ensures r != 0, !old(h).ce@.dom().contains(r), *final(h) == (Z { ce: Ghost(old(h).ce@.insert(r, -1)), ..*old(h) }) { unimplemented!() }
#[verifier::external_body] pub fn cell_get(h: &mut Z, c: u64) -> (r: Ep) requires old(h).ce@.dom().contains(c) ensures *final(h) == *old(h), r.c@ == old(h).ce@[c] { unimplemented!() }
#[verifier::external_body] pub fn cell_set(h: &mut Z, c: u64, p: Ep) requires old(h).ce@.dom().contains(c) ensures *final(h) == (Z { ce: Ghost(old(h).ce@.insert(c, p.c@)), ..*old(h) }) { unimplemented!() }
#[verifier::external_body] pub fn so_errno(h: &mut Z, x: u64) -> (r: u32) requires old(h).er@.dom().contains(x) ensures *final(h) == *old(h), r == old(h).er@[x] { unimplemented!() }
#[verifier::external_body] pub fn so_set(h: &mut Z, x: u64, v: u32) requires old(h).er@.dom().contains(x) ensures *final(h) == (Z { er: Ghost(old(h).er@.insert(x, v)), ..*old(h) }) { unimplemented!() }
#[verifier::external_body] pub fn so_new(h: &mut Z) -> (r: u64) ensures r != 0, !is_static_obj(r), !old(h).er@.dom().contains(r), *final(h) == (Z { er: Ghost(old(h).er@.insert(r, 0xffff_ffff)), ..*old(h) }) { unimplemented!() }
#[verifier::external_body] pub fn so_del(h: &mut Z, x: u64) requires old(h).er@.dom().contains(x), !is_static_obj(x) ensures *final(h) == (Z { er: Ghost(old(h).er@.remove(x)), ..*old(h) }) { unimplemented!() }
#[verifier::external_body] pub fn so_static(h: &mut Z, Ghost(k): Ghost<int>, tls: bool) -> (r: u64)
  ensures r == (if tls { tls_obj(k, old(h).tid@) } else { stc_obj(k) }), *final(h) == (if old(h).er@.dom().contains(r) { *old(h) } else { Z { er: Ghost(old(h).er@.insert(r, 0xffff_ffff)), ..*old(h) } }) { unimplemented!() }
// a static local: initialised when control first reaches it (by this thread, if thread_local), marked afterwards
#[verifier::external_body] pub fn once(h: &mut Z, Ghost(k): Ghost<int>, tls: bool) -> (r: bool)
  ensures r == (if tls { !old(h).tf@.contains((k, old(h).tid@)) } else { !old(h).pf@.contains(k) }), *final(h) == *old(h) { unimplemented!() }
#[verifier::external_body] pub fn once_done(h: &mut Z, Ghost(k): Ghost<int>, tls: bool)
  ensures *final(h) == (if tls { Z { tf: Ghost(old(h).tf@.insert((k, old(h).tid@))), ..*old(h) } } else { Z { pf: Ghost(old(h).pf@.insert(k)), ..*old(h) } }) { unimplemented!() }
#[verifier::external_body] pub fn hd_new(h: &mut Z) -> (r: u64) ensures r != 0, !is_static_obj(r), !old(h).hd@.dom().contains(r), *final(h) == (Z { hd: Ghost(old(h).hd@.insert(r, 0)), ..*old(h) }) { unimplemented!() }
#[verifier::external_body] pub fn hd_static(h: &mut Z, Ghost(k): Ghost<int>, tls: bool) -> (r: u64)
  ensures r == (if tls { tls_obj(k, old(h).tid@) } else { stc_obj(k) }), *final(h) == (if old(h).hd@.dom().contains(r) { *old(h) } else { Z { hd: Ghost(old(h).hd@.insert(r, 0)), ..*old(h) } }) { unimplemented!() }
#[verifier::external_body] pub fn hd_get(h: &mut Z, x: u64) -> (r: u64) requires old(h).hd@.dom().contains(x) ensures *final(h) == *old(h), r == old(h).hd@[x] { unimplemented!() }
#[verifier::external_body] pub fn hd_set(h: &mut Z, x: u64, v: u64) requires old(h).hd@.dom().contains(x) ensures *final(h) == (Z { hd: Ghost(old(h).hd@.insert(x, v)), ..*old(h) }) { unimplemented!() }
#[verifier::external_body] pub fn hd_del(h: &mut Z, x: u64) requires old(h).hd@.dom().contains(x), !is_static_obj(x) ensures *final(h) == (Z { hd: Ghost(old(h).hd@.remove(x)), ..*old(h) }) { unimplemented!() }
