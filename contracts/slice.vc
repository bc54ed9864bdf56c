// Slice<uint32_t>: a range of a (possibly shared) limb vector
@fn Slice_ctor(s)
requires wf(h0), !live(h0, s)
ensures
[frame] crS(h0, h1, s), wf(h1)
[frame] excl(h1, s)
[value] cnt(h1, s) == 0
@fn Slice_ctor_S(s, o)
requires wf(h0), !live(h0, s), live(h0, o)
ensures
[frame] wf(h1), h1 =~~= (HS { sl: h0.sl.insert(s, h0.sl[o]), ..h0 }), m(h1, s) == m(h0, o)
[frame] forall |s2: SRef| s2 != s ==> #[trigger] m(h1, s2) == m(h0, s2)
@fn Slice_ctor_mS(s, o)
requires wf(h0), !live(h0, s), live(h0, o)
ensures
[frame] wf(h1), h1.sl.dom() =~= h0.sl.dom().insert(s), oth2(h0, h1, s, o)
[value] h1.sl[s] == h0.sl[o], m(h1, s) =~= m(h0, o), cnt(h1, o) == 0
[frame] !h0.cells.dom().contains(cell(h1, o)), excl(h1, o)
@fn Slice_op_assign_S(s, o)
requires wf(h0), live(h0, s), live(h0, o)
ensures
[value] RET == s, wf(h1), h1 =~~= (HS { sl: h0.sl.insert(s, h0.sl[o]), ..h0 }), m(h1, s) == m(h0, o)
[frame] forall |s2: SRef| s2 != s ==> #[trigger] m(h1, s2) == m(h0, s2)
@fn Slice_op_assign_mS(s, o)
requires wf(h0), live(h0, s), live(h0, o), s != o
ensures
[frame] wf(h1), h1.sl.dom() =~= h0.sl.dom(), oth2(h0, h1, s, o)
[value] RET == s, h1.sl[s] == h0.sl[o], m(h1, s) =~= m(h0, o), cnt(h1, o) == 0
[frame] !h0.cells.dom().contains(cell(h1, o)), excl(h1, o)
@fn Slice_swap_rS(s, o)
requires wf(h0), live(h0, s), live(h0, o)
ensures
[value] wf(h1), h1 =~~= (HS { sl: h0.sl.insert(s, h0.sl[o]).insert(o, h0.sl[s]), ..h0 }), m(h1, s) == m(h0, o), m(h1, o) == m(h0, s)
[frame] forall |s2: SRef| s2 != s && s2 != o ==> #[trigger] m(h1, s2) == m(h0, s2)
@fn Slice_cloneData(s)
requires wf(h0), live(h0, s)
ensures
[value] RET == s, m(h1, s) =~= m(h0, s)
[frame] wf(h1), frX(h0, h1, s), excl(h1, s)
@fn Slice_append_u32(s, data)
requires wf(h0), live(h0, s)
ensures
[value] RET == s, m(h1, s) =~= m(h0, s).push(data), cell(h1, s) == cell(h0, s)
[frame] wf(h1), frS(h0, h1, s)
@fn Slice_slice_u64_u64(s, lo, hi)
requires wf(h0), live(h0, s), lo <= hi, hi <= 0x4000_0000_0000_0000, hi > cnt(h0, s) ==> excl(h0, s)
ensures
[value] cnt(h1, s) == hi - lo, RET == s, m(h1, s) =~= ext0(m(h0, s), hi as int).subrange(lo as int, hi as int), cell(h1, s) == cell(h0, s)
[frame] wf(h1), frS(h0, h1, s), hi <= cnt(h0, s) || lo == hi ==> h1.cells =~= h0.cells
@fn Slice_preExtend_u64_u32(s, n, value)
requires wf(h0), live(h0, s), n <= 0x4000_0000_0000_0000
ensures
[value] RET == s, m(h1, s) =~= Seq::new(n as nat, |i: int| value) + m(h0, s), cell(h1, s) == cell(h0, s)
[frame] wf(h1), frS(h0, h1, s)
@fn Slice_sliced_u64_u64(r, s, lo, hi)
requires wf(h0), live(h0, s), !live(h0, r), lo <= hi <= cnt(h0, s)
ensures
[value] m(h1, r) =~= m(h0, s).subrange(lo as int, hi as int)
[frame] wf(h1), crS(h0, h1, r), cell(h1, r) == cell(h0, s), h1.cells =~= h0.cells
@fn Slice_weakEquals_S(s, o) @pure
requires wf(h0), live(h0, s), live(h0, o)
ensures
[value] RET == (h0.sl[s] == h0.sl[o])
@fn Slice_op_index_u64(s, i) @pure
requires wf(h0), live(h0, s), i < cnt(h0, s)
ensures
[value] RET.c@ == cell(h0, s), RET.i == h0.sl[s].lo + i
@fn Slice_op_index_u64_c(s, i) @pure
requires wf(h0), live(h0, s), i < cnt(h0, s)
ensures
[value] RET.c@ == cell(h0, s), RET.i == h0.sl[s].lo + i
@fn Slice_begin(s) @pure
requires wf(h0), live(h0, s)
ensures
[value] RET.c@ == cell(h0, s), RET.i == h0.sl[s].lo
@fn Slice_end(s) @pure
requires wf(h0), live(h0, s)
ensures
[value] RET.c@ == cell(h0, s), RET.i == h0.sl[s].hi
@fn Slice_begin_c(s) @pure
requires wf(h0), live(h0, s)
ensures
[value] RET.c@ == cell(h0, s), RET.i == h0.sl[s].lo
@fn Slice_end_c(s) @pure
requires wf(h0), live(h0, s)
ensures
[value] RET.c@ == cell(h0, s), RET.i == h0.sl[s].hi
@fn Slice_count(s) @pure
requires wf(h0), live(h0, s)
ensures
[value] RET == cnt(h0, s), RET == m(h0, s).len(), RET <= MAXN()
