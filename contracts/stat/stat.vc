// P22: the registry as a user sees it is cur(h): the library's own codes first, then every registration in order.

@fn Status_registeImpl_u32_str_other(no, info, callback)
ensures
  [value] h1 == (Z { mp: Ghost(h0.mp@.insert(no, (info.v@, callback.v@))), ..h0 })

@fn Status_registeErrInfos()
ensures
  [value] h1 == (Z { mp: Ghost(wd(h0.mp@, tab_n())), ..h0 })
  [value] covers(h1.mp@)
@loop 0
invariant
  0 <= i <= tab_n()
  [value] h1 == (Z { mp: Ghost(wd(h0.mp@, i as int)), ..h0 })
exit i == tab_n() && *h == (Z { mp: Ghost(wd(h0.mp@, i as int)), ..h0 })
decreases tab_n() - i
@hint return
  table_covers(h0.mp@);

@fn Status_getInstance()
requires
  zinv(h0)
ensures
  zinv(h1)
  [value] quiet(h0, h1) && h1.log@ == h0.log@ && h1.ce@ == h0.ce@
  [value] h1.pf@.contains(KI())
  [value] RET == tls_obj(SK_Status_getInstance_obj_0(), h0.tid@)
  h1.er@.dom().contains(RET)

@fn Status_find_u32_pptr(no, t)
requires
  zinv(h0)
  t != 0 ==> h0.ce@.dom().contains(t)
ensures
  zinv(h1)
  [value] h1.pf@.contains(KI())
  [value] RET == cur(h0).dom().contains(no)
  [value] t != 0 ==> h1.ce@ == h0.ce@.insert(t, if RET { no as int } else { -1 })
  [value] t == 0 ==> h1.ce@ == h0.ce@
  [value] quiet(h0, h1) && h1.log@ == h0.log@

@fn Status_callback_u32(no)
requires
  zinv(h0)
  cur(h0).dom().contains(no)
ensures
  zinv(h1)
  [value] cur(h1) == cur(h0)
  [value] h1.log@ == ran(h0.log@, cur(h0)[no].1)
  [value] quiet(h0, h1) && h1.ce@ == h0.ce@

@fn Status_ctor_u32(this, no)
requires
  zinv(h0)
  h0.er@.dom().contains(this)
  cur(h0).dom().contains(no)
ensures
  zinv(h1)
  [value] h1.er@.dom().contains(this) && h1.er@[this] == no
  [value] h1.log@ == ran(h0.log@, cur(h0)[no].1)
  [value] cur(h1) == cur(h0) && h1.hd@ == h0.hd@ && h1.tid@ == h0.tid@ && er_kept(h0.er@.insert(this, no), h1.er@)
@hint return
  assert(h0.er@.insert(this, no).dom().contains(this)); assert(h.er@.dom().contains(this));

@fn Status_op_assign_u32(this, no)
requires
  zinv(h0)
  h0.er@.dom().contains(this)
  cur(h0).dom().contains(no)
ensures
  zinv(h1)
  [value] h1.er@.dom().contains(this) && h1.er@[this] == no
  [value] h1.log@ == ran(h0.log@, cur(h0)[no].1)
  [value] cur(h1) == cur(h0) && h1.hd@ == h0.hd@ && h1.tid@ == h0.tid@ && er_kept(h0.er@.insert(this, no), h1.er@)
@hint return
  assert(h0.er@.insert(this, no).dom().contains(this)); assert(h.er@.dom().contains(this));

@fn Status_getCallback_u32(no)
requires
  zinv(h0)
ensures
  zinv(h1)
  [value] RET.v@ == (if cur(h0).dom().contains(no) { cur(h0)[no].1 } else { CbS::Null })
  [value] quiet(h0, h1) && h1.log@ == h0.log@

@fn Status_getInfo_u32(no)
requires
  zinv(h0)
ensures
  zinv(h1)
  [value] RET.v@ =~= (if cur(h0).dom().contains(no) { cur(h0)[no].0 } else { placeholder() })
  [value] is_err(no) ==> cur(h0).dom().contains(no)
  [value] quiet(h0, h1) && h1.log@ == h0.log@

@fn Status_getCallback(this)
requires
  zinv(h0)
  h0.er@.dom().contains(this)
ensures
  zinv(h1)
  [value] RET.v@ == (if cur(h0).dom().contains(h0.er@[this]) { cur(h0)[h0.er@[this]].1 } else { CbS::Null })
  [value] quiet(h0, h1) && h1.log@ == h0.log@

@fn Status_getInfo(this)
requires
  zinv(h0)
  h0.er@.dom().contains(this)
ensures
  zinv(h1)
  [value] RET.v@ =~= (if cur(h0).dom().contains(h0.er@[this]) { cur(h0)[h0.er@[this]].0 } else { placeholder() })
  [value] quiet(h0, h1) && h1.log@ == h0.log@

@fn Status_registe_u32_str(no, info)
requires
  zinv(h0)
ensures
  zinv(h1)
  [value] cur(h1) == cur(h0).insert(no, (info.v@, CbS::Null))
  [value] h1.hd@ == h0.hd@ && h1.tid@ == h0.tid@ && h0.pf@.subset_of(h1.pf@) && er_kept(h0.er@, h1.er@) && h1.log@ == h0.log@

@fn Status_registe_u32_str_other_rptr(no, info, callback, args)
requires
  zinv(h0)
ensures
  zinv(h1)
  [value] cur(h1) == cur(h0).insert(no, (info.v@, CbS::Arg { f: callback, arg: args }))
  [value] h1.hd@ == h0.hd@ && h1.tid@ == h0.tid@ && h0.pf@.subset_of(h1.pf@) && er_kept(h0.er@, h1.er@) && h1.log@ == h0.log@

@fn pgbn_Status_GetGlobalInstance()
requires
  zinv(h0)
ensures
  zinv(h1)
  [value] h1.hd@.dom().contains(RET) && h1.hd@[RET] == tls_obj(SK_Status_getInstance_obj_0(), h0.tid@)
  [value] RET == tls_obj(SK_pgbn_Status_GetGlobalInstance_obj_0(), h0.tid@)
  [value] forall |x: u64| x != RET && #[trigger] h0.hd@.dom().contains(x) ==> h1.hd@.dom().contains(x) && h1.hd@[x] == h0.hd@[x]
  h1.er@.dom().contains(h1.hd@[RET])
  [value] cur(h1) == cur(h0) && h1.log@ == h0.log@

@fn pgbn_Status_Register_u32_pi8(no, info)
requires
  zinv(h0)
ensures
  zinv(h1)
  [value] cur(h1) == cur(h0).insert(no, (info.v@, CbS::Null))
  [value] h1.hd@ == h0.hd@ && h1.tid@ == h0.tid@ && h0.pf@.subset_of(h1.pf@) && er_kept(h0.er@, h1.er@) && h1.log@ == h0.log@

@fn pgbn_Status_RegisterWithCallback_u32_pi8_other_pv(no, info, callback, arg)
requires
  zinv(h0)
ensures
  zinv(h1)
  [value] cur(h1) == cur(h0).insert(no, (info.v@, CbS::Arg { f: callback, arg: arg }))
  [value] h1.hd@ == h0.hd@ && h1.tid@ == h0.tid@ && h0.pf@.subset_of(h1.pf@) && er_kept(h0.er@, h1.er@) && h1.log@ == h0.log@

@fn pgbn_Status_CreateWithErrno_u32(no)
requires
  zinv(h0)
  cur(h0).dom().contains(no)
ensures
  zinv(h1)
  [value] !h0.hd@.dom().contains(RET) && h1.hd@.dom().contains(RET) && h1.er@.dom().contains(h1.hd@[RET]) && h1.er@[h1.hd@[RET]] == no
  [value] !h0.er@.dom().contains(h1.hd@[RET])
  [value] cur(h1) == cur(h0)
  [value] h1.log@ == ran(h0.log@, cur(h0)[no].1)
  [value] er_kept(h0.er@, h1.er@)

@fn pgbn_Status_Create()
requires
  zinv(h0)
ensures
  zinv(h1)
  [value] !h0.hd@.dom().contains(RET) && h1.hd@.dom().contains(RET) && h1.er@.dom().contains(h1.hd@[RET]) && h1.er@[h1.hd@[RET]] == 0
  [value] cur(h1) == cur(h0)
@hint entry
  table_covers(h0.mp@); assert(is_err(0));

@fn pgbn_Status_Destroy_pother(status)
requires
  zinv(h0)
  h0.hd@.dom().contains(status)
  !is_static_obj(status)
  h0.er@.dom().contains(h0.hd@[status])
  !is_static_obj(h0.hd@[status])
ensures
  zinv(h1)
  [value] cur(h1) == cur(h0)
  [value] h1.hd@ == h0.hd@.remove(status) && h1.er@ == h0.er@.remove(h0.hd@[status])

@fn pgbn_Status_SetErrno_pother_u32(status, no)
requires
  zinv(h0)
  h0.hd@.dom().contains(status)
  h0.er@.dom().contains(h0.hd@[status])
  cur(h0).dom().contains(no)
ensures
  zinv(h1)
  [value] h1.er@.dom().contains(h0.hd@[status]) && h1.er@[h0.hd@[status]] == no
  [value] h1.log@ == ran(h0.log@, cur(h0)[no].1)
  [value] cur(h1) == cur(h0) && h1.hd@ == h0.hd@ && h1.tid@ == h0.tid@ && er_kept(h0.er@.insert(h0.hd@[status], no), h1.er@)

@fn pgbn_Status_GetInfo_pother(status)
requires
  zinv(h0)
  h0.hd@.dom().contains(status)
  h0.er@.dom().contains(h0.hd@[status])
ensures
  zinv(h1)
  [value] RET.v@ =~= (if cur(h0).dom().contains(h0.er@[h0.hd@[status]]) { cur(h0)[h0.er@[h0.hd@[status]]].0 } else { placeholder() })
  [value] quiet(h0, h1) && h1.log@ == h0.log@

@fn pgbn_Status_GetInfoByErrno_u32(no)
requires
  zinv(h0)
ensures
  zinv(h1)
  [value] RET.v@ =~= (if cur(h0).dom().contains(no) { cur(h0)[no].0 } else { placeholder() })
  [value] quiet(h0, h1) && h1.log@ == h0.log@
