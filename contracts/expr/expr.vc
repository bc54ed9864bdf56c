@fn ExprParser_parseExpr()
requires
  pinv(h0)
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] h0.m_errCode == 0 ==> okres(h0, h1, pE(h0.m_tokens@, h0.m_currTokenIndex as int), RET)
decreases h0.m_tokens@.len() - h0.m_currTokenIndex, 20int

@fn ExprParser_parseConditional()
requires
  pinv(h0)
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] h0.m_errCode == 0 ==> okres(h0, h1, pE(h0.m_tokens@, h0.m_currTokenIndex as int), RET)
decreases h0.m_tokens@.len() - h0.m_currTokenIndex, 19int

@fn ExprParser_parseBitOr()
requires
  pinv(h0)
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] h0.m_errCode == 0 ==> okres(h0, h1, pB(h0.m_tokens@, h0.m_currTokenIndex as int, 0), RET)
decreases h0.m_tokens@.len() - h0.m_currTokenIndex, 18int
@loop 0
  invariant pinv(*h)
  invariant pext(h0, *h)
  invariant h0.m_errCode == 0 ==> loopok(h0, *h, 0, node)
  decreases h.m_tokens@.len() - h.m_currTokenIndex

@fn ExprParser_parseBitXor()
requires
  pinv(h0)
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] h0.m_errCode == 0 ==> okres(h0, h1, pB(h0.m_tokens@, h0.m_currTokenIndex as int, 1), RET)
decreases h0.m_tokens@.len() - h0.m_currTokenIndex, 17int
@loop 0
  invariant pinv(*h)
  invariant pext(h0, *h)
  invariant h0.m_errCode == 0 ==> loopok(h0, *h, 1, node)
  decreases h.m_tokens@.len() - h.m_currTokenIndex

@fn ExprParser_parseBitAnd()
requires
  pinv(h0)
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] h0.m_errCode == 0 ==> okres(h0, h1, pB(h0.m_tokens@, h0.m_currTokenIndex as int, 2), RET)
decreases h0.m_tokens@.len() - h0.m_currTokenIndex, 16int
@loop 0
  invariant pinv(*h)
  invariant pext(h0, *h)
  invariant h0.m_errCode == 0 ==> loopok(h0, *h, 2, node)
  decreases h.m_tokens@.len() - h.m_currTokenIndex

@fn ExprParser_parseEqu()
requires
  pinv(h0)
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] h0.m_errCode == 0 ==> okres(h0, h1, pB(h0.m_tokens@, h0.m_currTokenIndex as int, 3), RET)
decreases h0.m_tokens@.len() - h0.m_currTokenIndex, 15int
@loop 0
  invariant pinv(*h)
  invariant pext(h0, *h)
  invariant h0.m_errCode == 0 ==> loopok(h0, *h, 3, node)
  decreases h.m_tokens@.len() - h.m_currTokenIndex

@fn ExprParser_parseCmp()
requires
  pinv(h0)
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] h0.m_errCode == 0 ==> okres(h0, h1, pB(h0.m_tokens@, h0.m_currTokenIndex as int, 4), RET)
decreases h0.m_tokens@.len() - h0.m_currTokenIndex, 14int
@loop 0
  invariant pinv(*h)
  invariant pext(h0, *h)
  invariant h0.m_errCode == 0 ==> loopok(h0, *h, 4, node)
  decreases h.m_tokens@.len() - h.m_currTokenIndex

@fn ExprParser_parseShift()
requires
  pinv(h0)
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] h0.m_errCode == 0 ==> okres(h0, h1, pB(h0.m_tokens@, h0.m_currTokenIndex as int, 5), RET)
decreases h0.m_tokens@.len() - h0.m_currTokenIndex, 13int
@loop 0
  invariant pinv(*h)
  invariant pext(h0, *h)
  invariant h0.m_errCode == 0 ==> loopok(h0, *h, 5, node)
  decreases h.m_tokens@.len() - h.m_currTokenIndex

@fn ExprParser_parseAddSub()
requires
  pinv(h0)
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] h0.m_errCode == 0 ==> okres(h0, h1, pB(h0.m_tokens@, h0.m_currTokenIndex as int, 6), RET)
decreases h0.m_tokens@.len() - h0.m_currTokenIndex, 12int
@loop 0
  invariant pinv(*h)
  invariant pext(h0, *h)
  invariant h0.m_errCode == 0 ==> loopok(h0, *h, 6, node)
  decreases h.m_tokens@.len() - h.m_currTokenIndex

@fn ExprParser_parseMulDivMod()
requires
  pinv(h0)
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] h0.m_errCode == 0 ==> okres(h0, h1, pB(h0.m_tokens@, h0.m_currTokenIndex as int, 7), RET)
decreases h0.m_tokens@.len() - h0.m_currTokenIndex, 11int
@loop 0
  invariant pinv(*h)
  invariant pext(h0, *h)
  invariant h0.m_errCode == 0 ==> loopok(h0, *h, 7, node)
  decreases h.m_tokens@.len() - h.m_currTokenIndex

@fn ExprParser_parsePow()
requires
  pinv(h0)
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] h0.m_errCode == 0 ==> okres(h0, h1, pB(h0.m_tokens@, h0.m_currTokenIndex as int, 8), RET)
decreases h0.m_tokens@.len() - h0.m_currTokenIndex, 10int
@loop 0
  invariant pinv(*h)
  invariant pext(h0, *h)
  invariant h0.m_errCode == 0 ==> loopok(h0, *h, 8, node)
  decreases h.m_tokens@.len() - h.m_currTokenIndex

@fn ExprParser_parseUnaryOp()
requires
  pinv(h0)
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] h0.m_errCode == 0 ==> okres(h0, h1, pB(h0.m_tokens@, h0.m_currTokenIndex as int, 9), RET)
decreases h0.m_tokens@.len() - h0.m_currTokenIndex, 9int
@hint entry
pb9(h0.m_tokens@);

@fn ExprParser_parsePostfixOp()
requires
  pinv(h0)
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] h0.m_errCode == 0 ==> okres(h0, h1, pPF(h0.m_tokens@, h0.m_currTokenIndex as int), RET)
decreases h0.m_tokens@.len() - h0.m_currTokenIndex, 8int
@loop 0
  invariant pinv(*h)
  invariant pext(h0, *h)
  invariant h0.m_errCode == 0 ==> loopf(h0, *h, node)
  decreases h.m_tokens@.len() - h.m_currTokenIndex

@fn ExprParser_parsePrim()
requires
  pinv(h0)
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] h0.m_errCode == 0 ==> okres(h0, h1, pP(h0.m_tokens@, h0.m_currTokenIndex as int), RET)
decreases h0.m_tokens@.len() - h0.m_currTokenIndex, 7int

@fn ExprParser_parseFuncCall_pother(symbol)
requires
  pinv(h0)
  sy_isf(symbol)
  h0.m_count + 1 <= h0.m_currTokenIndex
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] h0.m_errCode == 0 ==> (match pA(h0.m_tokens@, h0.m_currTokenIndex as int, Seq::empty()) { None => h1.m_errCode != 0, Some((a, j)) => h1.m_errCode == 0 && h1.m_currTokenIndex == j && h0.m_currTokenIndex < j && 1 <= RET <= h1.m_count && nv(h1.nodes@, RET as int) == Some(scall(symbol, a)) })
decreases h0.m_tokens@.len() - h0.m_currTokenIndex, 21int
@loop 0
  invariant pinv(*h)
  invariant pext(h0, *h)
  invariant h.m_count + 1 <= h.m_currTokenIndex
  invariant h0.m_errCode == 0 ==> argsok(h0, *h, argNodes)
  exit pinv(*h) && pext(h0, *h) && h.m_count + 1 <= h.m_currTokenIndex && h.m_count - h0.m_count + 1 <= h.m_currTokenIndex - h0.m_currTokenIndex && (h0.m_errCode == 0 ==> h.m_errCode == 0 && chks(*h, argNodes.s@) && pA(h0.m_tokens@, h0.m_currTokenIndex as int, Seq::empty()) == Some((nms(*h, argNodes.s@), h.m_currTokenIndex as int)))
  decreases h.m_tokens@.len() - h.m_currTokenIndex
@hint loop 0 before
assert(nms(*h, argNodes.s@) =~= Seq::empty());
@ghost loop 0 body
let ghost c0 = argNodes.s@;
@hint loop 0 end
if h0.m_errCode == 0 {
let c1 = argNodes.s@;
assert(c1 == c0.push(c1.last()));
assert forall |k: int| 0 <= k < c1.len() implies chk(*h, #[trigger] c1[k]) by { if k < c0.len() { assert(chk(hB0, c0[k])); } }
assert forall |k: int| 0 <= k < c0.len() implies nm(*h, c1[k]) == nm(hB0, c0[k]) by { assert(chk(hB0, c0[k])); }
assert(nms(*h, c1) =~= nms(hB0, c0).push(nm(*h, c1.last())));
assert(nms(hB0, c0).len() == c0.len());
}
@hint exit 0
if h0.m_errCode == 0 {
let c1 = argNodes.s@;
assert forall |k: int| 0 <= k < c1.len() implies chk(*h, #[trigger] c1[k]) by { assert(chk(hB0, c1[k])); }
assert(nms(*h, c1) =~= nms(hB0, c1));
}

@fn ExprParser_consumeToken_other(type_)
requires
  pinv(h0)
  type_ != TK_INVALID()
ensures
  [value] RET == (h0.m_tokens@[h0.m_currTokenIndex as int].type_ == type_)
  [value] h1 == (X { m_currTokenIndex: (h0.m_currTokenIndex + (if RET { 1int } else { 0 })) as u64, ..h0 })
  [value] pinv(h1)

@fn ExprParser_badToken_other_str(type_)
ensures
  [value] h1 == (X { m_errCode: BADT(), st: BADT(), ..h0 })

@fn ExprParser_hasNextToken()
requires
  pinv(h0)
ensures
  [value] RET == (h0.m_currTokenIndex + 1 < h0.m_tokens@.len())

@fn ExprParser_parse()
requires
  pinv(h0)
  h0.m_errCode == 0
ensures
  [value] pinv(h1)
  [value] pext(h0, h1)
  [value] wfexpr(h0.m_tokens@, h0.m_currTokenIndex as int) ==> RET != 0 && h1.st == h0.st && nv(h1.nodes@, RET as int) == Some(semexpr(h0.m_tokens@, h0.m_currTokenIndex as int))
  [err] !wfexpr(h0.m_tokens@, h0.m_currTokenIndex as int) ==> RET == 0 && h1.st == BADT()

@fn NodePool_newNode()
requires
  pool_ok(h0)
  h0.m_count < 0xffff_fff0
ensures
  [value] newnode(h0, h1, RET)
@hint return
same_i(h0, *h);

@fn NodePool_newIfElseNode_pother_pother_pother(cond, then, els)
requires
  pool_ok(h0)
  h0.m_count < 0xffff_fff0
ensures
  [value] newnode(h0, h1, RET)
  [value] chk(h0, cond) && chk(h0, then) && chk(h0, els) ==> nv(h1.nodes@, RET as int) == Some(sif(nm(h0, cond), nm(h0, then), nm(h0, els)))
@hint return
same_i(h0, *h);
if chk(h0, cond) && chk(h0, then) && chk(h0, els) { assert(nv(h.nodes@, cond as int) == nv(h0.nodes@, cond as int)); assert(nvk(h.nodes@, $r as int, 0) == nv(h.nodes@, cond as int)); assert(nv(h.nodes@, then as int) == nv(h0.nodes@, then as int)); assert(nvk(h.nodes@, $r as int, 1) == nv(h.nodes@, then as int)); assert(nv(h.nodes@, els as int) == nv(h0.nodes@, els as int)); assert(nvk(h.nodes@, $r as int, 2) == nv(h.nodes@, els as int)); }

@fn NodePool_newBinOpNode_other_pother_pother(op, lNode, rNode)
requires
  pool_ok(h0)
  h0.m_count < 0xffff_fff0
ensures
  [value] newnode(h0, h1, RET)
  [value] isbin(op) && chk(h0, lNode) && chk(h0, rNode) ==> nv(h1.nodes@, RET as int) == Some(sbin(op, nm(h0, lNode), nm(h0, rNode)))
@hint return
same_i(h0, *h);
if chk(h0, lNode) && chk(h0, rNode) { assert(nv(h.nodes@, lNode as int) == nv(h0.nodes@, lNode as int)); assert(nvk(h.nodes@, $r as int, 0) == nv(h.nodes@, lNode as int)); assert(nv(h.nodes@, rNode as int) == nv(h0.nodes@, rNode as int)); assert(nvk(h.nodes@, $r as int, 1) == nv(h.nodes@, rNode as int)); }

@fn NodePool_newUnaryOpNode_other_pother(op, child)
requires
  pool_ok(h0)
  h0.m_count < 0xffff_fff0
ensures
  [value] newnode(h0, h1, RET)
  [value] isun(op) && chk(h0, child) ==> nv(h1.nodes@, RET as int) == Some(sun(op, nm(h0, child)))
@hint return
same_i(h0, *h);
if chk(h0, child) { assert(nv(h.nodes@, child as int) == nv(h0.nodes@, child as int)); assert(nvk(h.nodes@, $r as int, 0) == nv(h.nodes@, child as int)); }

@fn NodePool_newLiteralNode_vB(val)
requires
  pool_ok(h0)
  h0.m_count < 0xffff_fff0
ensures
  [value] newnode(h0, h1, RET)
  [value] nv(h1.nodes@, RET as int) == Some(Sem { v: val.g@, d: true, f: true })
@hint return
same_i(h0, *h);

@fn NodePool_newBuiltinValNode_pother(symbol)
requires
  pool_ok(h0)
  h0.m_count < 0xffff_fff0
ensures
  [value] newnode(h0, h1, RET)
  [value] sy_isv(symbol) ==> nv(h1.nodes@, RET as int) == Some(Sem { v: sy_val(symbol), d: true, f: true })
@hint return
same_i(h0, *h);

@fn NodePool_newFunctionCallNode_pother_other(symbol, argNodes)
requires
  pool_ok(h0)
  h0.m_count < 0xffff_fff0
ensures
  [value] newnode(h0, h1, RET)
  [value] sy_isf(symbol) && chks(h0, argNodes.s@) ==> nv(h1.nodes@, RET as int) == Some(scall(symbol, nms(h0, argNodes.s@)))
@hint return
same_i(h0, *h);
if chks(h0, argNodes.s@) {
let c = argNodes.s@; let u = nms(h0, c);
assert(h.nodes@[$r - 1].ch == c);
assert forall |k: int| 0 <= k < c.len() implies (#[trigger] nvk(h.nodes@, $r as int, k)) == Some(u[k]) by { assert(chk(h0, c[k])); assert(nv(h.nodes@, c[k] as int) == nv(h0.nodes@, c[k] as int)); assert(nvk(h.nodes@, $r as int, k) == nv(h.nodes@, c[k] as int)); }
nva_mk(h.nodes@, $r as int, c.len() as int, u); assert(u.take(c.len() as int) =~= u);
assert forall |k: int| 0 <= k < c.len() implies 1 <= (#[trigger] h.nodes@[$r - 1].ch[k]) < $r by { assert(chk(h0, c[k])); }
}

@fn NodePool_count()
ensures
  [value] RET == h0.m_count

@fn detail_eval_pother_bool(node, peval)
requires
  evpre(h0, node, peval)
ensures
  [value] evpost(h0, h1, node, RET)
decreases node, 3int

@fn detail_binOpEvalCallback_pother_bool(node, peval)
requires
  evpre(h0, node, peval)
  h0.nodes@[node - 1].cb == scb_detail_binOpEvalCallback_pother_bool()
ensures
  [value] evpost(h0, h1, node, RET)
decreases node, 1int
@loop 0
  invariant evs(h0, *h)
  invariant nv(h0.nodes@, node as int).unwrap().f && nv(h0.nodes@, node as int).unwrap().d ==> h.st == h0.st
  invariant rv0 >= 0 ==> right.g@ >= 0 && res.g@ * ipow(left.g@, right.g@) == ipow(left.g@, rv0)
  decreases right.g@
@ghost loop 0 before
let ghost rv0 = right.g@;
@hint loop 0 body
assert(ipow(left.g@, right.g@) == left.g@ * ipow(left.g@, right.g@ - 1));
assert(res.g@ * (left.g@ * ipow(left.g@, right.g@ - 1)) == (res.g@ * left.g@) * ipow(left.g@, right.g@ - 1)) by(nonlinear_arith);

@fn detail_unaryOpEvalCallback_pother_bool(node, peval)
requires
  evpre(h0, node, peval)
  h0.nodes@[node - 1].cb == scb_detail_unaryOpEvalCallback_pother_bool()
ensures
  [value] evpost(h0, h1, node, RET)
decreases node, 1int
@loop 0
  invariant evs(h0, *h)
  invariant nv(h0.nodes@, node as int).unwrap().f && nv(h0.nodes@, node as int).unwrap().d ==> h.st == h0.st
  invariant val_.g@ >= 1
  invariant res.g@ * fact(val_.g@) == fact(vv0)
  decreases val_.g@
@ghost loop 0 before
let ghost vv0 = val_.g@;
@hint loop 0 body
assert(res.g@ * (val_.g@ * fact(val_.g@ - 1)) == (res.g@ * val_.g@) * fact(val_.g@ - 1)) by(nonlinear_arith);

@fn detail_valEvalCallback_pother_bool(node, peval)
requires
  evpre(h0, node, peval)
  h0.nodes@[node - 1].cb == scb_detail_valEvalCallback_pother_bool()
ensures
  [value] evpost(h0, h1, node, RET)
decreases node, 1int

@fn detail_ifElseNodeEvalCallback_pother_bool(node, peval)
requires
  evpre(h0, node, peval)
  h0.nodes@[node - 1].cb == scb_detail_ifElseNodeEvalCallback_pother_bool()
ensures
  [value] evpost(h0, h1, node, RET)
decreases node, 1int

@fn detail_builtinFuncEvalCallback_pother_bool(node, peval)
requires
  evpre(h0, node, peval)
  h0.nodes@[node - 1].cb == scb_detail_builtinFuncEvalCallback_pother_bool()
ensures
  [value] evpost(h0, h1, node, RET)
decreases node, 1int
@loop 0
  invariant evs(h0, *h)
  invariant ri0_ <= h0.nodes@[node - 1].ch.len()
  invariant args.s@.len() == ri0_
  invariant nv(h0.nodes@, node as int).unwrap().d ==> forall |k: int| 0 <= k < ri0_ ==> args.s@[k] == (#[trigger] U0[k]).v
  decreases h0.nodes@[node - 1].ch.len() - ri0_
@ghost entry
let ghost U0 = nva(h0.nodes@, node as int, h0.nodes@[node - 1].ch.len() as int).unwrap();
@hint entry
nva_len(h0.nodes@, node as int, h0.nodes@[node - 1].ch.len() as int);
@hint loop 0 body
nva_at(h0.nodes@, node as int, h0.nodes@[node - 1].ch.len() as int, ri0_ as int);
@hint exit 0
if nv(h0.nodes@, node as int).unwrap().d { assert(args.s@ =~= vals_of(U0)); }

@fn StringReadStream_eof()
requires
  strm_ok(h0)
ensures
  [value] RET == (h0.m_current == h0.m_end)
  [value] h1 == h0

@fn StringReadStream_peek()
requires
  strm_ok(h0)
ensures
  [value] RET == pk(h0.src@, h0.m_current - 1)
  [value] h1 == h0

@fn StringReadStream_get()
requires
  strm_ok(h0)
ensures
  [value] RET == pk(h0.src@, h0.m_current - 1)
  [value] h1 == (X { m_current: (if h0.m_current < h0.m_end { h0.m_current + 1 } else { h0.m_current as int }) as u64, ..h0 })
  [value] strm_ok(h1)

@fn utils_skipWhiteChar_other()
requires
  strm_ok(h0)
ensures
  [value] h1 == (X { m_current: (wrun(h0.src@, h0.m_current - 1) + 1) as u64, ..h0 })
  [safe] strm_ok(h1)
@hint entry
runs(h0.src@, h0.m_current - 1);
@loop 0
invariant *h == (X { m_current: h.m_current, ..h0 })
invariant strm_ok(*h)
invariant ch == pk(h0.src@, h.m_current - 1)
invariant wrun(h0.src@, h0.m_current - 1) == wrun(h0.src@, h.m_current - 1)
decreases h.m_end - h.m_current

@fn infixExpr_tokenizer_other_other() @hide(lext,lexlit,lit_fin,lexk,num_ok,num_val,lexed,toks_ok,tk_ok,arun,irun,wrun)
requires
  strm_ok(h0)
  h0.m_current == 1
ensures
  [value] lexed(h0, h1, RET@)
  [value] keepnt(h0, h1)
@hint entry
reveal(tk_ok);
@loop 0 iso
  invariant h0 == *old(h)
  invariant *h == (X { m_current: h.m_current, ..h0 })
  invariant strm_ok(*h)
  invariant lexk(h0.src@, 0, Seq::empty()) == lexk(h0.src@, h.m_current - 1, res@)
  invariant res@.len() <= h.m_current - 1
  invariant tk_ok(res@)
  exit lexk(h0.src@, 0, Seq::empty()) == Some(res@)
  decreases h.m_end - h.m_current
@ghost loop 0 body
let ghost S = h0.src@; let ghost R0 = res@; let ghost C0 = h.m_current - 1; let ghost I = wrun(S, C0);
@hint loop 0 body
runs(S, C0); lex_step(S, C0, R0); runs(S, S.len() as int); lex_step(S, S.len() as int, R0);
@hint loop 0 end
let e = res@; let t = e[e.len() - 1];
assert(lext(S, I) == Some((t, h.m_current - 1))) by { reveal(lext); }
assert(e =~= R0.push(t)); assert(tk_ok(e)) by { reveal(tk_ok); } lext_end(S, I);
@hint exit 0
runs(h0.src@, h.m_current - 1); lex_step(h0.src@, h.m_current - 1, res@);
@loop 1 iso
  invariant S == h0.src@
  invariant *h == (X { m_current: h.m_current, ..h0 })
  invariant strm_ok(*h)
  invariant 1 <= hL1.m_current <= h.m_current
  invariant ch == c_low(pk(S, h.m_current - 1))
  invariant arun(S, hL1.m_current - 1) == arun(S, h.m_current - 1)
  invariant literalBeforeDot.s@ == B1 + lowsub(S, hL1.m_current - 1, h.m_current - 1)
  exit arun(S, hL1.m_current - 1) == h.m_current - 1
  decreases h.m_end - h.m_current
@hint loop 1 body
reveal(arun);
@hint exit 1
reveal(arun);
@ghost loop 1 before
let ghost B1 = literalBeforeDot.s@;
@hint loop 1 end
assert(literalBeforeDot.s@ =~= B1 + lowsub(S, hL1.m_current - 1, h.m_current - 1));
@hint loop 1 before
let b = B1; if b.len() == 1 { assert(b =~= seq![pk(S, I + 1)]); } else if b.len() == 2 { assert(b =~= seq![pk(S, I + 1), pk(S, I + 2)]); } else { assert(b =~= Seq::empty()); }
assert(lexlit(S, I) == lit_fin(S, radix as int, B1, h.m_current - 1)) by { reveal(lexlit); }
assert(literalBeforeDot.s@ =~= B1 + lowsub(S, h.m_current - 1, h.m_current - 1));
@hint loop 1 after
assert(lexlit(S, I) == (if pk(S, h.m_current - 1) == 46 { None } else { Some(Lit { r: radix as int, b: literalBeforeDot.s@, e: h.m_current - 1 }) })) by { reveal(lit_fin); }
@loop 2 iso
  invariant S == h0.src@
  invariant *h == (X { m_current: h.m_current, ..h0 })
  invariant strm_ok(*h)
  invariant 1 <= hL2.m_current <= h.m_current
  invariant ch == c_low(pk(S, h.m_current - 1))
  invariant arun(S, hL2.m_current - 1) == arun(S, h.m_current - 1)
  invariant literalBeforeDot.s@ == B2 + lowsub(S, hL2.m_current - 1, h.m_current - 1)
  exit arun(S, hL2.m_current - 1) == h.m_current - 1
  decreases h.m_end - h.m_current
@hint loop 2 body
reveal(arun);
@hint exit 2
reveal(arun);
@ghost loop 2 before
let ghost B2 = literalBeforeDot.s@;
@hint loop 2 end
assert(literalBeforeDot.s@ =~= B2 + lowsub(S, hL2.m_current - 1, h.m_current - 1));
@hint loop 2 before
assert(literalBeforeDot.s@ =~= B2 + lowsub(S, h.m_current - 1, h.m_current - 1)); assert(B2 =~= seq![pk(S, I)]);
@hint loop 2 after
assert(lexlit(S, I) == Some(Lit { r: 10, b: literalBeforeDot.s@, e: if pk(S, h.m_current - 1) == 46 { arun(S, h.m_current as int) } else { h.m_current - 1 } })) by { reveal(lexlit); }
@loop 3 iso
  invariant S == h0.src@
  invariant *h == (X { m_current: h.m_current, ..h0 })
  invariant strm_ok(*h)
  invariant 1 <= hL3.m_current <= h.m_current
  invariant ch == c_low(pk(S, h.m_current - 1))
  invariant arun(S, hL3.m_current - 1) == arun(S, h.m_current - 1)
  exit arun(S, hL3.m_current - 1) == h.m_current - 1
  decreases h.m_end - h.m_current
@hint loop 3 body
reveal(arun);
@hint exit 3
reveal(arun);
@hint after stg_0 0
assert(lexlit(S, I) == Some(Lit { r: 10, b: seq![48i8], e: h.m_current - 1 })) by { reveal(lexlit); }
@hint before val_fromstr 0
assert(lexlit(S, I) == Some(Lit { r: radix as int, b: literalBeforeDot.s@, e: h.m_current - 1 }));
assert(lexlit(S, I) == Some(Lit { r: radix as int, b: literalBeforeDot.s@, e: h.m_current - 1 }));
@loop 4 iso
  invariant S == h0.src@
  invariant *h == (X { m_current: h.m_current, ..h0 })
  invariant strm_ok(*h)
  invariant 0 <= I < hL4.m_current <= h.m_current
  invariant ch == pk(S, h.m_current - 1)
  invariant irun(S, I + 1) == irun(S, h.m_current - 1)
  invariant symbolName.s@ == S.subrange(I, h.m_current - 1)
  exit irun(S, I + 1) == h.m_current - 1
  decreases h.m_end - h.m_current
@hint loop 4 before
assert(symbolName.s@ =~= S.subrange(I, h.m_current - 1));
@hint loop 4 body
reveal(irun);
@hint exit 4
reveal(irun);
@hint loop 4 end
assert(symbolName.s@ =~= S.subrange(I, h.m_current - 1));
@hint return 0
assert(lext(S, I) is None) by { reveal(lext); reveal(lexlit); } assert(lexed(h0, *h, $r@)) by { reveal(lexed); reveal(toks_ok); reveal(tk_ok); }
@hint return 1
assert(lext(S, I) is None) by { reveal(lext); reveal(lexlit); } assert(lexed(h0, *h, $r@)) by { reveal(lexed); reveal(toks_ok); reveal(tk_ok); }
@hint return 2
assert(lext(S, I) is None) by { reveal(lext); reveal(lexlit); } assert(lexed(h0, *h, $r@)) by { reveal(lexed); reveal(toks_ok); reveal(tk_ok); }
@hint return 3
assert(lext(S, I) is None) by { reveal(lext); reveal(lexlit); } assert(lexed(h0, *h, $r@)) by { reveal(lexed); reveal(toks_ok); reveal(tk_ok); }
@hint return 4
assert(lext(S, I) is None) by { reveal(lext); reveal(lexlit); } assert(lexed(h0, *h, $r@)) by { reveal(lexed); reveal(toks_ok); reveal(tk_ok); }
@hint return 5
assert(lext(S, I) is None) by { reveal(lext); reveal(lexlit); } assert(lexed(h0, *h, $r@)) by { reveal(lexed); reveal(toks_ok); reveal(tk_ok); }
@hint return 6
assert(lext(S, I) is None) by { reveal(lext); reveal(lexlit); } assert(lexed(h0, *h, $r@)) by { reveal(lexed); reveal(toks_ok); reveal(tk_ok); }
@hint return 7
let e = $r@; assert(e =~= lexk(h0.src@, 0, Seq::empty()).unwrap().push(inv()));
assert(lexed(h0, *h, $r@)) by { reveal(lexed); reveal(toks_ok); reveal(tk_ok); }

@fn ExprParser_ctor_other_other_pother(pNodePool)
requires
  strm_ok(h0)
  h0.m_current == 1
ensures
  [value] lexed(h0, h1, h1.m_tokens@)
  [value] keepnt(h0, h1)
  [value] h1.m_currTokenIndex == 0 && h1.m_errCode == 0

@fn pg_parseString_str_pother(str, nodePool)
requires
  pool_ok(h0)
  h0.m_count == 0
  str.s@.len() <= 800_000_000
ensures
  [value] pool_ok(h1) && h1.us == h0.us
  [value,err] parsed(str.s@, h0, h1, RET)
  [err] parsed_st(str.s@, h0, h1)
@ghost before ExprParser_ctor_other_other_pother 0
let ghost gb = *h;
@ghost after ExprParser_ctor_other_other_pother 0
let ghost gc = *h;
@hint after ExprParser_ctor_other_other_pother 0
assert(str.s@.take(str.s@.len() as int) =~= str.s@);
wf_lexed(gb, gc, gc.m_tokens@);
@hint return
assert(str.s@.take(str.s@.len() as int) =~= str.s@);

@fn expr_eval_str_pother(expr, status)
requires
  expr.s@.len() <= 800_000_000
ensures
  [value] (sem(expr.s@) matches Some(m) ==> (m.d ==> RET.g@ == m.v))
  [err,value] (sem(expr.s@) matches Some(m) ==> (m.d && m.f ==> h1.st == h0.st && h1.us == h0.us))
  [err] sem(expr.s@) is None ==> RET.g@ == 0
  [err] sem(expr.s@) is None ==> (if status == 0 || status == 1 { h1.st == BADT() && h1.us == h0.us } else { h1.us == BADT() })
