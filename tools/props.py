"""Per property: the functions whose contracts decide it, which failed obligations are this property's, and the concrete search."""
VAL = ('value', 'canon', 'dec')
# own: clause tags that speak about this property when they fail (None: untagged clause); kinds: other obligation kinds it owns
PROPS = {
 'P01': dict(roots=['detail_(addMag|subMag|cmpMag)_.*', 'Big_(add|sub)Assign_.*', 'Int_op_(addeq|subeq)_.*', 'bigNumber_op_(add|sub)_.*'], own=('value',)),
 'P02': dict(roots=['detail_(gradeSchoolMul|gradSchoolMulInplace)_.*', 'Big_mulAssign_.*', 'Big_mul_.*', 'Big_mulKaratsuba_.*', 'Int_op_muleq_.*', 'bigNumber_op_mul_.*'], own=('value',)),
 'P03': dict(roots=['Big_div.*', 'Big_modAssignAndQuotient_.*', 'Big_knuthDivImpl_.*', 'Int_op_(diveq|modeq)_.*', 'bigNumber_op_(div|mod)_.*'], own=('value',)),
 'P04': dict(roots=['Slice_.*', 'detail_.*', 'Big_.*', 'Int_.*', 'bigNumber_op_.*', 'algo_.*', 'pgbn_(BigInteger_.*|String_(Create|Length|Destroy)_.*)'], own=('canon',)),
 'P05': dict(roots=['detail_cmpMag_.*', 'Big_cmp_.*', 'Int_cmp_.*', 'bigNumber_op_(eq|ne|lt|le|gt|ge)_.*'], own=('value',)),
 'P06': dict(roots=['detail_notPlusOne_.*', 'Big_(and|or|xor)Assign_.*', 'Big_(notSelf|getU32|getFirstNonZeroU32Index|toU64|getMagU32Count|getMagBitCount).*', 'Int_op_(andeq|oreq|xoreq|not|bnot)_?.*', 'Int_notSelf.*', 'Int_get2sComplement.*', 'bigNumber_op_(and|or|xor)_.*'], own=('value',)),
 'P07': dict(roots=['detail_(shlMag|shrMag)_.*', 'Big_shift(Left|Right)Assign_.*', 'Int_op_(shl|shr)eq_.*', 'bigNumber_op_(shl|shr)_.*'], own=('value',)),
 'P08': dict(roots=['Slice_.*', 'detail_.*', 'Big_.*', 'Int_.*', 'bigNumber_op_.*', 'algo_.*', 'pgbn_(BigInteger_.*|String_(Create|Length|Destroy)_.*)'], own=('frame',)),
 'P09': dict(roots=['Big_fromString.*', 'Big_ctor_str.*', 'Int_(ctor|assign)_str.*', 'detail_get(DigitCountPerU32|U32BlockRadix|BitCountByDigitCount).*'], own=('value',)),
 'P10': dict(roots=['Big_toString.*', 'Int_(toString|as_sb).*', 'detail_get(DigitCountPerU64|U64BlockRadix|ZerosStr).*'], own=('value',)),
 'P11': dict(roots=['Big_assign_pv_.*', 'Big_ctor_pv_.*', 'Big_copyMagDataTo_.*', 'Int_fromBinary_pv_.*', 'Int_ctor_u64_pv_.*', 'Int_copyMagDataTo_.*'], own=('value',)),
 'P12': dict(roots=['Big_ctor_i64', 'Big_assign_i64', 'Big_toU64', 'Int_ctor_i64', 'Int_op_assign_i64', 'Int_assign_i64', 'Int_(get(U?)Int64|tryGet|as_).*', 'detail_getU64Max'], own=('value',)),
 'P13': dict(roots=['detail_(inc|dec)_.*', 'Big_(inc|dec|negate|abs|notBits|isZero|is.*)', 'Int_(isZero.*|is.*|op_.*(inc|dec).*|op_neg.*|op_pos.*|op_sub$|op_add$|inc|dec|negate.*|abs.*|notBits)'], own=('value',)),
 'P14': dict(roots=['Frac_(ctor|setNum|setDen|getNum|getDen|reciprocal|fix).*', 'experimental_op_.*'], own=('value', 'canon')),
 'P15': dict(roots=['Frac_toDecimal.*'], own=('value',)),
 'P16': dict(roots=['algo_gcd.*'], own=('value',)),
 'P17': dict(unit='expr', roots=['.*'], own=('value',)),
 'P18': dict(unit='expr', roots=['.*'], own=('err',), kinds=()),
 'P21': dict(roots=['pgbn_(BigInteger_.*|String_(Create|Length|Destroy)_.*)'], own=('value', 'frame', 'canon')),
 'P22': dict(unit='stat', roots=['.*'], own=('value',), kinds=('pre',)),
 'P23': dict(roots=['Slice_.*', 'detail_.*', 'Big_.*', 'Int_.*', 'bigNumber_op_.*', 'algo_.*', 'pgbn_(BigInteger_.*|String_(Create|Length|Destroy)_.*)'], own=('safe',), kinds=('pre', 'arith', 'assertdbg')),
 'P24': dict(roots=['Slice_.*', 'detail_.*', 'Big_.*', 'Int_.*', 'bigNumber_op_.*', 'algo_.*', 'pgbn_(BigInteger_.*|String_(Create|Length|Destroy)_.*)'], own=('dec',), kinds=('dec',)),
}
NA = {
 'P19': 'Concurrent evaluation: thread schedules are not expressible in sequential function contracts over this translation (std::future, std::thread, condition variables).',
 'P20': 'The thread pool is lock/condition-variable code whose property quantifies over schedules; sequential contracts cannot express it and no concurrent-logic verifier for C++ is installed.',
}
