// C01: integer lane arithmetic.
#define OP(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (), FIX, KERNEL, ORACLE)
#define OPS2(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (s.sweep = 2;), FIX, KERNEL, ORACLE)
#define OPS1(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (s.sweep = 1;), FIX, KERNEL, ORACLE)

OPS2(Add, (L_UI), (true), (), (OUT(hn::Add(VA, VB))), (LANE(AddT(a, b))))
OPS2(Sub, (L_UI), (true), (), (OUT(hn::Sub(VA, VB))), (LANE(SubT(a, b))))
OP(OpPlus, (L_UI), (true), (), (OUT(VA + VB)), (LANE(AddT(a, b))))
OP(OpMinus, (L_UI), (true), (), (OUT(VA - VB)), (LANE(SubT(a, b))))
OP(CompoundPlus, (L_UI), (true), (), (auto x = VA; x += VB; OUT(x)), (LANE(AddT(a, b))))
OP(CompoundMinus, (L_UI), (true), (), (auto x = VA; x -= VB; OUT(x)), (LANE(SubT(a, b))))
OP(AddSub, (L_UI), (true), (), (OUT(hn::AddSub(VA, VB))), (LANE((i & 1) ? AddT(a, b) : SubT(a, b))))
OPS1(Neg, (L_I), (true), (), (OUT(hn::Neg(VA))), (LANE(NegT(a))))
OPS1(SaturatedNeg, (L_I), (true), (), (OUT(hn::SaturatedNeg(VA))), (LANE(Sat<T>(-i128(a)))))
OPS1(Abs, (L_I), (true), (), (OUT(hn::Abs(VA))), (LANE(AbsT(a))))
OPS1(SaturatedAbs, (L_I), (true), (), (OUT(hn::SaturatedAbs(VA))), (LANE(Sat<T>(a < 0 ? -i128(a) : i128(a)))))
OPS2(AbsDiff, (L_UI), (true), (), (OUT(hn::AbsDiff(VA, VB))), (LANE(a > b ? SubT(a, b) : SubT(b, a))))
OPS2(SaturatedAdd, (L_UI), (true), (), (OUT(hn::SaturatedAdd(VA, VB))), (LANE(Sat<T>(i128(a) + i128(b)))))
OPS2(SaturatedSub, (L_UI), (true), (), (OUT(hn::SaturatedSub(VA, VB))), (LANE(Sat<T>(i128(a) - i128(b)))))
OPS2(AverageRound, (L_UI), (true), (), (OUT(hn::AverageRound(VA, VB))), (LANE(T((i128(a) + i128(b) + 1) >> 1))))
OPS2(Min, (L_UI), (true), (), (OUT(hn::Min(VA, VB))), (LANE(a < b ? a : b)))
OPS2(Max, (L_UI), (true), (), (OUT(hn::Max(VA, VB))), (LANE(a < b ? b : a)))
// |min| compares as unsigned magnitude (documented formula with |LimitsMin| mathematically largest).
OPS2(MinMagnitude, (L_UI), (true), (), (OUT(hn::MinMagnitude(VA, VB))),
  (LANE((i128(a) < 0 ? -i128(a) : i128(a)) < (i128(b) < 0 ? -i128(b) : i128(b)) ? a
      : (i128(a) < 0 ? -i128(a) : i128(a)) > (i128(b) < 0 ? -i128(b) : i128(b)) ? b : (a < b ? a : b))))
OPS2(MaxMagnitude, (L_UI), (true), (), (OUT(hn::MaxMagnitude(VA, VB))),
  (LANE((i128(a) < 0 ? -i128(a) : i128(a)) < (i128(b) < 0 ? -i128(b) : i128(b)) ? b
      : (i128(a) < 0 ? -i128(a) : i128(a)) > (i128(b) < 0 ? -i128(b) : i128(b)) ? a : (a < b ? b : a))))
OP(Clamp, (L_UI), (true), (for (size_t i = 0; i < N; ++i) if (B[i] > C[i]) std::swap(B[i], C[i]);),
  (OUT(hn::Clamp(VA, VB, VC))), (LANE(a < b ? b : a > c ? c : a)))
#define VF_DIVFIX (for (size_t i = 0; i < N; ++i) { if (B[i] == 0) B[i] = T(1 + (uint64_t(P[0]) % 7)); })
#define VF_DIVDC (for (size_t i = 0; i < N; ++i) if (std::is_signed<T>() && A[i] == std::numeric_limits<T>::min() && B[i] == T(-1)) cx.DC(0, i);)
OPS2(Div, (L_UI), (true), VF_DIVFIX, (OUT(hn::Div(VA, VB))), (LANE(i128(a) / i128(b)) VF_UNP VF_DIVDC))
OPS2(Mod, (L_UI), (true), VF_DIVFIX, (OUT(hn::Mod(VA, VB))), (LANE(i128(a) % i128(b)) VF_UNP VF_DIVDC))
OP(OpDiv, (L_UI), (true), VF_DIVFIX, (OUT(VA / VB)), (LANE(i128(a) / i128(b)) VF_UNP VF_DIVDC))
OP(OpMod, (L_UI), (true), VF_DIVFIX, (OUT(VA % VB)), (LANE(i128(a) % i128(b)) VF_UNP VF_DIVDC))
OP(CompoundDiv, (L_UI), (true), VF_DIVFIX, (auto x = VA; x /= VB; OUT(x)), (LANE(i128(a) / i128(b)) VF_UNP VF_DIVDC))
OP(CompoundMod, (L_UI), (true), VF_DIVFIX, (auto x = VA; x %= VB; OUT(x)), (LANE(i128(a) % i128(b)) VF_UNP VF_DIVDC))
OP(PairwiseAdd, (L_UI), (N >= 2 && !SCALAR_T), (), (OUT(hn::PairwiseAdd(d, VA, VB))), (LANE((i & 1) ? AddT(B[i - 1], B[i]) : AddT(A[i], A[i + 1]))))
OP(PairwiseSub, (L_UI), (N >= 2 && !SCALAR_T), (), (OUT(hn::PairwiseSub(d, VA, VB))), (LANE((i & 1) ? SubT(B[i], B[i - 1]) : SubT(A[i + 1], A[i]))))
#if HWY_TARGET != HWY_SCALAR || VF_ORACLE
#define LT128(x, y) (x[j + 1] != y[j + 1] ? x[j + 1] < y[j + 1] : x[j] < y[j])
OP(Min128, (L_U64), (N >= 2 && !SCALAR_T), (if (P[0] & 1) for (size_t i = 1; i < N; i += 2) B[i] = A[i];), (OUT(hn::Min128(d, VA, VB))), (LANE(([&] { const size_t j = i & ~size_t(1); return LT128(A, B) ? a : b; })())))
OP(Max128, (L_U64), (N >= 2 && !SCALAR_T), (if (P[0] & 1) for (size_t i = 1; i < N; i += 2) B[i] = A[i];), (OUT(hn::Max128(d, VA, VB))), (LANE(([&] { const size_t j = i & ~size_t(1); return LT128(B, A) ? a : b; })())))
OP(Min128Upper, (L_U64), (N >= 2 && !SCALAR_T), (if (P[0] & 1) for (size_t i = 1; i < N; i += 2) B[i] = A[i];), (OUT(hn::Min128Upper(d, VA, VB))), (LANE(A[i | 1] < B[i | 1] ? a : b)))
OP(Max128Upper, (L_U64), (N >= 2 && !SCALAR_T), (if (P[0] & 1) for (size_t i = 1; i < N; i += 2) B[i] = A[i];), (OUT(hn::Max128Upper(d, VA, VB))), (LANE(A[i | 1] > B[i | 1] ? a : b)))
#endif
