// C06: conditional selection and masked arithmetic.
#define OP(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (s.weight = 6;), FIX, KERNEL, ORACLE)
#define OPW(NAME, TYPES, W_, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (s.weight = W_;), FIX, KERNEL, ORACLE)
#define BITS_T (8 * sizeof(T))

OPW(IfThenElse, (L_ALL), 8, (true), (), (OUT(hn::IfThenElse(MK, VA, VB))), (LANE(m ? a : b)))
OPW(IfThenElseZero, (L_ALL), 8, (true), (), (OUT(hn::IfThenElseZero(MK, VA))), (LANE(m ? a : FZero<T>())))
OPW(IfThenZeroElse, (L_ALL), 8, (true), (), (OUT(hn::IfThenZeroElse(MK, VA))), (LANE(m ? FZero<T>() : a)))
OPW(IfVecThenElse, (L_ALL), 8, (true), (), (OUT(hn::IfVecThenElse(VX(d, 4), VA, VB))), (LANE(m ? a : b)))
// Comparison feeding a selection (no reload of the mask).
OP(SelectLt, (L_ALL), (true), (), (OUT(hn::IfThenElse(hn::Lt(VA, VB), VC, VD))), (LANE(W(a) < W(b) ? c : d)))
OP(SelectEqZero, (L_ALL), (true), (for (size_t i = 0; i < N; ++i) if ((P[0] >> i) & 1) B[i] = A[i];), (OUT(hn::IfThenElseZero(hn::Eq(VA, VB), VC))), (LANE(W(a) == W(b) ? c : FZero<T>())))
// Documented as v < 0; -0.0 and NaN may count as negative (sign bit).
#define AMBIG (IsFloat<T>() && (IsNan(a) || W(a) == 0))
OPW(IfNegativeThenElse, (L_IF), 8, (true), (), (OUT(hn::IfNegativeThenElse(VA, VB, VC))), (LANE(W(a) < 0 ? b : c) ALTL(AMBIG ? b : W(a) < 0 ? b : c)))
OPW(IfNegativeThenElseZero, (L_IF), 8, (true), (), (OUT(hn::IfNegativeThenElseZero(VA, VB))), (LANE(W(a) < 0 ? b : FZero<T>()) ALTL(AMBIG || W(a) < 0 ? b : FZero<T>())))
OPW(IfNegativeThenZeroElse, (L_IF), 8, (true), (), (OUT(hn::IfNegativeThenZeroElse(VA, VB))), (LANE(W(a) < 0 ? FZero<T>() : b) ALTL(AMBIG || W(a) < 0 ? FZero<T>() : b)))
OPW(IfNegativeThenNegOrUndefIfZero, (L_IF), 8, (true), (), (OUT(hn::IfNegativeThenNegOrUndefIfZero(VA, VB))), (LANE(W(a) < 0 ? NegT(b) : W(a) == 0 ? FZero<T>() : b) ALTL(W(a) < 0 ? NegT(b) : b) DCL(IsFloat<T>() && (IsNan(a) || W(a) == 0 || IsNan(b)))))
OPK(ZeroIfNegative, (L_IF), (0), (true), (s.sweep = 1; s.weight = 8;), (), (OUT(hn::ZeroIfNegative(VA))), (LANE(W(a) < 0 ? FZero<T>() : a) ALTL(AMBIG || W(a) < 0 ? FZero<T>() : a)))
// Boundary lanes for the integer selections above.
OPW(MaskedSetOr, (L_ALL), 6, (true), (), (OUT(hn::MaskedSetOr(VA, MK, hn::GetLane(VB)))), (LANE(m ? B[0] : a)))
OPW(MaskedSet, (L_ALL), 6, (true), (), (OUT(hn::MaskedSet(d, MK, hn::GetLane(VB)))), (LANE(m ? B[0] : FZero<T>())))

// ---- masked arithmetic: (no = c)
OP(MaskedMinOr, (L_ALL), (true), (), (OUT(hn::MaskedMinOr(VC, MK, VA, VB))), (LANEFZ(m ? ((IsNan(a) || IsNan(b)) ? a : LtT(b, a) ? b : a) : c) ALTL(m ? ((IsNan(a) || IsNan(b)) ? b : LtT(b, a) ? b : a) : c)))
OP(MaskedMaxOr, (L_ALL), (true), (), (OUT(hn::MaskedMaxOr(VC, MK, VA, VB))), (LANEFZ(m ? ((IsNan(a) || IsNan(b)) ? a : LtT(a, b) ? b : a) : c) ALTL(m ? ((IsNan(a) || IsNan(b)) ? b : LtT(a, b) ? b : a) : c)))
OP(MaskedMax, (L_ALL), (true), (), (OUT(hn::MaskedMax(MK, VA, VB))), (LANEFZ(m ? ((IsNan(a) || IsNan(b)) ? a : LtT(a, b) ? b : a) : FZero<T>()) ALTL(m ? ((IsNan(a) || IsNan(b)) ? b : LtT(a, b) ? b : a) : FZero<T>())))
OP(MaskedAddOr, (L_ALL), (true), (), (OUT(hn::MaskedAddOr(VC, MK, VA, VB))), (LANEF(m ? AddT(a, b) : c)))
OP(MaskedSubOr, (L_ALL), (true), (), (OUT(hn::MaskedSubOr(VC, MK, VA, VB))), (LANEF(m ? SubT(a, b) : c)))
OP(MaskedMulOr, (L_ALL), (true), (), (OUT(hn::MaskedMulOr(VC, MK, VA, VB))), (LANEF(m ? MulT(a, b) : c)))
OP(MaskedAdd, (L_ALL), (true), (), (OUT(hn::MaskedAdd(MK, VA, VB))), (LANEF(m ? AddT(a, b) : FZero<T>())))
OP(MaskedSub, (L_ALL), (true), (), (OUT(hn::MaskedSub(MK, VA, VB))), (LANEF(m ? SubT(a, b) : FZero<T>())))
OP(MaskedMul, (L_ALL), (true), (), (OUT(hn::MaskedMul(MK, VA, VB))), (LANEF(m ? MulT(a, b) : FZero<T>())))
OP(FMaskedDivOr, (L_F), (true), (), (OUT(hn::MaskedDivOr(VC, MK, VA, VB))), (LANEF(m ? DivF(a, b) : c)))
OP(FMaskedDiv, (L_F), (true), (), (OUT(hn::MaskedDiv(MK, VA, VB))), (LANEF(m ? DivF(a, b) : FZero<T>())))
#define DIVFIX (for (size_t i = 0; i < N; ++i) { if (B[i] == 0) B[i] = T(1 + (uint64_t(P[0]) % 7)); if (std::is_signed<T>() && A[i] == std::numeric_limits<T>::min() && B[i] == T(-1)) B[i] = T(-3); })
OP(IMaskedDivOr, (L_UI), (true), DIVFIX, (OUT(hn::MaskedDivOr(VC, MK, VA, VB))), (LANE(m ? T(i128(a) / i128(b)) : c)))
OP(IMaskedDiv, (L_UI), (true), DIVFIX, (OUT(hn::MaskedDiv(MK, VA, VB))), (LANE(m ? T(i128(a) / i128(b)) : T(0))))
OP(MaskedModOr, (L_UI), (true), DIVFIX, (OUT(hn::MaskedModOr(VC, MK, VA, VB))), (LANE(m ? T(i128(a) % i128(b)) : c)))
#define L_SAT TL<uint8_t, int8_t, uint16_t, int16_t>
OP(MaskedSatAddOr, (L_SAT), (true), (), (OUT(hn::MaskedSatAddOr(VC, MK, VA, VB))), (LANE(m ? Sat<T>(i128(a) + i128(b)) : c)))
OP(MaskedSatSubOr, (L_SAT), (true), (), (OUT(hn::MaskedSatSubOr(VC, MK, VA, VB))), (LANE(m ? Sat<T>(i128(a) - i128(b)) : c)))
OP(MaskedSaturatedAdd, (L_SAT), (true), (), (OUT(hn::MaskedSaturatedAdd(MK, VA, VB))), (LANE(m ? Sat<T>(i128(a) + i128(b)) : T(0))))
OP(MaskedSaturatedSub, (L_SAT), (true), (), (OUT(hn::MaskedSaturatedSub(MK, VA, VB))), (LANE(m ? Sat<T>(i128(a) - i128(b)) : T(0))))
OP(MaskedMulFixedPoint15, (L_I16), (true), (), (OUT(hn::MaskedMulFixedPoint15(MK, VA, VB))), (LANE(m ? T((i128(a) * b + 16384) >> 15) : T(0)) DCL(a == -32768 && b == -32768)))
OP(MaskedMulAddOr, (L_ALL), (true), (), (OUT(hn::MaskedMulAddOr(VD, MK, VA, VB, VC))), (LANEFZ(m ? MulAddAny(a, b, c) : d) ALTL(m ? MulAddF(a, b, c) : d)))
OP(MaskedMulAdd, (L_ALL), (true), (), (OUT(hn::MaskedMulAdd(MK, VA, VB, VC))), (LANEFZ(m ? MulAddAny(a, b, c) : FZero<T>()) ALTL(m ? MulAddF(a, b, c) : FZero<T>())))
OP(MaskedNegMulAdd, (L_ALL), (true), (), (OUT(hn::MaskedNegMulAdd(MK, VA, VB, VC))), (LANEFZ(m ? MulAddAny(NegT(a), b, c) : FZero<T>()) ALTL(m ? MulAddF(NegT(a), b, c) : FZero<T>())))
OP(MaskedAbsOr, (L_I), (true), (), (OUT(hn::MaskedAbsOr(VB, MK, VA))), (LANEF(m ? AbsT(a) : b)))
OP(MaskedAbs, (L_I), (true), (), (OUT(hn::MaskedAbs(MK, VA))), (LANEF(m ? AbsT(a) : FZero<T>())))
OP(MaskedSqrtOr, (L_F), (true), (), (OUT(hn::MaskedSqrtOr(VB, MK, VA))), (LANEF(m ? SqrtF(a) : b)))
OP(MaskedSqrt, (L_F), (true), (), (OUT(hn::MaskedSqrt(MK, VA))), (LANEF(m ? SqrtF(a) : FZero<T>())))
#define APPROX(WANT, TOL)                                                                                        \
  LANEF(FZero<T>()) for (size_t i = 0; i < N; ++i) { if (!M[i]) continue; cx.DC(0, i);                            \
    const double x = W(A[i]), g = W(cx.template Got<T>(0)[i]); const double want = WANT;                          \
    if (!Normal(A[i]) || x <= 0 || std::fabs(want) < 2 * TinyOf(TyOf<T>()) || std::fabs(want) > MaxOf(TyOf<T>()) / 2) continue; \
    if (!(std::fabs(g - want) <= std::fabs(want) * (TOL))) cx.fail = "approximation wrong in a selected lane " + std::to_string(i); }
OP(MaskedApproximateReciprocalSqrt, (L_F), (true), (), (OUT(hn::MaskedApproximateReciprocalSqrt(MK, VA))), (APPROX(1.0 / std::sqrt(x), 0.01)))
OP(MaskedApproximateReciprocal, (L_F), (true), (), (OUT(hn::MaskedApproximateReciprocal(MK, VA))), (APPROX(1.0 / x, 0x1p-9)))
OP(MaskedOr, (L_ALL), (true), (), (OUT(hn::MaskedOr(MK, VA, VB))), (LANE(m ? FromBits<T>(TU(Bits(a) | Bits(b))) : FZero<T>())))
OP(MaskedLeadingZeroCount, (L_UI), (true), (), (OUT(hn::MaskedLeadingZeroCount(MK, VA))), (LANE(m ? (TU(a) ? T(__builtin_clzll(uint64_t(TU(a))) - (64 - int(BITS_T))) : T(BITS_T)) : T(0))))
// operators on NaN-free and NaN data with selection
OP(MaskedCmpSelect, (L_ALL), (true), (), (OUT(hn::IfThenElse(hn::MaskedGt(MK, VA, VB), VA, VB))), (LANE((m && W(a) > W(b)) ? a : b)))

// ---- widening multiply (mask over wide lanes)
#if HWY_TARGET != HWY_SCALAR || VF_ORACLE
#define L_WMP TL<TP<int32_t, int16_t>, TP<uint32_t, uint16_t>>
OPK(MaskedWidenMulPairwiseAdd, (L_WMP), (0), (true), (s.weight = 8; s.type[0] = s.type[1] = TyOf<T2>(); s.count[0] = s.count[1] = int(2 * N);), (), (const Repartition<T2, D> dn; OUT(hn::MaskedWidenMulPairwiseAdd(d, MK, Ld(dn, in.r[0]), Ld(dn, in.r[1])))),
  (const T2* a2 = reinterpret_cast<const T2*>(A); const T2* b2 = reinterpret_cast<const T2*>(B); LANES_(kExact, T, m ? T(uint32_t(int64_t(a2[2 * i]) * b2[2 * i] + int64_t(a2[2 * i + 1]) * b2[2 * i + 1])) : T(0))))
#define L_WMB TL<TP<float, bfloat16_t>>
OPK(MaskedWidenMulPairwiseAddBF, (L_WMB), (0), (true), (s.weight = 8; s.type[0] = s.type[1] = TyOf<T2>(); s.count[0] = s.count[1] = int(2 * N);), (), (const Repartition<T2, D> dn; OUT(hn::MaskedWidenMulPairwiseAdd(d, MK, Ld(dn, in.r[0]), Ld(dn, in.r[1])))),
  (const T2* a2 = reinterpret_cast<const T2*>(A); const T2* b2 = reinterpret_cast<const T2*>(B); LANEF(FZero<T>()) for (size_t i = 0; i < N; ++i) { if (!M[i]) continue; cx.DC(0, i);
     const double p0 = double(W(a2[2 * i])) * W(b2[2 * i]); const double p1 = double(W(a2[2 * i + 1])) * W(b2[2 * i + 1]); const double mag = std::fabs(p0) + std::fabs(p1); const double g = W(cx.template Got<T>(0)[i]);
     bool ok_in = true; for (size_t q = 2 * i; q < 2 * i + 2; ++q) { ok_in = ok_in && Finite(a2[q]) && Finite(b2[q]); if (!Normal(a2[q]) && W(a2[q]) != 0) ok_in = false; if (!Normal(b2[q]) && W(b2[q]) != 0) ok_in = false; }
     if (!ok_in || !(mag < 1e38)) continue;
     if (!(std::fabs(g - (p0 + p1)) <= mag * 0x1p-22 + 0x1p-124)) cx.fail = "widening multiply wrong in selected lane " + std::to_string(i); }))
#define CPLXM(CONJ, ADD, ELSE)                                                              \
  LANEF(ELSE) for (size_t i = 0; i < N; ++i) {                                              \
    if (!M[i]) continue;                                                                    \
    cx.DC(0, i);                                                                            \
    const double g = W(cx.template Got<T>(0)[i]);                                           \
    const size_t j = i & ~size_t(1);                                                        \
    bool fin = true;                                                                        \
    for (size_t q = j; q < j + 2; ++q) fin = fin && Finite(A[q]) && Finite(B[q]) && (!(ADD) || Finite(C[q])); \
    if (!fin) continue;                                                                     \
    long double mag; long double want = CplxLane(A, B, i, CONJ, mag);                       \
    if (ADD) { want += (long double)W(C[i]); mag += fabsl((long double)W(C[i])); }          \
    if (mag > (long double)MaxOf(TyOf<T>()) / 4) continue;                                  \
    const long double tol = mag * 4 * EpsOf(TyOf<T>()) + 4 * DenormOf(TyOf<T>());           \
    if (!(fabsl((long double)g - want) <= tol)) cx.fail = "complex product wrong at lane " + std::to_string(i); }
OPW(MaskedMulComplexConjAdd, (L_F), 12, (N >= 2), (), (OUT(hn::MaskedMulComplexConjAdd(MK, VA, VB, VC))), (CPLXM(true, true, FZero<T>())))
OPW(MaskedMulComplexConj, (L_F), 12, (N >= 2), (), (OUT(hn::MaskedMulComplexConj(MK, VA, VB))), (CPLXM(true, false, FZero<T>())))
OPW(MaskedMulComplexOr, (L_F), 12, (N >= 2), (), (OUT(hn::MaskedMulComplexOr(VC, MK, VA, VB))), (CPLXM(false, false, c)))
#endif

// ---- masked shifts
#define KALL (0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 14, 15, 16, 17, 23, 24, 30, 31, 32, 33, 47, 48, 62, 63)
#define KCOND ((size_t)K < 8 * sizeof(T) && (N * sizeof(T) >= 16 || SCALAR_T || K == 1 || (size_t)K == 8 * sizeof(T) - 1))
OPK(MaskedShiftLeft, (L_UI), KALL, KCOND, (), (), (if constexpr ((size_t)K < BITS_T) { OUT(hn::MaskedShiftLeft<K>(MK, VA)) }), (LANE(m ? T(TU(uint64_t(TU(a)) << K)) : T(0))))
OPK(MaskedShiftRight, (L_UI), KALL, KCOND, (), (), (if constexpr ((size_t)K < BITS_T) { OUT(hn::MaskedShiftRight<K>(MK, VA)) }), (LANE(m ? T(a >> K) : T(0))))
OPK(MaskedShiftRightOr, (L_UI), KALL, KCOND, (), (), (if constexpr ((size_t)K < BITS_T) { OUT(hn::MaskedShiftRightOr<K>(VB, MK, VA)) }), (LANE(m ? T(a >> K) : b)))
OPW(MaskedShrOr, (L_UI), 12, (true), (for (size_t i = 0; i < N; ++i) B[i] = T(uint64_t(TU(B[i])) % BITS_T);), (OUT(hn::MaskedShrOr(VC, MK, VA, VB))), (LANE(m ? T(a >> int(b)) : c)))

// ---- bitwise selection
OP(BitwiseIfThenElse, (L_ALL), (true), (), (OUT(hn::BitwiseIfThenElse(VA, VB, VC))), (LANE(FromBits<T>(TU((Bits(a) & Bits(b)) | (TU(~Bits(a)) & Bits(c)))))))
