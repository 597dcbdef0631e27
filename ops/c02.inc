// C02: floating-point lane arithmetic.
#define OP(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (), FIX, KERNEL, ORACLE)
#define OPW(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (s.weight = 12;), FIX, KERNEL, ORACLE)
#define OPS1(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (s.sweep = 1; s.weight = 12;), FIX, KERNEL, ORACLE)

OPW(Add, (L_F), (true), (), (OUT(hn::Add(VA, VB))), (LANEF(AddT(a, b))))
OPW(Sub, (L_F), (true), (), (OUT(hn::Sub(VA, VB))), (LANEF(SubT(a, b))))
OPW(Mul, (L_F), (true), (), (OUT(hn::Mul(VA, VB))), (LANEF(MulT(a, b))))
OPW(Div, (L_F), (true), (), (OUT(hn::Div(VA, VB))), (LANEF(DivF(a, b))))
OP(OpPlus, (L_F), (true), (), (OUT(VA + VB)), (LANEF(AddT(a, b))))
OP(OpMinus, (L_F), (true), (), (OUT(VA - VB)), (LANEF(SubT(a, b))))
OP(OpMul, (L_F), (true), (), (OUT(VA * VB)), (LANEF(MulT(a, b))))
OP(OpDiv, (L_F), (true), (), (OUT(VA / VB)), (LANEF(DivF(a, b))))
OP(CompoundPlus, (L_F), (true), (), (auto x = VA; x += VB; OUT(x)), (LANEF(AddT(a, b))))
OP(CompoundMinus, (L_F), (true), (), (auto x = VA; x -= VB; OUT(x)), (LANEF(SubT(a, b))))
OP(CompoundMul, (L_F), (true), (), (auto x = VA; x *= VB; OUT(x)), (LANEF(MulT(a, b))))
OP(CompoundDiv, (L_F), (true), (), (auto x = VA; x /= VB; OUT(x)), (LANEF(DivF(a, b))))
OPS1(Sqrt, (L_F), (true), (), (OUT(hn::Sqrt(VA))), (LANEF(SqrtF(a))))
OPW(AddSub, (L_F), (true), (), (OUT(hn::AddSub(VA, VB))), (LANEF((i & 1) ? AddT(a, b) : SubT(a, b))))
OPS1(Neg, (L_F), (true), (), (OUT(hn::Neg(VA))), (LANEF(NegT(a))))
OPS1(Abs, (L_F), (true), (), (OUT(hn::Abs(VA))), (LANEF(AbsT(a))))
OPW(AbsDiff, (L_F), (true), (), (OUT(hn::AbsDiff(VA, VB))), (LANEF(AbsT(SubT(a, b)))))
#if HWY_TARGET != HWY_SCALAR || VF_ORACLE
OP(PairwiseAdd, (L_F), (N >= 2), (), (OUT(hn::PairwiseAdd(d, VA, VB))), (LANEFZ((i & 1) ? AddT(B[i - 1], B[i]) : AddT(A[i], A[i + 1]))))
OP(PairwiseSub, (L_F), (N >= 2), (), (OUT(hn::PairwiseSub(d, VA, VB))), (LANEFZ((i & 1) ? SubT(B[i], B[i - 1]) : SubT(A[i + 1], A[i]))))
#endif
OPW(Min, (L_F), (true), (), (OUT(hn::Min(VA, VB))), (LANEFZ((IsNan(a) || IsNan(b)) ? a : LtT(b, a) ? b : a) ALTL((IsNan(a) || IsNan(b)) ? b : LtT(b, a) ? b : a)))
OPW(Max, (L_F), (true), (), (OUT(hn::Max(VA, VB))), (LANEFZ((IsNan(a) || IsNan(b)) ? a : LtT(a, b) ? b : a) ALTL((IsNan(a) || IsNan(b)) ? b : LtT(a, b) ? b : a)))
OP(MinMagnitude, (L_F), (true), (), (OUT(hn::MinMagnitude(VA, VB))), (LANEFZ(LtT(AbsT(a), AbsT(b)) || (EqT(AbsT(a), AbsT(b)) && LtT(a, b)) ? a : b) DCL(IsNan(a) || IsNan(b))))
OP(MaxMagnitude, (L_F), (true), (), (OUT(hn::MaxMagnitude(VA, VB))), (LANEFZ(LtT(AbsT(a), AbsT(b)) || (EqT(AbsT(a), AbsT(b)) && LtT(a, b)) ? b : a) DCL(IsNan(a) || IsNan(b))))
OP(Clamp, (L_F), (true), (for (size_t i = 0; i < N; ++i) { if (IsNan(B[i])) B[i] = FZero<T>(); if (IsNan(C[i])) C[i] = FZero<T>(); if (LtT(C[i], B[i])) std::swap(B[i], C[i]); }),
  (OUT(hn::Clamp(VA, VB, VC))), (LANEFZ(LtT(a, b) ? b : LtT(c, a) ? c : a) DCL(IsNan(a))))

// ---- approximations: relative error bound, normal range only
OPS1(ApproximateReciprocal, (L_F), (true), (), (OUT(hn::ApproximateReciprocal(VA))),
  (LANEF(DivF(Rnd<T>(1.0), a)) for (size_t i = 0; i < N; ++i) {
     const double x = W(A[i]), g = W(cx.template Got<T>(0)[i]);
     const double want = 1.0 / x;
     cx.DC(0, i);
     if (!Normal(A[i]) || std::fabs(want) < 2 * TinyOf(TyOf<T>()) || std::fabs(want) > MaxOf(TyOf<T>()) / 2) { if (IsNan(A[i]) && !(g != g)) cx.fail = "NaN input must give NaN"; continue; }
     if (!(std::fabs(g - want) <= std::fabs(want) * (sizeof(T) == 2 ? 0x1p-9 : 0x1.8p-12))) cx.fail = "reciprocal approximation error too large at lane " + std::to_string(i);
   }))
OPS1(ApproximateReciprocalSqrt, (L_F), (true), (), (OUT(hn::ApproximateReciprocalSqrt(VA))),
  (LANEF(A[i]) for (size_t i = 0; i < N; ++i) {
     const double x = W(A[i]), g = W(cx.template Got<T>(0)[i]);
     cx.DC(0, i);
     if (!Normal(A[i]) || x < 0) { if (IsNan(A[i]) && !(g != g)) cx.fail = "NaN input must give NaN"; continue; }
     const double want = 1.0 / std::sqrt(x);
     if (!(std::fabs(g - want) <= std::fabs(want) * (sizeof(T) == 2 ? 0x1p-9 : sizeof(T) == 8 || target >= HWY_EMU128 ? 0.01 : 0x1.8p-12))) cx.fail = "rsqrt approximation error too large at lane " + std::to_string(i);
   }))
OPS1(GetExponent, (L_F), (true), (), (OUT(hn::GetExponent(VA))), (LANEF(Normal(a) ? Rnd<T>(std::logb(W(a))) : a) DCL(!Normal(a))))
OPS1(GetBiasedExponent, (L_F), (true), (), (PUT(0, du, hn::GetBiasedExponent(VA))), (LANES_(kExact, TU, TU(TU(Bits(a) & TU(~SignBit<T>())) >> MantBits<T>()))))

// ---- rounding (exact up to the sign of a zero result, which differs between targets)
OPS1(Round, (L_F), (true), (), (OUT(hn::Round(VA))), (LANEFZ(RoundF(a, 0))))
OPS1(Trunc, (L_F), (true), (), (OUT(hn::Trunc(VA))), (LANEFZ(RoundF(a, 1))))
OPS1(Ceil, (L_F), (true), (), (OUT(hn::Ceil(VA))), (LANEFZ(RoundF(a, 2))))
OPS1(Floor, (L_F), (true), (), (OUT(hn::Floor(VA))), (LANEFZ(RoundF(a, 3))))

// ---- classification
OPS1(IsNaN, (L_F), (true), (), (OUTM(hn::IsNaN(VA))), (LANEM(IsNan(a))))
OPW(IsEitherNaN, (L_F), (true), (), (OUTM(hn::IsEitherNaN(VA, VB))), (LANEM(IsNan(a) || IsNan(b))))
OPS1(IsInf, (L_F), (true), (), (OUTM(hn::IsInf(VA))), (LANEM(IsInfT(a))))
OPS1(IsFinite, (L_F), (true), (), (OUTM(hn::IsFinite(VA))), (LANEM(Finite(a))))
OPS1(MaskedIsNaN, (L_F), (true), (), (OUTM(hn::MaskedIsNaN(MK, VA))), (LANEM(m && IsNan(a))))
OPS1(IsNegative, (L_F), (true), (), (OUTM(hn::IsNegative(VA))), (LANEM((Bits(a) & SignBit<T>()) != 0)))

// ---- sign manipulation (bit-exact)
OPW(CopySign, (L_F), (true), (), (OUT(hn::CopySign(VA, VB))), (LANE(FromBits<T>(TU((Bits(a) & TU(~SignBit<T>())) | (Bits(b) & SignBit<T>()))))))
OPW(CopySignToAbs, (L_F), (true), (for (size_t i = 0; i < N; ++i) A[i] = AbsT(A[i]);), (OUT(hn::CopySignToAbs(VA, VB))), (LANE(FromBits<T>(TU((Bits(a) & TU(~SignBit<T>())) | (Bits(b) & SignBit<T>()))))))

// ---- multiply by powers of two
#define VF_POWFIX (for (size_t i = 0; i < N; ++i) { TU u = Bits(B[i]); const uint64_t h = uint64_t(P[0]) * (2 * i + 1) >> 20; if (h % 4) { int64_t v = int64_t((h >> 8) % (h % 4 == 1 ? 40 : h % 4 == 2 ? 400 : 5000)); if ((h >> 4) & 1) v = -v; if (sizeof(T) == 2 && (v > 32767 || v < -32768)) v = 3; u = TU(v); } B[i] = FromBits<T>(u); })
OPW(MulByPow2, (L_F), (true), VF_POWFIX, (const RebindToSigned<D> di; OUT(hn::MulByPow2(VA, Ld(di, in.r[1])))), (LANEF(LdexpF(a, int64_t(MakeSigned<T>(Bits(b)))))))
OPW(MulByFloorPow2, (L_F), (true), (for (size_t i = 0; i < N; ++i) if ((uint64_t(P[0]) >> (i % 60)) & 1) { double v = double(int64_t((uint64_t(P[1]) * (2 * i + 1)) >> 40) % 60000) / 100.0; if (Normal(B[i]) && std::fabs((double)W(B[i])) < 1e4) continue; B[i] = Rnd<T>(v); }),
  (OUT(hn::MulByFloorPow2(VA, VB))),
  (LANEF(IsNan(b) ? MulT(a, b) : IsInfT(b) ? (W(b) > 0 ? MulT(a, b) : MulT(a, FZero<T>())) : LdexpF(a, (int64_t)std::floor(std::max(-1e6, std::min(1e6, (double)W(b)))))) DCL(IsNan(a) && IsInfT(b))))
OPW(MulRound, (L_F), (true), (), (OUT(hn::MulRound(VA, VB))), (LANEFZ(RoundF(MulT(a, b), 0))))

// ---- fused multiply-add: fused or unfused result
OPW(MulAdd, (L_F), (true), (), (OUT(hn::MulAdd(VA, VB, VC))), (LANEFZ(FmaF(a, b, c)) ALTL(MulAddF(a, b, c))))
OPW(NegMulAdd, (L_F), (true), (), (OUT(hn::NegMulAdd(VA, VB, VC))), (LANEFZ(FmaF(NegT(a), b, c)) ALTL(MulAddF(NegT(a), b, c))))
OPW(MulSub, (L_F), (true), (), (OUT(hn::MulSub(VA, VB, VC))), (LANEFZ(FmaF(a, b, NegT(c))) ALTL(MulAddF(a, b, NegT(c)))))
OPW(NegMulSub, (L_F), (true), (), (OUT(hn::NegMulSub(VA, VB, VC))), (LANEFZ(FmaF(NegT(a), b, NegT(c))) ALTL(MulAddF(NegT(a), b, NegT(c)))))
OPW(MulAddSub, (L_F), (true), (), (OUT(hn::MulAddSub(VA, VB, VC))), (LANEFZ(FmaF(a, b, (i & 1) ? c : NegT(c))) ALTL(MulAddF(a, b, (i & 1) ? c : NegT(c)))))
OPW(MulSubAdd, (L_F), (true), (), (OUT(hn::MulSubAdd(VA, VB, VC))), (LANEFZ(FmaF(a, b, (i & 1) ? NegT(c) : c)) ALTL(MulAddF(a, b, (i & 1) ? NegT(c) : c))))

// ---- complex numbers
#if HWY_TARGET != HWY_SCALAR || VF_ORACLE
OP(ComplexConj, (L_F), (N >= 2), (), (OUT(hn::ComplexConj(VA))), (LANEF((i & 1) ? NegT(a) : a)))
#define CPLX_CHECK(CONJ, ADD, COND)                                                         \
  LANEF(A[i]) for (size_t i = 0; i < N; ++i) {                                              \
    cx.DC(0, i);                                                                            \
    const double g = W(cx.template Got<T>(0)[i]);                                           \
    const size_t j = i & ~size_t(1);                                                        \
    bool fin = true;                                                                        \
    for (size_t q = j; q < j + 2; ++q) fin = fin && Finite(A[q]) && Finite(B[q]) && (!(ADD) || Finite(C[q])); \
    if (!fin) continue;                                                                     \
    long double mag; long double want = CplxLane(A, B, i, CONJ, mag);                       \
    if (ADD) { want += (long double)W(C[i]); mag += fabsl((long double)W(C[i])); }          \
    if (mag > (long double)MaxOf(TyOf<T>()) / 4) continue;                                  \
    const long double tol = mag * 4 * EpsOf(TyOf<T>()) + 4 * DenormOf(TyOf<T>());           \
    if (!(fabsl((long double)g - want) <= tol)) cx.fail = "complex product wrong at lane " + std::to_string(i); }
OPW(MulComplex, (L_F), (N >= 2), (), (OUT(hn::MulComplex(VA, VB))), (CPLX_CHECK(false, false, true)))
OPW(MulComplexConj, (L_F), (N >= 2), (), (OUT(hn::MulComplexConj(VA, VB))), (CPLX_CHECK(true, false, true)))
OPW(MulComplexAdd, (L_F), (N >= 2), (), (OUT(hn::MulComplexAdd(VA, VB, VC))), (CPLX_CHECK(false, true, true)))
OPW(MulComplexConjAdd, (L_F), (N >= 2), (), (OUT(hn::MulComplexConjAdd(VA, VB, VC))), (CPLX_CHECK(true, true, true)))
#endif
