// C03: multiplication and widening products.
#define OP(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (), FIX, KERNEL, ORACLE)
#define OPS2(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (s.sweep = 2; s.weight = 8;), FIX, KERNEL, ORACLE)

OPS2(Mul, (L_UI), (true), (), (OUT(hn::Mul(VA, VB))), (LANE(MulT(a, b))))
OPS2(OpMul, (L_UI), (true), (), (OUT(VA * VB)), (LANE(MulT(a, b))))
OP(CompoundMul, (L_UI), (true), (), (auto x = VA; x *= VB; OUT(x)), (LANE(MulT(a, b))))
OPS2(MulHigh, (L_UI), (true), (), (OUT(hn::MulHigh(VA, VB))), (LANE(std::is_signed<T>() ? T((i128(a) * i128(b)) >> (8 * sizeof(T))) : T((u128(a) * u128(b)) >> (8 * sizeof(T))))))
OPS2(MulFixedPoint15, (L_I16), (true), (), (OUT(hn::MulFixedPoint15(VA, VB))), (LANE(T((int64_t(a) * int64_t(b) + 16384) >> 15)) DCL(a == -32768 && b == -32768)))
OPS2(MulAdd, (L_UI), (true), (), (OUT(hn::MulAdd(VA, VB, VC))), (LANE(AddT(MulT(a, b), c))))
OPS2(NegMulAdd, (L_UI), (true), (), (OUT(hn::NegMulAdd(VA, VB, VC))), (LANE(SubT(c, MulT(a, b)))))
OP(MulSub, (L_UI), (true), (), (OUT(hn::MulSub(VA, VB, VC))), (LANE(SubT(MulT(a, b), c))))
OP(MulAddSub, (L_UI), (true), (), (OUT(hn::MulAddSub(VA, VB, VC))), (LANE((i & 1) ? AddT(MulT(a, b), c) : SubT(MulT(a, b), c))))
OP(MulSubAdd, (L_UI), (true), (), (OUT(hn::MulSubAdd(VA, VB, VC))), (LANE((i & 1) ? SubT(MulT(a, b), c) : AddT(MulT(a, b), c))))

#if HWY_TARGET != HWY_SCALAR || VF_ORACLE
OPS2(MulEven, (L_UI8_32), (N >= 2), (), (PUT(0, RepartitionToWide<D>(), hn::MulEven(VA, VB))), (using TW = MakeWide<T>; TW* R = cx.template Res<TW>(0, N / 2); for (size_t i = 0; i < N / 2; ++i) R[i] = TW(TW(A[2 * i]) * TW(B[2 * i]));))
OPS2(MulOdd, (L_UI8_32), (N >= 2), (), (PUT(0, RepartitionToWide<D>(), hn::MulOdd(VA, VB))), (using TW = MakeWide<T>; TW* R = cx.template Res<TW>(0, N / 2); for (size_t i = 0; i < N / 2; ++i) R[i] = TW(TW(A[2 * i + 1]) * TW(B[2 * i + 1]));))
#define MUL64(ODD) T* R = cx.template Res<T>(0, N); for (size_t i = 0; i < N; i += 2) { u128 p = std::is_signed<T>() ? u128(i128(A[i + ODD]) * i128(B[i + ODD])) : u128(TU(A[i + ODD])) * u128(TU(B[i + ODD])); R[i] = T(uint64_t(p)); R[i + 1] = T(uint64_t(p >> 64)); }
OPS2(MulEven64, (L_UI64), (N >= 2), (), (OUT(hn::MulEven(VA, VB))), (MUL64(0)))
OPS2(MulOdd64, (L_UI64), (N >= 2), (), (OUT(hn::MulOdd(VA, VB))), (MUL64(1)))

// T = narrow lane type
OPS2(WidenMulPairwiseAdd, (L_UI16), (N >= 2), (), (RepartitionToWide<D> dw; PUT(0, dw, hn::WidenMulPairwiseAdd(dw, VA, VB))),
  (using TW = MakeWide<T>; TW* R = cx.template Res<TW>(0, N / 2); for (size_t i = 0; i < N / 2; ++i) R[i] = TW(i128(A[2 * i]) * B[2 * i] + i128(A[2 * i + 1]) * B[2 * i + 1]);))
#define TOL_BF(P0, P1, ACC) (1e-6 * (std::fabs(P0) + std::fabs(P1) + std::fabs(ACC)) + 0x1p-120)
// The native bf16 dot-product instruction (AVX3_ZEN4 and better) treats subnormal inputs as zero; accept either there.
#define BF_DEN(X, Y) ((target <= HWY_AVX3_ZEN4 && (std::fabs(W(X)) < 0x1p-126 || std::fabs(W(Y)) < 0x1p-126)) ? std::fabs(W(X) * W(Y)) : 0.0)
#define BF_FIN(X, Y) (Finite(X) && Finite(Y))
OP(WidenMulPairwiseAddBF, (TL<bfloat16_t>), (N >= 2), (), (RepartitionToWide<D> dw; PUT(0, dw, hn::WidenMulPairwiseAdd(dw, VA, VB))),
  (cx.template Res<float>(0, N / 2, kFlt); for (size_t i = 0; i < N / 2; ++i) { cx.DC(0, i);
     const double p0 = W(A[2 * i]) * W(B[2 * i]); const double p1 = W(A[2 * i + 1]) * W(B[2 * i + 1]); const double g = cx.template Got<float>(0)[i];
     if (!(std::fabs(p0) + std::fabs(p1) < 1e38)) continue;
     const double den = BF_DEN(A[2 * i], B[2 * i]) + BF_DEN(A[2 * i + 1], B[2 * i + 1]);
     if (!(std::fabs(g - (p0 + p1)) <= TOL_BF(p0, p1, 0.0) + den)) cx.fail = "bf16 pairwise sum wrong at lane " + std::to_string(i); }))
OPS2(SatWidenMulPairwiseAdd, (TL<uint8_t>), (N >= 2), (), (Repartition<int16_t, D> dw; const RebindToSigned<D> di; PUT(0, dw, hn::SatWidenMulPairwiseAdd(dw, VA, Ld(di, in.r[1])))),
  (int16_t* R = cx.template Res<int16_t>(0, N / 2); const int8_t* SB = (const int8_t*)B; for (size_t i = 0; i < N / 2; ++i) R[i] = Sat<int16_t>(i128(A[2 * i]) * SB[2 * i] + i128(A[2 * i + 1]) * SB[2 * i + 1]);))
OPS2(SatWidenMulPairwiseAccumulate, (L_I16), (N >= 2), (if (P[0] & 3) for (size_t i = 0; i < N / 2; ++i) { int32_t* S = (int32_t*)C; const uint64_t h = uint64_t(P[1]) * (2 * i + 1); if (h >> 63) S[i] = int32_t((h >> 62) & 1 ? 0x7FFFFFFF - int32_t((h >> 40) & 0x3FFF) : int32_t(0x80000000u + ((h >> 40) & 0x3FFF))); if ((h >> 56) % 4 == 0) { A[2 * i] = A[2 * i + 1] = -32768; B[2 * i] = B[2 * i + 1] = ((h >> 54) & 1) ? -32768 : 32767; } }),
  (RepartitionToWide<D> dw; PUT(0, dw, hn::SatWidenMulPairwiseAccumulate(dw, VA, VB, Ld(dw, in.r[2])))),
  (int32_t* R = cx.template Res<int32_t>(0, N / 2); const int32_t* S = (const int32_t*)C; for (size_t i = 0; i < N / 2; ++i) R[i] = Sat<int32_t>(i128(A[2 * i]) * B[2 * i] + i128(A[2 * i + 1]) * B[2 * i + 1] + S[i]);))
// Main type i32 (N lanes); a,b are i16 of N lanes
OPK(SatWidenMulAccumFixedPoint, (L_I32), (0), (true), (s.type[0] = s.type[1] = I16; s.weight = 12;), (),
  (const Rebind<int16_t, D> dn; OUT(hn::SatWidenMulAccumFixedPoint(d, Ld(dn, in.r[0]), Ld(dn, in.r[1]), VC))),
  (const int16_t* X = (const int16_t*)A; const int16_t* Y = (const int16_t*)B;
   T* R = cx.template Res<T>(0, N); for (size_t i = 0; i < N; ++i) R[i] = Sat<T>(i128(X[i]) * Y[i] * 2 + C[i]);
   T* R2 = cx.template Alt<T>(0); for (size_t i = 0; i < N; ++i) R2[i] = Sat<T>(i128(Sat<T>(i128(X[i]) * Y[i] * 2)) + C[i]);))
// Invariant: total of both accumulators
OP(ReorderWidenMulAccumulate, (L_UI16), (N >= 2), (),
  (RepartitionToWide<D> dw; auto sum1 = Zero(dw); auto sum0 = Ld(dw, in.r[2]);
   sum0 = hn::ReorderWidenMulAccumulate(dw, VA, VB, sum0, sum1);
   sum0 = hn::ReorderWidenMulAccumulate(dw, VB, VD, sum0, sum1);
   PUT(0, dw, sum0) PUT(1, dw, sum1)),
  (using TW = MakeUnsigned<MakeWide<T>>; cx.template Res<TW>(0, N / 2); cx.template Res<TW>(1, N / 2); TW got = 0, want = 0;
   for (size_t i = 0; i < N / 2; ++i) { cx.DC(0, i); cx.DC(1, i); got = TW(got + cx.template Got<TW>(0)[i] + cx.template Got<TW>(1)[i]); want = TW(want + ((const TW*)C)[i]); }
   for (size_t i = 0; i < N; ++i) want = TW(want + TW(i128(A[i]) * B[i]) + TW(i128(B[i]) * D[i]));
   if (got != want) cx.fail = "total of accumulators " + std::to_string(got) + " expected " + std::to_string(want);))
OP(ReorderWidenMulAccumulateBF, (TL<bfloat16_t>), (N >= 2), (),
  (RepartitionToWide<D> dw; auto sum1 = Zero(dw); auto sum0 = Zero(dw);
   sum0 = hn::ReorderWidenMulAccumulate(dw, VA, VB, sum0, sum1);
   sum0 = hn::ReorderWidenMulAccumulate(dw, VB, VD, sum0, sum1);
   PUT(0, dw, sum0) PUT(1, dw, sum1)),
  (cx.template Res<float>(0, N / 2); cx.template Res<float>(1, N / 2); double got = 0; double want = 0; double mag = 0; double den = 0;
   for (size_t i = 0; i < N / 2; ++i) { cx.DC(0, i); cx.DC(1, i); got += (double)cx.template Got<float>(0)[i] + (double)cx.template Got<float>(1)[i]; }
   for (size_t i = 0; i < N; ++i) { const double p = W(A[i]) * W(B[i]); const double q = W(B[i]) * W(D[i]); want += p + q; mag += std::fabs(p) + std::fabs(q); den += BF_DEN(A[i], B[i]) + BF_DEN(B[i], D[i]); }
   if (mag < 1e37 && !(std::fabs(got - want) <= mag * 1e-6 + 0x1p-118 + den)) cx.fail = "total of accumulators wrong";))
// RearrangeToOddPlusEven gives exact per-lane pair sums
OP(RearrangeToOddPlusEven, (L_UI16), (N >= 2), (),
  (RepartitionToWide<D> dw; auto sum1 = Zero(dw); auto sum0 = Zero(dw);
   sum0 = hn::ReorderWidenMulAccumulate(dw, VA, VB, sum0, sum1);
   sum0 = hn::ReorderWidenMulAccumulate(dw, VC, VD, sum0, sum1);
   PUT(0, dw, hn::RearrangeToOddPlusEven(sum0, sum1))),
  (using TW = MakeWide<T>; TW* R = cx.template Res<TW>(0, N / 2);
   for (size_t i = 0; i < N / 2; ++i) R[i] = TW(i128(A[2 * i]) * B[2 * i] + i128(A[2 * i + 1]) * B[2 * i + 1] + i128(C[2 * i]) * D[2 * i] + i128(C[2 * i + 1]) * D[2 * i + 1]);))
OP(RearrangeToOddPlusEvenBF, (TL<bfloat16_t>), (N >= 2), (),
  (RepartitionToWide<D> dw; auto sum1 = Zero(dw); auto sum0 = Zero(dw);
   sum0 = hn::ReorderWidenMulAccumulate(dw, VA, VB, sum0, sum1);
   PUT(0, dw, hn::RearrangeToOddPlusEven(sum0, sum1))),
  (cx.template Res<float>(0, N / 2); for (size_t i = 0; i < N / 2; ++i) { cx.DC(0, i);
     const double p0 = W(A[2 * i]) * W(B[2 * i]); const double p1 = W(A[2 * i + 1]) * W(B[2 * i + 1]); const double g = cx.template Got<float>(0)[i];
     if (!(std::fabs(p0) + std::fabs(p1) < 1e37)) continue;
     const double den = BF_DEN(A[2 * i], B[2 * i]) + BF_DEN(A[2 * i + 1], B[2 * i + 1]);
     if (!(std::fabs(g - (p0 + p1)) <= TOL_BF(p0, p1, 0.0) + den)) cx.fail = "bf16 pair sum wrong at lane " + std::to_string(i); }))
OPS2(SumOfMulQuadAccumulate, (L_UI8_16), (N >= 4), (), (hn::RepartitionToWideX2<D> dw; PUT(0, dw, hn::SumOfMulQuadAccumulate(dw, VA, VB, Ld(dw, in.r[2])))),
  (using TW = MakeWide<MakeWide<T>>; TW* R = cx.template Res<TW>(0, N / 4); for (size_t i = 0; i < N / 4; ++i) { i128 q = ((const TW*)C)[i]; for (size_t j = 4 * i; j < 4 * i + 4; ++j) q += i128(A[j]) * B[j]; R[i] = TW(q); }))
OPS2(SumOfMulQuadAccumulateUI, (TL<uint8_t>), (N >= 4), (), (Repartition<int32_t, D> dw; const RebindToSigned<D> di; PUT(0, dw, hn::SumOfMulQuadAccumulate(dw, VA, Ld(di, in.r[1]), Ld(dw, in.r[2])))),
  (const int8_t* SB = (const int8_t*)B; int32_t* R = cx.template Res<int32_t>(0, N / 4); for (size_t i = 0; i < N / 4; ++i) { i128 q = ((const int32_t*)C)[i]; for (size_t j = 4 * i; j < 4 * i + 4; ++j) q += i128(A[j]) * SB[j]; R[i] = int32_t(q); }))
OPS2(WidenMulAccumulate, (L_UI8_32), (N >= 2), (), (RepartitionToWide<D> dw; auto high = Ld(dw, in.r[3]); PUT(0, dw, hn::WidenMulAccumulate(dw, VA, VB, Ld(dw, in.r[2]), high)) PUT(1, dw, high)),
  (using TW = MakeWide<T>; TW* R = cx.template Res<TW>(0, N / 2); TW* H = cx.template Res<TW>(1, N / 2);
   for (size_t i = 0; i < N / 2; ++i) { R[i] = TW(i128(A[i]) * B[i] + ((const TW*)C)[i]); H[i] = TW(i128(A[i + N / 2]) * B[i + N / 2] + ((const TW*)D)[i]); }))
#define BF_EO(NAME, OFS)                                                                                       \
OP(NAME, (TL<bfloat16_t>), (N >= 2), (), (RepartitionToWide<D> dw; PUT(0, dw, hn::NAME(dw, VA, VB, Ld(dw, in.r[2])))),                      \
  (cx.template Res<float>(0, N / 2); for (size_t i = 0; i < N / 2; ++i) { cx.DC(0, i);                                \
     const double p = W(A[2 * i + OFS]) * W(B[2 * i + OFS]); const double acc = ((const float*)C)[i]; const double g = cx.template Got<float>(0)[i]; \
     if (!(std::fabs(p) + std::fabs(acc) < 1e37)) continue;                                                           \
     if (!(std::fabs(g - (p + acc)) <= TOL_BF(p, 0.0, acc))) cx.fail = "bf16 even/odd multiply-add wrong at lane " + std::to_string(i); }))
BF_EO(MulEvenAdd, 0)
BF_EO(MulOddAdd, 1)
#endif
#if HWY_TARGET == HWY_SCALAR || VF_ORACLE
// Single-lane forms
OP(MulEven1, (L_UI8_32), (N == 1), (), (Rebind<MakeWide<T>, D> dw; PUT(0, dw, hn::MulEven(VA, VB))), (using TW = MakeWide<T>; TW* R = cx.template Res<TW>(0, 1); R[0] = TW(TW(A[0]) * TW(B[0]));))
OP(WidenMulPairwiseAdd1, (L_I16), (N == 1), (), (Rebind<MakeWide<T>, D> dw; PUT(0, dw, hn::WidenMulPairwiseAdd(dw, VA, VB))), (using TW = MakeWide<T>; TW* R = cx.template Res<TW>(0, 1); R[0] = TW(TW(A[0]) * TW(B[0]));))
OP(ReorderWidenMulAccumulate1, (L_UI16), (N == 1), (), (Rebind<MakeWide<T>, D> dw; auto s1 = Zero(dw); PUT(0, dw, hn::ReorderWidenMulAccumulate(dw, VA, VB, Ld(dw, in.r[2]), s1)) PUT(1, dw, s1)),
  (using TW = MakeWide<T>; TW* R = cx.template Res<TW>(0, 1); R[0] = TW(i128(A[0]) * B[0] + ((const TW*)C)[0]); TW* R1 = cx.template Res<TW>(1, 1); R1[0] = 0;))
OP(RearrangeToOddPlusEven1, (L_UI16), (N == 1), (), (Rebind<MakeWide<T>, D> dw; auto s1 = Zero(dw); auto s0 = hn::ReorderWidenMulAccumulate(dw, VA, VB, Ld(dw, in.r[2]), s1); PUT(0, dw, hn::RearrangeToOddPlusEven(s0, s1))),
  (using TW = MakeWide<T>; TW* R = cx.template Res<TW>(0, 1); R[0] = TW(i128(A[0]) * B[0] + ((const TW*)C)[0]);))
OPK(SatWidenMulAccumFixedPoint1, (L_I32), (0), (N == 1), (s.type[0] = s.type[1] = I16; s.weight = 12;), (),
  (const Rebind<int16_t, D> dn; OUT(hn::SatWidenMulAccumFixedPoint(d, Ld(dn, in.r[0]), Ld(dn, in.r[1]), VC))),
  (const int16_t* X = (const int16_t*)A; const int16_t* Y = (const int16_t*)B;
   T* R = cx.template Res<T>(0, N); for (size_t i = 0; i < N; ++i) R[i] = Sat<T>(i128(X[i]) * Y[i] * 2 + C[i]);
   T* R2 = cx.template Alt<T>(0); for (size_t i = 0; i < N; ++i) R2[i] = Sat<T>(i128(Sat<T>(i128(X[i]) * Y[i] * 2)) + C[i]);))
#endif
