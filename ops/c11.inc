// C11: reductions and grouped sums.
#define OP(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (s.weight = 8;), FIX, KERNEL, ORACLE)
#ifdef VF_ORACLE
inline uint64_t Hx(int64_t p, size_t i) { uint64_t z = uint64_t(p) + (i + 1) * 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
template <typename T> T SumT(const T* A, size_t n, const bool* M) { T s = 0; for (size_t i = 0; i < n; ++i) if (!M || M[i]) s = AddT(s, A[i]); return s; }
// Any-order floating-point sum. Returns false if nothing can be said.
template <typename T> bool SumOk(const T* A, size_t n, const bool* M, T got) {
  long double s = 0, mag = 0; size_t cnt = 0; bool nan = false; int inf = 0;
  for (size_t i = 0; i < n; ++i) if (!M || M[i]) { const long double w = W(A[i]); if (w != w) nan = true; else if (std::isinf(w)) inf |= w > 0 ? 1 : 2; else { s += w; mag += fabsl(w); } ++cnt; }
  if (nan || inf == 3) return IsNan(got);
  if (mag > MaxOf(TyOf<T>()) * 0.99L) return true;  // intermediate overflow possible
  if (inf) return IsInfT(got) && ((W(got) > 0) == (inf == 1));
  return fabsl((long double)W(got) - s) <= mag * EpsOf(TyOf<T>()) * (long double)(cnt + 1) + DenormOf(TyOf<T>()) * (cnt + 1);
}
template <typename T> bool AnyNan(const T* A, size_t n, const bool* M) { for (size_t i = 0; i < n; ++i) if ((!M || M[i]) && IsNan(A[i])) return true; return false; }
template <typename T> T MinMaxT(const T* A, size_t n, const bool* M, bool mx) { bool first = true; T r = A[0]; for (size_t i = 0; i < n; ++i) if (!M || M[i]) { if (first || (mx ? LtT(r, A[i]) : LtT(A[i], r))) r = A[i]; first = false; } return r; }
#endif
// a third of the float cases use cancellation-free small integers so each lane matters exactly
#define FFIX ({ if ((P[0] & 3) == 0) { for (size_t i = 0; i < N; ++i) A[i] = Rnd<T>(double(Hx(P[1], i) % 61)); } })
#define ANYM ({ bool any = false; for (size_t i = 0; i < N; ++i) any |= M[i]; if (!any) M[uint64_t(P[2]) % N] = true; })
#define FANYM ({ if ((P[0] & 3) == 0) for (size_t i = 0; i < N; ++i) A[i] = Rnd<T>(double(Hx(P[1], i) % 61)); bool any = false; for (size_t i = 0; i < N; ++i) any |= M[i]; if (!any) M[uint64_t(P[2]) % N] = true; })

OP(ReduceSum, (L_UI), (true), (), (OUTS(0, hn::ReduceSum(d, VA)) PUT(1, d, hn::SumOfLanes(d, VA))), (const T r = SumT(A, N, (const bool*)nullptr); cx.template Res<T>(0, 1)[0] = r; T* R = cx.template Res<T>(1, N); for (size_t i = 0; i < N; ++i) R[i] = r;))
OP(FReduceSum, (L_F), (true), FFIX, (OUTS(0, hn::ReduceSum(d, VA)) PUT(1, d, hn::SumOfLanes(d, VA))),
  (cx.template Res<T>(0, 1); cx.template Res<T>(1, N); cx.DC(0, 0); for (size_t i = 0; i < N; ++i) cx.DC(1, i);
   if (!SumOk(A, N, (const bool*)nullptr, cx.template Got<T>(0)[0])) cx.fail = "ReduceSum outside the error bound of any order";
   for (size_t i = 0; i < N; ++i) if (!SumOk(A, N, (const bool*)nullptr, cx.template Got<T>(1)[i])) cx.fail = "SumOfLanes lane " + std::to_string(i) + " outside the error bound of any order";))
#define MMORACLE(MX) { const T r = MinMaxT(A, N, (const bool*)nullptr, MX); cx.template Res<T>(0, 1, kFltZ)[0] = r; T* R = cx.template Res<T>(1, N, kFltZ); for (size_t i = 0; i < N; ++i) R[i] = r; if (AnyNan(A, N, (const bool*)nullptr)) { cx.DC(0, 0); for (size_t i = 0; i < N; ++i) cx.DC(1, i); } }
OP(ReduceMin, (L_ALL), (true), (), (OUTS(0, hn::ReduceMin(d, VA)) PUT(1, d, hn::MinOfLanes(d, VA))), (MMORACLE(false)))
OP(ReduceMax, (L_ALL), (true), (), (OUTS(0, hn::ReduceMax(d, VA)) PUT(1, d, hn::MaxOfLanes(d, VA))), (MMORACLE(true)))
OP(MaskedReduceSum, (L_UI), (true), ANYM, (OUTS(0, hn::MaskedReduceSum(d, MK, VA))), (cx.template Res<T>(0, 1)[0] = SumT(A, N, M);))
OP(FMaskedReduceSum, (L_F), (true), FANYM, (OUTS(0, hn::MaskedReduceSum(d, MK, VA))),
  (cx.template Res<T>(0, 1); cx.DC(0, 0); if (!SumOk(A, N, M, cx.template Got<T>(0)[0])) cx.fail = "MaskedReduceSum outside the error bound of any order";))
OP(MaskedReduceMin, (L_ALL), (true), ANYM, (OUTS(0, hn::MaskedReduceMin(d, MK, VA))), (cx.template Res<T>(0, 1, kFltZ)[0] = MinMaxT(A, N, M, false); if (AnyNan(A, N, M)) cx.DC(0, 0);))
OP(MaskedReduceMax, (L_ALL), (true), ANYM, (OUTS(0, hn::MaskedReduceMax(d, MK, VA))), (cx.template Res<T>(0, 1, kFltZ)[0] = MinMaxT(A, N, M, true); if (AnyNan(A, N, M)) cx.DC(0, 0);))

#define GSUM(G, TW) (TW* R = cx.template Res<TW>(0, N / G); for (size_t i = 0; i < N / G; ++i) { TW s = 0; for (size_t j = 0; j < G; ++j) s = TW(s + TW(A[G * i + j])); R[i] = s; })
#if HWY_TARGET != HWY_SCALAR || VF_ORACLE
OP(SumsOf2, (L_UI8_32), (N >= 2), (), (const RepartitionToWide<D> dw; PUT(0, dw, hn::SumsOf2(VA))), GSUM(2, MakeWide<T>))
OP(SumsOf2F32, (L_F32), (N >= 2), (), (const RepartitionToWide<D> dw; PUT(0, dw, hn::SumsOf2(VA))), (double* R = cx.template Res<double>(0, N / 2, kFlt); for (size_t i = 0; i < N / 2; ++i) R[i] = double(A[2 * i]) + double(A[2 * i + 1]);))
OP(SumsOf4, (L_UI8_16), (N >= 4), (), (const hn::RepartitionToWideX2<D> dw; PUT(0, dw, hn::SumsOf4(VA))), GSUM(4, MakeWide<MakeWide<T>>))
OP(SumsOf8, (L_UI8), (N >= 8), (), (const hn::RepartitionToWideX3<D> dw; PUT(0, dw, hn::SumsOf8(VA))), GSUM(8, MakeWide<MakeWide<MakeWide<T>>>))
OP(SumsOf8AbsDiff, (L_UI8), (N >= 8), (), (const hn::RepartitionToWideX3<D> dw; PUT(0, dw, hn::SumsOf8AbsDiff(VA, VB))),
  (using TW = MakeWide<MakeWide<MakeWide<T>>>; TW* R = cx.template Res<TW>(0, N / 8); for (size_t i = 0; i < N / 8; ++i) { TW s = 0; for (size_t j = 0; j < 8; ++j) s = TW(s + TW(std::abs(int(A[8 * i + j]) - int(B[8 * i + j])))); R[i] = s; }))
#define KA (K & 1)
#define KB (K >> 1)
OPK(SumsOfAdjQuadAbsDiff, (L_UI8), (0, 1, 2, 3, 4, 5, 6, 7), (N >= 4 && KA <= int((N - 1) / 4) && KB <= int((N - 1) / 4)), (s.weight = 8;), (), (const RepartitionToWide<D> dw; PUT(0, dw, hn::SumsOfAdjQuadAbsDiff<KA, KB>(VA, VB))),
  (using TW = MakeWide<T>; TW* R = cx.template Res<TW>(0, N / 2); for (size_t i = 0; i < N / 2; ++i) { R[i] = 0; if (i > 0 && N < (size_t(8) << KA)) { cx.DC(0, i); continue; } const size_t ai = KA * 4 + ((i / 8) * 16) + (i & 7); const size_t bi = KB * 4 + ((i / 8) * 16); int s = 0; for (size_t j = 0; j < 4; ++j) s += std::abs(int(A[ai + j]) - int(B[bi + j])); R[i] = TW(s); }))
#define P4I(q) ((K >> (2 * (q))) & 3)
OPK(SumsOfShuffledQuadAbsDiff, (L_UI8), (228, 0, 27, 78, 177, 57, 147, 68, 238, 136, 221, 160, 245, 1, 2, 3, 5, 10, 15, 30, 45, 60, 75, 99, 114, 120, 135, 141, 156, 180, 198, 201, 210, 216, 225, 230, 250, 255, 85, 170), (N >= 4 && (N >= 16 || K == 0 || K == 228 || K == 1 || K == 4)), (), (), (const RepartitionToWide<D> dw; PUT(0, dw, hn::SumsOfShuffledQuadAbsDiff<(K >> 6) & 3, (K >> 4) & 3, (K >> 2) & 3, K & 3>(VA, VB))),
  (using TW = MakeWide<T>; TW* R = cx.template Res<TW>(0, N / 2); T S[64]; const size_t q4 = N / 4; for (size_t i = 0; i < N; ++i) { const size_t w = i / 4; const size_t src = (w & ~size_t(3)) + P4I(w & 3); S[i] = src < q4 ? A[src * 4 + (i & 3)] : T(0); }
   for (size_t i = 0; i < N / 2; ++i) { R[i] = 0; const size_t ai = (i / 4) * 8 + (i & 3); const size_t bi = (i / 2) * 4;
     if (N < 16 && (ai + 3 >= N || P4I(0) >= int(q4) || (i > 0 && P4I(1) >= int(q4)))) { cx.DC(0, i); continue; }
     int s = 0; for (size_t j = 0; j < 4; ++j) s += std::abs(int(S[ai + j]) - int(B[bi + j])); R[i] = TW(s); }))

// consecutive pairs of a and b, packed per 128-bit block: half a, half b
#define PW128(OPN) (const size_t h = 8 / sizeof(T); LANEFZ(((i / h) & 1) == 0 ? OPN(A, i / (2 * h) * 2 * h + 2 * (i % h)) : OPN(B, i / (2 * h) * 2 * h + 2 * (i % h))))
#ifdef VF_ORACLE
#define PWADD(X, j) AddT(X[j], X[(j) + 1])
#define PWSUB(X, j) SubT(X[(j) + 1], X[j])
#endif
OP(PairwiseAdd128, (L_UI163264), (N * sizeof(T) >= 16), (), (OUT(hn::PairwiseAdd128(d, VA, VB))), PW128(PWADD))
OP(FPairwiseAdd128, (L_F3264), (N * sizeof(T) >= 16), (), (OUT(hn::PairwiseAdd128(d, VA, VB))), PW128(PWADD))
OP(PairwiseSub128, (L_UI163264), (N * sizeof(T) >= 16), (), (OUT(hn::PairwiseSub128(d, VA, VB))), PW128(PWSUB))
OP(FPairwiseSub128, (L_F3264), (N * sizeof(T) >= 16), (), (OUT(hn::PairwiseSub128(d, VA, VB))), PW128(PWSUB))
#endif
