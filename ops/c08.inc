// C08: permutations, lane access, vector construction.
#define OP(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (), FIX, KERNEL, ORACLE)
#ifdef VF_ORACLE
inline uint64_t Hx(int64_t p, size_t i) { uint64_t z = uint64_t(p) + (i + 1) * 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
#endif
#define BS (16 / sizeof(T))                     // lanes per full block
#define LB (N < BS ? N : BS)                    // lanes per block of this vector
#define VBYTES (N * sizeof(T))
#define PERM(...) LANE(__VA_ARGS__)
#define HALFK const Half<D> dh;

// ---- lane access / construction
OP(GetLane, (L_ALLS), (true), (), (OUTS(0, hn::GetLane(VA))), (cx.template Res<T>(0, 1)[0] = A[0];))
OP(ExtractLane, (L_ALLS), (true), (P[0] = int64_t(uint64_t(P[0]) % N);), (OUTS(0, hn::ExtractLane(VA, size_t(PI(0))))), (cx.template Res<T>(0, 1)[0] = A[P[0]];))
OP(InsertLane, (L_ALLS), (true), (P[0] = int64_t(uint64_t(P[0]) % N);), (OUT(hn::InsertLane(VA, size_t(PI(0)), hn::GetLane(VB)))), (PERM(i == size_t(P[0]) ? B[0] : a)))
#define LANEKS (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 23, 24, 27, 31, 32, 33, 39, 40, 47, 48, 55, 62, 63)
OPK(ExtractLaneK, (L_ALLS), (0, 1, 2, 3, 5, 6, 7, 8, 11, 15, 16, 31, 63), (K < int(N)), (), (), (OUTS(0, hn::ExtractLane(VA, size_t(K)))), (cx.template Res<T>(0, 1)[0] = A[K];))
OPK(InsertLaneK, (L_ALLS), (0, 1, 2, 3, 5, 6, 7, 8, 11, 15, 16, 31, 63), (K < int(N)), (), (), (OUT(hn::InsertLane(VA, size_t(K), hn::GetLane(VB)))), (PERM(i == size_t(K) ? B[0] : a)))
OP(Set, (L_ALLS), (true), (), (OUT(hn::Set(d, hn::GetLane(VA)))), (PERM(A[0])))
OP(ZeroV, (L_ALLS), (true), (), (OUT(hn::Zero(d))), (PERM(FZero<T>())))
OP(Iota, (L_UI), (true), (), (OUT(hn::Iota(d, hn::GetLane(VA)))), (PERM(T(TU(TU(A[0]) + TU(i))))))
OP(FIota, (L_F), (true), (A[0] = Rnd<T>(double(int64_t(Hx(P[0], 1) % 1001) - 500));), (OUT(hn::Iota(d, hn::GetLane(VA)))), (PERM(Rnd<T>(W(A[0]) + (decltype(W(a)))i))))
OP(InfV, (L_F), (true), (), (OUT(hn::Inf(d))), (PERM(FromBits<T>(TU(((TU(1) << (sizeof(T) * 8 - 1 - MantBits<T>())) - 1)) << MantBits<T>()))))
OP(NaNV, (L_F), (true), (), (OUT(hn::NaN(d))), (cx.template Res<T>(0, N, kFlt); for (size_t i = 0; i < N; ++i) { cx.DC(0, i); if (!IsNan(cx.template Got<T>(0)[i])) cx.fail = "NaN(d) is not NaN"; }))
OP(SignBitV, (L_F), (true), (), (OUT(hn::SignBit(d))), (PERM(FromBits<T>(SignBit<T>()))))
#define LNS(v, k) hn::ExtractLane(v, k)
OPK(Dup128_8, (L_UI8), (0), (true), (s.count[0] = 16;), (), (T q[16]; memcpy(q, in.r[0], 16); OUT(hn::Dup128VecFromValues(d, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8], q[9], q[10], q[11], q[12], q[13], q[14], q[15]))), (PERM(A[i % 16])))
#define L_DUP16 TL<uint16_t, int16_t, float16_t, bfloat16_t>
OPK(Dup128_16, (L_DUP16), (0), (true), (s.count[0] = 8;), (), (T q[8]; memcpy(q, in.r[0], 16); OUT(hn::Dup128VecFromValues(d, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]))), (PERM(A[i % 8])))
#define L_DUP32 TL<uint32_t, int32_t, float>
OPK(Dup128_32, (L_DUP32), (0), (true), (s.count[0] = 4;), (), (T q[4]; memcpy(q, in.r[0], 16); OUT(hn::Dup128VecFromValues(d, q[0], q[1], q[2], q[3]))), (PERM(A[i % 4])))
#define L_DUP64 TL<uint64_t, int64_t, double>
OPK(Dup128_64, (L_DUP64), (0), (true), (s.count[0] = 2;), (), (T q[2]; memcpy(q, in.r[0], 16); OUT(hn::Dup128VecFromValues(d, q[0], q[1]))), (PERM(A[i % 2])))
OP(Tuple2, (L_ALL), (true), (), (auto t = hn::Create2(d, VA, VB); PUT(0, d, hn::Get2<0>(t)) PUT(1, d, hn::Get2<1>(t)) t = hn::Set2<1>(t, VC); PUT(2, d, hn::Get2<1>(t)) PUT(3, d, hn::Get2<0>(t))),
  (T* R = cx.template Res<T>(0, N); T* R1 = cx.template Res<T>(1, N); T* R2 = cx.template Res<T>(2, N); T* R3 = cx.template Res<T>(3, N); for (size_t i = 0; i < N; ++i) { R[i] = A[i]; R1[i] = B[i]; R2[i] = C[i]; R3[i] = A[i]; }))
OP(Tuple3, (L_ALL), (true), (), (auto t = hn::Create3(d, VA, VB, VC); PUT(0, d, hn::Get3<0>(t)) PUT(1, d, hn::Get3<1>(t)) PUT(2, d, hn::Get3<2>(t)) t = hn::Set3<0>(t, VD); PUT(3, d, hn::Get3<0>(t))),
  (T* R = cx.template Res<T>(0, N); T* R1 = cx.template Res<T>(1, N); T* R2 = cx.template Res<T>(2, N); T* R3 = cx.template Res<T>(3, N); for (size_t i = 0; i < N; ++i) { R[i] = A[i]; R1[i] = B[i]; R2[i] = C[i]; R3[i] = D[i]; }))
OP(Tuple4, (L_ALL), (true), (), (auto t = hn::Create4(d, VA, VB, VC, VD); PUT(0, d, hn::Get4<0>(t)) PUT(1, d, hn::Get4<1>(t)) PUT(2, d, hn::Get4<2>(t)) PUT(3, d, hn::Get4<3>(t))),
  (T* R = cx.template Res<T>(0, N); T* R1 = cx.template Res<T>(1, N); T* R2 = cx.template Res<T>(2, N); T* R3 = cx.template Res<T>(3, N); for (size_t i = 0; i < N; ++i) { R[i] = A[i]; R1[i] = B[i]; R2[i] = C[i]; R3[i] = D[i]; }))

// ---- reverse
OP(Reverse, (L_ALLS), (true), (), (OUT(hn::Reverse(d, VA))), (PERM(A[N - 1 - i])))
OP(Reverse2, (L_ALLS), (N >= 2), (), (OUT(hn::Reverse2(d, VA))), (PERM(A[i ^ 1])))
OP(Reverse4, (L_ALLS), (N >= 4), (), (OUT(hn::Reverse4(d, VA))), (PERM(A[i ^ 3])))
OP(Reverse8, (L_ALLS), (N >= 8), (), (OUT(hn::Reverse8(d, VA))), (PERM(A[i ^ 7])))
OP(ReverseBlocks, (L_ALL), (true), (), (OUT(hn::ReverseBlocks(d, VA))), (PERM(A[(N / LB - 1 - i / LB) * LB + i % LB])))

// ---- slides
OP(SlideUpLanes, (L_ALL), (true), (P[0] = int64_t(Hx(P[0], 0) % N);), (OUT(hn::SlideUpLanes(d, VA, size_t(PI(0))))), (PERM(i < size_t(P[0]) ? FZero<T>() : A[i - size_t(P[0])])))
OP(SlideDownLanes, (L_ALL), (true), (P[0] = int64_t(Hx(P[0], 0) % N);), (OUT(hn::SlideDownLanes(d, VA, size_t(PI(0))))), (PERM(i + size_t(P[0]) < N ? A[i + size_t(P[0])] : FZero<T>())))
OPK(SlideUpLanesK, (L_UIF3264), LANEKS, (K < int(N) && (K <= 17 || sizeof(T) == 1)), (), (), (OUT(hn::SlideUpLanes(d, VA, size_t(K)))), (PERM(i < size_t(K) ? FZero<T>() : A[i - size_t(K)])))
OPK(SlideDownLanesK, (L_UIF3264), LANEKS, (K < int(N) && (K <= 17 || sizeof(T) == 1)), (), (), (OUT(hn::SlideDownLanes(d, VA, size_t(K)))), (PERM(i + size_t(K) < N ? A[i + size_t(K)] : FZero<T>())))
OPK(SlideUpLanesN, (TL<uint8_t, uint16_t>), LANEKS, (K < int(N)), (), (), (OUT(hn::SlideUpLanes(d, VA, size_t(K)))), (PERM(i < size_t(K) ? FZero<T>() : A[i - size_t(K)])))
OPK(SlideDownLanesN, (TL<uint8_t, uint16_t>), LANEKS, (K < int(N)), (), (), (OUT(hn::SlideDownLanes(d, VA, size_t(K)))), (PERM(i + size_t(K) < N ? A[i + size_t(K)] : FZero<T>())))
OP(Slide1Up, (L_ALL), (true), (), (OUT(hn::Slide1Up(d, VA))), (PERM(i == 0 ? FZero<T>() : A[i - 1])))
OP(Slide1Down, (L_ALL), (true), (), (OUT(hn::Slide1Down(d, VA))), (PERM(i + 1 < N ? A[i + 1] : FZero<T>())))
OPK(SlideUpBlocks, (L_ALL), (0, 1, 2, 3), (K == 0 || K * 16 < int(VBYTES)), (), (), (OUT(hn::SlideUpBlocks<K>(d, VA))), (PERM(i < K * LB ? FZero<T>() : A[i - K * LB])))
OPK(SlideDownBlocks, (L_ALL), (0, 1, 2, 3), (K == 0 || K * 16 < int(VBYTES)), (), (), (OUT(hn::SlideDownBlocks<K>(d, VA))), (PERM(i + K * LB < N ? A[i + K * LB] : FZero<T>())))

// ---- broadcast
OPK(BroadcastLane, (L_ALL), LANEKS, (K < int(N)), (), (), (OUT(hn::BroadcastLane<K>(VA))), (PERM(A[K])))
OPK(Broadcast, (L_ALL), (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15), (K < int(LB)), (), (), (OUT(hn::Broadcast<K>(VA))), (PERM(A[i / LB * LB + K])))
OPK(BroadcastBlock, (L_ALL), (0, 1, 2, 3), (K == 0 || K * 16 < int(VBYTES)), (), (), (OUT(hn::BroadcastBlock<K>(VA))), (PERM(A[K * LB + i % LB])))
OPK(ExtractBlock, (L_ALL), (0, 1, 2, 3), (K == 0 || K * 16 < int(VBYTES)), (), (), (const Simd<T, LB, 0> db; PUT(0, db, hn::ExtractBlock<K>(VA))), (T* R = cx.template Res<T>(0, LB); for (size_t i = 0; i < LB; ++i) R[i] = A[K * LB + i];))
OPK(InsertBlock, (L_ALL), (0, 1, 2, 3), (K == 0 || K * 16 < int(VBYTES)), (), (), (const Simd<T, LB, 0> db; OUT(hn::InsertBlock<K>(VA, VX(db, 1)))), (PERM(i / LB == size_t(K) ? B[i % LB] : a)))

// ---- fixed patterns
OP(OddEven, (L_ALL), (true), (), (OUT(hn::OddEven(VA, VB))), (PERM((i & 1) ? a : b)))
OP(DupEven, (L_ALL), (true), (), (OUT(hn::DupEven(VA))), (PERM(A[i & ~size_t(1)])))
OP(OddEvenBlocks, (L_ALL), (true), (), (OUT(hn::OddEvenBlocks(VA, VB))), (PERM((i / LB) & 1 ? a : b)))
#if HWY_TARGET != HWY_SCALAR || VF_ORACLE
OP(DupOdd, (L_ALL), (N >= 2), (), (OUT(hn::DupOdd(VA))), (PERM(A[i | 1])))
OP(SwapAdjacentBlocks, (L_ALL), (VBYTES >= 32), (), (OUT(hn::SwapAdjacentBlocks(VA))), (PERM(A[i ^ LB])))
OP(InterleaveEvenBlocks, (L_ALL), (VBYTES >= 32), (), (OUT(hn::InterleaveEvenBlocks(d, VA, VB))), (const size_t lb = LB; PERM((i / lb) & 1 ? B[i - lb] : a)))
OP(InterleaveOddBlocks, (L_ALL), (VBYTES >= 32), (), (OUT(hn::InterleaveOddBlocks(d, VA, VB))), (const size_t lb = LB; PERM((i / lb) & 1 ? b : A[i + lb])))
#define L_32 TL<uint32_t, int32_t, float>
#define L_64 TL<uint64_t, int64_t, double>
#define SHUF4(NAME, X3, X2, X1, X0) OP(NAME, (L_32), (N >= 4), (), (OUT(hn::NAME(VA))), (static const size_t kI[4] = {X0, X1, X2, X3}; PERM(A[(i & ~size_t(3)) + kI[i & 3]])))
SHUF4(Shuffle1032, 1, 0, 3, 2)
SHUF4(Shuffle0321, 0, 3, 2, 1)
SHUF4(Shuffle2103, 2, 1, 0, 3)
SHUF4(Shuffle2301, 2, 3, 0, 1)
SHUF4(Shuffle0123, 0, 1, 2, 3)
OP(Shuffle01, (L_64), (N >= 2), (), (OUT(hn::Shuffle01(VA))), (PERM(A[i ^ 1])))

// ---- halves
OP(LowerHalf, (L_ALLS), (N >= 2), (), (HALFK PUT(0, dh, hn::LowerHalf(dh, VA)) PUT(1, dh, hn::LowerHalf(VA))), (T* R = cx.template Res<T>(0, N / 2); T* R1 = cx.template Res<T>(1, N / 2); for (size_t i = 0; i < N / 2; ++i) R[i] = R1[i] = A[i];))
OP(UpperHalf, (L_ALLS), (N >= 2), (), (HALFK PUT(0, dh, hn::UpperHalf(dh, VA))), (T* R = cx.template Res<T>(0, N / 2); for (size_t i = 0; i < N / 2; ++i) R[i] = A[N / 2 + i];))
OPK(ZeroExtendVector, (L_ALLS), (0), (N >= 2), (s.count[0] = int(N / 2);), (), (HALFK OUT(hn::ZeroExtendVector(d, VX(dh, 0)))), (PERM(i < N / 2 ? A[i] : FZero<T>())))
OPK(Combine, (L_ALLS), (0), (N >= 2), (s.count[0] = s.count[1] = int(N / 2);), (), (HALFK OUT(hn::Combine(d, VX(dh, 0), VX(dh, 1)))), (PERM(i < N / 2 ? B[i] : A[i - N / 2])))
OP(ConcatLowerLower, (L_ALL), (N >= 2), (), (OUT(hn::ConcatLowerLower(d, VA, VB))), (PERM(i < N / 2 ? B[i] : A[i - N / 2])))
OP(ConcatUpperUpper, (L_ALL), (N >= 2), (), (OUT(hn::ConcatUpperUpper(d, VA, VB))), (PERM(i < N / 2 ? B[i + N / 2] : A[i])))
OP(ConcatLowerUpper, (L_ALL), (N >= 2), (), (OUT(hn::ConcatLowerUpper(d, VA, VB))), (PERM(i < N / 2 ? B[i + N / 2] : A[i - N / 2])))
OP(ConcatUpperLower, (L_ALL), (N >= 2), (), (OUT(hn::ConcatUpperLower(d, VA, VB))), (PERM(i < N / 2 ? B[i] : A[i])))
OP(ConcatOdd, (L_ALL), (N >= 2), (), (OUT(hn::ConcatOdd(d, VA, VB))), (PERM(i < N / 2 ? B[2 * i + 1] : A[2 * (i - N / 2) + 1])))
OP(ConcatEven, (L_ALL), (N >= 2), (), (OUT(hn::ConcatEven(d, VA, VB))), (PERM(i < N / 2 ? B[2 * i] : A[2 * (i - N / 2)])))
OP(InterleaveWholeLower, (L_ALL), (N >= 2), (), (PUT(0, d, hn::InterleaveWholeLower(d, VA, VB)) PUT(1, d, hn::InterleaveWholeLower(VA, VB))), (PERM((i & 1) ? B[i / 2] : A[i / 2]) memcpy(cx.template Res<T>(1, N), cx.ex.r[0], 128);))
OP(InterleaveWholeUpper, (L_ALL), (N >= 2), (), (OUT(hn::InterleaveWholeUpper(d, VA, VB))), (PERM((i & 1) ? B[N / 2 + i / 2] : A[N / 2 + i / 2])))

// ---- interleave within blocks
OP(InterleaveLower, (L_ALL), (N >= 2), (), (PUT(0, d, hn::InterleaveLower(d, VA, VB)) PUT(1, d, hn::InterleaveLower(VA, VB))), (const size_t lb = LB; PERM(((i & 1) ? B : A)[i / lb * lb + (i % lb) / 2]) memcpy(cx.template Res<T>(1, N), cx.ex.r[0], 128);))
OP(InterleaveUpper, (L_ALL), (N >= 2), (), (OUT(hn::InterleaveUpper(d, VA, VB))), (const size_t lb = LB; PERM(((i & 1) ? B : A)[i / lb * lb + lb / 2 + (i % lb) / 2])))
OP(InterleaveEven, (L_ALL), (N >= 2), (), (PUT(0, d, hn::InterleaveEven(d, VA, VB)) PUT(1, d, hn::InterleaveEven(VA, VB))), (PERM((i & 1) ? B[i - 1] : a) memcpy(cx.template Res<T>(1, N), cx.ex.r[0], 128);))
OP(InterleaveOdd, (L_ALL), (N >= 2), (), (OUT(hn::InterleaveOdd(d, VA, VB))), (PERM((i & 1) ? b : A[i + 1])))
OP(ZipLower, (L_UI8_32), (N >= 2), (), (const RepartitionToWide<D> dw; PUT(0, dw, hn::ZipLower(dw, VA, VB)) PUT(1, dw, hn::ZipLower(VA, VB))), (const size_t lb = LB; PERM(((i & 1) ? B : A)[i / lb * lb + (i % lb) / 2]) memcpy(cx.template Res<T>(1, N), cx.ex.r[0], 128);))
OP(ZipUpper, (L_UI8_32), (N >= 2), (), (const RepartitionToWide<D> dw; PUT(0, dw, hn::ZipUpper(dw, VA, VB))), (const size_t lb = LB; PERM(((i & 1) ? B : A)[i / lb * lb + lb / 2 + (i % lb) / 2])))

// ---- shifts within blocks
#define BYTEKS (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15)
#define BB (LB * sizeof(T))
#ifdef VF_ORACLE
// byte-permutation result: EXPR gives byte j (absolute index) from byte arrays X (a) and Y (b)
#define BYTEPERM(...) { uint8_t* R = reinterpret_cast<uint8_t*>(cx.template Res<T>(0, N)); const uint8_t* X = in.r[0]; const uint8_t* Y = in.r[1]; (void)Y; const int bb = int(BB); (void)bb; for (int j = 0; j < int(N * sizeof(T)); ++j) { const int o = j / bb * bb; const int q = j - o; (void)o; (void)q; R[j] = uint8_t(__VA_ARGS__); } }
#endif
OPK(ShiftLeftBytes, (L_UI), BYTEKS, (K < int(BB)), (), (), (PUT(0, d, hn::ShiftLeftBytes<K>(d, VA))), (BYTEPERM(q < K ? 0 : X[o + q - K])))
OPK(ShiftLeftBytes1, (L_U), BYTEKS, (K < int(BB)), (), (), (PUT(0, d, hn::ShiftLeftBytes<K>(VA))), (BYTEPERM(q < K ? 0 : X[o + q - K])))
OPK(ShiftRightBytes, (L_UI), BYTEKS, (K < int(BB)), (), (), (PUT(0, d, hn::ShiftRightBytes<K>(d, VA))), (BYTEPERM(q + K < bb ? X[o + q + K] : 0)))
OPK(CombineShiftRightBytes, (L_UI), BYTEKS, (K < int(BB)), (), (), (PUT(0, d, hn::CombineShiftRightBytes<K>(d, VA, VB))), (BYTEPERM(q + K < bb ? Y[o + q + K] : X[o + q + K - bb])))
OPK(ShiftLeftLanes, (L_ALL), (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15), (K < int(LB)), (), (), (PUT(0, d, hn::ShiftLeftLanes<K>(d, VA)) PUT(1, d, hn::ShiftLeftLanes<K>(VA))), (const size_t lb = LB; PERM(i % lb < size_t(K) ? FZero<T>() : A[i - K]) memcpy(cx.template Res<T>(1, N), cx.ex.r[0], 128);))
OPK(ShiftRightLanes, (L_ALL), (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15), (K < int(LB)), (), (), (OUT(hn::ShiftRightLanes<K>(d, VA))), (const size_t lb = LB; PERM(i % lb + K < lb ? A[i + K] : FZero<T>())))
OPK(CombineShiftRightLanes, (L_ALL), (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15), (K < int(LB)), (), (), (OUT(hn::CombineShiftRightLanes<K>(d, VA, VB))), (const size_t lb = LB; PERM(i % lb + K < lb ? B[i + K] : A[i + K - lb])))

// ---- table lookups
// per-block byte tables; T2 = index lane type
#define L_TLB TL<TP<uint8_t, uint8_t>, TP<int8_t, uint8_t>, TP<uint16_t, uint16_t>, TP<int16_t, uint8_t>, TP<uint32_t, uint32_t>, TP<uint32_t, int8_t>, TP<int32_t, int16_t>, TP<uint64_t, uint64_t>, TP<int64_t, uint8_t>>
#define IXFIX(MASKHI) ({ uint8_t* X = in.r[1]; for (size_t j = 0; j < 64; ++j) { const uint64_t h = Hx(P[0], j); X[j] = uint8_t((h >> 8) % BB); if (MASKHI && (h & 3) == 0) X[j] = uint8_t(0x80 | (h >> 16)); } if (((P[1]) & 7) == 0) for (size_t j = 0; j < 64; ++j) X[j] = uint8_t((j + size_t(P[2] & 15)) % BB); if (((P[1]) & 7) == 1) for (size_t j = 0; j < 64; ++j) X[j] = uint8_t(BB - 1 - j % BB); })
#define TLBCOND (N * sizeof(T) >= sizeof(T2))
OPK(TableLookupBytes, (L_TLB), (0), TLBCOND, (s.type[1] = U8; s.count[1] = 64;), IXFIX(false), (const Repartition<T2, D> di; PUT(0, di, hn::TableLookupBytes(VA, VX(di, 1)))), (BYTEPERM(X[o + Y[j]])))
OPK(TableLookupBytesOr0, (L_TLB), (0), TLBCOND, (s.type[1] = U8; s.count[1] = 64;), IXFIX(true), (const Repartition<T2, D> di; PUT(0, di, hn::TableLookupBytesOr0(VA, VX(di, 1)))), (BYTEPERM((Y[j] & 0x80) ? 0 : X[o + Y[j]])))
// table with at least 16 bytes, K-byte partial index vector
#define TLPCOND (N * sizeof(T) >= 16 && N * sizeof(T) > K && K >= int(sizeof(T2)))
#ifdef VF_ORACLE
#define BYTEPERMK(...) { uint8_t* R = cx.template Res<uint8_t>(0, K); const uint8_t* X = in.r[0]; const uint8_t* Y = in.r[1]; for (int j = 0; j < K; ++j) R[j] = uint8_t(__VA_ARGS__); }
#endif
OPK(TableLookupBytesPartial, (L_TLB), (1, 2, 4, 8, 16, 32), TLPCOND, (s.type[1] = U8; s.count[1] = K;), IXFIX(false), (if constexpr (TLPCOND) { const Simd<T2, K / sizeof(T2), 0> di; PUT(0, di, hn::TableLookupBytes(VA, VX(di, 1))) }), (BYTEPERMK(X[j / 16 * 16 + Y[j]])))
OPK(TableLookupBytesOr0Partial, (L_TLB), (1, 2, 4, 8, 16, 32), TLPCOND, (s.type[1] = U8; s.count[1] = K;), IXFIX(true), (if constexpr (TLPCOND) { const Simd<T2, K / sizeof(T2), 0> di; PUT(0, di, hn::TableLookupBytesOr0(VA, VX(di, 1))) }), (BYTEPERMK((Y[j] & 0x80) ? 0 : X[j / 16 * 16 + Y[j]])))
// partial table (< 16 bytes), 16-byte index vector
OPK(TableLookupBytesSmallTable, (L_TLB), (16), (N * sizeof(T) < 16), (s.type[1] = U8; s.count[1] = 16;), IXFIX(false), (const Simd<T2, 16 / sizeof(T2), 0> di; PUT(0, di, hn::TableLookupBytes(VA, VX(di, 1)))), (BYTEPERMK(X[Y[j]])))
#endif  // !SCALAR
#define LIXFIX(LIM) ({ TU* X = reinterpret_cast<TU*>(C); for (size_t i = 0; i < N; ++i) X[i] = TU(Hx(P[0], i) % (LIM)); if ((P[1] & 7) == 0) for (size_t i = 0; i < N; ++i) X[i] = TU((i + (uint64_t(P[2]) & 255)) % (LIM)); if ((P[1] & 7) == 1) for (size_t i = 0; i < N; ++i) X[i] = TU((LIM) - 1 - i); if ((P[1] & 7) == 2) for (size_t i = 0; i < N; ++i) X[i] = TU((uint64_t(P[2]) & 255) % (LIM)); })
OPK(TableLookupLanes, (L_ALL), (0), (true), (s.weight = 8;), LIXFIX(N), (OUT(hn::TableLookupLanes(VA, hn::IndicesFromVec(d, VX(du, 2))))), (const TU* X = (const TU*)C; PERM(A[X[i]])))
OPK(TableLookupLanesSet, (L_ALL), (0), (true), (s.weight = 8;), LIXFIX(N), (OUT(hn::TableLookupLanes(VA, hn::SetTableIndices(d, reinterpret_cast<const hwy::MakeSigned<T>*>(in.r[2]))))), (const TU* X = (const TU*)C; PERM(A[X[i]])))
OPK(TwoTablesLookupLanes, (L_ALL), (0), (true), (s.weight = 8;), LIXFIX(2 * N), (OUT(hn::TwoTablesLookupLanes(d, VA, VB, hn::IndicesFromVec(d, VX(du, 2))))), (const TU* X = (const TU*)C; PERM(X[i] < N ? A[X[i]] : B[X[i] - N])))
OPK(TwoTablesLookupLanesSet, (L_ALL), (0), (true), (s.weight = 8;), LIXFIX(2 * N), (OUT(hn::TwoTablesLookupLanes(VA, VB, hn::SetTableIndices(d, reinterpret_cast<const TU*>(in.r[2]))))), (const TU* X = (const TU*)C; PERM(X[i] < N ? A[X[i]] : B[X[i] - N])))
