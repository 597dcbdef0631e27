// C07: conversions. Pair convention: T = destination lane, T2 = source lane.
#define L_SIMDF16 (VF_HAVE16)
#if defined(VF_ORACLE)
#define VF_F16 1
#else
#define VF_F16 HWY_HAVE_FLOAT16
#endif
#define SRC(CNT) (s.type[0] = TyOf<T2>(); s.count[0] = int(CNT); s.sweep = 1; s.weight = 24;)
#define SV(k) Ld(ds, in.r[k])
#define S_ const T2* S = reinterpret_cast<const T2*>(A); const T2* S2 = reinterpret_cast<const T2*>(B); (void)S; (void)S2;
#ifdef VF_ORACLE
template <typename To, typename From> To F2I(From x, int how) {  // how as RoundF
  const auto w = W(x);
  if (w != w) return To(0);
  const auto r = how == 0 ? std::nearbyint(w) : how == 1 ? std::trunc(w) : how == 2 ? std::ceil(w) : std::floor(w);
  const long double lo = (long double)std::numeric_limits<To>::min(), hi = (long double)std::numeric_limits<To>::max();
  return (long double)r <= lo ? std::numeric_limits<To>::min() : (long double)r >= hi ? std::numeric_limits<To>::max() : To(r);
}
template <typename To, typename From> bool InRangeT(From x) {
  const auto w = W(x);
  if (w != w) return false;
  const long double r = std::trunc((long double)w);
  return r >= (long double)std::numeric_limits<To>::min() && r <= (long double)std::numeric_limits<To>::max();
}
template <typename To, typename From> To CvT(From x) {
  if constexpr (!IsFloat<To>() && !IsFloat<From>()) return Sat<To>(i128(x));
  else if constexpr (!IsFloat<To>()) return F2I<To>(x, 1);
  else if constexpr (!IsFloat<From>()) {
    if constexpr (std::is_same<To, float16_t>()) { _Float16 h = (_Float16)x; To t; memcpy(&t, &h, 2); return t; }
    else return To(x);
  } else if constexpr (std::is_same<To, float16_t>() && std::is_same<From, double>()) return F64ToF16(x);
  else if constexpr (std::is_same<To, float16_t>()) return F32ToF16(W(x));
  else if constexpr (std::is_same<To, bfloat16_t>()) return F32ToBF16(W(x));
  else return To(W(x));
}
inline bfloat16_t TruncBF(float x) { bfloat16_t b; b.bits = uint16_t(Bits(x) >> 16); if (x != x) b.bits |= 0x40; return b; }
template <typename To, typename From> To CvAlt(From x) { 
  if constexpr (std::is_same<To, bfloat16_t>()) return TruncBF(x);
  // f64 -> f32 overflow: EMU128/SCALAR deliberately clamp to the largest finite
  // value, other targets return infinity; the documentation fixes neither.
  else if constexpr (std::is_same<To, float>() && std::is_same<From, double>()) return std::fabs(x) > 3.4028234663852886e38 ? To(x < 0 ? -FLT_MAX : FLT_MAX) : To(x);
  else return CvT<To>(x);
}
template <typename T2> bool SubnF32(T2 x) { if constexpr (std::is_same<T2, float>()) return x != 0 && std::fabs(x) < 0x1p-126f; else return false; }
#endif
// per-lane conversion of S[IDX]
#define CVL(IDX, EXPR, ALTEXPR, DCEXPR) \
  S_ { T* R = cx.template Res<T>(0, N, kFlt); for (size_t i = 0; i < N; ++i) { const T2 x = (IDX); (void)x; R[i] = (EXPR); } } \
  { T* R = cx.template Alt<T>(0); for (size_t i = 0; i < N; ++i) { const T2 x = (IDX); (void)x; R[i] = (ALTEXPR); } } \
  for (size_t i = 0; i < N; ++i) { const T2 x = (IDX); (void)x; if (DCEXPR) cx.DC(0, i); }
// NaN -> integer unspecified; subnormal f32 -> bf16 may flush to zero.
#define STD_DC ((!IsFloat<T>() && IsNan(x)) || (std::is_same<T, bfloat16_t>() && SubnF32(x)))
#define CVSTD(IDX) (CVL(IDX, CvT<T>(x), CvAlt<T>(x), STD_DC))
#define KSAME const Rebind<T2, D> ds;
#define CONV(NAME, TYPES, COND, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, SRC(N), (), KERNEL, ORACLE)

// ---- same-size
#if VF_F16
#define L_I2F TL<TP<float, int32_t>, TP<float, uint32_t>, TP<double, int64_t>, TP<double, uint64_t>, TP<float16_t, int16_t>, TP<float16_t, uint16_t>>
#define L_F2I TL<TP<int32_t, float>, TP<uint32_t, float>, TP<int64_t, double>, TP<uint64_t, double>, TP<int16_t, float16_t>, TP<uint16_t, float16_t>>
#define L_F2S TL<TP<int32_t, float>, TP<int64_t, double>, TP<int16_t, float16_t>>
#else
#define L_I2F TL<TP<float, int32_t>, TP<float, uint32_t>, TP<double, int64_t>, TP<double, uint64_t>>
#define L_F2I TL<TP<int32_t, float>, TP<uint32_t, float>, TP<int64_t, double>, TP<uint64_t, double>>
#define L_F2S TL<TP<int32_t, float>, TP<int64_t, double>>
#endif
CONV(ConvertIntToFloat, (L_I2F), (true), (KSAME OUT(hn::ConvertTo(d, SV(0)))), CVSTD(S[i]))
CONV(ConvertFloatToInt, (L_F2I), (true), (KSAME OUT(hn::ConvertTo(d, SV(0)))), CVSTD(S[i]))
CONV(ConvertInRangeTo, (L_F2I), (true), (KSAME OUT(hn::ConvertInRangeTo(d, SV(0)))), (CVL(S[i], CvT<T>(x), CvT<T>(x), !InRangeT<T>(x))))
CONV(MaskedConvertToF, (L_I2F), (true), (KSAME OUT(hn::MaskedConvertTo(MK, d, SV(0)))), (CVL(S[i], M[i] ? CvT<T>(x) : FZero<T>(), M[i] ? CvT<T>(x) : FZero<T>(), false)))
CONV(MaskedConvertToI, (L_F2I), (true), (KSAME OUT(hn::MaskedConvertTo(MK, d, SV(0)))), (CVL(S[i], M[i] ? CvT<T>(x) : T(0), M[i] ? CvT<T>(x) : T(0), M[i] && IsNan(x))))
CONV(NearestInt, (L_F2S), (true), (KSAME OUT(hn::NearestInt(SV(0)))), (CVL(S[i], (F2I<T>(x, 0)), (F2I<T>(x, 0)), IsNan(x))))
CONV(CeilInt, (L_F2S), (true), (KSAME OUT(hn::CeilInt(SV(0)))), (CVL(S[i], (F2I<T>(x, 2)), (F2I<T>(x, 2)), IsNan(x))))
CONV(FloorInt, (L_F2S), (true), (KSAME OUT(hn::FloorInt(SV(0)))), (CVL(S[i], (F2I<T>(x, 3)), (F2I<T>(x, 3)), IsNan(x))))

// ---- single-vector demotion
#define L_TRUNC TL<TP<uint32_t, uint64_t>, TP<uint16_t, uint64_t>, TP<uint8_t, uint64_t>, TP<uint16_t, uint32_t>, TP<uint8_t, uint32_t>, TP<uint8_t, uint16_t>>
#define L_DEMI TL<TP<int8_t, int16_t>, TP<int8_t, int32_t>, TP<int8_t, int64_t>, TP<int16_t, int32_t>, TP<int16_t, int64_t>, TP<int32_t, int64_t>, \
                  TP<int8_t, uint16_t>, TP<int8_t, uint32_t>, TP<int8_t, uint64_t>, TP<int16_t, uint32_t>, TP<int16_t, uint64_t>, TP<int32_t, uint64_t>, \
                  TP<uint8_t, int16_t>, TP<uint8_t, int32_t>, TP<uint8_t, int64_t>, TP<uint16_t, int32_t>, TP<uint16_t, int64_t>, TP<uint32_t, int64_t>, \
                  TP<uint8_t, uint16_t>, TP<uint8_t, uint32_t>, TP<uint8_t, uint64_t>, TP<uint16_t, uint32_t>, TP<uint16_t, uint64_t>, TP<uint32_t, uint64_t>>
#define L_DEMF TL<TP<float, double>, TP<int32_t, double>, TP<uint32_t, double>, TP<float, int64_t>, TP<float, uint64_t>, TP<float16_t, float>, TP<float16_t, double>, TP<bfloat16_t, float>>
#define L_F64I32 TL<TP<int32_t, double>, TP<uint32_t, double>>
CONV(TruncateTo, (L_TRUNC), (true), (KSAME OUT(hn::TruncateTo(d, SV(0)))), (CVL(S[i], T(x), T(x), false)))
CONV(DemoteToInt, (L_DEMI), (true), (KSAME OUT(hn::DemoteTo(d, SV(0)))), CVSTD(S[i]))
CONV(DemoteToFloat, (L_DEMF), (true), (KSAME OUT(hn::DemoteTo(d, SV(0)))), CVSTD(S[i]))
CONV(DemoteInRangeTo, (L_F64I32), (true), (KSAME OUT(hn::DemoteInRangeTo(d, SV(0)))), (CVL(S[i], CvT<T>(x), CvT<T>(x), !InRangeT<T>(x))))
#define L_F64S32 TL<TP<int32_t, double>>
CONV(DemoteToNearestInt, (L_F64S32), (true), (KSAME OUT(hn::DemoteToNearestInt(d, SV(0)))), (CVL(S[i], (F2I<T>(x, 0)), (F2I<T>(x, 0)), IsNan(x))))
#define L_U8U32 TL<TP<uint8_t, uint32_t>>
OPK(U8FromU32, (L_U8U32), (0), (true), SRC(N), ({ uint32_t* u = reinterpret_cast<uint32_t*>(in.r[0]); for (size_t i = 0; i < N; ++i) u[i] &= 255; }), (KSAME OUT(hn::U8FromU32(SV(0)))), (CVL(S[i], T(x), T(x), false)))

// ---- promotion
#define L_PROI TL<TP<uint16_t, uint8_t>, TP<uint32_t, uint8_t>, TP<uint64_t, uint8_t>, TP<uint32_t, uint16_t>, TP<uint64_t, uint16_t>, TP<uint64_t, uint32_t>, \
                  TP<int16_t, uint8_t>, TP<int32_t, uint8_t>, TP<int64_t, uint8_t>, TP<int32_t, uint16_t>, TP<int64_t, uint16_t>, TP<int64_t, uint32_t>, \
                  TP<int16_t, int8_t>, TP<int32_t, int8_t>, TP<int64_t, int8_t>, TP<int32_t, int16_t>, TP<int64_t, int16_t>, TP<int64_t, int32_t>>
#define L_PROF TL<TP<float, float16_t>, TP<float, bfloat16_t>, TP<double, float>, TP<double, int32_t>, TP<double, uint32_t>, TP<int64_t, float>, TP<uint64_t, float>>
#define L_PROF16D TL<TP<double, float16_t>>
#define L_PROR TL<TP<int64_t, float>, TP<uint64_t, float>>
CONV(PromoteToInt, (L_PROI), (true), (KSAME OUT(hn::PromoteTo(d, SV(0)))), CVSTD(S[i]))
CONV(PromoteToFloat, (L_PROF), (true), (KSAME OUT(hn::PromoteTo(d, SV(0)))), CVSTD(S[i]))
CONV(PromoteToF16F64, (L_PROF16D), (true), (KSAME OUT(hn::PromoteTo(d, SV(0)))), CVSTD(S[i]))
CONV(PromoteInRangeTo, (L_PROR), (true), (KSAME OUT(hn::PromoteInRangeTo(d, SV(0)))), (CVL(S[i], CvT<T>(x), CvT<T>(x), !InRangeT<T>(x))))
// source has twice as many lanes
#define N2 (SCALAR_T ? 1 : 2 * N)
#define KDBL const Simd<T2, N2, 0> ds;
#define CONV2(NAME, TYPES, COND, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, SRC(N2), (), KERNEL, ORACLE)
CONV2(PromoteLowerToInt, (L_PROI), (true), (KDBL OUT(hn::PromoteLowerTo(d, SV(0)))), CVSTD(S[i]))
CONV2(PromoteLowerToFloat, (L_PROF), (true), (KDBL OUT(hn::PromoteLowerTo(d, SV(0)))), CVSTD(S[i]))
CONV2(PromoteInRangeLowerTo, (L_PROR), (true), (KDBL OUT(hn::PromoteInRangeLowerTo(d, SV(0)))), (CVL(S[i], CvT<T>(x), CvT<T>(x), !InRangeT<T>(x))))
#define L_EVI TL<TP<uint16_t, uint8_t>, TP<uint32_t, uint16_t>, TP<uint64_t, uint32_t>, TP<int16_t, int8_t>, TP<int32_t, int16_t>, TP<int64_t, int32_t>, TP<int16_t, uint8_t>, TP<int32_t, uint16_t>, TP<int64_t, uint32_t>>
CONV2(PromoteEvenToInt, (L_EVI), (true), (KDBL OUT(hn::PromoteEvenTo(d, SV(0)))), CVSTD(S[2 * i]))
CONV2(PromoteEvenToFloat, (L_PROF), (true), (KDBL OUT(hn::PromoteEvenTo(d, SV(0)))), CVSTD(S[2 * i]))
CONV2(PromoteInRangeEvenTo, (L_PROR), (true), (KDBL OUT(hn::PromoteInRangeEvenTo(d, SV(0)))), (CVL(S[2 * i], CvT<T>(x), CvT<T>(x), !InRangeT<T>(x))))
#if HWY_TARGET != HWY_SCALAR || VF_ORACLE
CONV2(PromoteUpperToInt, (L_PROI), (true), (KDBL OUT(hn::PromoteUpperTo(d, SV(0)))), CVSTD(S[N + i]))
CONV2(PromoteUpperToFloat, (L_PROF), (true), (KDBL OUT(hn::PromoteUpperTo(d, SV(0)))), CVSTD(S[N + i]))
CONV2(PromoteInRangeUpperTo, (L_PROR), (true), (KDBL OUT(hn::PromoteInRangeUpperTo(d, SV(0)))), (CVL(S[N + i], CvT<T>(x), CvT<T>(x), !InRangeT<T>(x))))
CONV2(PromoteOddToInt, (L_EVI), (true), (KDBL OUT(hn::PromoteOddTo(d, SV(0)))), CVSTD(S[2 * i + 1]))
CONV2(PromoteOddToFloat, (L_PROF), (true), (KDBL OUT(hn::PromoteOddTo(d, SV(0)))), CVSTD(S[2 * i + 1]))
CONV2(PromoteInRangeOddTo, (L_PROR), (true), (KDBL OUT(hn::PromoteInRangeOddTo(d, SV(0)))), (CVL(S[2 * i + 1], CvT<T>(x), CvT<T>(x), !InRangeT<T>(x))))

// ---- two-vector demotion: destination N lanes from 2 x N/2
#define L_DEM2 TL<TP<int8_t, int16_t>, TP<int16_t, int32_t>, TP<int32_t, int64_t>, TP<int8_t, uint16_t>, TP<int16_t, uint32_t>, TP<int32_t, uint64_t>, \
                  TP<uint8_t, int16_t>, TP<uint16_t, int32_t>, TP<uint32_t, int64_t>, TP<uint8_t, uint16_t>, TP<uint16_t, uint32_t>, TP<uint32_t, uint64_t>, TP<bfloat16_t, float>>
#define L_TR2 TL<TP<uint8_t, uint16_t>, TP<uint16_t, uint32_t>, TP<uint32_t, uint64_t>>
#define SRC2 (s.type[0] = s.type[1] = TyOf<T2>(); s.count[0] = s.count[1] = int(N / 2); s.sweep = 1; s.weight = 24;)
#define KREP const Repartition<T2, D> ds;
OPK(OrderedDemote2To, (L_DEM2), (0), (N >= 2), SRC2, (), (KREP OUT(hn::OrderedDemote2To(d, SV(0), SV(1)))), CVSTD(i < N / 2 ? S[i] : S2[i - N / 2]))
OPK(OrderedTruncate2To, (L_TR2), (0), (N >= 2), SRC2, (), (KREP OUT(hn::OrderedTruncate2To(d, SV(0), SV(1)))), (CVL(i < N / 2 ? S[i] : S2[i - N / 2], T(x), T(x), false)))
// Output order is some permutation: compare multisets.
OPK(ReorderDemote2To, (L_DEM2), (0), (N >= 2), SRC2, (if (std::is_same<T, bfloat16_t>()) { float* f = reinterpret_cast<float*>(in.r[0]); float* g = reinterpret_cast<float*>(in.r[1]); for (size_t i = 0; i < N / 2; ++i) { if (!Normal(f[i])) f[i] = 1.5f; if (!Normal(g[i])) g[i] = -2.25f; } }),
  (KREP OUT(hn::ReorderDemote2To(d, SV(0), SV(1)))),
  (S_ T* R = cx.template Res<T>(0, N); MakeUnsigned<T> e1[64]; MakeUnsigned<T> e2[64]; MakeUnsigned<T> g[64];
   for (size_t i = 0; i < N; ++i) { const T2 x = i < N / 2 ? S[i] : S2[i - N / 2]; R[i] = CvT<T>(x); e1[i] = Bits(R[i]); e2[i] = Bits(CvAlt<T>(x)); g[i] = Bits(cx.template Got<T>(0)[i]); cx.DC(0, i); }
   std::sort(e1, e1 + N); std::sort(e2, e2 + N); std::sort(g, g + N);
   if (memcmp(e1, g, N * sizeof(T)) && memcmp(e2, g, N * sizeof(T))) cx.fail = "output is not a permutation of the demoted inputs";))
// The same reordering applies to all types of the same size (documented use: demote then restore).
#endif

// ---- bit casts
#define L_BC TL<TP<uint8_t, uint64_t>, TP<uint8_t, uint8_t>, TP<int8_t, float>, TP<uint16_t, uint8_t>, TP<uint16_t, int16_t>, TP<int16_t, double>, TP<uint32_t, int8_t>, TP<int32_t, float>, TP<float, uint64_t>, TP<float, int16_t>, TP<uint64_t, uint8_t>, TP<double, int64_t>, TP<double, uint32_t>, TP<int64_t, float>, TP<bfloat16_t, uint16_t>, TP<float16_t, uint16_t>, TP<uint16_t, bfloat16_t>, TP<uint16_t, float16_t>, TP<uint8_t, bfloat16_t>>
#define BCN (N * sizeof(T) / sizeof(T2))
#define BCCOND (N * sizeof(T) >= sizeof(T2) && (sizeof(T) == sizeof(T2) || !SCALAR_T))
OPK(BitCast, (L_BC), (0), BCCOND, (s.type[0] = TyOf<T2>(); s.count[0] = int(BCN);), (), (if constexpr (BCCOND) { const Simd<T2, BCN, 0> ds; OUT(hn::BitCast(d, SV(0))) }), (LANE(a)))
#if HWY_TARGET != HWY_SCALAR || VF_ORACLE
#define L_RBC TL<TP<uint8_t, uint64_t>, TP<uint8_t, uint8_t>, TP<int8_t, float>, TP<uint16_t, uint8_t>, TP<int16_t, double>, TP<uint32_t, int8_t>, TP<int32_t, float>, TP<float, uint64_t>, TP<uint64_t, uint8_t>, TP<double, int64_t>, TP<double, uint32_t>, TP<int64_t, uint16_t>, TP<bfloat16_t, uint16_t>, TP<float16_t, uint8_t>, TP<float, float>>
// K > 0: source is K times smaller; K < 0: source is -K times larger
#define RBN (K > 0 ? N * sizeof(T) / sizeof(T2) / size_t(K > 0 ? K : 1) : N * sizeof(T) / sizeof(T2) * size_t(K < 0 ? -K : 1))
#define RBCOND (RBN >= 1 && RBN * sizeof(T2) * size_t(K > 0 ? K : 1) == N * sizeof(T) * size_t(K < 0 ? -K : 1) && (RBN * sizeof(T2) <= VF_MAXB))
#ifdef VF_ORACLE
#define VF_MAXB 64
#else
#define VF_MAXB kVecBytes
#endif
OPK(ZeroExtendResizeBitCast, (L_RBC), (1, 2, 4, 8, 16, -2, -4), RBCOND, (s.type[0] = TyOf<T2>(); s.count[0] = int(RBN);), (), (if constexpr (RBCOND) { const Simd<T2, RBN, 0> ds; OUT(hn::ZeroExtendResizeBitCast(d, ds, SV(0))) }),
  (T* R = cx.template Res<T>(0, N); memset((void*)R, 0, N * sizeof(T)); memcpy((void*)R, A, std::min(N * sizeof(T), RBN * sizeof(T2)));))
OPK(ResizeBitCast, (L_RBC), (1, 2, 4, 8, -2, -4), RBCOND, (s.type[0] = TyOf<T2>(); s.count[0] = int(RBN);), (), (if constexpr (RBCOND) { const Simd<T2, RBN, 0> ds; OUT(hn::ResizeBitCast(d, SV(0))) }),
  (T* R = cx.template Res<T>(0, N); const size_t nb = std::min(N * sizeof(T), RBN * sizeof(T2)); memcpy((void*)R, A, nb);
   const uint8_t* gb = cx.template Got<uint8_t>(0); for (size_t i = 0; i < N; ++i) if (i * sizeof(T) >= nb) cx.DC(0, i); else if ((i + 1) * sizeof(T) > nb) { if (memcmp(gb + i * sizeof(T), A + i, nb - i * sizeof(T))) cx.fail = "resized lane lost its low bytes"; cx.DC(0, i); }))
#endif

// ---- compile-time constant inputs: GCC builds take a separate scalar path for
// vectors whose lanes are all known to the compiler.
#define CKS (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)
#define CST_ constexpr double kCst[13] = {-2.75, -2.5, 0.375, 32766.5, 65534.5, 2147483645.5, 4294967293.5, 9223372036854774000.0, 18446744073709549000.0, -2147483650.25, -32769.5, -9.3e18, 1e30};
#define KCV KSAME CST_ const auto cv = hn::Iota(ds, hwy::ConvertScalarTo<T2>(kCst[K]));
#define CSPEC (s.type[0] = TyOf<T2>(); s.count[0] = int(N); s.weight = 0;)
#ifdef VF_ORACLE
template <typename T2> T2 CstLane(double c, size_t i) {
  if constexpr (std::is_same<T2, float16_t>()) return F32ToF16(W(F32ToF16(float(c))) + float(i));
  else return T2(T2(c) + T2(i));
}
#endif
#define CVC(EXPR, DCEXPR) (CST_ T* R = cx.template Res<T>(0, N); T* R2 = cx.template Alt<T>(0); for (size_t i = 0; i < N; ++i) { const T2 x = CstLane<T2>(kCst[K], i); R[i] = R2[i] = (EXPR); if (DCEXPR) cx.DC(0, i); })
#define CONVC(NAME, TYPES, KERNEL, ORACLE) OPK(NAME, TYPES, CKS, (true), CSPEC, (), KERNEL, ORACLE)
CONVC(ConstConvertTo, (L_F2I), (KCV OUT(hn::ConvertTo(d, cv))), CVC(CvT<T>(x), false))
CONVC(ConstConvertInRangeTo, (L_F2I), (KCV OUT(hn::ConvertInRangeTo(d, cv))), CVC(CvT<T>(x), !InRangeT<T>(x)))
CONVC(ConstNearestInt, (L_F2S), (KCV OUT(hn::NearestInt(cv))), CVC((F2I<T>(x, 0)), false))
CONVC(ConstDemoteTo, (L_F64I32), (KCV OUT(hn::DemoteTo(d, cv))), CVC(CvT<T>(x), false))
CONVC(ConstDemoteInRangeTo, (L_F64I32), (KCV OUT(hn::DemoteInRangeTo(d, cv))), CVC(CvT<T>(x), !InRangeT<T>(x)))
CONVC(ConstDemoteToNearestInt, (L_F64S32), (KCV OUT(hn::DemoteToNearestInt(d, cv))), CVC((F2I<T>(x, 0)), false))
CONVC(ConstPromoteTo, (L_PROR), (KCV OUT(hn::PromoteTo(d, cv))), CVC(CvT<T>(x), false))
CONVC(ConstPromoteInRangeTo, (L_PROR), (KCV OUT(hn::PromoteInRangeTo(d, cv))), CVC(CvT<T>(x), !InRangeT<T>(x)))
