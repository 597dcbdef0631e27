// C05: comparisons, masks.
#define OP(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (), FIX, KERNEL, ORACLE)
#define OPS1(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (s.sweep = 1;), FIX, KERNEL, ORACLE)
#define OPS2(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (s.sweep = 2;), FIX, KERNEL, ORACLE)
#define OPW(NAME, TYPES, W_, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (s.weight = W_;), FIX, KERNEL, ORACLE)

OPS2(Eq, (L_ALL), (true), (), (OUTM(hn::Eq(VA, VB))), (LANEM(W(a) == W(b))))
OPS2(Ne, (L_ALL), (true), (), (OUTM(hn::Ne(VA, VB))), (LANEM(W(a) != W(b))))
OPS2(Lt, (L_ALL), (true), (), (OUTM(hn::Lt(VA, VB))), (LANEM(W(a) < W(b))))
OPS2(Gt, (L_ALL), (true), (), (OUTM(hn::Gt(VA, VB))), (LANEM(W(a) > W(b))))
OPS2(Le, (L_ALL), (true), (), (OUTM(hn::Le(VA, VB))), (LANEM(W(a) <= W(b))))
OPS2(Ge, (L_ALL), (true), (), (OUTM(hn::Ge(VA, VB))), (LANEM(W(a) >= W(b))))
OP(OpEq, (L_ALL), (true), (), (OUTM(VA == VB)), (LANEM(W(a) == W(b))))
OP(OpNe, (L_ALL), (true), (), (OUTM(VA != VB)), (LANEM(W(a) != W(b))))
OP(OpLt, (L_ALL), (true), (), (OUTM(VA < VB)), (LANEM(W(a) < W(b))))
OP(OpGt, (L_ALL), (true), (), (OUTM(VA > VB)), (LANEM(W(a) > W(b))))
OP(OpLe, (L_ALL), (true), (), (OUTM(VA <= VB)), (LANEM(W(a) <= W(b))))
OP(OpGe, (L_ALL), (true), (), (OUTM(VA >= VB)), (LANEM(W(a) >= W(b))))
// Documented as both "v < 0" and "sign bit": -0.0 and NaN with sign are unspecified.
OPS1(IsNegative, (L_IF), (true), (), (OUTM(hn::IsNegative(VA))), (LANEM(W(a) < 0) DCL(IsFloat<T>() && (IsNan(a) || W(a) == 0))))
OPW(TestBit, (L_UI), 8, (true), (for (size_t i = 0; i < N; ++i) B[i] = T(TU(1) << (uint64_t(TU(B[i])) % (8 * sizeof(T))));), (OUTM(hn::TestBit(VA, VB))), (LANEM((TU(a) & TU(b)) != 0)))
OP(MaskedEq, (L_ALL), (true), (), (OUTM(hn::MaskedEq(MK, VA, VB))), (LANEM(m && W(a) == W(b))))
OP(MaskedNe, (L_ALL), (true), (), (OUTM(hn::MaskedNe(MK, VA, VB))), (LANEM(m && W(a) != W(b))))
OP(MaskedLt, (L_ALL), (true), (), (OUTM(hn::MaskedLt(MK, VA, VB))), (LANEM(m && W(a) < W(b))))
OP(MaskedGt, (L_ALL), (true), (), (OUTM(hn::MaskedGt(MK, VA, VB))), (LANEM(m && W(a) > W(b))))
OP(MaskedLe, (L_ALL), (true), (), (OUTM(hn::MaskedLe(MK, VA, VB))), (LANEM(m && W(a) <= W(b))))
OP(MaskedGe, (L_ALL), (true), (), (OUTM(hn::MaskedGe(MK, VA, VB))), (LANEM(m && W(a) >= W(b))))
OP(MaskedIsNaN, (L_F), (true), (), (OUTM(hn::MaskedIsNaN(MK, VA))), (LANEM(m && IsNan(a))))

#if HWY_TARGET != HWY_SCALAR || VF_ORACLE
#define P128 (N >= 2 && !SCALAR_T)
#define EQFIX (for (size_t i = 0; i < N; ++i) if ((P[0] >> i) & 1) B[i] = A[i];)
#define J_ const size_t j = i & ~size_t(1)
#define LT128(x, y) (x[(i | 1)] != y[(i | 1)] ? x[(i | 1)] < y[(i | 1)] : x[(i | 1) - 1] < y[(i | 1) - 1])
#define EQ128(x, y) (x[(i | 1)] == y[(i | 1)] && x[(i | 1) - 1] == y[(i | 1) - 1])
OPW(Lt128, (L_U64), 16, P128, EQFIX, (OUTM(hn::Lt128(d, VA, VB))), (LANEM(LT128(A, B))))
OPW(Lt128Upper, (L_U64), 16, P128, EQFIX, (OUTM(hn::Lt128Upper(d, VA, VB))), (LANEM(A[i | 1] < B[i | 1])))
OPW(Eq128, (L_U64), 16, P128, EQFIX, (OUTM(hn::Eq128(d, VA, VB))), (LANEM(EQ128(A, B))))
OPW(Ne128, (L_U64), 16, P128, EQFIX, (OUTM(hn::Ne128(d, VA, VB))), (LANEM(!EQ128(A, B))))
OPW(Eq128Upper, (L_U64), 16, P128, EQFIX, (OUTM(hn::Eq128Upper(d, VA, VB))), (LANEM(A[i | 1] == B[i | 1])))
OPW(Ne128Upper, (L_U64), 16, P128, EQFIX, (OUTM(hn::Ne128Upper(d, VA, VB))), (LANEM(A[i | 1] != B[i | 1])))
#endif

// ---- creation / conversion
OPW(FirstN, (L_ALLS), 8, (true), (P[0] = int64_t(uint64_t(P[0]) % ((P[1] & 7) ? 2 * N + 2 : (sizeof(T) == 1 ? 128 : 32768)));), (OUTM(hn::FirstN(d, (size_t)PI(0)))), (LANEM(i < size_t(P[0]))))
// counts known to the compiler take separate paths
OPK(FirstNK, (TL<uint8_t, uint16_t, uint32_t, uint64_t>), (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 255), (N >= 8 || K <= 9), (s.weight = 0;), (), (OUTM(hn::FirstN(d, size_t(K)))), (LANEM(i < size_t(K))))
OP(MaskFromVec, (L_ALL), (true), (), (OUTM(hn::MaskFromVec(VX(d, 4)))), (LANEM(m)))
OP(VecFromMask, (L_ALL), (true), (), (OUT(hn::VecFromMask(d, MK))), (LANES_(kExact, TU, m ? TU(~TU(0)) : TU(0))))
OP(MaskFalse, (L_ALLS), (true), (), (OUTM(hn::MaskFalse(d))), (LANEM(false)))
OPW(LoadMaskBits, (L_ALLS), 8, (true), (), (OUTM(hn::LoadMaskBits(d, reinterpret_cast<const uint8_t*>(in.p)))), (LANEM((reinterpret_cast<const uint8_t*>(P)[i / 8] >> (i % 8)) & 1)))
OPW(Dup128MaskFromMaskBits, (L_ALLS), 8, (true), (), (OUTM(hn::Dup128MaskFromMaskBits(d, (unsigned)PI(0)))), (LANEM((unsigned(P[0]) >> (i & (16 / sizeof(T) - 1))) & 1)))
OPW(BitsFromMask, (L_ALLS), 8, (true), (), (OUTS(0, (uint64_t)hn::BitsFromMask(d, MK))), (uint64_t* R = cx.template Res<uint64_t>(0, 1); R[0] = 0; for (size_t i = 0; i < N; ++i) if (M[i]) R[0] |= 1ull << i;))
// Canary beyond 8 bytes detects over-long stores; bytes past the count may be overwritten up to 8.
OPW(StoreMaskBits, (L_ALLS), 8, (true), (), (OUTS(1, (uint64_t)hn::StoreMaskBits(d, MK, out.r[0]))),
  (uint8_t* R = cx.template Res<uint8_t>(0, 8); cx.template Res<uint64_t>(1, 1)[0] = (N + 7) / 8; memset(R, 0, 8); for (size_t i = 0; i < N; ++i) if (M[i]) R[i / 8] |= uint8_t(1u << (i % 8)); for (size_t i = (N + 7) / 8; i < 8; ++i) cx.DC(0, i);
   if (N < 8 && (cx.template Got<uint8_t>(0)[0] >> N)) cx.fail = "unused mask bits are not zero";))
#define L_REBIND TL<TP<uint8_t, int8_t>, TP<uint16_t, int16_t>, TP<int16_t, uint16_t>, TP<uint32_t, float>, TP<float, int32_t>, TP<int32_t, uint32_t>, TP<double, uint64_t>, TP<uint64_t, int64_t>, TP<int64_t, double>>
OP(RebindMask, (L_REBIND), (true), (), (const Rebind<T2, D> d2; PUTM(0, d2, hn::RebindMask(d2, MK))), (LANEM(m)))
// main type = destination (wider), T2 = source
#define L_PRO TL<TP<uint16_t, uint8_t>, TP<int16_t, int8_t>, TP<uint32_t, uint8_t>, TP<int32_t, uint16_t>, TP<float, int16_t>, TP<uint64_t, uint8_t>, TP<double, int16_t>, TP<int64_t, uint16_t>, TP<uint64_t, float>, TP<double, float>, TP<int64_t, int32_t>, TP<uint32_t, int8_t>>
#define L_DEM TL<TP<uint8_t, uint16_t>, TP<int8_t, int16_t>, TP<uint8_t, uint32_t>, TP<int16_t, float>, TP<uint16_t, int32_t>, TP<uint8_t, uint64_t>, TP<int16_t, double>, TP<uint16_t, int64_t>, TP<float, uint64_t>, TP<float, double>, TP<int32_t, int64_t>>
#define L_DEM2 TL<TP<uint8_t, uint16_t>, TP<int8_t, int16_t>, TP<int16_t, float>, TP<uint16_t, int32_t>, TP<uint16_t, uint32_t>, TP<float, uint64_t>, TP<float, double>, TP<int32_t, int64_t>>
OPK(PromoteMaskTo, (L_PRO), (0), (true), (s.mt = TyOf<T2>(); s.weight = 8;), (), (const Rebind<T2, D> df; OUTM(hn::PromoteMaskTo(d, df, MX(df, 4)))), (LANEM(m)))
OPK(DemoteMaskTo, (L_DEM), (0), (true), (s.mt = TyOf<T2>(); s.weight = 8;), (), (const Rebind<T2, D> df; OUTM(hn::DemoteMaskTo(d, df, MX(df, 4)))), (LANEM(m)))
#if HWY_TARGET != HWY_SCALAR || VF_ORACLE
OPK(OrderedDemote2MasksTo, (L_DEM2), (0), (N >= 2), (s.mt = TyOf<T2>(); s.mcount = int(N / 2); s.weight = 8;), (), (const Repartition<T2, D> df; OUTM(hn::OrderedDemote2MasksTo(d, df, MX(df, 4), MX(df, 5)))), (LANEM(i < N / 2 ? M[i] : M2[i - N / 2])))
OPK(CombineMasks, (L_ALL), (0), (N >= 2), (s.mcount = int(N / 2); s.weight = 8;), (), (const Half<D> dh; OUTM(hn::CombineMasks(d, MX(dh, 4), MX(dh, 5)))), (LANEM(i < N / 2 ? M2[i] : M[i - N / 2])))
OPW(UpperHalfOfMask, (L_ALL), 8, (N >= 2), (), (const Half<D> dh; PUTM(0, dh, hn::UpperHalfOfMask(dh, MK))), (TU* R = cx.template Res<TU>(0, N / 2); for (size_t i = 0; i < N / 2; ++i) R[i] = M[N / 2 + i] ? TU(~TU(0)) : TU(0);))
OPW(LowerHalfOfMask, (L_ALL), 8, (N >= 2), (), (const Half<D> dh; PUTM(0, dh, hn::LowerHalfOfMask(dh, MK))), (TU* R = cx.template Res<TU>(0, N / 2); for (size_t i = 0; i < N / 2; ++i) R[i] = M[i] ? TU(~TU(0)) : TU(0);))
#endif
#define AMTFIX (P[0] = int64_t(uint64_t(P[0]) % N);)
OPW(SlideMaskUpLanes, (L_ALL), 16, (true), AMTFIX, (OUTM(hn::SlideMaskUpLanes(d, MK, (size_t)PI(0)))), (LANEM(i >= size_t(P[0]) && M[i - size_t(P[0])])))
OPW(SlideMaskDownLanes, (L_ALL), 16, (true), AMTFIX, (OUTM(hn::SlideMaskDownLanes(d, MK, (size_t)PI(0)))), (LANEM(i + size_t(P[0]) < N && M[i + size_t(P[0])])))
OPW(SlideMask1Up, (L_ALL), 8, (true), (), (OUTM(hn::SlideMask1Up(d, MK))), (LANEM(i >= 1 && M[i - 1])))
OPW(SlideMask1Down, (L_ALL), 8, (true), (), (OUTM(hn::SlideMask1Down(d, MK))), (LANEM(i + 1 < N && M[i + 1])))

// ---- tests
#define SCAL(TYP, ...) { const TYP vf_e = TYP(__VA_ARGS__); cx.template Res<TYP>(0, 1)[0] = vf_e; }
#define CNT_ ([&] { int64_t c = 0; for (size_t i = 0; i < N; ++i) c += M[i]; return c; }())
#define FIRST_ ([&] { for (size_t i = 0; i < N; ++i) if (M[i]) return int64_t(i); return int64_t(-1); }())
#define LAST_ ([&] { for (size_t i = N; i > 0; --i) if (M[i - 1]) return int64_t(i - 1); return int64_t(-1); }())
OPW(AllTrue, (L_ALLS), 8, (true), (), (OUTS(0, uint8_t(hn::AllTrue(d, MK) ? 1 : 0))), (SCAL(uint8_t, CNT_ == int64_t(N))))
OPW(AllFalse, (L_ALLS), 8, (true), (), (OUTS(0, uint8_t(hn::AllFalse(d, MK) ? 1 : 0))), (SCAL(uint8_t, CNT_ == 0)))
OPW(CountTrue, (L_ALLS), 8, (true), (), (OUTS(0, uint64_t(hn::CountTrue(d, MK)))), (SCAL(uint64_t, CNT_)))
OPW(FindFirstTrue, (L_ALLS), 8, (true), (), (OUTS(0, int64_t(hn::FindFirstTrue(d, MK)))), (SCAL(int64_t, FIRST_)))
OPW(FindLastTrue, (L_ALLS), 8, (true), (), (OUTS(0, int64_t(hn::FindLastTrue(d, MK)))), (SCAL(int64_t, LAST_)))
#define SOMEFIX ({ bool any = false; for (size_t i = 0; i < N; ++i) any |= M[i]; if (!any) M[uint64_t(P[0]) % N] = true; })
OPW(FindKnownFirstTrue, (L_ALLS), 8, (true), SOMEFIX, (OUTS(0, uint64_t(hn::FindKnownFirstTrue(d, MK)))), (SCAL(uint64_t, FIRST_)))
OPW(FindKnownLastTrue, (L_ALLS), 8, (true), SOMEFIX, (OUTS(0, uint64_t(hn::FindKnownLastTrue(d, MK)))), (SCAL(uint64_t, LAST_)))
// Comparison results fed to mask queries directly (no store/reload in between), values may be NaN.
OPW(CmpThenQuery, (L_ALL), 8, (true), (), (const auto q = hn::Lt(VA, VB); OUTS(0, uint64_t(hn::CountTrue(d, q))) OUTS(1, int64_t(hn::FindFirstTrue(d, q))) OUTS(2, uint64_t(hn::BitsFromMask(d, q))) OUTS(3, uint64_t((hn::AllTrue(d, q) ? 1 : 0) | (hn::AllFalse(d, q) ? 2 : 0)))),
  (uint64_t bits = 0; for (size_t i = 0; i < N; ++i) if (W(A[i]) < W(B[i])) bits |= 1ull << i;
   cx.template Res<uint64_t>(0, 1)[0] = uint64_t(__builtin_popcountll(bits)); cx.template Res<int64_t>(1, 1)[0] = bits ? __builtin_ctzll(bits) : -1; cx.template Res<uint64_t>(2, 1)[0] = bits;
   cx.template Res<uint64_t>(3, 1)[0] = (__builtin_popcountll(bits) == int(N) ? 1 : 0) | (bits ? 0 : 2);))
// Not() of a partial mask must not leak into queries.
OPW(NotThenQuery, (L_ALL), 8, (true), (), (const auto q = hn::Not(MK); OUTS(0, uint64_t(hn::CountTrue(d, q))) OUTS(1, int64_t(hn::FindLastTrue(d, q))) OUTS(2, uint64_t(hn::BitsFromMask(d, q))) OUTS(3, uint64_t((hn::AllTrue(d, q) ? 1 : 0) | (hn::AllFalse(d, q) ? 2 : 0)))),
  (uint64_t bits = 0; for (size_t i = 0; i < N; ++i) if (!M[i]) bits |= 1ull << i;
   cx.template Res<uint64_t>(0, 1)[0] = uint64_t(__builtin_popcountll(bits)); cx.template Res<int64_t>(1, 1)[0] = bits ? 63 - __builtin_clzll(bits) : -1; cx.template Res<uint64_t>(2, 1)[0] = bits;
   cx.template Res<uint64_t>(3, 1)[0] = (__builtin_popcountll(bits) == int(N) ? 1 : 0) | (bits ? 0 : 2);))

// ---- logical
OP(MNot, (L_ALLS), (true), (), (OUTM(hn::Not(MK))), (LANEM(!m)))
OP(MAnd, (L_ALLS), (true), (), (OUTM(hn::And(MK, MK2))), (LANEM(m && m2)))
OP(MAndNot, (L_ALLS), (true), (), (OUTM(hn::AndNot(MK, MK2))), (LANEM(!m && m2)))
OP(MOr, (L_ALLS), (true), (), (OUTM(hn::Or(MK, MK2))), (LANEM(m || m2)))
OP(MXor, (L_ALLS), (true), (), (OUTM(hn::Xor(MK, MK2))), (LANEM(m != m2)))
OP(ExclusiveNeither, (L_ALLS), (true), (for (size_t i = 0; i < N; ++i) if (M[i]) M2[i] = false;), (OUTM(hn::ExclusiveNeither(MK, MK2))), (LANEM(!m && !m2)))
OPW(SetOnlyFirst, (L_ALLS), 8, (true), (), (OUTM(hn::SetOnlyFirst(MK))), (const int64_t f = FIRST_; LANEM(int64_t(i) == f)))
OPW(SetBeforeFirst, (L_ALLS), 8, (true), (), (OUTM(hn::SetBeforeFirst(MK))), (const int64_t f = FIRST_; LANEM(f < 0 || int64_t(i) < f)))
OPW(SetAtOrBeforeFirst, (L_ALLS), 8, (true), (), (OUTM(hn::SetAtOrBeforeFirst(MK))), (const int64_t f = FIRST_; LANEM(f < 0 || int64_t(i) <= f)))
OPW(SetAtOrAfterFirst, (L_ALLS), 8, (true), (), (OUTM(hn::SetAtOrAfterFirst(MK))), (const int64_t f = FIRST_; LANEM(f >= 0 && int64_t(i) >= f)))
