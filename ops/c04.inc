// C04: shifts, rotates, bit counting, logical ops.
#define OP(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (), FIX, KERNEL, ORACLE)
#define OPS1(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (s.sweep = 1;), FIX, KERNEL, ORACLE)
#define OPS2(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (s.sweep = 2;), FIX, KERNEL, ORACLE)
#define KALL (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 39, 40, 47, 48, 55, 56, 62, 63)
#define KCOND ((size_t)K < 8 * sizeof(T) && (N * sizeof(T) >= 16 || SCALAR_T || K == 1 || (size_t)K == 8 * sizeof(T) - 1))
#define BITS_T (8 * sizeof(T))
#ifdef VF_ORACLE
template <typename T> T ShlT(T a, int k) { return T(MakeUnsigned<T>(uint64_t(MakeUnsigned<T>(a)) << k)); }
template <typename T> T ShrT(T a, int k) { return T(a >> k); }
template <typename T> T RShrT(T a, int k) { return k == 0 ? a : T((i128(a) + (i128(1) << (k - 1))) >> k); }
template <typename T> T RolT(T a, unsigned k) { using U = MakeUnsigned<T>; const unsigned b = 8 * sizeof(T); k &= b - 1; return k == 0 ? a : T(U(U(a) << k) | U(U(a) >> (b - k))); }
template <typename T> T RorT(T a, unsigned k) { const unsigned b = 8 * sizeof(T); return RolT(a, (b - (k & (b - 1))) & (b - 1)); }
template <typename T> int PopT(T a) { return __builtin_popcountll(uint64_t(MakeUnsigned<T>(a))); }
template <typename T> int LzT(T a) { uint64_t u = uint64_t(MakeUnsigned<T>(a)); return u ? int(8 * sizeof(T)) - 64 + __builtin_clzll(u) : int(8 * sizeof(T)); }
template <typename T> int TzT(T a) { uint64_t u = uint64_t(MakeUnsigned<T>(a)); return u ? __builtin_ctzll(u) : int(8 * sizeof(T)); }
template <typename T> T RevBitsT(T a) { uint64_t u = uint64_t(MakeUnsigned<T>(a)), r = 0; for (unsigned i = 0; i < 8 * sizeof(T); ++i) if ((u >> i) & 1) r |= 1ull << (8 * sizeof(T) - 1 - i); return T(r); }
template <typename T> T RevBytesT(T a) { uint64_t u = uint64_t(MakeUnsigned<T>(a)), r = 0; for (unsigned i = 0; i < sizeof(T); ++i) r |= ((u >> (8 * i)) & 255) << (8 * (sizeof(T) - 1 - i)); return T(r); }
#endif

OPK(ShiftLeft, (L_UI), KALL, KCOND, (s.weight = 2;), (), (if constexpr ((size_t)K < BITS_T) { OUT(hn::ShiftLeft<K>(VA)) }), (LANE(ShlT(a, K))))
OPK(ShiftRight, (L_UI), KALL, KCOND, (s.weight = 2;), (), (if constexpr ((size_t)K < BITS_T) { OUT(hn::ShiftRight<K>(VA)) }), (LANE(ShrT(a, K))))
OPK(RoundingShiftRight, (L_UI), KALL, KCOND, (s.weight = 2;), (), (if constexpr ((size_t)K < BITS_T) { OUT(hn::RoundingShiftRight<K>(VA)) }), (LANE(RShrT(a, K))))
OPK(RotateLeft, (L_UI), KALL, KCOND, (s.weight = 2;), (), (if constexpr ((size_t)K < BITS_T) { OUT(hn::RotateLeft<K>(VA)) }), (LANE(RolT(a, K))))
OPK(RotateRight, (L_UI), KALL, KCOND, (s.weight = 2;), (), (if constexpr ((size_t)K < BITS_T) { OUT(hn::RotateRight<K>(VA)) }), (LANE(RorT(a, K))))

#define PFIX (P[0] = int64_t(uint64_t(P[0]) % BITS_T);)
#define PFIX4 (P[0] = int64_t(uint64_t(P[0]) % (4 * BITS_T));)
OPK(ShiftLeftSame, (L_UI), (0), (true), (s.weight = 16;), PFIX, (OUT(hn::ShiftLeftSame(VA, (int)PI(0)))), (LANE(ShlT(a, (int)P[0]))))
OPK(ShiftRightSame, (L_UI), (0), (true), (s.weight = 16;), PFIX, (OUT(hn::ShiftRightSame(VA, (int)PI(0)))), (LANE(ShrT(a, (int)P[0]))))
OPK(RoundingShiftRightSame, (L_UI), (0), (true), (s.weight = 16;), PFIX, (OUT(hn::RoundingShiftRightSame(VA, (int)PI(0)))), (LANE(RShrT(a, (int)P[0]))))
OPK(RotateLeftSame, (L_UI), (0), (true), (s.weight = 16;), PFIX4, (OUT(hn::RotateLeftSame(VA, (int)PI(0)))), (LANE(RolT(a, (unsigned)P[0]))))
OPK(RotateRightSame, (L_UI), (0), (true), (s.weight = 16;), PFIX4, (OUT(hn::RotateRightSame(VA, (int)PI(0)))), (LANE(RorT(a, (unsigned)P[0]))))

#define BFIX (for (size_t i = 0; i < N; ++i) B[i] = T(uint64_t(TU(B[i])) % BITS_T);)
OPK(Shl, (L_UI), (0), (true), (s.weight = 16; s.sweep = 2;), BFIX, (OUT(hn::Shl(VA, VB))), (LANE(ShlT(a, (int)b))))
OPK(Shr, (L_UI), (0), (true), (s.weight = 16; s.sweep = 2;), BFIX, (OUT(hn::Shr(VA, VB))), (LANE(ShrT(a, (int)b))))
OPK(OpShl, (L_UI), (0), (true), (s.weight = 8;), BFIX, (OUT(VA << VB)), (LANE(ShlT(a, (int)b))))
OPK(OpShr, (L_UI), (0), (true), (s.weight = 8;), BFIX, (OUT(VA >> VB)), (LANE(ShrT(a, (int)b))))
OPK(RoundingShr, (L_UI), (0), (true), (s.weight = 16; s.sweep = 2;), BFIX, (OUT(hn::RoundingShr(VA, VB))), (LANE(RShrT(a, (int)b))))
OPK(Rol, (L_UI), (0), (true), (s.weight = 16; s.sweep = 2;), (if (P[0] & 1) VF_UNP BFIX), (OUT(hn::Rol(VA, VB))), (LANE(RolT(a, unsigned(uint64_t(TU(b)))))))
OPK(Ror, (L_UI), (0), (true), (s.weight = 16; s.sweep = 2;), (if (P[0] & 1) VF_UNP BFIX), (OUT(hn::Ror(VA, VB))), (LANE(RorT(a, unsigned(uint64_t(TU(b)))))))

#if HWY_TARGET != HWY_SCALAR || VF_ORACLE
#define IDXFIX ({ uint8_t* x = in.r[1]; for (size_t i = 0; i < 8 * N; ++i) x[i] &= 63; })
OPK(MultiRotateRight, (L_UI64), (0), (true), (s.weight = 16; s.type[1] = U8; s.count[1] = int(8 * N);), ({ uint8_t* x = in.r[1]; for (size_t i = 0; i < 8 * N; ++i) x[i] &= 63; }),
  (Repartition<uint8_t, D> d8; OUT(hn::MultiRotateRight(VA, Ld(d8, in.r[1])))),
  (T* R = cx.template Res<T>(0, N); const uint8_t* x = in.r[1]; for (size_t i = 0; i < N; ++i) { uint64_t r = 0; for (int j = 0; j < 8; ++j) r |= (uint64_t(RorT(uint64_t(A[i]), x[8 * i + j])) & 255) << (8 * j); R[i] = T(r); }))
OPK(BitShuffle, (L_UI64), (0), (true), (s.weight = 16; s.type[1] = U8; s.count[1] = int(8 * N);), ({ uint8_t* x = in.r[1]; for (size_t i = 0; i < 8 * N; ++i) x[i] &= 63; }),
  (Repartition<uint8_t, D> d8; OUT(hn::BitShuffle(VA, Ld(d8, in.r[1])))),
  (T* R = cx.template Res<T>(0, N); const uint8_t* x = in.r[1]; for (size_t i = 0; i < N; ++i) { uint64_t r = 0; for (int j = 0; j < 8; ++j) r |= ((uint64_t(A[i]) >> x[8 * i + j]) & 1) << j; R[i] = T(r); }))
#endif

OPS1(PopulationCount, (L_U), (true), (), (OUT(hn::PopulationCount(VA))), (LANE(PopT(a))))
OPS1(LeadingZeroCount, (L_UI), (true), (), (OUT(hn::LeadingZeroCount(VA))), (LANE(LzT(a))))
OPS1(TrailingZeroCount, (L_UI), (true), (), (OUT(hn::TrailingZeroCount(VA))), (LANE(TzT(a))))
OPS1(MaskedLeadingZeroCount, (L_UI), (true), (), (OUT(hn::MaskedLeadingZeroCount(MK, VA))), (LANE(m ? LzT(a) : 0)))
OPS1(HighestSetBitIndex, (L_UI), (true), (), (OUT(hn::HighestSetBitIndex(VA))),
  (LANE(BITS_T - 1 - size_t(LzT(a))) for (size_t i = 0; i < N; ++i) if (A[i] == 0) { cx.DC(0, i); if (!(MakeSigned<T>(cx.template Got<T>(0)[i]) < 0)) cx.fail = "index for zero lane must have the top bit set"; }))
OPS1(ReverseBits, (L_UI), (true), (), (OUT(hn::ReverseBits(VA))), (LANE(RevBitsT(a))))
OPS1(ReverseLaneBytes, (L_UI163264), (true), (), (OUT(hn::ReverseLaneBytes(VA))), (LANE(RevBytesT(a))))
OPS1(BroadcastSignBit, (L_I), (true), (), (OUT(hn::BroadcastSignBit(VA))), (LANE(a < 0 ? -1 : 0)))

#define LBITS(...) LANES_(kExact, T, FromBits<T>(TU(__VA_ARGS__)))
#define ua Bits(a)
#define ub Bits(b)
#define uc Bits(c)
OP(And, (L_ALL), (true), (), (OUT(hn::And(VA, VB))), (LBITS(ua & ub)))
OP(Or, (L_ALL), (true), (), (OUT(hn::Or(VA, VB))), (LBITS(ua | ub)))
OP(Xor, (L_ALL), (true), (), (OUT(hn::Xor(VA, VB))), (LBITS(ua ^ ub)))
OP(Not, (L_ALL), (true), (), (OUT(hn::Not(VA))), (LBITS(~ua)))
OP(AndNot, (L_ALL), (true), (), (OUT(hn::AndNot(VA, VB))), (LBITS(~ua & ub)))
OP(OpAnd, (L_UI), (true), (), (OUT(VA & VB)), (LBITS(ua & ub)))
OP(OpOr, (L_UI), (true), (), (OUT(VA | VB)), (LBITS(ua | ub)))
OP(OpXor, (L_UI), (true), (), (OUT(VA ^ VB)), (LBITS(ua ^ ub)))
OP(CompoundAnd, (L_UI), (true), (), (auto x = VA; x &= VB; OUT(x)), (LBITS(ua & ub)))
OP(CompoundOr, (L_UI), (true), (), (auto x = VA; x |= VB; OUT(x)), (LBITS(ua | ub)))
OP(CompoundXor, (L_UI), (true), (), (auto x = VA; x ^= VB; OUT(x)), (LBITS(ua ^ ub)))
OP(Xor3, (L_ALL), (true), (), (OUT(hn::Xor3(VA, VB, VC))), (LBITS(ua ^ ub ^ uc)))
OP(Or3, (L_ALL), (true), (), (OUT(hn::Or3(VA, VB, VC))), (LBITS(ua | ub | uc)))
OP(OrAnd, (L_ALL), (true), (), (OUT(hn::OrAnd(VA, VB, VC))), (LBITS(ua | (ub & uc))))
OP(BitwiseIfThenElse, (L_ALL), (true), (), (OUT(hn::BitwiseIfThenElse(VA, VB, VC))), (LBITS((ua & ub) | (TU(~ua) & uc))))
OPK(AllBits1, (L_UI), (0), (true), (s.weight = 8;), (if ((P[0] & 3) != 3) { for (size_t i = 0; i < N; ++i) A[i] = T(~TU(0)); if (P[0] & 1) { const uint64_t b = uint64_t(P[1]) % (N * BITS_T); in.r[0][b / 8] = uint8_t(in.r[0][b / 8] ^ (1u << (b % 8))); } }),
  (OUTS(0, uint8_t(hn::AllBits1(d, VA) ? 1 : 0))), (uint8_t* R = cx.template Res<uint8_t>(0, 1); R[0] = 1; for (size_t i = 0; i < N; ++i) if (TU(A[i]) != TU(~TU(0))) R[0] = 0;))
OPK(AllBits0, (L_UI), (0), (true), (s.weight = 8;), (if ((P[0] & 3) != 3) { for (size_t i = 0; i < N; ++i) A[i] = T(0); if (P[0] & 1) { const uint64_t b = uint64_t(P[1]) % (N * BITS_T); in.r[0][b / 8] = uint8_t(in.r[0][b / 8] ^ (1u << (b % 8))); } }),
  (OUTS(0, uint8_t(hn::AllBits0(d, VA) ? 1 : 0))), (uint8_t* R = cx.template Res<uint8_t>(0, 1); R[0] = 1; for (size_t i = 0; i < N; ++i) if (TU(A[i]) != 0) R[0] = 0;))
#undef ua
#undef ub
#undef uc
