// C09: compress / expand.
#define CW (s.weight = 10;)
#define CWM (s.weight = 10; s.mem = true;)
// Got upper lanes must be the false lanes (any order) if the target says Compress partitions.
#ifdef VF_ORACLE
template <typename T, typename SelF> inline void CompressOracle(Cx& cx, const T* A, size_t N, SelF sel) {
  T* R = cx.Res<T>(0, N);
  uint64_t* F = cx.Res<uint64_t>(1, 1);
  F[0] = cx.Got<uint64_t>(1)[0];
  size_t k = 0;
  for (size_t i = 0; i < N; ++i) if (sel(i)) R[k++] = A[i];
  size_t cnt = k;
  for (size_t i = 0; i < N; ++i) if (!sel(i)) R[k++] = A[i];
  if (F[0]) {
    std::vector<MakeUnsigned<T>> g, w;
    for (size_t i = cnt; i < N; ++i) { g.push_back(Bits(cx.Got<T>(0)[i])); w.push_back(Bits(R[i])); }
    std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
    if (g != w) cx.fail = "upper lanes are not the mask-false lanes although CompressIsPartition";
  }
  for (size_t i = cnt; i < N; ++i) cx.DC(0, i);
}
inline void PackBits(const bool* M, size_t N, uint8_t* bits, uint64_t garbage) {
  memcpy(bits, &garbage, 8);
  for (size_t i = 0; i < N; ++i) { bits[i / 8] = uint8_t((bits[i / 8] & ~(1u << (i % 8))) | (unsigned(M[i]) << (i % 8))); }
}
#endif
#define PARTFLAG OUTS(1, uint64_t(hn::CompressIsPartition<T>::value))
#define FIXBITS (PackBits(M, N, reinterpret_cast<uint8_t*>(B), uint64_t(P[2]));)
#define SPB (s.weight = 10; s.type[1] = U8; s.count[1] = 8;)
#define SPBM (s.weight = 10; s.type[1] = U8; s.count[1] = 8; s.mem = true;)

OPK(Compress, (L_ALLS), (0), (true), CW, (), (OUT(hn::Compress(VA, MK)) PARTFLAG), (CompressOracle<T>(cx, A, N, [&](size_t i) { return M[i]; });))
OPK(CompressNot, (L_ALLS), (0), (true), CW, (), (OUT(hn::CompressNot(VA, MK)) PARTFLAG), (CompressOracle<T>(cx, A, N, [&](size_t i) { return !M[i]; });))
// Mask straight from a comparison (the documented use).
OPK(CompressLt, (L_ALL), (0), (true), CW, (), (OUT(hn::Compress(VA, hn::Lt(VA, VB))) PARTFLAG), (CompressOracle<T>(cx, A, N, [&](size_t i) { return W(A[i]) < W(B[i]); });))
#if HWY_TARGET != HWY_SCALAR || VF_ORACLE
OPK(CompressBlocksNot, (L_U64), (0), (N >= 2), CW, (for (size_t i = 0; i + 1 < N; i += 2) M[i + 1] = M[i];), (OUT(hn::CompressBlocksNot(VA, MK)) PARTFLAG), (CompressOracle<T>(cx, A, N, [&](size_t i) { return !M[i]; });))
#endif
OPK(CompressBits, (L_ALLS), (0), (true), SPB, FIXBITS, (OUT(hn::CompressBits(VA, in.r[1])) PARTFLAG), (CompressOracle<T>(cx, A, N, [&](size_t i) { return M[i]; });))

#define CP reinterpret_cast<T*>(out.mem + vf::PlaceOff(in.p[0], N * sizeof(T), sizeof(T)))
#define COFF vf::PlaceOff(in.p[0], N * sizeof(T), sizeof(T))
#define CSTORE(blended)                                                                                              \
  (const int64_t off = COFF; int64_t k = 0; for (size_t i = 0; i < N; ++i) if (M[i]) { cx.MPut(off + k * int64_t(sizeof(T)), A[i]); ++k; } \
   cx.template Res<uint64_t>(0, 1)[0] = uint64_t(k); if (!blended) cx.MDC(off + k * int64_t(sizeof(T)), (N - size_t(k)) * sizeof(T));)
OPK(CompressStore, (L_ALLS), (0), (true), CWM, (), (OUTS(0, uint64_t(hn::CompressStore(VA, MK, d, CP)))), CSTORE(false))
OPK(CompressBlendedStore, (L_ALLS), (0), (true), CWM, (), (OUTS(0, uint64_t(hn::CompressBlendedStore(VA, MK, d, CP)))), CSTORE(true))
OPK(CompressBitsStore, (L_ALLS), (0), (true), SPBM, FIXBITS, (OUTS(0, uint64_t(hn::CompressBitsStore(VA, in.r[1], d, CP)))), CSTORE(false))

OPK(Expand, (L_ALLS), (0), (true), CW, (), (OUT(hn::Expand(VA, MK))), (T* R = cx.template Res<T>(0, N); size_t k = 0; for (size_t i = 0; i < N; ++i) R[i] = M[i] ? A[k++] : FZero<T>();))
OPK(LoadExpand, (L_ALLS), (0), (true), CWM, (), (OUT(hn::LoadExpand(MK, d, CP))),
  (T* R = cx.template Res<T>(0, N); int64_t k = 0; const int64_t off = COFF; for (size_t i = 0; i < N; ++i) { if (M[i]) { R[i] = cx.template MGet<T>(off + k * int64_t(sizeof(T))); ++k; } else R[i] = FZero<T>(); }))
// Round trip: expanding the compressed lanes restores exactly the selected lanes.
OPK(ExpandCompress, (L_ALLS), (0), (true), CW, (), (const auto m = MK; OUT(hn::Expand(hn::Compress(VA, m), m))), (LANE(m ? a : FZero<T>())))
