// C10: loads, stores, gathers, scatters inside a guard-paged arena.
#define SM (s.mem = true;)
#define SM8 (s.mem = true; s.weight = 8;)
#define SZ int64_t(sizeof(T))
#define VB_ (N * sizeof(T))
#define PO(bytes) vf::PlaceOff(in.p[0], (bytes), sizeof(T))
#define PA(bytes) vf::PlaceOff(in.p[0], (bytes), 64)
#define AT(o) reinterpret_cast<T*>(out.mem + (o))
#define RES T* R = cx.template Res<T>(0, N);
#define EACH for (size_t i = 0; i < N; ++i)
#define MG(o) cx.template MGet<T>(o)

OPK(IsAligned, (L_ALLS), (0), (true), (), (), (OUTS(0, uint32_t(hn::IsAligned(d, reinterpret_cast<const T*>(uintptr_t(in.p[0]) << (in.p[1] & 7)))))),
  (uint32_t* R = cx.template Res<uint32_t>(0, 1); R[0] = ((uint64_t(P[0]) << (P[1] & 7)) % (N * sizeof(T))) == 0;))
OPK(Load, (L_ALLS), (0), (true), SM, (), (OUT(hn::Load(d, AT(PA(64))))), (RES const int64_t o = PA(64); EACH R[i] = MG(o + int64_t(i) * SZ);))
// Aligned to this vector's own size only.
OPK(LoadA, (L_ALLS), (0), (true), SM, (), (OUT(hn::Load(d, AT(vf::PlaceOff(in.p[0], VB_, VB_))))), (RES const int64_t o = PlaceOff(in.p[0], VB_, VB_); EACH R[i] = MG(o + int64_t(i) * SZ);))
OPK(LoadU, (L_ALLS), (0), (true), SM, (), (OUT(hn::LoadU(d, AT(PO(VB_))))), (RES const int64_t o = PO(VB_); EACH R[i] = MG(o + int64_t(i) * SZ);))
#if HWY_TARGET != HWY_SCALAR || VF_ORACLE
OPK(LoadDup128, (L_ALLS), (0), (true), SM, (), (OUT(hn::LoadDup128(d, AT(PO(16))))), (RES const int64_t o = PO(16); EACH R[i] = MG(o + int64_t(i * sizeof(T) % 16));))
#endif
#define WHOLE ((kFlags & 2) != 0)
#define OWHOLE ((e.flags & 2) != 0)
#ifdef VF_ORACLE
#define PM PlaceMasked(in.p[0], in.r[4], N, sizeof(T), OWHOLE)
#else
#define PM vf::PlaceMasked(in.p[0], in.r[4], N, sizeof(T), WHOLE)
#endif
#define FIXM (for (size_t i = N; i < 64; ++i) M[i] = false;)
OPK(MaskedLoad, (L_ALLS), (0), (true), SM8, (), (OUT(hn::MaskedLoad(MK, d, AT(PM)))), (RES const int64_t o = PM; EACH R[i] = M[i] ? MG(o + int64_t(i) * SZ) : FZero<T>();))
OPK(MaskedLoadOr, (L_ALLS), (0), (true), SM8, (), (OUT(hn::MaskedLoadOr(VA, MK, d, AT(PM)))), (RES const int64_t o = PM; EACH R[i] = M[i] ? MG(o + int64_t(i) * SZ) : A[i];))
OPK(BlendedStore, (L_ALLS), (0), (true), SM8, (), (hn::BlendedStore(VA, MK, d, AT(PM));), (const int64_t o = PM; EACH if (M[i]) cx.MPut(o + int64_t(i) * SZ, A[i]);))
// aligned: documented not to fault for partial masks (the vector is in one accessible page)
OPK(MaskedLoadA, (L_ALLS), (0), (true), SM, (), (OUT(hn::MaskedLoad(MK, d, AT(PA(64))))), (RES const int64_t o = PA(64); EACH R[i] = M[i] ? MG(o + int64_t(i) * SZ) : FZero<T>();))
// count-limited accesses: only [p, p + num) is accessible
#define NUMN size_t(uint64_t(in.p[1]) % (in.p[2] & 7 ? N + 1 : 3 * N + 2))
#define CNT vf::MinSz(NUMN, N)
#define PN PO(CNT * sizeof(T))
#define PNL PO(NUMN * sizeof(T))
OPK(LoadN, (L_ALLS), (0), (true), SM8, (), (OUT(hn::LoadN(d, AT(PNL), NUMN))), (RES const int64_t o = PNL; const size_t c = CNT; EACH R[i] = i < c ? MG(o + int64_t(i) * SZ) : FZero<T>();))
// "no" is documented as a fill value: uniform.
OPK(LoadNOr, (L_ALLS), (0), (true), SM8, (for (size_t i = 1; i < N; ++i) A[i] = A[0];), (OUT(hn::LoadNOr(VA, d, AT(PNL), NUMN))), (RES const int64_t o = PNL; const size_t c = CNT; EACH R[i] = i < c ? MG(o + int64_t(i) * SZ) : A[i];))
OPK(StoreN, (L_ALLS), (0), (true), SM8, (), (hn::StoreN(VA, d, AT(PN), NUMN);), (const int64_t o = PN; const size_t c = CNT; for (size_t i = 0; i < c; ++i) cx.MPut(o + int64_t(i) * SZ, A[i]);))
// counts known to the compiler take separate paths. GCC 13 replaces masked AVX-512
// loads whose mask is constant by full loads, so a whole vector is accessible here.
#define PNK PO((size_t(K) > N ? size_t(K) : N) * sizeof(T) + 64)
#define NUMKS (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64)
#define L_U TL<uint8_t, uint16_t, uint32_t, uint64_t>
#define CNTK vf::MinSz(size_t(K), N)
OPK(LoadNK, (L_U), NUMKS, (K <= int(2 * N)), (s.mem = true; s.weight = 1;), (), (OUT(hn::LoadN(d, AT(PNK), size_t(K)))), (RES const int64_t o = PNK; const size_t c = CNTK; EACH R[i] = i < c ? MG(o + int64_t(i) * SZ) : FZero<T>();))
OPK(LoadNOrK, (L_U), NUMKS, (K <= int(2 * N)), (s.mem = true; s.weight = 1;), (for (size_t i = 1; i < N; ++i) A[i] = A[0];), (OUT(hn::LoadNOr(VA, d, AT(PNK), size_t(K)))), (RES const int64_t o = PNK; const size_t c = CNTK; EACH R[i] = i < c ? MG(o + int64_t(i) * SZ) : A[i];))
OPK(StoreNK, (L_U), NUMKS, (K <= int(2 * N)), (s.mem = true; s.weight = 1;), (), (hn::StoreN(VA, d, AT(PO(CNTK * sizeof(T))), size_t(K));), (const int64_t o = PO(CNTK * sizeof(T)); const size_t c = CNTK; for (size_t i = 0; i < c; ++i) cx.MPut(o + int64_t(i) * SZ, A[i]);))
// SafeFillN / SafeCopyN: behaviour beyond Lanes(d) is target-dependent, num itself must be accessible.
#define NUMS size_t(uint64_t(in.p[1]) % (in.p[2] & 7 ? N + 1 : 2 * N + 1))
OPK(SafeFillN, (L_ALL), (0), (true), SM8, (), (hn::SafeFillN(NUMS, hn::GetLane(VA), d, AT(PO(NUMS * sizeof(T))));), (const size_t num = NUMS; const int64_t o = PO(num * sizeof(T)); for (size_t i = 0; i < num && i < N; ++i) cx.MPut(o + int64_t(i) * SZ, A[0]); if (num > N) cx.MDC(o + int64_t(N) * SZ, (num - N) * sizeof(T));))
// from: flush with a guard in one half; to: flush with the other guard.
#define CPF (in.p[3] & 1 ? int64_t(vf::kMem - NUMS * sizeof(T)) : int64_t(0))
#define CPT (in.p[3] & 1 ? int64_t(0) : int64_t(vf::kMem - NUMS * sizeof(T)))
OPK(SafeCopyN, (L_ALL), (0), (true), SM8, (), (hn::SafeCopyN(NUMS, d, AT(CPF), AT(CPT));), (const size_t num = NUMS; for (size_t i = 0; i < num && i < N; ++i) cx.MPut(CPT + int64_t(i) * SZ, MG(CPF + int64_t(i) * SZ)); if (num > N) cx.MDC(CPT + int64_t(N) * SZ, (num - N) * sizeof(T));))
OPK(InsertIntoUpper, (L_ALL), (0), (N >= 2), SM, (), (const Half<decltype(d)> dh; OUT(hn::InsertIntoUpper(d, AT(PO(VB_ / 2)), VA))), (RES const int64_t o = PO(VB_ / 2); EACH R[i] = i < N / 2 ? A[i] : MG(o + int64_t(i - N / 2) * SZ);))

OPK(Store, (L_ALLS), (0), (true), SM, (), (hn::Store(VA, d, AT(PA(64)));), (const int64_t o = PA(64); EACH cx.MPut(o + int64_t(i) * SZ, A[i]);))
OPK(StoreA, (L_ALLS), (0), (true), SM, (), (hn::Store(VA, d, AT(vf::PlaceOff(in.p[0], VB_, VB_)));), (const int64_t o = PlaceOff(in.p[0], VB_, VB_); EACH cx.MPut(o + int64_t(i) * SZ, A[i]);))
OPK(StoreU, (L_ALLS), (0), (true), SM, (), (hn::StoreU(VA, d, AT(PO(VB_)));), (const int64_t o = PO(VB_); EACH cx.MPut(o + int64_t(i) * SZ, A[i]);))
OPK(Stream, (L_ALLS), (0), (true), SM, (), (hn::Stream(VA, d, AT(PA(64))); hwy::FlushStream();), (const int64_t o = PA(64); EACH cx.MPut(o + int64_t(i) * SZ, A[i]); if (VB_ < 16) cx.MDC(o + int64_t(VB_), 16 - VB_);))
#define TSN(X) reinterpret_cast<X*>(out.mem + vf::PlaceOff(in.p[0], N * sizeof(X), sizeof(X)))
#define L_TRS TL<TP<uint64_t, uint32_t>, TP<uint64_t, uint16_t>, TP<uint64_t, uint8_t>, TP<uint32_t, uint16_t>, TP<uint32_t, uint8_t>, TP<uint16_t, uint8_t>>
OPK(TruncateStore, (L_TRS), (0), (true), SM, (), (hn::TruncateStore(VA, d, TSN(T2));), (const int64_t o = PlaceOff(in.p[0], N * sizeof(T2), sizeof(T2)); EACH cx.MPut(o + int64_t(i * sizeof(T2)), T2(A[i]));))

// interleaved
OPK(LoadInterleaved2, (L_ALL), (0), (true), SM, (), (Vec<D> v0; Vec<D> v1; hn::LoadInterleaved2(d, AT(PO(2 * VB_)), v0, v1); PUT(0, d, v0) PUT(1, d, v1)), (const int64_t o = PO(2 * VB_); for (int k = 0; k < 2; ++k) { T* R = cx.template Res<T>(k, N); EACH R[i] = MG(o + int64_t(2 * i + size_t(k)) * SZ); }))
OPK(LoadInterleaved3, (L_ALL), (0), (true), SM, (), (Vec<D> v0; Vec<D> v1; Vec<D> v2; hn::LoadInterleaved3(d, AT(PO(3 * VB_)), v0, v1, v2); PUT(0, d, v0) PUT(1, d, v1) PUT(2, d, v2)), (const int64_t o = PO(3 * VB_); for (int k = 0; k < 3; ++k) { T* R = cx.template Res<T>(k, N); EACH R[i] = MG(o + int64_t(3 * i + size_t(k)) * SZ); }))
OPK(LoadInterleaved4, (L_ALL), (0), (true), SM, (), (Vec<D> v0; Vec<D> v1; Vec<D> v2; Vec<D> v3; hn::LoadInterleaved4(d, AT(PO(4 * VB_)), v0, v1, v2, v3); PUT(0, d, v0) PUT(1, d, v1) PUT(2, d, v2) PUT(3, d, v3)), (const int64_t o = PO(4 * VB_); for (int k = 0; k < 4; ++k) { T* R = cx.template Res<T>(k, N); EACH R[i] = MG(o + int64_t(4 * i + size_t(k)) * SZ); }))
OPK(StoreInterleaved2, (L_ALL), (0), (true), SM, (), (hn::StoreInterleaved2(VA, VB, d, AT(PO(2 * VB_)));), (const int64_t o = PO(2 * VB_); EACH { cx.MPut(o + int64_t(2 * i) * SZ, A[i]); cx.MPut(o + int64_t(2 * i + 1) * SZ, B[i]); }))
OPK(StoreInterleaved3, (L_ALL), (0), (true), SM, (), (hn::StoreInterleaved3(VA, VB, VC, d, AT(PO(3 * VB_)));), (const int64_t o = PO(3 * VB_); EACH { cx.MPut(o + int64_t(3 * i) * SZ, A[i]); cx.MPut(o + int64_t(3 * i + 1) * SZ, B[i]); cx.MPut(o + int64_t(3 * i + 2) * SZ, C[i]); }))
OPK(StoreInterleaved4, (L_ALL), (0), (true), SM, (), (hn::StoreInterleaved4(VA, VB, VC, VD, d, AT(PO(4 * VB_)));), (const int64_t o = PO(4 * VB_); EACH { cx.MPut(o + int64_t(4 * i) * SZ, A[i]); cx.MPut(o + int64_t(4 * i + 1) * SZ, B[i]); cx.MPut(o + int64_t(4 * i + 2) * SZ, C[i]); cx.MPut(o + int64_t(4 * i + 3) * SZ, D[i]); }))

// gather / scatter.  Region d holds the indices; unused lanes get wild values.
#define SG (s.mem = true; s.weight = 6; s.type[3] = sizeof(T) == 8 ? I64 : I32;)
#ifdef VF_ORACLE
#define PG (PMix(in.p[0]) & 1 ? int64_t(kMem / 2) : int64_t(0))
#else
#define PG (vf::PMix(in.p[0]) & 1 ? int64_t(vf::kMem / 2) : int64_t(0))
#endif
#define NIDX int64_t((vf::kMem - (vf::PMix(P[0]) & 1 ? vf::kMem / 2 : 0)) / sizeof(T))
#define IDXOF(i) (int64_t(PMix(P[1] + int64_t(i)) % uint64_t(P[2] & 1 ? 7 : NIDX)))
#define IDX2(i) ((P[2] & 6) == 0 ? NIDX - 1 - IDXOF(i) : IDXOF(i))
#define TIO MakeSigned<T>
#define SETI(i, x) reinterpret_cast<TIO*>(D)[i] = TIO(x)
#define ID(i) int64_t(reinterpret_cast<const TIO*>(D)[i])
#define FIXI (for (size_t i = 0; i < N; ++i) SETI(i, IDX2(i));)
#define FIXIM (for (size_t i = 0; i < N; ++i) if (M[i]) SETI(i, IDX2(i));)
#define FIXO (for (size_t i = 0; i < N; ++i) SETI(i, IDX2(i) * SZ);)
#define FIXO1 (for (size_t i = 0; i < N; ++i) SETI(i, IDX2(i) * SZ - ((P[2] & 16) && IDX2(i) ? int64_t(PMix(P[3] + int64_t(i)) % sizeof(T)) : 0));)
#define NUMG size_t(uint64_t(in.p[3]) % (N + 3))
#define FIXIN (const size_t num = size_t(uint64_t(P[3]) % (N + 3)); for (size_t i = 0; i < N && i < num; ++i) SETI(i, IDX2(i));)
#define VI VX(RebindToSigned<D>(), 3)
OPK(GatherIndex, (L_UIF3264), (0), (true), SG, FIXI, (OUT(hn::GatherIndex(d, AT(PG), VI))), (RES EACH R[i] = MG(PG + ID(i) * SZ);))
OPK(GatherOffset, (L_UIF3264), (0), (true), SG, FIXO, (OUT(hn::GatherOffset(d, AT(PG), VI))), (RES EACH R[i] = MG(PG + ID(i));))
OPK(MaskedGatherIndex, (L_UIF3264), (0), (true), SG, FIXIM, (OUT(hn::MaskedGatherIndex(MK, d, AT(PG), VI))), (RES EACH R[i] = M[i] ? MG(PG + ID(i) * SZ) : FZero<T>();))
OPK(MaskedGatherIndexOr, (L_UIF3264), (0), (true), SG, FIXIM, (OUT(hn::MaskedGatherIndexOr(VA, MK, d, AT(PG), VI))), (RES EACH R[i] = M[i] ? MG(PG + ID(i) * SZ) : A[i];))
OPK(GatherIndexN, (L_UIF3264), (0), (true), SG, FIXIN, (OUT(hn::GatherIndexN(d, AT(PG), VI, NUMG))), (RES EACH R[i] = i < NUMG ? MG(PG + ID(i) * SZ) : FZero<T>();))
OPK(GatherIndexNOr, (L_UIF3264), (0), (true), SG, FIXIN, (OUT(hn::GatherIndexNOr(VA, d, AT(PG), VI, NUMG))), (RES EACH R[i] = i < NUMG ? MG(PG + ID(i) * SZ) : A[i];))
// Scatter: indices need not be unique; which duplicate wins is only defined by
// lane order on some targets, so bytes reachable through duplicates accept any of the lanes.
#ifdef VF_ORACLE
template <typename T, typename OffF, typename SelF> inline void ScatterOracle(Cx& cx, const T* A, size_t N, OffF off, SelF sel) {
  for (size_t i = 0; i < N; ++i) {
    if (!sel(i)) continue;
    size_t dups = 0; bool any = false;
    T now; memcpy(&now, cx.got.mem + off(i), sizeof(T));
    for (size_t j = 0; j < N; ++j) if (sel(j) && off(j) == off(i)) { ++dups; if (Bits(A[j]) == Bits(now)) any = true; }
    cx.MPut(off(i), dups > 1 && any ? now : A[i]);
  }
}
#endif
OPK(ScatterIndex, (L_UIF3264), (0), (true), SG, FIXI, (hn::ScatterIndex(VA, d, AT(PG), VI);), (ScatterOracle<T>(cx, A, N, [&](size_t i) { return PG + ID(i) * SZ; }, [](size_t) { return true; });))
OPK(ScatterOffset, (L_UIF3264), (0), (true), SG, FIXO, (hn::ScatterOffset(VA, d, AT(PG), VI);), (ScatterOracle<T>(cx, A, N, [&](size_t i) { return PG + ID(i); }, [](size_t) { return true; });))
OPK(MaskedScatterIndex, (L_UIF3264), (0), (true), SG, FIXIM, (hn::MaskedScatterIndex(VA, MK, d, AT(PG), VI);), (ScatterOracle<T>(cx, A, N, [&](size_t i) { return PG + ID(i) * SZ; }, [&](size_t i) { return M[i]; });))
OPK(ScatterIndexN, (L_UIF3264), (0), (true), SG, FIXIN, (hn::ScatterIndexN(VA, d, AT(PG), VI, NUMG);), (ScatterOracle<T>(cx, A, N, [&](size_t i) { return PG + ID(i) * SZ; }, [&](size_t i) { return i < NUMG; });))
