// C12: AES and carryless multiplication.
#define OP(NAME, TYPES, COND, FIX, KERNEL, ORACLE) OPK(NAME, TYPES, (0), COND, (s.weight = 32;), FIX, KERNEL, ORACLE)
#ifdef VF_ORACLE
// FIPS-197 from first principles: S-box computed from GF(2^8) inversion.
inline uint8_t GMul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = uint8_t((a << 1) ^ ((a & 0x80) ? 0x1B : 0)); b >>= 1; } return r; }
struct AesTab {
  uint8_t s[256], inv[256];
  AesTab() {
    for (int x = 0; x < 256; ++x) {
      uint8_t i = 0; for (int y = 1; y < 256; ++y) if (GMul(uint8_t(x), uint8_t(y)) == 1) i = uint8_t(y);
      uint8_t r = 0; for (int b = 0; b < 8; ++b) { const int v = ((i >> b) ^ (i >> ((b + 4) & 7)) ^ (i >> ((b + 5) & 7)) ^ (i >> ((b + 6) & 7)) ^ (i >> ((b + 7) & 7)) ^ (0x63 >> b)) & 1; r = uint8_t(r | (v << b)); }
      s[x] = r; inv[r] = uint8_t(x);
    }
  }
};
inline const AesTab& Aes() { static const AesTab t; return t; }
// state byte r + 4c = row r, column c
inline void AesMix(const uint8_t* in, uint8_t* out, bool inv) {
  static const uint8_t kE[4] = {2, 3, 1, 1}, kD[4] = {14, 11, 13, 9};
  const uint8_t* k = inv ? kD : kE;
  for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) { uint8_t v = 0; for (int j = 0; j < 4; ++j) v ^= GMul(in[4 * c + j], k[(j - r + 4) & 3]); out[4 * c + r] = v; }
}
inline void AesBlock(const uint8_t* st, const uint8_t* key, uint8_t* out, bool last, bool inv) {
  uint8_t t[16], u[16];
  for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) t[4 * c + r] = inv ? Aes().inv[st[4 * ((c - r + 4) & 3) + r]] : Aes().s[st[4 * ((c + r) & 3) + r]];
  if (last) memcpy(u, t, 16); else AesMix(t, u, inv);
  for (int i = 0; i < 16; ++i) out[i] = u[i] ^ key[i];
}
#define AESOR(LAST, INV) (uint8_t* R = cx.template Res<uint8_t>(0, N); for (size_t b = 0; b + 16 <= N; b += 16) AesBlock(in.r[0] + b, in.r[1] + b, R + b, LAST, INV);)
#endif
#if HWY_TARGET != HWY_SCALAR || VF_ORACLE
OP(AESRound, (L_U8), (N >= 16), (), (OUT(hn::AESRound(VA, VB))), AESOR(false, false))
OP(AESLastRound, (L_U8), (N >= 16), (), (OUT(hn::AESLastRound(VA, VB))), AESOR(true, false))
OP(AESRoundInv, (L_U8), (N >= 16), (), (OUT(hn::AESRoundInv(VA, VB))), AESOR(false, true))
OP(AESLastRoundInv, (L_U8), (N >= 16), (), (OUT(hn::AESLastRoundInv(VA, VB))), AESOR(true, true))
OP(AESInvMixColumns, (L_U8), (N >= 16), (), (OUT(hn::AESInvMixColumns(VA))), (uint8_t* R = cx.template Res<uint8_t>(0, N); for (size_t b = 0; b + 16 <= N; b += 16) AesMix(in.r[0] + b, R + b, true);))
OPK(AESKeyGenAssist, (L_U8), (0, 1, 2, 4, 8, 16, 32, 64, 128, 27, 54, 108, 216, 255, 85, 170), (N >= 16), (s.weight = 8;), (), (OUT(hn::AESKeyGenAssist<uint8_t(K)>(VA))),
  (static const uint8_t kI[16] = {4, 5, 6, 7, 5, 6, 7, 4, 12, 13, 14, 15, 13, 14, 15, 12}; uint8_t* R = cx.template Res<uint8_t>(0, N); for (size_t i = 0; i < N; ++i) R[i] = uint8_t(Aes().s[in.r[0][(i & ~size_t(15)) + kI[i & 15]]] ^ (((i & 15) == 4 || (i & 15) == 12) ? K : 0));))
// every S-box entry: all 16 bytes equal to P[0] & 255
OP(AESSbox, (L_U8), (N >= 16), (for (size_t i = 0; i < N; ++i) { A[i] = uint8_t(P[0] + int64_t(i) * (P[1] & 255)); B[i] = 0; }), (PUT(0, d, hn::AESLastRound(VA, VB)) PUT(1, d, hn::AESLastRoundInv(VA, VB))),
  (uint8_t* R = cx.template Res<uint8_t>(0, N); uint8_t* R1 = cx.template Res<uint8_t>(1, N); for (size_t b = 0; b + 16 <= N; b += 16) { AesBlock(in.r[0] + b, in.r[1] + b, R + b, true, false); AesBlock(in.r[0] + b, in.r[1] + b, R1 + b, true, true); }))
#define CLOR(UP) (for (size_t i = 0; i + 1 < N; i += 2) { u128 p = 0; for (int k = 0; k < 64; ++k) if ((A[i + UP] >> k) & 1) p ^= u128(B[i + UP]) << k; R[i] = uint64_t(p); R[i + 1] = uint64_t(p >> 64); })
// operands: dense random, sparse, and special
#define CLFIX (for (size_t i = 0; i < N; ++i) { if ((P[0] & 3) == 0) A[i] = T(1) << (uint64_t(P[1] >> (7 * (i & 7))) & 63); if ((P[0] & 12) == 0) B[i] = ~T(0) >> (uint64_t(P[2] >> (7 * (i & 7))) & 63); })
OP(CLMulLower, (L_U64), (N >= 2), CLFIX, (OUT(hn::CLMulLower(VA, VB))), (T* R = cx.template Res<T>(0, N); VF_UNP CLOR(0)))
OP(CLMulUpper, (L_U64), (N >= 2), CLFIX, (OUT(hn::CLMulUpper(VA, VB))), (T* R = cx.template Res<T>(0, N); VF_UNP CLOR(1)))
#endif
