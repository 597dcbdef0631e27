// C08 (second unit): Per4LaneBlockShuffle for all 256 index combinations.
#define P4KS (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255)
#define P4I(q) ((K >> (2 * (q))) & 3)
#define P4OP (hn::Per4LaneBlockShuffle<(K >> 6) & 3, (K >> 4) & 3, (K >> 2) & 3, K & 3>(VA))
#define L_P4 TL<uint8_t, uint16_t, uint32_t, uint64_t>
#define L_P4F TL<float, double>
// full 128-bit blocks and larger
OPK(Per4LaneBlockShuffle, (L_P4), P4KS, (N >= 4 && (N * sizeof(T) >= 16 || (K % 5) == 0)), (s.weight = 1;), (), (OUT(P4OP)), (LANE(A[(i & ~size_t(3)) + P4I(i & 3)])))
OPK(Per4LaneBlockShuffleF, (L_P4F), P4KS, (N >= 4), (s.weight = 1;), (), (OUT(P4OP)), (LANE(A[(i & ~size_t(3)) + P4I(i & 3)])))
// 1 or 2 lanes: out-of-range indices give unspecified lanes
#define L_P4S TL<uint8_t, uint16_t, uint32_t, uint64_t, float, double>
OPK(Per4LaneBlockShuffleSmall, (L_P4S), (0, 1, 4, 5, 2, 6, 8, 9, 27, 78, 177, 228), (N <= 2), (s.weight = 1;), (), (OUT(P4OP)), (LANE(A[P4I(i) & (N - 1)]) DCL(P4I(i) >= int(N))))
