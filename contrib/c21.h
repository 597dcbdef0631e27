// Key generation and oracles for vqsort (C21, C22), independent of the target.
#ifndef C21_H_
#define C21_H_
#include <math.h>
#include <string.h>

#include <algorithm>
#include <string>
#include <vector>

#include "hwy/base.h"
#include "hwy/contrib/sort/order.h"
#include "vf.h"

namespace c21 {
using u128 = unsigned __int128;

// Total order on the key part as u128, and all bits for the permutation.
enum class Kind { kUnsigned, kSigned, kFloat, kKV };
template <class T> struct Key;
#define C21_KEY(T, K, NAME) template <> struct Key<T> { static constexpr Kind kKind = Kind::K; static const char* Name() { return NAME; } };
C21_KEY(uint16_t, kUnsigned, "u16") C21_KEY(uint32_t, kUnsigned, "u32") C21_KEY(uint64_t, kUnsigned, "u64")
C21_KEY(int16_t, kSigned, "i16") C21_KEY(int32_t, kSigned, "i32") C21_KEY(int64_t, kSigned, "i64")
C21_KEY(hwy::float16_t, kFloat, "f16") C21_KEY(float, kFloat, "f32") C21_KEY(double, kFloat, "f64")
C21_KEY(hwy::uint128_t, kUnsigned, "u128") C21_KEY(hwy::K64V64, kKV, "kv128") C21_KEY(hwy::K32V32, kKV, "kv64")

template <class T> u128 Bits(const T& t) { u128 v = 0; memcpy(&v, &t, sizeof(T)); return v; }

template <class T> bool IsNan(const T& t) {
  if (Key<T>::kKind != Kind::kFloat) return false;
  constexpr int mant = sizeof(T) == 2 ? 10 : sizeof(T) == 4 ? 23 : 52;
  constexpr uint64_t sign = 1ull << ((sizeof(T) * 8 - 1) & 63);
  const uint64_t inf = (sign - 1) >> mant << mant;
  return (uint64_t(Bits(t)) & (sign - 1)) > inf;
}

// Rank: equal for order-equivalent keys; ascending.
template <class T> u128 Rank(const T& t) {
  const u128 b = Bits(t);
  constexpr int bits = int(sizeof(T)) * 8;
  switch (Key<T>::kKind) {
    case Kind::kUnsigned: return b;
    case Kind::kKV: return b >> (bits / 2);
    case Kind::kSigned: return b ^ (u128(1) << (bits - 1));
    default: {
      const u128 sign = u128(1) << (bits - 1);
      if ((b & (sign - 1)) == 0) return sign;  // both zeros
      return (b & sign) ? sign - (b & (sign - 1)) : sign + b;
    }
  }
}
// NaN last in either direction.
template <class T> u128 OrderedRank(const T& t, bool asc) {
  constexpr int bits = int(sizeof(T)) * 8;
  if (IsNan(t)) return ~u128(0);
  const u128 r = Rank(t);
  const u128 m = bits == 128 ? ~u128(0) : (u128(1) << bits) - 1;
  return asc ? r : m - r;
}

template <class T> T FromBits(u128 b) { T t; memcpy(&t, &b, sizeof(T)); return t; }

inline u128 R128(vf::Rng& r) { return (u128(r()) << 64) | r(); }

// One random key of the given flavour.
template <class T> T RandomKey(vf::Rng& r, int flavour, u128 base) {
  constexpr int bits = int(sizeof(T)) * 8;
  constexpr Kind k = Key<T>::kKind;
  const u128 m = bits == 128 ? ~u128(0) : (u128(1) << bits) - 1;
  switch (flavour) {
    case 0: return FromBits<T>(R128(r));
    case 1:  // small numbers (in key part)
      if (k == Kind::kFloat) {
        static const int kExp[8] = {0, 0, 1, 1, 2, 0, 1, 3};
        const int e = kExp[r.Below(8)];
        const uint64_t bias = sizeof(T) == 2 ? 15 : sizeof(T) == 4 ? 127 : 1023;
        const int mant = sizeof(T) == 2 ? 10 : sizeof(T) == 4 ? 23 : 52;
        const u128 v = ((u128(bias) + u128(e)) << mant) | (u128(r.Below(8)) << (mant - 3)) | (u128(r.Below(2)) << (bits - 1));
        return FromBits<T>(v);
      }
      if (k == Kind::kKV) return FromBits<T>((u128(r.Below(50)) << (bits / 2)) | (r() & (m >> (bits / 2))));
      return FromBits<T>((u128(r.Below(100)) - 50) & m);
    case 2:  // extremes
      switch (r.Below(10)) {
        case 0: return FromBits<T>(0);
        case 1: return FromBits<T>(m);
        case 2: return FromBits<T>(m >> 1);
        case 3: return FromBits<T>((m >> 1) + 1);
        case 4: if (k == Kind::kFloat) return FromBits<T>(sizeof(T) == 2 ? 0x7C00 : sizeof(T) == 4 ? 0x7F800000u : u128(0x7FF) << 52); return FromBits<T>(m - 1);
        case 5: if (k == Kind::kFloat) return FromBits<T>((sizeof(T) == 2 ? 0x7C00 : sizeof(T) == 4 ? 0x7F800000u : u128(0x7FF) << 52) | (u128(1) << (bits - 1))); return FromBits<T>(1);
        case 6: if (k == Kind::kFloat) return FromBits<T>((sizeof(T) == 2 ? 0x7BFF : sizeof(T) == 4 ? 0x7F7FFFFFu : (u128(0x7FF) << 52) - 1)); return FromBits<T>((m >> 1) - 1);
        case 7: if (k == Kind::kFloat) return FromBits<T>((sizeof(T) == 2 ? 0x7BFF : sizeof(T) == 4 ? 0x7F7FFFFFu : (u128(0x7FF) << 52) - 1) | (u128(1) << (bits - 1))); return FromBits<T>((m >> 1) + 2);
        case 8: return FromBits<T>(m << (bits / 2) & m);
        default: return FromBits<T>(m >> (bits / 2));
      }
    case 3:  // upper half (key part) equal to base, lower random
      return FromBits<T>((base & (m << (bits / 2))) | (R128(r) & (m >> (bits / 2))));
    case 4:  // lower half equal
      return FromBits<T>((base & (m >> (bits / 2))) | (R128(r) & (m << (bits / 2))));
    case 5: return FromBits<T>((base + r.Below(3)) & m);
    default: return FromBits<T>((base ^ (u128(1) << r.Below(uint64_t(bits)))) & m);
  }
}

template <class T> std::vector<T> MakeKeys(vf::Src& s, vf::Ctx& cx, size_t n, bool nan_ok) {
  const int flavour = int(s.Below(7)), shape = int(s.Below(12)), outliers = int(s.Below(6));
  const uint64_t param = s.Below(1000);
  vf::Rng r = s.Sub();
  const u128 base = R128(r);
  std::vector<T> k(n);
  const auto gen = [&](int f) {
    for (int tries = 0; tries < 8; ++tries) { const T t = RandomKey<T>(r, f, base); if (nan_ok || !IsNan(t)) return t; }
    return FromBits<T>(0);
  };
  std::vector<T> pool;
  const bool two = shape == 2 || shape >= 10;
  if (shape == 1 || two) { const size_t p = shape == 1 ? 1 + size_t(param % 9) : 2; for (size_t i = 0; i < p; ++i) pool.push_back(gen(flavour)); }
  const uint64_t bias = r.Below(8);  // of the two values
  for (size_t i = 0; i < n; ++i) k[i] = pool.empty() ? gen(flavour) : two ? pool[r.Below(9) <= bias] : pool[size_t(r.Below(pool.size()))];
  const auto less = [](const T& a, const T& b) { return OrderedRank(a, true) < OrderedRank(b, true); };
  switch (shape) {
    case 3: std::sort(k.begin(), k.end(), less); break;
    case 4: std::sort(k.begin(), k.end(), less); std::reverse(k.begin(), k.end()); break;
    case 5:  // organ pipe
      std::sort(k.begin(), k.end(), less); if (n > 1) std::reverse(k.begin() + std::ptrdiff_t(n / 2), k.end()); break;
    case 6:  // sorted with a few swaps
      std::sort(k.begin(), k.end(), less);
      for (uint64_t j = 0; n && j < 1 + param % 5; ++j) std::swap(k[size_t(r.Below(n))], k[size_t(r.Below(n))]);
      break;
    case 7: {  // all equal except for a few
      const T v = gen(flavour);
      for (size_t i = 0; i < n; ++i) if (r.Below(1 + n / (1 + param % 4)) != 0) k[i] = v;
      break;
    }
    case 8: {  // sorted runs
      const size_t run = 1 + size_t(param);
      for (size_t i = 0; i < n; i += run) std::sort(k.begin() + std::ptrdiff_t(i), k.begin() + std::ptrdiff_t(std::min(n, i + run)), less);
      break;
    }
    case 9:  // all keys equal except the last/first
      for (size_t i = 1; i + 1 < n; ++i) k[i] = k[0];
      break;
    default: break;
  }
  // A few other keys, mostly near either end: few-valued arrays must notice them.
  if (n && (two || shape == 1 || shape == 3 || shape == 9)) {
    const size_t win = std::min(n, size_t(1) + 256 / sizeof(T));
    for (int j = 0; j < outliers; ++j) {
      const size_t at = size_t(r.Below(win));
      const size_t pos = shape == 11 ? n - 1 - at : j % 3 == 0 ? n - 1 - at : j % 3 == 1 ? at : size_t(r.Below(n));
      k[pos] = r.Below(3) == 0 ? gen(5) : gen(flavour);
    }
  }
  if (nan_ok && n && Key<T>::kKind == Kind::kFloat) {  // a few NaN among other keys
    const u128 m = (u128(1) << ((sizeof(T) * 8) & 127)) - 1;
    for (uint64_t j = r.Below(4); j != 0; --j) {
      const size_t pos = r.Below(2) ? n - 1 - size_t(r.Below(std::min(n, size_t(1) + 128 / sizeof(T)))) : size_t(r.Below(n));
      k[pos] = FromBits<T>(r.Below(2) ? m : m >> 1);
    }
  }
  cx.Desc([&] {
    std::string d = vf::Fmt("%s n=%zu flavour %d shape %d:", Key<T>::Name(), n, flavour, shape);
    for (size_t i = 0; i < std::min<size_t>(n, 24); ++i) {
      const u128 b = Bits(k[i]);
      d += sizeof(T) == 16 ? vf::Fmt(" %llx_%016llx", (unsigned long long)(b >> 64), (unsigned long long)b) : vf::Fmt(" %llx", (unsigned long long)b);
    }
    return d;
  });
  return k;
}

// Sorted (rank, bits) pairs: order-unique representation of a multiset.
template <class T> std::vector<std::pair<u128, u128>> Canon(const T* p, size_t n, bool asc) {
  std::vector<std::pair<u128, u128>> v(n);
  for (size_t i = 0; i < n; ++i) // NaN payloads and the sign of zero are not preserved
    v[i] = {OrderedRank(p[i], asc), Key<T>::kKind == Kind::kKV ? Bits(p[i]) : 0};
  std::sort(v.begin(), v.end());
  return v;
}

template <class T> std::string Show(const T& t) {
  const u128 b = Bits(t);
  return sizeof(T) == 16 ? vf::Fmt("%llx_%016llx", (unsigned long long)(b >> 64), (unsigned long long)b) : vf::Fmt("%llx", (unsigned long long)b);
}

enum Op { kSort, kPartial, kSelect };

template <class T> void CheckResult(Op op, const std::vector<T>& in, const T* out, size_t n, size_t k, bool asc) {
  const auto want = Canon(in.data(), n, asc);
  const auto got = Canon(out, n, asc);
  if (want != got) {
    size_t i = 0;
    while (want[i] == got[i]) ++i;
    VF_FAIL("the result is not a permutation of the %zu keys: e.g. key %s%s", n, want[i] < got[i] ? "missing " : "extra ",
            Show(FromBits<T>(want[i] < got[i] ? want[i].second : got[i].second)).c_str());
  }
  if (op == kSort || op == kPartial) {
    const size_t end = op == kSort ? n : k;
    for (size_t i = 0; i < end; ++i)
      if (OrderedRank(out[i], asc) != want[i].first) VF_FAIL("position %zu of %zu holds %s, expected %s%s", i, n, Show(out[i]).c_str(), Show(FromBits<T>(want[i].second)).c_str(), want[i].first == ~u128(0) ? " (NaN)" : "");
  } else {
    const u128 mid = want[k].first;
    if (OrderedRank(out[k], asc) != mid) VF_FAIL("selected position %zu of %zu holds %s, expected %s", k, n, Show(out[k]).c_str(), Show(FromBits<T>(want[k].second)).c_str());
    for (size_t i = 0; i < n; ++i) {
      const u128 r = OrderedRank(out[i], asc);
      if (i < k ? r > mid : r < mid) VF_FAIL("position %zu (%s) is on the wrong side of the selected position %zu (%s)", i, Show(out[i]).c_str(), k, Show(out[k]).c_str());
    }
  }
}

inline size_t PickN(vf::Src& s, const vf::Ctx& cx, size_t key_bytes) {
  const size_t unit = 64 / key_bytes;
  switch (s.Below(16)) {
    case 0: case 1: case 2: case 3: return s.Len(40, unit);
    case 4: case 5: case 6: case 7: return s.Len(16 * unit + 8, unit);
    case 8: case 9: case 10: case 11: return s.Len(1200, 256);
    case 12: case 13: case 14: return size_t(s.Below(4000));
    default: return s.Below(cx.thorough ? 60 : 30) == 1 ? size_t(s.Below(cx.thorough ? 2000000 : 400000)) : size_t(s.Below(20000));
  }
}

inline size_t PickK(vf::Src& s, size_t n, bool inclusive) {
  const size_t lim = inclusive ? n + 1 : n;
  switch (s.Below(5)) {
    case 0: return std::min(lim - 1, size_t(s.Below(8)));
    case 1: return lim - 1 - std::min(lim - 1, size_t(s.Below(8)));
    case 2: return std::min(lim - 1, n / 2 + size_t(s.Below(3)));
    default: return size_t(s.Below(lim));
  }
}

// Runs `call(keys, n, k)` on guarded memory and decides the result.
template <class T, class Order, class F> void RunCase(Op op, vf::Src& s, vf::Ctx& cx, const F& call, size_t max_n = ~size_t(0)) {
  static vf::Guarded g;
  size_t n = std::min(max_n, PickN(s, cx, sizeof(T)));
  if (op == kSelect && n == 0) n = 1;
  const size_t k = op == kSort ? 0 : PickK(s, n, op == kPartial);
  const bool nan_ok = s.Below(3) == 0;
  const std::vector<T> in = MakeKeys<T>(s, cx, n, nan_ok);
  cx.Desc([&] { return op == kSort ? vf::Fmt(" %s", Order::IsAscending() ? "ascending" : "descending") : vf::Fmt(" k=%zu %s", k, Order::IsAscending() ? "ascending" : "descending"); });
  T* p = g.Arr<T>(s, n, 64 / sizeof(T));
  if (n) memcpy(static_cast<void*>(p), in.data(), n * sizeof(T));
  call(p, n, k);
  g.Check(op == kSort ? "sort" : op == kPartial ? "partial sort" : "select");
  CheckResult<T>(op, in, p, n, k, Order::IsAscending());
  cx.evals = n;
  bool ordered = true;
  for (size_t i = 1; i < n && ordered; ++i) ordered = !(OrderedRank(in[i], Order::IsAscending()) < OrderedRank(in[i - 1], Order::IsAscending()));
  cx.nontrivial = n > 1 && !ordered;
  cx.cls = n <= 256 / sizeof(T) ? "few vectors" : n <= 4096 / sizeof(T) ? "around the base case" : "recursive";
}
}  // namespace c21
#endif
