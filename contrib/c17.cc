// C17: operation histories on BitSet64 / BitSet4096<N> against std::set.
#include "hwy/bit_set.h"
#include "vf.h"

#include <memory>
#include <set>

namespace {
using vf::Ctx;
using vf::Src;

template <class BS, size_t N> void History(Src& s, Ctx& cx) {
  // canaries around the object detect writes outside it
  struct Box { uint64_t lo[4]; BS b; uint64_t hi[4]; };
  std::unique_ptr<Box> box(new Box());
  for (int i = 0; i < 4; ++i) box->lo[i] = box->hi[i] = 0xABCDEF0123456789ull;
  BS& b = box->b;
  std::set<size_t> r;
  uint64_t n = 0;
  auto idx = [&]() -> size_t {
    switch (s.Below(4)) {
      case 0: return size_t(s.Below(N));
      case 1: { const size_t k = size_t(s.Below(N / 64 + 1)) * 64 + size_t(s.Below(3)); return k == 0 ? 0 : std::min(k - 1, N - 1); }
      case 2: if (!r.empty()) { auto it = r.begin(); std::advance(it, long(s.Below(r.size()))); return *it; } return size_t(s.Below(N));
      default: return N - 1 - size_t(s.Below(std::min<size_t>(N, 70)));
    }
  };
  auto check = [&] {
    VF_CHECK(b.Any() == !r.empty(), "Any() = %d with %zu elements", b.Any(), r.size());
    VF_CHECK(b.Count() == r.size(), "Count() = %zu, expected %zu", b.Count(), r.size());
    if (!r.empty()) VF_CHECK(b.First() == *r.begin(), "First() = %zu, expected %zu", b.First(), *r.begin());
    uint64_t w = 0;
    for (size_t x : r) if (x < 64) w |= 1ull << x;
    VF_CHECK(b.Get64() == w, "Get64() = %llx, expected %llx", (unsigned long long)b.Get64(), (unsigned long long)w);
    auto it = r.begin(); size_t k = 0;
    b.Foreach([&](size_t i) { VF_CHECK(it != r.end() && *it == i, "Foreach visits %zu as element %zu, expected %lld", i, k, it == r.end() ? -1LL : (long long)*it); ++it; ++k; });
    VF_CHECK(it == r.end(), "Foreach visited %zu of %zu elements", k, r.size());
    for (int i = 0; i < 4; ++i) VF_CHECK(box->lo[i] == 0xABCDEF0123456789ull && box->hi[i] == 0xABCDEF0123456789ull, "memory outside the bit set was overwritten");
    n += 5;
  };
  const int steps = 1 + int(s.Below(60));
  for (int i = 0; i < steps; ++i) {
    switch (s.Below(9)) {
      case 0: case 1: case 2: { const size_t k = idx(); cx.Desc([&] { return vf::Fmt("Set %zu; ", k); }); b.Set(k); r.insert(k); VF_CHECK(b.Get(k), "Get(%zu) after Set", k); break; }
      case 3: case 4: { const size_t k = idx(); cx.Desc([&] { return vf::Fmt("Clear %zu; ", k); }); b.Clear(k); r.erase(k); VF_CHECK(!b.Get(k), "Get(%zu) after Clear", k); break; }
      case 5: { uint64_t m = s.Bool() ? s.Int(64) : (1ull << s.Below(64)) * s.Below(2); if (N < 64) m &= (1ull << (N % 64)) - 1; cx.Desc([&] { return vf::Fmt("SetNonzeroBitsFrom64 %llx; ", (unsigned long long)m); }); b.SetNonzeroBitsFrom64(m); for (size_t k = 0; k < 64; ++k) if (m >> k & 1) r.insert(k); break; }
      case 6: { const size_t k = idx(); VF_CHECK(b.Get(k) == (r.count(k) != 0), "Get(%zu) = %d", k, b.Get(k)); ++n; break; }
      case 7: {  // remove while iterating: safe, and every element is still visited
        std::vector<size_t> seen;
        const uint64_t mod = 1 + s.Below(3);
        b.Foreach([&](size_t k) { seen.push_back(k); if (k % mod == 0) b.Clear(k); });
        VF_CHECK(seen.size() == r.size() && std::equal(seen.begin(), seen.end(), r.begin()), "Foreach with clearing visited %zu of %zu", seen.size(), r.size());
        for (size_t k : seen) if (k % mod == 0) r.erase(k);
        cx.Desc([&] { return vf::Fmt("Foreach+Clear %%%d; ", int(mod)); });
        break;
      }
      default: { BS c = b; b = c; check(); }
    }
    if (s.Below(3) == 0) check();
  }
  check();
  for (size_t k = 0; k < N; ++k) VF_CHECK(b.Get(k) == (r.count(k) != 0), "Get(%zu)", k);
  cx.evals = n + N;
  cx.nontrivial = r.size() > 1;
}
VF_REG("BitSet64", 200000, 4000000, (&History<hwy::BitSet64, 64>))
#define REG4096(N) VF_REG("BitSet4096<" #N ">", 50000, 1000000, (&History<hwy::BitSet4096<N>, N>))
REG4096(4096) REG4096(64) REG4096(128) REG4096(1024) REG4096(2112) REG4096(100) REG4096(65) REG4096(4095) REG4096(32)
}  // namespace
