// C30: hwy/contrib/image: histories of images against a model of their pixels.
// Compiled a second time with -Dhwy=hwy_msan -DMEMORY_SANITIZER (the padding is
// only initialised in that configuration).
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <memory>
#include <utility>
#include <vector>
#include "hwy/contrib/image/image.h"
#include "hwy/targets.h"
#include "c30_alloc.h"
#include "vf.h"
namespace {
using vf::Ctx;
using vf::Src;
using hwy::Image;
using hwy::Image3;

struct AbortSeen {};
[[noreturn]] void ThrowAbort(const char*, int, const char*) { throw AbortSeen(); }
template <class F> bool Aborts(const F& f) {
  const hwy::AbortFunc prev = hwy::SetAbortFunc(&ThrowAbort);
  bool seen = false;
  try { f(); } catch (const AbortSeen&) { seen = true; } catch (...) { hwy::SetAbortFunc(prev); throw; }
  hwy::SetAbortFunc(prev);
  return seen;
}

// Restores global state also if the case fails.
struct Scope {
  explicit Scope(Src& s) {
    switch (s.Below(4)) {
      case 1: hwy::DisableTargets(HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_ZEN4 | HWY_AVX3_SPR | HWY_AVX10_2 | HWY_AVX10_2_512); break;
      case 2: hwy::DisableTargets(HWY_AVX2 | HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_ZEN4 | HWY_AVX3_SPR | HWY_AVX10_2 | HWY_AVX10_2_512); break;
      default: break;
    }
    c30::Track(true);
  }
  ~Scope() { c30::Track(false); hwy::DisableTargets(0); }
};

size_t RoundUp(size_t a, size_t b) { return (a + b - 1) / b * b; }
size_t Dim(Src& s) {
  switch (s.Below(6)) {
    case 0: return size_t(s.Below(4));
    case 1: return size_t(s.Below(70));
    case 2: return (size_t(1) << s.Below(9)) + size_t(s.Below(3)) - 1;
    case 3: return size_t(s.Below(20)) * 16 + size_t(s.Below(3));
    case 4: return 2048 / (size_t(1) << s.Below(4)) - size_t(s.Below(70));
    default: return size_t(s.Below(40));
  }
}

// Pixels of one plane (of the size at creation; rows may be hidden by shrinking).
struct Model {
  bool valid = true;  // false: moved-from
  bool external = false;
  size_t x = 0, y = 0, x0 = 0, bpr = 0, vec = 0;
  const uint8_t* base = nullptr;
  std::vector<std::vector<uint8_t>> rows;      // expected bytes, including padding up to a vector
  std::vector<std::vector<uint8_t>> known;     // whether written
};

// External memory between inaccessible pages: starts or ends at one of them.
struct External {
  char* map = nullptr;
  size_t size = 0;
  External() = default;
  External(External&& o) noexcept { *this = std::move(o); }
  External& operator=(External&& o) noexcept { std::swap(map, o.map); std::swap(size, o.size); if (this != &o) o.reset(); return *this; }
  ~External() { reset(); }
  void reset() { if (map) munmap(map, size); map = nullptr; }
  uint8_t* Alloc(size_t bytes, bool at_end) {
    const size_t page = 4096, data = RoundUp(bytes, page);
    size = data + 2 * page;
    map = static_cast<char*>(mmap(nullptr, size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    VF_CHECK(map != MAP_FAILED && mprotect(map + page, data, PROT_READ | PROT_WRITE) == 0, "mmap");
    return reinterpret_cast<uint8_t*>(map) + page + (at_end ? (data - bytes) / 64 * 64 : 0);
  }
};

template <class T> struct Slot {
  // Members are destroyed in reverse order.
  External mem;
  Image<T> img;
  Model m;
};

template <class I> void CheckSize(const I& img, const Model& m, const char* when) {
  VF_CHECK(img.xsize() == m.x && img.ysize() == m.y, "%s: size %zu x %zu, expected %zu x %zu", when, img.xsize(), img.ysize(), m.x, m.y);
}

template <class T> void Created(Image<T>& img, Model& m, size_t x, size_t y, const char* when) {
  m = Model();
  m.x = m.x0 = x; m.y = y;
  m.vec = hwy::ImageBase::VectorSize();
  VF_CHECK(m.vec != 0 && (m.vec & (m.vec - 1)) == 0, "VectorSize %zu", m.vec);
  CheckSize(img, m, when);
  m.bpr = img.bytes_per_row();
  m.base = static_cast<const Image<T>&>(img).bytes();
  if (x == 0 || y == 0) { VF_CHECK(m.base == nullptr, "%s: empty image has memory", when); m.rows.assign(y, {}); m.known.assign(y, {}); return; }
  VF_CHECK(m.base != nullptr, "%s: no memory", when);
  VF_CHECK(m.bpr == hwy::ImageBase::BytesPerRow(x, sizeof(T)), "%s: bytes_per_row %zu, BytesPerRow() %zu", when, m.bpr, hwy::ImageBase::BytesPerRow(x, sizeof(T)));
  VF_CHECK(m.bpr % m.vec == 0, "%s: bytes_per_row %zu is not a multiple of %zu", when, m.bpr, m.vec);
  const size_t need = m.vec == 1 ? x * sizeof(T) : x * sizeof(T) + m.vec - sizeof(T);
  VF_CHECK(m.bpr >= need, "%s: bytes_per_row %zu, needs %zu", when, m.bpr, need);
  m.rows.assign(y, std::vector<uint8_t>(need, 0));
  m.known.assign(y, std::vector<uint8_t>(need, 0));
#ifdef MEMORY_SANITIZER
  // Padding up to the vector size is initialised.
  if (m.vec > 1)
    for (size_t r = 0; r < y; ++r)
      for (size_t i = x * sizeof(T); i < RoundUp(x * sizeof(T), m.vec) && i < need; ++i) m.known[r][i] = 1;
#endif
}

template <class T> void CheckImage(Image<T>& img, const Model& m, const char* when) {
  if (!m.valid) return;
  CheckSize(img, m, when);
  const Image<T>& ci = img;
  VF_CHECK(ci.bytes() == m.base && img.bytes() == m.base, "%s: bytes() changed", when);
  VF_CHECK(img.bytes_per_row() == m.bpr, "%s: bytes_per_row changed", when);
  VF_CHECK(size_t(img.PixelsPerRow()) == m.bpr / sizeof(T), "%s: PixelsPerRow", when);
  if (m.base == nullptr) return;
  for (size_t r = 0; r < m.y; ++r) {
    const T* row = ci.ConstRow(r);
    VF_CHECK(reinterpret_cast<const uint8_t*>(row) == m.base + r * m.bpr, "%s: row %zu is not bytes() + y * bytes_per_row()", when, r);
    VF_CHECK(img.ConstRow(r) == row && img.MutableRow(r) == row && ci.MutableRow(r) == row, "%s: row pointers of %zu differ", when, r);
    if (!m.external) VF_CHECK(reinterpret_cast<uintptr_t>(row) % 64 == 0, "%s: row %zu is not aligned to a cache line", when, r);
    VF_CHECK(reinterpret_cast<uintptr_t>(row) % m.vec == 0, "%s: row %zu is not aligned to %zu", when, r, m.vec);
    const uint8_t* b = reinterpret_cast<const uint8_t*>(row);
    for (size_t i = 0; i < m.rows[r].size(); ++i)
      if (m.known[r][i]) VF_CHECK(b[i] == m.rows[r][i], "%s: byte %zu of row %zu is %02x, expected %02x (row of %zu pixels of %zu bytes)", when, i, r, b[i], m.rows[r][i], m.x0, sizeof(T));
  }
}

// Writes whole vectors starting at valid pixels of row r (like aligned stores).
template <class T> void FillRow(T* row, Model& m, size_t r, vf::Rng& rng, bool padding) {
  uint8_t* b = reinterpret_cast<uint8_t*>(row);
  size_t n = m.x * sizeof(T);
  if (padding && m.vec > 1) n = RoundUp(n, m.vec);
  if (m.external) n = std::min(n, m.bpr);
  for (size_t i = 0; i < n; ++i) {
    const uint8_t v = uint8_t(rng());
    b[i] = v;
    if (i < m.rows[r].size()) { m.rows[r][i] = v; m.known[r][i] = 1; }
  }
}

template <class T> void Histories(Src& s, Ctx& cx) {
  Scope scope(s);
  {
    constexpr size_t kSlots = 3;
    Slot<T> slot[kSlots];
    cx.evals = 0;
    cx.Desc([&] { return vf::Fmt("%zu-byte pixels, vector %zu:", sizeof(T), hwy::ImageBase::VectorSize()); });
    const size_t ops = 1 + size_t(s.Below(14));
    for (size_t o = 0; o < ops; ++o) {
      const uint64_t op = s.Below(11);
      const size_t i = size_t(s.Below(kSlots)), j = size_t(s.Below(kSlots));
      Slot<T>& a = slot[i];
      Slot<T>& b = slot[j];
      cx.Desc([&] { return vf::Fmt(" op%llu(%zu,%zu)", (unsigned long long)op, i, j); });
      switch (op) {
        case 0: case 1: case 2: {
          const size_t x = Dim(s), y = std::min<size_t>(Dim(s), x > 200 ? 9 : 60);
          cx.Desc([&] { return vf::Fmt("=%zux%zu", x, y); });
          Image<T> n(x, y);
          Model m;
          Created(n, m, x, y, "constructor");
          a.img = std::move(n);
          a.m = std::move(m);
          a.mem.reset();
          break;
        }
        case 3: {  // external memory
          const size_t x = 1 + Dim(s), y = 1 + size_t(s.Below(8)), vec = hwy::ImageBase::VectorSize();
          const size_t bpr = RoundUp(x * sizeof(T), vec) + vec * size_t(s.Below(3));
          External mem;
          uint8_t* p = mem.Alloc(bpr * y, s.Bool());  // bytes() assumes an alignment of 64.
          if (vec > 1 && s.Below(4) == 0) {
            VF_CHECK(Aborts([&] { Image<T> bad(x, y, bpr + vec / 2, p); }), "bytes_per_row that is not a multiple of the vector size accepted");
            VF_CHECK(Aborts([&] { Image<T> bad(x, y, bpr, p + vec / 2); }), "memory that is not aligned to the vector size accepted");
          }
          Image<T> n(x, y, bpr, p);
          Model m;
          m.external = true; m.x = m.x0 = x; m.y = y; m.bpr = bpr; m.vec = vec; m.base = p;
          m.rows.assign(y, std::vector<uint8_t>(std::min(bpr, x * sizeof(T) + vec), 0));
          m.known.assign(y, std::vector<uint8_t>(m.rows[0].size(), 0));
          a.img = std::move(n);
          a.m = std::move(m);
          a.mem = std::move(mem);
          break;
        }
        case 4: {  // move construction
          if (!a.m.valid) break;
          std::unique_ptr<Image<T>> t(new Image<T>(std::move(a.img)));
          if (s.Bool()) a.img = Image<T>();  // reuse of the moved-from image
          CheckImage(*t, a.m, "move construction");
          a.img = std::move(*t);
          break;
        }
        case 5:  // move assignment
          if (i == j || !b.m.valid) break;
          a.img = std::move(b.img);
          a.m = b.m;
          a.mem = std::move(b.mem);
          b.m.valid = false;
          break;
        case 6:
          if (!a.m.valid || !b.m.valid) break;
          a.img.Swap(b.img);
          if (i != j) { std::swap(a.m, b.m); std::swap(a.mem, b.mem); }
          break;
        case 7: {
          if (!a.m.valid) break;
          const size_t x = size_t(s.Below(a.m.x + 1)), y = size_t(s.Below(a.m.y + 1));
          a.img.ShrinkTo(x, y);
          a.m.x = x; a.m.y = y;
          break;
        }
        case 8: case 9: {
          if (!a.m.valid || a.m.base == nullptr || a.m.y == 0) break;
          vf::Rng r = s.Sub();
          const bool pad = s.Bool();
          if (s.Bool()) { const size_t y = size_t(s.Below(a.m.y)); FillRow(a.img.MutableRow(y), a.m, y, r, pad); }
          else for (size_t y = 0; y < a.m.y; ++y) FillRow(a.img.MutableRow(y), a.m, y, r, pad);
          break;
        }
        default: {
          if (!a.m.valid || a.m.external) break;
          a.img.InitializePaddingForUnalignedAccesses();
#ifdef MEMORY_SANITIZER
          if (a.m.base != nullptr && a.m.vec > 1 && a.m.x != 0)
            for (size_t r = 0; r < a.m.y; ++r)
              for (size_t k = a.m.x * sizeof(T); k < a.m.x * sizeof(T) + a.m.vec - sizeof(T); ++k) { a.m.rows[r][k] = 0; a.m.known[r][k] = 1; }
#endif
          break;
        }
      }
      for (Slot<T>& q : slot) { CheckImage(q.img, q.m, "after operation"); ++cx.evals; }
      const std::string bad = c30::Check();
      VF_CHECK(bad.empty(), "%s", bad.c_str());
    }
  }
  const std::string bad = c30::Check();
  VF_CHECK(bad.empty(), "%s", bad.c_str());
  (void)c30::Live;
}

template <class T> void Planes(Src& s, Ctx& cx) {
  Scope scope(s);
  struct M3 { bool valid = true; Model p[3]; };
  std::unique_ptr<Image3<T>> img[2];
  M3 m[2];
  cx.evals = 0;
  const auto create = [&](size_t k) {
    const size_t x = Dim(s), y = std::min<size_t>(Dim(s), x > 200 ? 7 : 40);
    cx.Desc([&] { return vf::Fmt("=%zux%zu", x, y); });
    M3 n;
    if (s.Below(3) == 0) {
      Image<T> a(x, y), b(x, y), c(x, y);
      Created(a, n.p[0], x, y, "plane"); Created(b, n.p[1], x, y, "plane"); Created(c, n.p[2], x, y, "plane");
      if (s.Below(4) == 0) {
        Image<T> d(x + (s.Bool() ? 1 : 0), y + 1);
        const uint64_t w = s.Below(3);
        VF_CHECK(Aborts([&] { if (w == 0) Image3<T> bad(std::move(d), std::move(b), std::move(c)); else if (w == 1) Image3<T> bad(std::move(a), std::move(d), std::move(c)); else Image3<T> bad(std::move(a), std::move(b), std::move(d)); }), "planes of different sizes accepted");
        Image3<T> e(x, y);
        img[k].reset(new Image3<T>(std::move(e)));
        for (size_t c3 = 0; c3 < 3; ++c3) Created(const_cast<Image<T>&>(img[k]->Plane(c3)), n.p[c3], x, y, "plane");
      } else {
        img[k].reset(new Image3<T>(std::move(a), std::move(b), std::move(c)));
      }
    } else {
      img[k].reset(new Image3<T>(x, y));
      for (size_t c3 = 0; c3 < 3; ++c3) Created(const_cast<Image<T>&>(img[k]->Plane(c3)), n.p[c3], x, y, "Image3");
    }
    m[k] = n;
  };
  img[0].reset(new Image3<T>());
  img[1].reset(new Image3<T>());
  VF_CHECK(img[0]->xsize() == 0 && img[0]->ysize() == 0, "default Image3 is not empty");
  for (auto& q : m) for (auto& p : q.p) p.vec = hwy::ImageBase::VectorSize();
  const size_t ops = 1 + size_t(s.Below(10));
  for (size_t o = 0; o < ops; ++o) {
    const size_t i = size_t(s.Below(2)), j = 1 - i;
    const uint64_t op = s.Below(8);
    cx.Desc([&] { return vf::Fmt(" op%llu(%zu)", (unsigned long long)op, i); });
    switch (op) {
      case 0: case 1: case 2: create(i); break;
      case 3: if (m[j].valid) { *img[i] = std::move(*img[j]); m[i] = m[j]; m[j].valid = false; } break;
      case 4: if (m[i].valid) { std::unique_ptr<Image3<T>> t(new Image3<T>(std::move(*img[i]))); img[i] = std::move(t); } break;
      case 5: if (m[i].valid && m[j].valid) { img[i]->Swap(*img[j]); std::swap(m[i], m[j]); } break;
      case 6: if (m[i].valid) {
        const size_t x = size_t(s.Below(m[i].p[0].x + 1)), y = size_t(s.Below(m[i].p[0].y + 1));
        img[i]->ShrinkTo(x, y);
        for (auto& p : m[i].p) { p.x = x; p.y = y; }
        break;
      } break;
      default: if (m[i].valid && m[i].p[0].base) {
        vf::Rng r = s.Sub();
        for (size_t c = 0; c < 3; ++c)
          for (size_t y = 0; y < m[i].p[c].y; ++y) FillRow(img[i]->MutablePlaneRow(c, y), m[i].p[c], y, r, true);
      } break;
    }
    for (size_t k = 0; k < 2; ++k) {
      if (!m[k].valid) continue;
      ++cx.evals;
      const Image3<T>& ci = *img[k];
      VF_CHECK(hwy::SameSize(ci, ci.Plane(0)) && hwy::SameSize(ci.Plane(1), ci.Plane(2)) && hwy::SameSize(ci, ci.Plane(2)), "planes differ in size");
      VF_CHECK(ci.bytes_per_row() == ci.Plane(0).bytes_per_row() && ci.PixelsPerRow() == ci.Plane(1).PixelsPerRow(), "plane strides differ");
      for (size_t c = 0; c < 3; ++c) {
        CheckImage(const_cast<Image<T>&>(ci.Plane(c)), m[k].p[c], "plane after operation");
        if (m[k].p[c].base == nullptr) continue;
        for (size_t y = 0; y < m[k].p[c].y; ++y) {
          const T* want = ci.Plane(c).ConstRow(y);
          VF_CHECK(ci.ConstPlaneRow(c, y) == want && img[k]->ConstPlaneRow(c, y) == want && ci.MutablePlaneRow(c, y) == want && img[k]->MutablePlaneRow(c, y) == want, "plane %zu row %zu", c, y);
        }
        // Disjoint planes.
        for (size_t c2 = 0; c2 < c; ++c2) {
          const uint8_t* a = m[k].p[c].base; const uint8_t* b = m[k].p[c2].base;
          VF_CHECK(a >= b + m[k].p[c2].rows.size() * m[k].p[c2].bpr || b >= a + m[k].p[c].rows.size() * m[k].p[c].bpr, "planes %zu and %zu overlap", c, c2);
        }
      }
    }
    const std::string bad = c30::Check();
    VF_CHECK(bad.empty(), "%s", bad.c_str());
  }
  img[0].reset();
  img[1].reset();
  const std::string bad = c30::Check();
  VF_CHECK(bad.empty(), "%s", bad.c_str());
}

// No memory is lost or freed twice.
void Leaks(Src& s, Ctx& cx) {
  Scope scope(s);
  const size_t n = 1 + size_t(s.Below(6));
  {
    std::vector<Image<float>> v;
    v.reserve(16);
    for (size_t i = 0; i < n; ++i) v.emplace_back(1 + Dim(s), 1 + size_t(s.Below(5)));
    VF_CHECK(c30::Live() >= n, "%zu images, %zu blocks", n, c30::Live());
    const size_t live = c30::Live();
    Image<float> a(std::move(v[0]));
    v[0] = std::move(a);
    if (n > 1) { v[0].Swap(v[1]); v[1] = std::move(v[0]); VF_CHECK(c30::Live() == live - 1, "move assignment does not free the previous memory: %zu of %zu", c30::Live(), live); }
    cx.Desc([&] { return vf::Fmt("%zu images", n); });
    v.clear();
    v.shrink_to_fit();
  }
  VF_CHECK(c30::Live() == 0, "%zu blocks not freed", c30::Live());
  // Images that cannot be allocated and unsupported pixel sizes.
  if (s.Below(4) == 0) {
    VF_CHECK(Aborts([] { Image<float> huge(0x7FFFFFFF, 0x7FFFFFFF); }), "allocation failure ignored");
    struct P3 { uint8_t v[3]; };
    struct P16 { double v[2]; };
    VF_CHECK(Aborts([] { Image<P3> p(3, 3); }), "3-byte pixels accepted");
    VF_CHECK(Aborts([] { Image<P16> p(3, 3); }), "16-byte pixels accepted");
  }
}

void BytesPerRow(Src& s, Ctx& cx) {
  Scope scope(s);
  const size_t sz = size_t(1) << s.Below(4), vec = hwy::ImageBase::VectorSize();
  const size_t x0 = s.Bool() ? Dim(s) : size_t(s.Int(27));
  cx.evals = 64;
  cx.Desc([&] { return vf::Fmt("pixels of %zu bytes, xsize from %zu, vector %zu", sz, x0, vec); });
  for (size_t x = x0; x < x0 + 64; ++x) {
    const size_t b = hwy::ImageBase::BytesPerRow(x, sz);
    VF_CHECK(b % vec == 0 && b % 64 == 0, "BytesPerRow(%zu, %zu) = %zu is not a multiple of the vector (%zu) and line size", x, sz, b, vec);
    VF_CHECK(b >= x * sz + (vec == 1 ? 0 : vec - sz), "BytesPerRow(%zu, %zu) = %zu is too small for vector size %zu", x, sz, b, vec);
    VF_CHECK(b < x * sz + vec + 3 * std::max<size_t>(vec, 128), "BytesPerRow(%zu, %zu) = %zu wastes space", x, sz, b);
  }
}

void Coords(Src& s, Ctx& cx) {
  const int64_t n = 1 + s.Range(0, s.Bool() ? 8 : 5000);
  cx.evals = 0;
  cx.Desc([&] { return vf::Fmt("size %lld", (long long)n); });
  for (int k = 0; k < 40; ++k) {
    const int64_t c = s.Range(0, 12 * n) - 6 * n;
    // Position in the infinite sequence 0..n-1, n-1..0, 0..n-1, ...
    int64_t q = c % (2 * n);
    if (q < 0) q += 2 * n;
    const size_t want = size_t(q < n ? q : 2 * n - 1 - q);
    ++cx.evals;
    VF_CHECK(hwy::Mirror(c, n) == want, "Mirror(%lld, %lld) = %zu, expected %zu", (long long)c, (long long)n, hwy::Mirror(c, n), want);
    VF_CHECK(hwy::WrapMirror()(c, size_t(n)) == want, "WrapMirror(%lld, %lld)", (long long)c, (long long)n);
    const int64_t in = s.Range(0, n - 1);
    VF_CHECK(hwy::WrapUnchanged()(in, size_t(n)) == size_t(in) && hwy::Mirror(in, n) == size_t(in), "valid coordinate %lld changed", (long long)in);
  }
  // Rows.
  const size_t x = 1 + size_t(s.Below(70)), y = 1 + size_t(s.Below(12));
  Image<float> img(x, y);
  const size_t use = 1 + size_t(s.Below(y));
  const hwy::WrapRowMirror wrap(img, use);
  const int64_t stride = img.PixelsPerRow();
  for (int64_t r = -int64_t(use); r < 2 * int64_t(use); ++r) {
    const float* row = reinterpret_cast<const float*>(reinterpret_cast<intptr_t>(img.ConstRow(0)) + r * stride * int64_t(sizeof(float)));
    const int64_t want = r < 0 ? -r - 1 : r >= int64_t(use) ? 2 * int64_t(use) - 1 - r : r;
    ++cx.evals;
    VF_CHECK(wrap(row, stride) == img.ConstRow(size_t(want)), "WrapRowMirror of row %lld of %zu is not row %lld", (long long)r, use, (long long)want);
    if (r >= 0 && r < int64_t(y)) VF_CHECK(hwy::WrapRowUnchanged()(row, stride) == row, "WrapRowUnchanged");
  }
}

void Rects(Src& s, Ctx& cx) {
  const size_t W = 1 + size_t(s.Below(60)), H = 1 + size_t(s.Below(20));
  cx.evals = 1;
  cx.Desc([&] { return vf::Fmt("%zu x %zu", W, H); });
  Image<uint16_t> img(W, H);
  Image3<uint16_t> img3(W, H);
  const hwy::Rect whole(img);
  VF_CHECK(whole.x0() == 0 && whole.y0() == 0 && whole.xsize() == W && whole.ysize() == H && whole.IsInside(img) && whole.IsInside(img3), "Rect(image)");
  const hwy::Rect none;
  VF_CHECK(none.x0() == 0 && none.y0() == 0 && none.xsize() == 0 && none.ysize() == 0 && none.IsInside(img), "Rect()");
  hwy::Rect r = whole;
  const auto clamp = [](size_t b, size_t m, size_t e) { return b >= e ? size_t(0) : std::min(m, e - b); };
  for (size_t k = 1 + size_t(s.Below(4)); k; --k) {
    const size_t bx = size_t(s.Below(W + 3)), by = size_t(s.Below(H + 3)), mx = size_t(s.Below(W + 5)), my = size_t(s.Below(H + 5));
    const bool sub = s.Bool();
    hwy::Rect q = sub ? r.Subrect(bx, by, mx, my) : hwy::Rect(bx, by, mx, my, W, H);
    const size_t ox = sub ? r.x0() : 0, oy = sub ? r.y0() : 0;
    const size_t ex = sub ? r.x0() + r.xsize() : W, ey = sub ? r.y0() + r.ysize() : H;
    VF_CHECK(q.x0() == ox + bx && q.y0() == oy + by, "%s origin", sub ? "Subrect" : "Rect");
    VF_CHECK(q.xsize() == clamp(ox + bx, mx, ex) && q.ysize() == clamp(oy + by, my, ey), "%s(%zu, %zu, %zu, %zu) of end %zu, %zu has size %zu x %zu", sub ? "Subrect" : "Rect", bx, by, mx, my, ex, ey, q.xsize(), q.ysize());
    const bool inside = q.x0() + q.xsize() <= W && q.y0() + q.ysize() <= H;
    VF_CHECK(q.IsInside(img) == inside && q.IsInside(img3) == inside, "IsInside");
    const hwy::Rect raw(bx, by, mx, my);
    VF_CHECK(raw.x0() == bx && raw.y0() == by && raw.xsize() == mx && raw.ysize() == my, "Rect of known size");
    VF_CHECK(raw.IsInside(img) == (bx + mx <= W && by + my <= H), "IsInside(%zu %zu %zu %zu) of %zu x %zu", bx, by, mx, my, W, H);
    VF_CHECK(hwy::SameSize(raw, whole) == (mx == W && my == H), "SameSize");
    if (inside)
      for (size_t y = 0; y < q.ysize(); ++y) {
        VF_CHECK(q.ConstRow(&img, y) == img.ConstRow(q.y0() + y) + q.x0() && q.MutableRow(&img, y) == img.MutableRow(q.y0() + y) + q.x0(), "Rect row %zu", y);
        for (size_t c = 0; c < 3; ++c)
          VF_CHECK(q.ConstPlaneRow(img3, c, y) == img3.ConstPlaneRow(c, q.y0() + y) + q.x0() && q.MutablePlaneRow(&img3, c, y) == img3.ConstPlaneRow(c, q.y0() + y) + q.x0(), "Rect plane %zu row %zu", c, y);
      }
    r = q;
  }
}
VF_REG(VF_PREFIX "Image<u8>", 6000*4, 60000*4, &Histories<uint8_t>)
VF_REG(VF_PREFIX "Image<i16>", 6000*4, 60000*4, &Histories<int16_t>)
VF_REG(VF_PREFIX "Image<f32>", 6000*4, 60000*4, &Histories<float>)
VF_REG(VF_PREFIX "Image<f64>", 6000*4, 60000*4, &Histories<double>)
VF_REG(VF_PREFIX "Image3<u8>", 4000*4, 40000*4, &Planes<uint8_t>)
VF_REG(VF_PREFIX "Image3<u16>", 4000*4, 40000*4, &Planes<uint16_t>)
VF_REG(VF_PREFIX "Image3<f32>", 4000*4, 40000*4, &Planes<float>)
VF_REG(VF_PREFIX "Image3<u64>", 4000*4, 40000*4, &Planes<uint64_t>)
VF_REG(VF_PREFIX "Leaks", 10000*4, 100000*4, &Leaks)
VF_REG(VF_PREFIX "BytesPerRow", 20000*4, 300000*4, &BytesPerRow)
VF_REG(VF_PREFIX "Coords", 20000*4, 300000*4, &Coords)
VF_REG(VF_PREFIX "Rect", 20000*4, 300000*4, &Rects)
}  // namespace
