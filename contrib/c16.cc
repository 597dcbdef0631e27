// C16: aligned allocation histories. malloc/free of the library are wrapped
// (-Wl,--wrap) so that the default path is tracked like custom allocators:
// every block ends at (or starts after) an inaccessible page.
#include "hwy/aligned_allocator.h"
#include "hwy/per_target.h"
#include "vf.h"

#include <array>
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <thread>

extern "C" { void* __real_malloc(size_t); void __real_free(void*); }

namespace {
using vf::Ctx;
using vf::Src;

struct Block { uint8_t* base; size_t total, bytes; uint8_t* p; };
struct Arena {
  std::map<uint8_t*, Block> live;
  uint64_t allocs = 0, frees = 0;
  const char* error = nullptr;
  bool fail_next = false;
  size_t last_bytes = 0;
  uint32_t mode = 0;
  void* Alloc(size_t bytes, size_t align) {
    ++allocs; last_bytes = bytes;
    if (fail_next) { return nullptr; }
    if (bytes > (size_t(1) << 26)) return nullptr;
    const size_t pages = (bytes + 4095 + 512) / 4096 + 1;
    const size_t total = (pages + 2) * 4096;
    uint8_t* base = static_cast<uint8_t*>(mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (base == MAP_FAILED) return nullptr;
    mprotect(base + 4096, pages * 4096, PROT_READ | PROT_WRITE);
    uint8_t* end = base + 4096 + pages * 4096;
    uint8_t* p;
    mode = mode * 1664525 + 1013904223;
    const size_t mis = (mode >> 16) % 512 / align * align;
    if (mode >> 31) { p = end - bytes; p -= reinterpret_cast<uintptr_t>(p) % align; p -= ((mode >> 8) & 1) ? 0 : 0; }
    else p = base + 4096 + mis;
    memset(base + 4096, 0xEE, pages * 4096);
    live[p] = Block{base, total, bytes, p};
    return p;
  }
  void Free(void* q) {
    ++frees;
    auto it = live.find(static_cast<uint8_t*>(q));
    if (it == live.end()) { if (q) error = "deallocator called with a pointer that is not a live allocation"; return; }
    Block b = it->second;
    // bytes outside the block must be untouched
    for (uint8_t* x = b.base + 4096; x < b.p; ++x) if (*x != 0xEE) { error = "byte before the allocated block was written"; break; }
    for (uint8_t* x = b.p + b.bytes; x < b.base + b.total - 4096; ++x) if (*x != 0xEE) { error = "byte after the allocated block was written"; break; }
    munmap(b.base, b.total);
    live.erase(it);
  }
  bool Inside(const void* p, size_t n) const {
    const uint8_t* q = static_cast<const uint8_t*>(p);
    for (auto& kv : live) if (q >= kv.second.p && q + n <= kv.second.p + kv.second.bytes) return true;
    return false;
  }
  ~Arena() { for (auto& kv : live) munmap(kv.second.base, kv.second.total); }
};
thread_local Arena* g_track = nullptr;  // non-null: wrapped malloc uses it
std::mutex g_mu;

struct Untrack { Arena* a; Untrack() : a(g_track) { g_track = nullptr; } ~Untrack() { g_track = a; } };
}  // namespace

extern "C" void* __wrap_malloc(size_t n) {
  if (!g_track) return __real_malloc(n);
  Arena* a = g_track; Untrack u;
  return a->Alloc(n, 16);
}
extern "C" void __wrap_free(void* p) {
  if (!g_track) { __real_free(p); return; }
  Arena* a = g_track; Untrack u;
  a->Free(p);
}

namespace {
struct Opaque { Arena* arena; uint64_t tag; };
void* CustomAlloc(void* o, size_t n) { Untrack u; Opaque* q = static_cast<Opaque*>(o); return q->tag == 0xC0FFEE ? q->arena->Alloc(n, 1) : nullptr; }
void CustomFree(void* o, void* p) { Untrack u; Opaque* q = static_cast<Opaque*>(o); if (q->tag != 0xC0FFEE) return; if (!p) q->arena->error = "custom free called with null"; q->arena->Free(p); }

size_t MaxAlign() { return std::max<size_t>(HWY_ALIGNMENT, hwy::VectorBytes()); }
void CheckBlock(const void* p, size_t n, const Arena& a, const char* what) {
  VF_CHECK(reinterpret_cast<uintptr_t>(p) % MaxAlign() == 0, "%s(%zu) returned %p, not aligned to %zu", what, n, p, MaxAlign());
  VF_CHECK(hwy::IsAligned(static_cast<const uint8_t*>(p)), "IsAligned(%p)", p);
  VF_CHECK(a.Inside(p, n), "%s: %zu bytes at %p are not all inside one block obtained from the allocator (last request %zu)", what, n, p, a.last_bytes);
}
template <size_t N> struct Pod { uint8_t b[N]; };
struct Counted {
  static int64_t live; static uint64_t ctor, dtor; static const char* error;
  uint64_t magic; int a; double d;
  Counted(int x = 7, double y = 2.5) : magic(0x1234567890ABCDEFull), a(x), d(y) { ++live; ++ctor; }
  ~Counted() { if (magic != 0x1234567890ABCDEFull) error = "destructor ran on something that is not a live object"; magic = 0; --live; ++dtor; }
  Counted(const Counted&) = delete;
};
int64_t Counted::live; uint64_t Counted::ctor, Counted::dtor; const char* Counted::error;
struct Counted3 : Counted { char pad[11]; using Counted::Counted; };

struct Item {
  uint8_t* p; size_t n; uint8_t seed;
  std::function<void()> release;
};
uint8_t Pat(uint8_t seed, size_t i) { return uint8_t(seed + i * 131 + (i >> 8)); }

template <class T> T* GetUntracked(T* p) { return p; }
#define TRACK(arena) g_track = &(arena)

VF_TASK(History, 100000, 2000000) {
  g_track = nullptr;
  Arena def, cust;
  def.mode = uint32_t(s.Bits(32)); cust.mode = uint32_t(s.Bits(32));
  Opaque op{&cust, 0xC0FFEE};
  std::vector<Item> live;
  Counted::live = 0; Counted::ctor = Counted::dtor = 0; Counted::error = nullptr;
  int64_t want_objs = 0;
  uint64_t checks = 0;
  struct Guard { ~Guard() { g_track = nullptr; } } guard;
  auto size = [&]() -> size_t {
    switch (s.Below(5)) { case 0: return 1 + size_t(s.Below(300)); case 1: return size_t(1) << s.Below(14); case 2: return (size_t(1 + s.Below(10)) << 10) - 130 + size_t(s.Below(260)); case 3: return 1 + size_t(s.Below(20000)); default: return 128 * (1 + size_t(s.Below(64))); }
  };
  auto verify = [&](const Item& it, const char* when) {
    for (size_t i = 0; i < it.n; ++i) VF_CHECK(it.p[i] == Pat(it.seed, i), "%s: live allocation of %zu bytes was overwritten at offset %zu", when, it.n, i);
    ++checks;
  };
  const int steps = 2 + int(s.Below(24));
  for (int st = 0; st < steps; ++st) {
    const bool custom = s.Bool();
    Arena& ar = custom ? cust : def;
    const uint64_t f0c = cust.frees, f0d = def.frees, a0 = ar.allocs;
    hwy::AllocPtr ap = custom ? &CustomAlloc : nullptr; hwy::FreePtr fp = custom ? &CustomFree : nullptr; void* oq = custom ? &op : nullptr;
    const uint64_t kind = s.Below(9);
    auto add = [&](void* p, size_t n, std::function<void()> rel, const char* what, bool fill = true) {
      VF_CHECK(p != nullptr, "%s returned null although the allocator succeeded", what);
      VF_CHECK(ar.allocs == a0 + 1, "%s called the allocator %d times", what, int(ar.allocs - a0));
      CheckBlock(p, n, ar, what);
      if (!fill) return;
      Item it{static_cast<uint8_t*>(p), n, uint8_t(s.Bits(8)), std::move(rel)};
      for (size_t i = 0; i < n; ++i) it.p[i] = Pat(it.seed, i);
      live.push_back(std::move(it));
    };
    switch (kind) {
      case 0: {
        const size_t n = size();
        cx.Desc([&] { return vf::Fmt("AllocateAlignedBytes(%zu)%s; ", n, custom ? " custom" : ""); });
        TRACK(def); void* p = hwy::AllocateAlignedBytes(n, ap, oq); g_track = nullptr;
        add(p, n, [p, fp, oq, &def] { TRACK(def); hwy::FreeAlignedBytes(p, fp, oq); g_track = nullptr; }, "AllocateAlignedBytes");
        break;
      }
      case 1: case 2: {
        const size_t n = 1 + size() / 12;
        cx.Desc([&] { return vf::Fmt("AllocateAligned(%zu)%s; ", n, custom ? " custom" : ""); });
        auto mk = [&](auto tag, size_t sz) {
          using P = decltype(tag);
          TRACK(def);
          auto up = custom ? hwy::AllocateAligned<P>(n, ap, fp, oq) : hwy::AllocateAligned<P>(n);
          g_track = nullptr;
          void* p = up.get();
          auto sp = std::make_shared<decltype(up)>(std::move(up));
          add(p, n * sz, [sp, &def] { TRACK(def); sp->reset(); g_track = nullptr; }, "AllocateAligned");
        };
        switch (s.Below(6)) { case 0: mk(Pod<1>(), 1); break; case 1: mk(Pod<3>(), 3); break; case 2: mk(Pod<4>(), 4); break; case 3: mk(Pod<12>(), 12); break; case 4: mk(Pod<16>(), 16); break; default: mk(Pod<24>(), 24); }
        break;
      }
      case 3: {
        const size_t n = 1 + size_t(s.Below(60)); const int x = int(s.Below(1000)); const bool three = s.Bool();
        cx.Desc([&] { return vf::Fmt("MakeUniqueAlignedArray(%zu)%s; ", n, custom ? " custom" : ""); });
        auto mk = [&](auto* tag) {
          using O = std::remove_pointer_t<decltype(tag)>;
          const uint64_t c0 = Counted::ctor, d0 = Counted::dtor;
          TRACK(def);
          auto up = custom ? hwy::MakeUniqueAlignedArrayWithAlloc<O>(n, ap, fp, oq, x, 1.5) : hwy::MakeUniqueAlignedArray<O>(n, x, 1.5);
          g_track = nullptr;
          O* p = up.get();
          add(p, n * sizeof(O), nullptr, "MakeUniqueAlignedArray", false);
          VF_CHECK(Counted::ctor == c0 + n && Counted::dtor == d0, "MakeUniqueAlignedArray(%zu) ran %d constructors", n, int(Counted::ctor - c0));
          for (size_t i = 0; i < n; ++i) VF_CHECK(p[i].a == x && p[i].d == 1.5, "element %zu not constructed from the arguments", i);
          auto up2 = std::move(up);
          TRACK(def); up.reset(); up2.reset(); g_track = nullptr;
          VF_CHECK(Counted::dtor == d0 + n, "%d destructors ran for %zu elements", int(Counted::dtor - d0), n);
        };
        if (three) mk(static_cast<Counted3*>(nullptr)); else mk(static_cast<Counted*>(nullptr));
        VF_CHECK(ar.allocs == a0 + 1 && ar.frees == (custom ? f0c : f0d) + 1, "array was not released exactly once");
        break;
      }
      case 4: {
        cx.Desc([&] { return vf::Fmt("MakeUniqueAligned%s; ", custom ? " custom" : ""); });
        const uint64_t c0 = Counted::ctor, d0 = Counted::dtor;
        TRACK(def);
        auto up = custom ? hwy::MakeUniqueAlignedWithAlloc<Counted3>(ap, fp, oq, 9) : hwy::MakeUniqueAligned<Counted3>(9);
        g_track = nullptr;
        add(up.get(), sizeof(Counted3), nullptr, "MakeUniqueAligned", false);
        VF_CHECK(Counted::ctor == c0 + 1 && up->a == 9 && up->d == 2.5, "MakeUniqueAligned constructor");
        TRACK(def); up.reset(); g_track = nullptr;
        VF_CHECK(Counted::dtor == d0 + 1 && ar.frees == (custom ? f0c : f0d) + 1, "MakeUniqueAligned not destroyed/released exactly once");
        break;
      }
      case 5: {  // failing allocator
        ar.fail_next = true;
        const uint64_t which = s.Below(4);
        cx.Desc([&] { return vf::Fmt("failing allocator, form %d; ", int(which)); });
        const uint64_t c0 = Counted::ctor, d0 = Counted::dtor;
        TRACK(def);
        const void* r = nullptr;
        if (which == 0) r = hwy::AllocateAlignedBytes(100, ap, oq);
        else if (which == 1) { auto u = hwy::AllocateAligned<Pod<12>>(100, ap, fp, oq); r = u.get(); }
        else if (which == 2) { auto u = hwy::MakeUniqueAlignedArrayWithAlloc<Counted>(9, ap, fp, oq); r = u.get(); }
        else { auto u = custom ? hwy::MakeUniqueAlignedWithAlloc<Counted>(ap, fp, oq) : hwy::MakeUniqueAligned<Counted>(); r = u.get(); }
        g_track = nullptr;
        ar.fail_next = false;
        VF_CHECK(r == nullptr, "result of a failed allocation is not null");
        VF_CHECK(Counted::ctor == c0 && Counted::dtor == d0, "objects were constructed without memory");
        VF_CHECK(cust.frees == f0c && def.frees == f0d, "a failed allocation was released");
        break;
      }
      case 6: {  // size computations that overflow or nearly do
        const uint64_t which = s.Below(7);
        const size_t delta = size_t(s.Below(40));
        const size_t top = s.Bool() ? SIZE_MAX : SIZE_MAX / 2;
        cx.Desc([&] { return vf::Fmt("overflow form %d delta %zu; ", int(which), delta); });
        // Returns null or memory for all items.
        auto chk = [&](void* p, size_t items, size_t sz, const char* what) {
          g_track = nullptr;
          unsigned __int128 want = (unsigned __int128)items * sz;
          if (p) VF_CHECK(want < (size_t(1) << 40) && ar.Inside(p, size_t(want)), "%s of %zu items of %zu bytes returned a short block (allocator asked for %zu)", what, items, sz, ar.last_bytes);
        };
        auto mk = [&](auto tag) {
          using P = decltype(tag);
          const size_t items = top / sizeof(P) + delta - (s.Bool() ? 20 : 0);
          TRACK(def);
          auto u = hwy::AllocateAligned<P>(items, ap, fp, oq);
          chk(u.get(), items, sizeof(P), "AllocateAligned");
          TRACK(def);
        };
        switch (which) {
          case 0: { const size_t n = SIZE_MAX - delta; TRACK(def); void* p = hwy::AllocateAlignedBytes(n, ap, oq); chk(p, n, 1, "AllocateAlignedBytes"); break; }
          case 1: { const size_t n = SIZE_MAX / 2 - 20 + delta; TRACK(def); void* p = hwy::AllocateAlignedBytes(n, ap, oq); chk(p, n, 1, "AllocateAlignedBytes"); break; }
          case 2: mk(Pod<4>()); break;
          case 3: mk(Pod<12>()); break;
          case 4: mk(Pod<3>()); break;
          case 5: { const size_t items = top / sizeof(Counted3) + 1 + delta; const uint64_t c0 = Counted::ctor; TRACK(def); auto u = hwy::MakeUniqueAlignedArrayWithAlloc<Counted3>(items, ap, fp, oq, 3); g_track = nullptr; VF_CHECK(u.get() == nullptr && Counted::ctor == c0, "MakeUniqueAlignedArray of %zu items", items); break; }
          default: {
            using P = Pod<24>;
            const size_t items = SIZE_MAX / sizeof(P) + 1 + delta;
            hwy::AlignedAllocator<P> al;
            TRACK(def);
            P* p = nullptr;
            try { p = al.allocate(items); } catch (const std::bad_alloc&) { p = nullptr; }
            g_track = nullptr;
            VF_CHECK(p == nullptr, "AlignedAllocator::allocate(%zu) of %zu-byte items returned a %zu-byte block", items, sizeof(P), def.last_bytes);
          }
        }
        g_track = nullptr;
        break;
      }
      default: {
        if (live.empty()) break;
        const size_t k = size_t(s.Below(live.size()));
        verify(live[k], "before release");
        const uint64_t fr = cust.frees + def.frees;
        live[k].release();
        VF_CHECK(cust.frees + def.frees == fr + 1, "released %d times", int(cust.frees + def.frees - fr));
        live.erase(live.begin() + long(k));
        cx.Desc([&] { return std::string("release; "); });
      }
    }
    if (s.Below(4) == 0) for (auto& it : live) verify(it, "during");
    VF_CHECK(!cust.error && !def.error, "%s", cust.error ? cust.error : def.error);
    VF_CHECK(!Counted::error && Counted::live == want_objs, "%s", Counted::error ? Counted::error : "object count");
  }
  for (auto& it : live) { verify(it, "at end"); const uint64_t fr = cust.frees + def.frees; it.release(); VF_CHECK(cust.frees + def.frees == fr + 1, "released %d times", int(cust.frees + def.frees - fr)); }
  VF_CHECK(!cust.error && !def.error, "%s", cust.error ? cust.error : def.error);
  VF_CHECK(cust.live.empty() && def.live.empty(), "memory leaked");
  // null and DoNothing
  { TRACK(def); const uint64_t f = def.frees + cust.frees; hwy::FreeAlignedBytes(nullptr, nullptr, nullptr); hwy::FreeAlignedBytes(nullptr, &CustomFree, &op); g_track = nullptr; VF_CHECK(def.frees + cust.frees == f, "freeing null called the deallocator"); }
  cx.evals = checks + uint64_t(steps);
  cx.nontrivial = def.allocs + cust.allocs > 2;
}

// All residues of the cyclic offset; consecutive allocations.
VF_TASK(Sizes, 100000, 2000000) {
  g_track = nullptr; Arena def; struct Guard { ~Guard() { g_track = nullptr; } } guard;
  def.mode = uint32_t(s.Bits(32));
  const size_t n = s.Bool() ? 1 + size_t(s.Enum(5000)) : 1 + s.Len(200000, 1024);
  cx.Desc([&] { return vf::Fmt("%zu bytes x 10", n); });
  void* p[10];
  for (void*& q : p) { TRACK(def); q = hwy::AllocateAlignedBytes(n); g_track = nullptr; VF_CHECK(q, "null"); CheckBlock(q, n, def, "AllocateAlignedBytes"); memset(q, 0x5A, n); }
  for (void* q : p) { TRACK(def); hwy::FreeAlignedBytes(q, nullptr, nullptr); g_track = nullptr; }
  VF_CHECK(!def.error && def.live.empty(), "%s", def.error ? def.error : "leak");
  cx.evals = 10;
}

template <class T> void VecOps(Src& s, Ctx& cx) {
  hwy::AlignedVector<T> v; std::vector<T> r;
  const int steps = 1 + int(s.Below(30));
  for (int i = 0; i < steps; ++i) {
    const T x = T(s.Bits(31));
    switch (s.Below(9)) {
      case 0: v.push_back(x); r.push_back(x); break;
      case 1: { const size_t n = size_t(s.Below(300)); v.resize(n); r.resize(n); break; }
      case 2: { const size_t n = size_t(s.Below(300)); v.assign(n, x); r.assign(n, x); break; }
      case 3: { const size_t k = size_t(s.Below(r.size() + 1)), n = size_t(s.Below(40)); v.insert(v.begin() + long(k), n, x); r.insert(r.begin() + long(k), n, x); break; }
      case 4: if (!r.empty()) { const size_t k = size_t(s.Below(r.size())); v.erase(v.begin() + long(k)); r.erase(r.begin() + long(k)); } break;
      case 5: { hwy::AlignedVector<T> w(v); w.push_back(x); v.swap(w); r.push_back(x); break; }
      case 6: { hwy::AlignedVector<T> w(std::move(v)); v = std::move(w); break; }
      case 7: v.shrink_to_fit(); break;
      default: v.reserve(size_t(s.Below(500)));
    }
    VF_CHECK(v.size() == r.size(), "AlignedVector size");
    if (!r.empty()) {
      VF_CHECK(reinterpret_cast<uintptr_t>(v.data()) % MaxAlign() == 0, "AlignedVector data is not aligned");
      for (size_t k = 0; k < r.size(); ++k) VF_CHECK(v[k] == r[k], "AlignedVector element %zu", k);
    }
  }
  hwy::AlignedAllocator<T> a; hwy::AlignedAllocator<char> b(a);
  VF_CHECK(a == b && !(a != b), "allocator equality");
  cx.evals = uint64_t(steps);
  cx.nontrivial = r.size() > 1;
}
VF_REG("AlignedVector<u8>", 40000, 600000, &VecOps<uint8_t>)
VF_REG("AlignedVector<double>", 40000, 600000, &VecOps<double>)
struct Odd { uint32_t a; uint8_t b[9]; Odd(uint32_t x = 5) : a(x) { memset(b, int(x), 9); } bool operator==(const Odd& o) const { return a == o.a && !memcmp(b, o.b, 9); } };
VF_REG("AlignedVector<odd>", 40000, 600000, &VecOps<Odd>)

template <class T, size_t AX> void NDArray(Src& s, Ctx& cx) {
  g_track = nullptr; Arena def; struct Guard { ~Guard() { g_track = nullptr; } } guard;
  std::array<size_t, AX> sh; size_t total = 1;
  for (size_t i = 0; i < AX; ++i) { sh[i] = 1 + size_t(s.Below(i + 1 == AX ? 150 : (AX == 2 ? 20 : 6))); total *= sh[i]; }
  cx.Desc([&] { std::string d = "shape"; for (size_t x : sh) d += vf::Fmt(" %zu", x); return d; });
  const size_t vb = hwy::VectorBytes();
  TRACK(def);
  auto* arr0 = static_cast<hwy::AlignedNDArray<T, AX>*>(nullptr);
  { Untrack u; arr0 = static_cast<hwy::AlignedNDArray<T, AX>*>(__real_malloc(sizeof(hwy::AlignedNDArray<T, AX>))); }
  new (arr0) hwy::AlignedNDArray<T, AX>(sh);
  g_track = nullptr;
  hwy::AlignedNDArray<T, AX>& a = *arr0;
  VF_CHECK(a.shape() == sh && a.size() == total, "shape/size");
  size_t mt = 1;
  for (size_t i = 0; i < AX; ++i) { VF_CHECK(a.memory_shape()[i] >= sh[i] && (i + 1 == AX || a.memory_shape()[i] == sh[i]), "memory_shape"); mt *= a.memory_shape()[i]; }
  VF_CHECK(a.memory_size() == mt, "memory_size");
  VF_CHECK(def.Inside(a.data(), mt * sizeof(T)), "array memory is smaller than memory_size");
  for (size_t i = 0; i < mt; ++i) VF_CHECK(a.data()[i] == T(0), "not zero-initialised at %zu", i);
  auto each = [&](const std::array<size_t, AX>& shape, auto f) {
    size_t rows = 1; for (size_t i = 0; i + 1 < AX; ++i) rows *= shape[i];
    for (size_t r = 0; r < rows; ++r) {
      size_t idx[AX > 1 ? AX - 1 : 1] = {0}; size_t k = r;
      for (size_t i = AX - 1; i-- > 0;) { idx[i] = k % shape[i]; k /= shape[i]; }
      size_t id = 0; for (size_t i = 0; i + 1 < AX; ++i) id = id * 100 + idx[i];
      f(idx, id);
    }
  };
  const auto row_of = [](auto& arr, const size_t* idx) {
    (void)idx;
    if constexpr (AX == 1) return arr[std::array<const size_t, 0>{}];
    else if constexpr (AX == 2) return arr[{idx[0]}];
    else if constexpr (AX == 3) return arr[{idx[0], idx[1]}];
    else return arr[{idx[0], idx[1], idx[2]}];
  };
  const hwy::AlignedNDArray<T, AX>& ca = a;
  auto row = [&](const size_t* idx) {
    const hwy::Span<T> r = row_of(a, idx);
    const hwy::Span<const T> c = row_of(ca, idx);
    VF_CHECK(ca.data() == a.data() && c.data() == r.data() && c.size() == r.size() && c.cbegin() == r.data() && c.cend() == r.data() + r.size() && r.cend() == r.data() + r.size(), "const row differs from the row");
    return r;
  };
  uint64_t n = 0;
  each(sh, [&](const size_t* idx, size_t id) {
    hwy::Span<T> r = row(idx);
    VF_CHECK(r.size() == sh[AX - 1] && size_t(r.end() - r.begin()) == r.size(), "row size %zu", r.size());
    VF_CHECK(reinterpret_cast<uintptr_t>(r.data()) % vb == 0, "row is not aligned to the vector size");
    VF_CHECK(r.data() >= a.data() && r.data() + r.size() <= a.data() + mt, "row outside the buffer");
    for (size_t i = 0; i < r.size(); ++i) r[i] = T(id * 7 + i);
    ++n;
  });
  std::array<size_t, AX> tr = sh;
  for (int pass = 0; pass < 2; ++pass) {
    each(tr, [&](const size_t* idx, size_t id) {
      hwy::Span<T> r = row(idx);
      VF_CHECK(r.size() == tr[AX - 1], "row size after truncate");
      for (size_t i = 0; i < r.size(); ++i) VF_CHECK(r[i] == T(id * 7 + i), "element %zu of a row changed (rows overlap, or truncate moved data)", i);
      ++n;
    });
    for (size_t i = 0; i < AX; ++i) tr[i] = 1 + size_t(s.Below(tr[i]));
    if (pass == 0) { a.truncate(tr); size_t t = 1; for (size_t x : tr) t *= x; VF_CHECK(a.shape() == tr && a.size() == t && a.memory_size() == mt, "truncate sizes"); }
  }
  TRACK(def); arr0->~AlignedNDArray(); g_track = nullptr;
  __real_free(arr0);
  VF_CHECK(!def.error && def.live.empty(), "%s", def.error ? def.error : "leak");
  cx.evals = n;
}
// Span: a view of exactly the given elements.
void SpanView(Src& s, Ctx& cx) {
  const size_t n = size_t(s.Below(40));
  std::vector<uint32_t> v(n + 2);
  for (size_t i = 0; i < v.size(); ++i) v[i] = uint32_t(s.Below(1000));
  cx.Desc([&] { return vf::Fmt("%zu elements", n); });
  std::vector<uint32_t> model = v;
  hwy::Span<uint32_t> none;
  VF_CHECK(none.size() == 0 && none.begin() == none.end() && none.cbegin() == none.cend(), "default span is not empty");
  hwy::Span<uint32_t> sp(v.data() + 1, n);
  VF_CHECK(sp.size() == n && sp.data() == v.data() + 1 && sp.begin() == sp.cbegin() && sp.end() == v.data() + 1 + n && sp.cend() == sp.end(), "span extent");
  for (size_t i = 0; i < n; ++i) VF_CHECK(&sp[i] == &v[1 + i], "span element %zu", i);
  hwy::Span<uint32_t> whole(v); const hwy::Span<const uint32_t> cw(static_cast<const std::vector<uint32_t>&>(v));
  VF_CHECK(whole.data() == v.data() && whole.size() == v.size() && cw.data() == v.data() && cw.size() == v.size(), "span of a vector");
  size_t k = 0; for (uint32_t& x : sp) { x += 3; ++k; }
  VF_CHECK(k == n, "iterated %zu of %zu", k, n);
  for (size_t i = 0; i < n; ++i) model[1 + i] += 3;
  VF_CHECK(v == model, "iteration changed other elements");
  if (n >= 3) {
    const size_t at = size_t(s.Below(n - 2));
    const uint32_t a = uint32_t(s.Bits(32)), b = uint32_t(s.Bits(32)), c = uint32_t(s.Bits(32));
    hwy::Span<uint32_t> three(v.data() + 1 + at, 3);
    three = {a, b, c};
    model[1 + at] = a; model[2 + at] = b; model[3 + at] = c;
    VF_CHECK(v == model && three.size() == 3 && three.data() == v.data() + 1 + at, "assigning an initializer list must copy it into the viewed elements only");
  }
  cx.nontrivial = n > 0;
}
VF_REG("Span", 20000, 200000, &SpanView)
using A1 = hwy::AlignedNDArray<float, 1>;
VF_REG("NDArray<float,1>", 3000, 30000, (&NDArray<float, 1>))
VF_REG("NDArray<u8,2>", 3000, 30000, (&NDArray<uint8_t, 2>))
VF_REG("NDArray<float,3>", 3000, 30000, (&NDArray<float, 3>))
VF_REG("NDArray<double,4>", 3000, 30000, (&NDArray<double, 4>))

// Concurrent allocation: blocks stay disjoint and intact.
VF_TASK(Concurrent, 60, 2000, vf::kNondet) {
  const int nt = 2 + int(s.Below(6));
  const uint64_t seed = s.Bits(32);
  std::atomic<int> bad{0};
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
    vf::Rng r(seed + uint64_t(t) * 977);
    std::vector<std::pair<uint8_t*, size_t>> v;
    for (int i = 0; i < 300; ++i) {
      if (v.size() < 20 && r.Below(3)) {
        const size_t n = 1 + size_t(r.Below(3000));
        uint8_t* p = static_cast<uint8_t*>(hwy::AllocateAlignedBytes(n));
        if (!p || reinterpret_cast<uintptr_t>(p) % MaxAlign()) { bad = 1; break; }
        memset(p, t + 1, n); v.push_back({p, n});
      } else if (!v.empty()) {
        auto b = v.back(); v.pop_back();
        for (size_t k = 0; k < b.second; ++k) if (b.first[k] != t + 1) { bad = 2; break; }
        hwy::FreeAlignedBytes(b.first, nullptr, nullptr);
      }
    }
    for (auto& b : v) { for (size_t k = 0; k < b.second; ++k) if (b.first[k] != t + 1) bad = 2; hwy::FreeAlignedBytes(b.first, nullptr, nullptr); }
  });
  for (auto& t : th) t.join();
  VF_CHECK(bad == 0, bad == 1 ? "concurrent allocation failed or misaligned" : "concurrent allocations overlap");
  cx.evals = uint64_t(nt) * 300;
}
}  // namespace
