// Driver of the vector-op engine: generates inputs per (op, types, lanes,
// immediate, target), runs kernel and oracle, compares, shrinks, reports.
#include <setjmp.h>
#include <signal.h>

#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <unordered_set>
#include <vector>

#include "hwy/abort.h"
#include "hwy/targets.h"
#include "vfop.h"
#include "vforacle.h"
#include "vfreport.h"

namespace vf {
static std::vector<Entry>& Entries() { static std::vector<Entry> v; return v; }
static std::vector<std::pair<int64_t, RegisterFn>>& Registrars() { static std::vector<std::pair<int64_t, RegisterFn>> v; return v; }
void AddEntry(const Entry& e) { Entries().push_back(e); }
TargetRegistrar::TargetRegistrar(int64_t target, RegisterFn fn) { Registrars().emplace_back(target, fn); }
}  // namespace vf
namespace vfo {
static std::map<std::tuple<std::string, int, int>, OracleEntry>& Oracles() { static std::map<std::tuple<std::string, int, int>, OracleEntry> m; return m; }
void AddOracle(const OracleEntry& o) { Oracles()[std::make_tuple(std::string(o.name), int(o.t), int(o.t2))] = o; }
}  // namespace vfo

namespace vf {
using vfo::Cx;
using vfo::Exp;
using vfo::OpSpec;
using vfo::OracleEntry;

#ifndef VF_PROPERTY
#define VF_PROPERTY "C00"
#endif

static sigjmp_buf g_jmp;
static volatile int g_in_kernel = 0;
static volatile int g_sig = 0;
static char g_abort_msg[512];

static void OnSignal(int sig) {
  if (g_in_kernel) { g_sig = sig; siglongjmp(g_jmp, 1); }
  signal(sig, SIG_DFL);
  raise(sig);
}
static void OnAbort(const char* file, int line, const char* msg) {
  snprintf(g_abort_msg, sizeof g_abort_msg, "hwy abort %s:%d %s", file, line, msg);
  if (g_in_kernel) { g_sig = 1000; siglongjmp(g_jmp, 1); }
}

static const char* TargetStr(int64_t t) { return hwy::TargetName(t); }

// ------------------------------------------------------------ value generation
static uint64_t GenInt(Rng& r, int bits, int style) {
  const uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
  uint64_t x = r();
  switch (style) {
    case 0: return x & mask;
    case 1: {
      static const int kN = 12;
      switch ((x >> 32) % kN) {
        case 0: return 0;
        case 1: return 1;
        case 2: return mask;
        case 3: return mask >> 1;
        case 4: return (mask >> 1) + 1;
        case 5: return mask - 1;
        case 6: return (mask >> 1) - 1;
        case 7: return (mask >> 1) + 2;
        case 8: return (1ull << (bits / 2)) & mask;
        case 9: return ((1ull << (bits / 2)) - 1) & mask;
        case 10: return x & mask;
        default: return (mask << (bits / 2)) & mask;
      }
    }
    case 2: return ((x % 17) - 8) & mask;
    case 3: { // power of two +- small
      uint64_t p = 1ull << (x % bits);
      int64_t dlt = int64_t((x >> 8) % 5) - 2;
      if ((x >> 16) & 1) p = ~p + 1;
      return (p + uint64_t(dlt)) & mask;
    }
    case 4: { // few-bit / byte patterns
      if (x & 1) return (r() & r() & r()) & mask;
      if (x & 2) return (r() | r() | r()) & mask;
      uint64_t b = (x >> 8) & 0xFF;
      return (b * 0x0101010101010101ull) & mask;
    }
    default: return (x % 256) & mask;
  }
}
static void FloatParams(Ty t, int& mant, int& exp) {
  mant = t == F64 ? 52 : t == F32 ? 23 : t == F16 ? 10 : 7;
  exp = t == F64 ? 11 : t == F16 ? 5 : 8;
}
static uint64_t DoubleToTy(double v, Ty t) {
  if (t == F64) { uint64_t u; memcpy(&u, &v, 8); return u; }
  if (t == F32) { float f = float(v); uint32_t u; memcpy(&u, &f, 4); return u; }
  if (t == F16) return vfo::F64ToF16(v).bits;
  return vfo::F32ToBF16(float(v)).bits;
}
static uint64_t GenFloat(Rng& r, Ty t, int style) {
  int mant, exp; FloatParams(t, mant, exp);
  const int bits = 1 + mant + exp;
  const uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
  const uint64_t mm = (1ull << mant) - 1, em = (1ull << exp) - 1, bias = em >> 1;
  uint64_t x = r();
  const uint64_t sgn = (x >> 63) << (bits - 1);
  auto mk = [&](uint64_t e, uint64_t m) { return sgn | (e << mant) | (m & mm); };
  switch (style) {
    case 0: return x & mask;
    case 1:
      switch ((x >> 8) % 16) {
        case 0: return mk(0, 0);
        case 1: return mk(em, 0);
        case 2: return mk(em, (1ull << (mant - 1)) | (r() & mm));  // qNaN
        case 3: return mk(em, 1 + (r() & (mm >> 1) & ~1ull));      // sNaN-ish
        case 4: return mk(0, 1);
        case 5: return mk(0, mm);
        case 6: return mk(1, 0);
        case 7: return mk(em - 1, mm);
        case 8: return mk(em - 1, 0);
        case 9: return mk(bias, 0);
        case 10: return mk(bias, 1);
        case 11: return mk(bias - 1, mm);
        case 12: return mk(bias - 1, 0);
        case 13: return mk(0, r());
        case 14: return mk(bias + mant, r());
        default: return mk(bias + (r() % 8), r());
      }
    case 2: {  // small integers and halves
      double v = double(int64_t(r() % 33) - 16);
      if (x & 1) v += 0.5;
      if (x & 2) v *= 0.25;
      return DoubleToTy(v, t);
    }
    case 3:  // moderate magnitude
      return mk(bias - 8 + (r() % 17), r());
    case 4: {  // near integer-type boundaries
      static const int kE[] = {7, 8, 10, 11, 15, 16, 22, 23, 24, 30, 31, 32, 51, 52, 53, 62, 63, 64};
      int e = kE[r() % 18];
      uint64_t be = bias + uint64_t(e);
      if (be >= em) be = em - 1;
      uint64_t u = (be << mant);
      int64_t k = int64_t(r() % 9) - 4;
      u += uint64_t(k);
      if ((x & 7) == 0) u = (be << mant) | (r() & mm);
      if ((x & 7) == 1 || (x & 7) == 2)
        return DoubleToTy((x >> 63 ? -1 : 1) * (ldexp(1.0, e) + double(int64_t(r() % 17) - 8) * 0.25), t);
      return sgn | (u & (mask >> 1));
    }
    case 5: {  // halfway cases: k + 0.5 around increasing magnitudes
      int e = int(r() % uint64_t(mant + 2));
      double base = floor(ldexp(1.0 + double(r() % 1024) / 1024.0, e));
      static const double kF[] = {0, 0.5, 0.25, 0.75, 0.499999, 0.5000001};
      double v = base + kF[r() % 6];
      return DoubleToTy(x >> 63 ? -v : v, t);
    }
    default:  // wide exponent range, random mantissa
      return mk(1 + r() % (em - 1), r());
  }
}
static inline uint64_t GenLane(Rng& r, Ty t, int style) {
  return TyFloat(t) ? GenFloat(r, t, style) : GenInt(r, int(TySize(t)) * 8, style);
}
static int PickStyle(Rng& r, Ty t) {
  static const uint8_t kI[] = {0, 0, 0, 1, 1, 1, 2, 3, 3, 4};
  static const uint8_t kF[] = {0, 1, 1, 2, 3, 3, 4, 5, 5, 6};
  return TyFloat(t) ? kF[r() % 10] : kI[r() % 10];
}
static inline void PutLane(uint8_t* p, size_t sz, uint64_t v) { memcpy(p, &v, sz); }
static inline uint64_t GetLane(const uint8_t* p, size_t sz) { uint64_t v = 0; memcpy(&v, p, sz); return v; }

struct Case { In in; bool m[128], m2[128]; uint64_t gseed; };

static void GenMask(Rng& r, bool* m, size_t n) {
  uint64_t x = r();
  size_t k = r.Below(n + 1);
  switch (x % 10) {
    case 0: for (size_t i = 0; i < n; ++i) m[i] = false; break;
    case 1: for (size_t i = 0; i < n; ++i) m[i] = true; break;
    case 2: for (size_t i = 0; i < n; ++i) m[i] = i < k; break;
    case 3: for (size_t i = 0; i < n; ++i) m[i] = i >= k; break;
    case 4: for (size_t i = 0; i < n; ++i) m[i] = (i == k); break;
    case 5: for (size_t i = 0; i < n; ++i) m[i] = (i != k); break;
    default: {
      uint64_t w = (x >> 8) & 1 ? r() : (x >> 9) & 1 ? (r() & r()) : (r() | r());
      for (size_t i = 0; i < n; ++i) m[i] = (w >> (i & 63)) & 1;
    }
  }
}

static void FillRandomLanes(Rng& r, Case& cs, const OpSpec& s, const Entry& e) {
  In& in = cs.in;
  for (int k = 0; k < 4; ++k) {
    uint64_t* w = reinterpret_cast<uint64_t*>(in.r[k]);
    for (int i = 0; i < 8; ++i) w[i] = r();
    const Ty t = s.type[k];
    if (t == TyNone) continue;
    const size_t sz = TySize(t), n = size_t(s.count[k]);
    uint8_t* p = in.r[k];
    uint64_t mode = r() % 16;
    if (k > 0 && mode < 5 && TySize(s.type[0]) == sz) {
      // correlated with region 0
      int st = PickStyle(r, t);
      for (size_t i = 0; i < n; ++i) {
        size_t j = i < size_t(s.count[0]) ? i : 0;
        if (mode == 4) j = (i + 1) % size_t(s.count[0] ? s.count[0] : 1);
        uint64_t v = GetLane(in.r[0] + j * sz, sz);
        uint64_t c = r();
        switch (c % 8) {
          case 0: case 1: break;
          case 2: v += 1; break;
          case 3: v -= 1; break;
          case 4: v = TyFloat(t) ? v ^ (1ull << (sz * 8 - 1)) : ~v; break;
          case 5: v = TyFloat(t) ? v ^ (1ull << (sz * 8 - 1)) : (0 - v); break;
          default: if (mode < 2) v = GenLane(r, t, st);
        }
        PutLane(p + i * sz, sz, v);
      }
    } else if (mode == 15) {  // all equal
      uint64_t v = GenLane(r, t, PickStyle(r, t));
      for (size_t i = 0; i < n; ++i) PutLane(p + i * sz, sz, v);
    } else if (mode >= 12) {  // per-lane style
      for (size_t i = 0; i < n; ++i) PutLane(p + i * sz, sz, GenLane(r, t, PickStyle(r, t)));
    } else {
      int st = PickStyle(r, t);
      for (size_t i = 0; i < n; ++i) PutLane(p + i * sz, sz, GenLane(r, t, st));
    }
  }
  GenMask(r, cs.m, size_t(s.mcount));
  GenMask(r, cs.m2, size_t(s.mcount));
  for (int k = 0; k < 4; ++k) in.p[k] = int64_t(r());
  cs.gseed = r();
}
static void ApplySweep(uint64_t idx, Case& cs, const OpSpec& s, const Entry& e) {
  const size_t sz = TySize(s.type[0]);
  const uint64_t n = uint64_t(s.count[0]);
  if (s.sweep == 1) {
    for (size_t i = 0; i < n; ++i) PutLane(cs.in.r[0] + i * sz, sz, idx * n + i);
  } else {
    for (size_t i = 0; i < n; ++i) {
      uint64_t v = idx * n + i;
      cs.in.r[0][i] = uint8_t(v >> 8);
      cs.in.r[1][i] = uint8_t(v);
    }
  }
}
static uint64_t SweepCount(const OpSpec& s) {
  if (!s.sweep) return 0;
  const size_t sz = TySize(s.type[0]);
  if (s.sweep == 2) return sz == 1 ? (65536 + uint64_t(s.count[0]) - 1) / uint64_t(s.count[0]) : 0;
  if (sz > 2) return 0;
  return ((1ull << (8 * sz)) + uint64_t(s.count[0]) - 1) / uint64_t(s.count[0]);
}
static void Materialize(Case& cs, const OpSpec& s) {
  // masks -> regions 4,5 with random garbage beyond the valid lanes
  Rng g(cs.gseed);
  const size_t sz = TySize(s.mt), n = size_t(s.mcount);
  for (int k = 4; k < 6; ++k) {
    const bool* m = k == 4 ? cs.m : cs.m2;
    uint64_t bits = s.nogarbage ? 0 : g();
    for (size_t i = 0; i * sz < 64; ++i) {
      bool b = i < n ? m[i] : ((bits >> (i & 63)) & 1);
      memset(cs.in.r[k] + i * sz, b ? 0xFF : 0, sz);
    }
  }
}

static uint8_t g_canary[kOutRegions][kOutBytes];
static uint8_t* g_arena = nullptr;
static uint8_t g_mem[kMem], g_memdc[kMem];

// ------------------------------------------------------------ execution
struct Result { bool ok = true; std::string desc; };

static std::string HexLanes(const uint8_t* p, Ty t, size_t n) {
  std::string s = "[";
  char b[64];
  const size_t sz = TySize(t) ? TySize(t) : 1;
  for (size_t i = 0; i < n && i < 64; ++i) {
    uint64_t v = GetLane(p + i * sz, sz);
    snprintf(b, sizeof b, "%s%llx", i ? " " : "", (unsigned long long)v);
    s += b;
    if (t == F32) { float f; memcpy(&f, &v, 4); snprintf(b, sizeof b, "(%.9g)", double(f)); s += b; }
    if (t == F64) { double f; memcpy(&f, &v, 8); snprintf(b, sizeof b, "(%.17g)", f); s += b; }
  }
  return s + "]";
}
static std::string MaskStr(const bool* m, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += m[i] ? '1' : '0'; return s; }

static std::string Describe(const Entry& e, const OpSpec& s, const Case& cs) {
  char b[160];
  snprintf(b, sizeof b, "%s<%s%s%s,N=%d,k=%d> on %s", e.name, TyName(e.t), e.t == e.t2 ? "" : "->", e.t == e.t2 ? "" : TyName(e.t2), e.n, e.k, TargetStr(e.target));
  std::string r = b;
  static const char* kR = "abcd";
  for (int k = 0; k < 4; ++k) if (s.type[k] != TyNone) r += std::string(" ") + kR[k] + "=" + HexLanes(cs.in.r[k], s.type[k], size_t(s.count[k]));
  r += " m=" + MaskStr(cs.m, size_t(s.mcount)) + " m2=" + MaskStr(cs.m2, size_t(s.mcount));
  snprintf(b, sizeof b, " p=%lld,%lld,%lld,%lld", (long long)cs.in.p[0], (long long)cs.in.p[1], (long long)cs.in.p[2], (long long)cs.in.p[3]);
  return r + b;
}

static bool NanBits(uint64_t v, Ty t) {
  int mant, exp; FloatParams(t, mant, exp);
  return ((v >> mant) & ((1ull << exp) - 1)) == ((1ull << exp) - 1) && (v & ((1ull << mant) - 1));
}

// fn called with kernel protection (caller did sigsetjmp)
static bool Compare(const Entry& e, Cx& cx, Exp& ex, const Out& out, std::string* desc) {
  if (!cx.fail.empty()) { if (desc) *desc = cx.fail; return false; }
  for (size_t k = 0; k < kOutRegions; ++k) {
    if (!ex.mode[k]) {
      if (memcmp(out.r[k], g_canary[k], 64) != 0 && memcmp(out.r[k], g_canary[k], kOutBytes) != 0 && ex.n[k] == 0) { if (desc) *desc = "kernel wrote an output the oracle does not define"; return false; }
      continue;
    }
    const Ty t = ex.ty[k];
    const size_t sz = TySize(t), n = ex.n[k];
    if (memcmp(out.r[k] + n * sz, g_canary[k] + n * sz, kOutBytes - n * sz) != 0) {
      if (desc) *desc = "store wrote past the last lane of output " + std::to_string(k);
      return false;
    }
    if (memcmp(out.r[k], ex.r[k], n * sz) == 0) continue;
    for (size_t i = 0; i < n; ++i) {
      const uint64_t g = GetLane(out.r[k] + i * sz, sz), w = GetLane(ex.r[k] + i * sz, sz);
      if (g == w) continue;
      if (ex.has_dc[k] && ex.dc[k][i]) continue;
      const bool flt = ex.mode[k] >= vfo::kFlt && TyFloat(t);
      const uint64_t nosign = (sz == 8 ? ~0ull : (1ull << (8 * sz)) - 1) >> 1;
      if (flt && NanBits(g, t) && NanBits(w, t)) continue;
      if (ex.mode[k] == vfo::kFltZ && TyFloat(t) && (g & nosign) == 0 && (w & nosign) == 0) continue;
      if (ex.has_alt[k]) {
        const uint64_t al = GetLane(ex.alt[k] + i * sz, sz);
        if (g == al) continue;
        if (flt && NanBits(g, t) && NanBits(al, t)) continue;
        if (ex.mode[k] == vfo::kFltZ && TyFloat(t) && (g & nosign) == 0 && (al & nosign) == 0) continue;
      }
      if (desc) {
        char b[128]; snprintf(b, sizeof b, "output %zu lane %zu: got %llx expected %llx; ", k, i, (unsigned long long)g, (unsigned long long)w);
        *desc = std::string(b) + "got=" + HexLanes(out.r[k], t, n) + " expected=" + HexLanes(ex.r[k], t, n);
      }
      return false;
    }
  }
  (void)e;
  return true;
}

struct Runner {
  const Entry& e;
  const OracleEntry& o;
  OpSpec s;
  Exp ex;
  Out out;
  Runner(const Entry& en, const OracleEntry& oe) : e(en), o(oe) {
    for (int k = 0; k < 6; ++k) { s.type[k] = e.t; s.count[k] = e.n; }
    s.mt = e.t; s.mcount = e.n;
    o.spec(s, e);
    for (int k = 0; k < 6; ++k) if (s.type[k] != TyNone && TySize(s.type[k]) * size_t(s.count[k]) > 64) { fprintf(stderr, "bad spec for %s\n", e.name); _exit(3); }
  }
  // `raw` is pre-fix; returns whether the property held.
  bool Run(Case cs, std::string* desc, Case* fixed = nullptr) {
    o.fix(cs.in, e, cs.m, cs.m2);
    Materialize(cs, s);
    return RunFixed(cs, desc, fixed);
  }
  bool RunFixed(Case& cs, std::string* desc, Case* fixed) {
    if (fixed) *fixed = cs;
    memcpy(out.r, g_canary, sizeof(out.r));
    out.mem = g_arena;
    if (s.mem) {
      uint64_t z = Mix(cs.gseed);
      for (size_t i = 0; i < kMem; i += 8) {
        z = z * 6364136223846793005ull + 1442695040888963407ull;
        const uint64_t w = z ^ (z >> 29);
        memcpy(g_arena + i, &w, 8);
      }
      memcpy(g_mem, g_arena, kMem);
      memset(g_memdc, 0, kMem);
    }
    g_sig = 0;
    if (sigsetjmp(g_jmp, 0) != 0) {
      g_in_kernel = 0;
      sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGSEGV); sigaddset(&ss, SIGBUS); sigaddset(&ss, SIGFPE); sigaddset(&ss, SIGILL); sigaddset(&ss, SIGTRAP); sigaddset(&ss, SIGABRT);
      sigprocmask(SIG_UNBLOCK, &ss, nullptr);
      if (desc) { if (g_sig == 1000) *desc = g_abort_msg; else *desc = "signal " + std::to_string(g_sig) + " (" + strsignal(g_sig) + ")"; }
      return false;
    }
    g_in_kernel = 1;
    e.fn(cs.in, out);
    g_in_kernel = 0;
    memset(ex.mode, 0, sizeof ex.mode); memset(ex.has_alt, 0, sizeof ex.has_alt); memset(ex.has_dc, 0, sizeof ex.has_dc); memset(ex.n, 0, sizeof ex.n);
    Cx cx(cs.in, out, e, ex);
    memcpy(cx.m, cs.m, sizeof cx.m); memcpy(cx.m2, cs.m2, sizeof cx.m2);
    cx.mem = g_mem; cx.memdc = g_memdc;
    o.run(cx);
    if (!Compare(e, cx, ex, out, desc)) return false;
    if (s.mem && memcmp(g_mem, g_arena, kMem) != 0)
      for (size_t i = 0; i < kMem; ++i)
        if (g_mem[i] != g_arena[i] && !g_memdc[i]) {
          if (desc) { char b[128]; snprintf(b, sizeof b, "memory byte at arena offset %zu of %zu: got %02x expected %02x", i, kMem, g_arena[i], g_mem[i]); *desc = b; }
          return false;
        }
    return true;
  }
  Case Shrink(Case cs) {
    int budget = 4000;
    auto fails = [&](const Case& c) { return budget-- > 0 && !Run(c, nullptr); };
    bool again = true;
    while (again && budget > 0) {
      again = false;
      for (int k = 0; k < 4; ++k) {
        const Ty t = s.type[k];
        if (t == TyNone) continue;
        const size_t sz = TySize(t), n = 64 / sz;
        { Case c = cs; memset(c.in.r[k], 0, 64); if (memcmp(c.in.r[k], cs.in.r[k], 64) && fails(c)) { cs = c; again = true; continue; } }
        for (size_t i = 0; i < n; ++i) {
          uint64_t v = GetLane(cs.in.r[k] + i * sz, sz);
          if (!v) continue;
          uint64_t cand[5] = {0, 1, v >> (sz * 4), v >> 1, v & (v - 1)};
          if (TyFloat(t)) { cand[1] = DoubleToTy(1.0, t); cand[2] = v & ~((1ull << (t == F64 ? 40 : t == F32 ? 16 : 5)) - 1); cand[3] = v & ~(1ull << (sz * 8 - 1)); cand[4] = DoubleToTy(2.0, t); }
          for (uint64_t nv : cand) {
            if (nv == v || (nv > v && !TyFloat(t))) continue;
            if (TyFloat(t) && (v == cand[1] || v == cand[4]) && nv != 0) continue;
            Case c = cs; PutLane(c.in.r[k] + i * sz, sz, nv);
            if (fails(c)) { cs = c; again = true; break; }
          }
        }
      }
      for (int k = 0; k < 2; ++k)
        for (int i = 0; i < s.mcount; ++i) {
          bool* m = k ? cs.m2 : cs.m;
          if (!m[i]) continue;
          Case c = cs; (k ? c.m2 : c.m)[i] = false;
          if (fails(c)) { cs = c; again = true; }
        }
      for (int k = 0; k < 4; ++k) {
        if (!cs.in.p[k]) continue;
        for (int64_t nv : {int64_t(0), int64_t(uint64_t(cs.in.p[k]) >> 32), int64_t(uint64_t(cs.in.p[k]) >> 8), int64_t(uint64_t(cs.in.p[k]) >> 1), int64_t(uint64_t(cs.in.p[k]) - 1)}) {
          if (uint64_t(nv) >= uint64_t(cs.in.p[k])) continue;
          Case c = cs; c.in.p[k] = nv;
          if (fails(c)) { cs = c; again = true; break; }
        }
      }
    }
    return cs;
  }
};

static std::string CaseToReplay(const Entry& e, const Case& cs) {
  std::string s;
  char b[256];
  snprintf(b, sizeof b, "op %s\nt %s\nt2 %s\nn %d\nk %d\ntarget %s\n", e.name, TyName(e.t), TyName(e.t2), e.n, e.k, TargetStr(e.target));
  s += b;
  for (int k = 0; k < 4; ++k) {
    snprintf(b, sizeof b, "r%d ", k); s += b;
    for (int i = 0; i < 64; ++i) { snprintf(b, sizeof b, "%02x", cs.in.r[k][i]); s += b; }
    s += "\n";
  }
  s += "m " + MaskStr(cs.m, 128) + "\nm2 " + MaskStr(cs.m2, 128) + "\n";
  snprintf(b, sizeof b, "p %lld %lld %lld %lld\ngseed %llu\n", (long long)cs.in.p[0], (long long)cs.in.p[1], (long long)cs.in.p[2], (long long)cs.in.p[3], (unsigned long long)cs.gseed);
  return s + b;
}
static bool ParseReplay(const char* path, std::map<std::string, std::string>& kv) {
  FILE* f = fopen(path, "r"); if (!f) return false;
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#') continue;
    char* sp = strchr(line, ' '); if (!sp) continue;
    *sp = 0; std::string v = sp + 1; while (!v.empty() && (v.back() == '\n')) v.pop_back();
    kv[line] = v;
  }
  fclose(f);
  return true;
}

static void SetupProcess() {
  for (size_t k = 0; k < kOutRegions; ++k) for (size_t i = 0; i < kOutBytes; ++i) g_canary[k][i] = uint8_t(0xC5 ^ (i * 37 + k * 11));
  static uint8_t* altstack = static_cast<uint8_t*>(malloc(65536));
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = 65536; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = OnSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT}) sigaction(s, &sa, nullptr);
  hwy::SetAbortFunc(&OnAbort);
  if (!g_arena) {
    static_assert(kMem % 4096 == 0, "whole pages");
    uint8_t* base = static_cast<uint8_t*>(mmap(nullptr, kMem + 2 * 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(base + 65536, kMem, PROT_READ | PROT_WRITE);
    g_arena = base + 65536;
  }
}

static int DriverMain(int argc, char** argv) {
  Options opt = ParseOptions(argc, argv, VF_PROPERTY);
  const int64_t supported = hwy::SupportedTargets();
  std::set<int64_t> skipped, used;
  for (auto& r : Registrars()) {
    if ((r.first & supported) || r.first >= (1LL << 61)) { r.second(); used.insert(r.first); }
    else skipped.insert(r.first);
  }
  std::vector<Entry>& es = Entries();
  auto& os = vfo::Oracles();
  for (auto& e : es) {
    if (!os.count(std::make_tuple(std::string(e.name), int(e.t), int(e.t2)))) { fprintf(stderr, "no oracle for %s %s %s\n", e.name, TyName(e.t), TyName(e.t2)); return 3; }
  }
  SetupProcess();
  if (!opt.replay.empty()) {
    std::map<std::string, std::string> kv;
    if (!ParseReplay(opt.replay.c_str(), kv)) { fprintf(stderr, "cannot read %s\n", opt.replay.c_str()); return 2; }
    for (auto& e : es) {
      if (kv["op"] != e.name || kv["t"] != TyName(e.t) || kv["t2"] != TyName(e.t2) || atoi(kv["n"].c_str()) != e.n || atoi(kv["k"].c_str()) != e.k || kv["target"] != TargetStr(e.target)) continue;
      Case cs; memset(&cs, 0, sizeof cs);
      for (int k = 0; k < 4; ++k) { std::string h = kv["r" + std::to_string(k)]; for (size_t i = 0; i < 64 && 2 * i + 1 < h.size(); ++i) cs.in.r[k][i] = uint8_t(strtoul(h.substr(2 * i, 2).c_str(), nullptr, 16)); }
      for (size_t i = 0; i < 128; ++i) { cs.m[i] = i < kv["m"].size() && kv["m"][i] == '1'; cs.m2[i] = i < kv["m2"].size() && kv["m2"][i] == '1'; }
      long long p[4] = {0, 0, 0, 0}; sscanf(kv["p"].c_str(), "%lld %lld %lld %lld", p, p + 1, p + 2, p + 3);
      for (int k = 0; k < 4; ++k) cs.in.p[k] = p[k];
      cs.gseed = strtoull(kv["gseed"].c_str(), nullptr, 10);
      Runner r(e, os[std::make_tuple(std::string(e.name), int(e.t), int(e.t2))]);
      std::string d; Case fx;
      bool ok = r.Run(cs, &d, &fx);
      printf("%s\n%s\n", Describe(e, r.s, fx).c_str(), ok ? "property holds" : d.c_str());
      if (!ok) printf("VIOLATION property=%s replay=%s\n", opt.property.c_str(), opt.replay.c_str());
      return ok ? 0 : 1;
    }
    fprintf(stderr, "no kernel matches the replay file (target not supported here?)\n");
    return 2;
  }
  if (opt.list) { std::map<std::string, int> c; for (auto& e : es) c[e.name]++; for (auto& x : c) printf("%s %d\n", x.first.c_str(), x.second); return 0; }

  const uint64_t base_cases = uint64_t((opt.thorough() ? 60000 : 6000) * opt.scale) + 1;
  Report rep(opt);
  rep.rule = "case = one (op, lane types, lane count, immediate, target) kernel applied to generated lanes+mask+scalars; counted once per distinct raw input hash per kernel and only if the valid input lanes are not all zero (sweeps enumerate all 8/16-bit lane values)";
  std::set<std::string> failed_ops;
  rep.RunSharded(opt.jobs, [&](Shard& sh) {
    SetupProcess();
    std::vector<uint64_t> hashes;
    std::set<std::string> bad;
    for (size_t ei = size_t(sh.index); ei < es.size(); ei += size_t(sh.count)) {
      const Entry& e = es[ei];
      if (!opt.only.empty() && opt.only != e.name) continue;
      char key[128]; snprintf(key, sizeof key, "%s/%d/%d/%d/%d", e.name, e.t, e.t2, e.n, e.k);
      Runner run(e, os[std::make_tuple(std::string(e.name), int(e.t), int(e.t2))]);
      const uint64_t seed = Mix(opt.seed * 0x10001ull + HashStr(key)) ^ uint64_t(e.target);
      const uint64_t nsweep = SweepCount(run.s);
      uint64_t nrand = run.s.weight == 0 ? 2 : base_cases * uint64_t(run.s.weight) / 4;  // 0: fixed inputs
      hashes.clear();
      Case cs, fx;
      memset(&cs, 0, sizeof cs);
      std::string key2 = std::string("cases_on_") + TargetStr(e.target);
      for (uint64_t c = 0; c < nsweep + nrand; ++c) {
        const bool sweep = c < nsweep;
        Rng r(seed + c * 0x9E3779B97F4A7C15ull);
        if (!sweep || (c % 16) == 0) FillRandomLanes(r, cs, run.s, e);
        else if (run.s.sweep) { cs.gseed = r(); }
        if (sweep) ApplySweep(c, cs, run.s, e);
        if ((c & 255) == 0) { sh.Tick(); std::string ds = CaseToReplay(e, cs); snprintf(sh.cur, 4096, "%s", ds.c_str()); }
        ++sh.evals;
        bool nz = false;
        for (int k = 0; k < 4 && !nz; ++k) if (run.s.type[k] != TyNone) for (size_t i = 0; i < size_t(run.s.count[k]) * TySize(run.s.type[k]); ++i) if (cs.in.r[k][i]) { nz = true; break; }
        if (nz) hashes.push_back(HashBytes(cs.in.p, sizeof cs.in.p, HashBytes(cs.m, size_t(run.s.mcount), HashBytes(cs.in.r, 256))));
        const bool ok = run.Run(cs, nullptr);
        if (!ok && !bad.count(e.name)) {
          std::string d;
          bool conf = true;
          for (int t = 0; t < 3; ++t) if (run.Run(cs, &d)) conf = false;
          if (!conf) { sh.classes["unconfirmed_failures"]++; continue; }
          Case sm = run.Shrink(cs);
          run.Run(sm, &d, &fx);
          Failure f; f.where = std::string(e.name) + " " + TyName(e.t) + " " + TargetStr(e.target);
          f.desc = Describe(e, run.s, fx) + " : " + d;
          f.replay = CaseToReplay(e, sm);
          sh.Fail(f);
          bad.insert(e.name);
          break;
        }
        if (!ok) break;
        if (c == nsweep + 7 && (ei / size_t(sh.count)) % 97 == 0) { run.Run(cs, nullptr, &fx); sh.Sample(Describe(e, run.s, fx)); }
      }
      std::sort(hashes.begin(), hashes.end());
      sh.nontrivial += uint64_t(std::unique(hashes.begin(), hashes.end()) - hashes.begin());
      sh.classes[key2] += nsweep + nrand;
      sh.classes[std::string("cases_lane_") + TyName(e.t)] += nsweep + nrand;
      sh.classes[e.n * TySize(e.t) < e.full ? "cases_partial_vector" : "cases_full_vector"] += nsweep + nrand;
      sh.classes["sweep_cases"] += nsweep;
    }
  });
  std::set<std::string> ops;
  for (auto& e : es) ops.insert(e.name);
  rep.extra["ops"] = std::to_string(ops.size());
  rep.extra["kernels"] = std::to_string(es.size());
  std::string ts = "[";
  for (auto t : used) ts += (ts.size() > 1 ? ", " : "") + JsonEsc(TargetStr(t));
  rep.extra["targets_run"] = ts + "]";
  for (auto t : skipped) rep.assumptions.push_back(std::string("target not supported by this CPU, skipped: ") + TargetStr(t));
  rep.assumptions.push_back("x86 targets only (no emulator for other instruction sets offline)");
  return rep.Finish();
}
}  // namespace vf

int main(int argc, char** argv) { return vf::DriverMain(argc, argv); }
