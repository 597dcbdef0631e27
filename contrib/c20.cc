// C20: text output of values, arrays, type and target names; warn/abort hooks.
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

#include <set>
#include <string>
#include <thread>
#include <vector>

#include "hwy/highway.h"
#include "hwy/aligned_allocator.h"
#include "hwy/print.h"
#include "hwy/targets.h"
#include "vf.h"

namespace c20 {
// Captures what `f` prints to stderr.
std::string CaptureStderr(const std::function<void()>& f) {
  static int fd = -1;
  if (fd < 0) {
    char name[] = "/tmp/vfc20XXXXXX";
    fd = mkstemp(name);
    unlink(name);
  }
  fflush(stderr);
  if (ftruncate(fd, 0) != 0) abort();
  lseek(fd, 0, SEEK_SET);
  const int saved = dup(2);
  dup2(fd, 2);
  try { f(); } catch (...) { fflush(stderr); dup2(saved, 2); close(saved); throw; }
  fflush(stderr);
  dup2(saved, 2);
  close(saved);
  std::string r;
  lseek(fd, 0, SEEK_SET);
  char buf[4096];
  ssize_t k;
  while ((k = read(fd, buf, sizeof buf)) > 0) r.append(buf, size_t(k));
  return r;
}

enum Kind { kInt, kF16, kBF16, kF32, kF64 };

// Whether the text denotes the lane value with the given bits.
std::string Denotes(const std::string& t, Kind kind, bool is_signed, size_t size, const uint8_t* bits) {
  unsigned __int128 v = 0;
  memcpy(&v, bits, size);
  if (kind == kInt) {
    unsigned __int128 got = 0;
    if (t.size() > 2 && t[0] == '0' && t[1] == 'x') {
      for (size_t i = 2; i < t.size(); ++i) {
        if (t[i] == '_') continue;
        const char c = t[i];
        const int dgt = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
        if (dgt < 0) return "malformed hex";
        got = got * 16 + unsigned(dgt);
      }
      return got == v ? "" : "hex digits differ";
    }
    size_t i = 0;
    const bool neg = t[0] == '-';
    if (neg) ++i;
    if (i >= t.size()) return "no digits";
    for (; i < t.size(); ++i) {
      if (t[i] < '0' || t[i] > '9') return "malformed decimal";
      got = got * 10 + unsigned(t[i] - '0');
    }
    __int128 want = 0;
    if (is_signed) { int64_t x = 0; if (size == 1) x = int8_t(v); else if (size == 2) x = int16_t(v); else if (size == 4) x = int32_t(v); else x = int64_t(v); want = x; }
    else want = __int128(v);
    const __int128 g = neg ? -__int128(got) : __int128(got);
    return g == want ? "" : "decimal differs";
  }
  double d;
  if (kind == kF64) memcpy(&d, bits, 8);
  else if (kind == kF32) { float f; memcpy(&f, bits, 4); d = double(f); }
  else if (kind == kF16) {
    const unsigned b = unsigned(v), e = b >> 10 & 31, m = b & 1023;
    d = e == 31 ? (m ? NAN : INFINITY) : e ? ldexp(1024.0 + m, int(e) - 25) : ldexp(double(m), -24);
    if (b >> 15) d = -d;
  } else { const uint32_t b = uint32_t(v) << 16; float f; memcpy(&f, &b, 4); d = double(f); }
  if (std::isnan(d)) return t.find("nan") != std::string::npos || t.find("NAN") != std::string::npos ? "" : "not nan";
  char* end;
  const double got = strtod(t.c_str(), &end);
  if (*end) return "trailing characters";
  if (std::isinf(d)) return got == d ? "" : "not the infinity";
  const double a = fabs(d);
  double tol;
  switch (kind) {
    case kBF16: tol = a < 1E-3 ? a * 5.1E-4 : 5.1E-4; break;
    case kF16: tol = a < 1E-4 ? a * 5.1E-5 : 5.1E-5; break;
    case kF32: tol = a < 1E-6 ? a * 5.1E-10 : 5.1E-10; break;
    default: tol = a < 1E-9 ? a * 1E-15 : 5.1E-19 + a * 3E-16; break;
  }
  if (!(fabs(got - d) <= tol)) return vf::Fmt("value is %.17g", d);
  if (std::signbit(d) != (t[0] == '-') && d != 0) return "sign";
  return "";
}

template <class T> struct Info;
#define INFO(T, K, SG, NAME, PFX) template <> struct Info<T> { static constexpr Kind kKind = K; static constexpr bool kSigned = SG; static const char* Name() { return NAME; } static const char* Prefix() { return PFX; } };
INFO(uint8_t, kInt, false, "u8", "u8") INFO(uint16_t, kInt, false, "u16", "u16") INFO(uint32_t, kInt, false, "u32", "u32") INFO(uint64_t, kInt, false, "u64", "u64")
INFO(int8_t, kInt, true, "i8", "i8") INFO(int16_t, kInt, true, "i16", "i16") INFO(int32_t, kInt, true, "i32", "i32") INFO(int64_t, kInt, true, "i64", "i64")
INFO(hwy::float16_t, kF16, true, "f16", "f16") INFO(hwy::bfloat16_t, kBF16, true, "bf16", nullptr) INFO(float, kF32, true, "f32", "f32") INFO(double, kF64, true, "f64", "f64")
INFO(hwy::uint128_t, kInt, false, "u128", "u128") INFO(hwy::K64V64, kInt, false, "k64v64", "u128") INFO(hwy::K32V32, kInt, false, "k32v32", "u64")

template <class T>
void FillBits(vf::Src& s, uint8_t* p) {
  constexpr size_t S = sizeof(T);
  if (S > 8) { uint64_t a = s.Int(64), b = s.Int(64); memcpy(p, &a, 8); memcpy(p + 8, &b, 8); return; }
  uint64_t b = s.Int(int(S * 8));
  constexpr Kind k = Info<T>::kKind;
  if (k == kF64 && s.Bool()) { double d = (double(s.Below(2000)) - 1000.0) * pow(10.0, double(s.Below(60)) - 30); memcpy(&b, &d, 8); }
  if (k == kF32 && s.Bool()) { float d = float((double(s.Below(2000)) - 1000.0) * pow(10.0, double(s.Below(30)) - 15)); uint32_t u; memcpy(&u, &d, 4); b = u; }
  memcpy(p, &b, S);
}

vf::Guarded g_buf, g_arr;

template <class T>
void OneValue(const uint8_t* bits, vf::Src& s) {
  T v;
  memcpy(&v, bits, sizeof(T));
  char* buf = static_cast<char*>(g_buf.Place(100, s.Bool()));
  memset(buf, 'Z', 100);
  hwy::detail::ToString(hwy::detail::MakeTypeInfo<T>(), bits, buf);
  g_buf.Check("ToString");
  VF_CHECK(memchr(buf, 0, 100) != nullptr, "ToString wrote no terminator");
  const std::string why = Denotes(buf, Info<T>::kKind, Info<T>::kSigned, sizeof(T), bits);
  unsigned long long lo = 0, hi = 0;
  memcpy(&lo, bits, std::min<size_t>(8, sizeof(T)));
  if (sizeof(T) > 8) memcpy(&hi, bits + 8, 8);
  VF_CHECK(why.empty(), "ToString<%s> of 0x%llx_%016llx is '%s': %s", Info<T>::Name(), hi, lo, buf, why.c_str());
}

template <class T>
void Value(vf::Src& s, vf::Ctx& cx) {
  uint8_t bits[16] = {0};
  if (sizeof(T) <= 2) { const uint64_t b = s.Enum(sizeof(T) == 1 ? 256 : 65536); memcpy(bits, &b, 2); }
  else FillBits<T>(s, bits);
  cx.Desc([&] { std::string r; for (size_t i = sizeof(T); i-- > 0;) r += vf::Fmt("%02x", bits[i]); return r; });
  OneValue<T>(bits, s);
  bool z = true;
  for (size_t i = 0; i < sizeof(T); ++i) z &= bits[i] == 0;
  cx.nontrivial = !z;
}

std::vector<std::string> Split(const std::string& t) {  // comma-terminated tokens
  std::vector<std::string> r;
  size_t b = 0;
  for (size_t i = 0; i < t.size(); ++i) if (t[i] == ',') { r.push_back(t.substr(b, i - b)); b = i + 1; }
  if (b != t.size()) r.push_back("?" + t.substr(b));
  return r;
}

std::string Trim(const std::string& t) {
  const size_t b = t.find_first_not_of(" \n\t"), e = t.find_last_not_of(" \n\t");
  return b == std::string::npos ? "" : t.substr(b, e - b + 1);
}

// Checks a printed array: header with type, caption and first lane, then lanes.
template <class T>
void CheckArray(const std::string& out, const std::string& caption, const T* p, size_t n, size_t begin, size_t end) {
  const size_t nl = out.find('\n', out.find(caption.empty() ? "[" : caption));
  VF_CHECK(nl != std::string::npos, "printed array has no header: '%s'", out.c_str());
  const std::string head = out.substr(0, nl), body = Trim(out.substr(nl));
  if (Info<T>::Prefix()) {
    const std::string tn = n == 1 ? std::string(Info<T>::Prefix()) : vf::Fmt("%sx%zu", Info<T>::Prefix(), n);
    VF_CHECK(head.compare(0, tn.size(), tn) == 0 && (head.size() == tn.size() || head[tn.size()] == ' '), "header '%s' does not name type %s", head.c_str(), tn.c_str());
  }
  VF_CHECK(head.find(caption) != std::string::npos, "header '%s' lacks the caption '%s'", head.c_str(), caption.c_str());
  VF_CHECK(head.find(vf::Fmt("[%zu+", begin)) != std::string::npos, "header '%s': first lane is %zu", head.c_str(), begin);
  if (begin >= end) {
    VF_CHECK(body.find("out of bounds") != std::string::npos, "no lanes to print, text is '%s'", body.c_str());
    return;
  }
  const std::vector<std::string> tok = Split(body);
  VF_CHECK(tok.size() == end - begin, "printed %zu lanes, expected %zu: '%s'", tok.size(), end - begin, body.c_str());
  for (size_t i = begin; i < end; ++i) {
    uint8_t b[16];
    memcpy(b, p + i, sizeof(T));
    const std::string why = Denotes(tok[i - begin], Info<T>::kKind, Info<T>::kSigned, sizeof(T), b);
    VF_CHECK(why.empty(), "lane %zu printed as '%s': %s", i, tok[i - begin].c_str(), why.c_str());
  }
}

template <class T>
void Array(vf::Src& s, vf::Ctx& cx) {
  const size_t n = s.Len(40, 8) + (s.Bool() ? 1 : 0);
  T* p = g_arr.Arr<T>(s, n, 0);
  for (size_t i = 0; i < n; ++i) FillBits<T>(s, reinterpret_cast<uint8_t*>(p + i));
  cx.Desc([&] { return vf::Fmt("n=%zu ", n); });
  if (n && s.Below(3) == 0) {
    const std::string out = CaptureStderr([&] { hwy::PrintArray(p, n); });
    CheckArray<T>(out, "", p, n, 0, n);
    const std::string one = CaptureStderr([&] { hwy::PrintValue(p[0]); });
    const std::vector<std::string> tok = Split(Trim(one));
    VF_CHECK(tok.size() == 1, "PrintValue: '%s'", one.c_str());
    uint8_t b[16];
    memcpy(b, p, sizeof(T));
    VF_CHECK(Denotes(tok[0], Info<T>::kKind, Info<T>::kSigned, sizeof(T), b).empty(), "PrintValue: '%s'", one.c_str());
    cx.evals = n + 1;
  } else {
    const size_t lane = s.Bool() ? size_t(s.Below(n + 6)) : size_t(s.Below(4)), max = s.Bool() ? 7 : size_t(s.Below(n + 4));
    static const std::vector<std::string> caps = {"cap", "", "a longer caption: x=3", "%s%d"};
    const std::string& cap = s.Pick(caps);
    cx.Desc([&] { return vf::Fmt("lane %zu max %zu", lane, max); });
    const std::string out = CaptureStderr([&] { hwy::detail::PrintArray(hwy::detail::MakeTypeInfo<T>(), cap.c_str(), p, n, lane, max); });
    const size_t begin = lane < 2 ? 0 : lane - 2;
    CheckArray<T>(out, cap, p, n, begin, std::min(begin + max, n));
    cx.evals = 1 + std::min(n, max);
  }
  g_arr.Check("PrintArray");
  cx.nontrivial = n > 1;
}

#define REG2(T, NAME) \
  VF_REG("ToString<" NAME ">", 70000, 2000000, &Value<T>) VF_REG("PrintArray<" NAME ">", 800, 12000, &Array<T>)
REG2(uint8_t, "u8") REG2(uint16_t, "u16") REG2(uint32_t, "u32") REG2(uint64_t, "u64")
REG2(int8_t, "i8") REG2(int16_t, "i16") REG2(int32_t, "i32") REG2(int64_t, "i64")
REG2(hwy::float16_t, "f16") REG2(hwy::bfloat16_t, "bf16") REG2(float, "f32") REG2(double, "f64")
REG2(hwy::uint128_t, "u128") REG2(hwy::K64V64, "k64v64") REG2(hwy::K32V32, "k32v32")

template <class T>
void NameOf(size_t n, vf::Src& s) {
  char* buf = static_cast<char*>(g_buf.Place(100, s.Bool()));
  memset(buf, 'Z', 100);
  hwy::detail::TypeName(hwy::detail::MakeTypeInfo<T>(), n, buf);
  g_buf.Check("TypeName");
  const std::string suffix = n == 1 ? "" : vf::Fmt("x%zu", n);
  if (Info<T>::Prefix()) {
    const std::string want = Info<T>::Prefix() + suffix;
    VF_CHECK(memchr(buf, 0, 100) && want == buf, "TypeName(%zu) is '%s', expected '%s'", n, buf, want.c_str());
  } else {
    const std::string want = "16" + suffix;
    const std::string got = buf;
    VF_CHECK(got.size() >= want.size() && got.compare(got.size() - want.size(), want.size(), want) == 0, "TypeName(%zu) of bf16 is '%s'", n, buf);
  }
}
VF_TASK(TypeName, 20000, 100000) {
  const size_t n = s.Bool() ? size_t(1) << s.Below(20) : size_t(s.Below(70));
  cx.Desc([&] { return vf::Fmt("N=%zu", n); });
  NameOf<uint8_t>(n, s); NameOf<uint16_t>(n, s); NameOf<uint32_t>(n, s); NameOf<uint64_t>(n, s);
  NameOf<int8_t>(n, s); NameOf<int16_t>(n, s); NameOf<int32_t>(n, s); NameOf<int64_t>(n, s);
  NameOf<hwy::float16_t>(n, s); NameOf<hwy::bfloat16_t>(n, s); NameOf<float>(n, s); NameOf<double>(n, s);
  NameOf<hwy::uint128_t>(n, s);
  cx.evals = 13;
}

VF_TASK(TargetName, 4096, 40000) {
  struct N { int64_t t; const char* n; };
#define T_(x) {HWY_##x, #x}
  static const N names[] = {T_(SSE2), T_(SSSE3), T_(SSE4), T_(AVX2), T_(AVX3), T_(AVX3_DL), T_(AVX3_ZEN4), T_(AVX3_SPR), T_(AVX10_2), T_(AVX10_2_512), T_(EMU128), T_(SCALAR)};
  const uint64_t k = s.Enum(64 + 200);
  const int64_t t = k < 63 ? int64_t(1) << k : k == 63 ? 0 : int64_t(s.Bits(63));
  cx.Desc([&] { return vf::Fmt("target 0x%llx", (unsigned long long)t); });
  const char* got = hwy::TargetName(t);
  const char* want = nullptr;
  for (const N& n : names) if (n.t == t) want = n.n;
  if (want) VF_CHECK(!strcmp(got, want), "TargetName(0x%llx) = '%s', expected '%s'", (unsigned long long)t, got, want);
  else {
    for (const N& n : names) VF_CHECK(strcmp(got, n.n), "TargetName(0x%llx) = '%s', which names another target", (unsigned long long)t, got);
    VF_CHECK(got[0] != 0 && strspn(got, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_") == strlen(got), "TargetName '%s'", got);
  }
  cx.nontrivial = want != nullptr;
}

// ------------------------------------------------------------ handlers
struct Call { int handler; std::string file; int line; std::string msg; };
std::vector<Call> g_calls;
template <int I> void Warner(const char* file, int line, const char* msg) { g_calls.push_back({I, file, line, msg}); }
struct Jump { int i; };
template <int I> void Aborter(const char* file, int line, const char* msg) { g_calls.push_back({I, file, line, msg}); throw Jump{I}; }

const hwy::WarnFunc kWarners[5] = {nullptr, &Warner<1>, &Warner<2>, &Warner<3>, &Warner<4>};
const hwy::AbortFunc kAborters[5] = {nullptr, &Aborter<1>, &Aborter<2>, &Aborter<3>, &Aborter<4>};

std::string Message(vf::Src& s) {
  const size_t n = s.Bool() ? size_t(s.Below(60)) : s.Bool() ? size_t(780 + s.Below(19)) : size_t(s.Below(799));
  std::string m;
  vf::Rng r = s.Sub();
  for (size_t i = 0; i < n; ++i) m += char(32 + r.Below(95));
  return m;
}

std::string File(vf::Src& s) {
  static const std::vector<std::string> f = {"a.cc", "/dir/sub/file.cc", "rel/x.h", "", "no_ext", "a/b/c/d/e/f/very_long_file_name_for_the_handler_to_receive_unmodified_and_complete.cc"};
  return s.Pick(f);
}
std::string Base(const std::string& f) { const size_t p = f.find_last_of("/\\"); return p == std::string::npos ? f : f.substr(p + 1); }

VF_TASK(WarnHandlers, 20000, 300000) {
  const hwy::WarnFunc saved = hwy::SetWarnFunc(nullptr);
  int cur = 0;
  const int steps = 1 + int(s.Below(12));
  cx.evals = 0;
  int warned = 0;
  try {
    for (int i = 0; i < steps; ++i) {
      if (s.Below(3) == 0) {
        const int k = int(s.Below(5));
        cx.Desc([&] { return vf::Fmt("set %d; ", k); });
        const hwy::WarnFunc prev = hwy::SetWarnFunc(kWarners[k]);
        VF_CHECK(prev == kWarners[cur], "SetWarnFunc did not return the previous handler %d", cur);
        cur = k;
      } else if (s.Below(4) == 0) {
        VF_CHECK(hwy::GetWarnFunc() == kWarners[cur], "GetWarnFunc is not handler %d", cur);
      } else {
        const std::string m = Message(s), f = File(s);
        const int line = int(s.Int(31));
        const int style = int(s.Below(3));
        cx.Desc([&] { return vf::Fmt("warn(%s:%d, %zu chars, style %d); ", f.c_str(), line, m.size(), style); });
        g_calls.clear();
        std::string want = m;
        const std::string err = CaptureStderr([&] {
          if (style == 0) hwy::Warn(f.c_str(), line, "%s", m.c_str());
          else if (style == 1) { want = vf::Fmt("%d|%.3f|%s", line, 1.5, m.c_str()).substr(0, 799); hwy::Warn(f.c_str(), line, "%d|%.3f|%s", line, 1.5, m.c_str()); }
          else { const std::string longer = m + std::string(900, 'q'); want = longer.substr(0, 799); hwy::Warn(f.c_str(), line, "%s", longer.c_str()); }
        });
        ++warned;
        if (cur) {
          VF_CHECK(g_calls.size() == 1, "%zu handler calls", g_calls.size());
          const Call& c = g_calls[0];
          VF_CHECK(c.handler == cur, "handler %d called, %d is installed", c.handler, cur);
          VF_CHECK(c.file == f && c.line == line, "handler received %s:%d for %s:%d", c.file.c_str(), c.line, f.c_str(), line);
          const bool ok = style == 0 ? c.msg == want : c.msg.size() >= std::min<size_t>(want.size(), 700) && (c.msg.compare(0, want.size(), want) == 0 || want.compare(0, c.msg.size(), c.msg) == 0);
          VF_CHECK(ok, "handler received '%s'", c.msg.c_str());
          VF_CHECK(err.empty(), "printed '%s' although a handler is installed", err.c_str());
        } else {
          VF_CHECK(g_calls.empty(), "handler called although none is installed");
          if (style == 0) VF_CHECK(err.find(m) != std::string::npos, "stderr '%s' lacks the message", err.c_str());
          VF_CHECK(err.find(vf::Fmt("%s:%d", Base(f).c_str(), line)) != std::string::npos, "stderr '%s' lacks %s:%d", err.c_str(), Base(f).c_str(), line);
        }
        ++cx.evals;
      }
    }
    // The macro passes the location of the caller.
    if (cur) { g_calls.clear(); HWY_WARN("macro %d", 5); const int l = __LINE__; VF_CHECK(g_calls.size() == 1 && g_calls[0].line == l && g_calls[0].msg == "macro 5" && Base(g_calls[0].file) == "c20.cc", "HWY_WARN location or message"); }
  } catch (...) { hwy::SetWarnFunc(saved); throw; }
  hwy::SetWarnFunc(saved);
  cx.nontrivial = warned != 0;
}

VF_TASK(AbortHandlers, 10000, 150000) {
  const hwy::AbortFunc saved = hwy::SetAbortFunc(kAborters[1]);
  int cur = 1;
  const int steps = 1 + int(s.Below(12));
  try {
    for (int i = 0; i < steps; ++i) {
      if (s.Below(3) == 0) {
        const int k = int(s.Below(5));
        cx.Desc([&] { return vf::Fmt("set %d; ", k); });
        const hwy::AbortFunc prev = hwy::SetAbortFunc(kAborters[k]);
        VF_CHECK(prev == kAborters[cur], "SetAbortFunc did not return the previous handler %d", cur);
        cur = k;
      } else if (s.Below(4) == 0 || !cur) {
        VF_CHECK(hwy::GetAbortFunc() == kAborters[cur], "GetAbortFunc is not handler %d", cur);
      } else {
        const std::string m = Message(s), f = File(s);
        const int line = int(s.Int(31)), style = int(s.Below(4));
        cx.Desc([&] { return vf::Fmt("abort(%s:%d, %zu chars, style %d); ", f.c_str(), line, m.size(), style); });
        g_calls.clear();
        int by = 0, wline = line;
        std::string want = m, wfile = f;
        try {
          if (style == 0) hwy::Abort(f.c_str(), line, "%s", m.c_str());
          else if (style == 1) { wfile = __FILE__; want = vf::Fmt("%d %s", line, m.c_str()).substr(0, 799); wline = __LINE__; HWY_ABORT("%d %s", line, m.c_str()); }
          else if (style == 2) { wfile = __FILE__; want = "Assert line < -5: " + m.substr(0, 700); wline = __LINE__; HWY_ASSERT_M(line < -5, m.substr(0, 700).c_str()); }
          else { wfile = __FILE__; want = "Assert m.size() > 5000: "; wline = __LINE__; HWY_ASSERT(m.size() > 5000); }
        } catch (const Jump& j) { by = j.i; }
        VF_CHECK(by == cur, "handler %d was left, %d is installed", by, cur);
        VF_CHECK(g_calls.size() == 1, "%zu handler calls", g_calls.size());
        const Call& c = g_calls[0];
        VF_CHECK(c.file == wfile && c.line == wline, "handler received %s:%d for %s:%d", c.file.c_str(), c.line, wfile.c_str(), wline);
        if (style < 2) VF_CHECK(c.msg == want, "handler received '%s', expected '%s'", c.msg.c_str(), want.c_str());
        else VF_CHECK(c.msg.find(style == 2 ? "line < -5" : "m.size() > 5000") != std::string::npos && (style == 3 || c.msg.find(m.substr(0, 700)) != std::string::npos), "assert message '%s'", c.msg.c_str());
        ++cx.evals;
        HWY_ASSERT(m.size() < 5000);  // no call if true
        VF_CHECK(g_calls.size() == 1, "handler called for a true condition");
      }
    }
  } catch (...) { hwy::SetAbortFunc(saved); throw; }
  hwy::SetAbortFunc(saved);
  cx.nontrivial = cx.evals > 1;
}

void Returning(const char* file, int line, const char* msg) { fprintf(stderr, "H:%s:%d:%s\n", file, line, msg); fflush(stderr); }

// Terminates the process even if the handler returns; default text on stderr.
VF_TASK(AbortProcess, 160, 1600) {
  const bool handler = s.Bool();
  const std::string m = Message(s), f = File(s);
  const int line = int(s.Below(100000));
  cx.Desc([&] { return vf::Fmt("%s, %s:%d, %zu chars", handler ? "returning handler" : "no handler", f.c_str(), line, m.size()); });
  int status = 0;
  const std::string err = CaptureStderr([&] {
    const pid_t pid = fork();
    if (pid == 0) {
      signal(SIGABRT, SIG_DFL); signal(SIGILL, SIG_DFL); signal(SIGTRAP, SIG_DFL);
      hwy::SetAbortFunc(handler ? &Returning : nullptr);
      try { hwy::Abort(f.c_str(), line, "%s", m.c_str()); } catch (...) {}
      _exit(0);
    }
    waitpid(pid, &status, 0);
  });
  VF_CHECK(WIFSIGNALED(status), "process was not terminated by a signal (status %d)", status);
  const std::string want = handler ? vf::Fmt("H:%s:%d:%s\n", f.c_str(), line, m.c_str()) : m;
  VF_CHECK(err.find(want) != std::string::npos, "stderr '%s' lacks '%s'", err.c_str(), want.c_str());
  if (!handler) VF_CHECK(err.find(vf::Fmt("%s:%d", Base(f).c_str(), line)) != std::string::npos, "stderr '%s' lacks the location", err.c_str());
}

// Handlers are exchanged atomically: none is lost or returned twice.
VF_TASK(ConcurrentSet, 60, 1000, vf::kNondet) {
  const bool warn = s.Bool();
  const int per = 1000;
  auto prevw = hwy::SetWarnFunc(nullptr);
  auto preva = hwy::SetAbortFunc(nullptr);
  const int nt = 2 + int(s.Below(3));
  std::vector<std::vector<int>> set(static_cast<size_t>(nt), std::vector<int>(5)), got = set;
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
    for (int i = 0; i < per; ++i) {
      const int k = 1 + (t + i * 7 + i / 3) % 4;
      ++set[size_t(t)][size_t(k)];
      for (int j = 0; j < 5; ++j) (void)j;
      if (warn) { const hwy::WarnFunc p = hwy::SetWarnFunc(kWarners[k]); for (int j = 0; j < 5; ++j) if (p == kWarners[j]) ++got[size_t(t)][size_t(j)]; }
      else { const hwy::AbortFunc p = hwy::SetAbortFunc(kAborters[k]); for (int j = 0; j < 5; ++j) if (p == kAborters[j]) ++got[size_t(t)][size_t(j)]; }
    }
  });
  for (auto& t : th) t.join();
  const hwy::WarnFunc lw = hwy::SetWarnFunc(prevw);
  const hwy::AbortFunc la = hwy::SetAbortFunc(preva);
  for (int j = 0; j < 5; ++j) {
    int a = j == 0 ? 1 : 0, b = (warn ? lw == kWarners[j] : la == kAborters[j]) ? 1 : 0;
    for (int t = 0; t < nt; ++t) { a += set[size_t(t)][size_t(j)]; b += got[size_t(t)][size_t(j)]; }
    VF_CHECK(a == b, "handler %d installed %d times but returned %d times", j, a, b);
  }
  cx.evals = uint64_t(nt) * per;
  cx.Desc([&] { return vf::Fmt("%d threads", nt); });
}
}  // namespace c20
