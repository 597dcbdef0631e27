// C18: hwy::Stats / Bins / robust_statistics against direct computation.
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>

#include <algorithm>
#include <limits>
#include <string>
#include <vector>

#include "hwy/robust_statistics.h"
#include "hwy/stats.h"
#include "vf.h"

namespace {
using ld = long double;

struct Part {
  hwy::Stats st;
  std::vector<std::pair<float, ld>> xs;  // value, multiplicity
  double ops = 0;
};

float Sample(vf::Src& s, int kind) {
  switch (kind) {
    case 0: return float(s.Below(10));
    case 1: return float(s.Below(1000)) / 1000.f;
    case 2: return float(int(s.Below(2001)) - 1000) * 0.25f;
    case 3: return 1000000.f + float(s.Below(100));
    case 4: return ldexpf(1.f + float(s.Below(1024)) / 1024.f, int(s.Below(40)) - 20);
    case 5: return float(s.Below(2)) * 3.f + 1.f;
    case 6: return float(1 + s.Below(1000)) * 1E-3f;
    case 7: return s.Below(10) == 0 ? 1E4f : 1.f + float(s.Below(10)) * 0.1f;
    case 8: return -(1.f + float(s.Below(100)));
    default: return ldexpf(1.f + float(s.Below(1024)) / 1024.f, int(s.Below(90)) - 45) * (s.Bool() ? 1.f : -1.f);
  }
}

void Near(double got, ld want, ld tol, const char* what) {
  if (!(fabsl(ld(got) - want) <= tol)) VF_FAIL("%s = %.17g, direct computation %.17Lg (tolerance %.3Lg)", what, got, want, tol);
}

double Field(const std::string& t, const char* tag, bool* found) {
  size_t p = t.find(tag);
  while (p != std::string::npos && p > 0 && t[p - 1] != ' ') p = t.find(tag, p + 1);
  *found = p != std::string::npos;
  return *found ? strtod(t.c_str() + p + strlen(tag), nullptr) : 0.0;
}

bool Close(double a, double b, double rel, double abs) { return fabs(a - b) <= std::max(abs, rel * fabs(b)); }

void CheckStats(const Part& p, vf::Ctx& cx, int bits) {
  // bit i of `bits` excludes the i-th group of fields
  const int flags[5] = {hwy::Stats::kNoCount, hwy::Stats::kNoMeanSD, hwy::Stats::kNoMinMax, hwy::Stats::kNoSkewKurt, hwy::Stats::kNoGeomean};
  int exclude = 0;
  for (int i = 0; i < 5; ++i) if (bits >> i & 1) exclude |= flags[i];
  const hwy::Stats& st = p.st;
  ld n = 0, sum = 0, lg = 0;
  float mn = std::numeric_limits<float>::max(), mx = -mn;
  bool positive = true;
  ld A = 0;
  for (auto& x : p.xs) {
    n += x.second; sum += x.second * ld(x.first);
    mn = std::min(mn, x.first); mx = std::max(mx, x.first);
    A = std::max(A, fabsl(ld(x.first)));
    if (!(x.first > 0)) positive = false; else lg += x.second * logl(ld(x.first));
  }
  VF_CHECK(ld(st.Count()) == n, "Count %lld != %Lg", (long long)st.Count(), n);
  if (n == 0) {
    VF_CHECK(st.Variance() == 0 && st.SampleVariance() == 0 && st.StandardDeviation() == 0 && st.Skewness() == 0 && st.Kurtosis() == 0 && st.GeometricMean() == 0 && st.Mean() == 0,
             "statistics of no samples are not zero");
    VF_CHECK(st.ToString(exclude) == "(none)", "ToString of no samples: '%s'", st.ToString(exclude).c_str());
    cx.evals += 8;
    return;
  }
  VF_CHECK(st.Min() == mn, "Min %g != %g", st.Min(), mn);
  VF_CHECK(st.Max() == mx, "Max %g != %g", st.Max(), mx);
  const ld mean = sum / n, eps = 2.3E-16L, R = ld(mx) - ld(mn);
  ld M2 = 0, M3 = 0, M4 = 0;
  for (auto& x : p.xs) {
    const ld d = ld(x.first) - mean, d2 = d * d;
    M2 += x.second * d2; M3 += x.second * d2 * d; M4 += x.second * d2 * d2;
  }
  const ld ops = p.ops + 2;
  const ld e = 8 * ops * eps * A;
  const ld E = e + 4 * ops * eps * R;
  const ld t2 = 8 * n * (2 * R * E + E * E) + 1E-300L;
  const ld t3 = 32 * n * (3 * R * R * E + 3 * R * E * E + E * E * E) + 1E-300L;
  const ld t4 = 128 * n * (4 * R * R * R * E + 6 * R * R * E * E + 4 * R * E * E * E + E * E * E * E) + 1E-300L;
  Near(st.Mean(), mean, e, "Mean");
  Near(st.Mu1(), mean, e, "Mu1");
  Near(st.Mu2(), M2 / n, t2 / n, "Mu2");
  Near(st.Mu3(), M3 / n, t3 / n, "Mu3");
  Near(st.Mu4(), M4 / n, t4 / n, "Mu4");
  Near(st.SampleVariance(), M2 / n, t2 / n, "SampleVariance");
  const ld n1 = n > 1 ? n - 1 : 1;
  Near(st.Variance(), M2 / n1, t2 / n1, "Variance");
  // Relations to the reported moments.
  VF_CHECK(Close(st.Variance(), double(ld(st.Mu2()) * n / n1), 1E-12, 1E-300), "Variance %g, Mu2 %g", st.Variance(), st.Mu2());
  VF_CHECK(Close(st.StandardDeviation(), sqrt(st.Variance()), 1E-12, 1E-300), "StandardDeviation %g, Variance %g", st.StandardDeviation(), st.Variance());
  const ld r = (n - 1) / n;
  VF_CHECK(Close(st.Skewness(), double(ld(st.SampleSkewness()) * powl(r, 1.5L)), 1E-12, 1E-300), "Skewness %g, SampleSkewness %g", st.Skewness(), st.SampleSkewness());
  VF_CHECK(Close(st.Kurtosis(), double(ld(st.SampleKurtosis()) * r * r), 1E-12, 1E-300), "Kurtosis %g, SampleKurtosis %g", st.Kurtosis(), st.SampleKurtosis());
  if (M2 > 1.1E-7L + 2 * t2) {
    const ld skew = M3 * sqrtl(n) / powl(M2, 1.5L), kurt = M4 * n / (M2 * M2);
    const ld q = t2 / M2;
    if (q < 1E-3L) {
      Near(st.SampleSkewness(), skew, t3 * sqrtl(n) / powl(M2, 1.5L) * 2 + 2 * fabsl(skew) * q + 1E-9L * fabsl(skew), "SampleSkewness");
      Near(st.SampleKurtosis(), kurt, t4 * n / (M2 * M2) * 2 + 3 * kurt * q + 1E-9L * kurt, "SampleKurtosis");
      cx.evals += 2;
    }
  } else if (M2 + t2 < 0.9E-7L) {
    VF_CHECK(st.SampleSkewness() == 0 && st.SampleKurtosis() == 0, "skewness/kurtosis of negligible variance are not zero");
  }
  if (positive) {
    const ld g = expl(lg / n);
    Near(st.GeometricMean(), g, g * (1E-13L * ops + 1E-13L), "GeometricMean");
  }
  // Text
  const std::string t = st.ToString(exclude);
  bool has;
  double v = Field(t, "Count=", &has);
  VF_CHECK(has == !(bits >> 0 & 1), "ToString(%d) '%s': Count", exclude, t.c_str());
  if (has) VF_CHECK(ld(v) == n || Close(v, double(n), 1E-15, 0), "ToString '%s' for count %Lg", t.c_str(), n);
  v = Field(t, "Mean=", &has);
  VF_CHECK(has == !(bits >> 1 & 1), "ToString(%d) '%s': Mean", exclude, t.c_str());
  if (has) {
    VF_CHECK(Close(v, st.Mean(), 0.01, 1E-30), "ToString '%s' for mean %g", t.c_str(), st.Mean());
    v = Field(t, "SD=", &has);
    VF_CHECK(has && Close(v, st.StandardDeviation(), 0.06, 1E-30), "ToString '%s' for SD %g", t.c_str(), st.StandardDeviation());
  }
  v = Field(t, "Min=", &has);
  VF_CHECK(has == !(bits >> 2 & 1), "ToString(%d) '%s': Min", exclude, t.c_str());
  if (has) {
    VF_CHECK(Close(v, mn, 1E-4, 1E-44), "ToString '%s' for min %g", t.c_str(), mn);
    v = Field(t, "Max=", &has);
    VF_CHECK(has && Close(v, mx, 1E-4, 1E-44), "ToString '%s' for max %g", t.c_str(), mx);
  }
  v = Field(t, "Skew=", &has);
  VF_CHECK(has == !(bits >> 3 & 1), "ToString(%d) '%s': Skew", exclude, t.c_str());
  if (has) {
    VF_CHECK(Close(v, st.Skewness(), 1E-6, 0.0051), "ToString '%s' for skewness %g", t.c_str(), st.Skewness());
    v = Field(t, "Kurt=", &has);
    VF_CHECK(has && Close(v, st.Kurtosis(), 1E-6, 0.0051), "ToString '%s' for kurtosis %g", t.c_str(), st.Kurtosis());
  }
  v = Field(t, "GeoMean=", &has);
  VF_CHECK(has == !(bits >> 4 & 1), "ToString(%d) '%s': GeoMean", exclude, t.c_str());
  if (has && positive) VF_CHECK(Close(v, st.GeometricMean(), 1E-6, 5.1E-7), "ToString '%s' for geomean %g", t.c_str(), st.GeometricMean());
  if (bits == 31) VF_CHECK(t.find_first_not_of(' ') == std::string::npos, "ToString excluding everything returns %zu characters", t.size());
  cx.evals += 22;
}

VF_TASK(Stats, 400000, 8000000) {
  const int kind = int(s.Below(10));
  const int nparts = 1 + int(s.Below(5));
  std::vector<Part> parts;
  parts.resize(size_t(nparts));
  size_t total = 0;
  for (Part& p : parts) {
    const size_t n = s.Len(s.Below(12) == 0 ? 300 : 24, 4);
    if (s.Below(8) == 7) { p.st.Notify(5.f); p.st.Reset(); cx.Desc([&] { return std::string("Reset "); }); }
    cx.Desc([&] { return std::string("["); });
    const bool constant = s.Below(8) == 0;
    float prev = 0;
    for (size_t i = 0; i < n; ++i) {
      const float x = constant && i ? prev : Sample(s, kind);
      prev = x;
      p.st.Notify(x);
      p.xs.push_back({x, 1.0L});
      ++p.ops;
      cx.Desc([&] { return vf::Fmt("%.9g ", x); });
    }
    cx.Desc([&] { return std::string("] "); });
    total += n;
  }
  cx.evals = 0;
  const int bits = int(s.Below(32));
  cx.Desc([&] { return vf::Fmt("exclude %d; ", bits); });
  if (s.Bool()) for (const Part& p : parts) CheckStats(p, cx, bits);
  int dbl = s.Below(4) == 0 ? int(s.Below(34)) : 0;
  size_t merges = 0;
  while (parts.size() > 1 || dbl > 0) {
    if (dbl > 0 && (parts.size() == 1 || s.Bool())) {
      // Merge with a copy of itself: every multiplicity doubles.
      Part& p = parts[size_t(s.Below(parts.size()))];
      const hwy::Stats copy = p.st;
      p.st.Assimilate(copy);
      for (auto& x : p.xs) x.second *= 2;
      p.ops += 1; --dbl; ++merges;
      cx.Desc([&] { return vf::Fmt("double %d; ", int(&p - parts.data())); });
      if (s.Below(6) == 0 && !p.xs.empty()) {  // further samples after the merge
        const float x = Sample(s, kind);
        p.st.Notify(x); p.xs.push_back({x, 1.0L}); p.ops += 1;
        cx.Desc([&] { return vf::Fmt("Notify %.9g; ", x); });
      }
      continue;
    }
    const size_t a = size_t(s.Below(parts.size()));
    size_t b = size_t(s.Below(parts.size() - 1));
    if (b >= a) ++b;
    cx.Desc([&] { return vf::Fmt("%zu += %zu; ", a, b); });
    parts[a].st.Assimilate(parts[b].st);
    parts[a].xs.insert(parts[a].xs.end(), parts[b].xs.begin(), parts[b].xs.end());
    parts[a].ops += parts[b].ops + 1;
    parts.erase(parts.begin() + std::ptrdiff_t(b));
    ++merges;
  }
  CheckStats(parts[0], cx, bits);
  cx.nontrivial = total > 2 && merges > 0;
  cx.cls = merges ? "merged" : "single";
}

std::string CaptureStderr(const std::function<void()>& f) {
  fflush(stderr);
  const int saved = dup(2);
  char name[] = "/tmp/vfc18XXXXXX";
  const int fd = mkstemp(name);
  unlink(name);
  dup2(fd, 2);
  f();
  fflush(stderr);
  dup2(saved, 2);
  close(saved);
  std::string r;
  lseek(fd, 0, SEEK_SET);
  char buf[4096];
  ssize_t k;
  while ((k = read(fd, buf, sizeof buf)) > 0) r.append(buf, size_t(k));
  close(fd);
  return r;
}

template <size_t N>
void BinsTask(vf::Src& s, vf::Ctx& cx) {
  struct H { hwy::Bins<N> b; std::vector<size_t> ref; H() : ref(N, 0) {} };
  std::vector<H> h(2);
  const int steps = int(s.Below(40));
  for (int i = 0; i < steps; ++i) {
    H& x = h[size_t(s.Below(2))];
    const size_t k = s.Bool() ? size_t(s.Below(N)) : N - 1 - size_t(s.Below(std::min<size_t>(N, 3)));
    switch (s.Below(8)) {
      case 0: h[0].b.Assimilate(h[1].b); for (size_t j = 0; j < N; ++j) h[0].ref[j] += h[1].ref[j]; cx.Desc([&] { return std::string("Assimilate; "); }); break;
      case 1: if (s.Below(4) == 0) { x.b.Reset(); std::fill(x.ref.begin(), x.ref.end(), 0); cx.Desc([&] { return std::string("Reset; "); }); } break;
      case 2: x.b.Notify(float(k) + 0.75f < float(N) ? float(k) + 0.75f : float(k)); ++x.ref[k]; cx.Desc([&] { return vf::Fmt("float %zu; ", k); }); break;
      case 3: x.b.Notify(int(k)); ++x.ref[k]; cx.Desc([&] { return vf::Fmt("int %zu; ", k); }); break;
      default: x.b.Notify(k); ++x.ref[k]; cx.Desc([&] { return vf::Fmt("%zu; ", k); }); break;
    }
  }
  size_t used = 0;
  for (int i = 0; i < 2; ++i) {
    const std::string t = CaptureStderr([&] { h[size_t(i)].b.Print("cap"); });
    // caption, then one count per line up to the last nonzero bin
    const size_t p = t.find("cap");
    VF_CHECK(p != std::string::npos, "Print output has no caption: '%s'", t.c_str());
    size_t q = t.find('\n', p);
    VF_CHECK(q != std::string::npos, "Print output: '%s'", t.c_str());
    std::vector<size_t> got;
    const char* c = t.c_str() + q;
    for (;;) {
      char* end;
      const unsigned long long v = strtoull(c, &end, 10);
      if (end == c) break;
      got.push_back(size_t(v));
      c = end;
    }
    std::vector<size_t> want = h[size_t(i)].ref;
    for (size_t v : want) used += v != 0;
    while (want.size() > 1 && want.back() == 0) want.pop_back();
    VF_CHECK(got == want, "Bins printed '%s': %zu counts, expected %zu", t.c_str(), got.size(), want.size());
  }
  cx.evals = 2 * N;
  cx.nontrivial = used > 1;
}
struct BinAbort {};
void ThrowBinAbort(const char*, int, const char*) { throw BinAbort(); }
// A sample outside [0, N) is rejected by aborting and leaves the counts alone.
template <size_t N>
void BinsRangeTask(vf::Src& s, vf::Ctx& cx) {
  hwy::Bins<N> b;
  const size_t k = size_t(s.Below(N));
  b.Notify(k);
  const int kind = int(s.Below(4));
  const size_t over = s.Bool() ? N : N + 1 + size_t(s.Below(1u << 20));
  const int neg = -1 - int(s.Below(1u << 20));
  const hwy::AbortFunc saved = hwy::SetAbortFunc(&ThrowBinAbort);
  bool aborted = false;
  try {
    if (kind == 0) b.Notify(over);
    else if (kind == 1) b.Notify(int(over));
    else if (kind == 2) b.Notify(neg);
    else b.Notify(s.Bool() ? float(over) : float(neg));
  } catch (const BinAbort&) { aborted = true; }
  hwy::SetAbortFunc(saved);
  cx.Desc([&] { return vf::Fmt("Bins<%zu>::Notify kind %d of %zu or %d", N, kind, over, neg); });
  VF_CHECK(aborted, "Bins<%zu> accepted an out-of-range sample (kind %d, %zu or %d)", N, kind, over, neg);
  cx.nontrivial = true;
}
VF_REG("BinsRange<1>", 300, 3000, &BinsRangeTask<1>)
VF_REG("BinsRange<7>", 300, 3000, &BinsRangeTask<7>)
VF_REG("BinsRange<50>", 300, 3000, &BinsRangeTask<50>)
VF_REG("Bins<1>", 300, 3000, &BinsTask<1>)
VF_REG("Bins<7>", 1500, 20000, &BinsTask<7>)
VF_REG("Bins<50>", 1500, 20000, &BinsTask<50>)

// ------------------------------------------------------------ robust
template <class T>
std::vector<T> Values(vf::Src& s, vf::Ctx& cx, size_t n, uint64_t max_range) {
  const int bits = int(sizeof(T)) * 8;
  const int kind = int(s.Below(5));
  std::vector<T> v(n);
  uint64_t base = 0, width = ~0ull;
  const uint64_t lim = bits == 64 ? ~0ull : (1ull << bits) - 1;
  if (kind == 0) { base = s.Int(bits); width = 1 + s.Below(10); }
  else if (kind == 1) { base = lim - s.Below(40); width = 1 + s.Below(60); }
  else if (kind == 2) { base = s.Int(bits); width = 1 + s.Below(std::min<uint64_t>(lim, 5000)); }
  else if (kind == 3) { base = 0; width = 1 + s.Below(200); }
  for (size_t i = 0; i < n; ++i) {
    uint64_t x = kind == 4 ? s.Int(bits) : base + s.Below(width);
    if (x > lim || x < base * (kind != 4)) x = lim;
    if (max_range != ~0ull && x > max_range) x = max_range;
    v[i] = T(x);
    cx.Desc([&] { return vf::Fmt("%llu ", (unsigned long long)v[i]); });
  }
  return v;
}

using u128 = unsigned __int128;

template <class T>
T RefMedian(std::vector<T> v) {
  std::sort(v.begin(), v.end());
  const size_t h = v.size() / 2;
  if (v.size() % 2) return v[h];
  return T((u128(v[h]) + u128(v[h - 1]) + 1) / 2);
}

// Half-sample mode: repeatedly the first narrowest of the `half` windows.
template <class T>
T RefMode(const std::vector<T>& v) {
  size_t b = 0, half = v.size() / 2;
  while (half > 1) {
    size_t best = b;
    for (size_t i = b; i < b + half; ++i)
      if (u128(v[i + half]) - v[i] < u128(v[best + half]) - v[best]) best = i;
    b = best;
    half /= 2;
  }
  if (half == 0) return v[b];
  return T((u128(v[b]) + v[b + 1] + 1) / 2);
}

template <class T>
void Robust(vf::Src& s, vf::Ctx& cx) {
  namespace rs = hwy::robust_statistics;
  const size_t n = 1 + s.Len(s.Below(10) == 0 ? 300 : 40, 8);
  cx.Desc([&] { return vf::Fmt("n=%zu: ", n); });
  const std::vector<T> v = Values<T>(s, cx, n, ~0ull);
  std::vector<T> sorted = v;
  std::sort(sorted.begin(), sorted.end());
  static vf::Guarded guard;  // accesses beyond the array crash or are noticed
  const auto place = [&](const std::vector<T>& from) {
    T* p = guard.Arr<T>(s, n);
    memcpy(p, from.data(), n * sizeof(T));
    return p;
  };
  T* w = place(v);
  rs::CountingSort(w, n);
  guard.Check("CountingSort");
  VF_CHECK(std::equal(w, w + n, sorted.data()), "CountingSort does not sort");
  const T mos = rs::ModeOfSorted(place(sorted), n);
  guard.Check("ModeOfSorted");
  VF_CHECK(mos == RefMode(sorted), "ModeOfSorted = %llu, reference %llu", (unsigned long long)mos, (unsigned long long)RefMode(sorted));
  w = place(v);
  const T mode = rs::Mode(w, n);
  guard.Check("Mode");
  VF_CHECK(mode == RefMode(sorted), "Mode = %llu, reference %llu", (unsigned long long)mode, (unsigned long long)RefMode(sorted));
  VF_CHECK(mode >= sorted[0] && mode <= sorted[n - 1], "Mode outside the range of the samples");
  w = place(v);
  const T med = rs::Median(w, n);
  guard.Check("Median");
  VF_CHECK(med == RefMedian(v), "Median = %llu, reference %llu", (unsigned long long)med, (unsigned long long)RefMedian(v));
  // MAD: deviations must fit in int64_t
  bool ok = true;
  std::vector<T> dev;
  const T center = s.Bool() ? med : v[size_t(s.Below(n))];
  for (T x : v) {
    const T d = x > center ? T(x - center) : T(center - x);
    if (uint64_t(d) >= (1ull << 63)) ok = false;
    if (sizeof(T) == 8 && (uint64_t(x) >> 63) != (uint64_t(center) >> 63)) ok = false;
    dev.push_back(d);
  }
  if (ok) {
    w = place(v);
    const T mad = rs::MedianAbsoluteDeviation(w, n, center);
    guard.Check("MedianAbsoluteDeviation");
    VF_CHECK(std::equal(w, w + n, v.data()), "MedianAbsoluteDeviation modified its input");
    VF_CHECK(mad == RefMedian(dev), "MedianAbsoluteDeviation(%llu) = %llu, reference %llu", (unsigned long long)center, (unsigned long long)mad, (unsigned long long)RefMedian(dev));
    ++cx.evals;
  }
  T arr[5];
  for (int i = 0; i < 5; ++i) arr[i] = v[size_t(s.Below(n))];
  std::vector<T> a5(arr, arr + 5);
  std::sort(a5.begin(), a5.end());
  const T m5 = rs::Mode(arr);
  VF_CHECK(m5 == RefMode(a5), "Mode(array) = %llu, reference %llu", (unsigned long long)m5, (unsigned long long)RefMode(a5));
  cx.evals += 5;
  cx.nontrivial = n > 2 && sorted[0] != sorted[n - 1];
}
VF_REG("Robust<u8>", 150000, 3000000, &Robust<uint8_t>)
VF_REG("Robust<u16>", 150000, 3000000, &Robust<uint16_t>)
VF_REG("Robust<u32>", 150000, 3000000, &Robust<uint32_t>)
VF_REG("Robust<u64>", 150000, 3000000, &Robust<uint64_t>)

// Large sample counts with few distinct values: counts beyond 16 bits.
template <class T>
void RobustLarge(vf::Src& s, vf::Ctx& cx) {
  namespace rs = hwy::robust_statistics;
  const size_t distinct = 1 + size_t(s.Below(5));
  const std::vector<T> d = Values<T>(s, cx, distinct, ~0ull);
  std::vector<T> v;
  std::vector<size_t> runs(distinct);
  for (size_t i = 0; i < distinct; ++i) {
    runs[i] = s.Chance(1, 2) ? size_t(s.Below(90000)) : size_t(s.Below(300));
    v.insert(v.end(), runs[i], d[i]);
  }
  if (v.empty()) v.push_back(d[0]);
  const size_t n = v.size();
  cx.Desc([&] { std::string t; for (size_t r : runs) t += vf::Fmt("%zu ", r); return " run lengths " + t; });
  vf::Rng r = s.Sub();
  for (size_t i = n - 1; i > 0; --i) std::swap(v[i], v[r.Below(i + 1)]);
  std::vector<T> sorted = v;
  std::sort(sorted.begin(), sorted.end());
  std::vector<T> w = v;
  rs::CountingSort(w.data(), n);
  VF_CHECK(w == sorted, "CountingSort does not sort");
  w = v;
  const T mode = rs::Mode(w.data(), n);
  VF_CHECK(mode == RefMode(sorted), "Mode = %llu, reference %llu", (unsigned long long)mode, (unsigned long long)RefMode(sorted));
  w = v;
  const T med = rs::Median(w.data(), n);
  VF_CHECK(med == RefMedian(v), "Median = %llu, reference %llu", (unsigned long long)med, (unsigned long long)RefMedian(v));
  cx.evals = 3;
  cx.nontrivial = n > 70000;
}
VF_REG("RobustLarge<u32>", 120, 2000, &RobustLarge<uint32_t>)
VF_REG("RobustLarge<u64>", 120, 2000, &RobustLarge<uint64_t>)
}  // namespace
