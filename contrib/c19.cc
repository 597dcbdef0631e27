// C19: AutoTune, CostDistribution and NextWithSkip on generated cost histories.
#include <math.h>

#include <algorithm>
#include <string>
#include <vector>

#include "hwy/auto_tune.h"
#include "vf.h"

namespace {
int g_warnings;
void OnWarn(const char*, int, const char*) { ++g_warnings; }

struct Config { int id; double payload; };

// ------------------------------------------------------------ NextWithSkip
VF_TASK(NextWithSkip, 400000, 10000000) {
  size_t n = 1 + s.Len(s.Below(200) == 0 ? 16382 : 60, 4);
  if (s.Below(1000) == 7) n = 16383;
  cx.Desc([&] { return vf::Fmt("n=%zu: ", n); });
  hwy::NextWithSkip l(n);
  std::vector<size_t> left(n);
  for (size_t i = 0; i < n; ++i) left[i] = i;
  size_t at = 0;  // index in left
  const int steps = 1 + int(s.Below(3 * std::min<size_t>(n, 100)));
  size_t skips = 0;
  for (int i = 0; i < steps; ++i) {
    const size_t pos = left[at];
    const size_t next = l.Next(pos);
    const size_t want = left[(at + 1) % left.size()];
    VF_CHECK(next == want, "Next(%zu) = %zu, expected %zu (%zu left of %zu)", pos, next, want, left.size(), n);
    cx.evals++;
    switch (s.Below(4)) {
      case 0: at = (at + 1) % left.size(); break;
      case 1: at = size_t(s.Below(left.size())); break;
      default: {
        const size_t k = s.Bool() ? at : size_t(s.Below(left.size()));
        cx.Desc([&] { return vf::Fmt("skip %zu; ", left[k]); });
        l.Skip(left[k]);
        ++skips;
        if (left.size() > 1) {
          left.erase(left.begin() + std::ptrdiff_t(k));
          if (at > k) --at;
          at %= left.size();
        }
      }
    }
  }
  // Full cycle visits exactly the remaining positions.
  size_t p = left[at];
  for (size_t i = 0; i < left.size(); ++i) {
    VF_CHECK(p == left[(at + i) % left.size()], "cycle: %zu at step %zu", p, i);
    p = l.Next(p);
  }
  VF_CHECK(p == left[at], "the cycle does not return to its start");
  cx.nontrivial = skips > 1 && n > 2;
}

// ------------------------------------------------------------ CostDistribution
double Cost(vf::Src& s, int kind) {
  switch (kind) {
    case 0: return double(s.Below(20));
    case 1: return 1000.0 + double(s.Below(1000));
    case 2: return double(s.Int(50));
    case 3: return s.Below(6) == 0 ? 1E6 : 100.0 + double(s.Below(10));
    case 4: return 7.0;
    default: return ldexp(1.0 + double(s.Below(1024)) / 1024.0, int(s.Below(40)) - 20);
  }
}

// Estimates stay within the range of the samples at every point.
VF_TASK(EstimateInRange, 400000, 10000000) {
  hwy::CostDistribution cd;
  auto prev = hwy::SetWarnFunc(&OnWarn);
  g_warnings = 0;
  const int kind = int(s.Below(6));
  const size_t n = 1 + s.Len(80, 14);
  double lo = 1E300, hi = 0;
  int negatives = 0;
  const uint64_t p_est = 1 + s.Below(40);
  for (size_t i = 0; i < n; ++i) {
    if (s.Below(20) == 19) {
      const double neg = -Cost(s, kind) - 1.0;
      cd.Notify(neg);
      cx.Desc([&] { return vf::Fmt("%g ", neg); });
      ++negatives;
    }
    const double c = Cost(s, kind);
    cx.Desc([&] { return vf::Fmt("%.17g ", c); });
    cd.Notify(c);
    lo = std::min(lo, c); hi = std::max(hi, c);
    if (i + 1 == n || s.Below(p_est) == 0) {
      const double e = cd.EstimateCost();
      cx.Desc([&] { return std::string("E "); });
      const double tol = 1E-12 * hi;
      if (!(e >= lo - tol && e <= hi + tol)) { hwy::SetWarnFunc(prev); VF_FAIL("estimate %.17g outside the range [%.17g, %.17g] of %zu samples", e, lo, hi, i + 1); }
      if (cd.EstimateCost() != e) { hwy::SetWarnFunc(prev); VF_FAIL("second EstimateCost %.17g != %.17g", cd.EstimateCost(), e); }
      ++cx.evals;
    }
  }
  hwy::SetWarnFunc(prev);
  VF_CHECK(g_warnings == negatives, "%d warnings for %d negative costs", g_warnings, negatives);
  cx.nontrivial = lo != hi && n > 3;
}

// Up to 14 samples of which at most a quarter are outliers in one direction.
VF_TASK(EstimateOutliers, 400000, 10000000) {
  hwy::CostDistribution cd;
  const size_t n = 4 + size_t(s.Below(11));
  const double base = ldexp(1.0 + double(s.Below(1024)) / 1024.0, int(s.Below(50)));
  const uint64_t noise = s.Below(4);  // percent
  const size_t nout = size_t(s.Below(n / 4 + 1));
  const bool up = s.Bool();
  const int tail = int(s.Below(3));
  std::vector<double> v;
  double lo = 1E300, hi = 0;
  for (size_t i = 0; i < n; ++i) {
    if (i < nout) {
      const double f = up ? 2.0 + double(s.Below(100)) * (tail == 0 ? 0.01 : tail == 1 ? 1.0 : 1000.0) : 0.5 / (1.0 + double(s.Below(100)) * (tail ? 1.0 : 0.01));
      v.push_back(base * f);
    } else {
      const double x = base * (1.0 + (double(s.Below(2001)) - 1000.0) * 1E-5 * double(noise));
      v.push_back(x); lo = std::min(lo, x); hi = std::max(hi, x);
    }
  }
  for (size_t i = n; i > 1; --i) std::swap(v[i - 1], v[size_t(s.Below(i))]);
  for (double x : v) { cd.Notify(x); cx.Desc([&] { return vf::Fmt("%.9g ", x); }); }
  const double e = cd.EstimateCost();
  VF_CHECK(e >= lo * (1 - 1E-12) && e <= hi * (1 + 1E-12), "%zu of %zu samples are outliers (%s): estimate %.17g outside the inliers [%.17g, %.17g]", nout, n, up ? "high" : "low", e, lo, hi);
  // Further regular samples with rare outliers keep the estimate close.
  const size_t more = s.Len(100, 16);
  size_t since = 0;
  for (size_t i = 0; i < more; ++i) {
    double x = base * (1.0 + (double(s.Below(2001)) - 1000.0) * 1E-5 * double(noise));
    if (++since > 50 && s.Below(10) == 0) { x = base * (2.0 + double(s.Below(1000))); since = 0; }
    cd.Notify(x);
    cx.Desc([&] { return vf::Fmt("%.9g ", x); });
    const double f = cd.EstimateCost();
    VF_CHECK(f >= 0.85 * base && f <= 1.25 * base, "online: estimate %.17g for samples around %.17g", f, base);
    ++cx.evals;
  }
  cx.nontrivial = nout != 0;
  cx.cls = nout == 0 ? "no outlier" : up ? "high" : "low";
}

// ------------------------------------------------------------ AutoTune
struct Landscape {
  int kind;
  std::vector<double> base;
  std::vector<size_t> since, uses;
  uint64_t noise = 0;   // percent
  uint64_t out_every = 0;
};

template <size_t kMin>
void Tune(vf::Src& s, vf::Ctx& cx) {
  const size_t n = 1 + s.Len(s.Below(30) == 0 ? 600 : 12, 4);
  // 0: arbitrary costs, 1: exact per-candidate costs, 2: separated + noise
  // 3: noise without outliers, closer costs
  int mode = int(s.Below(4));
  if (mode == 2 && kMin < 12) mode = 3;
  std::vector<Config> cand(n);
  for (size_t i = 0; i < n; ++i) { cand[i].id = int(i * 7 + 3); cand[i].payload = double(i); }
  cx.Desc([&] { return vf::Fmt("kMinSamples %zu, %zu candidates, mode %d: ", kMin, n, mode); });
  std::vector<uint64_t> base(n);
  const size_t argmin = size_t(s.Below(n));
  const uint64_t noise = s.Below(4);
  const int akind = int(s.Below(5));
  if (mode == 1) {
    const uint64_t unit = 1 + s.Below(s.Bool() ? 10 : 1000000);
    const int shape = int(s.Below(3));
    for (size_t i = 0; i < n; ++i) base[i] = unit * (shape == 0 ? 1 + s.Below(10) : shape == 1 ? 1000 + s.Below(300) : n + 1 - i);
    if (s.Below(8) == 7) base[argmin] = 0;
  } else if (mode >= 2) {
    const uint64_t b = 1000 + s.Below(1000000), ratio = mode == 2 ? 160 : 108;
    for (size_t i = 0; i < n; ++i) base[i] = i == argmin ? b : b * (ratio + s.Below(s.Bool() ? 400 : 20)) / 100 + 1;
  }
  if (mode) for (size_t i = 0; i < std::min<size_t>(n, 30); ++i) cx.Desc([&] { return vf::Fmt("%llu ", (unsigned long long)base[i]); });
  std::vector<size_t> uses(n, 0), outliers(n, 0);

  hwy::AutoTune<Config, kMin> tuner;
  VF_CHECK(tuner.Best() == nullptr, "Best before any measurement");
  VF_CHECK(!tuner.HasCandidates(), "HasCandidates before SetCandidates");
  std::vector<Config> copy = cand;
  tuner.SetCandidates(copy);
  VF_CHECK(tuner.HasCandidates(), "!HasCandidates after SetCandidates");
  VF_CHECK(tuner.Candidates().size() == n, "%zu candidates", tuner.Candidates().size());
  const size_t max_reports = n * (3 * kMin / 2 + 1);
  size_t reports = 0;
  std::vector<double> lo(n, 1E300), hi(n, 0);
  for (;; ++reports) {
    if (tuner.Best() != nullptr) break;
    VF_CHECK(reports < max_reports, "not finished after %zu reports", reports);
    const Config& c = tuner.NextConfig();
    const size_t idx = size_t((c.id - 3) / 7);
    VF_CHECK(c.id >= 3 && (c.id - 3) % 7 == 0 && idx < n && c.payload == double(idx), "offered a configuration that is not in the list (id %d)", c.id);
    const Config& c2 = tuner.NextConfig();
    VF_CHECK(c2.id == c.id, "NextConfig changed without a report");
    ++uses[idx];
    // Rounds: before exclusion starts, each candidate is measured once per round.
    if (reports < n * kMin) VF_CHECK(uses[idx] == reports / n + 1, "candidate %zu measured %zu times after %zu reports of %zu candidates", idx, uses[idx], reports + 1, n);
    uint64_t cost;
    if (mode == 0) {
      cost = akind == 0 ? s.Below(10) : akind == 1 ? s.Int(52) : akind == 2 ? 1000 - std::min<size_t>(reports, 1000) : akind == 3 ? (s.Below(8) == 0 ? 1000000000 : 100) : reports;
    } else if (mode == 1) {
      cost = base[idx];
    } else {
      const double f = 1.0 + (double(s.Below(2001)) - 1000.0) * 1E-5 * double(noise);
      cost = uint64_t(double(base[idx]) * f);
      if (mode == 2 && outliers[idx] * 6 + 6 <= uses[idx] + 3 && s.Below(4) == 0) {
        ++outliers[idx];
        cost = s.Below(4) == 0 ? base[idx] * 6 / 10 : base[idx] * (2 + s.Below(50));
      }
    }
    lo[idx] = std::min(lo[idx], double(cost)); hi[idx] = std::max(hi[idx], double(cost));
    tuner.NotifyCost(cost);
  }
  cx.Desc([&] { return vf::Fmt("| %zu reports", reports); });
  VF_CHECK(reports >= n * kMin, "finished after only %zu reports for %zu candidates", reports, n);
  const Config* best = tuner.Best();
  const hwy::Span<const Config> cs = tuner.Candidates();
  VF_CHECK(best >= cs.data() && best < cs.data() + n, "Best does not point into Candidates");
  const size_t bi = size_t(best - cs.data());
  VF_CHECK(best->id == int(bi * 7 + 3) && best->payload == double(bi), "Best was modified");
  for (size_t i = 0; i < n; ++i) {
    VF_CHECK(uses[i] >= kMin, "candidate %zu was measured only %zu times", i, uses[i]);
    VF_CHECK(cs[i].id == int(i * 7 + 3), "candidate list was modified");
  }
  VF_CHECK(tuner.Best() == best, "Best changed");
  hwy::Span<hwy::CostDistribution> costs = tuner.Costs();
  VF_CHECK(costs.size() == n, "%zu costs", costs.size());
  double bc = costs[bi].EstimateCost();
  for (size_t i = 0; i < n; ++i) {
    const double e = costs[i].EstimateCost();
    VF_CHECK(e >= bc, "winner %zu has cost estimate %.17g, candidate %zu has %.17g", bi, bc, i, e);
    VF_CHECK(e >= lo[i] * (1 - 1E-12) && e <= hi[i] * (1 + 1E-12), "estimate %g of candidate %zu outside its samples [%g, %g]", e, i, lo[i], hi[i]);
  }
  if (mode == 1) {
    const uint64_t m = *std::min_element(base.begin(), base.end());
    VF_CHECK(base[bi] == m, "winner %zu costs %llu, minimum is %llu", bi, (unsigned long long)base[bi], (unsigned long long)m);
  } else if (mode >= 2) {
    VF_CHECK(bi == argmin, "winner %zu (cost %llu), cheapest is %zu (%llu)", bi, (unsigned long long)base[bi], argmin, (unsigned long long)base[argmin]);
  }
  cx.evals = reports + 2 * n;
  cx.nontrivial = n > 1;
  cx.cls = mode == 0 ? "arbitrary" : mode == 1 ? "exact" : "noisy";
}
VF_REG("AutoTune<2>", 200000, 8000000, &Tune<2>)
VF_REG("AutoTune<3>", 100000, 4000000, &Tune<3>)
VF_REG("AutoTune<5>", 100000, 4000000, &Tune<5>)
VF_REG("AutoTune<12>", 100000, 4000000, &Tune<12>)
VF_REG("AutoTune<13>", 50000, 2000000, &Tune<13>)
VF_REG("AutoTune<30>", 50000, 2000000, &Tune<30>)
}  // namespace
