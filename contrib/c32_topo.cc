// C32: topology and cache detection on simulated machines: open/read/close of
// /sys files and sysconf are replaced (linker --wrap) while a case runs.
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "hwy/contrib/thread_pool/topology.h"
#include "vf.h"

namespace {
struct Fs {
  bool on = false;
  std::map<std::string, std::string> files;
  struct Open { std::string data; size_t pos; };
  std::map<int, Open> open;
  int next = 100000;
  long online = 1;
  uint64_t eintr = 0, chunk = 0;  // injected faults
  uint64_t rng = 1;
  bool Chance() { if (!eintr) return false; rng = rng * 6364136223846793005ull + 1442695040888963407ull; return ((rng >> 33) % 16) < eintr; }
};
Fs g_fs;
}  // namespace

extern "C" {
int __real_open(const char*, int, ...);
ssize_t __real_read(int, void*, size_t);
int __real_close(int);
long __real_sysconf(int);
static int VfOpen(const char* path) {
  if (g_fs.Chance()) { errno = EINTR; return -1; }
  const auto it = g_fs.files.find(path);
  if (it == g_fs.files.end()) { errno = ENOENT; return -1; }
  const int fd = g_fs.next++;
  g_fs.open[fd] = Fs::Open{it->second, 0};
  return fd;
}
int __wrap_open(const char* path, int flags, ...) {
  if (g_fs.on && strncmp(path, "/sys/", 5) == 0) return VfOpen(path);
  va_list a; va_start(a, flags); const int mode = va_arg(a, int); va_end(a);
  return __real_open(path, flags, mode);
}
int __wrap_open64(const char* path, int flags, ...) {
  if (g_fs.on && strncmp(path, "/sys/", 5) == 0) return VfOpen(path);
  va_list a; va_start(a, flags); const int mode = va_arg(a, int); va_end(a);
  return __real_open(path, flags, mode);
}
ssize_t __wrap_read(int fd, void* buf, size_t n) {
  const auto it = g_fs.on ? g_fs.open.find(fd) : g_fs.open.end();
  if (it == g_fs.open.end()) return __real_read(fd, buf, n);
  if (g_fs.Chance()) { errno = EINTR; return -1; }
  Fs::Open& o = it->second;
  size_t m = std::min(n, o.data.size() - o.pos);
  if (g_fs.chunk) m = std::min<size_t>(m, g_fs.chunk);
  memcpy(buf, o.data.data() + o.pos, m);
  o.pos += m;
  return ssize_t(m);
}
int __wrap_close(int fd) {
  const auto it = g_fs.on ? g_fs.open.find(fd) : g_fs.open.end();
  if (it == g_fs.open.end()) return __real_close(fd);
  g_fs.open.erase(it);
  return 0;
}
long __wrap_sysconf(int name) {
  if (g_fs.on && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return g_fs.online;
  return __real_sysconf(name);
}
}

namespace {
using vf::Ctx;
using vf::Src;
struct Scope { Scope() { g_fs.on = true; hwy::SetWarnFunc([](const char*, int, const char*) {}); } ~Scope() { g_fs.on = false; g_fs = Fs(); } };

// The kernel's list format (%*pbl).
std::string List(const std::vector<size_t>& sorted) {
  std::string r;
  for (size_t i = 0; i < sorted.size();) {
    size_t j = i;
    while (j + 1 < sorted.size() && sorted[j + 1] == sorted[j] + 1) ++j;
    if (!r.empty()) r += ",";
    r += std::to_string(sorted[i]);
    if (j != i) r += "-" + std::to_string(sorted[j]);
    i = j + 1;
  }
  return r + "\n";
}

struct LP { size_t package = 0, cluster = 0, core = 0, node = 0; bool l3 = true; };
struct CacheFile { std::string type; uint32_t level; uint64_t kib, ways, sets, line; std::vector<size_t> shared; bool complete; };
struct Machine {
  std::vector<LP> lp;          // indices
  std::vector<uint64_t> package_id, core_id, cluster_id;  // opaque, [package], [package][..] flattened below
  std::map<std::pair<size_t, size_t>, uint64_t> core_ids, cluster_ids;
  std::map<size_t, uint64_t> l2, l3;  // KiB of the LP
  size_t nodes = 1;
  bool fail = false;           // topology files missing
  std::vector<CacheFile> caches;
};

uint64_t OpaqueId(Src& s, uint64_t style, size_t i) {
  switch (style) {
    case 0: return i;
    case 1: return i * 4;
    case 2: return 1000 + 256 * i;
    case 3: return 4294967295u - i * 3;
    case 4: return s.Below(1000000000);
    default: return s.Below(uint64_t(1) << 32);
  }
}
void Ids(Src& s, size_t n, std::vector<uint64_t>& out) {
  const uint64_t style = s.Below(6);
  std::set<uint64_t> seen;
  out.clear();
  for (size_t i = 0; i < n; ++i) {
    uint64_t v = OpaqueId(s, style, i);
    while (!seen.insert(v).second) ++v;
    out.push_back(v);
  }
}

void Generate(Src& s, Ctx& cx, Machine& m) {
  const size_t packages = 1 + size_t(s.Below(s.Below(3) ? 2 : 5));
  const size_t clusters = 1 + size_t(s.Below(4)), cores = 1 + size_t(s.Below(s.Below(3) ? 6 : 20));
  const size_t smt = s.Below(3) ? 1 + size_t(s.Below(2)) : 1 + size_t(s.Below(4));
  const uint64_t order = s.Below(5);
  // Homogeneous, then possibly a random subset.
  for (size_t p = 0; p < packages; ++p)
    for (size_t c = 0; c < clusters; ++c)
      for (size_t k = 0; k < cores; ++k)
        for (size_t t = 0; t < smt; ++t) { LP l; l.package = p; l.cluster = c; l.core = c * cores + k; m.lp.push_back(l); }
  if (order == 1) {  // SMT siblings far apart
    std::vector<LP> r;
    for (size_t t = 0; t < smt; ++t) for (size_t i = t; i < m.lp.size(); i += smt) r.push_back(m.lp[i]);
    m.lp = r;
  } else if (order == 2) {  // interleaved packages
    std::vector<LP> r;
    const size_t per = m.lp.size() / packages;
    for (size_t i = 0; i < per; ++i) for (size_t p = 0; p < packages; ++p) r.push_back(m.lp[p * per + i]);
    m.lp = r;
  } else if (order >= 3) {
    vf::Rng r = s.Sub();
    for (size_t i = m.lp.size(); i > 1; --i) std::swap(m.lp[i - 1], m.lp[r() % i]);
    if (order == 4) m.lp.resize(1 + size_t(s.Below(m.lp.size())));
  }
  if (m.lp.size() > 1024) m.lp.resize(1024);
  const size_t n = m.lp.size();
  // Hybrid: some cores without L3.
  const uint64_t l3 = s.Below(6);  // 0: none, 1: some
  vf::Rng r = s.Sub();
  std::set<std::pair<size_t, size_t>> no_l3;
  for (size_t p = 0; p < packages; ++p) for (size_t k = 0; k < clusters * cores; ++k) if (l3 == 0 || (l3 == 1 && r() % 3 == 0)) no_l3.insert({p, k});
  for (LP& l : m.lp) l.l3 = !no_l3.count({l.package, l.core});
  Ids(s, packages, m.package_id);
  const bool shared_ids = s.Bool();  // core IDs of packages may repeat
  std::vector<uint64_t> ids;
  Ids(s, clusters * cores, ids);
  for (size_t p = 0; p < packages; ++p) { if (!shared_ids) Ids(s, clusters * cores, ids); for (size_t k = 0; k < ids.size(); ++k) m.core_ids[{p, k}] = ids[k]; }
  Ids(s, packages * clusters, ids);
  for (size_t p = 0; p < packages; ++p) for (size_t c = 0; c < clusters; ++c) m.cluster_ids[{p, c}] = ids[p * clusters + c];
  // NUMA nodes: per package, per cluster, alternating, single; plus nodes without processors.
  const uint64_t numa = s.Below(5);
  m.nodes = numa == 0 ? 1 : numa == 1 ? packages : numa == 2 ? packages * clusters : 2 + size_t(s.Below(3));
  for (size_t i = 0; i < n; ++i) {
    LP& l = m.lp[i];
    l.node = numa == 0 ? 0 : numa == 1 ? l.package : numa == 2 ? l.package * clusters + l.cluster : numa == 3 ? i % m.nodes : size_t(r() % m.nodes);
  }
  if (s.Below(3) == 0) m.nodes += 1 + size_t(s.Below(2));
  static const uint64_t kL2[] = {256, 512, 1024, 1280, 2048, 4096}, kL3[] = {1024, 8192, 32768, 36864, 107520};
  for (size_t i = 0; i < n; ++i) { if (r() % 16) m.l2[i] = kL2[r() % 6]; if (m.lp[i].l3) m.l3[i] = kL3[r() % 5]; }

  g_fs.online = long(n);
  g_fs.eintr = s.Below(4) == 0 ? 1 + s.Below(8) : 0;
  g_fs.chunk = s.Below(4) == 0 ? 1 + s.Below(100) : 0;
  g_fs.rng = s.Bits();
  auto& f = g_fs.files;
  const bool alt = s.Bool();
  for (size_t i = 0; i < n; ++i) {
    const std::string d = "/sys/devices/system/cpu/cpu" + std::to_string(i) + "/";
    const LP& l = m.lp[i];
    f[d + "topology/physical_package_id"] = std::to_string(m.package_id[l.package]) + "\n";
    f[d + "topology/core_id"] = std::to_string(m.core_ids[{l.package, l.core}]) + "\n";
    if (l.l3) f[d + "cache/index3/id"] = std::to_string(m.cluster_ids[{l.package, l.cluster}]) + "\n";
    const auto size = [&](uint64_t kib) { return (alt && kib % 1024 == 0 ? std::to_string(kib / 1024) + "M" : std::to_string(kib) + "K") + "\n"; };
    if (m.l2.count(i)) f[d + "cache/index2/size"] = size(m.l2[i]);
    if (m.l3.count(i)) f[d + "cache/index3/size"] = size(m.l3[i]);
  }
  for (size_t k = 0; k < m.nodes; ++k) {
    std::vector<size_t> v;
    for (size_t i = 0; i < n; ++i) if (m.lp[i].node == k) v.push_back(i);
    f["/sys/devices/system/node/node" + std::to_string(k) + "/cpulist"] = List(v);
  }
  if (s.Below(12) == 0) {
    m.fail = true;
    const std::string d = "/sys/devices/system/cpu/cpu" + std::to_string(s.Below(n)) + "/topology/";
    if (s.Bool()) f.erase(d + (s.Bool() ? "core_id" : "physical_package_id")); else f[d + "physical_package_id"] = "-1\n";
  }
  cx.Desc([&] {
    std::string d = vf::Fmt("%zu LPs (package.cluster.core):", n);
    for (size_t i = 0; i < n && i < 40; ++i) d += vf::Fmt(" %zu.%zu.%zu%s", m.lp[i].package, m.lp[i].cluster, m.lp[i].core, m.lp[i].l3 ? "" : "-");
    for (size_t k = 0; k < m.nodes; ++k) { std::string l = f["/sys/devices/system/node/node" + std::to_string(k) + "/cpulist"]; l.pop_back(); d += " node" + std::to_string(k) + "=" + l.substr(0, 100); }
    for (auto& q : f) if (q.first.find("cpu0/") != std::string::npos) d += " " + q.first.substr(28) + "=" + q.second.substr(0, q.second.size() - 1);
    if (g_fs.eintr) d += " EINTR";
    if (g_fs.chunk) d += vf::Fmt(" reads of %llu", (unsigned long long)g_fs.chunk);
    return d;
  });
}

std::vector<size_t> Bits(const hwy::LogicalProcessorSet& s) { std::vector<size_t> v; s.Foreach([&](size_t i) { v.push_back(i); }); return v; }

void Detect(Src& s, Ctx& cx) {
  Scope scope;
  Machine m;
  Generate(s, cx, m);
  const size_t n = m.lp.size();
  cx.evals = n;
  VF_CHECK(hwy::TotalLogicalProcessors() == n, "TotalLogicalProcessors() is %zu of %zu", hwy::TotalLogicalProcessors(), n);
  const hwy::Topology t;
  VF_CHECK(g_fs.open.empty(), "%zu files are still open", g_fs.open.size());
  if (m.fail) { VF_CHECK(t.packages.empty(), "packages detected despite missing files"); return; }
  std::set<size_t> packages;
  for (const LP& l : m.lp) packages.insert(l.package);
  VF_CHECK(t.packages.size() == packages.size(), "%zu of %zu packages", t.packages.size(), packages.size());
  VF_CHECK(t.lps.size() == n, "%zu of %zu LPs", t.lps.size(), n);
  std::map<size_t, size_t> pmap, prev;
  std::map<std::pair<size_t, size_t>, size_t> cmap, kmap;
  for (size_t i = 0; i < n; ++i) {
    const hwy::Topology::LP& a = t.lps[i];
    const LP& b = m.lp[i];
    VF_CHECK(a.package < t.packages.size(), "LP %zu: package %u", i, a.package);
    const hwy::Topology::Package& p = t.packages[a.package];
    VF_CHECK(a.cluster < p.clusters.size(), "LP %zu: cluster %u of %zu", i, a.cluster, p.clusters.size());
    VF_CHECK(a.core < p.cores.size(), "LP %zu: core %u of %zu", i, a.core, p.cores.size());
    VF_CHECK(pmap.emplace(b.package, a.package).first->second == a.package, "LP %zu: package %u, others of its package %zu", i, a.package, pmap[b.package]);
    if (b.l3) VF_CHECK(cmap.emplace(std::make_pair(b.package, b.cluster), a.cluster).first->second == a.cluster, "LP %zu: cluster %u, others of its cluster %zu", i, a.cluster, cmap[{b.package, b.cluster}]);
    VF_CHECK(kmap.emplace(std::make_pair(b.package, b.core), a.core).first->second == a.core, "LP %zu: core %u, others of its core %zu", i, a.core, kmap[{b.package, b.core}]);
    VF_CHECK(a.node == b.node, "LP %zu: node %u, expected %zu", i, a.node, b.node);
    VF_CHECK(a.smt < p.cores[a.core].lps.Count(), "LP %zu: smt %u", i, a.smt);
    for (size_t j = 0; j < i; ++j) {
      if (t.lps[j].package != a.package) { VF_CHECK(m.lp[j].package != b.package, "LP"); continue; }
      VF_CHECK(m.lp[j].package == b.package, "LPs %zu and %zu of different packages are in package %u", i, j, a.package);
      VF_CHECK((t.lps[j].core == a.core) == (m.lp[j].core == b.core), "LPs %zu and %zu: cores %u %u", i, j, a.core, t.lps[j].core);
      if (b.l3 && m.lp[j].l3) VF_CHECK((t.lps[j].cluster == a.cluster) == (m.lp[j].cluster == b.cluster), "LPs %zu and %zu: clusters %u %u", i, j, a.cluster, t.lps[j].cluster);
      VF_CHECK(t.lps[j].core != a.core || t.lps[j].smt != a.smt, "LPs %zu and %zu have the same smt", i, j);
    }
  }
  for (size_t ip = 0; ip < t.packages.size(); ++ip) {
    const hwy::Topology::Package& p = t.packages[ip];
    size_t in_clusters = 0, in_cores = 0, total = 0;
    for (size_t i = 0; i < n; ++i) total += t.lps[i].package == ip;
    for (size_t c = 0; c < p.clusters.size(); ++c) {
      const std::vector<size_t> v = Bits(p.clusters[c].lps);
      VF_CHECK(!v.empty(), "cluster %zu of package %zu is empty", c, ip);
      for (size_t i : v) VF_CHECK(i < n && t.lps[i].package == ip && t.lps[i].cluster == c, "LP %zu is in the set of cluster %zu of package %zu", i, c, ip);
      in_clusters += v.size();
      const uint64_t l2 = m.l2.count(v[0]) ? m.l2[v[0]] : 0, l3 = m.l3.count(v[0]) ? m.l3[v[0]] : 0;
      VF_CHECK(p.clusters[c].private_kib == l2, "private_kib %llu, L2 is %llu", (unsigned long long)p.clusters[c].private_kib, (unsigned long long)l2);
      VF_CHECK(p.clusters[c].shared_kib == l3, "shared_kib %llu, L3 is %llu", (unsigned long long)p.clusters[c].shared_kib, (unsigned long long)l3);
    }
    for (size_t c = 0; c < p.cores.size(); ++c) {
      const std::vector<size_t> v = Bits(p.cores[c].lps);
      VF_CHECK(!v.empty(), "core %zu of package %zu is empty", c, ip);
      for (size_t i : v) VF_CHECK(i < n && t.lps[i].package == ip && t.lps[i].core == c, "LP %zu is in the set of core %zu of package %zu", i, c, ip);
      in_cores += v.size();
    }
    VF_CHECK(in_clusters == total && in_cores == total, "package %zu has %zu LPs, %zu in clusters, %zu in cores", ip, total, in_clusters, in_cores);
  }
}

void Online(Src& s, Ctx& cx) {
  Scope scope;
  cx.evals = 1;
  g_fs.online = s.Below(4) == 0 ? -1 : long(s.Below(2) ? s.Below(1100) : s.Below(100000));
  cx.Desc([&] { return vf::Fmt("sysconf = %ld", g_fs.online); });
  const size_t want = g_fs.online <= 0 ? 1 : size_t(std::min<long>(g_fs.online, 1024)), got = hwy::TotalLogicalProcessors();
  VF_CHECK(got == want, "TotalLogicalProcessors() = %zu, expected %zu", got, want);
}

// More processors than supported: the first 1024 are described.
void Huge(Src& s, Ctx& cx) {
  Scope scope;
  cx.evals = 1024;
  const size_t n = 1000 + size_t(s.Below(200)), per = 1 + size_t(s.Below(200));
  const bool alternate = s.Bool();
  cx.Desc([&] { return vf::Fmt("%zu LPs, %zu per node%s", n, per, alternate ? ", alternating" : ""); });
  g_fs.online = long(n);
  std::map<size_t, std::vector<size_t>> node;
  const size_t nodes = (n + per - 1) / per;
  if (nodes > 255) { cx.evals = 0; return; }
  const auto NodeOf = [&](size_t i) { return alternate ? i % nodes : i / per; };
  for (size_t i = 0; i < n; ++i) {
    const std::string d = "/sys/devices/system/cpu/cpu" + std::to_string(i) + "/";
    g_fs.files[d + "topology/physical_package_id"] = "0\n";
    g_fs.files[d + "topology/core_id"] = std::to_string(i) + "\n";
    node[NodeOf(i)].push_back(i);
  }
  for (auto& q : node) g_fs.files["/sys/devices/system/node/node" + std::to_string(q.first) + "/cpulist"] = List(q.second);
  const hwy::Topology t;
  const size_t want = std::min<size_t>(n, 1024);
  VF_CHECK(t.packages.size() == 1 && t.lps.size() == want && t.packages[0].cores.size() == want && t.packages[0].clusters.size() == 1 && t.packages[0].clusters[0].lps.Count() == want, "%zu LPs detected", t.lps.size());
  for (size_t i = 0; i < want; ++i) VF_CHECK(t.lps[i].node == NodeOf(i), "LP %zu: node %u, expected %zu", i, t.lps[i].node, NodeOf(i));
}

void CacheInfo(Src& s, Ctx& cx) {
  Scope scope;
  Machine m;
  cx.evals = 1;
  Generate(s, cx, m);
  const size_t n = m.lp.size();
  auto& f = g_fs.files;
  // L1 private to the core or several, L2 of up to the cluster, L3 of the cluster or package.
  const auto sharing = [&](uint64_t how) {
    std::vector<size_t> v;
    const LP& z = m.lp[0];
    for (size_t i = 0; i < n; ++i) {
      const LP& l = m.lp[i];
      if (l.package != z.package) continue;
      if (how == 0 ? l.core == z.core : how == 1 ? (l.core / 2 == z.core / 2) : how == 2 ? (l.core / 3 == z.core / 3) : how == 3 ? l.cluster == z.cluster : true) v.push_back(i);
    }
    return v;
  };
  const bool has_l3 = s.Below(4) != 0, has_inst = s.Bool(), has_l2 = s.Below(12) != 0, has_l1 = s.Below(12) != 0;
  static const uint64_t kWays[] = {1, 2, 4, 6, 8, 10, 12, 15, 16, 20, 24};
  const auto make = [&](const char* type, uint32_t level, uint64_t how, uint64_t min_sets) {
    CacheFile c;
    c.type = type; c.level = level;
    c.line = uint64_t(32) << s.Below(4);
    c.ways = kWays[s.Below(11)];
    c.sets = min_sets * (1 + s.Below(16)) * (s.Bool() ? 1 : 3);
    while (c.line * c.ways * c.sets % 1024 != 0 || c.line * c.ways * c.sets < level * 32768) c.sets *= 2;
    c.kib = c.line * c.ways * c.sets / 1024;
    c.shared = sharing(how);
    c.complete = s.Below(20) != 0;
    return c;
  };
  if (has_l1) m.caches.push_back(make("Data", 1, s.Below(8) ? 0 : s.Below(3), 32));
  if (has_inst) m.caches.push_back(make("Instruction", 1, 0, 32));
  if (has_l2) m.caches.push_back(make("Unified", 2, s.Below(4), 512));
  if (has_l3) m.caches.push_back(make("Unified", 3, 2 + s.Below(3), 4096));
  if (has_l3 && s.Below(4) == 0) m.caches.push_back(make("Unified", 4, 4, 4096));
  // A further cache of a level is ignored; without a CPU list it is not shared.
  if (s.Below(10) == 0) { const uint32_t lv = 1 + uint32_t(s.Below(3)); m.caches.push_back(make(lv == 1 ? "Data" : "Unified", lv, lv, lv == 1 ? 32 : 512)); }
  for (CacheFile& c : m.caches) if (s.Below(40) == 0) c.shared.clear();
  if (s.Below(4) == 0) { vf::Rng r = s.Sub(); for (size_t i = m.caches.size(); i > 1; --i) std::swap(m.caches[i - 1], m.caches[r() % i]); }
  for (auto it = f.begin(); it != f.end();) if (it->first.find("/cpu0/cache/index") != std::string::npos && it->first.find("index3/id") == std::string::npos) it = f.erase(it); else ++it;
  for (size_t i = 0; i < m.caches.size(); ++i) {
    const CacheFile& c = m.caches[i];
    const std::string d = "/sys/devices/system/cpu/cpu0/cache/index" + std::to_string(i) + "/";
    f[d + "type"] = c.type + "\n";
    f[d + "level"] = std::to_string(c.level) + "\n";
    f[d + "size"] = std::to_string(c.kib) + "K\n";
    f[d + "ways_of_associativity"] = std::to_string(c.ways) + "\n";
    if (c.complete) f[d + "number_of_sets"] = std::to_string(c.sets) + "\n";
    f[d + "coherency_line_size"] = std::to_string(c.line) + "\n";
    if (!c.shared.empty()) f[d + "shared_cpu_list"] = List(c.shared);
  }
  cx.Desc([&] {
    std::string d;
    for (const CacheFile& c : m.caches) d += vf::Fmt(" %s L%u %lluK %llu-way %llu sets, shared %s", c.type.c_str(), c.level, (unsigned long long)c.kib, (unsigned long long)c.ways, (unsigned long long)c.sets, List(c.shared).c_str());
    return d;
  });
  // Detected once per process.
  int fd[2];
  VF_CHECK(pipe(fd) == 0, "pipe");
  const pid_t pid = fork();
  VF_CHECK(pid >= 0, "fork");
  hwy::Cache got[4];
  if (pid == 0) {
    const hwy::Cache* c = hwy::DataCaches();
    char null = c == nullptr;
    bool same = c == hwy::DataCaches();
    if (!g_fs.open.empty() || !same) null = 2;
    (void)!write(fd[1], &null, 1);
    if (c) (void)!write(fd[1], c, sizeof(got));
    _exit(0);
  }
  close(fd[1]);
  char null = 3;
  ssize_t r = __real_read(fd[0], &null, 1);
  size_t have = 0;
  while (have < sizeof(got) && (r = __real_read(fd[0], reinterpret_cast<char*>(got) + have, sizeof(got) - have)) > 0) have += size_t(r);
  close(fd[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  VF_CHECK(WIFEXITED(status) && null != 3, "DataCaches() aborted");
  VF_CHECK(null != 2, "files still open, or DataCaches() changes");
  hwy::Cache want[4];
  bool expect_null = m.fail;
  const CacheFile* by[4] = {};
  for (const CacheFile& c : m.caches) if (c.level <= 3 && c.type != "Instruction" && c.complete && !by[c.level]) by[c.level] = &c;
  if (!by[1] || !by[2]) expect_null = true;
  VF_CHECK((null == 1) == expect_null, "DataCaches() is %s", null ? "null" : "not null");
  if (null) return;
  for (uint32_t level = 1; level <= 3; ++level) {
    const hwy::Cache& g = got[level];
    if (!by[level]) { VF_CHECK(g.size_kib == 0, "L%u does not exist, size %u", level, g.size_kib); continue; }
    const CacheFile& c = *by[level];
    std::set<std::pair<size_t, size_t>> cores;
    for (size_t i : c.shared) cores.insert({m.lp[i].package, m.lp[i].core});
    const uint64_t k = cores.empty() ? 1 : cores.size();
    if (level == 3 && k >= 16 && c.kib / k <= 512) { VF_CHECK(g.size_kib == 0, "system-level cache is reported as L3"); continue; }
    VF_CHECK(g.size_kib == c.kib / k, "L%u size %u, expected %llu / %llu", level, g.size_kib, (unsigned long long)c.kib, (unsigned long long)k);
    VF_CHECK(g.sets == c.sets / k, "L%u sets %u, expected %llu / %llu", level, g.sets, (unsigned long long)c.sets, (unsigned long long)k);
    VF_CHECK(g.bytes_per_line == c.line, "L%u line %u, expected %llu", level, g.bytes_per_line, (unsigned long long)c.line);
    VF_CHECK(g.associativity == c.ways, "L%u ways %u, expected %llu", level, g.associativity, (unsigned long long)c.ways);
    VF_CHECK(g.cores_sharing == k, "L%u cores sharing %u, expected %llu", level, g.cores_sharing, (unsigned long long)k);
  }
}
VF_REG("Topology", 6000, 100000, &Detect)
VF_REG("TotalLogicalProcessors", 2000, 20000, &Online)
VF_REG("Topology.huge", 160, 1600, &Huge)
VF_REG("DataCaches", 8000, 100000, &CacheInfo)
}  // namespace
