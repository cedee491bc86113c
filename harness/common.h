// Shared runtime-monitoring harness support: deterministic cases, counters,
// violation reporting, per-case watchdog.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // uniform in [0,n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1)));
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  double unit() { return static_cast<double>(next() >> 11) / 9007199254740992.0; }
  template <typename C>
  const typename C::value_type& pick(const C& c) {
    return c[below(c.size())];
  }
};

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}

inline std::string esc(const std::string& s) {
  std::string o;
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 0x20 || c == 0x7f) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

// Valid-UTF-8 JSON string (bad bytes hex-escaped) - for evidence samples.
inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  char b[16];
  size_t i = 0;
  while (i < s.size()) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    size_t n = c < 0x80 ? 1 : (c >= 0xc2 && c < 0xe0) ? 2 : (c >= 0xe0 && c < 0xf0) ? 3 : (c >= 0xf0 && c < 0xf5) ? 4 : 0;
    bool ok = n && i + n <= s.size();
    for (size_t k = 1; ok && k < n; ++k)
      ok = (static_cast<unsigned char>(s[i + k]) & 0xc0) == 0x80;
    if (ok && c == 0xe0 && static_cast<unsigned char>(s[i + 1]) < 0xa0) ok = false;
    if (ok && c == 0xed && static_cast<unsigned char>(s[i + 1]) >= 0xa0) ok = false;
    if (ok && c == 0xf0 && static_cast<unsigned char>(s[i + 1]) < 0x90) ok = false;
    if (ok && c == 0xf4 && static_cast<unsigned char>(s[i + 1]) >= 0x90) ok = false;
    if (!ok) {
      snprintf(b, sizeof b, "<%02X>", c);
      o += b;
      ++i;
      continue;
    }
    if (n == 1 && (c < 0x20 || c == 0x7f || c == '"' || c == '\\')) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o.append(s, i, n);
    }
    i += n;
  }
  return o + "\"";
}

struct Global {
  std::string prop, tier = "quick", out, rec, scratch, replay_in;
  uint64_t seed = 1;
  uint64_t cases = 1000;
  uint64_t worker = 0, workers = 1;
  double tlimit = 60;
  int64_t only = -1;
  bool verbose = false;
  int case_timeout = 60;

  uint64_t cur = 0;
  uint64_t evaluations = 0;
  uint64_t violations = 0;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::vector<std::pair<uint64_t, uint64_t>> results;  // what a case gave, to be compared with other builds
  std::string trace;  // human readable trace of the current case
  char* recmap = nullptr;
  std::chrono::steady_clock::time_point start;
};
inline Global& G() {
  static Global g;
  return g;
}

struct CaseFailed {
  std::string msg;
};

constexpr size_t kRecSize = 1 << 20;

// Record what is about to be done, so that a crash can be explained.
inline void note(const std::string& s) {
  Global& g = G();
  if (g.verbose) {
    fprintf(stderr, "  %s\n", s.c_str());
  }
  if (g.trace.size() < kRecSize - 4096) {
    g.trace += s;
    g.trace += '\n';
    if (g.recmap) {
      size_t off = 64 + g.trace.size() - s.size() - 1;
      memcpy(g.recmap + off, s.c_str(), s.size());
      g.recmap[off + s.size()] = '\n';
      g.recmap[off + s.size() + 1] = 0;
    }
  }
}
inline void count(const std::string& k, uint64_t n = 1) { G().counters[k] += n; }
inline void distinct(uint64_t h) { G().distinct.insert(h); }
inline void distinct(const std::string& s) { G().distinct.insert(fnv(s)); }
inline void sample(const std::string& s) {
  Global& g = G();
  if (g.samples.size() < 3) g.samples.push_back(s.size() > 1500 ? s.substr(0, 1500) + "..." : s);
}
[[noreturn]] inline void fail(const std::string& msg) { throw CaseFailed{msg}; }

#define VCHECK(cond, msg)                                             \
  do {                                                                \
    if (!(cond)) {                                                    \
      std::ostringstream os__;                                        \
      os__ << msg;                                                    \
      ::vf::fail(os__.str());                                         \
    }                                                                 \
  } while (0)

inline std::string S(const std::vector<std::string>& v, const char* sep = "|") {
  std::string o;
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) o += sep;
    o += v[i];
  }
  return o;
}

using CaseFn = std::function<void(uint64_t idx, Rng& rng)>;
struct Prop {
  uint64_t quick = 1000, thorough = 20000;
  CaseFn fn;
};
inline std::map<std::string, Prop>& registry() {
  static std::map<std::string, Prop> r;
  return r;
}
struct Reg {
  Reg(const std::string& id, uint64_t q, uint64_t t, CaseFn f) {
    registry()[id] = Prop{q, t, std::move(f)};
  }
};

inline bool thorough() { return G().tier == "thorough"; }

inline void onAlarm(int) {
  static const char m[] = "HANG: case did not finish within its time limit\n";
  if (write(2, m, sizeof m - 1)) {
  }
  _exit(97);
}

inline void writeResult(const std::string& failMsg) {
  Global& g = G();
  if (g.out.empty()) return;
  FILE* f = fopen((g.out + ".tmp").c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"evaluations\": %llu, \"counters\": {", (unsigned long long)g.evaluations);
  bool first = true;
  for (auto& kv : g.counters) {
    fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(kv.first).c_str(), (unsigned long long)kv.second);
    first = false;
  }
  fprintf(f, "}, \"samples\": [");
  for (size_t i = 0; i < g.samples.size(); ++i)
    fprintf(f, "%s%s", i ? ", " : "", jstr(g.samples[i]).c_str());
  fprintf(f, "], \"fail\": %s, \"fail_case\": %llu, \"trace\": %s}\n", failMsg.empty() ? "null" : jstr(failMsg).c_str(),
          (unsigned long long)g.cur, failMsg.empty() ? "null" : jstr(g.trace).c_str());
  fclose(f);
  rename((g.out + ".tmp").c_str(), g.out.c_str());
  if (!g.results.empty())
    if (FILE* d = fopen((g.out + ".results").c_str(), "w")) {
      for (auto& r : g.results) fprintf(d, "%llu %llu\n", (unsigned long long)r.first, (unsigned long long)r.second);
      fclose(d);
    }
  FILE* d = fopen((g.out + ".distinct").c_str(), "wb");
  if (d) {
    for (uint64_t h : g.distinct) fwrite(&h, 8, 1, d);
    fclose(d);
  }
}

inline uint64_t caseSeed(uint64_t idx) {
  Global& g = G();
  return mix(g.seed * 1000003ull + mix(fnv(g.prop)) + idx * 0x9e3779b97f4a7c15ull);
}

inline int mainLoop(int argc, char** argv) {
  Global& g = G();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") g.prop = val();
    else if (a == "--seed") g.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--cases") g.cases = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--worker") g.worker = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--workers") g.workers = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--tlimit") g.tlimit = atof(val().c_str());
    else if (a == "--only") g.only = strtoll(val().c_str(), nullptr, 10);
    else if (a == "--out") g.out = val();
    else if (a == "--rec") g.rec = val();
    else if (a == "--scratch") g.scratch = val();
    else if (a == "--tier") g.tier = val();
    else if (a == "--case-timeout") g.case_timeout = atoi(val().c_str());
    else if (a == "-v") g.verbose = true;
    else if (a == "--list") {
      for (auto& kv : registry())
        printf("%s %llu %llu\n", kv.first.c_str(), (unsigned long long)kv.second.quick, (unsigned long long)kv.second.thorough);
      return 0;
    } else {
      fprintf(stderr, "bad argument %s\n", a.c_str());
      return 3;
    }
  }
  auto it = registry().find(g.prop);
  if (it == registry().end()) {
    fprintf(stderr, "unknown property %s\n", g.prop.c_str());
    return 3;
  }
  if (!g.rec.empty()) {
    int fd = open(g.rec.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
      if (ftruncate(fd, kRecSize) == 0) {
        void* p = mmap(nullptr, kRecSize, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) g.recmap = static_cast<char*>(p);
      }
      close(fd);
    }
  }
  signal(SIGALRM, onAlarm);
  g.start = std::chrono::steady_clock::now();
  std::string failMsg;
  auto one = [&](uint64_t idx) {
    g.cur = idx;
    g.trace.clear();
    if (g.recmap) {
      snprintf(g.recmap, 64, "%-20llu", (unsigned long long)idx);
      g.recmap[64] = 0;
    }
    alarm(static_cast<unsigned>(g.case_timeout));
    Rng rng(caseSeed(idx));
    try {
      it->second.fn(idx, rng);
      ++g.evaluations;
    } catch (const CaseFailed& f) {
      failMsg = f.msg;
    } catch (const std::exception& e) {
      failMsg = std::string("uncaught exception: ") + e.what();
    }
    alarm(0);
    return failMsg.empty();
  };
  if (g.only >= 0) {
    one(static_cast<uint64_t>(g.only));
  } else {
    for (uint64_t idx = g.worker; idx < g.cases; idx += g.workers) {
      if (!one(idx)) break;
      double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - g.start).count();
      if (el > g.tlimit) break;
    }
  }
  writeResult(failMsg);
  if (!failMsg.empty()) {
    fprintf(stderr, "PROPERTY-FAILED %s case %llu: %s\n", g.prop.c_str(), (unsigned long long)g.cur, failMsg.c_str());
    fflush(stderr);
    _exit(99);
  }
  fflush(stdout);
  fflush(stderr);
  _exit(0);
}

}  // namespace vf
