// Common part of every harness: deterministic per-case randomness, failure
// reporting, coverage counters, case selection for replay, leak sampling.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/lsan_interface.h>
#endif

namespace vh {

typedef std::string Bytes;

static inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

static inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ULL;
  return mix(h);
}
static inline uint64_t hash(const std::string &s) { return hash(s.data(), s.size()); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() { return s = mix(s); }
  // uniform in [0,n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(int num, int den) { return (int)below(den) < num; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  Bytes bytes(size_t n) {
    Bytes b(n, 0);
    for (auto &c : b) c = (char)next();
    return b;
  }
};

struct State {
  std::string prop, out_path, progress_path, tier = "quick";
  uint64_t seed = 1;
  long from = 0, to = 0, cur = -1;
  int leak_every = 0;
  long evaluations = 0, nontrivial = 0;
  int fails = 0;
  std::map<std::string, long> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  FILE *out = nullptr;
  volatile long *progress = nullptr;
  std::mutex mu;
};
inline State &S() {
  static State *s = new State;
  return *s;
}

static inline std::string hex(const void *p, size_t n) {
  static const char *d = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < n; i++) {
    r += d[((const unsigned char *)p)[i] >> 4];
    r += d[((const unsigned char *)p)[i] & 15];
  }
  return r;
}
static inline std::string hex(const Bytes &b, size_t max = 200) {
  std::string r = hex(b.data(), b.size() < max ? b.size() : max);
  if (b.size() > max) r += "...(" + std::to_string(b.size()) + " bytes)";
  return r;
}
static inline std::string printable(const Bytes &b, size_t max = 400) {
  std::string r;
  for (size_t i = 0; i < b.size() && i < max; i++) {
    unsigned char c = b[i];
    char t[8];
    if (c == '\\') r += "\\\\";
    else if (c >= 32 && c < 127) r += (char)c;
    else { snprintf(t, sizeof t, "\\x%02x", c); r += t; }
  }
  if (b.size() > max) r += "...";
  return r;
}
static inline std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    char t[8];
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c >= 127) { snprintf(t, sizeof t, "\\u%04x", c); r += t; }
    else r += (char)c;
  }
  return r + "\"";
}
static inline std::string fmt(const char *f, ...) {
  va_list a;
  va_start(a, f);
  char *p = nullptr;
  int n = vasprintf(&p, f, a);
  va_end(a);
  std::string r = n >= 0 ? std::string(p, n) : std::string();
  free(p);
  return r;
}

// key: short stable identifier of what is wrong (used for the known findings
// file); detail: the concrete case.
static inline void fail(const std::string &key, const std::string &detail) {
  State &s = S();
  std::lock_guard<std::mutex> g(s.mu);
  s.fails++;
  if (s.fails <= 50) {
    std::string line = "{\"t\":\"fail\",\"case\":" + std::to_string(s.cur) + ",\"key\":" + jstr(key) +
                       ",\"detail\":" + jstr(detail) + "}\n";
    if (s.out) { fputs(line.c_str(), s.out); fflush(s.out); }
    fprintf(stderr, "FAIL case=%ld key=%s %s\n", s.cur, key.c_str(), detail.c_str());
  }
}
static inline void failf(const std::string &key, const char *f, ...) {
  va_list a;
  va_start(a, f);
  char *p = nullptr;
  if (vasprintf(&p, f, a) < 0) p = nullptr;
  va_end(a);
  fail(key, p ? p : "");
  free(p);
}
static inline void count(const std::string &name, long n = 1) {
  State &s = S();
  std::lock_guard<std::mutex> g(s.mu);
  s.counters[name] += n;
}
// one evaluated case; h identifies it for the distinct count
static inline void evaluated(uint64_t h, bool nontrivial) {
  State &s = S();
  std::lock_guard<std::mutex> g(s.mu);
  s.evaluations++;
  if (nontrivial) { s.nontrivial++; s.distinct.insert(h); }
}
static inline void sample(const std::string &str) {
  State &s = S();
  std::lock_guard<std::mutex> g(s.mu);
  if (s.samples.size() < 4) s.samples.push_back(str.substr(0, 600));
}
static inline bool want_sample() { return S().samples.size() < 4; }
static inline bool thorough() { return S().tier == "thorough"; }

[[noreturn]] static inline void harness_error(const char *f, ...) {
  va_list a;
  va_start(a, f);
  fprintf(stderr, "HARNESS-ERROR: ");
  vfprintf(stderr, f, a);
  fprintf(stderr, "\n");
  va_end(a);
  _exit(3);
}

static inline void leak_check() {
#if defined(__SANITIZE_ADDRESS__)
  if (__lsan_do_recoverable_leak_check()) fail("leak", "LeakSanitizer reports leaked memory at or before this case (see stderr)");
#endif
}

static inline void write_result() {
  State &s = S();
  if (!s.out) return;
  std::string r = "{\"t\":\"end\",\"evaluations\":" + std::to_string(s.evaluations) +
                  ",\"nontrivial\":" + std::to_string(s.nontrivial) + ",\"fails\":" + std::to_string(s.fails) +
                  ",\"counters\":{";
  bool first = true;
  for (auto &c : s.counters) {
    if (!first) r += ",";
    first = false;
    r += jstr(c.first) + ":" + std::to_string(c.second);
  }
  r += "},\"samples\":[";
  for (size_t i = 0; i < s.samples.size(); i++) r += (i ? "," : "") + jstr(s.samples[i]);
  r += "],\"distinct\":[";
  first = true;
  for (auto h : s.distinct) {
    if (!first) r += ",";
    first = false;
    r += std::to_string(h >> 11);
  }
  r += "]}\n";
  fputs(r.c_str(), s.out);
  fflush(s.out);
}

// Options: --seed S --from A --to B --out F --progress F --tier T; extra
// options are left to the harness via opt().
inline std::map<std::string, std::string> &opts() {
  static std::map<std::string, std::string> *o = new std::map<std::string, std::string>;
  return *o;
}
static inline std::string opt(const std::string &k, const std::string &d = "") {
  auto i = opts().find(k);
  return i == opts().end() ? d : i->second;
}

static inline void init(int argc, char **argv) {
  State &s = S();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") s.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--from") s.from = atol(v.c_str());
    else if (k == "--to") s.to = atol(v.c_str());
    else if (k == "--out") s.out_path = v;
    else if (k == "--progress") s.progress_path = v;
    else if (k == "--tier") s.tier = v;
    else if (k.substr(0, 2) == "--") opts()[k.substr(2)] = v;
  }
  if (!s.out_path.empty()) {
    s.out = fopen(s.out_path.c_str(), "w");
    if (!s.out) harness_error("cannot write %s", s.out_path.c_str());
  }
  if (!s.progress_path.empty()) {
    int fd = open(s.progress_path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, 64) < 0) harness_error("progress file");
    s.progress = (volatile long *)mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    s.progress[0] = -1;
  }
}
static inline Rng case_rng(long i) { return Rng(mix(S().seed * 1000003ULL + 17) ^ mix((uint64_t)i + 99)); }

// Runs fn on every case number of this shard. leak_every: sample LeakSanitizer
// every so many cases (0: only at the end).
static inline int run(const std::function<void(Rng &, long)> &fn, int leak_every = 0) {
  State &s = S();
  long n = 0;
  for (long i = s.from; i < s.to; i++) {
    s.cur = i;
    if (s.progress) s.progress[0] = i;
    Rng r = case_rng(i);
    fn(r, i);
    if (leak_every && ++n % leak_every == 0) leak_check();
    if (s.fails > 50) break;
  }
  leak_check();
  if (s.progress) s.progress[0] = -2;
  write_result();
  fflush(stdout);
  fflush(stderr);
  _exit(s.fails ? 1 : 0);
}
} // namespace vh
