// C23: keys, device certificates and random buffers made in any number of
// threads and processes at one moment of a stopped clock, with the C library's
// weak random numbers made constant, are all different.
#define STUB_HTTPS
#include "apiworld.hpp"
#include "brski/pledge/pledge_request.hpp"
#include <atomic>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <set>
#include <cmath>
using namespace api;

// ---- nothing to be had from the clock and from weak generators ------------------
static std::atomic<int64_t> stopped{0};
static int64_t real_now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); return t.tv_sec; }
extern "C" time_t time(time_t *p) noexcept { time_t t = (time_t)(stopped ? stopped.load() : real_now()); if (p) *p = t; return t; }
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept { tv->tv_sec = time(nullptr), tv->tv_usec = 0; return 0; }
extern "C" int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  if ((c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) || !stopped) return (int)syscall(SYS_clock_gettime, c, ts);
  ts->tv_sec = stopped, ts->tv_nsec = 0;
  return 0;
}
static std::atomic<uint32_t> weak{1};
static std::atomic<long> weak_calls{0};
static uint32_t weak_next() { weak_calls++; return weak = weak * 1103515245u + 12345u; }
extern "C" int rand() noexcept { return (int)(weak_next() >> 1); }
extern "C" void srand(unsigned) noexcept { weak = 1; }
extern "C" long random() noexcept { return (long)(weak_next() >> 1); }
extern "C" void srandom(unsigned) noexcept { weak = 1; }
extern "C" int rand_r(unsigned *s) noexcept { weak_calls++; return (int)((*s = *s * 1103515245u + 12345u) >> 1) & 0; }
extern "C" double drand48() noexcept { return weak_next() / 4294967296.0; }
extern "C" long lrand48() noexcept { return (long)(weak_next() >> 1); }
extern "C" long mrand48() noexcept { return (long)(int)weak_next(); }
extern "C" void srand48(long) noexcept { weak = 1; }

static std::string scratch;
// what is made: kind:value lines, gathered from threads and processes
typedef std::vector<std::string> Lines;
static std::mutex mu;

// runs f(slot) spread over processes and threads; every produced line is returned
static Lines spread(int procs, int threads, int each, const std::function<void(Lines &)> &f) {
  Lines all;
  auto in_threads = [&](Lines &out) {
    std::vector<Lines> part(threads);
    if (threads == 1) { for (int k = 0; k < each; k++) f(part[0]); }
    else {
      std::atomic<int> ready{0};
      std::vector<std::thread> th;
      for (int t = 0; t < threads; t++) th.emplace_back([&, t] {
        ready++;
        while (ready < threads) std::this_thread::yield();
        for (int k = 0; k < each; k++) f(part[t]);
      });
      for (auto &x : th) x.join();
    }
    for (auto &p : part) out.insert(out.end(), p.begin(), p.end());
  };
  if (procs == 0) { in_threads(all); return all; }
  std::vector<std::pair<pid_t, int>> ch;
  for (int p = 0; p < procs; p++) {
    int fd[2];
    if (pipe(fd)) harness_error("pipe");
    pid_t c = fork();
    if (c < 0) harness_error("fork");
    if (c == 0) {
      close(fd[0]);
      Lines l;
      in_threads(l);
      std::string s;
      for (auto &x : l) s += x + "\n";
      s += "end\n";
      for (size_t o = 0; o < s.size();) { ssize_t n = write(fd[1], s.data() + o, s.size() - o); if (n <= 0) _exit(5); o += n; }
      _exit(0);
    }
    close(fd[1]);
    ch.push_back({c, fd[0]});
  }
  for (auto &c : ch) {
    std::string s;
    char b[65536];
    ssize_t n;
    while ((n = read(c.second, b, sizeof b)) > 0) s.append(b, n);
    close(c.second);
    int st;
    waitpid(c.first, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) || s.size() < 4 || s.compare(s.size() - 4, 4, "end\n")) { failf("process-died", "wait status %d", st); continue; }
    s.resize(s.size() - 4);
    for (size_t p = 0, e; (e = s.find('\n', p)) != std::string::npos; p = e + 1) all.push_back(s.substr(p, e - p));
  }
  return all;
}

static std::set<std::string> seen; // in this whole run
static uint64_t or_serial = 0, and_serial = ~0ULL, serials = 0;
static uint64_t or_ends[2], and_ends[2] = {~0ULL, ~0ULL}, ends; // first and last eight bytes of random buffers
static std::vector<std::set<std::string>> subject_chars; // seen at each place of the subject serial numbers
static unsigned long subjects = 0;
static void judge(const Lines &l, const std::string &info) {
  for (auto &x : l) {
    if (x.compare(0, 5, "FAIL ") == 0) { size_t p = x.find(' ', 5); failf(x.substr(5, p - 5), "%s; %s", x.substr(p + 1).c_str(), info.c_str()); continue; }
    std::string kind = x.substr(0, x.find(':'));
    count("made: " + kind);
    if (kind == "ends" && x.size() == 37) ; // (may overlap and repeat in short buffers)
    else if (!seen.insert(x).second) failf("repeated-" + kind, "%s comes twice; %s", x.c_str(), info.c_str());
    if (kind == "ends" && x.size() == 5 + 32) {
      for (int e = 0; e < 2; e++) { uint64_t v = strtoull(x.substr(5 + 16 * e, 16).c_str(), 0, 16); or_ends[e] |= v, and_ends[e] &= v; }
      ends++;
    }
    if (kind == "subject-serial") {
      std::string t = x.substr(15);
      if (subject_chars.size() < t.size() / 2) subject_chars.resize(t.size() / 2);
      for (size_t k = 0; k < t.size() / 2; k++) subject_chars[k].insert(t.substr(2 * k, 2));
      subjects++;
    }
    if (kind == "serial" && x.size() - 7 <= 16) { uint64_t v = strtoull(x.c_str() + 7, 0, 16); or_serial |= v, and_serial &= v, serials++; }
  }
}

static void a_key(Lines &out) {
  uint8_t *k = nullptr;
  ssize_t n = crypto_generate_eckey(&k);
  if (n <= 0) { out.push_back("FAIL key-generation failed"); return; }
  const unsigned char *p = k;
  EVP_PKEY *e = d2i_AutoPrivateKey(nullptr, &p, (long)n);
  EVP_PKEY_CTX *c = e ? EVP_PKEY_CTX_new(e, nullptr) : nullptr;
  if (!c || EVP_PKEY_check(c) != 1) out.push_back("FAIL key-invalid " + hex(k, n));
  EVP_PKEY_CTX_free(c);
  if (e) {
    BIGNUM *x = nullptr;
    if (EVP_PKEY_get_bn_param(e, "priv", &x) == 1) {
      if (BN_num_bits(x) < 160) out.push_back("FAIL key-small private key of " + std::to_string(BN_num_bits(x)) + " bits");
      char *h = BN_bn2hex(x);
      out.push_back(std::string("key:") + h);
      OPENSSL_free(h);
    } else out.push_back("FAIL key-invalid no private part");
    BN_clear_free(x);
  }
  EVP_PKEY_free(e);
  free(k);
}
static void an_rsa_key(Lines &out) {
  struct BinaryArray *k = crypto_generate_rsakey(1024);
  if (!k) { out.push_back("FAIL key-generation failed"); return; }
  const unsigned char *p = k->array;
  EVP_PKEY *e = d2i_AutoPrivateKey(nullptr, &p, (long)k->length);
  EVP_PKEY_CTX *c = e ? EVP_PKEY_CTX_new(e, nullptr) : nullptr;
  if (!c || EVP_PKEY_check(c) != 1) out.push_back("FAIL rsa-key-invalid .");
  EVP_PKEY_CTX_free(c);
  if (e) for (const char *f : {"n", "rsa-factor1", "rsa-factor2"}) {
    BIGNUM *x = nullptr;
    if (EVP_PKEY_get_bn_param(e, f, &x) == 1) { char *h = BN_bn2hex(x); out.push_back(std::string("rsa:") + h); OPENSSL_free(h); }
    BN_clear_free(x);
  }
  EVP_PKEY_free(e);
  free_binary_array(k);
}

static void keys(Rng &r, long i) {
  int procs = (int)r.pick(std::vector<int>{0, 1, 2, 4}), threads = procs ? (int)r.pick(std::vector<int>{1, 1, 2}) : (int)r.pick(std::vector<int>{1, 4}), each = (int)r.range(2, 10);
  bool rsa = r.chance(1, 12);
  if (rsa) each = 2;
  stopped = real_now();
  Lines l = spread(procs, threads, each, [&](Lines &o) { rsa ? an_rsa_key(o) : a_key(o); });
  stopped = 0;
  judge(l, fmt("%d processes, %d threads, %d %s keys each", procs, threads, each, rsa ? "RSA" : "EC"));
  evaluated(hash(l.empty() ? "" : l[0]), l.size() > 1);
}

static void device(Deploy &d, bool enrol_ok, Lines &out) {
  BinaryArray cert{}, key{};
  int rc = post_sign_cert(&d.pc, &d.rc, &d.mc, &cert, &key);
  if (enrol_ok && rc < 0) out.push_back("FAIL enrolment failed");
  if (rc >= 0) {
    const unsigned char *p = key.array;
    EVP_PKEY *e = d2i_AutoPrivateKey(nullptr, &p, (long)key.length);
    X x(str(&cert));
    if (!e || !x.x || EVP_PKEY_eq(e, X509_get0_pubkey(x)) != 1) out.push_back("FAIL certificate-key the certificate is not for the key");
    if (e) {
      BIGNUM *b = nullptr;
      if (EVP_PKEY_get_bn_param(e, "priv", &b) == 1) { char *h = BN_bn2hex(b); out.push_back(std::string("key:") + h); OPENSSL_free(h); }
      BN_clear_free(b);
    }
    EVP_PKEY_free(e);
  }
  free(cert.array);
  free(key.array);
  ERR_clear_error();
}
static thread_local Lines *sink;
static void devices(Rng &r, long i) {
  int procs = (int)r.pick(std::vector<int>{0, 0, 1, 3, 6}), threads = (int)r.pick(std::vector<int>{1, 1, 3}), each = (int)r.range(1, 6);
  bool fine = r.chance(2, 3);
  Deploy d(r, scratch + "/d" + std::to_string(i), true);
  VoucherModel m;
  m.serial = d.serial;
  m.assertion = 3;
  m.array[ref::A_PINNED] = d.dom.root.cert;
  ref::parse_date(d.expires, m.time[ref::A_EXPIRES]);
  m.array[ref::A_NONCE] = d.nonce;
  std::string voucher = ref::b64(cms_sign(doc_of(m, r), {{d.masa.leaf.cert, d.masa.leaf.key}}, d.masa.embed()));
  std::string log = scratch + "/log" + std::to_string(i);
  net() = [&](const Out &o, std::string &resp, X509 *&peer) {
    peer = new_x509(d.dom.leaf.cert);
    if (!o.with_ca) { resp = voucher; return 200; }
    Bytes der;
    X *px = ref::unb64(o.body, der) ? new X(der) : nullptr;
    if (!px || !px->x) sink->push_back("FAIL enrolment-request no certificate");
    else {
      X509 *x = *px;
      char *h = nullptr;
      BIGNUM *b = ASN1_INTEGER_to_BN(X509_get0_serialNumber(x), nullptr);
      sink->push_back(std::string("serial:") + (h = BN_bn2hex(b)));
      OPENSSL_free(h);
      BN_free(b);
      int pos = X509_NAME_get_index_by_NID(X509_get_subject_name(x), NID_serialNumber, -1);
      if (pos < 0) sink->push_back("FAIL subject-serial none");
      else {
        ASN1_STRING *s = X509_NAME_ENTRY_get_data(X509_NAME_get_entry(X509_get_subject_name(x), pos));
        sink->push_back("subject-serial:" + hex(ASN1_STRING_get0_data(s), ASN1_STRING_length(s)));
      }
      if (X509_verify(x, X509_get0_pubkey(x)) != 1) sink->push_back("FAIL certificate-key the certificate is not signed with its key");
    }
    delete px;
    if (!fine) return 500;
    RegistrarContext ctx{&d.rc, &d.mc, nullptr, ""};
    snprintf(ctx.log_path, sizeof ctx.log_path, "%s", log.c_str());
    Reply p = call(registrar_est_simpleenroll, o.body, d.maker.leaf.cert, &ctx);
    resp = p.body;
    return p.status;
  };
  stopped = real_now();
  Lines l = spread(procs, threads, each, [&](Lines &o) { sink = &o; device(d, fine, o); });
  stopped = 0;
  net() = nullptr;
  std::string info = fmt("%d processes, %d threads, %d devices each", procs, threads, each);
  judge(l, info);
  size_t n = 0;
  for (auto &x : l) n += x.compare(0, 7, "serial:") == 0;
  if (n != (size_t)(procs ? procs : 1) * threads * each && !S().fails) failf("enrolments", "%zu certificates; %s", n, info.c_str());
  unlink(log.c_str());
  evaluated(hash(l.empty() ? "" : l[0]), n > 1);
  if (want_sample() && !l.empty()) sample(info + ", e.g. " + l[0]);
}

static void buffers(Rng &r, long i) {
  size_t n = (size_t)r.pick(std::vector<long>{1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257, 1000, 4096, 65537});
  stopped = real_now();
  bool forks = r.chance(1, 3);
  uint8_t fill = (uint8_t)r.next();
  Lines l = spread(forks ? 3 : 0, 1, 1, [&](Lines &o) {
    std::vector<bool> changed(n);
    for (int k = 0; k < 24; k++) {
      uint8_t *b = (uint8_t *)malloc(n);
      memset(b, fill + k, n);
      BinaryArray a = {b, n};
      if (crypto_getrand(&a) != 0) { o.push_back("FAIL random failed"); free(b); return; }
      if (a.array != b || a.length != n) { o.push_back("FAIL random-buffer replaced"); return; }
      for (size_t j = 0; j < n; j++) if (b[j] != (uint8_t)(fill + k)) changed[j] = true;
      if (n >= 15) o.push_back("random:" + hex(b, n > 64 ? 64 : n));
      if (n >= 8) o.push_back("ends:" + hex(b, 8) + hex(b + n - 8, 8));
      free(b);
    }
    for (size_t j = 0; j < n; j++) if (!changed[j]) { o.push_back(fmt("FAIL random-unfilled byte %zu of %zu", j, n)); break; }
  });
  stopped = 0;
  judge(l, fmt("%zu bytes", n));
  count("random buffers");
  evaluated(mix(n) ^ hash(l.empty() ? "" : l[0]), true);
}
int main(int argc, char **argv) {
  setenv("TZ", "UTC", 1);
  init(argc, argv);
  if (!getenv("LOUD")) quiet_log();
  scratch = opt("scratch", ".");
  long last = S().to - 1;
  return run([&](Rng &r, long i) {
    if (i % 8 == 0) keys(r, i);
    else if (i % 8 == 1) buffers(r, i);
    else devices(r, i);
    if (i == last && ends >= 150) {
      count("shards judged for buffer bits");
      for (int e = 0; e < 2; e++)
        if (~(or_ends[e] & ~and_ends[e])) failf("random-bits-fixed", "bits %016llx of the %s eight bytes never change in %lu random buffers", (unsigned long long)~(or_ends[e] & ~and_ends[e]), e ? "last" : "first", (unsigned long)ends);
    }
    if (i == last && subjects >= 200) {
      double bits = 0;
      for (auto &c : subject_chars) bits += log2((double)std::max<size_t>(1, c.size()));
      count("shards judged for subject serial numbers");
      if (bits < 48) failf("subject-serial-predictable", "at most %.1f bits vary in %lu subject serial numbers", bits, subjects);
    }
    if (i == last && serials >= 200) {
      int bits = __builtin_popcountll(or_serial & ~and_serial);
      count("serial bits seen to vary", bits);
      count("shards judged for bits");
      // a serial number stays below 2^63 where it has to be positive in 64 bits; nothing else may be fixed
      if (~(or_serial & ~and_serial) << 1) failf("serial-predictable", "only %d bits vary in %lu serial numbers", bits, (unsigned long)serials);
    }
  }, 50);
}
