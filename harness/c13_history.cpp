// C13: the reply to a request does not depend on what else the server serves.
// For every case a pristine process (this one never serves anything) forks one
// "fresh server" per request for the reference reply and one server for the
// whole history; the replies are compared in a normal form.
#define STUB_HTTPS
#include "apiworld.hpp"
#include <atomic>
#include <sys/wait.h>
#include <thread>
using namespace api;

static std::string scratch;

// ---- injected delays: where the handlers read their files --------------------
static std::atomic<uint64_t> jitter{0};
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *a, const char *b) {
  if (uint64_t j = jitter) {
    uint64_t x = mix(j = jitter.fetch_add(0x9e3779b9));
    if (x % 4 == 0) usleep((useconds_t)(x >> 20) % 400);
    else if (x % 4 == 1) std::this_thread::yield();
  }
  return __real_fopen(a, b);
}

enum { RV, MV, ENROL, OTHER };
struct Req { int kind; Bytes body, peer; std::string what, hide; int handler = 0; };
static const struct { const char *n; Handler h; bool masa; } others_[] = {
    {"registrar_voucher_status", registrar_voucher_status, false}, {"registrar_requestauditlog", registrar_requestauditlog, false},
    {"registrar_enrollstatus", registrar_enrollstatus, false}, {"masa_voucher_status", masa_voucher_status, true},
    {"masa_requestauditlog", masa_requestauditlog, true}, {"masa_enrollstatus", masa_enrollstatus, true},
    {"get_est_cacerts", get_est_cacerts, true}, {"post_est_simpleenroll", post_est_simpleenroll, true},
    {"get_est_csrattrs", get_est_csrattrs, true}};

static std::string normal_cms(const Bytes &b) { // everything that must not differ: content (without the moment), signers, certificates
  Opened o = cms_open(b);
  VoucherModel m;
  if (!o.ok || ref::judge(o.content, m) != 1) return "?" + hex(b, 100000);
  m.time.erase(ref::A_CREATED);
  std::string s = m.text();
  for (auto &a : m.array) s += fmt(" %d:%lx", a.first, hash(a.second));
  s += " signers";
  std::sort(o.signers.begin(), o.signers.end());
  std::sort(o.embedded.begin(), o.embedded.end());
  for (auto &c : o.signers) s += " " + std::to_string(hash(c));
  s += " certificates";
  for (auto &c : o.embedded) s += " " + std::to_string(hash(c));
  return s;
}
static std::string normal(const Reply &p) {
  std::string s = fmt("%d ", p.status);
  for (auto &h : p.headers) s += h.first + "=" + h.second + ";";
  Bytes d;
  if (p.body.size() > 100 && ref::unb64(p.body, d)) {
    X x(d);
    if (x.x) {
      unsigned char *t = nullptr;
      X509_ALGOR_set_md(const_cast<X509_ALGOR *>(X509_get0_tbs_sigalg(x)), EVP_sha256());
      int n = i2d_re_X509_tbs(x, &t);
      s += " certificate " + std::to_string(n > 0 ? hash(t, n) : 0);
      OPENSSL_free(t);
    } else s += normal_cms(d);
  } else s += "'" + p.body + "'";
  ERR_clear_error();
  return s;
}
struct Server { // one registrar and one MASA
  RegistrarContext rctx{};
  MasaContext mctx{};
  Server(Deploy &d, const std::string &log) {
    rctx.rconf = &d.rc;
    rctx.mconf = &d.mc;
    snprintf(rctx.log_path, sizeof rctx.log_path, "%s", log.c_str());
    mctx.rconf = &d.rc;
    mctx.mconf = &d.mc;
    net() = [this, &d](const Out &o, std::string &resp, X509 *&peer) { // the registrar's way to the MASA
      Bytes cms;
      std::string sent = fmt("[asked %s:%d%s %s %s]", o.host.c_str(), o.port, o.path.c_str(), o.cert.c_str(), ref::unb64(o.body, cms) ? normal_cms(cms).c_str() : o.body.c_str());
      Reply p = call(masa_requestvoucher, o.body, d.dom.leaf.cert, &mctx);
      resp = p.body;
      asked() = sent;
      peer = new_x509(d.masa.leaf.cert);
      return p.status;
    };
  }
  static std::string &asked() { static thread_local std::string s; return s; }
  std::string serve(const Req &q) {
    asked().clear();
    if (!q.hide.empty()) rename(q.hide.c_str(), (q.hide + ".away").c_str());
    Reply p;
    switch (q.kind) {
    case RV: p = call(registrar_requestvoucher, q.body, q.peer, &rctx); break;
    case MV: p = call(masa_requestvoucher, q.body, q.peer, &mctx); break;
    case ENROL: p = call(registrar_est_simpleenroll, q.body, q.peer, &rctx); break;
    default: p = call(others_[q.handler].h, q.body, q.peer, others_[q.handler].masa ? (void *)&mctx : (void *)&rctx);
    }
    if (!q.hide.empty()) rename((q.hide + ".away").c_str(), q.hide.c_str());
    return normal(p) + asked();
  }
};
// runs f in a forked process and returns what it wrote
static std::vector<std::string> in_child(const std::function<std::vector<std::string>()> &f, const char *what) {
  int fd[2];
  if (pipe(fd)) harness_error("pipe");
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) harness_error("fork");
  if (pid == 0) {
    close(fd[0]);
    std::vector<std::string> v = f();
    std::string all;
    for (auto &s : v) { uint32_t n = (uint32_t)s.size(); all.append((char *)&n, 4); all += s; }
    for (size_t o = 0; o < all.size();) {
      ssize_t w = write(fd[1], all.data() + o, all.size() - o);
      if (w <= 0) _exit(4);
      o += (size_t)w;
    }
    int rc = 0;
#if defined(__SANITIZE_ADDRESS__)
    static int n = 0;
    if (what[0] == 'h' && n++ % 1 == 0 && __lsan_do_recoverable_leak_check()) rc = 7;
#endif
    _exit(rc);
  }
  close(fd[1]);
  std::string all;
  char b[65536];
  ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0) {
    all.append(b, (size_t)k);
    if (S().progress) S().progress[1]++;
  }
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 7) fail("leak", "memory leaked while serving a history (see stderr)");
  else if (!WIFEXITED(st) || WEXITSTATUS(st)) { // the sanitizer's report is on stderr; end the same way
    fprintf(stderr, "the %s process ended with status %x\n", what, st);
    fflush(stderr);
    if (WIFEXITED(st)) _exit(WEXITSTATUS(st) == 3 ? 4 : WEXITSTATUS(st));
    signal(WTERMSIG(st), SIG_DFL);
    raise(WTERMSIG(st));
    _exit(98);
  }
  std::vector<std::string> v;
  for (size_t o = 0; o + 4 <= all.size();) {
    uint32_t n;
    memcpy(&n, &all[o], 4);
    v.push_back(all.substr(o + 4, n));
    o += 4 + n;
  }
  return v;
}
static Req request(const Deploy &d, Rng &r, bool hiding) {
  Req q;
  q.peer = d.maker.leaf.cert;
  VoucherModel pm = d.pledge_model(r);
  pm.array[ref::A_NONCE] = r.bytes(r.range(1, 32));
  bool bad = r.chance(1, 3);
  switch (r.below(8)) {
  case 0: case 1: case 2:
    q.kind = RV;
    q.what = "registrar voucher-request";
    if (bad) switch (r.below(5)) {
      case 0: pm.serial = near(d.serial, r); break;
      case 1: pm.array[ref::A_PROXIMITY] = d.other.leaf.cert; break;
      case 2: q.peer = d.other.leaf.cert; break;
      case 3: pm.assertion = 0; break;
      case 4: q.body = junk_body(r); if (q.body.empty()) q.body = "="; break;
      }
    if (q.body.empty()) q.body = ref::b64(d.pledge_request(pm, r));
    break;
  case 3: case 4: case 5: {
    q.kind = MV;
    q.what = "MASA voucher-request";
    pm.serial = "SN/" + std::to_string(r.next()); // any pledge of this maker
    Bytes pr = d.pledge_request(pm, r);
    VoucherModel rm = d.registrar_model(pr, pm, r);
    if (bad) switch (r.below(5)) {
      case 0: rm.serial = *rm.serial + "x"; break;
      case 1: rm.array.erase(ref::A_PRIOR); break;
      case 2: q.body = junk_body(r); if (q.body.empty()) q.body = "="; break;
      case 3: q.body = ref::b64(cms_sign(doc_of(rm, r), {{d.fake_dom.leaf.cert, d.fake_dom.leaf.key}}, {})); break;
      case 4: q.body = ref::b64(d.registrar_request(rm, r)); q.body.resize(q.body.size() / 2 / 4 * 4); break;
      }
    if (q.body.empty()) q.body = ref::b64(d.registrar_request(rm, r));
    q.peer = d.dom.leaf.cert;
    break;
  }
  case 6: {
    q.kind = ENROL;
    q.what = "enrolment";
    Spec s;
    s.subject = {{"CN", "device"}, {"serialNumber", std::to_string(r.next())}};
    s.issuer = cn("x");
    s.pub = s.sig = 11;
    s.serial = r.next();
    q.body = bad ? junk_body(r) : ref::b64(make_cert(s));
    break;
  }
  default:
    q.kind = OTHER;
    q.handler = (int)r.below(sizeof others_ / sizeof *others_);
    q.what = others_[q.handler].n;
    q.body = junk_body(r);
  }
  if (bad) q.what += " (bad)";
  if (hiding && r.chance(1, 6)) { // a file of the configuration is missing during this request
    static const char *f[] = {"reg-tls.crt", "reg-sign.crt", "reg-sign.key", "dom-ca.crt", "dom-ca.key", "idevid-ca.crt", "masa.crt", "masa.key"};
    const char *n = f[r.below(8)];
    q.hide = d.path.at(n);
    q.what += fmt(" (%s missing)", n);
  }
  return q;
}

static void one(Rng &r, long i) {
  bool conc = opt("mode") == "concurrent";
  Deploy d(r, scratch + "/d" + std::to_string(i), r.chance(1, 2));
  std::string lp = d.dir + "/log";
  bool longrun = opt("mode") == "long"; // a long life of the server: few different requests, very often
  int n = conc ? (int)r.range(8, 24) : longrun ? (int)r.range(4, 8) : (int)r.range(4, 16);
  std::vector<Req> qs;
  for (int k = 0; k < n; k++) {
    if (k && r.chance(1, 5)) { qs.push_back(qs[r.below(qs.size())]); continue; } // the same request again
    qs.push_back(request(d, r, !conc && !longrun));
  }
  std::vector<std::string> fresh(qs.size());
  for (size_t k = 0; k < qs.size(); k++) {
    auto v = in_child([&] { Server s(d, lp); return std::vector<std::string>{s.serve(qs[k])}; }, "reference");
    if (v.size() != 1) { fail("reference", "no reply from a fresh server"); return; }
    fresh[k] = v[0];
  }
  if (longrun) {
    size_t total = (size_t)r.pick(std::vector<long>{300, 700, 1100}), heavy = (size_t)i % qs.size();
    std::vector<Req> lq;
    std::vector<std::string> lf;
    for (size_t k = 0; k < total; k++) {
      size_t w = r.chance(7, 8) && k + 2 * qs.size() < total ? heavy : (k % qs.size());
      lq.push_back(qs[w]);
      lf.push_back(fresh[w]);
    }
    count("long histories");
    count("requests in long histories", (long)total);
    qs = lq, fresh = lf;
  }
  int T = conc ? (int)r.range(2, 8) : 1;
  uint64_t j = r.next() | 1;
  auto got = in_child([&] {
    Server s(d, lp);
    std::vector<std::string> out(qs.size());
    if (T == 1) {
      for (size_t k = 0; k < qs.size(); k++) out[k] = s.serve(qs[k]);
      return out;
    }
    jitter = j;
    std::atomic<int> ready{0};
    std::atomic<size_t> next{0};
    std::atomic<long> inside{0}, most{0}, overlaps{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < T; t++)
      ts.emplace_back([&] {
        ready++;
        while (ready < T) std::this_thread::yield();
        for (size_t k; (k = next++) < qs.size();) {
          long in = ++inside;
          if (in > 1) overlaps++;
          for (long m = most; in > m && !most.compare_exchange_weak(m, in);) {}
          out[k] = s.serve(qs[k]);
          inside--;
        }
      });
    for (auto &t : ts) t.join();
    out.push_back(std::to_string((long)most));
    out.push_back(std::to_string((long)overlaps));
    return out;
  }, "history");
  if (T > 1 && got.size() >= 2) {
    count("requests begun while another was served", atol(got.back().c_str()));
    got.pop_back();
    count("most at once: " + got.back());
    got.pop_back();
  }
  if (got.size() != qs.size()) { failf("history-replies", "%zu replies to %zu requests", got.size(), qs.size()); return; }
  std::string hist;
  for (size_t k = 0; k < qs.size(); k++) {
    int st = atoi(fresh[k].c_str());
    count(fmt("%s -> %d", qs[k].kind == RV ? "registrar" : qs[k].kind == MV ? "MASA" : qs[k].kind == ENROL ? "enrolment" : "other", st));
    evaluated(mix(r.s + k * 77), k > 0 || T > 1);
    if (got[k] != fresh[k])
      failf(fmt("history-dependent:%s:%d-for-%d", qs[k].kind == RV ? "registrar" : qs[k].kind == MV ? "masa" : qs[k].kind == ENROL ? "enrol" : "other", atoi(got[k].c_str()), st),
            "request %zu of %zu (%d threads), %s: fresh server replies\n%.600s\nthis one\n%.600s\nbefore: %s", k, qs.size(), T, qs[k].what.c_str(), fresh[k].c_str(), got[k].c_str(), hist.c_str());
    if (hist.size() < 4000) hist += fmt("%s -> %d; ", qs[k].what.c_str(), st);
  }
  if (want_sample()) sample(fmt("%d threads: ", T) + hist);
  unlink(lp.c_str());
}
int main(int argc, char **argv) {
  setenv("TZ", "UTC", 1);
  init(argc, argv);
  if (!getenv("LOUD")) quiet_log();
  scratch = opt("scratch", ".");
  for (int k = 0; k < N_EC + N_RSA; k++) key(k);
  return run(one, 50);
}
