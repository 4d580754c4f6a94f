// C15: enrolment at the registrar and its audit log.
#define STUB_HTTPS
#include "apiworld.hpp"
#include <thread>
#include <atomic>
#include <sys/mman.h>
#include <sys/wait.h>
using namespace api;

static std::string scratch;

// A certificate with any octets in its subject and any serial number
struct Odd { Bytes cert, subject_sn; Bytes hex; bool has_sn = false, nameless = false; };
static Bytes hostile(Rng &r) {
  static const std::vector<Bytes> v = {
      "\" 0x1 \"x\"\n1700000000 0x1 \"forged\" 0x2 \"forged\"", "a\nb", "a\r\nb", "\"", "\\", "\\\"", "x\" 0x5 \"y", "NULL", " ", "\t", "%s%n%x", "\x01\x02", "\xc3\xa9\xe2\x82\xac", "\x7f", "'", "0x12", "\\n", "\\u000a"};
  if (r.chance(2, 3)) return r.pick(v);
  if (r.chance(1, 3)) return Bytes(r.range(1000, 9000), (char)('a' + r.below(26)));
  Bytes b;
  for (int n = (int)r.range(1, 80); n; n--) b += (char)r.range(1, 126);
  return b;
}
static Odd odd_cert(Rng &r, int k, int signer, bool tame) {
  Odd o;
  X509 *x = X509_new();
  X509_set_version(x, r.chance(1, 10) ? 0 : 2);
  ASN1_INTEGER *n = ASN1_INTEGER_new();
  static const uint64_t edge[] = {0, 1, 255, 1ull << 31, 1ull << 32, 1ull << 63, ~0ull, 0x7fffffffffffffffull};
  uint64_t serial = r.chance(1, 5) ? edge[r.below(8)] : r.next() >> r.below(60);
  ASN1_INTEGER_set_uint64(n, serial);
  if (!tame && r.chance(1, 8)) {
    Bytes s = r.bytes(r.range(9, 20));
    s[0] |= 1;
    BIGNUM *b = BN_bin2bn((const unsigned char *)s.data(), (int)s.size(), nullptr);
    BN_to_ASN1_INTEGER(b, n);
    BN_free(b);
  }
  BIGNUM *hb = ASN1_INTEGER_to_BN(n, nullptr);
  char *hx = BN_bn2hex(hb);
  for (char *p = hx; *p; p++) o.hex += (char)tolower(*p);
  while (o.hex.size() > 1 && o.hex[0] == '0') o.hex.erase(0, 1);
  OPENSSL_free(hx);
  BN_free(hb);
  X509_set_serialNumber(x, n);
  ASN1_INTEGER_free(n);
  ASN1_TIME_set(X509_getm_notBefore(x), (time_t)(1000000000 + (long)r.below(1000000000)));
  ASN1_TIME_set(X509_getm_notAfter(x), (time_t)(2000000000 + (long)r.below(100000000000)));
  X509_NAME *nm = X509_NAME_new();
  auto add = [&](int nid, const Bytes &v, int type = V_ASN1_UTF8STRING) { X509_NAME_add_entry_by_NID(nm, nid, type, (const unsigned char *)v.data(), (int)v.size(), -1, 0); };
  if (r.chance(9, 10)) add(NID_commonName, tame || r.chance(1, 2) ? "device" : hostile(r));
  if (r.chance(8, 10)) {
    o.has_sn = true;
    o.subject_sn = tame || r.chance(1, 3) ? "SN-" + std::to_string(r.next()) : hostile(r);
    add(NID_serialNumber, o.subject_sn);
  }
  if (!tame && r.chance(1, 12)) { // names without a text form
    o.nameless = true;
    if (r.chance(1, 3)) add(NID_organizationName, Bytes("\0", 1));
    else if (!o.has_sn) { add(NID_serialNumber, Bytes("SN\0x", 4)); o.has_sn = true; }
    else add(NID_countryName, Bytes("I\0E", 3));
  }
  X509_set_subject_name(x, nm);
  X509_NAME_free(nm);
  nm = to_name(cn("somebody"));
  X509_set_issuer_name(x, nm);
  X509_NAME_free(nm);
  X509_set_pubkey(x, key(k).k);
  if (r.chance(1, 2)) add_ext(x, nullptr, NID_basic_constraints, r.chance(1, 2) ? "CA:FALSE" : "critical,CA:TRUE");
  if (r.chance(1, 4)) add_ext(x, nullptr, NID_key_usage, "digitalSignature");
  if (!X509_sign(x, key(signer).k, EVP_sha256())) harness_error("sign");
  o.cert = der_cert(x);
  X509_free(x);
  return o;
}
template <class T, class F> static Bytes dump(const T *x, F f) { return x ? der_of(x, f) : Bytes(); }
static void same_but_issuer(const Bytes &in, const Bytes &out, const Bytes &ca, const std::string &info) {
  X a(in), b(out), c(ca);
  if (!b.x || der_cert(b) != out) { failf("enrol-reply-not-certificate", "%s", info.c_str()); return; }
  auto nm = [](const X509_NAME *x, unsigned char **p) { return i2d_X509_NAME(x, p); };
  auto pk = [](const X509_PUBKEY *x, unsigned char **p) { return i2d_X509_PUBKEY(x, p); };
  auto ex = [](const X509_EXTENSION *x, unsigned char **p) { return i2d_X509_EXTENSION(const_cast<X509_EXTENSION *>(x), p); };
  auto bad = [&](const char *w) { failf(std::string("enrol-changes:") + w, "%s", info.c_str()); };
  if (dump(X509_get_subject_name(a), nm) != dump(X509_get_subject_name(b), nm)) bad("subject");
  if (dump(X509_get_X509_PUBKEY(a), pk) != dump(X509_get_X509_PUBKEY(b), pk)) bad("key");
  if (ASN1_TIME_compare(X509_get0_notBefore(a), X509_get0_notBefore(b)) || ASN1_TIME_compare(X509_get0_notAfter(a), X509_get0_notAfter(b))) bad("validity");
  if (ASN1_INTEGER_cmp(X509_get0_serialNumber(a), X509_get0_serialNumber(b))) bad("serial number");
  if (X509_get_ext_count(a) != X509_get_ext_count(b)) bad("extensions");
  else for (int i = 0; i < X509_get_ext_count(a); i++) if (dump(X509_get_ext(a, i), ex) != dump(X509_get_ext(b, i), ex)) bad("extension");
  if (!signed_by(out, ca)) bad("not signed by the domain CA");
  if (X509_NAME_cmp(X509_get_issuer_name(b), X509_get_subject_name(c))) bad("not issued in the name of the domain CA");
}
// one line of the log, as documented: time serial "serialNumber" serial "serialNumber"
struct Line { uint64_t t = 0; Bytes is, ls, in, ln; };
static bool jstring(const char *&p, const char *e, Bytes &out) {
  if (p >= e || *p != '"') return false;
  for (p++; p < e && *p != '"'; p++) {
    if ((unsigned char)*p < 0x20) return false;
    if (*p != '\\') { out += *p; continue; }
    if (++p >= e) return false;
    if (*p == '"' || *p == '\\' || *p == '/') out += *p;
    else if (*p == 'n') out += '\n';
    else if (*p == 'r') out += '\r';
    else if (*p == 't') out += '\t';
    else if (*p == 'b') out += '\b';
    else if (*p == 'f') out += '\f';
    else if (*p == 'u' || *p == 'x') {
      unsigned v = 0;
      for (int k = *p == 'u' ? 4 : 2; k; k--) {
        if (++p >= e || !isxdigit((unsigned char)*p)) return false;
        v = v * 16 + (isdigit((unsigned char)*p) ? *p - '0' : (*p | 32) - 'a' + 10);
      }
      if (v > 255) return false;
      out += (char)v;
    } else return false;
  }
  if (p >= e) return false;
  p++;
  return true;
}
static bool number(const char *&p, const char *e, uint64_t &v) {
  char *q;
  if (p >= e || !isdigit((unsigned char)*p)) return false;
  v = strtoull(p, &q, 10);
  p = q;
  return p <= e;
}
static bool hexnum(const char *&p, const char *e, Bytes &v) { // 0x..., leading zeros and case do not matter
  if (e - p < 3 || p[0] != '0' || p[1] != 'x') return false;
  for (p += 2; p < e && isxdigit((unsigned char)*p); p++) v += (char)tolower(*p);
  while (v.size() > 1 && v[0] == '0') v.erase(0, 1);
  return !v.empty();
}
static bool parse(const Bytes &l, Line &o) {
  const char *p = l.data(), *e = p + l.size();
  auto sp = [&] { return p < e && *p++ == ' '; };
  return number(p, e, o.t) && sp() && hexnum(p, e, o.is) && sp() && jstring(p, e, o.in) && sp() && hexnum(p, e, o.ls) && sp() && jstring(p, e, o.ln) && p == e;
}
struct Want { const Odd *peer, *cert; };
static Bytes shown(const Odd &o) { return o.has_sn ? o.subject_sn : "NULL"; }
static bool matches(const Line &l, const Odd &p, const Odd &c) {
  return l.is == p.hex && l.in == shown(p) && l.ls == c.hex && l.ln == shown(c);
}
static std::vector<Bytes> lines(const Bytes &f) {
  std::vector<Bytes> v;
  size_t a = 0, b;
  while ((b = f.find('\n', a)) != Bytes::npos) { v.push_back(f.substr(a, b - a)); a = b + 1; }
  if (a < f.size()) v.push_back(f.substr(a) + "<no line end>");
  return v;
}
static std::string describe(const Odd &o) { return fmt("%s serial 0x%s", o.has_sn ? printable(o.subject_sn, 60).c_str() : "-", o.hex.c_str()); }

static void sequential(Rng &r, long i) {
  Deploy d(r, scratch + "/d" + std::to_string(i), true);
  RegistrarContext ctx{};
  ctx.rconf = &d.rc;
  ctx.mconf = &d.mc;
  Node ca_node = d.dom.root;
  if (r.chance(1, 2)) { // the issuing CA is an intermediate one
    ca_node = child(d.dom.root, {{"O", "Domain"}, {"CN", "Domain issuing CA"}}, r.chance(1, 4) ? N_EC : 12, true, r);
    d.rc.tls_ca_cert_path = d.str(d.file("issuing.crt", pem("CERTIFICATE", ca_node.cert)));
    d.rc.tls_ca_key_path = d.str(d.file("issuing.key", key_pem(ca_node.key)));
    count("intermediate issuing CA");
  }
  std::string lp = d.dir + "/audit.log";
  snprintf(ctx.log_path, sizeof ctx.log_path, "%s", lp.c_str());
  Bytes before;
  if (r.chance(1, 2)) { before = "1700000000 0x1 \"earlier\" 0x2 \"entry\"\n"; write_file(lp, before); }
  int n = (int)r.range(3, 9);
  for (int k = 0; k < n; k++) {
    Odd p = odd_cert(r, 0, 0, false), c = odd_cert(r, r.chance(1, 6) ? N_EC : 11, r.chance(1, 2) ? 11 : 9, false);
    Bytes body = ref::b64(c.cert);
    bool ok = !p.nameless && !c.nameless;
    std::string what = ok ? "good" : "unprintable name";
    char *ca = d.rc.tls_ca_cert_path, *ck = d.rc.tls_ca_key_path;
    int f = r.chance(2, 3) ? -1 : (int)r.below(7);
    if (f >= 0) ok = false;
    switch (f) {
    case 0: body = junk_body(r); what = "junk"; break;
    case 1: body = ref::b64(c.cert.substr(0, r.below(c.cert.size()))); what = "truncated"; break;
    case 2: body = ""; what = "empty"; break;
    case 3: d.rc.tls_ca_cert_path = d.str(d.dir + "/missing"); what = "CA certificate missing"; break;
    case 4: d.rc.tls_ca_key_path = d.str(d.dir + "/missing"); what = "CA key missing"; break;
    case 5: d.rc.tls_ca_key_path = d.rc.tls_ca_cert_path; what = "CA key unusable"; break;
    case 6: body = ref::b64(key(11).der); what = "a key"; break;
    }
    if (ok && r.chance(1, 4)) for (size_t q = 64; q < body.size(); q += 65) body.insert(q, "\n");
    time_t t0 = time(nullptr);
    Reply rep = call(registrar_est_simpleenroll, body, p.cert, &ctx);
    time_t t1 = time(nullptr);
    d.rc.tls_ca_cert_path = ca;
    d.rc.tls_ca_key_path = ck;
    Bytes now, add;
    if (access(lp.c_str(), F_OK) == 0) now = read_file(lp);
    std::string info = fmt("%s: peer %s, certificate %s -> %d", what.c_str(), describe(p).c_str(), describe(c).c_str(), rep.status);
    evaluated(mix(r.s + k), true);
    count(fmt("%s:%d", what.c_str(), rep.status));
    if (want_sample()) sample(info);
    if (now.substr(0, before.size()) != before) failf("audit-log-rewritten", "%s", info.c_str());
    else add = now.substr(before.size());
    before = now;
    std::vector<Bytes> ls = lines(add);
    if (rep.status == 200) {
      if (!ok) failf("enrol-accepted:" + what, "%s", info.c_str());
      Bytes out;
      if (!ref::unb64(rep.body, out)) failf("enrol-reply-not-base64", "'%s'; %s", printable(rep.body, 60).c_str(), info.c_str());
      else if (ok) same_but_issuer(c.cert, out, ca_node.cert, info);
      if (ls.size() != 1) failf("audit-lines", "%zu lines for one enrolment: '%s'; %s", ls.size(), printable(add, 300).c_str(), info.c_str());
      for (auto &l : ls) {
        Line x;
        if (!parse(l, x)) { failf("audit-line-malformed", "'%s'; %s", printable(l, 300).c_str(), info.c_str()); continue; }
        if ((time_t)x.t < t0 || (time_t)x.t > t1) failf("audit-time", "'%s'; %s", printable(l, 300).c_str(), info.c_str());
        if (!matches(x, p, c)) failf("audit-content", "'%s'; %s", printable(l, 300).c_str(), info.c_str());
        else if (p.hex.size() > 16 || c.hex.size() > 16) count("line with a serial number over 64 bits");
        count("line-checked");
      }
    } else {
      if (ok) failf(fmt("enrol-refused:%d", rep.status), "%s", info.c_str());
      if (rep.status < 400) failf("enrol-status", "%s", info.c_str());
      if (!ls.empty()) failf("audit-line-for-rejected", "'%s'; %s", printable(add, 300).c_str(), info.c_str());
      Bytes out;
      if (ref::unb64(rep.body, out) && X(out).x) failf("enrol-error-with-certificate", "%s", info.c_str());
    }
    ERR_clear_error();
  }
  unlink(lp.c_str());
}

static void concurrent(Rng &r, long i) {
  Deploy d(r, scratch + "/d" + std::to_string(i), true);
  RegistrarContext ctx{};
  ctx.rconf = &d.rc;
  ctx.mconf = &d.mc;
  Node ca_node = d.dom.root;
  if (r.chance(1, 2)) { // the issuing CA is an intermediate one
    ca_node = child(d.dom.root, {{"O", "Domain"}, {"CN", "Domain issuing CA"}}, r.chance(1, 4) ? N_EC : 12, true, r);
    d.rc.tls_ca_cert_path = d.str(d.file("issuing.crt", pem("CERTIFICATE", ca_node.cert)));
    d.rc.tls_ca_key_path = d.str(d.file("issuing.key", key_pem(ca_node.key)));
    count("intermediate issuing CA");
  }
  std::string lp = d.dir + "/audit.log";
  snprintf(ctx.log_path, sizeof ctx.log_path, "%s", lp.c_str());
  int T = (int)r.range(2, 8), K = (int)r.range(2, 8);
  struct Job { Odd p, c; Bytes body; bool good; Reply rep; };
  std::vector<std::vector<Job>> jobs(T);
  bool longer = r.chance(1, 2);
  for (auto &v : jobs)
    for (int k = 0; k < K; k++) {
      Job j{odd_cert(r, 0, 0, true), odd_cert(r, 11, 11, true), "", r.chance(5, 6), {}};
      if (longer) { // lines longer than any stdio buffer
        Rng q(r.next());
        j.p.has_sn = true;
        X x(j.p.cert);
        X509_NAME *nm = X509_NAME_new();
        j.p.subject_sn = Bytes(q.range(2000, 20000), (char)('A' + q.below(26)));
        X509_NAME_add_entry_by_NID(nm, NID_serialNumber, V_ASN1_UTF8STRING, (const unsigned char *)j.p.subject_sn.data(), (int)j.p.subject_sn.size(), -1, 0);
        X509_set_subject_name(x, nm);
        X509_NAME_free(nm);
        X509_sign(x, key(0).k, EVP_sha256());
        j.p.cert = der_cert(x);
      }
      j.body = j.good ? ref::b64(j.c.cert) : junk_body(r);
      v.push_back(j);
    }
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  time_t t0 = time(nullptr);
  for (int t = 0; t < T; t++)
    ts.emplace_back([&, t] {
      ready++;
      while (ready < T) std::this_thread::yield();
      for (auto &j : jobs[t]) j.rep = call(registrar_est_simpleenroll, j.body, j.p.cert, &ctx);
    });
  for (auto &t : ts) t.join();
  time_t t1 = time(nullptr);
  std::vector<const Job *> open;
  std::string info = fmt("%d threads, %d enrolments each", T, K);
  for (auto &v : jobs)
    for (auto &j : v) {
      if ((j.rep.status == 200) != j.good) failf("enrol-concurrent-status", "%d for a %s one; %s", j.rep.status, j.good ? "good" : "bad", info.c_str());
      if (j.rep.status != 200 || !j.good) continue;
      Bytes out;
      if (!ref::unb64(j.rep.body, out)) failf("enrol-reply-not-base64", "%s", info.c_str());
      else same_but_issuer(j.c.cert, out, ca_node.cert, info);
      open.push_back(&j);
    }
  size_t accepted = open.size();
  std::vector<Bytes> ls;
  if (access(lp.c_str(), F_OK) == 0) ls = lines(read_file(lp));
  if (ls.size() != accepted) failf("audit-lines-concurrent", "%zu lines for %zu enrolments; %s", ls.size(), accepted, info.c_str());
  int switches = 0;
  const std::vector<Job> *last = nullptr;
  for (auto &l : ls) {
    Line x;
    if (!parse(l, x)) { failf("audit-line-malformed", "'%s'; %s", printable(l, 200).c_str(), info.c_str()); continue; }
    if ((time_t)x.t < t0 || (time_t)x.t > t1) failf("audit-time", "'%s'; %s", printable(l, 200).c_str(), info.c_str());
    bool found = false;
    for (auto it = open.begin(); it != open.end(); ++it)
      if (matches(x, (*it)->p, (*it)->c)) {
        for (auto &v : jobs) if (*it >= &v[0] && *it <= &v.back()) { if (last && last != &v) switches++; last = &v; }
        open.erase(it);
        found = true;
        break;
      }
    if (!found) failf("audit-content-concurrent", "no enrolment for '%s'; %s", printable(l, 200).c_str(), info.c_str());
    count("line-checked");
  }
  count("concurrent:switches between threads in the log", switches);
  count("concurrent:enrolments", (long)accepted);
  evaluated(mix(r.s), T > 1 && accepted > 1);
  if (want_sample()) sample(info + fmt(", %d switches between threads in the log", switches));
  unlink(lp.c_str());
}
// several registrars append to one log: nothing of what another one wrote is lost (their
// parts may mix, but every newline must be there)
static void processes(Rng &r, long i) {
  Deploy d(r, scratch + "/d" + std::to_string(i), true);
  RegistrarContext ctx{};
  ctx.rconf = &d.rc;
  ctx.mconf = &d.mc;
  std::string lp = d.dir + "/audit.log";
  snprintf(ctx.log_path, sizeof ctx.log_path, "%s", lp.c_str());
  int P = (int)r.range(2, 4), K = (int)r.range(20, 60);
  std::string before;
  if (r.chance(1, 2)) before = "an earlier line\n", write_file(lp, before);
  Odd p = odd_cert(r, 0, 0, true), c = odd_cert(r, 11, 11, true);
  Bytes body = ref::b64(c.cert);
  struct Shared { std::atomic<int> ready; std::atomic<long> accepted[8]; };
  auto *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pids;
  for (int n = 0; n < P; n++) {
    pid_t pid = fork();
    if (pid == 0) {
      sh->ready++;
      while (sh->ready < P) usleep(50);
      for (int k = 0; k < K; k++) sh->accepted[n] += call(registrar_est_simpleenroll, body, p.cert, &ctx).status == 200;
      _exit(0);
    }
    pids.push_back(pid);
  }
  long accepted = 0;
  for (int n = 0; n < P; n++) {
    int st = 0;
    waitpid(pids[n], &st, 0);
    if (st) failf("registrar-ends", "a registrar process ends with %d", st);
    accepted += sh->accepted[n];
  }
  munmap(sh, sizeof *sh);
  std::string info = fmt("%d registrars, %d enrolments each", P, K);
  if (accepted != (long)P * K) failf("enrol-refused-process", "%ld accepted; %s", accepted, info.c_str());
  Bytes f = access(lp.c_str(), F_OK) == 0 ? read_file(lp) : Bytes();
  long nl = (long)std::count(f.begin(), f.end(), '\n') - (long)!before.empty();
  if (nl != accepted) failf("audit-lines-processes", "%ld lines for %ld enrolments; %s", nl, accepted, info.c_str());
  if (f.compare(0, before.size(), before)) failf("audit-earlier-line", "an earlier line is gone; %s", info.c_str());
  count("enrolments by several registrars", accepted);
  evaluated(mix(r.s), accepted > 1);
  if (want_sample()) sample(info);
  unlink(lp.c_str());
}
int main(int argc, char **argv) {
  setenv("TZ", "UTC", 1);
  init(argc, argv);
  if (!getenv("LOUD")) quiet_log();
  scratch = opt("scratch", ".");
  std::string m = opt("mode");
  for (int k : {0, 9, 11}) key(k);
  return run([&](Rng &r, long i) { m == "concurrent" ? concurrent(r, i) : m == "processes" ? processes(r, i) : sequential(r, i); }, m.empty() ? 100 : 0);
}
