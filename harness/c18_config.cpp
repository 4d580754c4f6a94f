// C18: generated configuration files against a reference reading.
#include "brski_c.hpp"
#include "pki.hpp"
#include <algorithm>
#include <cstddef>
#include <dirent.h>
#include <ftw.h>
extern "C" {
#include "brski/config.h"
}
using namespace vh;

static std::string dir;
static std::string put(const std::string &name, const Bytes &b) {
  std::string p = dir + "/" + name;
  FILE *f = fopen(p.c_str(), "wb");
  if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f)) harness_error("cannot write %s", p.c_str());
  return p;
}
static Bytes slurp(const std::string &p) {
  FILE *f = fopen(p.c_str(), "rb");
  Bytes b;
  char t[4096];
  size_t n;
  while (f && (n = fread(t, 1, sizeof t, f)) > 0) b.append(t, n);
  if (f) fclose(f);
  return b;
}
static int open_fds() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (d && readdir(d)) n++;
  if (d) closedir(d);
  return n;
}

enum Kind { STR, DATE, PORT, LIST };
struct K { const char *sec, *key, *def; Kind kind; size_t off; };
#define P(f) offsetof(brski_config, pconf) + offsetof(pledge_config, f)
#define R(f) offsetof(brski_config, rconf) + offsetof(registrar_config, f)
#define M(f) offsetof(brski_config, mconf) + offsetof(masa_config, f)
static const K keys[] = {
    {"pledge", "createdOn", "", DATE, P(created_on)}, {"pledge", "serialNumber", "", STR, P(serial_number)},
    {"pledge", "nonce", "", STR, P(nonce)}, {"pledge", "idevidKeyPath", "", STR, P(idevid_key_path)},
    {"pledge", "idevidCertPath", "", STR, P(idevid_cert_path)}, {"pledge", "idevidCACertPath", "", STR, P(idevid_ca_cert_path)},
    {"pledge", "cmsSignKeyPath", "", STR, P(cms_sign_key_path)}, {"pledge", "cmsSignCertPath", "", STR, P(cms_sign_cert_path)},
    {"pledge", "cmsAdditionalCertPath", "", LIST, P(cms_add_certs_paths)},
    {"pledge", "cmsVerifyCertPath", "", LIST, P(cms_verify_certs_paths)},
    {"pledge", "cmsVerifyStorePath", "", LIST, P(cms_verify_store_paths)},
    {"registrar", "bindAddress", "0.0.0.0", STR, R(bind_address)}, {"registrar", "port", "0", PORT, R(port)},
    {"registrar", "tlsKeyPath", "", STR, R(tls_key_path)}, {"registrar", "tlsCertPath", "", STR, R(tls_cert_path)},
    {"registrar", "tlsCAKeyPath", "", STR, R(tls_ca_key_path)}, {"registrar", "tlsCACertPath", "", STR, R(tls_ca_cert_path)},
    {"registrar", "cmsSignKeyPath", "", STR, R(cms_sign_key_path)}, {"registrar", "cmsSignCertPath", "", STR, R(cms_sign_cert_path)},
    {"registrar", "cmsAdditionalCertPath", "", LIST, R(cms_add_certs_paths)},
    {"registrar", "cmsVerifyCertPath", "", LIST, R(cms_verify_certs_paths)},
    {"registrar", "cmsVerifyStorePath", "", LIST, R(cms_verify_store_paths)},
    {"masa", "bindAddress", "0.0.0.0", STR, M(bind_address)}, {"masa", "expiresOn", "", DATE, M(expires_on)},
    {"masa", "port", "0", PORT, M(port)}, {"masa", "ldevidCACertPath", "", STR, M(ldevid_ca_cert_path)},
    {"masa", "tlsKeyPath", "", STR, M(tls_key_path)}, {"masa", "tlsCertPath", "", STR, M(tls_cert_path)},
    {"masa", "tlsCACertPath", "", STR, M(tls_ca_cert_path)}, {"masa", "cmsSignKeyPath", "", STR, M(cms_sign_key_path)},
    {"masa", "cmsSignCertPath", "", STR, M(cms_sign_cert_path)},
    {"masa", "cmsAdditionalCertPath", "", LIST, M(cms_add_certs_paths)},
    {"masa", "cmsVerifyCertPath", "", LIST, M(cms_verify_certs_paths)},
    {"masa", "cmsVerifyStorePath", "", LIST, M(cms_verify_store_paths)},
};
enum { NK = sizeof keys / sizeof *keys };

// what the file says: absent, or the values written (one for plain keys)
struct Model { std::map<int, std::vector<Bytes>> v; };

static Bytes value(Rng &r, Kind k, bool &quote) {
  if (k == PORT) { quote = r.chance(1, 4); return std::to_string(r.pick(std::vector<long>{1, 80, 443, 12345, 32767, 32768, 65535, 65536, 65537, 70000, 100000, 2147483647, (long)r.range(1, 65535)})); }
  if (k == DATE) {
    char b[32];
    snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02dZ", (int)r.range(1000, 9999), (int)r.range(1, 12), (int)r.range(1, 28), (int)r.range(0, 23), (int)r.range(0, 59), (int)r.range(0, 59));
    quote = r.chance(1, 2);
    return b;
  }
  static const std::string plain = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/._-+@~%,=:&()!$*?<>^|'{}";
  quote = r.chance(1, 2);
  size_t n = r.chance(1, 12) ? (size_t)r.range(100, 400) : r.chance(1, 6) ? 1 : (size_t)r.range(2, 60);
  if (r.chance(1, 40)) n = 400;
  Bytes b;
  for (size_t i = 0; i < n; i++) {
    bool edge = i == 0 || i + 1 == n;
    if (!edge && r.chance(1, 14)) b += " ";
    else if (!edge && quote && r.chance(1, 20)) b += r.chance(1, 2) ? ";" : "#";
    else if (!edge && r.chance(1, 30)) b += "\xc3\xa9"; // may exceed n a little
    else b += plain[r.below(plain.size())];
  }
  // not to be taken for a section, a comment or a quotation
  if (!quote && b[0] == '[') b[0] = 'x';
  return b;
}
static std::string near_miss(Rng &r, const std::string &k) {
  switch (r.below(8)) {
  case 0: return k + "2";
  case 1: return "x" + k;
  case 2: return k.substr(0, k.size() - 1);
  case 3: return k + "." + k;
  case 4: return "description";
  case 5: return k + "Path";
  case 6: return k.substr(1);
  default: return "_" + k;
  }
}

struct File { Bytes text; Model m; int repeated = 0, longest = 0; };
static std::string pad(Rng &r) { return std::string(r.pick(std::vector<const char *>{"", "", " ", "\t", "  "})); }
static File make(Rng &r) {
  File f;
  std::string nl = r.chance(1, 5) ? "\r\n" : "\n";
  std::vector<std::string> secs{"pledge", "registrar", "masa"};
  int extra = (int)r.below(4);
  static const std::vector<std::string> unknown{"pledge2", "ledge", "masas", "server", "x", "registrar-old", "mas", "pledge.registrar"};
  for (int i = 0; i < extra; i++) {
    auto s = r.pick(unknown);
    if (std::find(secs.begin(), secs.end(), s) == secs.end()) secs.push_back(s);
  }
  for (size_t i = 0; i < 3; i++) if (r.chance(1, 15)) secs[i] = "";
  for (size_t i = secs.size(); i > 1; i--) std::swap(secs[i - 1], secs[r.below(i)]);
  auto comment = [&] {
    if (r.chance(1, 10)) f.text += nl;
    if (r.chance(1, 10)) f.text += r.pick(std::vector<std::string>{"# a comment", "; another", "#", ";port = 1", "# cmsVerifyCertPath = /tmp/no", "#[masa]"}) + nl;
  };
  // keys in front of any section belong to none
  if (r.chance(1, 6)) for (int i = 0; i < 3; i++) { auto &k = keys[r.below(NK)]; f.text += std::string(k.key) + " = stray" + nl; }
  int density = (int)r.pick(std::vector<int>{1, 3, 5, 5});
  for (auto &s : secs) {
    if (s.empty()) continue;
    comment();
    f.text += "[" + s + "]" + (r.chance(1, 8) ? " " : "") + nl;
    std::vector<std::pair<std::string, std::pair<Bytes, int>>> lines; // text of line, value, key index (-1 unknown)
    for (int i = 0; i < NK; i++) {
      const K &k = keys[i];
      bool mine = s == k.sec;
      bool other = !mine && r.chance(1, 12); // the same key in another section
      if (mine ? !r.chance(density, 5) : !other) continue;
      // a key of another section that exists in this one as well would count
      if (other) { bool here = false; for (auto &q : keys) here |= s == q.sec && !strcmp(q.key, k.key); if (here) continue; }
      int n = k.kind == LIST ? (int)r.pick(std::vector<int>{1, 1, 2, 3, 5, 20}) : 1;
      std::vector<Bytes> seen;
      for (int j = 0; j < n; j++) {
        bool q;
        Bytes v = value(r, k.kind, q);
        bool empty = r.chance(1, 10);
        if (empty && k.kind == PORT) empty = false;
        if (empty) { v = ""; q = r.chance(1, 2); }
        if (!seen.empty() && r.chance(1, 6) && !seen.back().empty()) { v = seen.back(); q = v.find_first_of("#;") != Bytes::npos || r.chance(1, 2); }
        seen.push_back(v);
        Bytes line = pad(r) + k.key + pad(r) + "=" + pad(r) + (q ? "\"" + v + "\"" : v) + pad(r);
        lines.push_back({line, {v, mine ? i : -1}});
      }
    }
    int junk = (int)r.below(5);
    for (int j = 0; j < junk; j++) {
      const K &k = keys[r.below(NK)];
      std::string name = near_miss(r, k.key);
      bool real = false;
      for (auto &q : keys) real |= !strcasecmp(q.key, name.c_str());
      if (real) continue;
      bool q;
      Bytes v = value(r, STR, q);
      lines.push_back({name + " = " + (q ? "\"" + v + "\"" : v), {"", -1}});
    }
    for (size_t i = lines.size(); i > 1; i--) std::swap(lines[i - 1], lines[r.below(i)]);
    for (auto &l : lines) {
      comment();
      f.text += l.first + nl;
      f.longest = std::max(f.longest, (int)l.first.size());
      if (l.second.second >= 0) f.m.v[l.second.second].push_back(l.second.first);
    }
  }
  if (f.text.size() > nl.size() && r.chance(1, 6)) f.text.resize(f.text.size() - nl.size());
  for (auto &x : f.m.v) if (x.second.size() > 1) f.repeated++;
  return f;
}

static std::string show(char *p) { return p ? "\"" + printable(p) + "\"" : "NULL"; }
static void judge(const brski_config &c, const Model &m, const std::string &what) {
  for (int i = 0; i < NK; i++) {
    const K &k = keys[i];
    const char *base = (const char *)&c + k.off;
    auto it = m.v.find(i);
    count(it == m.v.end() ? "key absent" : it->second.size() > 1 ? "key repeated" : it->second[0].empty() ? "key empty" : "key set");
    if (k.kind == PORT) {
      unsigned want = it == m.v.end() ? 0 : (unsigned)strtoul(it->second[0].c_str(), 0, 10), got = *(const unsigned *)base;
      if (got != want) failf("port", "[%s] %s is %u, the file says %u (%s)", k.sec, k.key, got, want, what.c_str());
    } else if (k.kind == LIST) {
      std::vector<Bytes> want, got;
      if (it != m.v.end()) for (auto &v : it->second) if (!v.empty()) want.push_back(v);
      auto l = *(BinaryArrayList *const *)base;
      if (l) {
        struct BinaryArrayList *e;
        dl_list_for_each(e, &l->list, struct BinaryArrayList, list) {
          if (!e->arr || !e->length || strnlen((char *)e->arr, e->length) != e->length - 1) { fail("list-element", std::string("element of [") + k.sec + "] " + k.key + " is no string of its length"); break; }
          got.push_back((char *)e->arr);
        }
      }
      if (got != want) {
        std::string g, w;
        for (auto &x : got) g += printable(x, 60) + " | ";
        for (auto &x : want) w += printable(x, 60) + " | ";
        failf("list", "[%s] %s is %s, the file says %s (%s)", k.sec, k.key, g.c_str(), w.c_str(), what.c_str());
      }
    } else {
      Bytes want = it == m.v.end() ? k.def : it->second[0];
      char *got = *(char *const *)base;
      if (want.empty() ? got != nullptr : !got || want != got)
        failf("value", "[%s] %s is %s, the file says \"%s\" (%s)", k.sec, k.key, show(got).c_str(), printable(want).c_str(), what.c_str());
    }
  }
}
static bool is_clear(const brski_config &c) {
  brski_config z;
  memcpy((void *)&z, &c, sizeof z);
  z.rconf.port = z.mconf.port = 0;
  brski_config e;
  memset((void *)&e, 0, sizeof e);
  for (auto &k : keys) if (k.kind != PORT && *(void **)((char *)&z + k.off)) return false;
  return true;
}

static void faithful(Rng &r, long i) {
  File f = make(r);
  std::string p = put(r.chance(1, 10) ? "conf with space.ini" : "c.ini", f.text);
  int fds = open_fds();
  brski_config c;
  memset((void *)&c, 0, sizeof c);
  int rc = load_brski_config(p.c_str(), &c);
  std::string what = f.text.size() < 600 ? printable(f.text) : fmt("%zu byte file", f.text.size());
  if (rc) fail("load", fmt("returned %d for %s", rc, what.c_str()));
  else judge(c, f.m, what);
  free_config_content(&c);
  if (!is_clear(c)) fail("free", "free_config_content leaves values");
  free_config_content(&c);
  if (slurp(p) != f.text) fail("file-changed", "the configuration file was changed");
  if (open_fds() != fds) fail("fd-leak", "a file stays open");
  count("repeated keys", f.repeated);
  if (f.longest > 300) count("long lines");
  evaluated(hash(f.text), f.m.v.size() > 1);
  if (want_sample()) sample(printable(f.text));
  unlink(p.c_str());
}

static void unreadable(Rng &r, long i) {
  brski_config c;
  memset((void *)&c, 0, sizeof c);
  int kind = (int)r.below(5), rc;
  int fds = open_fds();
  std::string name, p;
  switch (kind) {
  case 0: name = "missing"; rc = load_brski_config((dir + "/nosuch.ini").c_str(), &c); break;
  case 1: name = "directory"; rc = load_brski_config(dir.c_str(), &c); break;
  case 2:
    name = "permission";
    p = put("secret.ini", "[registrar]\nport = 5\n");
    chmod(p.c_str(), 0);
    if (geteuid() == 0 && seteuid(65534)) harness_error("seteuid");
    rc = load_brski_config(p.c_str(), &c);
    if (getuid() == 0 && seteuid(0)) harness_error("seteuid back");
    break;
  case 3: name = "below a file"; p = put("f.ini", "x"); rc = load_brski_config((p + "/c.ini").c_str(), &c); break;
  default: name = "no name"; rc = load_brski_config("", &c); break;
  }
  if (rc != -1) failf("unreadable-accepted", "%s: returned %d", name.c_str(), rc);
  if (!is_clear(c)) failf("unreadable-values", "%s: values are set", name.c_str());
  free_config_content(&c);
  if (open_fds() != fds) fail("fd-leak", "a file stays open");
  if (!p.empty()) unlink(p.c_str());
  count("unreadable: " + name);
  evaluated(hash(name), true);
}

static Bytes pem(const Bytes &der) {
  const unsigned char *q = (const unsigned char *)der.data();
  X509 *x = d2i_X509(nullptr, &q, (long)der.size());
  if (!x) harness_error("d2i_X509");
  BIO *b = BIO_new(BIO_s_mem());
  PEM_write_bio_X509(b, x);
  char *d;
  long n = BIO_get_mem_data(b, &d);
  Bytes o(d, n);
  BIO_free(b);
  X509_free(x);
  return o;
}
static void certs(Rng &r, long i) {
  static std::vector<Bytes> pool;
  if (pool.empty()) for (int j = 0; j < 6; j++) {
    pki::Spec s;
    s.subject = s.issuer = pki::cn(fmt("cert %d", j));
    s.serial = 100 + j;
    s.pub = s.sig = j;
    pool.push_back(pki::make_cert(s));
  }
  int n = (int)r.pick(std::vector<int>{0, 1, 1, 2, 3, 6, 12});
  BinaryArrayList *l = r.chance(1, 20) && n == 0 ? nullptr : init_array_list(), *out = (BinaryArrayList *)0x10;
  std::vector<Bytes> want;
  std::vector<std::string> files;
  bool bad = false;
  std::string what;
  int fds = open_fds();
  for (int j = 0; j < n; j++) {
    const Bytes &d = pool[r.below(pool.size())];
    Bytes t = pem(d);
    int k = r.chance(1, 8) ? (int)r.range(1, 6) : 0;
    std::string p = dir + fmt("/cert%d.crt", j);
    switch (k) {
    case 1: t = ""; break;
    case 2: t = "not a certificate\n"; break;
    case 3: t.resize(t.size() / 2); break;
    case 4: t = d; break; // DER: the files are PEM files
    case 5: p = dir + "/missing.crt"; break;
    case 6: { size_t x = t.find('\n') + 5; t[x] = '*'; break; }
    }
    bad |= k != 0;
    what += fmt("%d", k);
    if (k != 5) { put(fmt("cert%d.crt", j), (r.chance(1, 8) ? "some text\n" : "") + t); files.push_back(p); }
    if (push_array_list(l, (uint8_t *)p.c_str(), p.size() + 1, 0)) harness_error("push");
    want.push_back(d);
  }
  int rc = load_cert_files(l, &out);
  if (bad) {
    if (rc != -1) failf("bad-certificate-file", "files %s: returned %d", what.c_str(), rc);
    if (out) fail("bad-certificate-file-list", "failed but gives a list (" + what + ")");
  } else if (rc) failf("good-certificate-files", "files %s: returned %d", what.c_str(), rc);
  else {
    std::vector<Bytes> got;
    if (out) { struct BinaryArrayList *e; dl_list_for_each(e, &out->list, struct BinaryArrayList, list) got.push_back(Bytes((char *)e->arr, e->length)); }
    if (got != want) failf("certificates", "%zu of %zu certificates, or other ones (%s)", got.size(), want.size(), what.c_str());
  }
  if (rc == 0) free_array_list(out);
  free_array_list(l);
  for (auto &p : files) unlink(p.c_str());
  if (open_fds() != fds) fail("fd-leak", "a file stays open");
  count(bad ? "certificate lists refused" : "certificate lists loaded");
  evaluated(hash(what) + n, n > 0);
}

int main(int argc, char **argv) {
  init(argc, argv);
  if (!getenv("LOUD")) log_set_quiet(true);
  dir = opt("scratch", ".");
  chmod(dir.c_str(), 0755);
  return run([&](Rng &r, long i) {
    if (i % 5 == 3) certs(r, i);
    else if (i % 25 == 4) unreadable(r, i);
    else faithful(r, i);
  }, 200);
}
