// The command-line tool as a process of its own, its configuration files, and
// what a pledge must make of a voucher.
#pragma once
#include "apiworld.hpp"
#include "wire.hpp"
#include <spawn.h>
#include <sys/wait.h>
extern char **environ;

namespace e2e {
using namespace wire;

// ---- the tool ----------------------------------------------------------------------
struct Ran { int rc = -1; bool hung = false, crashed = false; Bytes out, err; };
struct Process {
  pid_t pid = -1;
  std::string dir, out_to;
  std::thread feeder; // of its standard input
  static std::string &tool() { static std::string t; return t; }
  // leaks: whether leaks make it fail (the tool does not clean up before it exits with failure)
  bool start(const std::string &d, std::vector<std::string> args, const Bytes &in = "", const std::vector<std::string> &env = {}, const std::string &stdout_to = "", bool leaks = false, int pieces = 0) {
    dir = d;
    int sv[2] = {-1, -1};
    if (pieces && socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) harness_error("socketpair");
    mkdir(dir.c_str(), 0755);
    write_file(dir + "/in", in);
    out_to = stdout_to.empty() ? dir + "/out" : stdout_to;
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    if (pieces) posix_spawn_file_actions_adddup2(&fa, sv[1], 0);
    else posix_spawn_file_actions_addopen(&fa, 0, (dir + "/in").c_str(), O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, out_to.c_str(), O_WRONLY | O_CREAT | (stdout_to.empty() ? O_TRUNC : 0), 0644);
    posix_spawn_file_actions_addopen(&fa, 2, (dir + "/err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    args.insert(args.begin(), tool());
    std::vector<char *> av;
    for (auto &a : args) av.push_back(&a[0]);
    av.push_back(nullptr);
    std::vector<std::string> e;
    for (char **p = environ; *p; p++) {
      e.push_back(*p);
      if (!strncmp(*p, "ASAN_OPTIONS=", 13)) e.back() += leaks ? ":detect_leaks=1" : ":detect_leaks=0";
    }
    e.insert(e.end(), env.begin(), env.end());
    std::vector<char *> ev;
    for (auto &x : e) ev.push_back(&x[0]);
    ev.push_back(nullptr);
    if (posix_spawn(&pid, tool().c_str(), &fa, nullptr, av.data(), ev.data())) harness_error("cannot run %s", tool().c_str());
    posix_spawn_file_actions_destroy(&fa);
    if (pieces) {
      close(sv[1]);
      int fd = sv[0];
      feeder = std::thread([fd, in, pieces] {
        for (size_t k = 0, step = in.size() / (size_t)pieces + 1; k < in.size(); k += step) {
          if (k) usleep(15000);
          size_t n = std::min(step, in.size() - k);
          if (send(fd, in.data() + k, n, MSG_NOSIGNAL) != (ssize_t)n) break;
        }
        close(fd);
      });
    }
    return true;
  }
  bool running() {
    siginfo_t si{};
    return pid > 0 && waitid(P_PID, (id_t)pid, &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid == 0;
  }
  Ran finish(int seconds, bool kill_it = false) {
    Ran r;
    for (long ms = 0; running() && !kill_it; ms++) {
      if (ms > seconds * 1000L) { r.hung = true; break; }
      usleep(1000);
    }
    if (running()) kill(pid, SIGKILL);
    int st = 0;
    waitpid(pid, &st, 0);
    pid = -1;
    if (feeder.joinable()) feeder.join();
    r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    r.err = read_file(dir + "/err");
    if (out_to.compare(0, 5, "/dev/")) r.out = read_file(out_to);
    r.crashed = !r.hung && !kill_it && r.rc != 0 && r.rc != 1;
    unlink((dir + "/in").c_str());
    unlink((dir + "/out").c_str());
    unlink((dir + "/err").c_str());
    rmdir(dir.c_str());
    return r;
  }
};
// the report of the sanitizer, or the last of what it said
static std::string why(const Ran &r) {
  size_t p = r.err.find("ERROR: ");
  if (p == std::string::npos) p = r.err.find("runtime error: ");
  if (p == std::string::npos) p = r.err.size() > 300 ? r.err.size() - 300 : 0;
  return r.err.substr(p, 1500);
}

// ---- configuration files ------------------------------------------------------------
typedef std::vector<std::pair<std::string, std::string>> Keys;
static void put(Keys &k, const char *n, const char *v) { if (v) k.push_back({n, v}); }
static void put(Keys &k, const char *n, const BinaryArrayList *l) {
  if (l) for (auto &x : str_list(l)) k.push_back({n, x.c_str()});
}
static Bytes section(const char *name, const Keys &k, Rng &r) {
  Bytes s = fmt("[%s]\n", name);
  for (auto &x : k) s += x.first + (r.chance(1, 4) ? "=" : " = ") + x.second + "\n";
  return s + "\n";
}
static Bytes config_text(const pledge_config &p, const registrar_config &c, const masa_config &m, Rng &r) {
  Keys a, b, d;
  put(a, "createdOn", p.created_on), put(a, "serialNumber", p.serial_number), put(a, "nonce", p.nonce), put(a, "idevidKeyPath", p.idevid_key_path), put(a, "idevidCertPath", p.idevid_cert_path), put(a, "idevidCACertPath", p.idevid_ca_cert_path), put(a, "cmsSignCertPath", p.cms_sign_cert_path), put(a, "cmsSignKeyPath", p.cms_sign_key_path), put(a, "cmsAdditionalCertPath", p.cms_add_certs_paths), put(a, "cmsVerifyCertPath", p.cms_verify_certs_paths), put(a, "cmsVerifyStorePath", p.cms_verify_store_paths);
  put(b, "bindAddress", c.bind_address), put(b, "port", std::to_string(c.port).c_str()), put(b, "tlsCertPath", c.tls_cert_path), put(b, "tlsKeyPath", c.tls_key_path), put(b, "tlsCACertPath", c.tls_ca_cert_path), put(b, "tlsCAKeyPath", c.tls_ca_key_path), put(b, "cmsSignCertPath", c.cms_sign_cert_path), put(b, "cmsSignKeyPath", c.cms_sign_key_path), put(b, "cmsAdditionalCertPath", c.cms_add_certs_paths), put(b, "cmsVerifyCertPath", c.cms_verify_certs_paths), put(b, "cmsVerifyStorePath", c.cms_verify_store_paths);
  put(d, "bindAddress", m.bind_address), put(d, "port", std::to_string(m.port).c_str()), put(d, "expiresOn", m.expires_on), put(d, "ldevidCACertPath", m.ldevid_ca_cert_path), put(d, "tlsCertPath", m.tls_cert_path), put(d, "tlsKeyPath", m.tls_key_path), put(d, "tlsCACertPath", m.tls_ca_cert_path), put(d, "cmsSignCertPath", m.cms_sign_cert_path), put(d, "cmsSignKeyPath", m.cms_sign_key_path), put(d, "cmsAdditionalCertPath", m.cms_add_certs_paths), put(d, "cmsVerifyCertPath", m.cms_verify_certs_paths), put(d, "cmsVerifyStorePath", m.cms_verify_store_paths);
  std::vector<Bytes> s{section("pledge", a, r), section("registrar", b, r), section("masa", d, r)};
  size_t k = r.below(3);
  return s[k] + s[(k + 1) % 3] + s[(k + 2) % 3];
}

// ---- the pledge's judgement ----------------------------------------------------------
struct Wants { Bytes serial, nonce; bool has_nonce; std::vector<Bytes> anchors, certs; };
static int judge_der(const Bytes &cms, const Wants &w, const Bytes &reg, Bytes &pinned, std::string &why) {
  Trust t;
  t.has_store = true, t.store = w.anchors;
  t.has_certs = !w.certs.empty(), t.certs = w.certs;
  Opened o;
  VoucherModel g;
  int want = trusts(t, cms, o, why);
  if (!want) return 0;
  int j = ref::judge(o.content, g, &why);
  if (!j) return 0;
  if (j < 0) want = -1;
  if (!g.serial || *g.serial != w.serial) { why = "serial number"; return 0; }
  if (w.has_nonce && (!g.array.count(ref::A_NONCE) || g.array[ref::A_NONCE] != w.nonce)) { why = "nonce"; return 0; }
  if (!g.array.count(ref::A_PINNED)) { why = "nothing pinned"; return 0; }
  pinned = g.array[ref::A_PINNED];
  if (pinned == reg) return -1;
  if (!chain_exists(reg, {}, {pinned}, true)) { why = "pinned certificate does not certify the registrar"; return 0; }
  return want;
}
// text: what came as the voucher. Unusual base64 is open as long as some reading of it is a good voucher.
static int judge_text(const Bytes &text, const Wants &w, const Bytes &reg, Bytes &pinned, std::string &why) {
  Bytes d;
  if (ref::unb64(text, d)) return judge_der(d, w, reg, pinned, why);
  std::vector<Bytes> readings{text, text.substr(0, text.find('\0')), text.substr(0, text.find('=')), text.substr(0, text.find_last_not_of('=') + 1)};
  for (auto t : readings) {
    Bytes c;
    for (char x : t) if (isalnum((unsigned char)x) || x == '+' || x == '/') c += x;
    while (c.size() % 4 == 1) c.pop_back();
    while (c.size() % 4) c += '=';
    Bytes raw = c, e;
    // any trailing bits
    for (size_t k = 0; k < 2; k++) {
      if (ref::unb64(raw, d) && judge_der(d, w, reg, pinned, e)) return -1;
      size_t q = raw.find('=');
      if (q == std::string::npos || q == 0) break;
      raw[q - 1] = 'A';
    }
  }
  why = "not base64 of a good voucher";
  return 0;
}
static bool is_cert(const Bytes &d, bool &exact) {
  X x(d);
  exact = x.x && der_cert(x) == d;
  return x.x != nullptr;
}
static Bytes pub_of(const Bytes &cert) {
  X x(cert);
  if (!x.x || !X509_get0_pubkey(x)) { ERR_clear_error(); return ""; }
  return der_of(X509_get0_pubkey(x), [](const EVP_PKEY *k, unsigned char **p) { return i2d_PUBKEY(k, p); });
}
static Bytes pub_of_key(const Bytes &der) {
  const unsigned char *p = (const unsigned char *)der.data();
  EVP_PKEY *k = d2i_AutoPrivateKey(nullptr, &p, (long)der.size());
  Bytes b;
  if (k) b = der_of((const EVP_PKEY *)k, [](const EVP_PKEY *y, unsigned char **q) { return i2d_PUBKEY(y, q); });
  EVP_PKEY_free(k);
  ERR_clear_error();
  return b;
}
static bool from_pem(const Bytes &t, const char *label, Bytes &der) { // one block, nothing else
  Bytes a = std::string("-----BEGIN ") + label + "-----\n", z = std::string("-----END ") + label + "-----\n";
  if (t.size() < a.size() + z.size() || t.compare(0, a.size(), a) || t.compare(t.size() - z.size(), z.size(), z)) return false;
  Bytes c;
  for (char x : t.substr(a.size(), t.size() - a.size() - z.size())) if (x != '\n') c += x;
  return ref::unb64(c, der);
}
} // namespace e2e
