// Faults in single allocations and OpenSSL calls made by the code under test:
// the calls are redirected at link time (--wrap), counted while armed, and the
// chosen one fails in the way its documentation allows. Memory obtained while
// armed is followed, through OpenSSL too, to see leaks at the very fault.
// Link with FAULT_WRAPS of checks/c17.py.
#pragma once
#include "apiworld.hpp"
#include "guard.hpp"
#include <openssl/crypto.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#endif
namespace faults {
using vh::Bytes;
static bool armed = false, fired = false;
static long calls = 0, target = -1;
static int variant = 0;
struct Site { const char *fn; int variants; };
static std::vector<Site> *record = nullptr;
static const char *fired_at = "";
static std::string doing; // for crash reports
// the failing variant, or -1 for going ahead
static int hit(const char *fn, int variants = 1) {
  if (!armed) return -1;
  long k = calls++;
  if (record) { armed = false; record->push_back({fn, variants}); armed = true; }
  if (k != target) return -1;
  fired = true;
  fired_at = fn;
  return variant;
}
struct Armed {
  Armed() { calls = 0; fired = false; armed = true; }
  ~Armed() { armed = false; }
};
// live allocations made while armed; open addressing, no allocation of its own
enum { LIVE = 1 << 16 };
static void *live[LIVE];
static long n_live = 0;
static void live_add(void *p) {
  if (!p || !armed) return;
  if (n_live > LIVE / 2) return;
  for (size_t h = (uintptr_t)p / 16 % LIVE;; h = (h + 1) % LIVE) if (!live[h]) { live[h] = p; n_live++; return; }
}
static void live_del(void *p) {
  if (!p || !n_live) return;
  for (size_t h = (uintptr_t)p / 16 % LIVE; live[h]; h = (h + 1) % LIVE)
    if (live[h] == p) {
      size_t hole = h;
      for (size_t j = (h + 1) % LIVE; live[j]; j = (j + 1) % LIVE) {
        size_t want = (uintptr_t)live[j] / 16 % LIVE;
        if ((hole < j) ? (want <= hole || want > j) : (want <= hole && want > j)) { live[hole] = live[j]; hole = j; }
      }
      live[hole] = nullptr;
      n_live--;
      return;
    }
}
static void live_clear() { if (n_live) memset(live, 0, sizeof live); n_live = 0; }
} // namespace faults

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
void *__wrap_malloc(size_t n) {
  if (faults::hit("malloc") >= 0) { errno = ENOMEM; return nullptr; }
  void *p = __real_malloc(n);
  faults::live_add(p);
  return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  if (faults::hit("calloc") >= 0) { errno = ENOMEM; return nullptr; }
  void *p = __real_calloc(a, b);
  faults::live_add(p);
  return p;
}
void *__wrap_realloc(void *o, size_t n) {
  if (faults::hit("realloc") >= 0) { errno = ENOMEM; return nullptr; }
  faults::live_del(o);
  void *p = __real_realloc(o, n);
  faults::live_add(p);
  return p;
}
void __wrap_free(void *p) { faults::live_del(p); __real_free(p); }
char *__wrap_strdup(const char *s) {
  if (faults::hit("strdup") >= 0) { errno = ENOMEM; return nullptr; }
  char *p = __real_strdup(s);
  faults::live_add(p);
  return p;
}
char *__wrap_strndup(const char *s, size_t n) {
  if (faults::hit("strndup") >= 0) { errno = ENOMEM; return nullptr; }
  char *p = __real_strndup(s, n);
  faults::live_add(p);
  return p;
}
}
static void *ossl_malloc(size_t n, const char *, int) { void *p = n ? __real_malloc(n) : nullptr; faults::live_add(p); return p; }
static void *ossl_realloc(void *o, size_t n, const char *, int) {
  faults::live_del(o);
  if (!n) { __real_free(o); return nullptr; }
  void *p = __real_realloc(o, n);
  faults::live_add(p);
  return p;
}
static void ossl_free(void *p, const char *, int) { faults::live_del(p); __real_free(p); }

// failing with F0 or, where two values are documented, F1
#define W1(R, F, P, A, F0)                                                                         \
  extern "C" R __real_##F P;                                                                        \
  extern "C" R __wrap_##F P { guard::touch A; return faults::hit(#F) >= 0 ? (R)(F0) : __real_##F A; }
#define W2(R, F, P, A, F0, F1)                                                                     \
  extern "C" R __real_##F P;                                                                        \
  extern "C" R __wrap_##F P { guard::touch A; int v = faults::hit(#F, 2); return v < 0 ? __real_##F A : v ? (R)(F1) : (R)(F0); }
W1(ASN1_INTEGER *, ASN1_INTEGER_new, (), (), 0)
W1(int, ASN1_INTEGER_set_uint64, (ASN1_INTEGER * a, uint64_t v), (a, v), 0)
W1(BIGNUM *, ASN1_INTEGER_to_BN, (const ASN1_INTEGER *a, BIGNUM *b), (a, b), 0)
W1(int, ASN1_STRING_to_UTF8, (unsigned char **o, const ASN1_STRING *s), (o, s), -1)
W1(int, ASN1_TIME_normalize, (ASN1_TIME * t), (t), 0)
W1(ASN1_TIME *, ASN1_TIME_set, (ASN1_TIME * t, time_t v), (t, v), 0)
W1(ASN1_TIME *, ASN1_TIME_new, (), (), 0)
W1(int, ASN1_TIME_set_string, (ASN1_TIME * t, const char *s), (t, s), 0)
W1(int, ASN1_TIME_set_string_X509, (ASN1_TIME * t, const char *s), (t, s), 0)
W1(BIO *, BIO_new, (const BIO_METHOD *m), (m), 0)
W1(BIO *, BIO_new_ex, (OSSL_LIB_CTX * c, const BIO_METHOD *m), (c, m), 0)
W1(BIO *, BIO_new_file, (const char *f, const char *m), (f, m), 0)
W1(BIO *, BIO_new_mem_buf, (const void *b, int n), (b, n), 0)
W2(int, BIO_write, (BIO * b, const void *d, int n), (b, d, n), -1, 0)
W1(char *, BN_bn2hex, (const BIGNUM *b), (b), 0)
W1(STACK_OF(X509) *, CMS_get0_signers, (CMS_ContentInfo * c), (c), 0)
W1(CMS_ContentInfo *, CMS_sign, (X509 * c, EVP_PKEY *k, STACK_OF(X509) * s, BIO *d, unsigned f), (c, k, s, d, f), 0)
W1(int, CMS_verify, (CMS_ContentInfo * c, STACK_OF(X509) * s, X509_STORE *t, BIO *d, BIO *o, unsigned f), (c, s, t, d, o, f), 0)
W1(EVP_PKEY_CTX *, EVP_PKEY_CTX_new, (EVP_PKEY * k, ENGINE *e), (k, e), 0)
W1(EVP_PKEY_CTX *, EVP_PKEY_CTX_new_id, (int i, ENGINE *e), (i, e), 0)
W2(int, EVP_PKEY_CTX_set_ec_paramgen_curve_nid, (EVP_PKEY_CTX * c, int n), (c, n), 0, -2)
W2(int, EVP_PKEY_CTX_set_rsa_keygen_bits, (EVP_PKEY_CTX * c, int n), (c, n), 0, -2)
W2(int, EVP_PKEY_keygen, (EVP_PKEY_CTX * c, EVP_PKEY **k), (c, k), 0, -1)
W2(int, EVP_PKEY_keygen_init, (EVP_PKEY_CTX * c), (c), 0, -2)
W2(int, EVP_PKEY_paramgen, (EVP_PKEY_CTX * c, EVP_PKEY **k), (c, k), 0, -1)
W2(int, EVP_PKEY_paramgen_init, (EVP_PKEY_CTX * c), (c), 0, -2)
W1(OPENSSL_STACK *, OPENSSL_sk_new_null, (), (), 0)
W1(OPENSSL_STACK *, OPENSSL_sk_new_reserve, (OPENSSL_sk_compfunc c, int n), (c, n), 0)
W1(int, OPENSSL_sk_push, (OPENSSL_STACK * s, const void *d), (s, d), 0)
W1(int, OPENSSL_sk_unshift, (OPENSSL_STACK * s, const void *d), (s, d), 0)
W1(int, OPENSSL_sk_insert, (OPENSSL_STACK * s, const void *d, int w), (s, d, w), 0)
W1(EVP_PKEY *, PEM_read_PrivateKey, (FILE * f, EVP_PKEY **k, pem_password_cb *c, void *u), (f, k, c, u), 0)
W1(X509 *, PEM_read_X509, (FILE * f, X509 **k, pem_password_cb *c, void *u), (f, k, c, u), 0)
W1(int, PEM_write_PrivateKey, (FILE * f, const EVP_PKEY *k, const EVP_CIPHER *e, const unsigned char *s, int n, pem_password_cb *c, void *u), (f, k, e, s, n, c, u), 0)
W1(int, PEM_write_X509, (FILE * f, const X509 *x), (f, x), 0)
W2(int, RAND_bytes, (unsigned char *b, int n), (b, n), 0, -1)
W1(int, SMIME_write_CMS, (BIO * b, CMS_ContentInfo *c, BIO *d, int f), (b, c, d, f), 0)
W1(X509_EXTENSION *, X509V3_EXT_conf_nid, (LHASH_OF(CONF_VALUE) * c, X509V3_CTX *x, int n, const char *v), (c, x, n, v), 0)
W1(int, X509_NAME_add_entry_by_txt, (X509_NAME * n, const char *f, int t, const unsigned char *b, int l, int o, int s), (n, f, t, b, l, o, s), 0)
W1(X509_NAME *, X509_NAME_new, (), (), 0)
W1(X509_NAME *, X509_NAME_dup, (const X509_NAME *n), (n), 0)
W1(int, X509_NAME_print_ex, (BIO * b, const X509_NAME *n, int i, unsigned long f), (b, n, i, f), -1)
W1(int, X509_STORE_add_cert, (X509_STORE * s, X509 *x), (s, x), 0)
W1(int, X509_STORE_add_crl, (X509_STORE * s, X509_CRL *x), (s, x), 0)
W1(STACK_OF(X509) *, X509_STORE_get1_all_certs, (X509_STORE * s), (s), 0)
W1(X509_STORE *, X509_STORE_new, (), (), 0)
W1(int, X509_add_ext, (X509 * x, X509_EXTENSION *e, int l), (x, e, l), 0)
W1(STACK_OF(X509) *, X509_build_chain, (X509 * t, STACK_OF(X509) * c, X509_STORE *s, int w, OSSL_LIB_CTX *l, const char *p), (t, c, s, w, l, p), 0)
W1(EVP_PKEY *, X509_get0_pubkey, (const X509 *x), (x), 0)
W1(EVP_PKEY *, X509_get_pubkey, (X509 * x), (x), 0)
W1(ASN1_TIME *, X509_gmtime_adj, (ASN1_TIME * t, long a), (t, a), 0)
W1(X509 *, X509_new, (), (), 0)
W1(X509 *, X509_dup, (const X509 *x), (x), 0)
W1(int, X509_set1_notAfter, (X509 * x, const ASN1_TIME *t), (x, t), 0)
W1(int, X509_set_issuer_name, (X509 * x, const X509_NAME *n), (x, n), 0)
W1(int, X509_set_subject_name, (X509 * x, const X509_NAME *n), (x, n), 0)
W1(int, X509_set_pubkey, (X509 * x, EVP_PKEY *k), (x, k), 0)
W1(int, X509_set_serialNumber, (X509 * x, ASN1_INTEGER *n), (x, n), 0)
W1(int, X509_set_version, (X509 * x, long v), (x, v), 0)
W1(int, X509_sign, (X509 * x, EVP_PKEY *k, const EVP_MD *m), (x, k, m), 0)
W2(int, X509_verify, (X509 * x, EVP_PKEY *k), (x, k), 0, -1)
W1(EVP_PKEY *, d2i_AutoPrivateKey, (EVP_PKEY * *k, const unsigned char **p, long n), (k, p, n), 0)
W1(EVP_PKEY *, d2i_PrivateKey, (int t, EVP_PKEY **k, const unsigned char **p, long n), (t, k, p, n), 0)
W1(CMS_ContentInfo *, d2i_CMS_ContentInfo, (CMS_ContentInfo * *k, const unsigned char **p, long n), (k, p, n), 0)
W1(X509 *, d2i_X509, (X509 * *k, const unsigned char **p, long n), (k, p, n), 0)
W1(X509_CRL *, d2i_X509_CRL, (X509_CRL * *k, const unsigned char **p, long n), (k, p, n), 0)
W1(int, i2d_CMS_bio, (BIO * b, CMS_ContentInfo *c), (b, c), 0)
W1(int, i2d_PrivateKey, (const EVP_PKEY *k, unsigned char **o), (k, o), -1)
W1(int, i2d_X509, (const X509 *k, unsigned char **o), (k, o), -1)

namespace faults {
struct Outcome { bool ok = false; std::string canon, bad; };
typedef std::function<Outcome()> Op;
static void set_up() { // before any use of OpenSSL
  if (CRYPTO_set_mem_functions(ossl_malloc, ossl_realloc, ossl_free) != 1) vh::harness_error("CRYPTO_set_mem_functions");
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback([] {
    armed = false;
    fprintf(stderr, "FAULT %s\n", doing.c_str());
  });
#endif
}
// every single fault of one operation; returns how many
static long enumerate(const std::string &name, const std::string &info, const Op &op) {
  using namespace vh;
  target = -1;
  doing = name + " without a fault; " + info;
  std::vector<Site> sites;
  op();
  op();
  record = &sites;
  Outcome base = op();
  record = nullptr;
  ERR_clear_error();
  Outcome again = op();
  if (base.ok != again.ok || base.canon != again.canon) { failf("unrepeatable", "%s gives different results: %s / %s; %s", name.c_str(), base.canon.c_str(), again.canon.c_str(), info.c_str()); return 0; }
  if (!base.bad.empty()) failf("result " + name, "%s; %s", base.bad.c_str(), info.c_str());
  count("operations: " + name);
  count(base.ok ? "operations that succeed" : "operations that refuse");
  for (size_t k = 0; k < sites.size(); k++)
    for (int v = 0; v < sites[k].variants; v++) {
      std::string at = fmt("%s with %s failing, call %zu of %zu, way %d", name.c_str(), sites[k].fn, k + 1, sites.size(), v);
      std::string site = name + " " + sites[k].fn;
      auto once = [&] {
        target = (long)k, variant = v;
        doing = at + "; " + info;
        Outcome o = op();
        target = -1;
        ERR_clear_error();
        return o;
      };
      live_clear();
      Outcome o = once();
      if (!fired) { failf("unrepeatable", "%s: the call is not reached; %s", at.c_str(), info.c_str()); continue; }
      if (!o.bad.empty()) failf("half-built " + site, "%s: %s; %s", at.c_str(), o.bad.c_str(), info.c_str());
      if (o.ok && !base.ok) failf("fake-success " + site, "%s: succeeds although it refuses without the fault; %s", at.c_str(), info.c_str());
      else if (o.ok && o.canon != base.canon) failf("wrong-result " + site, "%s: succeeds with %s instead of %s; %s", at.c_str(), o.canon.c_str(), base.canon.c_str(), info.c_str());
      // OpenSSL may keep something once, but not every time
      if (n_live) {
        long a = n_live;
        once();
        long b = n_live;
        once();
        if (b > a && n_live > b) failf("leak " + site, "%s: leaves %ld allocations behind each time; %s", at.c_str(), n_live - b, info.c_str());
      }
      count("faults");
      count(std::string("fault: ") + sites[k].fn);
      count(o.ok ? "survived" : "reported");
      evaluated(mix(hash(name + info) ^ mix(k * 4 + v)), true);
    }
  return (long)sites.size();
}
} // namespace faults
