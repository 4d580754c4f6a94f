// Independent PKI material for the monitors: keys, certificates with chosen
// contents and signatures (also wrong ones), CMS messages made and read with
// the OpenSSL API directly, and ground truth about chains.
#pragma once
#include "vh.hpp"
#include <openssl/cms.h>
#include <openssl/ec.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <ctime>

namespace pki {
using vh::Bytes;
using vh::Rng;

template <class T, class F> static inline Bytes der_of(const T *x, F i2d) {
  unsigned char *p = nullptr;
  int n = i2d(x, &p);
  if (n <= 0) vh::harness_error("i2d");
  Bytes b((char *)p, n);
  OPENSSL_free(p);
  return b;
}

struct Key {
  EVP_PKEY *k = nullptr;
  bool rsa = false;
  Bytes der; // private key
};
static inline Bytes der_key(EVP_PKEY *k) { return der_of(k, [](const EVP_PKEY *x, unsigned char **p) { return i2d_PrivateKey(x, p); }); }
static inline Key make_key(bool rsa) {
  Key k;
  k.rsa = rsa;
  k.k = rsa ? EVP_RSA_gen(2048) : EVP_EC_gen("P-256");
  if (!k.k) vh::harness_error("key generation");
  k.der = der_key(k.k);
  return k;
}
// pool: indexes 0..N_EC-1 are EC keys, then N_RSA RSA keys; made on demand
enum { N_EC = 14, N_RSA = 3 };
static inline const Key &key(int i) {
  static Key pool[N_EC + N_RSA];
  static std::mutex mu;
  std::lock_guard<std::mutex> g(mu);
  if (i < 0 || i >= N_EC + N_RSA) vh::harness_error("key index");
  if (!pool[i].k) pool[i] = make_key(i >= N_EC);
  return pool[i];
}

typedef std::vector<std::pair<Bytes, Bytes>> Name;
static inline Name cn(const Bytes &c) { return {{"CN", c}}; }

struct Spec {
  Name subject, issuer;
  uint64_t serial = 1;
  long nb = -3600, na = 86400L * 365;
  int pub = 0, sig = 0; // key indexes: subject's, signer's
  Bytes bc;             // basic constraints text, "" for none
  Bytes ku, eku;
  bool skid = false, akid_of_sig = false;
};
static inline void add_ext(X509 *x, X509 *issuer, int nid, const Bytes &v) {
  X509V3_CTX c;
  X509V3_set_ctx_nodb(&c);
  X509V3_set_ctx(&c, issuer ? issuer : x, x, nullptr, nullptr, 0);
  X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, &c, nid, v.c_str());
  if (!e || !X509_add_ext(x, e, -1)) vh::harness_error("extension %s", v.c_str());
  X509_EXTENSION_free(e);
}
static inline X509_NAME *to_name(const Name &n) {
  X509_NAME *x = X509_NAME_new();
  for (auto &p : n)
    if (!X509_NAME_add_entry_by_txt(x, p.first.c_str(), MBSTRING_UTF8, (const unsigned char *)p.second.data(), (int)p.second.size(), -1, 0))
      vh::harness_error("name %s=%s", p.first.c_str(), p.second.c_str());
  return x;
}
static inline X509 *make_x509(const Spec &s) {
  X509 *x = X509_new();
  X509_set_version(x, 2);
  ASN1_INTEGER *sn = ASN1_INTEGER_new();
  ASN1_INTEGER_set_uint64(sn, s.serial);
  X509_set_serialNumber(x, sn);
  ASN1_INTEGER_free(sn);
  X509_gmtime_adj(X509_getm_notBefore(x), s.nb);
  X509_gmtime_adj(X509_getm_notAfter(x), s.na);
  X509_NAME *n = to_name(s.subject);
  X509_set_subject_name(x, n);
  X509_NAME_free(n);
  n = to_name(s.issuer);
  X509_set_issuer_name(x, n);
  X509_NAME_free(n);
  X509_set_pubkey(x, key(s.pub).k);
  if (!s.bc.empty()) add_ext(x, nullptr, NID_basic_constraints, s.bc);
  if (!s.ku.empty()) add_ext(x, nullptr, NID_key_usage, s.ku);
  if (!s.eku.empty()) add_ext(x, nullptr, NID_ext_key_usage, s.eku);
  if (s.skid) add_ext(x, nullptr, NID_subject_key_identifier, "hash");
  if (!X509_sign(x, key(s.sig).k, EVP_sha256())) vh::harness_error("X509_sign");
  return x;
}
static inline Bytes der_cert(const X509 *x) { return der_of(x, [](const X509 *y, unsigned char **p) { return i2d_X509(y, p); }); }
static inline Bytes make_cert(const Spec &s) {
  X509 *x = make_x509(s);
  Bytes b = der_cert(x);
  X509_free(x);
  return b;
}
struct X {
  X509 *x = nullptr;
  explicit X(const Bytes &d) {
    const unsigned char *p = (const unsigned char *)d.data();
    x = d2i_X509(nullptr, &p, (long)d.size());
  }
  X(const X &) = delete;
  ~X() { X509_free(x); }
  operator X509 *() const { return x; }
};
static inline bool same_key(const Bytes &a, const Bytes &b) {
  X x(a), y(b);
  return x.x && y.x && EVP_PKEY_eq(X509_get0_pubkey(x), X509_get0_pubkey(y)) == 1;
}
static inline bool signed_by(const Bytes &child, const Bytes &parent) { // a real signature under the parent's key, parent named as issuer
  X c(child), p(parent);
  if (!c.x || !p.x) return false;
  EVP_PKEY *k = X509_get0_pubkey(p);
  bool ok = k && X509_NAME_cmp(X509_get_issuer_name(c), X509_get_subject_name(p)) == 0 && X509_verify(c, k) == 1;
  ERR_clear_error();
  return ok;
}
static inline bool in_time(const Bytes &d) {
  X c(d);
  return c.x && X509_cmp_current_time(X509_get0_notBefore(c)) < 0 && X509_cmp_current_time(X509_get0_notAfter(c)) > 0;
}
// is there any path of real signatures from c through pool to an element of anchors?
static inline bool chain_exists(const Bytes &c, const std::vector<Bytes> &pool, const std::vector<Bytes> &anchors, bool timed = false) {
  std::vector<Bytes> todo{c};
  std::set<Bytes> seen{c};
  while (!todo.empty()) {
    Bytes cur = todo.back();
    todo.pop_back();
    if (timed && !in_time(cur)) continue;
    for (auto &a : anchors) if (a == cur) return true;
    for (auto *v : {&anchors, &pool})
      for (auto &p : *v)
        if (!seen.count(p) && signed_by(cur, p)) { seen.insert(p); todo.push_back(p); }
  }
  return false;
}

// ---- CMS -------------------------------------------------------------------
struct Cms {
  CMS_ContentInfo *c = nullptr;
  explicit Cms(CMS_ContentInfo *x) : c(x) {}
  explicit Cms(const Bytes &d) {
    const unsigned char *p = (const unsigned char *)d.data();
    c = d2i_CMS_ContentInfo(nullptr, &p, (long)d.size());
  }
  Cms(const Cms &) = delete;
  ~Cms() { CMS_ContentInfo_free(c); }
};
static inline Bytes der_cms(CMS_ContentInfo *c) { return der_of(c, [](const CMS_ContentInfo *y, unsigned char **p) { return i2d_CMS_ContentInfo(y, p); }); }
struct Signer { Bytes cert; int key; unsigned flags = 0; };
static inline STACK_OF(X509) *stack_of(const std::vector<Bytes> &v) {
  STACK_OF(X509) *s = sk_X509_new_null();
  for (auto &d : v) {
    const unsigned char *p = (const unsigned char *)d.data();
    X509 *x = d2i_X509(nullptr, &p, (long)d.size());
    if (x) sk_X509_push(s, x);
  }
  return s;
}
// Signs content. A signer whose certificate does not match its key is signed
// for with a stand-in certificate that is then replaced (see forge_signer).
static inline Bytes cms_sign(const Bytes &content, const std::vector<Signer> &signers, const std::vector<Bytes> &extra = {}, unsigned flags = CMS_BINARY) {
  BIO *b = BIO_new_mem_buf(content.data(), (int)content.size());
  CMS_ContentInfo *c = CMS_sign(nullptr, nullptr, nullptr, b, flags | CMS_PARTIAL);
  if (!c) vh::harness_error("CMS_sign");
  for (auto &s : signers) {
    X x(s.cert);
    if (!CMS_add1_signer(c, x, key(s.key).k, nullptr, s.flags | flags)) vh::harness_error("CMS_add1_signer: %s", ERR_error_string(ERR_get_error(), nullptr));
  }
  for (auto &e : extra) {
    X x(e);
    if (x.x) CMS_add1_cert(c, x);
  }
  if (!CMS_final(c, b, nullptr, flags)) vh::harness_error("CMS_final");
  Bytes r = der_cms(c);
  CMS_ContentInfo_free(c);
  BIO_free(b);
  ERR_clear_error();
  return r;
}
struct Opened {
  bool ok = false; // a signed message all of whose signatures verify under the certificates found
  Bytes content;
  std::vector<Bytes> signers, embedded;
};
static inline Opened cms_open(const Bytes &der, const std::vector<Bytes> &extra = {}) {
  Opened o;
  Cms c(der);
  if (!c.c) { ERR_clear_error(); return o; }
  BIO *out = BIO_new(BIO_s_mem());
  STACK_OF(X509) *ex = stack_of(extra);
  if (OBJ_obj2nid(CMS_get0_type(c.c)) == NID_pkcs7_signed &&
      CMS_verify(c.c, ex, nullptr, nullptr, out, CMS_NO_SIGNER_CERT_VERIFY | CMS_BINARY) == 1) {
    o.ok = true;
    BUF_MEM *m = nullptr;
    BIO_get_mem_ptr(out, &m);
    if (m->length) o.content = Bytes(m->data, m->length);
    STACK_OF(X509) *s = CMS_get0_signers(c.c);
    for (int i = 0; s && i < sk_X509_num(s); i++) o.signers.push_back(der_cert(sk_X509_value(s, i)));
    sk_X509_free(s);
    STACK_OF(X509) *e = CMS_get1_certs(c.c);
    for (int i = 0; e && i < sk_X509_num(e); i++) o.embedded.push_back(der_cert(sk_X509_value(e, i)));
    sk_X509_pop_free(e, X509_free);
  }
  sk_X509_pop_free(ex, X509_free);
  BIO_free(out);
  ERR_clear_error();
  return o;
}
static inline Bytes replace(Bytes s, const Bytes &a, const Bytes &b) { // equal lengths only: keeps the DER lengths right
  if (a.size() != b.size()) return Bytes();
  size_t p = s.find(a);
  if (p == Bytes::npos) return Bytes();
  s.replace(p, a.size(), b);
  return s;
}
static inline Bytes signature_of(const Bytes &cms) {
  Cms c(cms);
  STACK_OF(CMS_SignerInfo) *si = CMS_get0_SignerInfos(c.c);
  if (!si || sk_CMS_SignerInfo_num(si) < 1) return Bytes();
  ASN1_OCTET_STRING *s = CMS_SignerInfo_get0_signature(sk_CMS_SignerInfo_value(si, 0));
  return Bytes((const char *)ASN1_STRING_get0_data(s), ASN1_STRING_length(s));
}
// puts the signature of one message into another, fixing lengths
static inline Bytes with_signature(const Bytes &cms, const Bytes &sig) {
  Cms c(cms);
  STACK_OF(CMS_SignerInfo) *si = CMS_get0_SignerInfos(c.c);
  if (!si || sk_CMS_SignerInfo_num(si) < 1) return Bytes();
  ASN1_OCTET_STRING *s = CMS_SignerInfo_get0_signature(sk_CMS_SignerInfo_value(si, 0));
  ASN1_STRING_set(s, sig.data(), (int)sig.size());
  return der_cms(c.c);
}
static inline Bytes with_content(const Bytes &cms, const Bytes &content) {
  Cms c(cms);
  ASN1_OCTET_STRING **o = CMS_get0_content(c.c);
  if (!o || !*o) return Bytes();
  ASN1_STRING_set(*o, content.data(), (int)content.size());
  return der_cms(c.c);
}

// ---- standard hierarchies ---------------------------------------------------
struct Node { Bytes cert; int key = 0; Name name; Bytes parent; };
static inline Node root(const Name &name, int k, Rng &r) {
  Node n;
  n.key = k;
  n.name = name;
  Spec s;
  s.subject = s.issuer = n.name;
  s.pub = s.sig = k;
  s.serial = r.next() >> 1;
  s.bc = "critical,CA:TRUE";
  n.cert = make_cert(s);
  return n;
}
static inline Node root(const Bytes &name, int k, Rng &r) { return root(cn(name), k, r); }
static inline Node child(const Node &p, const Name &name, int k, bool ca, Rng &r) {
  Node n;
  n.key = k;
  n.name = name;
  n.parent = p.cert;
  Spec s;
  s.subject = name;
  s.issuer = p.name;
  s.pub = k;
  s.sig = p.key;
  s.serial = r.next() >> 1;
  s.bc = ca ? "critical,CA:TRUE" : "CA:FALSE";
  n.cert = make_cert(s);
  return n;
}
} // namespace pki
