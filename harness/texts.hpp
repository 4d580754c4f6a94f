// Normal forms of what the library makes, without what is random or depends on
// the moment.
#pragma once
#include "apiworld.hpp"
namespace texts {
using namespace api;
static std::string fp(const Bytes &b) { return fmt("%zu:%016lx", b.size(), (unsigned long)hash(b)); }
static std::string fps(std::vector<Bytes> v) { std::string s; for (auto &x : sorted(v)) s += fp(x) + " "; return s; }
// what a signed message says: content, signers and certificates, not the signature
static std::string cms_text(const Bytes &der) {
  Opened o = cms_open(der);
  if (!o.ok) return "an invalid message";
  ref::VoucherModel m;
  std::string why;
  std::string c = ref::judge(o.content, m, &why) == 1 ? m.text() : fp(o.content);
  return c + " signed " + fps(o.signers) + "with " + fps(o.embedded);
}
static std::string name_text(const X509_NAME *n) { return fp(der_of(n, [](const X509_NAME *y, unsigned char **p) { return i2d_X509_NAME(y, p); })); }
static std::string cert_text(const Bytes &der, EVP_PKEY *signer) {
  X x(der);
  if (!x.x) return "no certificate";
  char *s = i2s_ASN1_INTEGER(nullptr, X509_get0_serialNumber(x));
  std::string t = name_text(X509_get_subject_name(x)) + "/" + name_text(X509_get_issuer_name(x)) + "/" + s + "/" + std::to_string(X509_get_ext_count(x)) + "/" + std::to_string(X509_get_version(x));
  OPENSSL_free(s);
  const ASN1_TIME *na = X509_get0_notAfter(x);
  int d = 0, sec = 0;
  ASN1_TIME_diff(&d, &sec, X509_get0_notBefore(x), na);
  // the two ends of the validity are taken at slightly different times
  t += "/" + std::to_string((d * 86400L + sec + 20) / 100);
  t += X509_verify(x, signer ? signer : X509_get0_pubkey(x)) == 1 ? "/signed" : "/UNSIGNED";
  ERR_clear_error();
  return t;
}
static std::string key_text(const Bytes &der) {
  const unsigned char *p = (const unsigned char *)der.data();
  EVP_PKEY *k = d2i_AutoPrivateKey(nullptr, &p, (long)der.size());
  std::string t = "no key";
  if (k) {
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k, nullptr);
    t = fmt("%s key of %d bits, check %d", EVP_PKEY_get0_type_name(k), EVP_PKEY_get_bits(k), EVP_PKEY_check(c));
    EVP_PKEY_CTX_free(c);
  }
  EVP_PKEY_free(k);
  ERR_clear_error();
  return t;
}
static std::string list_text(const BinaryArrayList *l) { std::string s; for (auto &x : str_list(l)) s += fp(x) + " "; return l ? s : "none"; }
static std::string kv_text(const keyvalue_list *l) {
  std::string s;
  for (const dl_list *p = l->list.next; p != &l->list; p = p->next) { auto *e = (const keyvalue_list *)p->el; s += std::string(e->key ? e->key : "NULL") + "=" + (e->value ? e->value : "NULL") + " "; }
  return s;
}
static ref::VoucherModel some_model(Rng &r) {
  ref::VoucherModel m;
  for (int a = 0; a < ref::NATTR; a++) {
    if (!r.chance(2, 3)) continue;
    if (ref::is_time(a)) m.time[a] = ref::rand_date(r);
    else if (ref::is_array(a)) m.array[a] = r.bytes(r.range(1, 300));
    else if (a == ATTR_SERIAL_NUMBER) m.serial = plain_serial(r);
    else if (a == ATTR_ASSERTION) m.assertion = (int)r.range(1, 3);
    else m.revcheck = r.chance(1, 2);
  }
  return m;
}
static struct Voucher *voucher_of(const ref::VoucherModel &m) {
  struct Voucher *v = init_voucher();
  if (!v || !put(v, m)) harness_error("voucher");
  return v;
}
} // namespace texts
