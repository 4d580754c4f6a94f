// Linked into every build with the address sanitizer (lib/build.py); the
// definitions are weak, fault injection has its own for some of them.
#include "guard.hpp"
#include <openssl/bio.h>
#include <openssl/bn.h>
#include <openssl/cms.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#define G(R, F, P, A)                                                                              \
  extern "C" R __real_##F P;                                                                       \
  extern "C" __attribute__((weak)) R __wrap_##F P { guard::touch A; return __real_##F A; }
#define GR(R, F, P, A, D, N)                                                                       \
  extern "C" R __real_##F P;                                                                       \
  extern "C" __attribute__((weak)) R __wrap_##F P { guard::touch A; guard::region(D, N); return __real_##F A; }
G(void, ASN1_INTEGER_free, (ASN1_INTEGER * a), (a))
G(int, ASN1_INTEGER_get_uint64, (uint64_t * v, const ASN1_INTEGER *a), (v, a))
G(int, ASN1_INTEGER_set_uint64, (ASN1_INTEGER * a, uint64_t v), (a, v))
G(BIGNUM *, ASN1_INTEGER_to_BN, (const ASN1_INTEGER *a, BIGNUM *b), (a, b))
G(void, ASN1_STRING_free, (ASN1_STRING * a), (a))
G(int, ASN1_STRING_to_UTF8, (unsigned char **o, const ASN1_STRING *s), (o, s))
G(void, ASN1_TIME_free, (ASN1_TIME * a), (a))
G(int, ASN1_TIME_normalize, (ASN1_TIME * t), (t))
G(long, BIO_ctrl, (BIO * b, int c, long l, void *p), (b, c, l, p))
G(int, BIO_free, (BIO * b), (b))
G(void, BIO_free_all, (BIO * b), (b))
GR(BIO *, BIO_new_mem_buf, (const void *d, int n), (d, n), d, n < 0 ? 0 : n)
GR(int, BIO_write, (BIO * b, const void *d, int n), (b, d, n), d, n < 0 ? 0 : n)
G(char *, BN_bn2hex, (const BIGNUM *b), (b))
G(void, BN_free, (BIGNUM * b), (b))
G(void, CMS_ContentInfo_free, (CMS_ContentInfo * c), (c))
G(STACK_OF(X509) *, CMS_get0_signers, (CMS_ContentInfo * c), (c))
G(STACK_OF(X509) *, CMS_get1_certs, (CMS_ContentInfo * c), (c))
G(CMS_ContentInfo *, CMS_sign, (X509 * c, EVP_PKEY *k, STACK_OF(X509) * s, BIO *d, unsigned f), (c, k, s, d, f))
G(int, CMS_verify, (CMS_ContentInfo * c, STACK_OF(X509) * s, X509_STORE *t, BIO *d, BIO *o, unsigned f), (c, s, t, d, o, f))
G(void, EVP_PKEY_CTX_free, (EVP_PKEY_CTX * c), (c))
G(void, EVP_PKEY_free, (EVP_PKEY * k), (k))
G(int, EVP_PKEY_up_ref, (EVP_PKEY * k), (k))
G(EVP_PKEY_CTX *, EVP_PKEY_CTX_new, (EVP_PKEY * k, ENGINE *e), (k, e))
G(int, EVP_PKEY_keygen, (EVP_PKEY_CTX * c, EVP_PKEY **k), (c, k))
G(void, OPENSSL_sk_free, (OPENSSL_STACK * s), (s))
G(int, OPENSSL_sk_num, (const OPENSSL_STACK *s), (s))
G(void, OPENSSL_sk_pop_free, (OPENSSL_STACK * s, OPENSSL_sk_freefunc f), (s, f))
G(int, OPENSSL_sk_push, (OPENSSL_STACK * s, const void *d), (s, d))
G(void *, OPENSSL_sk_value, (const OPENSSL_STACK *s, int i), (s, i))
G(int, PEM_write_PrivateKey, (FILE * f, const EVP_PKEY *k, const EVP_CIPHER *e, const unsigned char *s, int n, pem_password_cb *c, void *u), (f, k, e, s, n, c, u))
G(int, PEM_write_X509, (FILE * f, const X509 *x), (f, x))
GR(int, RAND_bytes, (unsigned char *b, int n), (b, n), b, n < 0 ? 0 : n)
G(int, SMIME_write_CMS, (BIO * b, CMS_ContentInfo *c, BIO *d, int f), (b, c, d, f))
G(void, X509_CRL_free, (X509_CRL * c), (c))
G(void, X509_EXTENSION_free, (X509_EXTENSION * e), (e))
G(void, X509_NAME_free, (X509_NAME * n), (n))
G(ASN1_STRING *, X509_NAME_ENTRY_get_data, (const X509_NAME_ENTRY *e), (e))
G(int, X509_NAME_add_entry_by_txt, (X509_NAME * n, const char *f, int t, const unsigned char *b, int l, int o, int s), (n, f, t, b, l, o, s))
G(X509_NAME_ENTRY *, X509_NAME_get_entry, (const X509_NAME *n, int i), (n, i))
G(int, X509_NAME_get_index_by_NID, (const X509_NAME *n, int i, int l), (n, i, l))
G(int, X509_NAME_print_ex, (BIO * b, const X509_NAME *n, int i, unsigned long f), (b, n, i, f))
G(int, X509_STORE_add_cert, (X509_STORE * s, X509 *x), (s, x))
G(int, X509_STORE_add_crl, (X509_STORE * s, X509_CRL *x), (s, x))
G(void, X509_STORE_free, (X509_STORE * s), (s))
G(STACK_OF(X509) *, X509_STORE_get1_all_certs, (X509_STORE * s), (s))
G(int, X509_add_ext, (X509 * x, X509_EXTENSION *e, int l), (x, e, l))
G(STACK_OF(X509) *, X509_build_chain, (X509 * t, STACK_OF(X509) * c, X509_STORE *s, int w, OSSL_LIB_CTX *l, const char *p), (t, c, s, w, l, p))
G(int, X509_cmp, (const X509 *a, const X509 *b), (a, b))
G(X509 *, X509_dup, (const X509 *x), (x))
G(void, X509_free, (X509 * x), (x))
G(int, X509_up_ref, (X509 * x), (x))
G(EVP_PKEY *, X509_get0_pubkey, (const X509 *x), (x))
G(const ASN1_INTEGER *, X509_get0_serialNumber, (const X509 *x), (x))
G(ASN1_INTEGER *, X509_get_serialNumber, (X509 * x), (x))
G(X509_NAME *, X509_get_issuer_name, (const X509 *x), (x))
G(X509_NAME *, X509_get_subject_name, (const X509 *x), (x))
G(ASN1_TIME *, X509_getm_notAfter, (const X509 *x), (x))
G(ASN1_TIME *, X509_getm_notBefore, (const X509 *x), (x))
G(int, X509_set1_notAfter, (X509 * x, const ASN1_TIME *t), (x, t))
G(int, X509_set_issuer_name, (X509 * x, const X509_NAME *n), (x, n))
G(int, X509_set_subject_name, (X509 * x, const X509_NAME *n), (x, n))
G(int, X509_set_pubkey, (X509 * x, EVP_PKEY *k), (x, k))
G(int, X509_set_serialNumber, (X509 * x, ASN1_INTEGER *n), (x, n))
G(int, X509_set_version, (X509 * x, long v), (x, v))
G(int, X509_sign, (X509 * x, EVP_PKEY *k, const EVP_MD *m), (x, k, m))
G(int, X509_verify, (X509 * x, EVP_PKEY *k), (x, k))
GR(EVP_PKEY *, d2i_AutoPrivateKey, (EVP_PKEY * *k, const unsigned char **p, long n), (k, p, n), p ? *p : nullptr, n < 0 ? 0 : n)
GR(EVP_PKEY *, d2i_PrivateKey, (int t, EVP_PKEY **k, const unsigned char **p, long n), (t, k, p, n), p ? *p : nullptr, n < 0 ? 0 : n)
GR(CMS_ContentInfo *, d2i_CMS_ContentInfo, (CMS_ContentInfo * *k, const unsigned char **p, long n), (k, p, n), p ? *p : nullptr, n < 0 ? 0 : n)
GR(X509 *, d2i_X509, (X509 * *k, const unsigned char **p, long n), (k, p, n), p ? *p : nullptr, n < 0 ? 0 : n)
GR(X509_CRL *, d2i_X509_CRL, (X509_CRL * *k, const unsigned char **p, long n), (k, p, n), p ? *p : nullptr, n < 0 ? 0 : n)
G(int, i2d_CMS_bio, (BIO * b, CMS_ContentInfo *c), (b, c))
G(int, i2d_PrivateKey, (const EVP_PKEY *k, unsigned char **o), (k, o))
G(int, i2d_X509, (const X509 *k, unsigned char **o), (k, o))
