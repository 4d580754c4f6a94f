// shared by the demonstrations: certificates made with the library itself
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include <vector>
#include <sys/types.h>
extern "C" {
#include "utils/log.h"
#include "utils/os.h"
#include "voucher/array.h"
#include "voucher/crypto.h"
#include "voucher/keyvalue.h"
#include "voucher/serialize.h"
#include "voucher/voucher.h"
}
typedef std::string S;
static inline void need(bool b, const char *w) { if (!b) { printf("demo setup failed: %s\n", w); exit(3); } }
struct KC { S key, cert; BinaryArray K() const { return {(uint8_t *)key.data(), key.size()}; } BinaryArray C() const { return {(uint8_t *)cert.data(), cert.size()}; } };
static inline KC mk(const S &cn, uint64_t serial, const KC *ca = nullptr, const char *bc = "CA:false", const S &sn = "") {
  KC r;
  uint8_t *k = nullptr; ssize_t n = crypto_generate_eckey(&k); need(n > 0, "key"); r.key.assign((char *)k, n); free(k);
  crypto_cert_meta m = {}; m.serial_number = serial; m.not_before = 0; m.not_after = 86400 * 30;
  m.issuer = init_keyvalue_list(); m.subject = init_keyvalue_list();
  for (auto l : {m.issuer, m.subject}) { push_keyvalue_list(l, (char *)"C", (char *)"IE"); push_keyvalue_list(l, (char *)"CN", (char *)cn.c_str()); if (!sn.empty()) push_keyvalue_list(l, (char *)"serialNumber", (char *)sn.c_str()); }
  m.basic_constraints = (char *)bc;
  uint8_t *c = nullptr; n = crypto_generate_eccert(&m, (uint8_t *)r.key.data(), r.key.size(), &c); need(n > 0, "cert");
  if (ca) { n = crypto_sign_cert((uint8_t *)ca->key.data(), ca->key.size(), (uint8_t *)ca->cert.data(), ca->cert.size(), n, &c); need(n > 0, "sign cert"); }
  r.cert.assign((char *)c, n); free(c); free_keyvalue_list(m.issuer); free_keyvalue_list(m.subject);
  return r;
}
static inline BinaryArrayList *lst(const std::vector<S> &v) { auto l = init_array_list(); for (auto &x : v) need(push_array_list(l, (uint8_t *)x.data(), x.size(), 0) == 0, "push"); return l; }
static inline BinaryArray ba(const S &s) { return {(uint8_t *)s.data(), s.size()}; }
static inline S str(const BinaryArray *a) { return a ? S((char *)a->array, a->length) : S(); }
struct tm the_time(int y = 130);
inline struct tm the_time(int y) { struct tm t = {}; t.tm_year = y; t.tm_mday = 1; return t; }
