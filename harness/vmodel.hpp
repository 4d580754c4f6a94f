// Moves voucher models into and out of the repository's voucher objects.
#pragma once
#include "brski_c.hpp"
#include "oracle.hpp"
namespace vh {
using ref::VoucherModel;
static inline VoucherAttributes A(int a) { return (VoucherAttributes)a; }
static inline bool put(struct Voucher *v, const VoucherModel &m) {
  for (auto &t : m.time) {
    struct tm tm = t.second.tm();
    if (set_attr_time_voucher(v, A(t.first), &tm) < 0) return false;
  }
  for (auto &t : m.array) {
    Buf b(t.second);
    if (set_attr_array_voucher(v, A(t.first), &b.a) < 0) return false;
  }
  if (m.serial && set_attr_str_voucher(v, ATTR_SERIAL_NUMBER, m.serial->c_str()) < 0) return false;
  if (m.assertion && set_attr_enum_voucher(v, ATTR_ASSERTION, m.assertion) < 0) return false;
  return set_attr_bool_voucher(v, ATTR_DOMAIN_CERT_REVOCATION_CHECKS, m.revcheck) >= 0;
}
// reads every attribute through the public getters
static inline bool get(struct Voucher *v, VoucherModel &m, std::string &err) {
  for (int a = 0; a < ref::NATTR; a++) {
    bool ne = is_attr_voucher_nonempty(v, A(a));
    if (ref::is_time(a)) {
      const struct tm *t = get_attr_time_voucher(v, A(a));
      if (!t) { err = "time getter gives NULL"; return false; }
      if (ne) m.time[a] = ref::Date::from(*t);
    } else if (ref::is_array(a)) {
      const BinaryArray *b = get_attr_array_voucher(v, A(a));
      if (!b) { err = "array getter gives NULL"; return false; }
      if (ne != (b->array != nullptr)) { err = "nonempty predicate disagrees with array getter"; return false; }
      if (ne) m.array[a] = str(b);
    } else if (a == ATTR_SERIAL_NUMBER) {
      const char *const *s = get_attr_str_voucher(v, ATTR_SERIAL_NUMBER);
      if (!s) { err = "string getter gives NULL"; return false; }
      if (ne != (*s != nullptr)) { err = "nonempty predicate disagrees with string getter"; return false; }
      if (*s) m.serial = Bytes(*s);
    } else if (a == ATTR_ASSERTION) {
      const int *e = get_attr_enum_voucher(v, ATTR_ASSERTION);
      if (!e) { err = "enum getter gives NULL"; return false; }
      if (ne != (*e != 0)) { err = "nonempty predicate disagrees with enum getter"; return false; }
      m.assertion = *e;
    } else {
      const bool *b = get_attr_bool_voucher(v, ATTR_DOMAIN_CERT_REVOCATION_CHECKS);
      if (!b) { err = "bool getter gives NULL"; return false; }
      m.revcheck = *b;
    }
  }
  return true;
}
static inline void quiet() { log_set_quiet(true); }
} // namespace vh
