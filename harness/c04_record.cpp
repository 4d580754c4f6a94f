// C04: histories of operations on vouchers against a record of attributes.
#include "vmodel.hpp"
using namespace vh;
using namespace ref;

struct Obj { struct Voucher *v; VoucherModel m; };

static void compare(Obj &o, const std::string &hist) {
  VoucherModel g;
  std::string err;
  if (!get(o.v, g, err)) { fail("getter", err + " after " + hist); return; }
  if (!(g == o.m)) fail("state-differs", "voucher is " + g.text() + ", model " + o.m.text() + " after " + hist);
  // getters of the wrong kind give nothing
}
static void wrong_getters(Obj &o) {
  for (int a = -1; a < NATTR + 2; a++) {
    bool t = a >= 0 && a < NATTR && is_time(a), arr = a >= 0 && a < NATTR && is_array(a);
    if (!t && get_attr_time_voucher(o.v, A(a))) failf("wrong-kind-getter", "time getter for attribute %d", a);
    if (!arr && get_attr_array_voucher(o.v, A(a))) failf("wrong-kind-getter", "array getter for attribute %d", a);
    if (a != A_SERIAL && get_attr_str_voucher(o.v, A(a))) failf("wrong-kind-getter", "string getter for attribute %d", a);
    if (a != A_ASSERTION && get_attr_enum_voucher(o.v, A(a))) failf("wrong-kind-getter", "enum getter for attribute %d", a);
    if (a != A_REVCHECK && get_attr_bool_voucher(o.v, A(a))) failf("wrong-kind-getter", "bool getter for attribute %d", a);
    if ((a < 0 || a >= NATTR) && is_attr_voucher_nonempty(o.v, A(a))) failf("wrong-kind-getter", "attribute %d is nonempty", a);
  }
}

static void one(Rng &r, long i) {
  std::vector<Obj> os(2);
  for (auto &o : os) if (!(o.v = init_voucher())) harness_error("init_voucher");
  std::string hist;
  uint64_t h = 1;
  int steps = (int)r.range(3, 40), overwrites = 0, refused = 0;
  for (int s = 0; s < steps; s++) {
    Obj &o = os[r.below(2)];
    int op = (int)r.below(13), a = (int)r.below(NATTR), rc = 0;
    bool want_ok = true;
    std::string d;
    bool variadic = r.chance(1, 3);
    switch (op) {
    case 0: { // time
      a = std::vector<int>{A_CREATED, A_EXPIRES, A_RENEWAL}[r.below(3)];
      Date t = rand_date(r);
      struct tm *tm = (struct tm *)malloc(sizeof *tm);
      *tm = t.tm();
      rc = variadic ? set_attr_voucher(o.v, A(a), tm) : set_attr_time_voucher(o.v, A(a), tm);
      memset(tm, 0x41, sizeof *tm);
      free(tm);
      overwrites += (int)o.m.time.count(a);
      o.m.time[a] = t;
      d = fmt("set %s %s", ATTR_NAMES[a], t.text().c_str());
      break;
    }
    case 1: case 2: { // array
      a = std::vector<int>{A_ISSUER, A_PINNED, A_NONCE, A_PRIOR, A_PROXIMITY}[r.below(5)];
      Bytes b = rand_blob(r);
      Buf x(b);
      rc = variadic ? set_attr_voucher(o.v, A(a), &x.a) : set_attr_array_voucher(o.v, A(a), &x.a);
      memset(x.a.array, 0x41, x.a.length);
      overwrites += (int)o.m.array.count(a);
      o.m.array[a] = b;
      d = fmt("set %s %zu bytes", ATTR_NAMES[a], b.size());
      break;
    }
    case 3: { // string
      Bytes b = rand_serial(r);
      a = A_SERIAL;
      if (b.empty() && r.chance(1, 2)) b = "x";
      char *x = strdup(b.c_str());
      rc = variadic ? set_attr_voucher(o.v, A(a), x) : set_attr_str_voucher(o.v, A(a), x);
      memset(x, 'Z', b.size());
      free(x);
      overwrites += o.m.serial ? 1 : 0;
      o.m.serial = b;
      d = "set serial " + printable(b, 40);
      break;
    }
    case 4: { // enum
      int e = (int)r.range(1, 3);
      a = A_ASSERTION;
      rc = variadic ? set_attr_voucher(o.v, A(a), e) : set_attr_enum_voucher(o.v, A(a), e);
      o.m.assertion = e;
      d = fmt("set assertion %d", e);
      break;
    }
    case 5: { // bool
      bool b = r.chance(1, 2);
      a = A_REVCHECK;
      rc = variadic ? set_attr_voucher(o.v, A(a), (int)b) : set_attr_bool_voucher(o.v, A(a), b);
      o.m.revcheck = b;
      d = fmt("set revcheck %d", b);
      break;
    }
    case 6: { // clear
      rc = clear_attr_voucher(o.v, A(a));
      o.m.time.erase(a);
      o.m.array.erase(a);
      if (a == A_SERIAL) o.m.serial.reset();
      if (a == A_ASSERTION) o.m.assertion = 0;
      if (a == A_REVCHECK) o.m.revcheck = false;
      d = fmt("clear %s", ATTR_NAMES[a]);
      break;
    }
    case 7: { // wrong kind
      want_ok = false;
      int kind = (int)r.below(5);
      int bad = r.chance(1, 4) ? (r.chance(1, 2) ? -1 : (int)r.range(NATTR, NATTR + 50)) : a;
      struct tm tm = rand_date(r).tm();
      Buf x(Bytes("abc"));
      switch (kind) {
      case 0: if (bad >= 0 && bad < NATTR && is_time(bad)) bad = A_NONCE; rc = set_attr_time_voucher(o.v, A(bad), &tm); break;
      case 1: if (bad >= 0 && bad < NATTR && is_array(bad)) bad = A_SERIAL; rc = set_attr_array_voucher(o.v, A(bad), &x.a); break;
      case 2: if (bad == A_SERIAL) bad = A_NONCE; rc = set_attr_str_voucher(o.v, A(bad), "abc"); break;
      case 3: if (bad == A_ASSERTION) bad = A_REVCHECK; rc = set_attr_enum_voucher(o.v, A(bad), 1); break;
      default: if (bad == A_REVCHECK) bad = A_ASSERTION; rc = set_attr_bool_voucher(o.v, A(bad), true);
      }
      d = fmt("wrong-kind setter %d on %d", kind, bad);
      break;
    }
    case 8: { // invalid value
      want_ok = false;
      switch (r.below(6)) {
      case 0: { static const int v[] = {0, 4, -1, 5, 100, -2147483647, 2147483647}; int e = v[r.below(7)];
        rc = variadic ? set_attr_voucher(o.v, ATTR_ASSERTION, e) : set_attr_enum_voucher(o.v, ATTR_ASSERTION, e); d = fmt("set assertion %d", e); break; }
      case 1: { Bytes b((size_t)r.range(128, 400), 'a'); rc = variadic ? set_attr_voucher(o.v, ATTR_SERIAL_NUMBER, b.c_str()) : set_attr_str_voucher(o.v, ATTR_SERIAL_NUMBER, b.c_str()); d = fmt("set serial of %zu bytes", b.size()); break; }
      case 2: rc = set_attr_str_voucher(o.v, ATTR_SERIAL_NUMBER, nullptr); d = "set serial NULL"; break;
      case 3: { a = std::vector<int>{A_ISSUER, A_PINNED, A_NONCE, A_PRIOR, A_PROXIMITY}[r.below(5)]; BinaryArray e{}; rc = r.chance(1, 2) ? set_attr_array_voucher(o.v, A(a), &e) : set_attr_voucher(o.v, A(a), &e); d = fmt("set %s to an empty array", ATTR_NAMES[a]); break; }
      case 4: { a = std::vector<int>{A_ISSUER, A_PINNED, A_NONCE, A_PRIOR, A_PROXIMITY}[r.below(5)]; rc = set_attr_array_voucher(o.v, A(a), nullptr); d = "set array NULL"; break; }
      default: { a = std::vector<int>{A_CREATED, A_EXPIRES, A_RENEWAL}[r.below(3)]; rc = set_attr_time_voucher(o.v, A(a), nullptr); d = "set time NULL"; }
      }
      break;
    }
    case 9: { // no voucher, or an unknown attribute
      want_ok = false;
      struct tm tm = rand_date(r).tm();
      switch (r.below(6)) {
      case 0: rc = set_attr_time_voucher(nullptr, ATTR_CREATED_ON, &tm); break;
      case 1: rc = set_attr_enum_voucher(nullptr, ATTR_ASSERTION, 1); break;
      case 2: rc = set_attr_str_voucher(nullptr, ATTR_SERIAL_NUMBER, "a"); break;
      case 3: rc = clear_attr_voucher(nullptr, ATTR_NONCE); break;
      case 4: rc = set_attr_voucher(o.v, A((int)r.range(NATTR, NATTR + 9)), 1); break;
      default: rc = set_attr_bool_voucher(nullptr, ATTR_DOMAIN_CERT_REVOCATION_CHECKS, true);
      }
      d = "NULL voucher or unknown attribute";
      break;
    }
    case 10: { // copy an attribute from the other voucher, or onto itself
      Obj &src = os[r.below(2)];
      a = std::vector<int>{A_ISSUER, A_PINNED, A_NONCE, A_PRIOR, A_PROXIMITY}[r.below(5)];
      int b = r.chance(1, 2) ? a : (int)std::vector<int>{A_ISSUER, A_PINNED, A_NONCE, A_PRIOR, A_PROXIMITY}[r.below(5)];
      if (!src.m.array.count(b)) { d = "nothing"; break; }
      Bytes val = src.m.array[b];
      rc = set_attr_array_voucher(o.v, A(a), get_attr_array_voucher(src.v, A(b)));
      o.m.array[a] = val;
      d = fmt("copy %s to %s%s", ATTR_NAMES[b], ATTR_NAMES[a], &src == &o ? " (same voucher)" : "");
      break;
    }
    case 11: { // copy the serial number
      Obj &src = os[r.below(2)];
      if (!src.m.serial) { d = "nothing"; break; }
      Bytes val = *src.m.serial;
      rc = set_attr_str_voucher(o.v, ATTR_SERIAL_NUMBER, *get_attr_str_voucher(src.v, ATTR_SERIAL_NUMBER));
      o.m.serial = val;
      d = &src == &o ? "set serial to itself" : "copy serial";
      break;
    }
    default: { // serialized form agrees
      char *js = serialize_voucher(o.v);
      Json j;
      VoucherModel m2;
      if (!js || judge(js, m2) != 1 || !(m2 == o.m)) fail("serialized-form-differs", fmt("%s for model %s after %s", js ? printable(js).c_str() : "NULL", o.m.text().c_str(), hist.c_str()));
      free(js);
      d = "serialize";
      count("serialized_forms");
    }
    }
    hist += "; " + d;
    h = hash(d.data(), d.size(), h);
    if (want_ok && rc != 0) fail("valid-operation-refused", hist);
    if (!want_ok) { refused++; if (rc >= 0) fail("invalid-operation-accepted", hist); }
    for (auto &x : os) compare(x, hist);
    count("operations");
  }
  count("overwrites", overwrites);
  count("refused_operations", refused);
  if (i % 50 == 0) wrong_getters(os[0]);
  for (auto &o : os) {
    if (r.chance(1, 3)) for (int a = 0; a < NATTR; a++) clear_attr_voucher(o.v, A(a));
    free_voucher(o.v);
  }
  if (i % 1000 == 5) { free_voucher(nullptr); sample(hist.substr(0, 400)); }
  evaluated(h, overwrites > 0 || refused > 0);
}
int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  return run(one, 300);
}
