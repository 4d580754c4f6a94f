// C01: serialize -> strict JSON -> exactly the attributes set -> parse back.
#include "vmodel.hpp"
using namespace vh;
using namespace ref;

static void one(Rng &r, long i) {
  VoucherModel m;
  bool directed = true;
  if (i < 2048) { // every combination of attributes
    for (int a = 0; a < NATTR; a++) {
      if (!(i >> a & 1)) continue;
      if (is_time(a)) m.time[a] = rand_date(r);
      else if (is_array(a)) m.array[a] = rand_blob(r);
      else if (a == A_SERIAL) m.serial = rand_serial(r);
      else if (a == A_ASSERTION) m.assertion = (int)r.range(1, 3);
      else m.revcheck = r.chance(1, 2);
    }
    count("combination_of_attributes");
  } else if (i < 2048 + 255) { // every byte in a serial number
    Bytes c(1, (char)(i - 2048 + 1));
    m.serial = r.chance(1, 2) ? c : "ab" + c + "cd" + c;
    count("serial_single_byte");
  } else if (i < 2048 + 255 + 256) { // every short length of binary value
    long n = i - 2048 - 255 + 1;
    for (int a = 0; a < NATTR; a++) if (is_array(a)) m.array[a] = r.bytes((size_t)n);
    count("binary_length");
  } else if (i < 2048 + 255 + 256 + 127) { // every serial length
    long n = i - 2048 - 255 - 256 + 1;
    Bytes b;
    while ((long)b.size() < n) b += r.chance(1, 4) ? '"' : (char)r.range(1, 255);
    m.serial = b;
    count("serial_length");
  } else {
    m = rand_voucher(r);
    directed = false;
    if (r.chance(1, 30)) for (int a = 0; a < NATTR; a++) if (is_array(a)) m.array[a] = r.bytes((size_t)r.range(3000, 40000));
  }
  (void)directed;
  std::string what = m.text();
  struct Voucher *v = init_voucher();
  if (!v) harness_error("init_voucher");
  if (!put(v, m)) { failf("set-refused", "a valid attribute was refused: %s", what.c_str()); free_voucher(v); return; }
  char *js = serialize_voucher(v);
  if (!js) { failf("serialize-fails", "serialize_voucher gives NULL for %s", what.c_str()); free_voucher(v); return; }
  Bytes doc = js;
  free(js);
  Json j;
  std::string ctx = " voucher " + what + " document " + printable(doc);
  if (!parse_json(doc, j)) fail("invalid-json", "not valid JSON:" + ctx);
  else if (j.t != Json::Obj || j.o.size() != 1 || j.o[0].first != "ietf-voucher:voucher" || j.o[0].second.t != Json::Obj)
    fail("wrong-root", "root is not the single member ietf-voucher:voucher:" + ctx);
  else {
    std::set<Bytes> seen;
    size_t expect = m.time.size() + m.array.size() + (m.serial ? 1 : 0) + (m.assertion ? 1 : 0);
    for (auto &k : j.o[0].second.o) {
      int a = -1;
      for (int x = 0; x < NATTR; x++) if (k.first == ATTR_NAMES[x]) a = x;
      if (a < 0) { fail("unknown-member", "member " + printable(k.first) + ctx); continue; }
      if (!seen.insert(k.first).second) { fail("duplicate-member", "member " + k.first + ctx); continue; }
      const Json &x = k.second;
      bool ok;
      if (is_time(a)) ok = m.time.count(a) && x.t == Json::Str && x.s == m.time[a].text();
      else if (is_array(a)) ok = m.array.count(a) && x.t == Json::Str && x.s == b64(m.array[a]);
      else if (a == A_SERIAL) ok = m.serial && x.t == Json::Str && x.s == *m.serial;
      else if (a == A_ASSERTION) ok = m.assertion && x.t == Json::Str && x.s == ASSERTIONS[m.assertion];
      else ok = x.t == Json::Bool && x.b == m.revcheck;
      if (!ok) fail("wrong-member-value", "member " + k.first + ctx);
      if (a != A_REVCHECK) expect--;
    }
    if (expect) fail("missing-member", ctx);
    if (m.revcheck && !seen.count(ATTR_NAMES[A_REVCHECK])) fail("missing-member", "revocation flag" + ctx);
  }
  Buf in(doc);
  struct Voucher *w = deserialize_voucher(in.a.array, in.a.length);
  if (!w) fail("own-output-rejected", "deserialize_voucher rejects" + ctx);
  else {
    VoucherModel back;
    std::string err;
    if (!get(w, back, err)) fail("getter", err + ctx);
    else if (!(back == m)) fail("read-back-differs", "read back " + back.text() + ctx);
    char *js2 = serialize_voucher(w);
    if (!js2 || doc != js2) fail("reserialized-differs", std::string(js2 ? js2 : "NULL") + ctx);
    free(js2);
    free_voucher(w);
  }
  free_voucher(v);
  evaluated(hash(what), what.size() > 16);
  count("documents_parsed_strictly");
  if (m.serial) {
    bool esc = false;
    for (unsigned char c : *m.serial) esc |= c == '"' || c == '\\' || c < 32;
    if (esc) count("serial_needing_escape");
  }
  if (i % 1000 == 7 && want_sample()) sample(what + " -> " + printable(doc, 300));
}
int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  return run(one, 500);
}
