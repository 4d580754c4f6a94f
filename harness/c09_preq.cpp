// C09: pledge voucher-requests, built from values and from a configuration.
#include "world.hpp"
extern "C" {
#include "brski/config.h"
#include "brski/pledge/pledge_config.h"
#include "brski/pledge/pledge_utils.h"
}
using namespace world;

static std::string dir;
static Bytes nonce_of(Rng &r) {
  switch (r.below(5)) {
  case 0: return Bytes(1, (char)r.next());
  case 1: return Bytes(r.range(1, 40), '\0');
  case 2: return r.bytes(r.range(100, 600));
  default: return r.bytes(r.range(1, 40));
  }
}

static void values(Rng &r, long) {
  uint64_t h = r.s;
  bool rsa = r.chance(1, 5);
  Party p = party("Maker", 0, r.chance(1, 2), r, {{"C", "IE"}, {"CN", "idevid"}, {"serialNumber", "77"}});
  Party dom = party("Domain", 3, r.chance(1, 2), r, cn("registrar"));
  if (rsa) p.leaf = child(p.has_inter ? p.inter : p.root, cn("idevid rsa"), N_EC + (int)r.below(N_RSA), false, r);
  VoucherModel want;
  Date d = ref::rand_date(r);
  want.time[ref::A_CREATED] = d;
  want.assertion = 3;
  Bytes serial = plain_serial(r), tls = r.chance(1, 6) ? r.bytes(r.range(1, 2000)) : dom.leaf.cert;
  want.serial = serial;
  want.array[ref::A_PROXIMITY] = tls;
  bool has_nonce = r.chance(3, 4);
  Bytes nonce = nonce_of(r);
  if (has_nonce) want.array[ref::A_NONCE] = nonce;
  std::vector<Bytes> extra_v;
  if (p.has_inter && r.chance(2, 3)) extra_v.push_back(p.inter.cert);
  if (r.chance(1, 3)) extra_v.push_back(dom.root.cert);
  if (r.chance(1, 5)) extra_v.push_back(p.root.cert);
  List extra;
  for (auto &e : extra_v) extra.add(e);
  if (r.chance(1, 4)) extra.empty();
  Buf bn(nonce), bt(tls), bc(p.leaf.cert), bk(key(p.leaf.key).der);
  struct tm tm = d.tm();
  std::string info = fmt("serial '%s' nonce %d tls cert %zu bytes %s extra %zu", printable(serial).c_str(), (int)has_nonce, tls.size(), rsa ? "rsa" : "ec", extra_v.size());
  std::vector<char> ser(serial.begin(), serial.end());
  ser.push_back(0);
  auto call = [&](const struct tm *t, const char *s, const BinaryArray *n, const BinaryArray *rt, const BinaryArray *c, const BinaryArray *k, const BinaryArrayList *e) {
    BinaryArray *x = sign_pledge_voucher_request(t, s, n, rt, c, k, e);
    ERR_clear_error();
    return x;
  };
  BinaryArray *cms = call(&tm, ser.data(), has_nonce ? &bn.a : nullptr, &bt.a, &bc.a, &bk.a, extra);
  if (!cms) { failf("none-issued", "no request from good parts: %s", info.c_str()); return; }
  check_issued("request", take(cms), p.leaf.cert, extra_v, want, info);
  count(has_nonce ? "issued:nonce" : "issued:nonceless");
  evaluated(h, true);
  if (want_sample()) sample(info);
  // a mandatory part missing or malformed
  auto none = [&](const char *what, BinaryArray *x) {
    count(fmt("refused:%s", what));
    evaluated(mix(h ^ hash(std::string(what))), true);
    if (x) failf(fmt("issued-without:%s", what), "a request is produced although the %s; %s", what, info.c_str());
    free_binary_array(x);
  };
  Buf junk(r.bytes(r.range(1, 200))), cut(p.leaf.cert.substr(0, p.leaf.cert.size() - 1 - r.below(40))), other(key(rsa ? 5 : N_EC).der),
      foreign(key(rsa ? N_EC + (p.leaf.key - N_EC + 1) % N_RSA : 9).der);
  BinaryArray empty{};
  List bad;
  bad.add(r.bytes(60));
  none("time is missing", call(nullptr, ser.data(), &bn.a, &bt.a, &bc.a, &bk.a, extra));
  none("serial number is missing", call(&tm, nullptr, &bn.a, &bt.a, &bc.a, &bk.a, extra));
  none("serial number is too long", call(&tm, std::string(128 + r.below(400), 'x').c_str(), &bn.a, &bt.a, &bc.a, &bk.a, extra));
  none("registrar certificate is missing", call(&tm, ser.data(), &bn.a, nullptr, &bc.a, &bk.a, extra));
  none("registrar certificate is empty", call(&tm, ser.data(), &bn.a, &empty, &bc.a, &bk.a, extra));
  none("nonce is empty", call(&tm, ser.data(), &empty, &bt.a, &bc.a, &bk.a, extra));
  none("certificate is missing", call(&tm, ser.data(), &bn.a, &bt.a, nullptr, &bk.a, extra));
  none("key is missing", call(&tm, ser.data(), &bn.a, &bt.a, &bc.a, nullptr, extra));
  none("certificate is garbage", call(&tm, ser.data(), &bn.a, &bt.a, &junk.a, &bk.a, extra));
  none("certificate is cut", call(&tm, ser.data(), &bn.a, &bt.a, &cut.a, &bk.a, extra));
  none("key is garbage", call(&tm, ser.data(), &bn.a, &bt.a, &bc.a, &junk.a, extra));
  none("key is of another kind", call(&tm, ser.data(), &bn.a, &bt.a, &bc.a, &other.a, extra));
  none("key is foreign", call(&tm, ser.data(), &bn.a, &bt.a, &bc.a, &foreign.a, extra));
  none("extra certificate is garbage", call(&tm, ser.data(), &bn.a, &bt.a, &bc.a, &bk.a, bad));
}

static void conf(Rng &r, long i) {
  uint64_t h = r.s;
  Party p = party("Maker", 0, r.chance(1, 2), r, {{"C", "IE"}, {"CN", "idevid"}});
  Party dom = party("Domain", 3, false, r, cn("registrar"));
  if (r.chance(1, 5)) p.leaf = child(p.has_inter ? p.inter : p.root, cn("idevid rsa"), N_EC + (int)r.below(N_RSA), false, r);
  std::string b = dir + "/" + std::to_string(i), crt = b + ".crt", kf = b + ".key", x1 = b + ".x1", x2 = b + ".x2", out = b + ".smime", none = b + ".none", junkf = b + ".junk";
  write_file(crt, pem("CERTIFICATE", p.leaf.cert));
  write_file(kf, r.chance(1, 2) ? key_pem(p.leaf.key) : key_pem(p.leaf.key));
  write_file(x1, pem("CERTIFICATE", p.root.cert));
  write_file(x2, "some text before\n" + pem("CERTIFICATE", dom.root.cert));
  write_file(junkf, r.chance(1, 3) ? Bytes() : r.chance(1, 2) ? pem("CERTIFICATE", r.bytes(50)) : r.bytes(100));

  Bytes serial = plain_serial(r), nonce = nonce_of(r), tls = dom.leaf.cert;
  Date d = ref::rand_date(r);
  bool has_time = r.chance(2, 3), has_nonce = r.chance(3, 4);
  Bytes date = d.text(), n64 = ref::b64(nonce);
  if (r.chance(1, 5)) n64.insert(r.below(n64.size() + 1), r.chance(1, 2) ? "\n" : " ");
  std::vector<std::string> adds;
  std::vector<Bytes> extra_v;
  if (r.chance(1, 2)) { adds.push_back(x1); extra_v.push_back(p.root.cert); }
  if (r.chance(1, 2)) { adds.push_back(x2); extra_v.push_back(dom.root.cert); }

  pledge_config pc{};
  std::string serial_c = serial;
  pc.created_on = has_time ? &date[0] : nullptr;
  pc.serial_number = &serial_c[0];
  pc.nonce = has_nonce ? &n64[0] : nullptr;
  pc.cms_sign_cert_path = &crt[0];
  pc.cms_sign_key_path = &kf[0];
  // a fault, mostly none
  std::string what;
  int fault = r.chance(1, 2) ? -1 : (int)r.below(12);
  const Bytes *tlsp = &tls;
  bool null_tls = false, null_conf = false;
  Bytes baddate, badnonce, longserial;
  switch (fault) {
  case 0: { static const std::vector<Bytes> v = {"", "now", "2023-01-01", "2023-01-01T00:00:00", "2023-13-01T00:00:00Z", "2023-01-01T00:00:00Zx", "2023-01-01 00:00:00Z", "2023-1-01T00:00:00Z"};
    baddate = r.pick(v); pc.created_on = &baddate[0]; what = "date is malformed"; break; }
  case 1: badnonce = "abcd====="; pc.nonce = &badnonce[0]; what = "nonce is malformed"; break;
  case 2: pc.serial_number = nullptr; what = "serial number is missing"; break;
  case 3: longserial = Bytes(128 + r.below(100), 'x'); pc.serial_number = &longserial[0]; what = "serial number is too long"; break;
  case 4: pc.cms_sign_cert_path = r.chance(1, 2) ? &none[0] : &junkf[0]; what = "certificate file is unusable"; break;
  case 5: pc.cms_sign_key_path = r.chance(1, 2) ? &none[0] : &junkf[0]; what = "key file is unusable"; break;
  case 6: pc.cms_sign_cert_path = nullptr; what = "certificate is not configured"; break;
  case 7: pc.cms_sign_key_path = nullptr; what = "key is not configured"; break;
  case 8: adds.insert(adds.begin() + (long)r.below(adds.size() + 1), r.chance(1, 2) ? none : junkf); what = "extra certificate file is unusable"; break;
  case 9: null_tls = true; what = "registrar certificate is missing"; break;
  case 10: pc.cms_sign_cert_path = &x2[0]; what = "key is foreign"; break;
  case 11: null_conf = true; what = "configuration is missing"; break;
  }
  (void)tlsp;
  BinaryArrayList *al = nullptr;
  if (!adds.empty() || r.chance(1, 3)) {
    al = init_array_list();
    for (auto &a : adds) push_array_list(al, (uint8_t *)a.c_str(), a.size() + 1, 0);
  }
  pc.cms_add_certs_paths = al;
  Buf bt(tls);
  std::string info = fmt("serial '%s' time %s nonce %s extra %zu %s", printable(serial).c_str(), pc.created_on ? pc.created_on : "(none)", pc.nonce ? pc.nonce : "(none)", adds.size(), what.c_str());
  int form = (int)r.range(1, 2);
  static const char *forms[] = {"", "base64", "smime"};
  Bytes cms;
  bool issued = false;
  time_t t0 = time(nullptr);
  const pledge_config *cp = null_conf ? nullptr : &pc;
  const BinaryArray *tp = null_tls ? nullptr : &bt.a;
  if (form == 1) {
    char *s = voucher_pledge_request_to_base64(cp, tp);
    if (s) {
      issued = true;
      Bytes t = s;
      free(s);
      if (!ref::unb64(t, cms)) failf("not-base64", "%s; %s", t.substr(0, 200).c_str(), info.c_str());
      for (char c : t) if (!(c == '=' || (c && strchr(ref::B64, c)))) { failf("not-base64", "line breaks or other characters in %s", t.substr(0, 200).c_str()); break; }
    }
  } else {
    int rc = voucher_pledge_request_to_smimefile(cp, tp, out.c_str());
    if (rc >= 0) {
      issued = true;
      BIO *f = BIO_new_file(out.c_str(), "rb"), *c2 = nullptr;
      CMS_ContentInfo *c = f ? SMIME_read_CMS(f, &c2) : nullptr;
      if (!c) failf("not-smime", "%s", info.c_str());
      else cms = der_cms(c);
      CMS_ContentInfo_free(c);
      BIO_free(f);
      BIO_free(c2);
    } else {
      bool there;
      Bytes left = read_file(out, &there);
      if (there && !left.empty()) failf("file-on-failure", "%zu bytes written; %s", left.size(), info.c_str());
    }
    unlink(out.c_str());
  }
  ERR_clear_error();
  time_t t1 = time(nullptr);
  free_array_list(al);
  count(fmt("%s:%s", issued ? "conf-issued" : "conf-refused", forms[form]));
  if (fault >= 0) count(fmt("conf-fault:%s", what.c_str()));
  if (fault < 0 && !issued) failf("none-issued", "no request from a good configuration: %s", info.c_str());
  if (fault >= 0 && issued) failf(fmt("issued-without:%s", what.c_str()), "a request is produced from a configuration whose %s; %s", what.c_str(), info.c_str());
  if (fault < 0 && issued) {
    VoucherModel want;
    want.assertion = 3;
    want.serial = serial;
    want.array[ref::A_PROXIMITY] = tls;
    if (has_nonce) want.array[ref::A_NONCE] = nonce;
    Date got = d;
    if (!has_time) {
      Opened o = cms_open(cms);
      VoucherModel m;
      if (o.ok && ref::judge(o.content, m) == 1 && m.time.count(ref::A_CREATED)) {
        got = m.time[ref::A_CREATED];
        int64_t e = ref::epoch(got);
        if (e < t0 || e > t1) failf("not-now", "created-on %s is not the current time; %s", got.text().c_str(), info.c_str());
        count("conf-now");
      }
    }
    want.time[ref::A_CREATED] = got;
    check_issued(forms[form], cms, p.leaf.cert, extra_v, want, info);
  }
  evaluated(h, true);
  for (auto &f : {crt, kf, x1, x2, junkf}) unlink(f.c_str());
}
int main(int argc, char **argv) {
  setenv("TZ", "UTC", 1);
  init(argc, argv);
  if (!getenv("LOUD")) quiet_log();
  dir = opt("scratch", ".");
  bool c = opt("mode") == "conf";
  return run([&](Rng &r, long i) { c ? conf(r, i) : values(r, i); }, 100);
}
