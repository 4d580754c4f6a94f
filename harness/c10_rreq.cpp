// C10: what the registrar makes of pledge voucher-requests.
#include "world.hpp"
using namespace world;

static void one(Rng &r, long) {
  uint64_t h = r.s;
  Party pl = party("Maker", 0, r.chance(1, 2), r, {{"C", "IE"}, {"CN", "idevid"}, {"serialNumber", "77"}});
  Party dom = party("Domain", 3, r.chance(1, 2), r, cn("registrar"));
  Party other = party("Other", 10, r.chance(1, 2), r, cn("other device"));
  Party fake = impostor(pl, 9, r);
  Node sign = child(dom.has_inter ? dom.inter : dom.root, cn("registrar sign"), r.chance(1, 5) ? N_EC + (int)r.below(N_RSA) : 6, false, r);
  Bytes serial = plain_serial(r), issuer = r.chance(1, 4) ? r.bytes(r.range(1, 200)) : Bytes("\x04\x0b") + "CN=Maker CA", tls = dom.leaf.cert;

  // the pledge's request
  VoucherModel m;
  std::string how;
  m.time[ref::A_CREATED] = ref::rand_date(r);
  m.serial = serial;
  m.assertion = 3;
  m.array[ref::A_PROXIMITY] = tls;
  if (r.chance(3, 4)) m.array[ref::A_NONCE] = r.bytes(r.range(1, 40));
  for (int k = r.chance(1, 2) ? 0 : (int)r.range(1, 2); k > 0; k--)
    switch (r.below(14)) {
    case 0: m.serial.reset(); how += " no serial"; break;
    case 1: m.serial = near(serial, r); how += " near serial"; break;
    case 2: m.serial = plain_serial(r); how += " other serial"; break;
    case 3: m.assertion = 0; how += " no assertion"; break;
    case 4: m.assertion = (int)r.range(1, 2); how += " other assertion"; break;
    case 5: m.array.erase(ref::A_PROXIMITY); how += " no proximity"; break;
    case 6: m.array[ref::A_PROXIMITY] = near_blob(tls, r); how += " near proximity"; break;
    case 7: m.array[ref::A_PROXIMITY] = r.chance(1, 2) ? sign.cert : dom.root.cert; how += " other certificate"; break;
    case 8: m.time.erase(ref::A_CREATED); how += " no date"; break;
    case 9: m.array[ref::A_PINNED] = dom.root.cert; how += " pinned"; break;
    case 10: m.time[ref::A_EXPIRES] = ref::rand_date(r); m.revcheck = true; how += " expiry"; break;
    case 11: m.array[ref::A_PRIOR] = r.bytes(30); how += " prior"; break;
    case 12: m.array[ref::A_ISSUER] = r.bytes(20); how += " issuer"; break;
    case 13: m.array.erase(ref::A_NONCE); how += " nonceless"; break;
    }
  Bytes doc = doc_of(m, r);
  if (r.chance(1, 8)) doc = spoil(doc, r, how);
  std::string show;
  Bytes msg = sign_somehow(doc, pl, fake, other, r, show, 4);
  Trust t;
  make_trust(t, pl, fake, other, r);
  std::string info = fmt("request%s, %s, registrar has %s", how.c_str(), show.c_str(), t.what.c_str());

  // ground truth
  Opened o;
  std::string why;
  int sig = trusts(t, msg, o, why);
  VoucherModel got;
  int want = sig;
  if (sig) {
    int j = ref::judge(o.content, got, &why);
    if (!j) want = 0;
    else if (j < 0) want = -1;
    if (j) {
      if (!got.serial) { want = 0; why = "no serial"; }
      else if (*got.serial != serial) { want = 0; why = "serial differs"; }
      auto p = got.array.find(ref::A_PROXIMITY);
      if (p == got.array.end() || p->second != tls) { want = 0; why = "pins another certificate"; }
      if (got.assertion != 3) { want = 0; why = "assertion is not proximity"; }
    }
  }
  // the registrar's own parts
  Date d = ref::rand_date(r);
  struct tm tm = d.tm();
  std::vector<Bytes> extra_v;
  if (dom.has_inter && r.chance(1, 2)) extra_v.push_back(dom.inter.cert);
  if (r.chance(1, 3)) extra_v.push_back(dom.leaf.cert);
  List extra;
  for (auto &e : extra_v) extra.add(e);
  Buf bm(msg), bi(issuer), bt(tls), bc(sign.cert), bk(key(sign.key).der), badk(key(sign.key == 6 ? 7 : 6).der), junk(r.bytes(50));
  std::vector<char> ser(serial.begin(), serial.end());
  ser.push_back(0);
  BinaryArray empty{};
  const struct tm *tmp = &tm;
  const char *sp = ser.data();
  const BinaryArray *ip = &bi.a, *tp = &bt.a, *cp = &bc.a, *kp = &bk.a, *mp = &bm.a;
  if (r.chance(1, 6)) {
    int f = (int)r.below(11);
    switch (f) {
    case 0: tmp = nullptr; break;
    case 1: sp = nullptr; break;
    case 2: ip = nullptr; break;
    case 3: ip = &empty; break;
    case 4: tp = nullptr; break;
    case 5: tp = &empty; break;
    case 6: cp = nullptr; break;
    case 7: kp = nullptr; break;
    case 8: kp = &badk.a; break;
    case 9: cp = &junk.a; break;
    case 10: mp = nullptr; break;
    }
    want = 0;
    why = fmt("own part %d unusable", f);
  }
  BinaryArray *res = sign_voucher_request(mp, tmp, sp, ip, tp, cp, kp, t.C(), t.S(), extra);
  ERR_clear_error();
  evaluated(h, true);
  if (want_sample()) sample(info + (want == 1 ? " -> issued" : " -> refused"));
  if (want == 0) {
    count("refused:" + why);
    if (res) failf("issued:" + why, "a voucher-request was issued although: %s (%s)", why.c_str(), info.c_str());
    free_binary_array(res);
    return;
  }
  if (want == 1 && !res) { failf("genuine-refused", "%s", info.c_str()); return; }
  if (!res) { count("open"); return; }
  count(want == 1 ? (got.array.count(ref::A_NONCE) ? "issued:nonce" : "issued:nonceless") : "open");
  if (want != 1) { free_binary_array(res); return; }
  VoucherModel w;
  w.time[ref::A_CREATED] = d;
  w.serial = serial;
  w.array[ref::A_ISSUER] = issuer;
  w.array[ref::A_PRIOR] = msg;
  if (got.array.count(ref::A_NONCE)) w.array[ref::A_NONCE] = got.array[ref::A_NONCE];
  check_issued("request", take(res), sign.cert, extra_v, w, info);
}
int main(int argc, char **argv) {
  init(argc, argv);
  if (!getenv("LOUD")) quiet_log();
  return run(one, 100);
}
