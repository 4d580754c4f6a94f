// C11: what the MASA makes of registrar voucher-requests.
#include "world.hpp"
using namespace world;

struct Cb {
  int calls = 0;
  std::vector<Bytes> serials;
  std::vector<Bytes> certs;
  int ret = 0;
  Bytes pinned;
  bool empty = false;
};
static Cb *now_asked;
static void *given;
static int policy(const char *serial, const struct BinaryArrayList *certs, void *ctx, struct BinaryArray *pinned) {
  Cb *c = now_asked;
  if (ctx != given) fail("policy-context", "the policy callback gets another context than the caller's");
  c->calls++;
  c->serials.push_back(serial ? Bytes(serial) : Bytes("(null)"));
  c->certs = str_list(certs);
  if (c->ret < 0) return c->ret;
  if (c->empty) return 0;
  pinned->array = (uint8_t *)malloc(c->pinned.size());
  memcpy(pinned->array, c->pinned.data(), c->pinned.size());
  pinned->length = c->pinned.size();
  return c->ret;
}

static void one(Rng &r, long) {
  uint64_t h = r.s;
  Party pl = party("Maker", 0, r.chance(1, 2), r, {{"C", "IE"}, {"CN", "idevid"}, {"serialNumber", "77"}});
  Party dom = party("Domain", 3, r.chance(1, 2), r, cn("registrar"));
  Party other = party("Other", 10, r.chance(1, 2), r, cn("other device"));
  Party fakep = impostor(pl, 9, r), faked = impostor(dom, 13, r);
  Party masa = party("Masa", 6, r.chance(1, 2), r, cn("masa"));
  if (r.chance(1, 6)) masa.leaf = child(masa.has_inter ? masa.inter : masa.root, cn("masa rsa"), N_EC + (int)r.below(N_RSA), false, r);
  Bytes serial = plain_serial(r), inner_serial = serial;
  std::string how, showi, showo;

  // the pledge's request
  VoucherModel mi;
  mi.time[ref::A_CREATED] = ref::rand_date(r);
  mi.serial = serial;
  mi.assertion = 3;
  mi.array[ref::A_PROXIMITY] = dom.leaf.cert;
  Bytes nonce = r.bytes(r.range(1, 40));
  bool nonced = r.chance(3, 4);
  if (nonced) mi.array[ref::A_NONCE] = nonce;
  if (r.chance(1, 3))
    switch (r.below(5)) {
    case 0: mi.serial.reset(); how += " inner: no serial"; break;
    case 1: mi.serial = near(serial, r); how += " inner: near serial"; break;
    case 2: mi.serial = plain_serial(r); how += " inner: other serial"; break;
    case 3: mi.array[ref::A_PINNED] = r.bytes(20); how += " inner: pinned"; break;
    case 4: mi.array[ref::A_PRIOR] = r.bytes(20); how += " inner: prior"; break;
    }
  Bytes idoc = doc_of(mi, r);
  if (r.chance(1, 10)) idoc = spoil(idoc, r, how);
  Bytes inner = sign_somehow(idoc, pl, fakep, other, r, showi, 5);
  if (inner.empty()) inner = "x";

  VoucherModel mo;
  mo.time[ref::A_CREATED] = ref::rand_date(r);
  mo.serial = serial;
  if (nonced) mo.array[ref::A_NONCE] = nonce;
  mo.array[ref::A_ISSUER] = r.bytes(20);
  mo.array[ref::A_PRIOR] = inner;
  if (r.chance(1, 3))
    switch (r.below(11)) {
    case 0: mo.serial.reset(); how += " outer: no serial"; break;
    case 1: mo.serial = near(serial, r); how += " outer: near serial"; break;
    case 2: mo.array.erase(ref::A_PRIOR); how += " outer: no prior"; break;
    case 3: mo.array[ref::A_PRIOR] = near_blob(inner, r); how += " outer: damaged prior"; break;
    case 4: mo.array.erase(ref::A_ISSUER); how += " outer: no issuer"; break;
    case 5: mo.time.clear(); how += " outer: no date"; break;
    case 6: mo.array[ref::A_PINNED] = other.root.cert; mo.time[ref::A_EXPIRES] = ref::rand_date(r); mo.revcheck = true; mo.assertion = (int)r.range(1, 3); how += " outer: pinned, expiry, assertion"; break;
    case 7: mo.array[ref::A_NONCE] = r.bytes(9); how += " outer: own nonce"; break;
    case 9: case 10: mo.array.erase(ref::A_NONCE); how += " outer: no nonce"; break;
    case 8: { // the registrar's request wraps one of its own
      std::string x;
      mo.array[ref::A_PRIOR] = cms_sign(idoc, {{dom.leaf.cert, dom.leaf.key}}, dom.embed());
      how += " outer: prior signed by the registrar";
      break;
    }
    }
  Bytes odoc = doc_of(mo, r);
  if (r.chance(1, 10)) odoc = spoil(odoc, r, how);
  Bytes msg = sign_somehow(odoc, dom, faked, other, r, showo, 5);
  Trust to, ti;
  make_trust(to, dom, faked, other, r);
  make_trust(ti, pl, fakep, other, r);
  std::string info = fmt("request%s; registrar's %s, trusted by %s; pledge's %s, trusted by %s", how.c_str(), showo.c_str(), to.what.c_str(), showi.c_str(), ti.what.c_str());

  Opened oo, oi;
  std::string why;
  VoucherModel go, gi;
  int want = trusts(to, msg, oo, why);
  if (want) {
    int j = ref::judge(oo.content, go, &why);
    if (j < 1) want = j;
    if (j && !go.serial) { want = 0; why = "no serial"; }
    if (j && !go.array.count(ref::A_PRIOR)) { want = 0; why = "no pledge request"; }
    if (want) {
      int t = trusts(ti, go.array[ref::A_PRIOR], oi, why);
      if (!t) { want = 0; why = "pledge request: " + why; }
      else {
        if (t < 0) want = -1;
        j = ref::judge(oi.content, gi, &why);
        if (!j) { want = 0; why = "pledge request: " + why; }
        else if (j < 0) want = -1;
        if (j && !gi.serial) { want = 0; why = "pledge request: no serial"; }
        else if (j && *gi.serial != *go.serial) { want = 0; why = "serials differ"; }
      }
    }
  }
  bool valid = want != 0, certain = want == 1;
  Cb cb;
  cb.pinned = r.chance(1, 4) ? r.bytes(r.range(1, 500)) : dom.root.cert;
  if (r.chance(1, 10)) { cb.ret = (int)r.pick(std::vector<long>{-1, -1, -1, -2, -99, -2147483647L - 1}); if (want) { want = 0; why = "policy refuses"; } }
  else if (r.chance(1, 20)) { cb.empty = true; if (want) { want = 0; why = "policy gives nothing"; } }
  Date d = ref::rand_date(r);
  struct tm tm = d.tm();
  std::vector<Bytes> extra_v;
  if (masa.has_inter) extra_v.push_back(masa.inter.cert);
  if (r.chance(1, 3)) extra_v.push_back(masa.root.cert);
  List extra;
  for (auto &e : extra_v) extra.add(e);
  Buf bm(msg), bc(masa.leaf.cert), bk(key(masa.leaf.key).der), badk(key(masa.leaf.key == 8 ? 7 : 8).der), junk(r.bytes(50));
  const struct tm *tmp = &tm;
  const BinaryArray *mp = &bm.a, *cp = &bc.a, *kp = &bk.a;
  voucher_req_fn fn = policy;
  bool early = false;
  if (r.chance(1, 8)) {
    int f = (int)r.below(7);
    switch (f) {
    case 0: tmp = nullptr; early = true; break;
    case 1: mp = nullptr; early = true; break;
    case 2: cp = nullptr; break;
    case 3: kp = nullptr; break;
    case 4: kp = &badk.a; break;
    case 5: cp = &junk.a; break;
    case 6: fn = nullptr; early = true; break;
    }
    want = 0;
    why = fmt("own part %d unusable", f);
  }
  now_asked = &cb;
  given = r.chance(1, 6) ? nullptr : (void *)&cb;
  BinaryArray *res = sign_masa_pledge_voucher(mp, tmp, fn, given, cp, kp, to.C(), to.S(), ti.C(), ti.S(), extra);
  ERR_clear_error();
  evaluated(h, true);
  if (want_sample()) sample(info + (want == 1 ? " -> issued" : " -> refused: " + why));
  // the policy
  if (cb.calls > 1) failf("policy-twice", "the policy callback was called %d times; %s", cb.calls, info.c_str());
  if (!valid && cb.calls) failf("policy-on-invalid", "the policy callback was asked about an invalid request (%s); %s", why.c_str(), info.c_str());
  if (res && !cb.calls) failf("policy-bypassed", "a voucher was issued without asking the policy callback; %s", info.c_str());
  if (cb.calls && go.serial && cb.serials[0] != *go.serial) failf("policy-serial", "the policy callback was asked about '%s'; %s", printable(cb.serials[0]).c_str(), info.c_str());
  if (cb.calls && sorted(cb.certs) != sorted(oo.signers)) failf("policy-certs", "the policy callback got %zu certificates, the request has %zu signers or others; %s", cb.certs.size(), oo.signers.size(), info.c_str());
  if (certain && !early && want == 0 && why == "policy refuses" && cb.calls != 1) failf("policy-not-asked", "%s", info.c_str());
  if (cb.calls) count("policy-asked");
  if (want == 0) {
    count("refused:" + why);
    if (res) failf("issued:" + why, "a voucher was issued although: %s (%s)", why.c_str(), info.c_str());
    free_binary_array(res);
    return;
  }
  if (want == 1 && !res) { failf("genuine-refused", "%s", info.c_str()); return; }
  if (want != 1 || !res) { count("open"); free_binary_array(res); return; }
  count(go.array.count(ref::A_NONCE) ? "issued:nonce" : "issued:nonceless");
  VoucherModel w;
  w.serial = go.serial;
  if (go.array.count(ref::A_NONCE)) w.array[ref::A_NONCE] = go.array[ref::A_NONCE];
  w.time[ref::A_EXPIRES] = d;
  w.assertion = 3;
  w.array[ref::A_PINNED] = cb.pinned;
  check_issued("voucher", take(res), masa.leaf.cert, extra_v, w, info);
}
int main(int argc, char **argv) {
  init(argc, argv);
  if (!getenv("LOUD")) quiet_log();
  return run(one, 100);
}
