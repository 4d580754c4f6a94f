// C12, client side: what post_voucher_pledge_request and verify_masa_pledge_request
// send, accept and hand out, against a scripted registrar.
#define STUB_HTTPS
#include "apiworld.hpp"
#include "brski/pledge/pledge_request.hpp"
using namespace api;

static std::string scratch;

static void one(Rng &r, long i) {
  uint64_t h = r.s;
  Deploy d(r, scratch + "/d" + std::to_string(i));
  std::string what = "good";
  bool ok = true;
  auto lost = [&](const char *w) { what = w; ok = false; };
  bool direct = r.chance(1, 3); // vmasa: the voucher from elsewhere
  Bytes reg = d.dom.leaf.cert, reg2 = reg; // certificate shown on the first and the second connection
  Bytes junk, sent;
  int status = 200, first = 400, first_rc = 0, second_rc = 0;
  bool no_peer = false, no_peer2 = false, raw = false;
  VoucherModel m;
  m.serial = d.serial;
  m.assertion = 3;
  m.array[ref::A_PINNED] = d.dom.root.cert;
  ref::parse_date(d.expires, m.time[ref::A_EXPIRES]);
  if (d.pc.nonce) m.array[ref::A_NONCE] = d.nonce;
  else if (r.chance(1, 3)) m.array[ref::A_NONCE] = r.bytes(8);
  Party *signer = &d.masa;
  int fault = r.chance(1, 3) ? -1 : (int)r.below(direct ? 14 : 26);
  bool early = false; // fails before the voucher-request is sent
  switch (fault) {
  case 0: m.serial = near(d.serial, r); lost("other serial"); break;
  case 1: m.serial.reset(); lost("no serial"); break;
  case 2: if (d.pc.nonce) { m.array[ref::A_NONCE] = near_blob(d.nonce, r); lost("other nonce"); } break;
  case 3: if (d.pc.nonce) { m.array.erase(ref::A_NONCE); lost("no nonce"); } break;
  case 4: m.array.erase(ref::A_PINNED); lost("nothing pinned"); break;
  case 5: m.array[ref::A_PINNED] = d.other.root.cert; lost("pinned another CA"); break;
  case 6: m.array[ref::A_PINNED] = d.fake_dom.root.cert; lost("pinned a look-alike CA"); break;
  case 7: signer = &d.fake_masa; lost("voucher of an impostor"); break;
  case 8: signer = &d.maker; lost("voucher signed by the pledge's maker"); break;
  case 9: raw = true; junk = junk_body(r); lost("junk reply"); break;
  case 10: { static const char *bad[] = {"====", "A===", "==A=", "!=-="}; d.pc.nonce = d.str(bad[r.below(4)]); lost("own nonce not base64"); early = !direct; break; }
  case 11: d.pc.cms_verify_store_paths = d.list({d.dir + "/missing"}); lost("trust anchor missing"); break;
  case 12: d.pc.cms_verify_certs_paths = d.list({d.path["masa-root.crt"], d.dir + "/missing"}); lost("verify certificate missing"); break;
  case 13: reg2 = d.other.leaf.cert; lost("another registrar at the second connection"); break;
  case 14: { static const int codes[] = {400, 401, 404, 500, 502, 503, 505}; status = codes[r.below(7)]; lost("error status with a voucher"); break; }
  case 15: second_rc = -1; lost("second connection fails"); break;
  case 16: first_rc = -1; lost("first connection fails"); early = true; break;
  case 17: no_peer = true; lost("no registrar certificate"); early = true; break;
  case 18: no_peer2 = true; lost("no registrar certificate at the second connection"); break;
  case 19: d.pc.idevid_key_path = nullptr; lost("no device key configured"); early = true; break;
  case 20: d.rc.bind_address = nullptr; lost("no registrar configured"); early = true; break;
  case 21: d.pc.idevid_cert_path = nullptr; lost("no device certificate configured"); early = true; break;
  case 22: d.pc.cms_sign_key_path = d.str(d.path["masa.key"]); lost("foreign signing key"); early = true; break;
  case 23: d.pc.serial_number = nullptr; lost("no serial number configured"); early = true; break;
  case 24: first = 200; break; // the first answer is not looked at
  case 25: reg = d.fake_dom.leaf.cert; reg2 = d.fake_dom.leaf.cert; lost("look-alike registrar"); break;
  }
  Bytes voucher = cms_sign(doc_of(m, r), {{signer->leaf.cert, signer->leaf.key}}, signer->embed());
  if (what == "good" && fault >= 0 && fault != 24) what = "good (no nonce)";
  std::string reply = raw ? junk : ref::b64(voucher);
  if (ok && !direct && r.chance(1, 6)) reply.insert(reply.size() / 2, "\r\n");
  BinaryArray pinned{};
  int rc, calls = 0;
  std::vector<Out> out;
  std::string info = fmt("%s: %s%s", direct ? "verify" : "request", what.c_str(), d.pc.nonce ? "" : " (no nonce)");
  time_t t0 = time(nullptr);
  if (direct) {
    Bytes cms;
    if (!ref::unb64(reply, cms)) cms = "";
    Buf b(cms), g(reg2);
    rc = verify_masa_pledge_request(&d.pc, &b.a, &g.a, &pinned);
  } else {
    net() = [&](const Out &o, std::string &resp, X509 *&peer) {
      out.push_back(o);
      if (++calls == 1) {
        if (first_rc < 0) return -1;
        resp = "Router error";
        if (!no_peer) peer = new_x509(reg);
        return first;
      }
      if (second_rc < 0) return -1;
      resp = reply;
      if (!no_peer2) peer = new_x509(reg2);
      return status;
    };
    rc = post_voucher_pledge_request(&d.pc, &d.rc, &d.mc, &pinned);
  }
  time_t t1 = time(nullptr);
  ERR_clear_error();
  evaluated(h, true);
  if (want_sample()) sample(info + fmt(" -> %d", rc));
  count(fmt("%s:%s:%s", direct ? "verify" : "request", rc < 0 ? "refused" : "accepted", what.c_str()));
  if (rc >= 0 && !ok) failf("client-accepts:" + what, "%s", info.c_str());
  if (rc < 0 && ok) failf("client-refuses-good", "%s", info.c_str());
  if (rc < 0 && (pinned.array || pinned.length)) failf("client-pinned-on-failure", "%zu bytes; %s", pinned.length, info.c_str());
  if (rc >= 0 && str(&pinned) != m.array[ref::A_PINNED]) failf("client-pinned-wrong", "%zu bytes; %s", pinned.length, info.c_str());
  if (!direct) {
    if (calls > 2) failf("client-requests", "%d requests; %s", calls, info.c_str());
    if (early && calls > 1) failf("client-request-sent", "a voucher-request was sent; %s", info.c_str());
    for (size_t k = 0; k < out.size(); k++) {
      const Out &o = out[k];
      if (o.host != d.rc.bind_address || o.port != (int)d.rc.port || o.path != PATH_BRSKI_REQUESTVOUCHER || o.key != d.pc.idevid_key_path || o.cert != d.pc.idevid_cert_path)
        failf("client-asks-elsewhere", "%s:%d%s as %s; %s", o.host.c_str(), o.port, o.path.c_str(), o.cert.c_str(), info.c_str());
      if (k == 0) continue;
      Bytes cms;
      if (!ref::unb64(o.body, cms)) { failf("client-request-not-base64", "%s", info.c_str()); continue; }
      VoucherModel w, g;
      w.serial = d.serial;
      w.assertion = 3;
      w.array[ref::A_PROXIMITY] = reg;
      if (d.pc.nonce) w.array[ref::A_NONCE] = d.nonce;
      Opened op = cms_open(cms);
      if (op.ok && ref::judge(op.content, g) == 1) {
        int64_t e = ref::epoch(g.time[ref::A_CREATED]);
        if (e < t0 || e > t1) failf("client-request-date", "created-on %s; %s", g.time[ref::A_CREATED].text().c_str(), info.c_str());
        w.time[ref::A_CREATED] = g.time[ref::A_CREATED];
      }
      check_issued("client-request", cms, d.maker.leaf.cert, d.maker.has_inter ? std::vector<Bytes>{d.maker.inter.cert} : std::vector<Bytes>{}, w, info);
      count("client-request-checked");
    }
  }
  free(pinned.array);
}
int main(int argc, char **argv) {
  setenv("TZ", "UTC", 1);
  init(argc, argv);
  if (!getenv("LOUD")) quiet_log();
  scratch = opt("scratch", ".");
  return run(one, 100);
}
