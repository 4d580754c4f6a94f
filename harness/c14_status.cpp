// C14: status and content of the replies of both servers' request handlers.
#define STUB_HTTPS
#include "apiworld.hpp"
using namespace api;

static std::string scratch;
// Used for C10 and C11 as well: what is issued, not how the reply looks, is judged then
static bool issued_only;
#define LOOKS if (!issued_only)

// Breaks a file the configuration names (or its name); restored by the Deploy going away
static std::string spoil_file(Deploy &d, char *&field, Rng &r) {
  switch (r.below(4)) {
  case 0: field = d.str(d.dir + "/missing"); return "missing";
  case 1: write_file(field, ""); return "empty";
  case 2: write_file(field, r.bytes(100)); return "garbage";
  default: write_file(field, "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"); return "bad PEM";
  }
}

static Bytes issuer_line(const Bytes &cert) { // as OpenSSL prints names on one line
  X x(cert);
  BIO *b = BIO_new(BIO_s_mem());
  X509_NAME_print_ex(b, X509_get_issuer_name(x), 0, XN_FLAG_ONELINE);
  char *p;
  long n = BIO_get_mem_data(b, &p);
  Bytes s(p, (size_t)n);
  BIO_free(b);
  return s;
}

static void registrar(Rng &r, long i) {
  uint64_t h = r.s;
  Deploy d(r, scratch + "/d" + std::to_string(i));
  RegistrarContext ctx{};
  ctx.rconf = &d.rc;
  ctx.mconf = &d.mc;
  std::string what;
  int expect = 200; // 4: 400, 5: 500, 45: either, -1: not judged
  VoucherModel pm = d.pledge_model(r);
  Bytes peer = d.maker.leaf.cert, req = d.pledge_request(pm, r);
  std::string body;
  int fault = r.chance(1, 3) ? -1 : (int)r.below(25);
  switch (fault) {
  case 0: case 1: body = junk_body(r); expect = 400; what = "junk body"; break;
  case 2: pm.serial = near(d.serial, r); expect = 400; what = "other serial number"; break;
  case 3: pm.serial.reset(); expect = 400; what = "no serial number"; break;
  case 4: pm.array[ref::A_PROXIMITY] = d.other.leaf.cert; expect = 400; what = "other registrar"; break;
  case 5: pm.assertion = (int)r.below(3); expect = 400; what = "not proximity"; break;
  case 6: peer = d.other.leaf.cert; expect = 400; what = "another device's certificate"; break;
  case 7: peer = d.dom.leaf.cert; expect = 400; what = "peer certificate without serial number"; break;
  case 8: peer.clear(); expect = 400; what = "no peer certificate"; break;
  case 9: { std::string how; req = cms_sign(doc_of(pm, r), {{d.fake_maker.leaf.cert, d.fake_maker.leaf.key}}, d.fake_maker.embed()); body = ref::b64(req); expect = 400; what = "impostor"; break; }
  case 10: body = ref::b64(near_blob(req, r)); expect = -1; what = "damaged request"; break;
  case 11: what = "registrar TLS certificate " + spoil_file(d, d.rc.tls_cert_path, r); expect = 500; break;
  case 12: what = "signing certificate " + spoil_file(d, d.rc.cms_sign_cert_path, r); expect = 500; break;
  case 13: what = "signing key " + spoil_file(d, d.rc.cms_sign_key_path, r); expect = 500; break;
  case 14: d.rc.cms_verify_certs_paths = d.list({d.dir + "/missing"}); what = "verify certificate missing"; expect = 500; break;
  case 15: d.rc.cms_verify_store_paths = d.list({d.path["idevid-ca.crt"], d.dir + "/missing"}); what = "store certificate missing"; expect = 500; break;
  case 16: d.rc.cms_add_certs_paths = d.list({d.path["idevid.key"]}); what = "additional certificate bad"; expect = 500; break;
  case 17: what = "signing certificate not configured"; d.rc.cms_sign_cert_path = nullptr; expect = 500; break;
  case 18: what = "signing key not configured"; d.rc.cms_sign_key_path = nullptr; expect = 500; break;
  case 19: what = "TLS certificate not configured"; d.rc.tls_cert_path = nullptr; expect = 500; break;
  case 20: what = "foreign signing key"; d.rc.cms_sign_key_path = d.str(d.path["idevid.key"]); expect = 45; break;
  case 21: body = ref::b64(req.substr(0, r.below(req.size()))); expect = 400; what = "truncated request"; break;
  case 22: req = cms_sign(doc_of(pm, r), {{d.dom.leaf.cert, d.dom.leaf.key}}, d.dom.embed()); expect = 400; what = "request signed by the registrar"; break;
  case 23: req = cms_sign(doc_of(pm, r), {{d.other.leaf.cert, d.other.leaf.key}}, {d.other.root.cert}); d.rc.cms_verify_certs_paths = d.list({d.file("other-root.crt", pem("CERTIFICATE", d.other.root.cert))}); expect = 400; what = "signer known but not trusted"; break;
  case 24: pm.array[ref::A_PROXIMITY] = r.chance(1, 2) ? d.dom.root.cert : d.regsign.cert; expect = 400; what = "another certificate of the registrar"; break;
  }
  if ((fault >= 2 && fault <= 5) || fault == 24) req = d.pledge_request(pm, r);
  if (body.empty() && fault > 1) body = ref::b64(req);
  if (fault < 0) { body = ref::b64(req); what = "good request"; }
  if (fault == -1 && r.chance(1, 6)) { // line breaks as base64 encoders make them
    for (size_t p = 64; p < body.size(); p += 65) body.insert(p, "\n");
    what = "good request with line breaks";
  }
  // the MASA behind it
  int mode = r.chance(1, 2) ? 0 : (int)r.below(8);
  static const int codes[] = {400, 401, 404, 500, 502, 503, 505, 301, 302, 204, 304, 100};
  std::string masa_body = ref::b64(d.voucher(d.voucher_model(d.registrar_model(req, pm, r)), r)), mwhat = "answers";
  int masa_status = 200;
  switch (mode) {
  case 1: masa_status = -1; mwhat = "unreachable"; break;
  case 2: case 3: case 4: masa_status = codes[r.below(12)]; masa_body = "Router error"; mwhat = "status " + std::to_string(masa_status); break;
  case 5: masa_status = codes[r.below(7)]; mwhat = "status " + std::to_string(masa_status) + " with a voucher"; break;
  case 6: masa_status = codes[r.below(7)]; masa_body = ""; mwhat = "status " + std::to_string(masa_status) + " and nothing"; break;
  default: break;
  }
  std::vector<Out> sent;
  net() = [&](const Out &o, std::string &resp, X509 *&pc) {
    sent.push_back(o);
    if (masa_status < 0) return -1;
    resp = masa_body;
    pc = new_x509(d.masa.leaf.cert);
    return masa_status;
  };
  time_t t0 = time(nullptr);
  Reply p = call(registrar_requestvoucher, body, peer, &ctx);
  time_t t1 = time(nullptr);
  std::string info = fmt("registrar, %s, MASA %s -> %d '%s'", what.c_str(), mwhat.c_str(), p.status, printable(p.body, 80).c_str());
  evaluated(h, true);
  if (want_sample()) sample(info);
  std::string k = fault < 0 ? "good" : what.substr(0, what.find(' ', 12));
  if (expect == 200 && masa_status != 200) expect = 502;
  count(fmt("registrar:%d:%s", p.status, expect == 502 ? "MASA " + mwhat.substr(0, 10) == "MASA unreachabl" ? "MASA unreachable" : "MASA fails" : fault < 0 ? "good" : what.c_str()));
  bool judged = true;
  if (expect == 45) judged = p.status == 400 || p.status == 500;
  else if (expect == -1) judged = p.status == 400 || (p.status == 200 && masa_status == 200) || (p.status == 502 && masa_status != 200);
  else judged = p.status == expect;
  if (issued_only) { // asked for a voucher exactly when it must
    bool must = expect == 200 || expect == 502, must_not = expect == 400 || expect == 500 || expect == 45;
    if (must && sent.empty()) failf("not-issued", "%s", info.c_str());
    if (must_not && !sent.empty()) failf("issued:" + k, "%s", info.c_str());
  }
  LOOKS if (!judged) failf(fmt("registrar-status:%s:%d-for-%d", expect == 502 ? "masa-fails" : fault < 0 ? "good" : "bad", p.status, expect), "expected %d: %s", expect, info.c_str());
  LOOKS if (p.status == 200) {
    if (masa_status == 200 && p.body != masa_body) failf("registrar-body", "the body is not what the MASA sent; %s", info.c_str());
    if (p.headers["Content-Type"] != "application/voucher-cms+json") failf("registrar-type", "Content-Type %s; %s", p.headers["Content-Type"].c_str(), info.c_str());
  } else if (looks_like_cms(p.body)) failf("registrar-error-with-voucher", "%s", info.c_str());
  LOOKS if (sent.size() > 1) failf("registrar-asks-twice", "%zu requests to the MASA; %s", sent.size(), info.c_str());
  LOOKS if (p.status >= 400 && p.status < 502 && !sent.empty() && expect != -1) failf("registrar-asks-for-rejected", "the MASA was asked although the request was rejected; %s", info.c_str());
  for (auto &o : sent) {
    LOOKS if (o.host != d.mc.bind_address || o.port != (int)d.mc.port || o.path != PATH_BRSKI_REQUESTVOUCHER || o.key != d.rc.tls_key_path || o.cert != d.rc.tls_cert_path)
      failf("registrar-asks-elsewhere", "%s:%d%s with %s; %s", o.host.c_str(), o.port, o.path.c_str(), o.cert.c_str(), info.c_str());
    Bytes cms;
    if (!ref::unb64(o.body, cms)) { failf("registrar-request-not-base64", "%s", info.c_str()); continue; }
    if (expect == -1) continue;
    VoucherModel w = d.registrar_model(req, pm, r), m;
    Opened op = cms_open(cms);
    if (op.ok && ref::judge(op.content, m) == 1) {
      int64_t e = ref::epoch(m.time[ref::A_CREATED]);
      if (e < t0 || e > t1) failf("registrar-request-date", "created-on %s; %s", m.time[ref::A_CREATED].text().c_str(), info.c_str());
      w.time[ref::A_CREATED] = m.time[ref::A_CREATED];
      w.array[ref::A_ISSUER] = m.array[ref::A_ISSUER]; // its encoding is C07's subject
      if (issued_only && m.array[ref::A_ISSUER] != issuer_line(peer)) failf("registrar-request-issuer", "issuer %s; %s", printable(m.array[ref::A_ISSUER]).c_str(), info.c_str());
      if (m.array[ref::A_ISSUER].find("Maker") == Bytes::npos) failf("registrar-request-issuer", "issuer %s; %s", printable(m.array[ref::A_ISSUER]).c_str(), info.c_str());
    }
    check_issued("registrar-request", cms, d.regsign.cert, d.reg_extra, w, info);
    count("registrar-request-checked");
  }
}

static void masa(Rng &r, long i) {
  uint64_t h = r.s;
  Deploy d(r, scratch + "/d" + std::to_string(i));
  MasaContext ctx{};
  ctx.rconf = &d.rc;
  ctx.mconf = &d.mc;
  std::string what = "good request", body;
  int expect = 200;
  VoucherModel pm = d.pledge_model(r);
  if (r.chance(1, 8)) pm.serial = d.serial + "2";
  Bytes preq = d.pledge_request(pm, r);
  VoucherModel rm = d.registrar_model(preq, pm, r);
  Bytes req;
  auto lost = [&](const char *w) { what = w; expect = 400; };
  int fault = r.chance(1, 3) ? -1 : (int)r.below(24);
  switch (fault) {
  case 0: case 1: body = junk_body(r); lost("junk body"); break;
  case 2: rm.serial = near(*rm.serial, r); lost("serials differ"); break;
  case 3: rm.serial.reset(); lost("no serial number"); break;
  case 4: rm.array.erase(ref::A_PRIOR); lost("no pledge request"); break;
  case 5: rm.array[ref::A_PRIOR] = cms_sign(doc_of(pm, r), {{d.fake_maker.leaf.cert, d.fake_maker.leaf.key}}, d.fake_maker.embed()); lost("pledge request of an impostor"); break;
  case 6: req = cms_sign(doc_of(rm, r), {{d.fake_dom.leaf.cert, d.fake_dom.leaf.key}}, {}); lost("impostor registrar"); break;
  case 7: req = d.registrar_request(rm, r); req = req.substr(0, r.below(req.size())); if (req.empty()) req = "0"; lost("truncated"); break;
  case 8: spoil_file(d, d.mc.cms_sign_cert_path, r); lost("signing certificate unusable"); break;
  case 9: spoil_file(d, d.mc.cms_sign_key_path, r); lost("signing key unusable"); break;
  case 10: d.mc.ldevid_ca_cert_path = d.str(d.dir + "/missing"); lost("pinned certificate missing"); break;
  case 11: d.mc.cms_verify_certs_paths = d.list({d.dir + "/missing"}); lost("verify certificate missing"); break;
  case 12: d.mc.cms_verify_store_paths = d.list({d.dir + "/missing"}); lost("store certificate missing"); break;
  case 13: d.rc.cms_verify_store_paths = d.list({d.dir + "/missing"}); lost("pledge store certificate missing"); break;
  case 14: d.rc.cms_verify_certs_paths = d.list({d.dir + "/missing"}); lost("pledge verify certificate missing"); break;
  case 15: d.mc.cms_add_certs_paths = d.list({d.dir + "/missing"}); lost("additional certificate missing"); break;
  case 16: d.mc.expires_on = r.chance(1, 2) ? nullptr : d.str("whenever"); lost("expiry unusable"); break;
  case 17: d.mc.cms_sign_key_path = d.str(d.path["dom-ca.key"]); lost("foreign signing key"); break;
  case 18: d.mc.ldevid_ca_cert_path = nullptr; lost("pinned certificate not configured"); break;
  case 19: d.mc.cms_sign_cert_path = nullptr; lost("signing certificate not configured"); break;
  case 20: rm.array[ref::A_PRIOR] = cms_sign(doc_of(pm, r), {{d.dom.leaf.cert, d.dom.leaf.key}}, d.dom.embed()); lost("pledge request signed by the registrar"); break;
  case 21: req = cms_sign(doc_of(rm, r), {{d.maker.leaf.cert, d.maker.leaf.key}}, d.maker.embed()); lost("signed by the pledge"); break;
  case 22: d.mc.cms_verify_certs_paths = d.list({d.file("other-root.crt", pem("CERTIFICATE", d.other.root.cert))}); req = cms_sign(doc_of(rm, r), {{d.other.leaf.cert, d.other.leaf.key}}, {d.other.root.cert}); lost("registrar known but not trusted"); break;
  case 23: d.rc.cms_verify_certs_paths = d.list({d.file("other-root.crt", pem("CERTIFICATE", d.other.root.cert))}); rm.array[ref::A_PRIOR] = cms_sign(doc_of(pm, r), {{d.other.leaf.cert, d.other.leaf.key}}, {d.other.root.cert}); lost("pledge known but not trusted"); break;
  }
  if (fault > 1 || fault < 0) body = ref::b64(req.empty() ? d.registrar_request(rm, r) : req);
  net() = [&](const Out &, std::string &, X509 *&) { return -1; };
  Reply p = call(masa_requestvoucher, body, d.dom.leaf.cert, &ctx);
  std::string info = fmt("MASA, %s -> %d '%s'", what.c_str(), p.status, printable(p.body, 80).c_str());
  evaluated(h, true);
  count(fmt("masa:%d:%s", p.status, what.c_str()));
  if (want_sample()) sample(info);
  if (issued_only && p.status != expect) {
    if (expect == 200 && !looks_like_cms(p.body)) failf("not-issued", "%s", info.c_str());
    if (expect != 200 && looks_like_cms(p.body)) failf("issued:" + what, "%s", info.c_str());
  } else if (p.status != expect) failf(fmt("masa-status:%d-for-%d", p.status, expect), "%s", info.c_str());
  else if (p.status == 200) {
    Bytes cms;
    if (!ref::unb64(p.body, cms)) failf("masa-not-base64", "%s", info.c_str());
    else check_issued("voucher", cms, d.masa.leaf.cert, d.masa_extra, d.voucher_model(rm), info);
  } else if (looks_like_cms(p.body)) failf("masa-error-with-voucher", "%s", info.c_str());
  // the same server afterwards
  if (fault >= 0 && fault < 8) {
    Reply q = call(masa_requestvoucher, ref::b64(d.registrar_request(d.registrar_model(preq, pm, r), r)), d.dom.leaf.cert, &ctx);
    LOOKS if (q.status != 200) failf("masa-after-failure", "a good request gets %d after: %s", q.status, info.c_str());
    count("masa:good-after-bad");
  }
}

static void others(Rng &r, long i) {
  Deploy d(r, scratch + "/d" + std::to_string(i));
  RegistrarContext rctx{};
  rctx.rconf = &d.rc;
  rctx.mconf = &d.mc;
  MasaContext mctx{};
  mctx.rconf = &d.rc;
  mctx.mconf = &d.mc;
  VoucherModel pm = d.pledge_model(r);
  std::string body = r.chance(1, 3) ? junk_body(r) : ref::b64(d.pledge_request(pm, r));
  net() = [&](const Out &, std::string &, X509 *&) { return -1; };
  struct { const char *n; Handler h; bool masa, implemented; } hs[] = {
      {"registrar_voucher_status", registrar_voucher_status, false, true}, {"registrar_requestauditlog", registrar_requestauditlog, false, true},
      {"registrar_enrollstatus", registrar_enrollstatus, false, true}, {"masa_voucher_status", masa_voucher_status, true, true},
      {"masa_requestauditlog", masa_requestauditlog, true, true}, {"masa_enrollstatus", masa_enrollstatus, true, true},
      {"get_est_cacerts", get_est_cacerts, true, false}, {"post_est_simpleenroll", post_est_simpleenroll, true, false},
      {"post_est_simplereenroll", post_est_simplereenroll, true, false}, {"post_est_fullcmc", post_est_fullcmc, true, false},
      {"post_est_serverkeygen", post_est_serverkeygen, true, false}, {"get_est_csrattrs", get_est_csrattrs, true, false}};
  for (auto &x : hs) {
    Reply p = call(x.h, body, d.maker.leaf.cert, x.masa ? (void *)&mctx : (void *)&rctx);
    std::string info = fmt("%s -> %d '%s'", x.n, p.status, printable(p.body, 80).c_str());
    if (looks_like_cms(p.body) || p.body.find("ietf-voucher") != std::string::npos) failf("other-with-voucher", "%s", info.c_str());
    if (!x.implemented && p.status < 400) failf("unimplemented-claims-success", "%s", info.c_str());
    if (p.status >= 400 && p.headers["Content-Type"].find("text/plain") == std::string::npos) failf("other-error-not-plain-text", "%s", info.c_str());
    count(fmt("other:%s:%d", x.n, p.status));
    evaluated(mix(r.s ^ hash(std::string(x.n))), true);
  }
}
int main(int argc, char **argv) {
  setenv("TZ", "UTC", 1);
  init(argc, argv);
  if (!getenv("LOUD")) quiet_log();
  scratch = opt("scratch", ".");
  std::string m = opt("mode");
  issued_only = opt("judge") == "issued";
  return run([&](Rng &r, long i) { m == "masa" ? masa(r, i) : m == "others" ? others(r, i) : registrar(r, i); }, 100);
}
