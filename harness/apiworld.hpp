// A deployment on disk (keys, certificates, configuration structures) and the
// request handlers of both servers, with the HTTPS client replaced.
#pragma once
#include "world.hpp"
#include <sys/stat.h>
#include <functional>
#include "brski/http/http.hpp"
#include "brski/masa/masa_api.hpp"
#include "brski/pledge/pledge_config.h"
#include "brski/registrar/registrar_api.hpp"
extern "C" {
#include "brski/config.h"
}
#include "brski/masa/masa_config.h"
#include "brski/registrar/registrar_config.h"

namespace api {
using namespace world;

// ---- the outgoing side --------------------------------------------------------
struct Out { std::string key, cert, ca, host, path, body, type; int port; bool verify; bool with_ca = false; };
typedef std::function<int(const Out &, std::string &response, X509 *&peer)> Net;
inline Net &net() { static Net *n = new Net; return *n; }
} // namespace api
#ifdef STUB_HTTPS
#include "brski/http/https_client.hpp"
int https_post_request(const std::string &client_key_path, const std::string &client_cert_path, const std::string &host, int port, const std::string &path, bool verify,
                       const std::string &body, const std::string &content_type, struct HttpResponse &http_res) {
  api::Out o{client_key_path, client_cert_path, "", host, path, body, content_type, port, verify};
  X509 *peer = nullptr;
  std::string resp;
  int st = api::net()(o, resp, peer);
  if (st >= 0) {
    http_res.peer_certificate = peer;
    http_res.response = resp;
  }
  return st;
}
int https_post_request_ca(const std::string &client_key_path, const std::string &client_cert_path, const std::string &ca, const std::string &host, int port,
                          const std::string &path, const std::string &body, const std::string &content_type, std::string &response) {
  api::Out o{client_key_path, client_cert_path, ca, host, path, body, content_type, port, true};
  o.with_ca = true;
  X509 *peer = nullptr;
  std::string resp;
  int st = api::net()(o, resp, peer);
  X509_free(peer);
  if (st >= 0) response = resp;
  return st;
}
int https_start(struct http_config *, std::vector<struct RouteTuple> &, void *, void **) { return -1; }
void https_stop(void *) {}
std::string get_https_address(const char *a, int p) { return std::string(a) + ":" + std::to_string(p); }
#endif

namespace api {
static inline X509 *new_x509(const Bytes &der) {
  const unsigned char *p = (const unsigned char *)der.data();
  return d2i_X509(nullptr, &p, (long)der.size());
}

// ---- a deployment -------------------------------------------------------------
struct Deploy {
  std::string dir;
  Party maker, dom, masa, other, fake_maker, fake_dom, fake_masa;
  Node regsign, enrol_ca;
  registrar_config rc{};
  masa_config mc{};
  pledge_config pc{};
  Bytes serial, expires = "2099-12-31T23:59:59Z", nonce64, nonce;
  std::vector<std::string *> strings;
  std::vector<BinaryArrayList *> lists;
  std::vector<std::string> files;
  std::map<std::string, std::string> path;
  std::vector<Bytes> reg_extra, masa_extra;

  char *str(const std::string &s) { strings.push_back(new std::string(s)); return &(*strings.back())[0]; }
  std::string file(const std::string &name, const Bytes &content) {
    std::string p = dir + "/" + name;
    write_file(p, content);
    files.push_back(p);
    path[name] = p;
    return p;
  }
  BinaryArrayList *list(const std::vector<std::string> &v) {
    BinaryArrayList *l = init_array_list();
    for (auto &s : v) push_array_list(l, (uint8_t *)s.c_str(), s.size() + 1, 0);
    lists.push_back(l);
    return l;
  }
  // plain: no surprises in it (no intermediates, printable serial number)
  Deploy(Rng &r, const std::string &d, bool plain = false) : dir(d) {
    mkdir(dir.c_str(), 0755);
    // a serial number a certificate name takes as it is (PrintableString, at most 64 octets)
    serial = plain ? "SN-" + std::to_string(r.below(1000000)) : plain_serial(r);
    static const std::string ok = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?";
    for (auto &c : serial) if (ok.find(c) == std::string::npos) c = ok[(unsigned char)c % ok.size()];
    serial = serial.substr(0, 60);
    while (!serial.empty() && serial.back() == ' ') serial.pop_back();
    while (!serial.empty() && serial[0] == ' ') serial.erase(0, 1); // it may have to go through a configuration file
    if (serial.empty()) serial = "0815 (x)";
    bool di = !plain && r.chance(1, 3);
    maker = party("Maker", 0, !plain && r.chance(1, 3), r, {{"C", "IE"}, {"CN", "idevid"}, {"serialNumber", serial}});
    dom = party("Domain", 3, false, r, cn("registrar"));
    masa = party("Masa", 6, di, r, cn("masa"));
    other = party("Other", 10, false, r, {{"CN", "other device"}, {"serialNumber", "other-1"}});
    if (!plain) for (Party *p : {&maker, &dom, &masa}) if (r.chance(1, 5)) enlarge(*p, p == &maker ? N_EC : p == &dom ? N_EC + 1 : N_EC + 2, r);
    fake_maker = impostor(maker, 9, r);
    fake_dom = impostor(dom, 13, r);
    fake_masa = impostor(masa, 9, r);
    regsign = child(dom.root, cn("registrar sign"), !plain && r.chance(1, 5) ? N_EC + 1 : 4, false, r);
    nonce = r.bytes(r.range(4, 32));
    nonce64 = ref::b64(nonce);
    auto C = [&](const char *n, const Bytes &der) { return file(n, pem("CERTIFICATE", der)); };
    auto K = [&](const char *n, int k) { return file(n, key_pem(k)); };
    pc.serial_number = str(serial);
    pc.nonce = plain || r.chance(3, 4) ? str(nonce64) : nullptr;
    pc.idevid_cert_path = str(C("idevid.crt", maker.leaf.cert));
    pc.idevid_key_path = str(K("idevid.key", maker.leaf.key));
    pc.idevid_ca_cert_path = str(C("idevid-ca.crt", maker.root.cert));
    pc.cms_sign_cert_path = pc.idevid_cert_path;
    pc.cms_sign_key_path = pc.idevid_key_path;
    if (maker.has_inter) pc.cms_add_certs_paths = list({C("maker-sub.crt", maker.inter.cert)});
    pc.cms_verify_store_paths = list({C("masa-root.crt", masa.root.cert)});
    rc.bind_address = str("127.0.0.1");
    rc.port = 1;
    rc.tls_cert_path = str(C("reg-tls.crt", dom.leaf.cert));
    rc.tls_key_path = str(K("reg-tls.key", dom.leaf.key));
    rc.tls_ca_cert_path = str(C("dom-ca.crt", dom.root.cert));
    rc.tls_ca_key_path = str(K("dom-ca.key", dom.root.key));
    rc.cms_sign_cert_path = str(C("reg-sign.crt", regsign.cert));
    rc.cms_sign_key_path = str(K("reg-sign.key", regsign.key));
    rc.cms_verify_store_paths = list({path["idevid-ca.crt"]});
    if (!plain && r.chance(1, 2)) { rc.cms_add_certs_paths = list({path["dom-ca.crt"]}); reg_extra = {dom.root.cert}; }
    mc.bind_address = rc.bind_address;
    mc.port = 2;
    mc.expires_on = str(expires);
    mc.ldevid_ca_cert_path = str(path["dom-ca.crt"]);
    mc.tls_cert_path = str(C("masa.crt", masa.leaf.cert));
    mc.tls_key_path = str(K("masa.key", masa.leaf.key));
    mc.tls_ca_cert_path = str(path["masa-root.crt"]);
    mc.cms_sign_cert_path = mc.tls_cert_path;
    mc.cms_sign_key_path = mc.tls_key_path;
    mc.cms_verify_store_paths = list({path["dom-ca.crt"]});
    if (masa.has_inter) { mc.cms_add_certs_paths = list({C("masa-sub.crt", masa.inter.cert)}); masa_extra = {masa.inter.cert}; }
  }
  Deploy(const Deploy &) = delete;
  ~Deploy() {
    for (auto *s : strings) delete s;
    for (auto *l : lists) free_array_list(l);
    for (auto &f : files) unlink(f.c_str());
    rmdir(dir.c_str());
  }
  VoucherModel pledge_model(Rng &r) const {
    VoucherModel m;
    m.time[ref::A_CREATED] = ref::rand_date(r);
    m.serial = serial;
    m.assertion = 3;
    m.array[ref::A_PROXIMITY] = dom.leaf.cert;
    if (r.chance(3, 4)) m.array[ref::A_NONCE] = nonce;
    return m;
  }
  Bytes pledge_request(const VoucherModel &m, Rng &r) const { return cms_sign(doc_of(m, r), {{maker.leaf.cert, maker.leaf.key}}, maker.embed()); }
  VoucherModel registrar_model(const Bytes &pledge_req, const VoucherModel &pm, Rng &r) const {
    VoucherModel m;
    m.time[ref::A_CREATED] = ref::rand_date(r);
    m.serial = pm.serial;
    auto n = pm.array.find(ref::A_NONCE);
    if (n != pm.array.end()) m.array[ref::A_NONCE] = n->second;
    m.array[ref::A_ISSUER] = "issuer";
    m.array[ref::A_PRIOR] = pledge_req;
    return m;
  }
  Bytes registrar_request(const VoucherModel &m, Rng &r) const { return cms_sign(doc_of(m, r), {{regsign.cert, regsign.key}}, {}); }
  // the voucher the MASA must give for a registrar request
  VoucherModel voucher_model(const VoucherModel &rm) const {
    VoucherModel v;
    v.serial = rm.serial;
    v.assertion = 3;
    ref::parse_date(expires, v.time[ref::A_EXPIRES]);
    v.array[ref::A_PINNED] = dom.root.cert;
    auto n = rm.array.find(ref::A_NONCE);
    if (n != rm.array.end()) v.array[ref::A_NONCE] = n->second;
    return v;
  }
  Bytes voucher(const VoucherModel &m, Rng &r) const { return cms_sign(doc_of(m, r), {{masa.leaf.cert, masa.leaf.key}}, masa.embed()); }
};
struct Reply { int status = 0; ResponseHeader headers; std::string body; };
typedef int (*Handler)(const RequestHeader &, const std::string &, CRYPTO_CERT, ResponseHeader &, std::string &, void *);
static inline Reply call(Handler h, const std::string &body, const Bytes &peer, void *ctx) {
  Reply p;
  X x(peer);
  RequestHeader rh{{"Content-Type", "application/voucher-cms+json"}};
  p.status = h(rh, body, (CRYPTO_CERT)x.x, p.headers, p.body, ctx);
  ERR_clear_error();
  return p;
}
static inline bool looks_like_cms(const std::string &s) { // base64 of something CMS_verify can open?
  Bytes d;
  return s.size() > 40 && ref::unb64(s, d) && Cms(d).c != nullptr;
}
// a request body that cannot be a voucher-request
static inline std::string junk_body(Rng &r) {
  switch (r.below(7)) {
  case 0: return "";
  case 1: return r.bytes(r.range(1, 200));
  case 2: return ref::b64(r.bytes(r.range(1, 300)));
  case 3: return std::string(r.range(1, 5), '=');
  case 4: return "{\"ietf-voucher:voucher\":{\"serial-number\":\"1\"}}";
  case 5: return ref::b64("{\"ietf-voucher:voucher\":{\"serial-number\":\"1\"}}") + "====";
  default: return "-----BEGIN CMS-----\n" + ref::b64(r.bytes(90)) + "\n-----END CMS-----\n";
  }
}
} // namespace api
