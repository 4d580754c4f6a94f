// C20: the command-line pledge against honest and dishonest registrars and MASAs.
// Both real servers run in this process; a hop before each of them records and,
// knowing every TLS key, changes what passes. Whatever the pledge was really
// sent is judged independently and compared to what the tool makes of it.
#include "e2e.hpp"
#include "brski/masa/masa_server.hpp"
#include "brski/registrar/registrar_server.hpp"
using namespace e2e;

static std::string scratch;
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *p, const char *m) {
  return __real_fopen(!strncmp(p, "/var/log/", 9) ? (scratch + "/log").c_str() : p, m);
}

// ---- what passed -----------------------------------------------------------------
struct History {
  std::mutex mu;
  std::map<Bytes, std::vector<Bytes>> vouchers, requests, certs, enrols; // by serial number, as sent
  void add(std::map<Bytes, std::vector<Bytes>> &m, const Bytes &s, const Bytes &b) { std::lock_guard<std::mutex> g(mu); m[s].push_back(b); }
  bool get(std::map<Bytes, std::vector<Bytes>> &m, const Bytes &serial, bool own, Rng &r, Bytes &out) {
    std::lock_guard<std::mutex> g(mu);
    std::vector<Bytes> c;
    for (auto &x : m) if ((x.first == serial) == own) c.insert(c.end(), x.second.begin(), x.second.end());
    if (c.empty()) return false;
    out = r.pick(c);
    return true;
  }
};
struct Device { Node leaf; Bytes serial, crt, key; bool inter = false; };
struct Seen { bool connected = false, asked = false, answered = false; Bytes shown, request; int status = 0; Bytes body; };
struct Session {
  Device *dev;
  Rng r{1};
  Bytes nonce;
  bool has_nonce = true, sign = false, direct = false, to_file = false, honest = true;
  std::string what = "honest";
  // changes to what passes at the registrar; false: the connection ends there
  std::function<bool(int, Message &)> ask;
  std::function<bool(int, const Message &, Message &)> answer;
  std::function<bool(Message &, Message &)> masa; // at the MASA's door
  int show[3] = {0, 0, 0};
  Seen seen[3];
  std::mutex mu;
  std::string dir, out;
  Process p;
};
struct World {
  api::Deploy d;
  Rng &r;
  std::vector<Device> devs;
  std::vector<std::string> files;
  registrar_config rc;
  masa_config mc_served, mc_asked;
  RegistrarContext *rctx = nullptr;
  MasaContext *mctx = nullptr;
  Running masa, registrar;
  std::unique_ptr<RawServer> door; // before the MASA
  History h;
  std::mutex mu;
  std::map<Bytes, Session *> by_serial;
  std::vector<std::unique_ptr<Ctx>> faces; // what a registrar may show
  std::vector<Bytes> face_cert;
  std::vector<std::string> face_name;
  bool good = false;
  World(Rng &q, long i) : d(q, scratch + "/d" + std::to_string(i), q.chance(1, 2)), r(q) {
    for (int k = 0; k < 4; k++) {
      Device v;
      if (k == 0) v.leaf = d.maker.leaf, v.serial = d.serial, v.crt = d.path["idevid.crt"], v.key = d.path["idevid.key"], v.inter = d.maker.has_inter;
      else {
        static const int keys[] = {0, 10, 11, 12};
        v.serial = r.chance(1, 3) ? d.serial + "0" : fmt("device %d-%ld", k, (long)r.below(100000));
        for (auto &o : devs) if (o.serial == v.serial) v.serial += fmt("/%d", k);
        v.leaf = child(d.maker.has_inter ? d.maker.inter : d.maker.root, {{"C", "IE"}, {"CN", "idevid"}, {"serialNumber", v.serial}}, keys[k], false, r);
        v.crt = d.file(fmt("dev%d.crt", k), pem("CERTIFICATE", v.leaf.cert));
        v.key = d.file(fmt("dev%d.key", k), key_pem(v.leaf.key));
        v.inter = d.maker.has_inter;
      }
      devs.push_back(v);
    }
    mc_served = d.mc, mc_asked = d.mc, rc = d.rc;
    mc_served.port = 0, rc.port = 0;
    if (!masa.start([this] { return masa_start(&d.rc, &mc_served, &d.pc, &mctx); })) return;
    // the registrar's key, to speak to the MASA in its name
    door.reset(new RawServer(Identity{chain(d.masa), d.masa.leaf.key}, [this](Conn &c, bool up) { if (up) at_masa(c); }));
    mc_asked.port = door->port;
    if (!registrar.start([this] { return registrar_start(&rc, &mc_asked, &rctx); })) return;
    Node self;
    Spec s;
    s.subject = s.issuer = d.dom.leaf.name, s.pub = s.sig = d.dom.leaf.key, s.serial = 5;
    face("the registrar", {d.dom.leaf.cert}, d.dom.leaf.key);
    face("a look-alike", {d.fake_dom.leaf.cert, d.fake_dom.root.cert}, d.fake_dom.leaf.key);
    face("somebody else", {d.other.leaf.cert}, d.other.leaf.key);
    face("a self-signed copy", {make_cert(s)}, d.dom.leaf.key);
    face("the MASA", {d.masa.leaf.cert}, d.masa.leaf.key);
    good = true;
  }
  static std::vector<Bytes> chain(const Party &p) { std::vector<Bytes> v{p.leaf.cert}; if (p.has_inter) v.push_back(p.inter.cert); return v; }
  void face(const char *n, const std::vector<Bytes> &c, int k) { faces.emplace_back(new Ctx(true, Identity{c, k})); face_cert.push_back(c[0]); face_name.push_back(n); }
  void finish() {
    registrar.stop();
    masa.stop();
    door.reset();
    if (rctx && registrar.rc == 0) registrar_stop(rctx);
    if (mctx && masa.rc == 0) masa_stop(mctx);
  }
  static bool forward(int port, const Identity &id, const Message &q, Message &a) {
    Ctx c(false, id);
    for (int k = 0; k < 3; k++) {
      Conn x;
      if (!x.connect(port, c.c)) continue;
      std::vector<std::pair<std::string, std::string>> hs;
      Bytes t = q.method + " " + q.target + " HTTP/1.1\r\nHost: 127.0.0.1\r\nConnection: close\r\n";
      if (!q.one("Content-Type").empty()) t += "Content-Type: " + q.one("Content-Type") + "\r\n";
      t += fmt("Content-Length: %zu\r\n\r\n", q.body.size()) + q.body;
      if (!x.write(t)) continue;
      a = read_message(x, false);
      if (a.ok) return true;
    }
    return false;
  }
  static void give(Conn &c, const Message &a) { c.write(reply_text(a.status, {{"Content-Type", a.one("Content-Type").empty() ? "text/plain" : a.one("Content-Type")}, {"Connection", "close"}}, a.body)); }
  void at_masa(Conn &c) {
    Message q = read_message(c, true), a;
    if (!q.ok) return;
    Session *s = nullptr;
    Bytes cms;
    VoucherModel g;
    if (ref::unb64(q.body, cms)) {
      Opened o = cms_open(cms);
      if (o.ok && ref::judge(o.content, g) == 1 && g.serial) { std::lock_guard<std::mutex> l(mu); auto i = by_serial.find(*g.serial); if (i != by_serial.end()) s = i->second; }
    }
    if (!forward(masa.port, Identity{{d.dom.leaf.cert}, d.dom.leaf.key}, q, a)) return;
    if (s && s->masa && !s->masa(q, a)) return;
    give(c, a);
  }
  // the hop between one pledge and the registrar
  void at_registrar(Session &s, Conn &c) {
    int n = (int)std::min(c.number, 2L);
    {
      std::lock_guard<std::mutex> g(s.mu);
      s.seen[n].connected = true;
      s.seen[n].shown = face_cert[s.show[n]];
    }
    Message q = read_message(c, true), a;
    if (!q.ok) return;
    {
      std::lock_guard<std::mutex> g(s.mu);
      s.seen[n].asked = true;
      s.seen[n].request = q.body;
    }
    if (n == 1) h.add(h.requests, s.dev->serial, q.body);
    if (n == 2) h.add(h.enrols, s.dev->serial, q.body);
    if (s.ask && !s.ask(n, q)) return;
    if (!forward(registrar.port, Identity{{s.dev->leaf.cert}, s.dev->leaf.key}, q, a)) return;
    if (n == 1 && a.status == 200) h.add(h.vouchers, s.dev->serial, a.body);
    if (n == 2 && a.status == 200) h.add(h.certs, s.dev->serial, a.body);
    if (s.answer && !s.answer(n, q, a)) return;
    {
      std::lock_guard<std::mutex> g(s.mu);
      s.seen[n].answered = true;
      s.seen[n].status = a.status;
      s.seen[n].body = a.body;
    }
    give(c, a);
  }
};

// ---- what goes wrong ---------------------------------------------------------------
static Bytes resigned(World &w, const Bytes &cms, Rng &r, std::string &how, bool masa_too) {
  Opened o = cms_open(cms);
  const Party *p;
  switch (r.below(5)) {
  case 0: p = &w.d.fake_masa; how = "signed by a look-alike of the MASA"; break;
  case 1: p = &w.d.maker; how = "signed by the device"; break;
  case 2: p = &w.d.dom; how = "signed by the registrar"; break;
  case 3: p = &w.d.other; how = "signed by somebody else"; break;
  default: // the content changed under a genuine signature value
    how = "with the signature of another content";
    return with_signature(cms_sign(o.content + " ", {{w.d.masa.leaf.cert, w.d.masa.leaf.key}}, w.d.masa.embed()), signature_of(cms));
  }
  (void)masa_too;
  return cms_sign(o.content, {{p->leaf.cert, p->leaf.key}}, p->embed());
}
// a dishonest MASA: its own signature under something else
static Bytes dishonest(World &w, Session &s, const Bytes &cms, Rng &r, std::string &how) {
  Opened o = cms_open(cms);
  VoucherModel m;
  if (ref::judge(o.content, m) != 1) return cms;
  switch (r.below(8)) {
  case 0: m.serial = near(s.dev->serial, r); how = "for a near serial number"; break;
  case 1: { const Device &x = r.pick(w.devs); m.serial = x.serial; how = "for some device"; break; }
  case 2: m.array[ref::A_NONCE] = near_blob(s.nonce, r); how = "with a near nonce"; break;
  case 3: m.array.erase(ref::A_NONCE); how = "without a nonce"; break;
  case 4: m.array[ref::A_PINNED] = w.d.other.root.cert; how = "pinning another domain"; break;
  case 5: m.array[ref::A_PINNED] = w.d.fake_dom.root.cert; how = "pinning a look-alike domain"; break;
  case 6: m.array.erase(ref::A_PINNED); how = "pinning nothing"; break;
  default: m.serial.reset(); how = "without a serial number"; break;
  }
  how = "a MASA which signs a voucher " + how;
  return cms_sign(doc_of(m, r), {{w.d.masa.leaf.cert, w.d.masa.leaf.key}}, w.d.masa.embed());
}
static Bytes spoilt_text(const Bytes &t, Rng &r, std::string &how) {
  Bytes d, x = t;
  switch (r.below(6)) {
  case 0: if (ref::unb64(t, d) && !d.empty()) { d[r.below(d.size())] ^= (char)(1 << r.below(8)); how = "with a bit changed"; return ref::b64(d); } // fall through
  case 1: if (!x.empty()) { x[r.below(x.size())] = "ABCabc019+/=-"[r.below(13)]; how = "with a character changed"; return x; } // fall through
  case 2: how = "cut"; return x.substr(0, r.below(x.size() + 1));
  case 3: how = "empty"; return "";
  case 4: how = "with something after it"; return x + (r.chance(1, 2) ? "AAAA" : "\n");
  default: how = "replaced by junk"; return api::junk_body(r);
  }
}
// a status which is neither 200 nor an error
static std::string odd_status(Rng &r, Message &a) {
  static const int st[] = {201, 202, 203, 206, 226, 302};
  if (!r.chance(1, 3)) return "";
  a.status = st[r.below(6)];
  count("odd statuses");
  return fmt(" with status %d", a.status);
}
static void mischief(World &w, Session &s) {
  Rng &r = s.r;
  s.honest = false;
  Rng q(r.next());
  auto reply_at = [&](int conn, std::function<bool(const Message &, Message &)> f) { s.answer = [conn, f](int n, const Message &a, Message &b) { return n == conn ? f(a, b) : true; }; };
  auto ask_at = [&](int conn, std::function<bool(Message &)> f) { s.ask = [conn, f](int n, Message &a) { return n == conn ? f(a) : true; }; };
  int last = s.sign ? 2 : 1;
  switch (r.below(s.sign ? 21 : 16)) {
  case 0: case 1: reply_at(1, [q, &s](const Message &, Message &a) mutable { std::string how; a.body = spoilt_text(a.body, q, how); s.what = "voucher " + how + odd_status(q, a); return true; }); break;
  case 2: case 3: reply_at(1, [q, &s, &w](const Message &, Message &a) mutable { Bytes c; std::string how = "kept"; if (ref::unb64(a.body, c) && cms_open(c).ok) a.body = ref::b64(resigned(w, c, q, how, false)); s.what = "voucher " + how; return true; }); break;
  case 4: reply_at(1, [q, &s, &w](const Message &, Message &a) mutable { Bytes v; s.what = "an earlier voucher of the same device"; if (w.h.get(w.h.vouchers, s.dev->serial, true, q, v)) a.body = v, a.status = 200; return true; }); break;
  case 5: reply_at(1, [q, &s, &w](const Message &, Message &a) mutable { Bytes v; s.what = "a voucher of another device"; if (w.h.get(w.h.vouchers, s.dev->serial, false, q, v)) a.body = v, a.status = 200; else a.body = ""; return true; }); break;
  case 6: s.what = "error status with the voucher"; reply_at(1, [q](const Message &, Message &a) mutable { static const int st[] = {400, 401, 403, 404, 415, 500, 503}; a.status = st[q.below(7)]; return true; }); break;
  case 7: { int n = (int)r.below(last + 1); s.what = fmt("reply %d withheld", n); reply_at(n, [](const Message &, Message &) { return false; }); break; }
  case 8: { int n = (int)r.below(last + 1); s.what = fmt("request %d withheld", n); ask_at(n, [](Message &) { return false; }); break; }
  case 9: ask_at(1, [q, &s](Message &a) mutable { std::string how; a.body = spoilt_text(a.body, q, how); s.what = "voucher-request " + how; return true; }); break;
  case 10: { bool own = r.chance(1, 2); s.what = own ? "an earlier voucher-request of the same device" : "a voucher-request of another device"; ask_at(1, [q, &s, &w, own](Message &a) mutable { Bytes v; if (w.h.get(w.h.requests, s.dev->serial, own, q, v)) a.body = v; return true; }); break; }
  case 11: { static const int who[] = {1, 2, 3, 4}; int n = (int)r.below(last + 1), f = who[r.below(4)]; s.show[n] = f; if (r.chance(1, 3)) s.show[0] = s.show[1] = s.show[2] = f; s.what = fmt("connection %d by %s", n, w.face_name[f].c_str()); break; }
  case 12: case 13: s.masa = [q, &s, &w](Message &, Message &a) mutable { Bytes c; if (ref::unb64(a.body, c) && cms_open(c).ok) a.body = ref::b64(dishonest(w, s, c, q, s.what)); return true; }; break;
  case 14: s.masa = [q, &s, &w](Message &, Message &a) mutable {
      std::string how;
      switch (q.below(5)) {
      case 0: { Bytes c; how = "kept"; if (ref::unb64(a.body, c) && cms_open(c).ok) a.body = ref::b64(resigned(w, c, q, how, true)); break; }
      case 1: { Bytes v; bool own = q.chance(1, 2); how = own ? "of an earlier session" : "of another device"; if (w.h.get(w.h.vouchers, s.dev->serial, own, q, v)) a.body = v; break; }
      case 2: { static const int st[] = {400, 404, 500, 503}; a.status = st[q.below(4)]; how = "with an error status"; break; }
      default: a.body = spoilt_text(a.body, q, how);
      }
      s.what = "at the MASA: voucher " + how;
      return true;
    };
    break;
  case 15: s.what = "no reply of the MASA"; s.masa = [](Message &, Message &) { return false; }; break;
  case 16: case 17: reply_at(2, [q, &s](const Message &, Message &a) mutable { std::string how; a.body = spoilt_text(a.body, q, how); s.what = "certificate " + how + odd_status(q, a); return true; }); break;
  case 18: reply_at(2, [q, &s, &w](const Message &, Message &a) mutable { Bytes v; bool own = q.chance(1, 2); s.what = own ? "an earlier certificate of the same device" : "a certificate of another device"; if (w.h.get(w.h.certs, s.dev->serial, own, q, v)) a.body = v, a.status = 200; else a.body = ref::b64(w.d.dom.root.cert); return true; }); break;
  case 19: s.what = "error status with the certificate"; reply_at(2, [q](const Message &, Message &a) mutable { static const int st[] = {400, 401, 404, 500, 503}; a.status = st[q.below(5)]; return true; }); break;
  case 20: ask_at(2, [q, &s, &w](Message &a) mutable {
      Bytes v;
      if (q.chance(1, 2)) { std::string how; a.body = spoilt_text(a.body, q, how); s.what = "enrolment request " + how; }
      else { bool own = q.chance(1, 2); s.what = own ? "an earlier enrolment request of the same device" : "an enrolment request of another device"; if (w.h.get(w.h.enrols, s.dev->serial, own, q, v)) a.body = v; }
      return true;
    });
    break;
  }
}

// ---- sessions ------------------------------------------------------------------------
static void begin(World &w, Session &s, RawServer *hop) {
  mkdir(s.dir.c_str(), 0755);
  pledge_config p = w.d.pc;
  Bytes n64 = ref::b64(s.nonce), serial = s.dev->serial;
  p.serial_number = &serial[0];
  p.nonce = s.has_nonce ? &n64[0] : nullptr;
  p.idevid_cert_path = p.cms_sign_cert_path = &s.dev->crt[0];
  p.idevid_key_path = p.cms_sign_key_path = &s.dev->key[0];
  registrar_config c = w.rc;
  int port = hop ? hop->port : w.registrar.port;
  bool over = s.r.chance(1, 4); // address and port on the command line
  c.port = over ? 1 : port;
  std::string addr = over && s.r.chance(1, 2) ? "203.0.113.9" : "127.0.0.1";
  c.bind_address = &addr[0];
  Bytes text = config_text(p, c, w.mc_asked, s.r);
  write_file(s.dir + "/c", text);
  std::vector<std::string> a{"-c", s.dir + "/c"};
  if (over) { a.push_back("-p"); a.push_back(std::to_string(port)); if (addr != "127.0.0.1") { a.push_back("-a"); a.push_back("127.0.0.1"); } }
  if (s.to_file) { s.out = s.dir + "/" + std::string((size_t)s.r.range(1, 60), 'o'); a.push_back("-o"); a.push_back(s.out); }
  if (s.r.chance(1, 3)) a.push_back("-d");
  a.push_back(s.sign ? "sign" : "preq");
  s.p.start(s.dir + "/p", a, "", {}, "", s.honest);
}
static bool exists(const std::string &p) { struct stat st; return stat(p.c_str(), &st) == 0; }
static void cleanup(Session &s) {
  for (const char *e : {"", ".crt", ".key"}) if (!s.out.empty()) unlink((s.out + e).c_str());
  unlink((s.dir + "/c").c_str());
  rmdir(s.dir.c_str());
}
// the pinned certificate, and with sign the new one and its key, as the tool gives them
static bool outputs(const Session &s, const Ran &ran, std::vector<Bytes> &v) {
  if (!s.to_file) {
    size_t p = 0;
    while (p < ran.out.size()) {
      size_t e = ran.out.find('\n', p);
      Bytes d;
      if (e == std::string::npos || !ref::unb64(ran.out.substr(p, e - p), d)) return false;
      v.push_back(d);
      p = e + 1;
    }
    return v.size() == (s.sign ? 2 : 1);
  }
  Bytes d;
  if (!from_pem(read_file(s.out + ".crt"), "CERTIFICATE", d)) return false;
  v.push_back(d);
  if (!s.sign) return !exists(s.out + ".key") && ran.out.empty();
  if (!from_pem(read_file(s.out + ".key"), "PRIVATE KEY", d)) return false;
  v.push_back(d);
  return ran.out.empty();
}
// true when an honest session failed and may be repeated
static bool check(World &w, Session &s, const Ran &ran, bool may_repeat) {
  std::string info = fmt("%s of device %s, %s%s", s.sign ? "sign" : "preq", printable(s.dev->serial).c_str(), s.what.c_str(), s.direct ? ", directly" : "");
  if (ran.hung) { failf("hang", "the tool does not end: %s", info.c_str()); return false; }
  if (ran.crashed) { failf("crash", "the tool ends with %d: %s: %s", ran.rc, info.c_str(), why(ran).c_str()); return false; }
  Wants want{s.dev->serial, s.nonce, s.has_nonce, {w.d.masa.root.cert}, {}};
  int j = 1;
  Bytes pinned = w.d.dom.root.cert;
  std::string because;
  Seen seen[3];
  {
    std::lock_guard<std::mutex> g(s.mu);
    for (int k = 0; k < 3; k++) seen[k] = s.seen[k];
  }
  if (!s.direct) {
    auto no = [&](const std::string &why) { if (j) j = 0, because = why; };
    if (!seen[0].answered) no("no first reply");
    if (!seen[1].answered) no("no reply to the voucher-request");
    else if (seen[1].status >= 400) no(fmt("status %d", seen[1].status));
    else {
      std::string y;
      int k = judge_text(seen[1].body, want, seen[1].shown, pinned, y);
      if (k == 0) no("bad voucher (" + y + ")");
      else if ((k < 0 || seen[1].status != 200) && j) j = -1;
    }
    if (s.sign && j) {
      bool exact;
      Bytes d;
      if (!seen[2].answered) no("no reply to the enrolment request");
      else if (seen[2].status >= 400) no(fmt("status %d of the enrolment", seen[2].status));
      else if (!chain_exists(seen[2].shown, {}, {pinned}, true)) no("enrolled by another server");
      else if (!ref::unb64(seen[2].body, d)) j = -1;
      else if (!is_cert(d, exact)) no("no certificate");
      else if (!exact) j = -1;
      else {
        Bytes q;
        if (!ref::unb64(seen[2].request, q) || pub_of(q).empty() || pub_of(d) != pub_of(q)) no("certificate for another key");
        else if (seen[2].status != 200) j = -1;
      }
    }
    // what was sent to a server the voucher does not pin
    if (s.sign && seen[2].asked && !chain_exists(seen[2].shown, {}, {pinned}, true)) failf("enrols at the wrong server", "%s", info.c_str());
    if (s.sign && seen[2].asked && !seen[1].answered) failf("enrols without a voucher", "%s", info.c_str());
    // what the pledge asked for
    if (seen[1].asked) {
      Bytes cms;
      if (!ref::unb64(seen[1].request, cms)) failf("request not base64", "%s", info.c_str());
      else {
        VoucherModel m, g;
        m.serial = s.dev->serial;
        m.assertion = 3;
        m.array[ref::A_PROXIMITY] = seen[0].shown;
        if (s.has_nonce) m.array[ref::A_NONCE] = s.nonce;
        Opened o = cms_open(cms);
        if (o.ok && ref::judge(o.content, g) == 1 && g.time.count(ref::A_CREATED)) m.time[ref::A_CREATED] = g.time[ref::A_CREATED];
        check_issued("request", cms, s.dev->leaf.cert, s.dev->inter ? std::vector<Bytes>{w.d.maker.inter.cert} : std::vector<Bytes>{}, m, info);
      }
    }
  }
  if (j == 1 && s.honest && ran.rc != 0 && may_repeat) return true;
  if (s.honest && j != 1) {
    if (may_repeat) return true;
    failf("honest session spoilt", "%s: %s", info.c_str(), because.c_str());
  }
  if (ran.rc == 0) {
    std::vector<Bytes> v;
    if (j == 0) failf("success: " + because, "the tool succeeds although: %s; %s", because.c_str(), info.c_str());
    bool well = outputs(s, ran, v);
    if (!well) failf("output", "output is not what it should be: %s; %s", printable(ran.out).c_str(), info.c_str());
    else if (!s.sign) {
      if (j && v[0] != pinned) failf("pinned certificate", "another certificate is given than the pinned one; %s", info.c_str());
    } else {
      if (pub_of_key(v[1]).empty() || pub_of_key(v[1]) != pub_of(v[0])) failf("key of the certificate", "the certificate is not for the key; %s", info.c_str());
      Bytes d;
      if (!s.direct && j == 1 && ref::unb64(seen[2].body, d) && d != v[0]) failf("enrolled certificate", "another certificate is given than was enrolled; %s", info.c_str());
      if ((s.honest || s.direct) && (!signed_by(v[0], w.d.dom.root.cert) || !in_time(v[0]))) failf("enrolled certificate not signed", "the certificate is not one of the domain's CA; %s", info.c_str());
    }
  } else {
    if (j == 1) failf("failure", "the tool fails (%d): %s: %s", ran.rc, info.c_str(), why(ran).c_str());
    if (!ran.out.empty()) failf("output on failure", "%s; %s", printable(ran.out).c_str(), info.c_str());
    if (s.to_file && (exists(s.out + ".crt") || exists(s.out + ".key"))) failf("file on failure", "%s", info.c_str());
  }
  std::string w2 = s.what;
  count(fmt("%s %s: %s", s.sign ? "sign" : "preq", ran.rc == 0 ? "succeeds" : "fails", w2.c_str()));
  if (s.honest) count(s.direct ? "honest sessions, directly" : "honest sessions");
  else count(j == 0 ? "sessions which must fail" : j > 0 ? "dishonest sessions which must succeed" : "open");
  if (want_sample()) sample(info + fmt(" -> %d %s", ran.rc, because.c_str()));
  return false;
}
static void one(Rng &r, long i) {
  World w(r, i);
  if (!w.good) { failf("does not start", "registrar or MASA does not start"); w.finish(); return; }
  int rounds = (int)r.range(2, 4), serial = 0;
  for (int k = 0; k < rounds; k++) {
    int n = (int)r.range(1, 4);
    std::vector<std::unique_ptr<Session>> ss;
    size_t first = r.below(4);
    for (int j = 0; j < n; j++) {
      std::unique_ptr<Session> s(new Session);
      s->r = Rng(r.next());
      s->dev = &w.devs[(first + (size_t)j) % 4];
      s->has_nonce = r.chance(7, 8);
      s->nonce = r.bytes(r.range(8, 32));
      s->sign = r.chance(1, 2);
      s->direct = r.chance(1, 5);
      s->to_file = r.chance(1, 2);
      if (!s->direct && (k > 0 || r.chance(1, 3)) && r.chance(4, 5)) mischief(w, *s);
      ss.push_back(std::move(s));
    }
    // the honest ones may be repeated when the machine is too busy
    for (int attempt = 0; attempt < 3 && !ss.empty(); attempt++) {
      std::vector<std::unique_ptr<RawServer>> hops;
      {
        std::lock_guard<std::mutex> g(w.mu);
        w.by_serial.clear();
        for (auto &s : ss) w.by_serial[s->dev->serial] = s.get();
      }
      for (auto &s : ss) {
        Session *x = s.get();
        for (auto &y : x->seen) y = Seen();
        x->dir = scratch + fmt("/s%ld-%d", i, serial++);
        if (!x->direct) hops.emplace_back(new RawServer(Identity{{w.d.dom.leaf.cert}, w.d.dom.leaf.key}, [&w, x](Conn &c, bool up) { if (up) w.at_registrar(*x, c); }, false, [&w, x](long m) { return w.faces[x->show[std::min(m, 2L)]]->c; }));
        begin(w, *x, x->direct ? nullptr : hops.back().get());
      }
      std::vector<Ran> rans;
      for (auto &s : ss) rans.push_back(s->p.finish(100));
      hops.clear();
      std::vector<std::unique_ptr<Session>> again;
      for (size_t j = 0; j < ss.size(); j++) {
        Session &s = *ss[j];
        bool repeat = check(w, s, rans[j], attempt < 2);
        cleanup(s);
        if (repeat) { count("sessions repeated"); again.push_back(std::move(ss[j])); }
        else evaluated(hash(s.what + s.dev->serial + s.nonce), true);
      }
      ss.swap(again);
    }
    count(fmt("rounds with %d pledges at once", n));
  }
  w.finish();
}

// ---- every part a process of its own -----------------------------------------------------
static int port_from(const std::string &file, Process &p) {
  for (int k = 0; k < 60000; k++) {
    bool there;
    Bytes b = read_file(file, &there);
    if (there) { unlink(file.c_str()); return atoi(b.c_str()); }
    if (!p.running()) return 0;
    usleep(1000);
  }
  return 0;
}
static void processes(Rng &r, long i) {
  api::Deploy d(r, scratch + "/d" + std::to_string(i), r.chance(1, 2));
  std::string dir = scratch + "/p" + std::to_string(i);
  mkdir(dir.c_str(), 0755);
  d.rc.port = d.mc.port = 0;
  write_file(dir + "/masa.cfg", config_text(d.pc, d.rc, d.mc, r));
  Process masa, reg;
  std::string log = "VH_LOG=" + dir + "/log", pf = dir + "/port";
  masa.start(dir + "/m", {"-c", dir + "/masa.cfg", "masa"}, "", {log, "VH_PORTFILE=" + pf});
  int port = port_from(pf, masa);
  bool up = port > 0;
  Ran mr, rr;
  if (up) {
    d.mc.port = (unsigned)port;
    bool over = r.chance(1, 3); // -a and -p
    if (over) d.rc.bind_address = d.str("203.0.113.7"), d.rc.port = 1;
    write_file(dir + "/reg.cfg", config_text(d.pc, d.rc, d.mc, r));
    std::vector<std::string> a{"-c", dir + "/reg.cfg"};
    int rport = 0;
    if (over) {
      // a port that is free now
      int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
      sockaddr_in sa{};
      sa.sin_family = AF_INET, sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      if (bind(s, (sockaddr *)&sa, sizeof sa)) harness_error("bind");
      rport = port_of(s);
      close(s);
      a.insert(a.end(), {"-a", "127.0.0.1", "-p", std::to_string(rport)});
    }
    a.push_back("registrar");
    reg.start(dir + "/r", a, "", {log, "VH_PORTFILE=" + pf});
    port = port_from(pf, reg);
    up = port > 0;
    if (!up && over) { count("port taken by somebody else"); up = false; }
    else if (up && over && port != rport) failf("port", "the registrar listens on %d instead of %d", port, rport);
    d.rc.bind_address = d.str("127.0.0.1");
  }
  if (up) {
    d.rc.port = (unsigned)port;
    write_file(dir + "/pledge.cfg", config_text(d.pc, d.rc, d.mc, r));
    int n = (int)r.range(1, 4);
    std::vector<bool> sign;
    for (int k = 0; k < n; k++) sign.push_back(r.chance(1, 2));
    std::vector<Ran> rans(n);
    std::vector<bool> done(n, false);
    for (int attempt = 0; attempt < 3; attempt++) {
      std::vector<Process> p(n);
      for (int k = 0; k < n; k++) if (!done[k]) p[k].start(dir + fmt("/c%d", k), {"-c", dir + "/pledge.cfg", sign[k] ? "sign" : "preq"}, "", {}, "", true);
      for (int k = 0; k < n; k++) if (!done[k]) { rans[k] = p[k].finish(100); done[k] = rans[k].rc == 0; }
    }
    for (int k = 0; k < n; k++) {
      Session s;
      s.sign = sign[k];
      std::vector<Bytes> v;
      if (rans[k].rc) failf("failure", "three processes: %s fails (%d): %s", sign[k] ? "sign" : "preq", rans[k].rc, why(rans[k]).c_str());
      else if (!outputs(s, rans[k], v)) failf("output", "three processes: %s", printable(rans[k].out).c_str());
      else if (!sign[k] && v[0] != d.dom.root.cert) failf("pinned certificate", "three processes: another certificate is given than the pinned one");
      else if (sign[k] && (!signed_by(v[0], d.dom.root.cert) || pub_of_key(v[1]).empty() || pub_of_key(v[1]) != pub_of(v[0]))) failf("enrolled certificate", "three processes: the certificate is not one of the domain's CA for the key");
      count(fmt("three processes, %s", sign[k] ? "sign" : "preq"));
      evaluated(hash(d.serial + d.nonce + std::to_string(k)), true);
    }
  }
  bool masa_up = masa.running(), reg_up = reg.pid > 0 && reg.running();
  int rpid = reg.pid;
  if (rpid > 0) rr = reg.finish(1, true);
  mr = masa.finish(1, true);
  if (up && (!masa_up || !reg_up)) failf("server gone", "%s has ended: %s", masa_up ? "the registrar" : "the MASA", why(masa_up ? rr : mr).c_str());
  if (!up && !(rpid > 0 && masa_up)) failf("does not start", "masa: %d %s", mr.rc, why(mr).c_str());
  for (const char *f : {"/masa.cfg", "/reg.cfg", "/pledge.cfg", "/log", "/port"}) unlink((dir + f).c_str());
  rmdir(dir.c_str());
}
int main(int argc, char **argv) {
  setenv("TZ", "UTC", 1);
  init(argc, argv);
  start_process();
  if (!getenv("LOUD")) quiet_log();
  scratch = opt("scratch", ".");
  Process::tool() = opt("cli", "");
  return run(std::string(opt("mode", "one")) == "processes" ? processes : one, 25);
}
