// C19: what goes in at one end of the HTTPS layer comes out at the other.
// Clients and handlers write down what they send and get, with an id in every
// request; the two logs are matched afterwards.
#include "wire.hpp"
#include "apiworld.hpp"
#include "brski/http/https_client.hpp"
#include "brski/http/https_server.hpp"
#include "brski/masa/masa_server.hpp"
#include "brski/registrar/registrar_server.hpp"
using namespace wire;

static std::string scratch;
// the registrar's log belongs in the scratch directory
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *p, const char *m) {
  return __real_fopen(!strncmp(p, "/var/log/", 9) ? (scratch + "/log").c_str() : p, m);
}

// ---- what handlers do and write down ----------------------------------------------
struct Plan { int status = 200; std::vector<std::pair<std::string, std::string>> headers; std::string body; bool throws = false, throws_int = false; int delay = 0; };
struct Event { std::string id; int route; Bytes body, peer; RequestHeader headers; void *ctx; };
struct Book {
  std::mutex mu;
  std::map<std::string, Plan> plans;
  std::vector<Event> events;
  void plan(const std::string &id, const Plan &p) { std::lock_guard<std::mutex> g(mu); plans[id] = p; }
  std::vector<Event> of(const std::string &id) { std::lock_guard<std::mutex> g(mu); std::vector<Event> v; for (auto &e : events) if (e.id == id) v.push_back(e); return v; }
};
static Book *book;
static std::string header(const RequestHeader &h, const std::string &k) { for (auto &x : h) if (lower(x.first) == lower(k)) return x.second; return "(none)"; }
static RouteHandle recorder(int route) {
  return [route](const RequestHeader &h, const std::string &body, CRYPTO_CERT peer, ResponseHeader &rh, std::string &response, void *ctx) {
    std::string id = header(h, "X-Id"), ct = header(h, "Content-Type");
    if (id == "(none)" && ct.find("id=") != std::string::npos) id = ct.substr(ct.find("id=") + 3);
    Event e{id, route, body, peer ? der_cert((X509 *)peer) : Bytes(), h, ctx};
    Plan p;
    {
      std::lock_guard<std::mutex> g(book->mu);
      book->events.push_back(e);
      auto i = book->plans.find(e.id);
      if (i != book->plans.end()) p = i->second;
    }
    if (p.throws_int) throw 5;
    if (p.throws) throw std::runtime_error(p.body);
    for (auto &x : p.headers) rh[x.first] = x.second;
    // written here, and not in the C++ library, for the race detector to see
    response.resize(p.body.size());
    for (size_t k = 0; k < p.body.size(); k++) response[k] = p.body[k];
    if (p.delay) usleep((useconds_t)p.delay);
    return p.status;
  };
}
static const char *METHODS[] = {"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"};
static const HTTP_METHOD USED[] = {HTTP_METHOD_GET, HTTP_METHOD_POST, HTTP_METHOD_PUT, HTTP_METHOD_DELETE, HTTP_METHOD_OPTIONS, HTTP_METHOD_PATCH};
static bool has_body(const std::string &m) { return m == "POST" || m == "PUT" || m == "PATCH"; }

static std::string token(Rng &r, size_t max) {
  static const char A[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
  std::string s;
  for (long n = r.range(1, (long)max); n > 0; n--) s += A[r.below(sizeof A - 1)];
  return s;
}
static std::string value(Rng &r) { // a header value which stays what it is
  std::string s;
  long n = r.chance(1, 20) ? r.range(500, 3000) : r.range(1, 60);
  for (; n > 0; n--) { char c = (char)r.range(33, 126); s += c == '%' || c == ',' ? '.' : c; if (n > 1 && r.chance(1, 8)) s += ' '; }
  if (s.back() == ' ') s.back() = '.';
  return s;
}
static Bytes body_of(Rng &r) {
  switch (r.below(8)) {
  case 0: return "";
  case 1: return Bytes(r.range(1, 70), 'A');
  case 2: return r.bytes(r.range(1, 300));
  case 3: return ref::b64(r.bytes(r.range(100, 6000)));
  case 4: return "\r\n\r\nGET / HTTP/1.1\r\nX-Id: injected\r\n\r\n";
  case 5: return r.bytes(r.range(4090, 4100) + (long)r.below(3) * 12288);
  case 6: return r.chance(1, 4) ? r.bytes(r.range(100000, 700000)) : r.bytes(16384);
  default: { Bytes b = r.bytes(r.range(1, 200)); b[r.below(b.size())] = 0; return b; }
  }
}
static std::string path_segment(Rng &r) {
  static const char A[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~!$&'()*,;=@";
  std::string s;
  for (long n = r.range(1, 14); n > 0; n--) s += A[r.below(r.chance(1, 3) ? sizeof A - 1 : 62)];
  return s == "." || s == ".." ? "x" + s : s;
}
static Plan plan_of(Rng &r) {
  static const int st[] = {200, 200, 200, 200, 201, 202, 204, 301, 307, 400, 401, 403, 404, 405, 409, 415, 418, 429, 500, 501, 503, 504};
  Plan p;
  p.status = st[r.below(sizeof st / sizeof *st)];
  p.body = p.status == 204 ? "" : body_of(r);
  if (r.chance(7, 8)) p.headers.push_back({"Content-Type", r.chance(1, 2) ? "application/voucher-cms+json" : "text/plain"});
  for (long n = (long)r.below(4); n > 0; n--) p.headers.push_back({"X-" + fmt("%ld", n) + token(r, 10), value(r)});
  if (r.chance(1, 20)) p.headers.push_back({"X-Split", "a\r\nX-Evil: 1"});
  if (r.chance(1, 16)) { p.throws = true; p.body = r.chance(1, 4) ? "" : "what " + token(r, 30); p.throws_int = r.chance(1, 3); }
  return p;
}

struct Site { // a server of the layer with random routes
  std::string dir;
  std::vector<RouteTuple> routes;
  std::vector<std::string> cert, files;
  Node root, leaf, inter;
  std::vector<Bytes> chain;
  bool any_client;
  Node client_root;
  http_config h{};
  void *srv = nullptr;
  int dummy = 0;
  Running run;
  std::string f(const std::string &n, const Bytes &c) { files.push_back(dir + "/" + n); write_file(files.back(), c); return files.back(); }
  bool good = false;
  std::vector<std::string> keep;
  Site(Rng &r, const std::string &d, bool any) : dir(d), any_client(any) {
    mkdir(dir.c_str(), 0755);
    root = pki::root("Site root", 0, r);
    bool deep = r.chance(1, 3);
    if (deep) inter = child(root, cn("Site sub"), 1, true, r);
    leaf = child(deep ? inter : root, cn("site " + token(r, 20)), 2, false, r);
    chain = {leaf.cert};
    if (deep) chain.push_back(inter.cert);
    client_root = pki::root("Client root", 3, r);
    Bytes c;
    for (auto &x : chain) c += pem("CERTIFICATE", x);
    keep = {"127.0.0.1", f("tls.crt", c), f("tls.key", key_pem(leaf.key)), f("client-ca.crt", pem("CERTIFICATE", client_root.cert))};
    h.bind_address = &keep[0][0];
    h.port = 0;
    h.tls_cert_path = &keep[1][0];
    h.tls_key_path = &keep[2][0];
    h.client_ca_cert_path = any ? nullptr : &keep[3][0];
    std::set<std::string> seen;
    for (long n = r.range(1, 6); n > 0; n--) {
      std::string p;
      for (long k = r.range(1, 4); k > 0; k--) p += "/" + path_segment(r);
      if (r.chance(1, 3)) p = "/.well-known/brski/" + path_segment(r);
      HTTP_METHOD m = USED[r.below(6)];
      if (seen.insert(p + METHODS[m]).second) add(p, m);
      if (r.chance(1, 4)) { HTTP_METHOD m2 = USED[r.below(6)]; if (seen.insert(p + METHODS[m2]).second) add(p, m2); }
    }
    good = run.start([this] { return https_start(&h, routes, &dummy, &srv); });
  }
  void add(const std::string &p, HTTP_METHOD m) { routes.push_back({p, m, recorder((int)routes.size())}); }
  int find(const std::string &p, const std::string &m) const {
    for (size_t i = 0; i < routes.size(); i++) if (routes[i].path == p && METHODS[routes[i].method] == m) return (int)i;
    return -1;
  }
  void finish() {
    run.stop();
    if (run.rc == 0) https_stop(srv);
    for (auto &x : files) unlink(x.c_str());
    rmdir(dir.c_str());
  }
};

// ---- raw clients against a server of the layer --------------------------------------
struct Ask { std::string id, method, path, target; Bytes body; std::vector<std::pair<std::string, std::string>> headers; int route; Plan plan; bool chunked = false; };
static std::string near_path(const std::string &p, Rng &r) {
  std::string q = p;
  size_t k = r.below(q.size());
  switch (r.below(9)) {
  case 0: return q + "/";
  case 1: return q + token(r, 3);
  case 2: q.pop_back(); return q.empty() ? "/" : q;
  case 3: return "/" + q;
  case 4: for (auto &c : q) if (islower((unsigned char)c)) { c = (char)toupper(c); break; } return q;
  case 5: { size_t d = q.find('.'); if (d != std::string::npos) q[d] = 'X'; else q[k] = q[k] == '/' ? '/' : '.'; return q; }
  case 6: return "/" + token(r, 9);
  case 7: if (q[k] != '/') q[k] = q[k] == 'z' ? 'y' : 'z'; return q;
  default: { size_t d = q.find_first_of("*$()!"); if (d != std::string::npos) q.erase(d, 1); else q += ".*"; return q; }
  }
}
static std::string encode(const std::string &p, Rng &r) {
  std::string o;
  bool lots = r.chance(1, 6);
  for (char c : p) if ((lots && c != '/' && r.chance(1, 3))) o += fmt("%%%02X", (unsigned char)c); else o += c;
  return o;
}
static Ask ask_of(Site &s, Rng &r, const std::string &id) {
  Ask a;
  a.id = id;
  const RouteTuple &t = s.routes[r.below(s.routes.size())];
  a.path = t.path;
  a.method = METHODS[t.method];
  if (r.chance(1, 4)) a.path = near_path(a.path, r);
  if (r.chance(1, 5)) { static const char *M[] = {"GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "HEAD", "TRACE"}; a.method = M[r.below(8)]; }
  a.route = s.find(a.path, a.method);
  // HEAD is served by what serves GET
  if (a.method == "HEAD") a.route = s.find(a.path, "GET");
  a.target = encode(a.path, r);
  if (r.chance(1, 6)) a.target += "?" + token(r, 8) + "=" + token(r, 8);
  if (has_body(a.method)) a.body = body_of(r), a.chunked = r.chance(1, 5);
  a.headers = {{"X-Id", id}};
  if (has_body(a.method) && r.chance(7, 8)) a.headers.push_back({"Content-Type", r.chance(1, 2) ? "application/voucher-cms+json" : "application/octet-stream"});
  for (long n = (long)r.below(4); n > 0; n--) a.headers.push_back({"X-A" + fmt("%ld", n) + token(r, 10), value(r)});
  if (r.chance(1, 6)) { std::string k = "X-Twice" + token(r, 4); for (long n = r.range(2, 4); n > 0; n--) a.headers.push_back({k, value(r)}); }
  a.plan = plan_of(r);
  return a;
}
static bool send(Conn &c, const Ask &a, Rng &r) {
  Bytes s = a.method + " " + a.target + " HTTP/1.1\r\nHost: 127.0.0.1\r\n";
  for (auto &h : a.headers) s += ((h.first.compare(0, 7, "X-Twice") == 0 ? hash(h.first) % 4 == 0 : r.chance(1, 4)) ? lower(h.first) : h.first) + ": " + h.second + "\r\n";
  if (a.chunked) {
    s += "Transfer-Encoding: chunked\r\n\r\n";
    for (size_t p = 0; p < a.body.size();) { size_t n = std::min<size_t>(a.body.size() - p, r.range(1, 9000)); s += fmt("%zx\r\n", n) + a.body.substr(p, n) + "\r\n"; p += n; }
    s += "0\r\n\r\n";
  } else {
    if (has_body(a.method)) s += fmt("Content-Length: %zu\r\n", a.body.size());
    s += "\r\n" + a.body;
  }
  if (r.chance(1, 3)) { // in pieces
    size_t p = 0;
    for (long n = r.range(1, 6); n > 0 && p < s.size(); n--) {
      size_t k = r.below(s.size() - p) + 1;
      if (!c.write(s.substr(p, k))) return false;
      p += k;
      if (r.chance(1, 2)) usleep((useconds_t)r.below(3000));
      if (r.chance(1, 250)) usleep((useconds_t)r.range(250000, 1200000)), count("slow requests");
    }
    return p >= s.size() || c.write(s.substr(p));
  }
  return c.write(s);
}
static void check_error(const Message &m, const std::string &what, bool head) {
  auto ct = m.all("Content-Type");
  if (ct.size() != 1 || ct[0].compare(0, 10, "text/plain")) {
    std::string t;
    for (auto &x : ct) t += x + " | ";
    failf("error content type", "%s: content type of the error %d: %s", what.c_str(), m.status, t.c_str());
  }
  if (m.body.empty() && !head) failf("error body", "%s: empty body of the error %d", what.c_str(), m.status);
}
static void check_reply(const Site &s, const Ask &a, const Message &m) {
  bool head = a.method == "HEAD";
  std::string what = a.method + " " + a.target;
  if (a.route < 0) {
    if (m.status < 400) failf("unknown accepted", "%s, which is not served, gets status %d", what.c_str(), m.status);
    else check_error(m, what, head);
    return;
  }
  if (a.plan.throws || a.plan.throws_int) {
    if (m.status < 500) failf("exception status", "%s: status %d after an exception", what.c_str(), m.status);
    else check_error(m, what, head);
    return;
  }
  if (m.status != a.plan.status) { failf("status", "%s: status %d, the handler returned %d", what.c_str(), m.status, a.plan.status); return; }
  if (m.status >= 400) check_error(m, what, head);
  if (!head && !(m.status >= 400 && a.plan.body.empty()) && m.body != a.plan.body)
    failf("reply body", "%s: the reply (%zu bytes) %s is not the one of the handler (%zu bytes) %s", what.c_str(), m.body.size(), printable(m.body, 100).c_str(), a.plan.body.size(), printable(a.plan.body, 100).c_str());
  std::set<std::string> mine{"x-split"};
  for (auto &h : a.plan.headers) {
    if (h.second.find('\r') != std::string::npos) continue;
    if (m.status >= 400 && h.first == "Content-Type") continue;
    auto v = m.all(h.first);
    mine.insert(lower(h.first));
    if (v.size() != 1 || v[0] != h.second) failf("reply header", "%s: the handler's header %s: %s arrives %zu times as %s", what.c_str(), h.first.c_str(), h.second.c_str(), v.size(), v.empty() ? "" : v[0].c_str());
  }
  for (auto &h : m.headers) if (lower(h.first).compare(0, 2, "x-") == 0 && !mine.count(lower(h.first)) && lower(h.first) != "x-evil") failf("header of another reply", "%s: the reply has a header %s: %s the handler did not set", what.c_str(), h.first.c_str(), h.second.c_str());
  if (!m.all("X-Evil").empty()) failf("header injected", "%s: a header value made another header", what.c_str());
}
static void check_event(const Site &s, const Ask &a, const Event &e, const Bytes &cert) {
  std::string what = a.method + " " + a.target;
  if (e.route != a.route) failf("wrong handler", "%s reached the handler of %s %s", what.c_str(), METHODS[s.routes[e.route].method], s.routes[e.route].path.c_str());
  if (e.body != a.body) failf("request body", "%s: the handler got %zu bytes %s instead of %zu bytes %s", what.c_str(), e.body.size(), printable(e.body, 100).c_str(), a.body.size(), printable(a.body, 100).c_str());
  if (e.peer != cert) failf("peer certificate", "%s: the handler got another certificate (%zu bytes) than the client's", what.c_str(), e.peer.size());
  if (e.ctx != &s.dummy) failf("context", "%s: the handler got another context", what.c_str());
  std::map<std::string, std::multiset<std::string>> want;
  for (auto &h : a.headers) want[lower(h.first)].insert(h.second);
  for (auto &h : e.headers) if (lower(h.first).compare(0, 2, "x-") == 0 && !want.count(lower(h.first))) failf("header of another request", "%s: the handler got a header %s: %s the client did not send", what.c_str(), h.first.c_str(), h.second.c_str());
  for (auto &w : want) {
    std::string got = header(e.headers, w.first), joined;
    for (auto &h : a.headers) if (lower(h.first) == w.first) joined += (joined.empty() ? "" : ", ") + h.second;
    bool ok = got == joined; // in the order sent, as RFC 9110 wants
    if (!ok) failf("request header", "%s: header %s arrives as \"%s\" instead of \"%s\"", what.c_str(), w.first.c_str(), printable(got, 200).c_str(), printable(joined, 200).c_str());
  }
}

static void served(Rng &r, long i) {
  Book b;
  book = &b;
  Site s(r, scratch + "/s" + std::to_string(i), r.chance(1, 2));
  if (!s.good) { failf("does not start", "the server does not start: %d", s.run.rc.load()); s.finish(); return; }
  bool hot = r.chance(1, 4); // many small requests to the same handlers at once
  int nc = (int)(hot ? r.range(4, 7) : r.range(1, 7));
  struct Client { Identity id; bool allowed; std::string kind; std::vector<Ask> asks; Rng r; int version; };
  std::vector<Client> cs;
  for (int k = 0; k < nc; k++) {
    Client c{{}, true, "", {}, Rng(r.next()), r.chance(1, 3) ? TLS1_2_VERSION : 0};
    Node own = child(s.client_root, cn(fmt("client %d %s", k, token(r, 12).c_str())), 4 + k % 4, false, r);
    Node other_root = pki::root(r.chance(1, 2) ? "Client root" : "Another root", 9, r);
    Node foreign = child(other_root, cn("foreign"), 4 + k % 4, false, r);
    switch (r.below(6)) {
    case 0: c.kind = "without a certificate"; c.allowed = false; break;
    case 1: c.kind = "with a foreign certificate"; c.id.chain = {foreign.cert}; if (r.chance(1, 2)) c.id.chain.push_back(other_root.cert); c.id.key = foreign.key; c.allowed = s.any_client; break;
    case 2: c.kind = "with a self-signed certificate"; { Node self = pki::root("Client root", 9, r); c.id.chain = {self.cert}; c.id.key = 9; } c.allowed = s.any_client; break;
    default: c.kind = "with its certificate"; c.id.chain = {own.cert}; c.id.key = own.key;
    }
    for (long n = hot ? r.range(10, 30) : r.range(1, 7); n > 0; n--) {
      c.asks.push_back(ask_of(s, r, fmt("%ld-%d-%ld", i, k, n)));
      if (hot && r.chance(1, 2)) c.asks.back().plan.delay = (int)r.below(2000);
      if (hot && c.asks.back().body.size() > 2000) c.asks.back().body.resize(r.below(100));
      if (hot && c.asks.back().plan.body.size() > 2000) c.asks.back().plan.body.resize(r.below(100));
    }
    cs.push_back(c);
  }
  std::atomic<int> ready{0};
  std::vector<std::thread> th;
  for (auto &cl : cs)
    th.emplace_back([&] {
      Ctx ctx(false, cl.id, cl.version);
      ready++;
      while (ready < nc) std::this_thread::yield();
      std::unique_ptr<Conn> c;
      for (auto &a : cl.asks) {
        bool answered = false;
        for (int attempt = 0; attempt < 4 && !answered; attempt++) {
          if (attempt) { if (!cl.allowed) break; a.id += "r", a.headers[0].second = a.id; count("requests repeated on a new connection"); c.reset(); }
          b.plan(a.id, a.plan);
          if (!c) {
            c.reset(new Conn);
            bool up = c->connect(s.run.port, ctx.c);
            count("connections");
            if (!up) { count("connections refused"); c.reset(); continue; }
            if (c->peer() != s.leaf.cert) failf("server certificate", "the server presents another certificate");
          }
          if (!send(*c, a, cl.r)) { c.reset(); continue; }
          Message m = read_message(*c, false, a.method == "HEAD");
          if (!m.ok) { c.reset(); continue; }
          answered = true;
          if (!cl.allowed) { failf("client not refused " + cl.kind, "a client %s gets a reply: %s", cl.kind.c_str(), m.start.c_str()); break; }
          check_reply(s, a, m);
          if (lower(m.one("Connection")) == "close" || m.status >= 400 || cl.r.chance(1, 5)) c.reset();
        }
        if (cl.allowed && !answered) failf("no reply", "%s %s (%zu bytes) of a client %s gets no reply, four times", a.method.c_str(), a.target.c_str(), a.body.size(), cl.kind.c_str());
        if (!cl.allowed) c.reset();
      }
    });
  for (auto &t : th) t.join();
  s.finish();
  // the two logs
  std::set<std::string> known;
  for (auto &cl : cs)
    for (auto &a : cl.asks) {
      known.insert(a.id);
      auto ev = b.of(a.id);
      size_t want = cl.allowed && a.route >= 0 ? 1 : 0;
      if (ev.size() != want)
        failf(ev.size() > want ? (cl.allowed ? (want ? "handled twice" : "unknown handled") : "refused client handled") : "not handled", "%s %s of a client %s reached %zu handlers (first: %s), expected %zu", a.method.c_str(), a.target.c_str(), cl.kind.c_str(), ev.size(), ev.empty() ? "" : s.routes[ev[0].route].path.c_str(), want);
      else if (want) check_event(s, a, ev[0], cl.id.chain[0]);
      count(!cl.allowed ? "requests of refused clients: " + cl.kind : a.route < 0 ? "requests for what is not served" : "requests delivered and answered");
      evaluated(hash(a.method + a.target + a.body + cl.kind + a.plan.body), true);
    }
  {
    std::lock_guard<std::mutex> g(b.mu);
    for (auto &e : b.events) {
      std::string id = e.id;
      while (!id.empty() && id.back() == 'r') id.pop_back();
      bool ours = false;
      for (auto &k : known) if (k == e.id || k.compare(0, id.size(), id) == 0) ours = true;
      if (!ours) failf("request from nowhere", "a handler was called with id %s, body %s", printable(e.id).c_str(), printable(e.body, 100).c_str());
    }
  }
  count(fmt("servers with %d clients at once", nc));
  if (want_sample()) sample(fmt("%zu routes, %d clients, e.g. %s %s with %zu bytes -> %d with %zu bytes", s.routes.size(), nc, cs[0].asks[0].method.c_str(), cs[0].asks[0].target.c_str(), cs[0].asks[0].body.size(), cs[0].asks[0].plan.status, cs[0].asks[0].plan.body.size()));
  book = nullptr;
}

// ---- the client of the layer ----------------------------------------------------------
struct Files {
  std::string dir;
  std::vector<std::string> files;
  Files(const std::string &d) : dir(d) { mkdir(d.c_str(), 0755); }
  std::string f(const std::string &n, const Bytes &c) { files.push_back(dir + "/" + n); write_file(files.back(), c); return files.back(); }
  ~Files() { for (auto &x : files) unlink(x.c_str()); rmdir(dir.c_str()); }
};
// against a server of the layer, several at once
static void both_ends(Rng &r, long i) {
  Book b;
  book = &b;
  Site s(r, scratch + "/s" + std::to_string(i), r.chance(1, 2));
  if (!s.good) { failf("does not start", "the server does not start: %d", s.run.rc.load()); s.finish(); return; }
  Files fs(scratch + "/f" + std::to_string(i));
  int nc = (int)r.range(1, 6);
  int posts = 0;
  for (auto &t : s.routes) posts += t.method == HTTP_METHOD_POST;
  if (!posts) {
    s.finish();
    return;
  }
  struct Call { std::string id, path, body, type; int route; Plan plan; int how; };
  struct Client { Node own; std::string cert, key; std::vector<Call> calls; bool shown; };
  std::vector<Client> cs;
  for (int k = 0; k < nc; k++) {
    Client c;
    c.own = child(s.client_root, cn(fmt("client %d", k)), 4 + k % 4, false, r);
    c.cert = fs.f(fmt("c%d.crt", k), pem("CERTIFICATE", c.own.cert));
    c.key = fs.f(fmt("c%d.key", k), key_pem(c.own.key));
    c.shown = true;
    for (long n = r.range(1, 4); n > 0; n--) {
      Call q;
      q.id = fmt("%ld-%d-%ld", i, k, n);
      do q.route = (int)r.below(s.routes.size()); while (s.routes[q.route].method != HTTP_METHOD_POST);
      q.path = s.routes[q.route].path;
      if (r.chance(1, 6)) { q.path = near_path(q.path, r); q.route = s.find(q.path, "POST"); }
      if (q.path.find_first_of("?#") != std::string::npos) q.path = "/none", q.route = -1;
      q.body = body_of(r);
      // the id travels in the content type, the one header the caller chooses
      q.type = "application/voucher-cms+json; id=" + q.id;
      q.plan = plan_of(r);
      q.plan.throws = q.plan.throws_int = false;
      if (q.plan.status == 204) q.plan.body = "";
      q.how = (int)r.below(3);
      c.calls.push_back(q);
    }
    cs.push_back(c);
  }
  std::string ca;
  ca = pem("CERTIFICATE", s.root.cert);
  if (r.chance(1, 2)) ca = "-----BEGIN CERTIFICATE-----\n" + ref::b64(s.root.cert) + "\n-----END CERTIFICATE-----\n";
  std::mutex mu;
  std::vector<std::thread> th;
  std::atomic<int> ready{0};
  for (auto &t : s.routes) t.handle = nullptr;
  for (auto &cl : cs)
    th.emplace_back([&] {
      ready++;
      while (ready < nc) std::this_thread::yield();
      for (auto &q : cl.calls) {
        int st = -1;
        std::string reply;
        for (int attempt = 0; attempt < 4 && st < 0; attempt++) {
          reply = attempt % 2 ? "" : "left from before";
          if (attempt) { count("requests repeated on a new connection"); q.id += "r"; q.type += "r"; }
          b.plan(q.id, q.plan);
          if (q.how == 0) {
            st = https_post_request_ca(cl.key, cl.cert, ca, "127.0.0.1", s.run.port, q.path, q.body, q.type, reply);
          } else {
            HttpResponse res;
            res.peer_certificate = nullptr;
            res.response = reply;
            st = https_post_request(cl.key, cl.cert, "127.0.0.1", s.run.port, q.path, false, q.body, q.type, res);
            reply = res.response;
            if (st >= 0) {
              if (!res.peer_certificate || der_cert((X509 *)res.peer_certificate) != s.leaf.cert) failf("server certificate returned", "the client gets another certificate than the server's (%s)", res.peer_certificate ? "other" : "none");
              crypto_free_certcontext(res.peer_certificate);
            }
          }
        }
        std::string what = fmt("POST %s with %zu bytes", q.path.c_str(), q.body.size());
        if (st < 0) { failf("client fails", "%s fails four times", what.c_str()); continue; }
        if (q.route < 0) {
          if (st < 400) failf("unknown accepted", "%s, which is not served, gets status %d", what.c_str(), st);
          continue;
        }
        if (st != q.plan.status) failf("client status", "%s: status %d, the handler returned %d", what.c_str(), st, q.plan.status);
        if (!(st >= 400 && q.plan.body.empty()) && reply != q.plan.body)
          failf("client reply body", "%s: the client gets %zu bytes %s, the handler returned %zu bytes %s", what.c_str(), reply.size(), printable(reply, 100).c_str(), q.plan.body.size(), printable(q.plan.body, 100).c_str());
      }
    });
  for (auto &t : th) t.join();
  s.finish();
  for (auto &cl : cs)
    for (auto &q : cl.calls) {
      std::vector<Event> ev;
      for (auto &e : b.events) if (header(e.headers, "Content-Type") == q.type) ev.push_back(e);
      size_t want = q.route >= 0;
      if (ev.size() != want) failf(ev.size() > want ? "handled twice" : "not handled", "POST %s reached %zu handlers instead of %zu", q.path.c_str(), ev.size(), want);
      else if (want) {
        if (ev[0].route != q.route) failf("wrong handler", "POST %s reached the handler of %s", q.path.c_str(), s.routes[ev[0].route].path.c_str());
        if (ev[0].body != q.body) failf("request body", "POST %s: the handler got %zu bytes instead of %zu", q.path.c_str(), ev[0].body.size(), q.body.size());
        if (ev[0].peer != cl.own.cert) failf("peer certificate", "POST %s: the handler got another certificate than the client's", q.path.c_str());
      }
      count(q.route < 0 ? "requests for what is not served" : q.how == 0 ? "requests between both ends, CA pinned" : "requests between both ends");
      evaluated(hash(q.path + q.body + q.plan.body), true);
    }
  book = nullptr;
}
// against servers which are not what they should be
static void pinned(Rng &r, long i) {
  Files fs(scratch + "/f" + std::to_string(i));
  Node pin = pki::root("Pinned CA " + token(r, 30), 0, r), other = pki::root("Other CA", 1, r), twin = pki::root(pin.name[0].second, 1, r);
  static Node sys; // what the system trusts: SSL_CERT_FILE
  if (sys.cert.empty()) { Rng q(5); sys = pki::root("System CA", 7, q); write_file(scratch + "/roots.pem", pem("CERTIFICATE", sys.cert)); }
  Node me = child(other, cn("client"), 5, false, r);
  std::string cert = fs.f("c.crt", pem("CERTIFICATE", me.cert)), keyf = fs.f("c.key", key_pem(me.key));
  Identity id;
  id.key = 2;
  bool good = false;
  std::string what, ca = pem("CERTIFICATE", pin.cert);
  if (r.chance(1, 2)) ca = "-----BEGIN CERTIFICATE-----\n" + ref::b64(pin.cert) + "\n-----END CERTIFICATE-----\n";
  Spec sp;
  sp.subject = cn("server"), sp.pub = 2, sp.serial = r.next() >> 1, sp.bc = "CA:FALSE";
  auto by = [&](const Node &n) { Spec s = sp; s.issuer = n.name; s.sig = n.key; return make_cert(s); };
  int kind = (int)r.below(14);
  switch (kind) {
  case 0: case 1: what = "certified by the CA"; id.chain = {by(pin)}; good = true; break;
  case 2: { what = "certified by an intermediate of the CA"; Node sub = child(pin, cn("sub"), 3, true, r); id.chain = {by(sub), sub.cert}; good = true; break; }
  case 3: what = "certified by another CA"; id.chain = {by(other)}; if (r.chance(1, 2)) id.chain.push_back(other.cert); break;
  case 4: what = "certified by another CA of the same name"; id.chain = {by(twin)}; if (r.chance(1, 2)) id.chain.push_back(twin.cert); break;
  case 5: case 6: what = "certified by a CA the system trusts"; id.chain = {by(sys)}; if (r.chance(1, 2)) id.chain.push_back(sys.cert); break;
  case 7: { what = "with a self-signed certificate"; Spec s = sp; s.issuer = s.subject; s.sig = 2; id.chain = {make_cert(s)}; break; }
  case 8: { what = "with an expired certificate"; Spec s = sp; s.issuer = pin.name; s.sig = pin.key; s.nb = -86400 * 10; s.na = -60; id.chain = {make_cert(s)}; break; }
  case 9: { what = "certified by an end entity of the CA"; Node sub = child(pin, cn("end entity"), 3, false, r); id.chain = {by(sub), sub.cert}; break; }
  case 10: { what = "with a certificate changed after signing"; Bytes c = by(pin); c[c.size() - 5] ^= 4; id.chain = {c}; break; }
  case 11: what = "whatever, without a readable CA"; ca = r.chance(1, 2) ? "" : r.chance(1, 2) ? "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n" : token(r, 40); id.chain = {by(r.chance(1, 2) ? sys : pin)}; break;
  case 12: { what = "with the CA's certificate before its own"; Bytes leaf = by(twin); id.chain = {leaf, pin.cert}; break; }
  default: { what = "with a certificate that is not valid yet"; Spec s = sp; s.issuer = pin.name; s.sig = pin.key; s.nb = 86400; s.na = 86400 * 10; id.chain = {make_cert(s)}; }
  }
  std::string path = "/" + token(r, 20), body = body_of(r), reply_body = body_of(r), type = "text/x-" + token(r, 9);
  int status = r.chance(1, 3) ? 500 : 200;
  std::mutex mu;
  std::vector<Message> got;
  Bytes peer;
  int st = -1;
  std::string reply;
  {
    RawServer s(id, [&](Conn &c, bool up) {
      if (!up) return;
      Message m = read_message(c, true);
      if (m.start.empty()) return;
      std::lock_guard<std::mutex> g(mu);
      got.push_back(m);
      peer = c.peer();
      c.write(reply_text(status, {{"Content-Type", "text/plain"}, {"Connection", "close"}}, reply_body));
    });
    for (int attempt = 0; attempt < (good ? 4 : 1) && st < 0; attempt++) {
      if (attempt) count("requests repeated on a new connection"), got.clear();
      st = https_post_request_ca(keyf, cert, ca, "127.0.0.1", s.port, path, body, type, reply);
    }
  }
  if (!good) {
    if (st >= 0) failf("server not refused: " + what, "a server %s gets through: status %d", what.c_str(), st);
    if (!got.empty()) failf("sent to the wrong server: " + what, "a server %s receives the request %s", what.c_str(), got[0].start.c_str());
  } else {
    if (st != status || reply != reply_body) failf("pinned fails", "a server %s: status %d instead of %d, %zu bytes instead of %zu; CA %s", what.c_str(), st, status, reply.size(), reply_body.size(), pin.name[0].second.c_str());
    if (got.size() != 1 || got[0].method != "POST" || got[0].target != path || got[0].body != body || got[0].one("Content-Type") != type)
      failf("request on the wire", "the server gets %zu requests, %s with %zu bytes of %s instead of POST %s with %zu bytes of %s", got.size(), got.empty() ? "" : got[0].start.c_str(), got.empty() ? 0 : got[0].body.size(), got.empty() ? "" : got[0].one("Content-Type").c_str(), path.c_str(), body.size(), type.c_str());
    if (peer != me.cert) failf("client certificate on the wire", "the server gets another certificate than the client's");
  }
  count("pinned, server " + what);
  evaluated(hash(what + body + reply_body), true);
  if (want_sample()) sample("pinned CA, server " + what + fmt(" -> %d", st));
}
// servers which answer badly: no reply may be made up
static void faulty(Rng &r, long i) {
  Files fs(scratch + "/f" + std::to_string(i));
  Node ca = pki::root("CA", 0, r), srv = child(ca, cn("server"), 2, false, r), me = child(ca, cn("client"), 5, false, r);
  std::string cert = fs.f("c.crt", pem("CERTIFICATE", me.cert)), keyf = fs.f("c.key", key_pem(me.key));
  Identity id;
  id.chain = {srv.cert}, id.key = 2;
  int kind = (int)r.below(11);
  Bytes body = r.bytes(r.range(1, 3000)), rb = r.bytes(r.range(100, 20000));
  const char *what[] = {"closing at once", "closing after the handshake", "closing after the request", "half a status line", "half the headers", "half the body", "half the chunks", "no TLS", "nonsense", "no server at all", "whose port is the lower half of the one asked for"};
  bool failing = true;
  std::atomic<long> asked{0};
  int st;
  bool with_ca = r.chance(1, 2);
  int port = 0;
  std::string reply = "untouched";
  {
    std::unique_ptr<RawServer> s(new RawServer(id, [&](Conn &c, bool up) {
      if (kind == 0 || !up) {
        if (kind == 7) { char t[512]; (void)!recv(c.fd, t, sizeof t, 0); (void)!::send(c.fd, "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nOK", 41, MSG_NOSIGNAL); }
        return;
      }
      if (kind == 1) return;
      Message m = read_message(c, true);
      if (!m.ok) return;
      asked++;
      Bytes t = reply_text(200, {{"Content-Type", "text/plain"}}, rb);
      size_t top = t.size() - rb.size();
      switch (kind) {
      case 2: return;
      case 3: c.write(t.substr(0, 1 + (size_t)i % 14)); return;
      case 4: c.write(t.substr(0, top - 3)); return;
      case 5: c.write(t.substr(0, top + rb.size() / 2)); return;
      case 6: c.write("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + fmt("%zx\r\n", rb.size()) + rb.substr(0, rb.size() / 2)); return;
      case 10: c.write(t); return;
      default: c.write(Bytes(rb.size(), 'x') + "\r\n\r\n"); return;
      }
    }, kind == 0 || kind == 7));
    port = s->port;
    if (kind == 9) s.reset();
    if (kind == 10) port += 65536 * (int)r.range(1, r.chance(1, 2) ? 2 : 32000);
    if (with_ca) st = https_post_request_ca(keyf, cert, pem("CERTIFICATE", ca.cert), "127.0.0.1", port, "/x", body, "text/plain", reply);
    else {
      HttpResponse res;
      res.peer_certificate = nullptr;
      st = https_post_request(keyf, cert, "127.0.0.1", port, "/x", false, body, "text/plain", res);
      if (st >= 0) crypto_free_certcontext(res.peer_certificate);
    }
  }
  if (failing && st >= 0) failf(std::string("reply made up: ") + what[kind], "a server %s: status %d, %zu bytes", what[kind], st, reply.size());
  count(std::string("faulty server: ") + what[kind]);
  evaluated(hash(what[kind] + std::to_string(with_ca) + body), true);
}

// ---- servers which cannot start ---------------------------------------------------------
static void cannot_start(Rng &r, long i) {
  Files fs(scratch + "/f" + std::to_string(i));
  Rng q = r;
  api::Deploy d(r, scratch + "/d" + std::to_string(i), true);
  Node n = pki::root("x", 1, r);
  std::string good_crt = d.path["reg-tls.crt"], good_key = d.path["reg-tls.key"], addr = "127.0.0.1";
  std::string crt = good_crt, keyf = good_key;
  int busy = -1;
  unsigned port = 0;
  int kind = (int)r.below(10);
  static const char *what[] = {"port in use", "no certificate file", "no key file", "certificate file without one", "key of another certificate", "key file without one", "bad address", "address of another host", "port out of range", "nothing wrong"};
  switch (kind) {
  case 0: {
    busy = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET, a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(busy, (sockaddr *)&a, sizeof a) || __real_listen(busy, 5)) harness_error("busy port");
    port = port_of(busy);
    break;
  }
  case 1: crt = fs.dir + "/none"; break;
  case 2: keyf = fs.dir + "/none"; break;
  case 3: crt = fs.f("bad.crt", r.chance(1, 2) ? "" : pem("CERTIFICATE", r.bytes(100))); break;
  case 4: keyf = fs.f("other.key", key_pem(r.chance(1, 2) ? (d.dom.leaf.key == 10 ? 11 : 10) : d.dom.leaf.key == N_EC ? N_EC + 1 : N_EC)); break;
  case 5: keyf = fs.f("bad.key", r.chance(1, 2) ? "" : pem("PRIVATE KEY", r.bytes(100))); break;
  case 6: addr = r.chance(1, 2) ? "999.1.1.1" : "256.256.256.256"; break;
  case 7: addr = "203.0.113.7"; break;
  case 8: { static const unsigned far[] = {65536, 65537, 70000, 131072, 0x7fffffff, 0x80000000, 0xffff0000, 0xfffffffe}; port = r.chance(1, 2) ? far[r.below(8)] : 65536u * (unsigned)r.range(1, 65535) + (unsigned)r.range(0, 65535); break; }
  }
  bool want = kind == 9;
  int who = (int)r.below(3);
  static const char *names[] = {"https_start", "registrar_start", "masa_start"};
  std::vector<std::string> keep{addr, crt, keyf};
  RegistrarContext *rc = nullptr;
  MasaContext *mc = nullptr;
  void *srv = nullptr;
  http_config h{};
  std::vector<RouteTuple> routes;
  registrar_config rconf = d.rc;
  masa_config mconf = d.mc;
  rconf.bind_address = mconf.bind_address = h.bind_address = &keep[0][0];
  rconf.tls_cert_path = mconf.tls_cert_path = h.tls_cert_path = &keep[1][0];
  rconf.tls_key_path = mconf.tls_key_path = h.tls_key_path = &keep[2][0];
  rconf.port = mconf.port = h.port = port;
  bool nulls = kind >= 1 && kind <= 5 && r.chance(1, 5);
  if (nulls) (kind == 1 || kind == 3 ? rconf.tls_cert_path : rconf.tls_key_path) = (kind == 1 || kind == 3 ? mconf.tls_cert_path : mconf.tls_key_path) = (kind == 1 || kind == 3 ? h.tls_cert_path : h.tls_key_path) = nullptr;
  Running run;
  bool up = run.start([&] {
    switch (who) {
    case 0: return https_start(&h, routes, nullptr, &srv);
    case 1: return registrar_start(&rconf, &mconf, &rc);
    default: return masa_start(&rconf, &mconf, &d.pc, &mc);
    }
  });
  std::string w = fmt("%s (%s%s)", names[who], what[kind], nulls ? ", NULL" : "");
  if (up != want) failf(want ? "does not start" : "starts in vain", "%s %s", w.c_str(), up ? "listens" : "does not listen");
  if (!up && !want && run.rc >= 0) failf("failure to start not reported", "%s returns %d", w.c_str(), run.rc.load());
  if (up && want) { // it answers
    Ctx c(false, Identity{{d.dom.leaf.cert}, d.dom.leaf.key});
    bool ok = false;
    for (int k = 0; k < 4 && !ok; k++) {
      Conn x;
      ok = x.connect(run.port, c.c) && x.write("GET /nothing HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n");
      if (ok) { Message m = read_message(x, false); ok = m.ok && m.status == 404; }
    }
    if (!ok) failf("does not answer", "%s does not answer", w.c_str());
  }
  run.stop();
  // what a caller does with a context it got
  if (rc) registrar_stop(rc);
  if (mc) masa_stop(mc);
  if (who == 0 && srv) https_stop(srv);
  if (busy >= 0) close(busy);
  count(std::string("starting with: ") + what[kind]);
  evaluated(hash(w), true);
}

// ---- the real servers, their routes and error replies ------------------------------------
static void real_servers(Rng &r, long i) {
  api::Deploy d(r, scratch + "/d" + std::to_string(i), true);
  d.rc.port = d.mc.port = 0;
  bool masa = r.chance(1, 2);
  RegistrarContext *rc = nullptr;
  MasaContext *mc = nullptr;
  Running run;
  bool up = run.start([&] { return masa ? masa_start(&d.rc, &d.mc, &d.pc, &mc) : registrar_start(&d.rc, &d.mc, &rc); });
  if (!up) { failf("does not start", "%s does not start", masa ? "MASA" : "registrar"); return; }
  struct R { const char *path, *method; api::Handler h; };
  static const R REG[] = {{PATH_BRSKI_REQUESTVOUCHER, "POST", registrar_requestvoucher}, {PATH_BRSKI_VOUCHER_STATUS, "POST", registrar_voucher_status}, {PATH_BRSKI_REQUESTAUDITLOG, "POST", registrar_requestauditlog}, {PATH_BRSKI_ENROLLSTATUS, "POST", registrar_enrollstatus}, {PATH_EST_SIMPLEENROLL, "POST", registrar_est_simpleenroll}};
  static const R MASA[] = {{PATH_BRSKI_REQUESTVOUCHER, "POST", masa_requestvoucher}, {PATH_BRSKI_VOUCHER_STATUS, "POST", masa_voucher_status}, {PATH_BRSKI_REQUESTAUDITLOG, "POST", masa_requestauditlog}, {PATH_BRSKI_ENROLLSTATUS, "POST", masa_enrollstatus}, {PATH_EST_CACERTS, "GET", get_est_cacerts}, {PATH_EST_SIMPLEENROLL, "POST", post_est_simpleenroll}, {PATH_EST_SIMPLEREENROLL, "POST", post_est_simplereenroll}, {PATH_EST_FULLCMC, "POST", post_est_fullcmc}, {PATH_EST_SERVERKEYGEN, "POST", post_est_serverkeygen}, {PATH_EST_CSRATTRS, "GET", get_est_csrattrs}};
  std::vector<R> table = masa ? std::vector<R>(MASA, MASA + 10) : std::vector<R>(REG, REG + 5);
  int n = (int)r.range(4, 10);
  for (int k = 0; k < n; k++) {
    // the MASA only talks to registrars of its configured CA
    const Node &who = masa ? (r.chance(1, 5) ? d.maker.leaf : d.dom.leaf) : d.maker.leaf;
    bool allowed = !masa || who.cert == d.dom.leaf.cert;
    bool none = r.chance(1, 8);
    Identity id;
    if (!none) id.chain = {who.cert}, id.key = who.key;
    const R &t = table[r.below(table.size())];
    Ask a;
    a.path = t.path, a.method = t.method;
    a.route = 0;
    if (r.chance(1, 4)) {
      a.path = near_path(a.path, r);
      a.route = -1;
      for (auto &x : table) if (a.path == x.path && a.method == x.method) a.route = 0;
    } else if (r.chance(1, 6)) {
      a.method = a.method == "GET" ? "POST" : r.chance(1, 2) ? "GET" : "PUT";
      a.route = -1;
      for (auto &x : table) if (a.path == x.path && a.method == x.method) a.route = 0;
    }
    a.target = a.path;
    if (has_body(a.method)) a.body = r.chance(1, 3) ? ref::b64(d.other.leaf.cert) : api::junk_body(r);
    Message m;
    Ctx c(false, id);
    std::string what = fmt("%s %s %s with %s", masa ? "MASA:" : "registrar:", a.method.c_str(), a.path.c_str(), printable(a.body, 60).c_str());
    for (int attempt = 0; attempt < 4 && !m.ok; attempt++) {
      Conn x;
      if (x.connect(run.port, c.c) && send(x, a, r)) m = read_message(x, false);
      if (m.ok && x.peer() != (masa ? d.masa.leaf.cert : d.dom.leaf.cert)) failf("server certificate", "%s presents another certificate", what.c_str());
      if (none || !allowed) break;
    }
    if (none || !allowed) {
      if (m.ok) failf("client not refused by the real server", "%s: a client %s gets %s", what.c_str(), none ? "without a certificate" : "of another CA", m.start.c_str());
      count("real servers: clients refused");
    } else if (!m.ok) failf("no reply", "%s gets no reply", what.c_str());
    else if (a.route < 0) {
      if (m.status != 404) failf("real server: unknown", "%s gets status %d", what.c_str(), m.status);
      check_error(m, what, false);
      count("real servers: unknown paths and methods");
    } else {
      api::Reply p;
      if (masa) {
        MasaContext x{};
        x.rconf = &d.rc, x.mconf = &d.mc;
        Buf ca(d.dom.root.cert);
        x.ldevid_ca_cert = &ca.a;
        p = api::call(t.h, a.body, who.cert, &x);
      } else {
        RegistrarContext x{&d.rc, &d.mc, nullptr, ""};
        snprintf(x.log_path, sizeof x.log_path, "%s/log2", scratch.c_str());
        p = api::call(t.h, a.body, who.cert, &x);
      }
      if (m.status != p.status) failf("real server: status", "%s gets status %d, the handler alone gives %d", what.c_str(), m.status, p.status);
      if (m.status >= 400) { check_error(m, what, false); if (!p.body.empty() && m.body != p.body) failf("real server: body", "%s gets %s, the handler alone gives %s", what.c_str(), printable(m.body).c_str(), printable(p.body).c_str()); }
      count(fmt("real servers: %s %s -> %d", masa ? "MASA" : "registrar", t.path, m.status));
    }
    evaluated(hash(what), true);
  }
  run.stop();
  if (rc) registrar_stop(rc);
  if (mc) masa_stop(mc);
}

int main(int argc, char **argv) {
  init(argc, argv);
  start_process();
  quiet_log();
  scratch = opt("scratch", ".");
  setenv("SSL_CERT_FILE", (scratch + "/roots.pem").c_str(), 1);
  setenv("SSL_CERT_DIR", (scratch + "/none").c_str(), 1);
  std::string m = opt("mode");
  return run([m](Rng &r, long i) {
    if (m == "served") served(r, i);
    else if (m == "both") both_ends(r, i);
    else if (m == "pinned") pinned(r, i);
    else if (m == "faulty") faulty(r, i);
    else if (m == "start") cannot_start(r, i);
    else real_servers(r, i);
  }, 0);
}
