// C16 over the network and on the command line: the running servers get broken
// TLS and HTTP, the HTTPS client broken replies, the tool broken files. They
// must survive it, keep answering, and give everything back.
#include "e2e.hpp"
#include "mutate.hpp"
#include <dirent.h>
#include <sys/resource.h>
#include "brski/http/https_client.hpp"
#include "brski/masa/masa_server.hpp"
#include "brski/masa/masa_api.hpp"
#include "brski/registrar/registrar_server.hpp"
#include "brski/registrar/registrar_api.hpp"
using namespace e2e;
using namespace mutate;
static std::string scratch;
// the registrar's log belongs in the scratch directory
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *p, const char *m) { return __real_fopen(!strncmp(p, "/var/log/", 9) ? (scratch + "/log").c_str() : p, m); }
static int open_files() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
static const std::vector<std::string> &http_words() {
  static const std::vector<std::string> w{"\r\n", "\r\n\r\n", "\n", "\r", ":", " ", "\t", "%", "%00", "%zz", "?", "&", "=", "#", "/", "//", "/../", "*", "\\", "\"", std::string(1, '\0'), "\xff", "HTTP/1.1", "HTTP/9.9", "HTTP/1.0", "Content-Length: 0\r\n", "Content-Length: -1\r\n", "Content-Length: 99999999999999999999999\r\n", "Content-Length: 18446744073709551615\r\n", "Content-Length: 9223372036854775807\r\n", "Content-Length: 4000000000\r\n", "Content-Length: abc\r\n", "Transfer-Encoding: chunked\r\n", "Transfer-Encoding: gzip, chunked\r\n", "Content-Encoding: gzip\r\n", "Content-Encoding: br\r\n", "Connection: close\r\n", "Connection: keep-alive\r\n", "Connection: Upgrade\r\n", "Expect: 100-continue\r\n", "Expect: 200-ok\r\n", "Range: bytes=0-1\r\n", "Range: bytes=-\r\n", "Range: bytes=5-1,9-\r\n", "Range: bytes=99999999999999999999-\r\n", "Accept: */*\r\n", "Accept-Encoding: gzip\r\n", "Content-Type: multipart/form-data; boundary=x\r\n", "Content-Type: multipart/form-data\r\n", "Content-Type: application/x-www-form-urlencoded\r\n", "Location: /\r\n", "Authorization: Basic !\r\n", "Host: [\r\n", "0\r\n\r\n", "ffffffffffffffff\r\n", "ffffffff\r\n", "-1\r\n", "5;x=y\r\n", "--x\r\n", "--x--\r\n", std::string(200, 'A'), std::string(9000, 'a'), std::string(70000, 'b'), std::string(3000, '\n'), "POST ", "GET ", "HEAD ", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "CONNECT x:1 ", "TRACE / ", "302", "204", "100", "999"};
  return w;
}
static Bytes bad_http(const Bytes &b, Rng &r) { return bytes_damage(b, r, http_words(), (int)r.range(1, r.chance(1, 3) ? 10 : 2)); }
static Bytes bad_record(Rng &r, const Bytes &hello) {
  switch (r.below(4)) {
  case 0: return r.bytes(r.range(1, 2000));
  case 1: return "POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc";
  case 2: { Bytes b("\x16\x03\x01", 3); b += (char)r.below(256); b += (char)r.below(256); return b + r.bytes(r.below(3000)); }
  default: return bytes_damage(hello, r, {}, (int)r.range(1, 4));
  }
}
static Bytes client_hello() { // as OpenSSL sends it
  Ctx c(false, Identity{});
  SSL *s = SSL_new(c.c);
  BIO *in = BIO_new(BIO_s_mem()), *out = BIO_new(BIO_s_mem());
  SSL_set_bio(s, in, out);
  SSL_connect(s);
  char *p;
  long n = BIO_get_mem_data(out, &p);
  Bytes b(p, (size_t)n);
  SSL_free(s);
  ERR_clear_error();
  return b;
}

// ---- the servers ----------------------------------------------------------------------
static void servers(Rng &r, long i) {
  std::string dir = scratch + "/d" + std::to_string(i);
  int before = 0;
  for (int round = 0; round < 2; round++) { // the second round must leave as many files open as the first
    api::Deploy d(r, dir + (round ? "b" : "a"), true);
    d.rc.port = d.mc.port = 0;
    bool masa = (i & 1) != 0;
    RegistrarContext *rc = nullptr;
    MasaContext *mc = nullptr;
    Running run;
    if (!run.start([&] { return masa ? masa_start(&d.rc, &d.mc, &d.pc, &mc) : registrar_start(&d.rc, &d.mc, &rc); })) { failf("does not start", "%s does not start", masa ? "MASA" : "registrar"); return; }
    Node who = masa ? d.dom.leaf : d.maker.leaf;
    Ctx ctx(false, Identity{{who.cert}, who.key});
    VoucherModel pm = d.pledge_model(r);
    Bytes preq = d.pledge_request(pm, r);
    VoucherModel rm = d.registrar_model(preq, pm, r);
    Bytes rreq = d.registrar_request(rm, r), genuine = ref::b64(masa ? rreq : preq), hello = client_hello();
    auto alive = [&](const char *after) {
      bool ok = false;
      for (int k = 0; k < 5 && !ok; k++) {
        Conn x;
        ok = x.connect(run.port, ctx.c) && x.write("GET /nothing HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n");
        if (ok) { Message m = read_message(x, false); ok = m.ok && m.status == 404; }
        if (!ok) usleep(100000);
      }
      if (!ok) failf("no longer answers", "the %s does not answer after %s", masa ? "MASA" : "registrar", after);
    };
    static const char *paths[] = {PATH_BRSKI_REQUESTVOUCHER, PATH_EST_SIMPLEENROLL, PATH_BRSKI_VOUCHER_STATUS, PATH_EST_CACERTS, "/"};
    int n = round ? 6 : 14;
    for (int k = 0; k < n && !S().fails; k++) {
      bool tls = !r.chance(1, 4);
      Conn x;
      Bytes t;
      if (tls) {
        Bytes body = r.chance(1, 2) ? damaged_base64(masa ? rreq : preq, r) : genuine;
        if (r.chance(1, 6)) body = Bytes((size_t)r.range(1, 2000000), 'A');
        t = fmt("%s %s HTTP/1.1\r\nHost: x\r\nContent-Type: application/voucher-cms+json\r\n", r.chance(1, 6) ? "GET" : "POST", paths[r.below(5)]);
        if (r.chance(1, 4)) { t += "Transfer-Encoding: chunked\r\n\r\n"; for (size_t p = 0; p < body.size(); p += 1000) { Bytes c = body.substr(p, 1000); t += fmt("%zx\r\n", c.size()) + c + "\r\n"; } t += "0\r\n\r\n"; }
        else t += fmt("Content-Length: %zu\r\n\r\n", body.size()) + body;
        for (int z = (int)r.below(3); z > 0; z--) t += t.substr(0, 5000); // pipelined
        if (!r.chance(1, 6)) {
          size_t head = t.find("\r\n\r\n") + 4, part = r.chance(1, 2) ? head : t.size();
          t = bad_http(t.substr(0, part), r) + t.substr(part);
        }
        if (r.chance(1, 5)) t.resize(r.below(t.size() + 1));
        if (x.connect(run.port, ctx.c)) {
          size_t p = 0;
          for (int z = (int)r.below(4); z > 0 && p < t.size(); z--) { size_t m = r.below(t.size() - p) + 1; if (!x.write(t.substr(p, m))) break; p += m; }
          if (p < t.size()) x.write(t.substr(p));
          switch (r.below(4)) {
          case 0: break;                        // goes away without reading
          case 1: { linger l{1, 0}; setsockopt(x.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); x.close(false); break; } // reset
          case 2: { x.timeouts(1); read_message(x, false); break; }
          default: { char junk[64]; memset(junk, 7, sizeof junk); (void)!::send(x.fd, junk, sizeof junk, MSG_NOSIGNAL); } // garbage below TLS
          }
          count("servers: broken requests over TLS");
        }
      } else {
        t = bad_record(r, hello);
        x.fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        x.timeouts(2);
        sockaddr_in a{};
        a.sin_family = AF_INET, a.sin_port = htons(run.port), a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (!connect(x.fd, (sockaddr *)&a, sizeof a)) { (void)!::send(x.fd, t.data(), t.size(), MSG_NOSIGNAL); if (r.chance(1, 3)) { shutdown(x.fd, SHUT_WR); char b[100]; (void)!recv(x.fd, b, sizeof b, 0); } }
        count("servers: broken TLS");
      }
      x.close(false);
      if (k % 4 == 3) alive("a broken request");
      evaluated(hash(t), true);
    }
    alive("broken requests");
    run.stop();
    if (rc) registrar_stop(rc);
    if (mc) masa_stop(mc);
    int now = open_files();
    if (round && now > before) {
      for (int w = 0; w < 20 && now > before; w++) usleep(50000), now = open_files();
      if (now > before) failf("open files left", "%d files are open after the second run of the %s, %d after the first", now, masa ? "MASA" : "registrar", before);
    }
    before = now;
  }
}

// ---- the client -----------------------------------------------------------------------
static void clients(Rng &r, long i) {
  std::string dir = scratch + "/c" + std::to_string(i);
  mkdir(dir.c_str(), 0700);
  Node ca = pki::root("CA", 0, r), srv = child(ca, cn("server"), 2, false, r), me = child(ca, cn("client"), 5, false, r);
  std::string crt = dir + "/c.crt", keyf = dir + "/c.key";
  write_file(crt, pem("CERTIFICATE", me.cert)), write_file(keyf, key_pem(me.key));
  Identity id;
  id.chain = {srv.cert}, id.key = 2;
  bool unclean = r.chance(1, 2);
  int kind = (int)r.below(8);
  Bytes rb = r.bytes(r.below(9000)), t;
  if (r.chance(1, 3)) {
    t = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n";
    for (size_t p = 0; p < rb.size(); p += 1000) { Bytes c = rb.substr(p, 1000); t += fmt("%zx\r\n", c.size()) + c + "\r\n"; }
    t += "0\r\n\r\n";
  } else t = reply_text(200, {{"Content-Type", "text/plain"}, {"X-A", "b"}}, rb, !r.chance(1, 6));
  if (kind < 6) { size_t part = r.chance(1, 2) ? t.find("\r\n\r\n") + 4 : t.size(); t = bad_http(t.substr(0, part), r) + t.substr(part); }
  else t = r.bytes(r.below(6000));
  bool no_tls = kind == 7 && r.chance(1, 2);
  int before = open_files();
  std::string reply;
  int st[2];
  {
    RawServer s(id, [&](Conn &c, bool up) {
      if (no_tls) { char b[600]; (void)!recv(c.fd, b, sizeof b, 0); (void)!::send(c.fd, t.data(), t.size(), MSG_NOSIGNAL); return; }
      if (!up) return;
      Message m = read_message(c, true);
      if (!m.ok) return;
      c.write(t);
      if (unclean) c.close(false);
    }, no_tls);
    HttpResponse res;
    res.peer_certificate = nullptr;
    st[0] = https_post_request(keyf, crt, "127.0.0.1", s.port, "/x", false, r.bytes(r.below(200)), "text/plain", res);
    if (st[0] >= 0) crypto_free_certcontext(res.peer_certificate);
    st[1] = https_post_request_ca(keyf, crt, pem("CERTIFICATE", ca.cert), "127.0.0.1", s.port, "/x", "abc", "text/plain", reply);
  }
  int now = open_files();
  if (now > before) failf("client leaves files open", "%d files are open after two requests, %d before", now, before);
  count(st[0] >= 0 ? "clients: broken reply taken" : "clients: broken reply refused");
  unlink(crt.c_str()), unlink(keyf.c_str()), rmdir(dir.c_str());
  evaluated(hash(t), true);
}

// ---- the tool --------------------------------------------------------------------------
static void tool(Rng &r, long i) {
  std::string base = scratch + "/t" + std::to_string(i);
  mkdir(base.c_str(), 0700);
  {
    api::Deploy d(r, base + "/d", true);
    d.rc.port = d.mc.port = 1; // where nothing listens
    std::string cfg = base + "/config";
    Bytes text = config_text(d.pc, d.rc, d.mc, r);
    static const std::vector<std::string> cw{"[pledge]\n", "[registrar]\n", "[masa]\n", "[", "]", "=", "\n", "\"", "'", ";", "#", "\\", "\r\n", "\t", std::string(1, '\0'), std::string(600, 'a'), std::string(5000, 'b'), "\xef\xbb\xbf", "\xff", "2023-01-01T00:00:00Z", "99999999999999999999", "-1"};
    bool worse = r.chance(1, 3);
    if (worse) text = damaged_text(text, r, cw);
    // nothing may be asked of the terminal or written elsewhere
    write_file(cfg, text);
    if (r.chance(1, 2))
      for (auto &p : d.path) {
        if (!r.chance(1, 6)) continue;
        Bytes b = read_file(p.second);
        b = bytes_damage(b, r, {"-----BEGIN CERTIFICATE-----\n", "-----END CERTIFICATE-----\n", "\n", "-----", "=", std::string(1, '\0'), std::string(3000, 'A')}, (int)r.range(1, 3));
        if (b.find("ENCRYPTED") != Bytes::npos) continue;
        write_file(p.second, b);
      }
    VoucherModel pm = d.pledge_model(r);
    Bytes preq = d.pledge_request(pm, r), in;
    Bytes v = d.voucher(d.voucher_model(d.registrar_model(preq, pm, r)), r);
    std::vector<std::string> a;
    static const char *cmds[] = {"vmasa", "epvr", "preq", "sign", "serial", "registrar", "masa", "nonsense"};
    std::string cmd = cmds[r.below(5) * (r.chance(4, 5) ? 1 : 0) + (r.chance(1, 12) ? 3 : 0)];
    if (cmd == "registrar" || cmd == "masa") cmd = "vmasa";
    Bytes msg = r.chance(1, 2) ? ref::b64(v) : r.chance(1, 3) ? damaged_base64(v, r) : ref::b64(damaged_der(v, r));
    if (r.chance(1, 8)) msg = r.bytes(r.below(9000));
    a = {"-c", cfg};
    in = msg;
    if (cmd == "vmasa") { Bytes c = pem("CERTIFICATE", r.chance(1, 3) ? damaged_der(d.dom.leaf.cert, r) : d.dom.leaf.cert); write_file(base + "/in", c); a.insert(a.end(), {"-i", base + "/in"}); }
    std::string outf = base + "/out";
    if (r.chance(1, 2)) a.insert(a.end(), {"-o", outf});
    if (r.chance(1, 4)) a.push_back("-d");
    a.push_back(cmd);
    if (r.chance(1, 6)) a.insert(a.begin() + (long)r.below(a.size() + 1), r.chance(1, 2) ? "-p" : fmt("-%c", (char)r.range(33, 126)));
    if (r.chance(1, 12)) a.push_back(std::string((size_t)r.range(1, 6000), 'x'));
    std::string what;
    for (auto &x : a) what += " " + printable(x, 60);
    for (auto &x : a) if (x.find('\0') != std::string::npos) x = "x";
    {
      Process p;
      mkdir((base + "/p").c_str(), 0700);
      p.start(base + "/p", a, in);
      Ran x = p.finish(100);
      if (x.hung) failf("tool hangs", "the tool does not end:%s", what.c_str());
      else if (x.crashed) failf("tool crash", "the tool ends with %d:%s: %s", x.rc, what.c_str(), why(x).c_str());
      count("tool: " + cmd + (x.rc ? " refused" : " done"));
    }
    evaluated(hash(text + msg + what), true);
    for (const char *s : {"", ".crt", ".key", ".smime"}) unlink((outf + s).c_str());
    unlink(cfg.c_str()), unlink((base + "/in").c_str());
  }
  // whatever it wrote next to its files
  if (DIR *dd = opendir(base.c_str())) {
    while (dirent *e = readdir(dd)) if (e->d_name[0] != '.') unlink((base + "/" + e->d_name).c_str());
    closedir(dd);
  }
  rmdir(base.c_str());
}
int main(int argc, char **argv) {
  init(argc, argv);
  start_process();
  quiet_log();
  scratch = opt("scratch", ".") + "/w";
  mkdir(scratch.c_str(), 0755);
  mkdir((scratch + "/cwd").c_str(), 0755);
  if (chdir((scratch + "/cwd").c_str())) harness_error("chdir"); // where relative names of the tool's lead
  setenv("SSL_CERT_FILE", (scratch + "/roots.pem").c_str(), 1);
  setenv("SSL_CERT_DIR", (scratch + "/none").c_str(), 1);
  Process::tool() = opt("cli");
  std::string m = opt("mode");
  return run(m == "servers" ? servers : m == "clients" ? clients : tool, 20);
}
