// TLS connections of the harness's own: a raw HTTP client, a raw server, and
// control over the servers of the code under test (which listen on whatever
// port is free). Link with --wrap=listen.
#pragma once
#include "world.hpp"
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <openssl/ssl.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <stdexcept>
#include <thread>

namespace wire {
using namespace world;

// ---- servers under test -----------------------------------------------------------
struct Listening { int fd = -1, port = 0; };
inline Listening *&my_listening() { static thread_local Listening *l = nullptr; return l; }
inline std::mutex &lmu() { static std::mutex m; return m; }
static int port_of(int fd) {
  sockaddr_in6 a{};
  socklen_t n = sizeof a;
  if (getsockname(fd, (sockaddr *)&a, &n)) return 0;
  return ntohs(a.sin6_family == AF_INET ? ((sockaddr_in *)&a)->sin_port : a.sin6_port);
}
} // namespace wire
extern "C" {
int __real_listen(int, int);
int __wrap_listen(int fd, int n) {
  int rc = __real_listen(fd, n);
  std::lock_guard<std::mutex> g(wire::lmu());
  if (rc == 0 && wire::my_listening()) wire::my_listening()->port = wire::port_of(fd), wire::my_listening()->fd = fd;
  return rc;
}
}
namespace wire {
// runs a function which starts a server and returns when that stops
struct Running {
  Listening l;
  std::thread th;
  std::atomic<bool> done{false};
  std::atomic<int> rc{-100};
  int port = 0;
  // true once it listens, false when the function has returned without
  bool start(std::function<int()> fn) {
    th = std::thread([this, fn] {
      my_listening() = &l;
      rc = fn();
      my_listening() = nullptr;
      done = true;
    });
    for (;;) {
      {
        std::lock_guard<std::mutex> g(lmu());
        if (l.fd >= 0) { port = l.port; return true; }
      }
      if (done) return false;
      usleep(200);
    }
  }
  void stop() {
    if (!th.joinable()) return;
    while (!done) {
      { std::lock_guard<std::mutex> g(lmu()); if (l.fd >= 0 && !done) shutdown(l.fd, SHUT_RDWR); }
      for (int i = 0; i < 50 && !done; i++) usleep(1000);
    }
    th.join();
  }
  ~Running() { stop(); }
};

// ---- TLS ---------------------------------------------------------------------------
struct Identity { // what one side presents
  std::vector<Bytes> chain; // leaf first; none: no certificate
  int key = 0;
};
struct Ctx {
  SSL_CTX *c;
  Ctx(bool server, const Identity &id, int max_version = 0) {
    c = SSL_CTX_new(server ? TLS_server_method() : TLS_client_method());
    if (!c) harness_error("SSL_CTX_new");
    SSL_CTX_set_verify(c, SSL_VERIFY_NONE, nullptr);
    if (server) SSL_CTX_set_verify(c, SSL_VERIFY_PEER, [](int, X509_STORE_CTX *) { return 1; });
    if (max_version) SSL_CTX_set_max_proto_version(c, max_version);
    if (!id.chain.empty()) {
      X x(id.chain[0]);
      if (SSL_CTX_use_certificate(c, x) != 1 || SSL_CTX_use_PrivateKey(c, key(id.key).k) != 1) harness_error("TLS identity");
      for (size_t i = 1; i < id.chain.size(); i++) { X y(id.chain[i]); SSL_CTX_add1_chain_cert(c, y.x); }
    }
  }
  Ctx(const Ctx &) = delete;
  ~Ctx() { SSL_CTX_free(c); }
};
struct Conn {
  int fd = -1;
  long number = 0; // at a RawServer: which of its connections
  SSL *s = nullptr;
  std::string in;
  bool eof = false;
  Conn() {}
  Conn(const Conn &) = delete;
  ~Conn() { close(true); }
  void close(bool politely) {
    if (s) {
      if (politely && !eof) SSL_shutdown(s);
      SSL_free(s);
      s = nullptr;
    }
    if (fd >= 0) ::close(fd);
    fd = -1;
    ERR_clear_error();
  }
  void timeouts(int sec) {
    timeval tv{sec, 0};
    setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
    int one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  }
  bool connect(int port, SSL_CTX *c) {
    fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    timeouts(30);
    sockaddr_in a{};
    a.sin_family = AF_INET, a.sin_port = htons(port), a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (::connect(fd, (sockaddr *)&a, sizeof a)) return false;
    s = SSL_new(c);
    SSL_set_fd(s, fd);
    bool ok = SSL_connect(s) == 1;
    ERR_clear_error();
    return ok;
  }
  bool accept(int sock, SSL_CTX *c) {
    fd = sock;
    timeouts(30);
    s = SSL_new(c);
    SSL_set_fd(s, fd);
    bool ok = SSL_accept(s) == 1;
    ERR_clear_error();
    return ok;
  }
  bool write(const Bytes &b) {
    size_t n = 0;
    while (n < b.size()) {
      int k = SSL_write(s, b.data() + n, (int)std::min<size_t>(b.size() - n, 1 << 20));
      if (k <= 0) { ERR_clear_error(); return false; }
      n += k;
    }
    return true;
  }
  bool more() {
    char t[16384];
    int k = eof ? 0 : SSL_read(s, t, sizeof t);
    ERR_clear_error();
    if (k <= 0) { eof = true; return false; }
    in.append(t, k);
    return true;
  }
  Bytes peer() const { X509 *x = s ? SSL_get0_peer_certificate(s) : nullptr; return x ? der_cert(x) : Bytes(); }
};

// ---- HTTP ---------------------------------------------------------------------------
static std::string lower(std::string s) { for (auto &c : s) c = (char)tolower((unsigned char)c); return s; }
struct Message { // a request or a reply
  bool ok = false;
  std::string start, method, target;
  int status = 0;
  std::vector<std::pair<std::string, std::string>> headers;
  Bytes body;
  std::vector<std::string> all(const std::string &k) const {
    std::vector<std::string> v;
    for (auto &h : headers) if (lower(h.first) == lower(k)) v.push_back(h.second);
    return v;
  }
  std::string one(const std::string &k) const { auto v = all(k); return v.empty() ? "" : v[0]; }
};
// reads one message; a request when server
static Message read_message(Conn &c, bool server, bool head = false) {
  Message m;
  size_t e;
  while ((e = c.in.find("\r\n\r\n")) == std::string::npos) {
    if (c.in.size() > (1 << 20) || !c.more()) return m;
  }
  std::string top = c.in.substr(0, e + 2);
  c.in.erase(0, e + 4);
  size_t p = top.find("\r\n");
  m.start = top.substr(0, p);
  p += 2;
  while (p < top.size()) {
    size_t q = top.find("\r\n", p), k = top.find(':', p);
    if (k == std::string::npos || k > q) return m;
    std::string v = top.substr(k + 1, q - k - 1);
    while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1);
    m.headers.push_back({top.substr(p, k - p), v});
    p = q + 2;
  }
  if (server) {
    size_t a = m.start.find(' '), b = m.start.rfind(' ');
    if (a == std::string::npos || a == b) return m;
    m.method = m.start.substr(0, a);
    m.target = m.start.substr(a + 1, b - a - 1);
  } else {
    if (m.start.compare(0, 7, "HTTP/1.") || m.start.size() < 12) return m;
    m.status = atoi(m.start.c_str() + 9);
    if (m.status == 100) return read_message(c, server, head);
  }
  if (head || m.status == 204 || m.status == 304) { m.ok = true; return m; }
  if (lower(m.one("Transfer-Encoding")) == "chunked") {
    for (;;) {
      size_t n;
      while ((n = c.in.find("\r\n")) == std::string::npos) if (!c.more()) return m;
      size_t len = strtoul(c.in.c_str(), nullptr, 16);
      c.in.erase(0, n + 2);
      while (c.in.size() < len + 2) if (!c.more()) return m;
      m.body += c.in.substr(0, len);
      c.in.erase(0, len + 2);
      if (!len) break;
    }
  } else if (!m.all("Content-Length").empty()) {
    size_t len = strtoul(m.one("Content-Length").c_str(), nullptr, 10);
    while (c.in.size() < len) if (!c.more()) return m;
    m.body = c.in.substr(0, len);
    c.in.erase(0, len);
  } else if (!server) {
    while (c.more()) {}
    m.body.swap(c.in);
  }
  m.ok = true;
  return m;
}
static Bytes reply_text(int status, const std::vector<std::pair<std::string, std::string>> &h, const Bytes &body, bool length = true) {
  Bytes s = fmt("HTTP/1.1 %d %s\r\n", status, status == 200 ? "OK" : "Reply");
  for (auto &x : h) s += x.first + ": " + x.second + "\r\n";
  if (length) s += fmt("Content-Length: %zu\r\n", body.size());
  return s + "\r\n" + body;
}

// ---- a server of the harness's own: one thread, one connection at a time, or one thread each
struct RawServer {
  typedef std::function<void(Conn &, bool accepted)> Serve;
  int fd, port;
  std::atomic<bool> stopping{false};
  std::thread th;
  Ctx ctx;
  Serve serve;
  std::atomic<long> connections{0};
  bool plain;
  std::function<SSL_CTX *(long)> pick; // what the n-th connection is shown, when not ctx
  RawServer(const Identity &id, Serve f, bool no_tls = false, std::function<SSL_CTX *(long)> which = nullptr) : ctx(true, id), serve(f), plain(no_tls), pick(which) {
    fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET, a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(fd, (sockaddr *)&a, sizeof a) || __real_listen(fd, 64)) harness_error("listen");
    port = port_of(fd);
    th = std::thread([this] {
      std::vector<std::thread> each;
      for (;;) {
        int s = accept4(fd, nullptr, nullptr, SOCK_CLOEXEC);
        if (s < 0 || stopping) { if (s >= 0) ::close(s); break; }
        long n = connections++;
        each.emplace_back([this, s, n] {
          Conn c;
          c.number = n;
          if (plain) { c.fd = s; serve(c, false); }
          else { bool ok = c.accept(s, pick ? pick(n) : ctx.c); serve(c, ok); }
        });
      }
      for (auto &t : each) t.join();
    });
  }
  ~RawServer() {
    stopping = true;
    shutdown(fd, SHUT_RDWR);
    th.join();
    ::close(fd);
  }
};
static inline void start_process() { signal(SIGPIPE, SIG_IGN); }
} // namespace wire
