// C21: threads working on their own objects, sharing only what they read, get
// what each gets alone. Every thread runs a program of library operations; the
// results are compared with those of the same program run alone, under the
// race detector, with a thread switch possible at every allocation.
#define STUB_HTTPS
#include "texts.hpp"
#include "brski/pledge/pledge_request.hpp"
#include <atomic>
#include <thread>
extern "C" {
#include "brski/pledge/pledge_utils.h"
}
using namespace texts;

static std::string scratch;
static std::atomic<bool> stirring{false};
static std::atomic<uint64_t> stirs{0};
static void stir() {
  if (!stirring.load(std::memory_order_relaxed)) return;
  thread_local uint64_t x = 0x1234567 + (uint64_t)&x;
  x = mix(x);
  if (x % 16 == 0) std::this_thread::yield(), stirs.fetch_add(1, std::memory_order_relaxed);
  else if (x % 512 == 1) usleep((useconds_t)(x >> 40) % 50), stirs.fetch_add(1, std::memory_order_relaxed);
}
// ---- one moment for all, and functions of the C library and OpenSSL with state of their own
static char shared_text[512];
static volatile unsigned shared_rand = 1; // deliberately without synchronisation
// written here, byte by byte, for the race detector to see it
template <class T> static T *publish(T *to, const T *from, size_t n) {
  for (size_t i = 0; i < n * sizeof(T); i++) ((volatile char *)to)[i] = ((const char *)from)[i];
  return to;
}
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) { stir(); return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { stir(); return __real_calloc(a, b); }
void __wrap_free(void *p) { stir(); __real_free(p); }
time_t __wrap_time(time_t *p) { stir(); time_t t = 1700000000; if (p) *p = t; return t; }
int __wrap_gettimeofday(struct timeval *tv, void *) { stir(); tv->tv_sec = 1700000000, tv->tv_usec = 0; return 0; }
int __wrap_clock_gettime(clockid_t, struct timespec *ts) { stir(); ts->tv_sec = 1700000000, ts->tv_nsec = 0; return 0; }
static struct tm shared_tm;
struct tm *__wrap_localtime(const time_t *t) { stir(); struct tm x; localtime_r(t, &x); return publish(&shared_tm, &x, 1); }
struct tm *__wrap_gmtime(const time_t *t) { stir(); struct tm x; gmtime_r(t, &x); return publish(&shared_tm, &x, 1); }
char *__wrap_asctime(const struct tm *t) { stir(); char x[64]; asctime_r(t, x); return publish(shared_text, x, strlen(x) + 1); }
char *__wrap_ctime(const time_t *t) { stir(); char x[64]; ctime_r(t, x); return publish(shared_text, x, strlen(x) + 1); }
static char *shared_save;
char *__wrap_strtok(char *s, const char *d) { stir(); return strtok_r(s, d, &shared_save); }
int __wrap_rand(void) { stir(); return (int)((shared_rand = shared_rand * 1103515245u + 12345u) >> 1); }
void __wrap_srand(unsigned s) { stir(); shared_rand = s; }
void __real_ERR_error_string_n(unsigned long, char *, size_t);
void __wrap_ERR_error_string_n(unsigned long e, char *b, size_t n) {
  stir();
  char t[512];
  if (n > sizeof t) n = sizeof t;
  __real_ERR_error_string_n(e, t, n);
  publish(b, t, strlen(t) + 1);
}
char *__wrap_ERR_error_string(unsigned long e, char *b) {
  char *to = b ? b : shared_text;
  __wrap_ERR_error_string_n(e, to, 256);
  return to;
}
}

// ---- what is shared ---------------------------------------------------------------
struct Shared {
  Deploy d;
  VoucherModel vm;
  struct Voucher *v;
  Bytes doc, preq, rreq, vou, fake_vou;
  Buf preq_b, rreq_b, vou_b, fake_b, doc_b, leaf, leafkey, mleaf, mkey, regtls, ca, cakey, rsakey;
  List maker_store, masa_store, dom_store, fake_store, maker_certs, none;
  Bytes ini, bad, crt;
  X peer;
  Shared(Rng &r, const std::string &dir) : d(r, dir, true), peer(d.maker.leaf.cert) {
    vm = some_model(r);
    v = voucher_of(vm);
    doc = doc_of(vm, r);
    auto pm = d.pledge_model(r);
    preq = d.pledge_request(pm, r);
    auto rm = d.registrar_model(preq, pm, r);
    rreq = d.registrar_request(rm, r);
    vou = d.voucher(d.voucher_model(rm), r);
    fake_vou = cms_sign(doc_of(d.voucher_model(rm), r), {{d.fake_masa.leaf.cert, d.fake_masa.leaf.key}}, d.fake_masa.embed());
    preq_b.set(preq), rreq_b.set(rreq), vou_b.set(vou), fake_b.set(fake_vou), doc_b.set(doc);
    leaf.set(d.maker.leaf.cert), leafkey.set(key(d.maker.leaf.key).der);
    mleaf.set(d.masa.leaf.cert), mkey.set(key(d.masa.leaf.key).der);
    regtls.set(d.dom.leaf.cert), ca.set(d.dom.root.cert), cakey.set(key(d.dom.root.key).der);
    rsakey.set(key(N_EC).der);
    maker_store.add(d.maker.root.cert), masa_store.add(d.masa.root.cert), dom_store.add(d.dom.root.cert), fake_store.add(d.fake_maker.root.cert);
    maker_certs.add(d.other.leaf.cert);
    none.empty();
    ini = d.file("shared.ini", "[pledge]\nserialNumber=12345\nnonce=bm9uY2U=\nidevidKeyPath=/a/b\ncmsVerifyStorePath=/x\ncmsVerifyStorePath=/y\n[registrar]\nport=12345\nbindAddress=127.0.0.1\n[masa]\nport=1\nexpiresOn=2030-01-02T03:04:05Z\ncmsAdditionalCertPath=/z\n");
    bad = d.file("bad.crt", "-----BEGIN CERTIFICATE-----\nMIIB\n-----END CERTIFICATE-----\n");
    crt = d.path["idevid.crt"];
  }
  ~Shared() { free_voucher(v); }
};
static std::string taken(BinaryArray *b, std::string (*text)(const Bytes &)) { std::string s = b ? text(str(b)) : "none"; free_binary_array(b); return s; }
static std::string taken(uint8_t *p, ssize_t n, std::string (*text)(const Bytes &)) { std::string s = n >= 0 && p ? text(Bytes((char *)p, n)) : "none"; free(p); return s; }
static std::string taken(char *p) { std::string s = p ? p : "NULL"; free(p); return s; }
static std::string raw(const Bytes &b) { return hex(b, 1000); }
static std::string voucher_text(const VoucherModel &g) { std::string s = g.text(); for (auto &a : g.array) s += fp(a.second); return s; }
static std::string text_of(struct Voucher *v) {
  VoucherModel g;
  std::string e;
  return !v ? "none" : get(v, g, e) ? voucher_text(g) : e;
}
static std::string meta_text(CRYPTO_CERT c) {
  crypto_cert_meta m{};
  m.issuer = init_keyvalue_list();
  m.subject = init_keyvalue_list();
  int rc = crypto_getcert_meta(c, &m);
  char *s = crypto_getcert_serial(&m);
  std::string t = fmt("%d ", rc) + kv_text(m.issuer) + "/" + kv_text(m.subject) + std::to_string(m.serial_number) + (s ? s : "none");
  free_keyvalue_list(m.issuer);
  free_keyvalue_list(m.subject);
  return t;
}
static int give_pinned(const char *serial, const BinaryArrayList *, void *user, BinaryArray *out) {
  Buf b(*(const Bytes *)user);
  return serial ? copy_binary_array(out, &b.a) : -1;
}

// ---- operations: everything follows from the random numbers and the shared inputs
typedef std::function<std::string(Rng &, Shared &)> Op;
static const std::vector<std::pair<const char *, Op>> &ops() {
  static const std::vector<std::pair<const char *, Op>> o = {
      {"voucher record", [](Rng &r, Shared &) {
         VoucherModel a = some_model(r), b = some_model(r);
         struct Voucher *v = init_voucher();
         std::string s = put(v, a) ? text_of(v) : "put fails";
         for (int k = 0; k < 3; k++) s += clear_attr_voucher(v, A((int)r.below(ref::NATTR)));
         s += put(v, b) ? text_of(v) : "put fails";
         free_voucher(v);
         return s;
       }},
      {"serialize a shared voucher", [](Rng &, Shared &w) { return taken(serialize_voucher(w.v)); }},
      {"serialize", [](Rng &r, Shared &) {
         struct Voucher *v = voucher_of(some_model(r));
         std::string s = taken(serialize_voucher(v));
         free_voucher(v);
         return s;
       }},
      {"parse", [](Rng &r, Shared &w) {
         Bytes d = r.chance(1, 3) ? w.doc : doc_of(some_model(r), r);
         std::string how;
         if (r.chance(1, 3)) d = spoil(d, r, how);
         Buf b(d);
         struct Voucher *v = deserialize_voucher(b.a.array, b.a.length);
         std::string s = text_of(v);
         free_voucher(v);
         return s;
       }},
      {"base64", [](Rng &r, Shared &) {
         Bytes x = r.bytes(r.range(1, 400));
         std::string s;
         uint8_t *e = nullptr;
         Buf b(x);
         ssize_t n = serialize_array2base64str(b.a.array, b.a.length, &e);
         s = n >= 0 ? std::string((char *)e, n) : "none";
         Buf t(r.chance(1, 4) ? s + "!" : s);
         uint8_t *back = nullptr;
         n = serialize_base64str2array(t.a.array, t.a.length, &back);
         s += fmt(" %zd ", n) + (n > 0 ? raw(Bytes((char *)back, n)) : "");
         free(e);
         free(back);
         return s;
       }},
      {"dates", [](Rng &r, Shared &) {
         struct tm a {}, b {};
         std::string s = fmt("%d %d ", get_utctime(&a), get_localtime(&b));
         s += fmt("%d-%d-%d %d:%d:%d %d ", a.tm_year, a.tm_mon, a.tm_mday, a.tm_hour, a.tm_min, a.tm_sec, b.tm_hour) + taken(serialize_localtime());
         struct tm t = ref::rand_date(r).tm();
         char *x = serialize_time2str(&t);
         struct tm back {};
         std::string xs = x ? x : "";
         if (r.chance(1, 4)) xs += "x";
         int rc = serialize_str2time(xs.c_str(), &back);
         s += " " + xs + fmt(" %d %d-%d-%d %d:%d:%d", rc, back.tm_year, back.tm_mon, back.tm_mday, back.tm_hour, back.tm_min, back.tm_sec);
         free(x);
         return s;
       }},
      {"texts", [](Rng &r, Shared &) {
         std::string p = plain_serial(r), s;
         s = taken(serialize_escapestr(p.c_str())) + taken(serialize_bool2str(r.chance(1, 2)));
         keyvalue_list *l = init_keyvalue_list();
         for (long n = r.range(0, 6); n > 0; n--) push_keyvalue_list(l, (char *)plain_serial(r).c_str(), (char *)plain_serial(r).c_str());
         s += taken(serialize_keyvalue2json(l));
         free_keyvalue_list(l);
         return s;
       }},
      {"lists", [](Rng &r, Shared &) {
         BinaryArrayList *l = init_array_list();
         for (long n = r.range(1, 8); n > 0; n--) { Buf b(r.bytes(r.range(1, 60))); push_array_list(l, b.a.array, b.a.length, (int)n); }
         std::string s = list_text(l);
         free_array_list(l);
         Buf x(r.bytes(20)), y;
         s += fmt("%d %d", copy_binary_array(&y.a, &x.a), compare_binary_array(&x.a, &y.a));
         return s;
       }},
      {"key", [](Rng &, Shared &) { uint8_t *k = nullptr; ssize_t n = crypto_generate_eckey(&k); return taken(k, n, key_text); }},
      {"certificate", [](Rng &r, Shared &w) {
         uint8_t *k = nullptr, *c = nullptr;
         ssize_t kn = crypto_generate_eckey(&k);
         crypto_cert_meta m{};
         m.serial_number = r.next() >> 1;
         m.not_after = 1234567;
         m.issuer = init_keyvalue_list();
         m.subject = init_keyvalue_list();
         push_keyvalue_list(m.issuer, (char *)"CN", (char *)fmt("ca %d", (int)r.below(100)).c_str());
         push_keyvalue_list(m.subject, (char *)"CN", (char *)fmt("device %d", (int)r.below(100)).c_str());
         push_keyvalue_list(m.subject, (char *)"serialNumber", (char *)fmt("%d", (int)r.below(100000)).c_str());
         m.basic_constraints = (char *)(r.chance(1, 2) ? "CA:false" : "CA:true");
         ssize_t cn = crypto_generate_eccert(&m, k, kn, &c);
         std::string s = cn >= 0 ? cert_text(Bytes((char *)c, cn), nullptr) : "none";
         if (cn >= 0) {
           cn = crypto_sign_cert(w.cakey.a.array, w.cakey.a.length, w.ca.a.array, w.ca.a.length, cn, &c);
           s += cn >= 0 ? cert_text(Bytes((char *)c, cn), key(w.d.dom.root.key).k) : "none";
         }
         free_keyvalue_list(m.issuer);
         free_keyvalue_list(m.subject);
         free(k);
         free(c);
         return s;
       }},
      {"certificate fields", [](Rng &r, Shared &w) {
         const Bytes &der = r.chance(1, 2) ? w.d.maker.leaf.cert : w.d.dom.root.cert;
         CRYPTO_CERT c = crypto_cert2context((const uint8_t *)der.data(), der.size());
         std::string s = meta_text(c) + taken(crypto_getcert_serialhex(c)) + taken(crypto_getcert_issuer(c), raw) + taken(crypto_cert2buf(c), fp);
         crypto_free_certcontext(c);
         return s;
       }},
      {"fields of a shared certificate", [](Rng &, Shared &w) { return meta_text((CRYPTO_CERT)w.peer.x) + taken(crypto_getcert_serialhex((CRYPTO_CERT)w.peer.x)) + taken(crypto_getcert_issuer((CRYPTO_CERT)w.peer.x), raw) + taken(crypto_cert2buf((CRYPTO_CERT)w.peer.x), fp); }},
      {"bad encodings", [](Rng &r, Shared &) {
         Buf b(r.bytes(r.range(1, 100)));
         CRYPTO_CERT c = crypto_cert2context(b.a.array, b.a.length);
         CRYPTO_KEY k = crypto_eckey2context(b.a.array, b.a.length);
         CRYPTO_KEY k2 = crypto_key2context(b.a.array, b.a.length);
         uint8_t *p = nullptr;
         ssize_t n = crypto_verify_cms(&b.a, nullptr, nullptr, &p, nullptr);
         return fmt("%d%d%d%d", c != nullptr, k != nullptr, k2 != nullptr, n >= 0);
       }},
      {"sign a message", [](Rng &r, Shared &w) {
         Buf d(r.bytes(r.range(1, 200)));
         uint8_t *p = nullptr;
         ssize_t n = r.chance(1, 2) ? crypto_sign_cms(d.a.array, d.a.length, w.leaf.a.array, w.leaf.a.length, w.leafkey.a.array, w.leafkey.a.length, w.maker_certs, &p)
                                    : crypto_sign_eccms(d.a.array, d.a.length, w.leaf.a.array, w.leaf.a.length, w.leafkey.a.array, w.leafkey.a.length, nullptr, &p);
         return taken(p, n, cms_text);
       }},
      {"sign with the wrong key", [](Rng &r, Shared &w) {
         Buf d(r.bytes(r.range(1, 200)));
         uint8_t *p = nullptr;
         return taken(p, crypto_sign_cms(d.a.array, d.a.length, w.leaf.a.array, w.leaf.a.length, w.rsakey.a.array, w.rsakey.a.length, nullptr, &p), cms_text);
       }},
      {"verify a message", [](Rng &r, Shared &w) {
         static const int n = 4;
         int k = (int)r.below(n), t = (int)r.below(4);
         const Buf *m[n] = {&w.preq_b, &w.rreq_b, &w.vou_b, &w.fake_b};
         const List *s[] = {&w.maker_store, &w.masa_store, &w.dom_store, &w.fake_store};
         uint8_t *p = nullptr;
         BinaryArrayList *out = nullptr;
         ssize_t len = crypto_verify_cms(&m[k]->a, r.chance(1, 3) ? w.maker_certs.l : nullptr, s[t]->l, &p, &out);
         std::string x = taken(p, len, fp) + list_text(out);
         free_array_list(out);
         return x;
       }},
      {"verify a voucher", [](Rng &r, Shared &w) {
         struct Voucher *v = verify_cms_voucher(r.chance(1, 2) ? &w.vou_b.a : &w.fake_b.a, nullptr, r.chance(2, 3) ? w.masa_store.l : nullptr, nullptr);
         std::string s = text_of(v);
         free_voucher(v);
         return s;
       }},
      {"verify a chain", [](Rng &r, Shared &w) {
         const Bytes *c[] = {&w.d.maker.leaf.cert, &w.d.dom.leaf.cert, &w.d.fake_dom.leaf.cert, &w.d.masa.leaf.cert};
         const List *s[] = {&w.maker_store, &w.masa_store, &w.dom_store, &w.fake_store};
         const Bytes &x = *c[r.below(4)];
         int t = (int)r.below(4);
         bool certs = r.chance(1, 2);
         return fmt("%d", crypto_verify_cert((const uint8_t *)x.data(), x.size(), certs ? s[t]->l : w.none.l, certs ? nullptr : s[t]->l) >= 0);
       }},
      {"pledge request", [](Rng &r, Shared &w) {
         struct tm t = ref::rand_date(r).tm();
         Buf n(r.bytes(16));
         return taken(sign_pledge_voucher_request(&t, plain_serial(r).c_str(), &n.a, &w.regtls.a, &w.leaf.a, &w.leafkey.a, w.maker_certs), cms_text);
       }},
      {"registrar request", [](Rng &r, Shared &w) {
         struct tm t = ref::rand_date(r).tm();
         Buf is("issuer"), sc(w.d.regsign.cert), sk(key(w.d.regsign.key).der);
         return taken(sign_voucher_request(&w.preq_b.a, &t, r.chance(3, 4) ? w.d.serial.c_str() : "other", &is.a, &w.regtls.a, &sc.a, &sk.a, nullptr, r.chance(3, 4) ? w.maker_store.l : w.fake_store.l, w.none), cms_text);
       }},
      {"voucher of the MASA", [](Rng &r, Shared &w) {
         struct tm t = ref::rand_date(r).tm();
         Bytes pin = w.d.dom.root.cert;
         return taken(sign_masa_pledge_voucher(&w.rreq_b.a, &t, give_pinned, &pin, &w.mleaf.a, &w.mkey.a, nullptr, r.chance(3, 4) ? w.dom_store.l : w.fake_store.l, nullptr, w.maker_store, nullptr), cms_text);
       }},
      {"acceptance by the pledge", [](Rng &r, Shared &w) {
         Buf n(r.chance(3, 4) ? w.d.nonce : r.bytes(8));
         BinaryArray pin{};
         BinaryArrayList *out = nullptr;
         int rc = verify_masa_pledge_voucher(r.chance(2, 3) ? &w.vou_b.a : &w.fake_b.a, w.d.serial.c_str(), r.chance(1, 2) ? &n.a : nullptr, &w.regtls.a, nullptr, nullptr, w.masa_store, &out, &pin);
         std::string s = fmt("%d ", rc >= 0) + fp(str(&pin)) + list_text(out);
         free_array_list(out);
         free(pin.array);
         return s;
       }},
      {"configuration", [](Rng &r, Shared &w) {
         brski_config c{};
         int rc = load_brski_config(r.chance(1, 5) ? "/nonexistent" : w.ini.c_str(), &c);
         auto s = [](const char *p) { return std::string(p ? p : "NULL") + "|"; };
         std::string t = fmt("%d ", rc >= 0) + s(c.pconf.serial_number) + s(c.pconf.nonce) + s(c.pconf.idevid_key_path) + list_text(c.pconf.cms_verify_store_paths) + s(c.rconf.bind_address) + fmt("%d ", c.rconf.port) + s(c.mconf.expires_on) + list_text(c.mconf.cms_add_certs_paths);
         free_config_content(&c);
         return t;
       }},
      {"certificate files", [](Rng &r, Shared &w) {
         std::string s = taken(file_to_x509buf(r.chance(1, 4) ? w.bad.c_str() : w.crt.c_str()), fp) + taken(file_to_keybuf(r.chance(1, 4) ? w.bad.c_str() : w.d.pc.idevid_key_path), fp);
         BinaryArrayList *l = nullptr;
         int rc = load_cert_files(w.d.pc.cms_verify_store_paths, &l);
         s += fmt("%d", rc) + list_text(l);
         free_array_list(l);
         return s;
       }},
      {"writing files", [](Rng &r, Shared &w) {
         static std::atomic<int> n{0};
         std::string f = scratch + "/w" + std::to_string(n++);
         int a = certbuf_to_file(&w.leaf.a, f.c_str());
         std::string s = fmt("%d", a) + fp(read_file(f));
         a = keybuf_to_file(&w.leafkey.a, f.c_str());
         s += fmt("%d", a) + fp(read_file(f));
         a = cmsbuf_to_file(&w.vou_b.a, f.c_str());
         s += fmt("%d", a) + fp(read_file(f));
         unlink(f.c_str());
         return s;
       }},
      {"request of a pledge", [](Rng &, Shared &w) {
         char *p = voucher_pledge_request_to_base64(&w.d.pc, &w.regtls.a);
         Bytes der;
         std::string s = p && ref::unb64(p, der) ? cms_text(der) : "none";
         free(p);
         return s;
       }},
      {"random numbers", [](Rng &, Shared &) { Buf b(Bytes(32, 0)), z(Bytes(32, 0)); int rc = crypto_getrand(&b.a); return fmt("%d %d", rc, memcmp(b.a.array, z.a.array, 32) != 0); }},
      {"enrolment", [](Rng &r, Shared &w) {
         static std::atomic<int> n{0};
         RegistrarContext c{&w.d.rc, &w.d.mc, nullptr, ""};
         snprintf(c.log_path, sizeof c.log_path, "%s/log%d", scratch.c_str(), n++);
         std::string body = r.chance(1, 4) ? "nothing" : ref::b64(w.d.other.leaf.cert);
         Reply p = call(registrar_est_simpleenroll, body, w.d.maker.leaf.cert, &c);
         Bytes der;
         std::string s = fmt("%d ", p.status) + (p.status == 200 && ref::unb64(p.body, der) ? cert_text(der, key(w.d.dom.root.key).k) : p.body);
         unlink(c.log_path);
         return s;
       }},
      {"request at the MASA", [](Rng &r, Shared &w) {
         MasaContext m{};
         m.rconf = &w.d.rc, m.mconf = &w.d.mc;
         m.ldevid_ca_cert = &w.ca.a;
         Reply p = call(masa_requestvoucher, ref::b64(r.chance(3, 4) ? w.rreq : w.preq), w.d.dom.leaf.cert, &m);
         Bytes der;
         return fmt("%d ", p.status) + (p.status == 200 && ref::unb64(p.body, der) ? cms_text(der) : p.body);
       }},
  };
  return o;
}

static std::atomic<int> doing[64];
static std::mutex pmu;
static void one(Rng &r, long i) {
  Shared w(r, scratch + "/d" + std::to_string(i));
  int nt = (int)r.range(2, 8), len = (int)r.range(4, 14);
  // a program of one thread; in some cases all do the same thing at once
  bool same = r.chance(1, 3);
  std::vector<std::vector<std::pair<int, uint64_t>>> prog(nt);
  int focus = (int)r.below(ops().size());
  for (int k = 0; k < len; k++) {
    int o = (int)r.below(ops().size());
    for (auto &p : prog) p.push_back({same ? (r.chance(2, 3) ? focus : o) : (int)r.below(ops().size()), r.next()});
  }
  std::vector<std::vector<std::string>> alone(nt), together(nt);
  auto all_alone = [&] {
    for (int t = 0; t < nt; t++) for (auto &p : prog[t]) { Rng q(p.second); alone[t].push_back(ops()[p.first].second(q, w)); ERR_clear_error(); }
  };
  bool cold = i % 2; // the threads first: also what is set up at the first use
  if (!cold) all_alone();
  std::set<std::string> pairs;
  long overlaps = 0;
  {
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    stirring = true;
    for (int t = 0; t < nt; t++)
      th.emplace_back([&, t] {
        ready++;
        while (ready < nt) std::this_thread::yield();
        for (auto &p : prog[t]) {
          doing[t] = p.first + 1;
          Rng q(p.second);
          together[t].push_back(ops()[p.first].second(q, w));
          ERR_clear_error();
          std::vector<int> now;
          for (int u = 0; u < nt; u++) if (u != t) if (int x = doing[u]) now.push_back(x);
          doing[t] = 0;
          if (!now.empty()) {
            std::lock_guard<std::mutex> g(pmu);
            overlaps++;
            for (int x : now) pairs.insert(std::string(ops()[p.first].first) + " while " + ops()[x - 1].first);
          }
        }
      });
    for (auto &x : th) x.join();
    stirring = false;
  }
  if (cold) all_alone();
  for (int t = 0; t < nt; t++)
    for (int k = 0; k < len; k++) {
      const char *name = ops()[prog[t][k].first].first;
      if (alone[t][k] != together[t][k])
        failf(std::string("differs ") + name, "\"%s\" (thread %d of %d, operation %d) gives %s among threads and %s alone", name, t, nt, k, printable(together[t][k], 1500).c_str(), printable(alone[t][k], 1500).c_str());
      count(std::string("operations: ") + name);
      evaluated(hash(std::string(name) + alone[t][k]), true);
    }
  count("operations overlapping others", overlaps);
  for (auto &p : pairs) {
    static std::set<std::string> seen;
    if (seen.insert(p).second) count("distinct overlapping pairs of operations, per process");
  }
  count("thread switches asked for", (long)stirs.exchange(0));
  if (want_sample()) sample(fmt("%d threads of %d operations, e.g. %s -> %s", nt, len, ops()[prog[0][0].first].first, printable(alone[0][0], 200).c_str()));
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet_log();
  scratch = opt("scratch", ".");
  return run([](Rng &r, long i) { one(r, i); }, 0);
}
