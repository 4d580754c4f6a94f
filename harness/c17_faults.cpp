// C17: every operation with every single allocation and OpenSSL call failing.
#define STUB_HTTPS
#include "faults.hpp"
#include "texts.hpp"
#include "brski/pledge/pledge_request.hpp"
extern "C" {
#include "brski/pledge/pledge_utils.h"
}
using namespace api;
using namespace texts;
using faults::Armed;
using faults::enumerate;
using faults::Outcome;

static std::string scratch;
static Outcome outcome(bool ok, const std::string &canon = "") { Outcome o; o.ok = ok; if (ok) o.canon = canon; return o; }
static void record(Rng &r) {
  ref::VoucherModel m = some_model(r);
  std::string info = m.text();
  enumerate("init_voucher", "", [&] {
    struct Voucher *v;
    { Armed a; v = init_voucher(); }
    Outcome o = outcome(v);
    ref::VoucherModel g;
    std::string e;
    if (v) o.canon = get(v, g, e) ? g.text() : e;
    free_voucher(v);
    return o;
  });
  for (int a = 0; a < ref::NATTR; a++) {
    ref::VoucherModel m2 = m, gone = m;
    if (ref::is_time(a)) m2.time[a] = ref::rand_date(r), gone.time.erase(a);
    else if (ref::is_array(a)) m2.array[a] = r.bytes(r.range(1, 300)), gone.array.erase(a);
    else if (a == ATTR_SERIAL_NUMBER) m2.serial = plain_serial(r), gone.serial.reset();
    else if (a == ATTR_ASSERTION) m2.assertion = (int)r.range(1, 3), gone.assertion = 0;
    else m2.revcheck = !m.revcheck, gone.revcheck = false;
    bool generic = r.chance(1, 2);
    enumerate("set_attr", fmt("attribute %d of %s", a, info.c_str()), [&] {
      struct Voucher *v = voucher_of(m);
      int rc = -1;
      auto at = (VoucherAttributes)a;
      if (ref::is_time(a)) { struct tm tm = m2.time[a].tm(); Armed x; rc = generic ? set_attr_voucher(v, at, &tm) : set_attr_time_voucher(v, at, &tm); }
      else if (ref::is_array(a)) { Buf b(m2.array[a]); Armed x; rc = generic ? set_attr_voucher(v, at, &b.a) : set_attr_array_voucher(v, at, &b.a); }
      else if (a == ATTR_SERIAL_NUMBER) { const char *s = m2.serial->c_str(); Armed x; rc = generic ? set_attr_voucher(v, at, s) : set_attr_str_voucher(v, at, s); }
      else if (a == ATTR_ASSERTION) { int as = m2.assertion; Armed x; rc = generic ? set_attr_voucher(v, at, as) : set_attr_enum_voucher(v, at, as); }
      else { bool rv = m2.revcheck; Armed x; rc = generic ? set_attr_voucher(v, at, (int)rv) : set_attr_bool_voucher(v, at, rv); }
      ref::VoucherModel g;
      std::string e;
      Outcome o = outcome(rc >= 0);
      if (!get(v, g, e)) o.bad = e;
      else if (rc >= 0) o.canon = g.text();
      else if (!(g == m) && !(g == gone)) o.bad = "the voucher became " + g.text() + " from " + m.text();
      free_voucher(v);
      return o;
    });
  }
  enumerate("serialize_voucher", info, [&] {
    struct Voucher *v = voucher_of(m);
    char *s;
    { Armed a; s = serialize_voucher(v); }
    Outcome o = outcome(s, s ? s : "");
    free(s);
    free_voucher(v);
    return o;
  });
  Bytes doc = doc_of(m, r), bad = doc;
  for (const Bytes &d : {doc, doc.substr(0, r.below(doc.size()))})
    enumerate("deserialize_voucher", printable(d, 200), [&] {
      Buf b(d);
      struct Voucher *v;
      { Armed a; v = deserialize_voucher(b.a.array, b.a.length); }
      Outcome o = outcome(v);
      ref::VoucherModel g;
      std::string e;
      if (v) o.canon = get(v, g, e) ? g.text() : e;
      free_voucher(v);
      return o;
    });
}

static void codecs(Rng &r) {
  Bytes b = r.bytes(r.range(1, 400)), t = ref::b64(b);
  std::string text = plain_serial(r) + "\"\n\\";
  auto cstr = [&](const char *name, const std::function<char *()> &f, bool any = false) {
    enumerate(name, text, [&] {
      char *s;
      { Armed a; s = f(); }
      Outcome o = outcome(s, s ? any ? "something" : s : "");
      free(s);
      return o;
    });
  };
  enumerate("array2base64str", hex(b), [&] {
    Buf x(b);
    uint8_t *p = nullptr;
    ssize_t n;
    { Armed a; n = serialize_array2base64str(x.a.array, x.a.length, &p); }
    Outcome o = outcome(n >= 0, n >= 0 && p ? std::string((char *)p, n) + "." : "nothing");
    if (n < 0 && p) o.bad = "a buffer is left with the caller";
    free(p);
    return o;
  });
  for (const Bytes &s : {t, Bytes("a!b")})
    enumerate("base64str2array", s, [&] {
      Buf x(s);
      uint8_t *p = nullptr;
      ssize_t n;
      { Armed a; n = serialize_base64str2array(x.a.array, x.a.length, &p); }
      Outcome o = outcome(n >= 0, n >= 0 && p ? hex(p, n) : "nothing");
      if (n < 0 && p) o.bad = "a buffer is left with the caller";
      free(p);
      return o;
    });
  struct tm tm = ref::rand_date(r).tm();
  cstr("bool2str", [&] { return serialize_bool2str(true); });
  cstr("time2str", [&] { return serialize_time2str(&tm); });
  cstr("localtime", [&] { return serialize_localtime(); }, true);
  cstr("escapestr", [&] { return serialize_escapestr(text.c_str()); });
  cstr("sys_strdup", [&] { return sys_strdup(text.c_str()); });
  cstr("sys_strndup", [&] { return sys_strndup(text.c_str(), text.size()); });
  keyvalue_list *kv = init_keyvalue_list();
  for (long n = r.range(0, 8); n > 0; n--) push_keyvalue_list(kv, (char *)("k" + std::to_string(n)).c_str(), (char *)"\"v\"");
  cstr("keyvalue2json", [&] { return serialize_keyvalue2json(kv); });
  free_keyvalue_list(kv);
  enumerate("memdup", "", [&] {
    Buf x(b);
    void *p;
    { Armed a; p = sys_memdup(x.a.array, x.a.length); }
    Outcome o = outcome(p, p ? hex(p, b.size()) : "");
    free(p);
    return o;
  });
  enumerate("realloc_array", "", [&] {
    char *p = (char *)malloc(10), *q;
    memcpy(p, "123456789", 10);
    { Armed a; q = (char *)sys_realloc_array(p, 5, 20); }
    Outcome o = outcome(q, q ? q : "");
    if (!q && memcmp(p, "123456789", 10)) o.bad = "the old memory changed";
    free(q ? q : p);
    return o;
  });
}

static void containers(Rng &r) {
  std::vector<Bytes> v;
  for (long n = r.range(0, 5); n > 0; n--) v.push_back(r.bytes(r.range(1, 50)));
  Bytes b = r.bytes(r.range(1, 100)), old = r.bytes(r.range(1, 100));
  enumerate("array_list", "", [&] {
    BinaryArrayList *l;
    { Armed a; l = init_array_list(); }
    Outcome o = outcome(l, list_text(l));
    free_array_list(l);
    return o;
  });
  enumerate("push_array_list", fmt("%zu elements", v.size()), [&] {
    List l;
    l.empty();
    for (auto &x : v) l.add(x);
    Buf x(b);
    std::string before = list_text(l);
    int rc;
    { Armed a; rc = push_array_list(l.l, x.a.array, x.a.length, 1); }
    Outcome o = outcome(rc >= 0, list_text(l));
    if (rc < 0 && list_text(l) != before) o.bad = "the list became " + list_text(l) + " from " + before;
    return o;
  });
  enumerate("init_binary_array", "", [&] {
    BinaryArray *x;
    { Armed a; x = init_binary_array(); }
    Outcome o = outcome(x, x && !x->array && !x->length ? "empty" : "not empty");
    free_binary_array(x);
    return o;
  });
  for (bool full : {false, true})
    enumerate("copy_binary_array", full ? "over another" : "", [&] {
      Buf s(b);
      BinaryArray d{};
      if (full) { d.array = (uint8_t *)malloc(old.size()); memcpy(d.array, old.data(), old.size()); d.length = old.size(); }
      uint8_t *before = d.array;
      int rc;
      { Armed a; rc = copy_binary_array(&d, &s.a); }
      Outcome o = outcome(rc >= 0, str(&d));
      if (rc < 0 && d.array && (d.array != before || str(&d) != old)) o.bad = "the destination became " + hex(str(&d));
      if (rc < 0 && !d.array && d.length) o.bad = "a length without an array";
      // what was there is the caller's to free
      if (rc >= 0 && before && d.array != before) free(before);
      free(d.array);
      return o;
    });
  enumerate("keyvalue_list", "", [&] {
    keyvalue_list *l;
    { Armed a; l = init_keyvalue_list(); }
    Outcome o = outcome(l);
    free_keyvalue_list(l);
    return o;
  });
  enumerate("push_keyvalue_list", "", [&] {
    keyvalue_list *l = init_keyvalue_list();
    for (size_t i = 0; i < v.size(); i++) push_keyvalue_list(l, (char *)"x", (char *)"y");
    std::string before = kv_text(l);
    int rc;
    { Armed a; rc = push_keyvalue_list(l, (char *)"key", (char *)"value"); }
    Outcome o = outcome(rc >= 0, kv_text(l));
    if (rc < 0 && kv_text(l) != before) o.bad = "the list became " + kv_text(l);
    free_keyvalue_list(l);
    return o;
  });
}

// an operation that gives a new buffer
static void gives(const char *name, const std::string &info, const std::function<ssize_t(uint8_t **)> &f, const std::function<std::string(const Bytes &)> &text) {
  enumerate(name, info, [&] {
    uint8_t *p = nullptr;
    ssize_t n;
    { Armed a; n = f(&p); }
    Outcome o = outcome(n >= 0, n >= 0 && p ? text(Bytes((char *)p, n)) : "nothing");
    if (n < 0 && p) o.bad = "a buffer is left with the caller";
    free(p);
    return o;
  });
}
static void gives_array(const char *name, const std::string &info, const std::function<BinaryArray *()> &f, const std::function<std::string(const Bytes &)> &text) {
  enumerate(name, info, [&] {
    BinaryArray *b;
    { Armed a; b = f(); }
    Outcome o = outcome(b, b && b->array ? text(str(b)) : "nothing");
    free_binary_array(b);
    return o;
  });
}
static void keys_and_certs(Rng &r, long i) {
  bool rsa = r.chance(1, 3);
  const Key &k = key(rsa ? N_EC : 1);
  Buf kb(k.der);
  gives("generate_eckey", "", [&](uint8_t **o) { return crypto_generate_eckey(o); }, key_text);
  if (r.chance(1, 3)) gives_array("generate_rsakey", "", [&] { return crypto_generate_rsakey(1024); }, key_text);
  enumerate("getrand", "", [&] {
    Buf x(Bytes(20, 7));
    int rc;
    { Armed a; rc = crypto_getrand(&x.a); }
    return outcome(rc >= 0, x.str() == Bytes(20, 7) ? "unfilled" : "filled");
  });
  for (int which = 0; which < 3; which++)
    for (const Bytes &der : {k.der, k.der.substr(0, 30)})
      enumerate("key2context", fmt("%d", which), [&] {
        Buf x(der);
        CRYPTO_KEY c;
        { Armed a; c = which == 0 ? crypto_key2context(x.a.array, x.a.length) : which == 1 ? crypto_eckey2context(x.a.array, x.a.length) : crypto_rsakey2context(x.a.array, x.a.length); }
        Outcome o = outcome(c, c ? fp(der_key((EVP_PKEY *)c)) : "");
        crypto_free_keycontext(c);
        return o;
      });
  // certificates
  crypto_cert_meta meta{};
  meta.serial_number = r.next();
  meta.not_before = 0;
  if (r.chance(1, 2)) meta.not_after_absolute = "99991231235959Z"; else meta.not_after = 86400L * r.range(2, 4000);
  keyvalue_list *iss = init_keyvalue_list(), *sub = init_keyvalue_list();
  push_keyvalue_list(iss, (char *)"CN", (char *)"an issuer");
  push_keyvalue_list(sub, (char *)"CN", (char *)"a subject");
  if (r.chance(1, 2)) push_keyvalue_list(sub, (char *)"serialNumber", (char *)"123");
  meta.issuer = iss, meta.subject = sub;
  if (r.chance(1, 2)) meta.basic_constraints = (char *)"CA:false";
  auto self_text = [&](const Bytes &d) { return cert_text(d, nullptr); };
  gives("generate_cert", rsa ? "rsa" : "ec", [&](uint8_t **o) { return rsa ? crypto_generate_rsacert(&meta, kb.a.array, kb.a.length, o) : crypto_generate_eccert(&meta, kb.a.array, kb.a.length, o); }, self_text);
  free_keyvalue_list(iss);
  free_keyvalue_list(sub);
  Node ca = root("A CA", rsa ? N_EC + 1 : 2, r), leaf = child(ca, {{"C", "IE"}, {"CN", "device"}, {"serialNumber", "SN 1"}}, 3, false, r);
  Buf lb(leaf.cert), cab(ca.cert), cak(key(ca.key).der);
  enumerate("sign_cert", "", [&] {
    uint8_t *c = (uint8_t *)malloc(leaf.cert.size());
    memcpy(c, leaf.cert.data(), leaf.cert.size());
    uint8_t *was = c;
    ssize_t n;
    { Armed a; n = crypto_sign_cert(cak.a.array, cak.a.length, cab.a.array, cab.a.length, leaf.cert.size(), &c); }
    Outcome o = outcome(n >= 0, n >= 0 && c ? cert_text(Bytes((char *)c, n), key(ca.key).k) : "nothing");
    if (n < 0 && (c != was || memcmp(c, leaf.cert.data(), leaf.cert.size()))) o.bad = "the caller's certificate changed";
    free(c);
    return o;
  });
  for (const Bytes &der : {leaf.cert, leaf.cert.substr(0, 100)})
    enumerate("cert2context", "", [&] {
      Buf x(der);
      CRYPTO_CERT c;
      { Armed a; c = crypto_cert2context(x.a.array, x.a.length); }
      Outcome o = outcome(c, c ? fp(der_cert((X509 *)c)) : "");
      crypto_free_certcontext(c);
      return o;
    });
  X lx(leaf.cert);
  enumerate("copycert", "", [&] {
    CRYPTO_CERT c;
    { Armed a; c = crypto_copycert((CRYPTO_CERT)lx.x); }
    Outcome o = outcome(c, c ? fp(der_cert((X509 *)c)) : "");
    crypto_free_certcontext(c);
    return o;
  });
  gives_array("cert2buf", "", [&] { return crypto_cert2buf((CRYPTO_CERT)lx.x); }, fp);
  gives_array("getcert_issuer", "", [&] { return crypto_getcert_issuer((CRYPTO_CERT)lx.x); }, [](const Bytes &b) { return b; });
  enumerate("getcert_serialhex", "", [&] {
    char *s;
    { Armed a; s = crypto_getcert_serialhex((CRYPTO_CERT)lx.x); }
    Outcome o = outcome(s, s ? s : "");
    free(s);
    return o;
  });
  enumerate("getcert_meta", "", [&] {
    crypto_cert_meta m{};
    m.issuer = init_keyvalue_list();
    m.subject = init_keyvalue_list();
    int rc;
    { Armed a; rc = crypto_getcert_meta((CRYPTO_CERT)lx.x, &m); }
    char *s = crypto_getcert_serial(&m);
    Outcome o = outcome(rc >= 0, kv_text(m.issuer) + "/" + kv_text(m.subject) + std::to_string(m.serial_number) + (s ? s : ""));
    free_keyvalue_list(m.issuer);
    free_keyvalue_list(m.subject);
    return o;
  });
  // files
  std::string base = scratch + "/f" + std::to_string(i);
  write_file(base + ".crt", pem("CERTIFICATE", leaf.cert));
  write_file(base + ".key", key_pem(3));
  write_file(base + ".bad", "nothing");
  Buf k3(key(3).der), smime(cms_sign("some content", {{leaf.cert, 3}}));
  for (const char *ext : {".crt", ".bad"}) gives_array("file_to_x509buf", ext, [&] { return file_to_x509buf((base + ext).c_str()); }, fp);
  for (const char *ext : {".key", ".bad"}) gives_array("file_to_keybuf", ext, [&] { return file_to_keybuf((base + ext).c_str()); }, fp);
  for (int which = 0; which < 3; which++)
    for (bool good : {true, false})
      enumerate(which == 0 ? "certbuf_to_file" : which == 1 ? "keybuf_to_file" : "cmsbuf_to_file", good ? "" : "garbage", [&] {
        std::string f = base + ".out";
        unlink(f.c_str());
        Buf junk("junk");
        const BinaryArray *b = !good ? &junk.a : which == 0 ? &lb.a : which == 1 ? &k3.a : &smime.a;
        int rc;
        { Armed a; rc = which == 0 ? certbuf_to_file(b, f.c_str()) : which == 1 ? keybuf_to_file(b, f.c_str()) : cmsbuf_to_file(b, f.c_str()); }
        Outcome o = outcome(rc >= 0, read_file(f));
        unlink(f.c_str());
        return o;
      });
  // chains: trusted, and an impostor
  Node fake = root("A CA", 5, r), fleaf = child(fake, leaf.name, 3, false, r);
  for (int which = 0; which < 4; which++)
    enumerate("verify_cert", fmt("%d", which), [&] {
      List certs, store;
      certs.empty();
      if (which & 1) store.add(ca.cert); else certs.add(ca.cert);
      Buf x((which & 2) ? fleaf.cert : leaf.cert);
      int rc;
      { Armed a; rc = crypto_verify_cert(x.a.array, x.a.length, certs, (which & 1) ? store.l : nullptr); }
      return outcome(rc >= 0);
    });
  for (const char *e : {".crt", ".key", ".bad"}) unlink((base + e).c_str());
}

static void messages(Rng &r) {
  bool rsa = r.chance(1, 3);
  int lk = rsa ? N_EC : 3;
  Node ca = root("A CA", 2, r), sub = child(ca, cn("sub"), 4, true, r), leaf = child(sub, cn("signer"), lk, false, r);
  Node fake = root("A CA", 5, r), fsub = child(fake, sub.name, 6, true, r), fleaf = child(fsub, leaf.name, 7, false, r);
  Bytes data = r.bytes(r.range(1, 300));
  Buf d(data), c(leaf.cert), k(key(lk).der);
  List extra;
  extra.add(sub.cert);
  if (r.chance(1, 2)) extra.add(ca.cert);
  bool with = r.chance(2, 3);
  for (int which : {0, 1})
    gives(which ? "sign_cms" : rsa ? "sign_rsacms" : "sign_eccms", with ? "with certificates" : "", [&](uint8_t **o) {
      auto f = which ? crypto_sign_cms : rsa ? crypto_sign_rsacms : crypto_sign_eccms;
      return f(d.a.array, d.a.length, c.a.array, c.a.length, k.a.array, k.a.length, with ? extra.l : nullptr, o);
    }, cms_text);
  ref::VoucherModel m = some_model(r);
  for (int which : {0, 1})
    enumerate(which ? "sign_cms_voucher" : rsa ? "sign_rsacms_voucher" : "sign_eccms_voucher", m.text(), [&] {
      struct Voucher *v = voucher_of(m);
      BinaryArray *b;
      auto f = which ? sign_cms_voucher : rsa ? sign_rsacms_voucher : sign_eccms_voucher;
      { Armed a; b = f(v, &c.a, &k.a, with ? extra.l : nullptr); }
      Outcome o = outcome(b, b ? cms_text(str(b)) : "");
      free_binary_array(b);
      free_voucher(v);
      return o;
    });
  Bytes doc = doc_of(m, r);
  for (int which = 0; which < 6; which++) {
    // 0 no store, 1 store, 2 intermediate among the certs, 3 impostor, 4 changed content, 5 a revocation list in the store
    bool bad = which == 3 || which == 4;
    auto make = [&](const Bytes &content) {
      Bytes s = bad && which == 3 ? cms_sign(content, {{fleaf.cert, 7}}, {fsub.cert}) : cms_sign(content, {{leaf.cert, lk}}, which == 2 ? std::vector<Bytes>{} : std::vector<Bytes>{sub.cert});
      if (which == 4) { Bytes t = content; t[t.size() / 2] ^= 1; s = with_content(s, t); }
      return s;
    };
    Bytes cms = make(data), vcms = make(doc), crl;
    if (which == 5) {
      X509_CRL *x = X509_CRL_new();
      X cx(ca.cert);
      X509_CRL_set_version(x, 1);
      X509_CRL_set_issuer_name(x, X509_get_subject_name(cx));
      ASN1_TIME *t = X509_gmtime_adj(nullptr, -100);
      X509_CRL_set1_lastUpdate(x, t);
      ASN1_TIME_free(t);
      X509_CRL_sign(x, key(ca.key).k, EVP_sha256());
      crl = der_of(x, [](const X509_CRL *y, unsigned char **p) { return i2d_X509_CRL(y, p); });
      X509_CRL_free(x);
    }
    for (bool out : {true, false}) {
      List certs, store;
      if (which == 2) certs.add(sub.cert);
      if (which) store.add(ca.cert);
      if (which == 5) store.add(crl, CRYPTO_CERTIFICATE_CRL);
      enumerate("verify_cms", fmt("%d %d", which, out), [&] {
        Buf x(cms);
        uint8_t *p = nullptr;
        BinaryArrayList *l = nullptr;
        ssize_t n;
        { Armed a; n = crypto_verify_cms(&x.a, certs, store, &p, out ? &l : nullptr); }
        Outcome o = outcome(n >= 0, n >= 0 && p ? hex(p, n) + list_text(l) : "nothing");
        if (n < 0 && p) o.bad = "a buffer is left with the caller";
        if (n < 0 && l) o.bad = "a list is left with the caller";
        free(p);
        free_array_list(l);
        return o;
      });
      enumerate("verify_cms_voucher", fmt("%d %d", which, out), [&] {
        Buf x(vcms);
        BinaryArrayList *l = nullptr;
        struct Voucher *v;
        { Armed a; v = verify_cms_voucher(&x.a, certs, store, out ? &l : nullptr); }
        Outcome o = outcome(v);
        ref::VoucherModel g;
        std::string e;
        if (v) o.canon = (get(v, g, e) ? g.text() : e) + list_text(l);
        if (!v && l) o.bad = "a list is left with the caller";
        free_voucher(v);
        free_array_list(l);
        return o;
      });
    }
  }
}

// a small valid or spoiled chain of requests up to the voucher
static int give_pinned(const char *, const BinaryArrayList *, void *user, BinaryArray *out) {
  // a callback of the user, whose allocations are not the operation's
  bool a = faults::armed;
  faults::armed = false;
  Buf b(*(const Bytes *)user);
  int rc = copy_binary_array(out, &b.a);
  faults::armed = a;
  return rc;
}
static void exchange(Rng &r, long i) {
  Deploy d(r, scratch + "/d" + std::to_string(i), true);
  auto pm = d.pledge_model(r);
  Bytes preq = d.pledge_request(pm, r);
  auto rm = d.registrar_model(preq, pm, r);
  Bytes rreq = d.registrar_request(rm, r);
  Bytes vou = d.voucher(d.voucher_model(rm), r);
  struct tm now = ref::rand_date(r).tm(), exp = ref::rand_date(r).tm();
  Buf tls(d.dom.leaf.cert), pc(d.maker.leaf.cert), pk(key(d.maker.leaf.key).der), rc(d.regsign.cert), rk(key(d.regsign.key).der), mc(d.masa.leaf.cert), mk(key(d.masa.leaf.key).der), issuer("an issuer");
  bool nonce = pm.array.count(ref::A_NONCE);
  Buf nb(d.nonce);
  List mstore, dstore, vstore, extra;
  mstore.add(d.maker.root.cert);
  dstore.add(d.dom.root.cert);
  vstore.add(d.masa.root.cert);
  extra.add(d.dom.root.cert);
  gives_array("sign_pledge_voucher_request", "", [&] { return sign_pledge_voucher_request(&now, d.serial.c_str(), nonce ? &nb.a : nullptr, &tls.a, &pc.a, &pk.a, extra); }, cms_text);
  // each decision also with something wrong, which no fault may turn into a success
  for (int wrong = 0; wrong < 4; wrong++) {
    std::string info = fmt("wrong %d", wrong);
    std::string serial = wrong == 1 ? d.serial + "x" : d.serial;
    Bytes p = preq, q = rreq, v = vou;
    if (wrong == 2) { // not signed by who should have
      p = cms_sign(doc_of(pm, r), {{d.fake_maker.leaf.cert, d.fake_maker.leaf.key}}, d.fake_maker.embed());
      q = cms_sign(doc_of(rm, r), {{d.fake_dom.leaf.cert, d.fake_dom.leaf.key}}, {});
      v = cms_sign(doc_of(d.voucher_model(rm), r), {{d.fake_masa.leaf.cert, d.fake_masa.leaf.key}}, d.fake_masa.embed());
    }
    Buf t(wrong == 3 ? d.other.leaf.cert : d.dom.leaf.cert), pb(p), qb(q), vb(v), none;
    gives_array("sign_voucher_request", info, [&] { return sign_voucher_request(&pb.a, &now, serial.c_str(), &issuer.a, &t.a, &rc.a, &rk.a, nullptr, mstore, extra); }, cms_text);
    auto rm2 = rm;
    if (wrong == 1) rm2.serial = d.serial + "x";
    if (wrong == 3) rm2.array[ref::A_PRIOR] = cms_sign(doc_of(pm, r), {{d.fake_maker.leaf.cert, d.fake_maker.leaf.key}}, d.fake_maker.embed());
    if (wrong == 1 || wrong == 3) qb.set(d.registrar_request(rm2, r));
    Bytes pinned = d.dom.root.cert;
    gives_array("sign_masa_pledge_voucher", info, [&] { return sign_masa_pledge_voucher(&qb.a, &exp, give_pinned, &pinned, &mc.a, &mk.a, nullptr, dstore, nullptr, mstore, extra); }, cms_text);
    enumerate("verify_masa_pledge_voucher", info, [&] {
      BinaryArray pin{};
      BinaryArrayList *out = nullptr;
      int ok;
      { Armed a; ok = verify_masa_pledge_voucher(&vb.a, serial.c_str(), nonce ? &nb.a : nullptr, &t.a, nullptr, nullptr, vstore, &out, &pin); }
      Outcome o = outcome(ok >= 0, fp(str(&pin)) + list_text(out));
      if (ok < 0 && pin.array) o.bad = "a pinned certificate is left with the caller";
      if (ok < 0 && out) o.bad = "a list is left with the caller";
      free(pin.array);
      free_array_list(out);
      return o;
    });
  }
  gives("pledge_request_to_base64", "", [&](uint8_t **o) {
    char *s = voucher_pledge_request_to_base64(&d.pc, &tls.a);
    *o = (uint8_t *)s;
    return s ? (ssize_t)strlen(s) : -1;
  }, [&](const Bytes &s) {
    Bytes der;
    if (!ref::unb64(s, der)) return std::string("no base64");
    Opened o = cms_open(der); // the date is that of now
    ref::VoucherModel m;
    std::string why;
    ref::judge(o.content, m, &why);
    m.time.clear();
    return m.text() + fps(o.signers) + fps(o.embedded) + (o.ok ? "ok" : "bad");
  });
  std::string out = d.dir + "/request.smime";
  enumerate("pledge_request_to_smimefile", "", [&] {
    unlink(out.c_str());
    int ok;
    { Armed a; ok = voucher_pledge_request_to_smimefile(&d.pc, &tls.a, out.c_str()); }
    Outcome o = outcome(ok >= 0, read_file(out).empty() ? "empty" : "written");
    unlink(out.c_str());
    return o;
  });
}

static void configuration(Rng &r, long i) {
  std::string base = scratch + "/c" + std::to_string(i), ini = base + ".ini", crt = base + ".crt", bad = base + ".bad";
  Node ca = root("A CA", 2, r);
  write_file(crt, pem("CERTIFICATE", ca.cert));
  write_file(bad, "no");
  std::string t;
  for (const char *s : {"pledge", "registrar", "masa"}) {
    t += std::string("[") + s + "]\n";
    for (const char *k : {"createdOn", "expiresOn", "serialNumber", "nonce", "bindAddress", "tlsKeyPath", "tlsCertPath", "tlsCACertPath", "cmsSignKeyPath", "cmsSignCertPath", "ldevidCACertPath", "idevidKeyPath"})
      if (r.chance(2, 3)) t += std::string(k) + " = " + (strstr(k, "On") ? "2020-01-02T03:04:05Z" : "a/" + std::to_string(r.below(1000))) + "\n";
    t += "port = 77\n";
    for (const char *k : {"cmsAdditionalCertPath", "cmsVerifyCertPath", "cmsVerifyStorePath"})
      for (long n = r.range(0, 3); n > 0; n--) t += std::string(k) + " = " + std::to_string(n) + "\n";
  }
  write_file(ini, t);
  auto s = [](const char *p) { return std::string(p ? p : "NULL") + "|"; };
  enumerate("load_brski_config", t, [&] {
    brski_config c{};
    int rc;
    { Armed a; rc = load_brski_config(ini.c_str(), &c); }
    std::string text;
    auto &p = c.pconf; auto &g = c.rconf; auto &m = c.mconf;
    if (rc >= 0)
      text = s(p.created_on) + s(p.serial_number) + s(p.nonce) + s(p.idevid_key_path) + s(p.idevid_cert_path) + s(p.idevid_ca_cert_path) + s(p.cms_sign_key_path) + s(p.cms_sign_cert_path) +
             list_text(p.cms_add_certs_paths) + list_text(p.cms_verify_certs_paths) + list_text(p.cms_verify_store_paths) + s(g.bind_address) + std::to_string(g.port) + s(g.tls_key_path) + s(g.tls_cert_path) +
             s(g.tls_ca_key_path) + s(g.tls_ca_cert_path) + s(g.cms_sign_key_path) + s(g.cms_sign_cert_path) + list_text(g.cms_add_certs_paths) + list_text(g.cms_verify_certs_paths) +
             list_text(g.cms_verify_store_paths) + s(m.bind_address) + s(m.expires_on) + std::to_string(m.port) + s(m.ldevid_ca_cert_path) + s(m.tls_key_path) + s(m.tls_cert_path) + s(m.tls_ca_cert_path) +
             s(m.cms_sign_key_path) + s(m.cms_sign_cert_path) + list_text(m.cms_add_certs_paths) + list_text(m.cms_verify_certs_paths) + list_text(m.cms_verify_store_paths);
    Outcome o = outcome(rc >= 0, text);
    free_config_content(&c);
    return o;
  });
  for (int which = 0; which < 3; which++)
    enumerate("load_cert_files", fmt("%d", which), [&] {
      List paths;
      paths.empty();
      if (which) paths.add(crt + std::string(1, '\0'));
      if (which == 2) paths.add(bad + std::string(1, '\0'));
      BinaryArrayList *l = nullptr;
      int rc;
      { Armed a; rc = load_cert_files(paths.l, &l); }
      Outcome o = outcome(rc >= 0, list_text(l));
      if (rc < 0 && l) o.bad = "a list is left with the caller";
      free_array_list(l);
      return o;
    });
  for (auto &f : {ini, crt, bad}) unlink(f.c_str());
}

// the request handlers and the pledge's side of the exchange
static void handlers(Rng &r, long i) {
  Deploy d(r, scratch + "/h" + std::to_string(i), true);
  auto pm = d.pledge_model(r);
  if (!pm.array.count(ref::A_NONCE)) pm.array[ref::A_NONCE] = d.nonce;
  Bytes preq = d.pledge_request(pm, r);
  auto rm = d.registrar_model(preq, pm, r);
  Bytes rreq = d.registrar_request(rm, r);
  Bytes vou = d.voucher(d.voucher_model(rm), r);
  std::string voucher64 = ref::b64(vou), log = d.dir + "/log";
  RegistrarContext rctx{&d.rc, &d.mc, nullptr, ""};
  snprintf(rctx.log_path, sizeof rctx.log_path, "%s", log.c_str());
  Buf ldevid(d.dom.root.cert);
  std::string sent;
  auto peer_of = [](const Bytes &der) { return new_x509(der); };
  auto run = [&](const char *name, const std::string &info, Handler h, const std::string &body, const Bytes &peer, void *ctx, const std::function<std::string(const std::string &)> &text) {
    enumerate(name, info, [&] {
      ResponseHeader rh;
      RequestHeader qh{{"Content-Type", "application/voucher-cms+json"}};
      std::string resp;
      X px(peer);
      int st;
      sent.clear();
      try { Armed a; st = h(qh, body, (CRYPTO_CERT)px.x, rh, resp, ctx); }
      catch (const std::exception &) { st = 505; } // what the server answers
      Outcome o = outcome(st == 200, st == 200 ? text(resp) : "");
      if (st != 200 && st < 400) o.bad = fmt("status %d", st);
      if (st >= 400 && resp.size() > 300) o.bad = "an error with " + printable(resp, 100);
      ERR_clear_error();
      return o;
    });
  };
  auto unarmed = [](const std::function<int()> &f) { bool a = faults::armed; faults::armed = false; int x = f(); ERR_clear_error(); faults::armed = a; return x; };
  auto cms64 = [](const std::string &s) { Bytes der; return ref::unb64(s, der) ? cms_text(der) : "no base64: " + printable(s); };
  auto untimed = [](const std::string &s) {
    Bytes der;
    if (!ref::unb64(s, der)) return "no base64: " + printable(s);
    Opened o = cms_open(der);
    ref::VoucherModel m;
    std::string why;
    ref::judge(o.content, m, &why);
    m.time.clear();
    return m.text() + fps(o.signers) + fps(o.embedded) + (o.ok ? "ok" : "bad");
  };
  net() = [&](const Out &o, std::string &resp, X509 *&peer) {
    return unarmed([&] { sent = untimed(o.body); resp = voucher64; peer = peer_of(d.masa.leaf.cert); return 200; });
  };
  for (bool good : {true, false}) {
    run("registrar_requestvoucher", good ? "" : "impostor", registrar_requestvoucher, ref::b64(good ? preq : cms_sign(doc_of(pm, r), {{d.fake_maker.leaf.cert, d.fake_maker.leaf.key}}, d.fake_maker.embed())), d.maker.leaf.cert, &rctx, [&](const std::string &s) { return sent + "->" + cms64(s); });
    MasaContext mctx{};
    mctx.rconf = &d.rc, mctx.mconf = &d.mc;
    mctx.ldevid_ca_cert = &ldevid.a;
    run("masa_requestvoucher", good ? "" : "impostor", masa_requestvoucher, ref::b64(good ? rreq : cms_sign(doc_of(rm, r), {{d.fake_dom.leaf.cert, d.fake_dom.leaf.key}}, {})), d.dom.leaf.cert, &mctx, cms64);
  }
  Node device = root("a device", 11, r);
  run("registrar_simpleenroll", "", registrar_est_simpleenroll, ref::b64(device.cert), d.maker.leaf.cert, &rctx, [&](const std::string &s) {
    Bytes der, l = read_file(log);
    unlink(log.c_str());
    return (ref::unb64(s, der) ? cert_text(der, key(d.dom.root.key).k) : "no base64") + fmt(", %ld lines logged", (long)std::count(l.begin(), l.end(), '\n'));
  });
  unlink(log.c_str());
  // the pledge
  for (int wrong = 0; wrong < 2; wrong++) {
    std::string v = wrong ? ref::b64(cms_sign(doc_of(d.voucher_model(rm), r), {{d.fake_masa.leaf.cert, d.fake_masa.leaf.key}}, d.fake_masa.embed())) : voucher64;
    net() = [&](const Out &o, std::string &resp, X509 *&peer) {
      return unarmed([&] {
        peer = peer_of(d.dom.leaf.cert);
        if (!o.with_ca) { resp = v; return 200; }
        RegistrarContext c{&d.rc, &d.mc, nullptr, ""};
        snprintf(c.log_path, sizeof c.log_path, "%s", log.c_str());
        Reply p = call(registrar_est_simpleenroll, o.body, d.maker.leaf.cert, &c);
        resp = p.body;
        return p.status;
      });
    };
    enumerate("post_voucher_pledge_request", wrong ? "impostor" : "", [&] {
      BinaryArray pin{};
      int ok;
      { Armed a; ok = post_voucher_pledge_request(&d.pc, &d.rc, &d.mc, &pin); }
      Outcome o = outcome(ok >= 0, fp(str(&pin)));
      if (ok < 0 && pin.array) o.bad = "a pinned certificate is left with the caller";
      free(pin.array);
      return o;
    });
    enumerate("post_sign_cert", wrong ? "impostor" : "", [&] {
      BinaryArray c{}, k{};
      int ok;
      { Armed a; ok = post_sign_cert(&d.pc, &d.rc, &d.mc, &c, &k); }
      std::string text;
      if (ok >= 0) {
        Bytes kd = str(&k), cd = str(&c);
        X x(cd);
        const unsigned char *p = (const unsigned char *)kd.data();
        EVP_PKEY *e = d2i_AutoPrivateKey(nullptr, &p, (long)kd.size());
        text = fmt("key %d certificate %d match %d signed %d", e != nullptr, x.x != nullptr, e && x.x && EVP_PKEY_eq(e, X509_get0_pubkey(x)) == 1, x.x && X509_verify(x, key(d.dom.root.key).k) == 1);
        EVP_PKEY_free(e);
      }
      Outcome o = outcome(ok >= 0, text);
      if (ok < 0 && (c.array || k.array)) o.bad = "a certificate or key is left with the caller";
      free(c.array);
      free(k.array);
      return o;
    });
  }
  net() = nullptr;
  unlink(log.c_str());
}

int main(int argc, char **argv) {
  faults::set_up();
  init(argc, argv);
  if (!getenv("LOUD")) quiet_log();
  scratch = opt("scratch", ".");
  return run([&](Rng &r, long i) {
    switch (i % 8) {
    case 0: record(r); break;
    case 1: codecs(r); containers(r); break;
    case 2: keys_and_certs(r, i); break;
    case 3: case 4: messages(r); break;
    case 5: exchange(r, i); break;
    case 6: configuration(r, i); break;
    default: handlers(r, i);
    }
    if (want_sample()) sample(fmt("case %ld: last %s", i, faults::doing.c_str()));
  }, 4);
}
