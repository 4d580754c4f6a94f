// C07: contents of generated and re-signed certificates, reading them back,
// and the file helpers; judged by inspecting the DER with the OpenSSL API.
#include "pki.hpp"
#include "brski_c.hpp"
#include "oracle.hpp"
#include <openssl/asn1.h>
using namespace vh;
using namespace pki;

struct Attr { const char *key; int nid; size_t max; int kind; }; // kind 0 any text, 1 printable, 2 country, 3 any ascii
static const std::vector<Attr> ATTRS = {{"C", NID_countryName, 2, 2}, {"ST", NID_stateOrProvinceName, 128, 0}, {"L", NID_localityName, 128, 0},
                                        {"O", NID_organizationName, 64, 0}, {"OU", NID_organizationalUnitName, 64, 0}, {"CN", NID_commonName, 64, 0},
                                        {"emailAddress", NID_pkcs9_emailAddress, 128, 3}, {"serialNumber", NID_serialNumber, 64, 1},
                                        {"SN", NID_surname, 64, 0}, {"GN", NID_givenName, 64, 0}};
typedef std::vector<std::pair<int, Bytes>> Names; // (index into ATTRS, value)
static Bytes value(Rng &r, const Attr &a) {
  if (a.kind == 2) return Bytes(1, (char)r.range('A', 'Z')) + Bytes(1, (char)r.range('A', 'Z'));
  size_t n = r.chance(1, 8) ? a.max : r.chance(1, 8) ? 1 : (size_t)r.range(1, std::min<size_t>(a.max, 24));
  Bytes b;
  static const Bytes pr = "ABCXYZabcxyz0189 '()+,-./:=?";
  if (a.kind == 0 && r.chance(1, 6)) { // UTF-8 text, its length counted in characters
    static const std::vector<Bytes> wide = {"\xc3\xbc", "\xc3\xa9", "\xc5\x81", "\xd0\x96", "\xe2\x82\xac", "\xe6\x9d\xb1", "\xf0\x9f\x94\x91", "a", "Z", " ", "7"};
    for (size_t k = 0; k < n; k++) b += r.pick(wide);
    count("names-utf8");
    return b;
  }
  while (b.size() < n) b += a.kind == 1 ? pr[r.below(pr.size())] : (char)r.range(32, 126);
  return b;
}
static Names names(Rng &r) {
  Names n;
  int c = (int)r.below(7);
  for (int i = 0; i < c; i++) {
    int a = (int)r.below(ATTRS.size());
    n.push_back({a, value(r, ATTRS[a])});
  }
  return n;
}
struct Kv {
  keyvalue_list *l = nullptr;
  explicit Kv(const Names &n) {
    l = init_keyvalue_list();
    for (auto &x : n) if (push_keyvalue_list(l, (char *)ATTRS[x.first].key, (char *)x.second.c_str()) < 0) harness_error("push_keyvalue_list");
  }
  Kv() { l = init_keyvalue_list(); }
  Kv(const Kv &) = delete;
  ~Kv() { free_keyvalue_list(l); }
};
static std::string show(const Names &n) {
  std::string s;
  for (auto &x : n) s += std::string(ATTRS[x.first].key) + "=" + printable(x.second) + " ";
  return s;
}
static Names read_name(X509_NAME *n) {
  Names o;
  for (int i = 0; i < X509_NAME_entry_count(n); i++) {
    X509_NAME_ENTRY *e = X509_NAME_get_entry(n, i);
    int nid = OBJ_obj2nid(X509_NAME_ENTRY_get_object(e)), a = -1;
    for (size_t k = 0; k < ATTRS.size(); k++) if (ATTRS[k].nid == nid) a = (int)k;
    unsigned char *u = nullptr;
    int l = ASN1_STRING_to_UTF8(&u, X509_NAME_ENTRY_get_data(e));
    o.push_back({a, l >= 0 ? Bytes((char *)u, l) : Bytes("<bad>")});
    OPENSSL_free(u);
  }
  return o;
}
static Names firsts(const Names &n) { // what the accessors give: the first value of each, in the fixed order of the library
  Names o;
  for (size_t a = 0; a < ATTRS.size(); a++)
    for (auto &x : n)
      if (x.first == (int)a) { o.push_back(x); break; }
  return o;
}
static Names from_kv(const keyvalue_list *l) {
  Names o;
  for (const struct dl_list *p = l->list.next; p != &l->list; p = p->next) {
    const keyvalue_list *e = (const keyvalue_list *)p->el;
    int a = -1;
    for (size_t k = 0; k < ATTRS.size(); k++) if (!strcmp(ATTRS[k].key, e->key)) a = (int)k;
    o.push_back({a, e->value});
  }
  return o;
}
static int64_t to_epoch(const ASN1_TIME *t) {
  struct tm tm;
  if (!ASN1_TIME_to_tm(t, &tm)) return INT64_MIN;
  return ref::epoch(ref::Date::from(tm));
}
// DER: UTC, UTCTime up to 2049 and GeneralizedTime from 2050
static bool canonical(const ASN1_TIME *t) {
  int64_t e = to_epoch(t);
  Bytes s((const char *)ASN1_STRING_get0_data(t), (size_t)ASN1_STRING_length(t));
  bool utc = ASN1_STRING_type(t) == V_ASN1_UTCTIME;
  return s.size() == (utc ? 13u : 15u) && s.back() == 'Z' && utc == (e < 2524608000LL);
}
static bool strong_signature(X509 *x) {
  int md = NID_undef, pk = NID_undef;
  if (!X509_get_signature_info(x, &md, &pk, nullptr, nullptr) || md == NID_undef) return true; // a scheme with a digest of its own
  const EVP_MD *m = EVP_get_digestbynid(md);
  return m && EVP_MD_get_size(m) >= 32;
}
static Bytes pubkey(EVP_PKEY *k) { return der_of(k, [](const EVP_PKEY *x, unsigned char **p) { return i2d_PUBKEY(x, p); }); }
static Bytes extensions(X509 *x) {
  Bytes o;
  for (int i = 0; i < X509_get_ext_count(x); i++) o += der_of(X509_get_ext(x, i), [](const X509_EXTENSION *e, unsigned char **p) { return i2d_X509_EXTENSION((X509_EXTENSION *)e, p); });
  return o;
}
static Bytes der_name(const X509_NAME *n) { return der_of(n, [](const X509_NAME *e, unsigned char **p) { return i2d_X509_NAME((X509_NAME *)e, p); }); }
static uint64_t rand_sn(Rng &r) {
  switch (r.below(6)) {
  case 0: return r.below(300);
  case 1: return ~0ULL;
  case 2: return 1ULL << 63;
  case 3: return (1ULL << r.below(64)) - 1;
  default: return r.next();
  }
}
// reads everything back through the library
static void accessors(const Bytes &der, const Names &issuer, const Names &subject, uint64_t serial, bool unique_names, const char *what) {
  Buf d(der);
  CRYPTO_CERT c = crypto_cert2context(d.a.array, d.a.length);
  if (!c) { failf("cert2context", "%s rejected", what); return; }
  BinaryArray *b = crypto_cert2buf(c);
  if (!b || str(b) != der) failf("cert2buf", "%s does not come back unchanged", what);
  free_binary_array(b);
  CRYPTO_CERT c2 = crypto_copycert(c);
  if (!c2 || c2 == c || der_cert((X509 *)c2) != der) failf("copycert", "%s: the copy differs", what);
  crypto_free_certcontext(c);
  c = c2;
  if (!c) return;
  Kv ki, ks;
  crypto_cert_meta m;
  memset(&m, 0, sizeof m);
  m.serial_number = 77;
  m.issuer = ki.l;
  m.subject = ks.l;
  if (crypto_getcert_meta(c, &m) < 0) failf("getcert_meta", "%s: fails", what);
  else {
    if (m.serial_number != serial) failf("meta-serial", "%s: serial %llu, is %llu", what, (unsigned long long)m.serial_number, (unsigned long long)serial);
    if (from_kv(ki.l) != firsts(issuer)) failf("meta-issuer", "%s: issuer %s, is %s", what, show(from_kv(ki.l)).c_str(), show(issuer).c_str());
    if (from_kv(ks.l) != firsts(subject)) failf("meta-subject", "%s: subject %s, is %s", what, show(from_kv(ks.l)).c_str(), show(subject).c_str());
    const char *sn = crypto_getcert_serial(&m);
    Bytes want;
    bool has = false;
    for (auto &x : firsts(subject)) if (!strcmp(ATTRS[x.first].key, "serialNumber")) { want = x.second; has = true; }
    if (has != (sn != nullptr) || (sn && want != sn)) failf("getcert_serial", "%s: %s, is %s", what, sn ? sn : "NULL", has ? want.c_str() : "absent");
    count(has ? "device-serial-read" : "device-serial-absent");
  }
  BinaryArray *is = crypto_getcert_issuer(c);
  if (!is) failf("getcert_issuer", "%s: fails", what);
  else {
    // RFC 2253 style one-line text; special characters make the value quoted
    Bytes want;
    bool simple = true;
    for (auto &x : issuer) {
      for (char ch : x.second) if (!isalnum((unsigned char)ch) && !strchr(" -.:'()/=?@_", ch)) simple = false;
      if (x.second.front() == ' ' || x.second.back() == ' ' || x.second.front() == '#') simple = false;
      want += (want.empty() ? "" : ", ") + Bytes(ATTRS[x.first].key) + " = " + x.second;
    }
    if (simple && str(is) != want) failf("issuer-text", "%s: issuer \"%s\", is \"%s\"", what, printable(str(is)).c_str(), want.c_str());
    if (!simple) {
      X x(der);
      BIO *m2 = BIO_new(BIO_s_mem());
      X509_NAME_print_ex(m2, X509_get_issuer_name(x), 0, XN_FLAG_ONELINE);
      BUF_MEM *bm = nullptr;
      BIO_get_mem_ptr(m2, &bm);
      if (str(is) != Bytes(bm->data, bm->length)) failf("issuer-text", "%s: issuer \"%s\"", what, printable(str(is)).c_str());
      BIO_free(m2);
    }
    count(simple ? "issuer-text-simple" : "issuer-text-special");
  }
  free_binary_array(is);
  crypto_free_certcontext(c);
  (void)unique_names;
}

static void files(Rng &r, const Bytes &der, const Bytes &kder) {
  std::string d = opt("scratch", "/tmp"), p = d + "/f.pem";
  Buf c(der), k(kder);
  if (r.chance(1, 2)) { FILE *f = fopen(p.c_str(), "w"); for (int i = 0; i < 9000; i++) fputc('x', f); fclose(f); } // an older, longer file
  if (certbuf_to_file(&c.a, p.c_str()) < 0) { fail("certbuf_to_file", "fails"); return; }
  BinaryArray *b = file_to_x509buf(p.c_str());
  if (!b || str(b) != der) fail("cert-file", "certificate read from its file differs");
  free_binary_array(b);
  if (file_to_keybuf(p.c_str())) fail("cert-as-key", "a certificate file is loaded as a key");
  if (keybuf_to_file(&k.a, p.c_str()) < 0) { fail("keybuf_to_file", "fails"); return; }
  b = file_to_keybuf(p.c_str());
  if (!b || str(b) != kder) fail("key-file", "key read from its file differs");
  free_binary_array(b);
  if (file_to_x509buf(p.c_str())) fail("key-as-cert", "a key file is loaded as a certificate");
  if (file_to_x509buf((p + ".none").c_str()) || file_to_keybuf((p + ".none").c_str())) fail("no-file", "a missing file is loaded");
  if (certbuf_to_file(&c.a, (d + "/none/x").c_str()) >= 0 || keybuf_to_file(&k.a, (d + "/none/x").c_str()) >= 0) fail("no-directory", "writing into a missing directory succeeds");
  Buf bad(r.bytes(40));
  if (certbuf_to_file(&bad.a, p.c_str()) >= 0 || keybuf_to_file(&bad.a, p.c_str()) >= 0 || cmsbuf_to_file(&bad.a, p.c_str()) >= 0) fail("garbage-to-file", "garbage is written as PEM");
  unlink(p.c_str());
  // S/MIME file of a message
  Node n = root("R", 1, r);
  Bytes msg = cms_sign("payload " + std::to_string(r.below(1000)), {{n.cert, 1}});
  Buf m(msg);
  if (cmsbuf_to_file(&m.a, p.c_str()) < 0) fail("cmsbuf_to_file", "fails");
  else {
    BIO *f = BIO_new_file(p.c_str(), "r");
    CMS_ContentInfo *ci = f ? SMIME_read_CMS(f, nullptr) : nullptr;
    if (!ci || cms_open(der_cms(ci)).content != cms_open(msg).content || !cms_open(der_cms(ci)).ok) fail("smime-file", "message read from its S/MIME file differs");
    CMS_ContentInfo_free(ci);
    BIO_free(f);
  }
  unlink(p.c_str());
  count("files");
}

static void one(Rng &r, long i) {
  bool rsa = r.chance(1, 5);
  uint8_t *kp = nullptr;
  Bytes kder;
  if (rsa) kder = key(N_EC + (int)r.below(N_RSA)).der;
  else if (r.chance(1, 2)) kder = key((int)r.below(N_EC)).der;
  else {
    ssize_t kl = crypto_generate_eckey(&kp);
    if (kl <= 0) { fail("generate-eckey", "fails"); return; }
    kder = Bytes((char *)kp, kl);
    free(kp);
  }
  const unsigned char *q = (const unsigned char *)kder.data();
  EVP_PKEY *pk = d2i_AutoPrivateKey(nullptr, &q, (long)kder.size());
  if (!pk) { fail("generate-eckey", "no key"); return; }
  if (!rsa && kp && EVP_PKEY_get_security_bits(pk) < 128) failf("weak-eckey", "%d security bits", EVP_PKEY_get_security_bits(pk));
  if (i % 64 == 0) {
    static const std::vector<int> sizes = {1024, 1536, 2048, 2056, 3072};
    int bits = r.pick(sizes);
    BinaryArray *rk = crypto_generate_rsakey(bits);
    const unsigned char *q2 = rk ? rk->array : nullptr;
    EVP_PKEY *p2 = rk ? d2i_AutoPrivateKey(nullptr, &q2, (long)rk->length) : nullptr;
    if (!p2 || EVP_PKEY_get_base_id(p2) != EVP_PKEY_RSA || EVP_PKEY_get_bits(p2) != bits) failf("generate-rsakey", "%d bits asked, %d", bits, p2 ? EVP_PKEY_get_bits(p2) : -1);
    EVP_PKEY_free(p2);
    free_binary_array(rk);
    count("rsa-keys");
  }
  Names subj = names(r), iss = names(r);
  bool has_s = r.chance(15, 16), has_i = r.chance(15, 16);
  Kv ks(subj), ki(iss);
  crypto_cert_meta m;
  memset(&m, 0, sizeof m);
  m.serial_number = rand_sn(r);
  m.not_before = r.chance(1, 3) ? 0 : (long)r.range(-86400L * 3650, 86400L * 3650);
  int bad = r.chance(1, 4) ? (int)r.range(1, 8) : 0;
  Bytes abs;
  int64_t abs_epoch = 0;
  bool zoned = false;
  auto abs_of = [](int v) { return v < 0 ? -v : v; };
  if (r.chance(1, 3)) {
    ref::Date d = ref::rand_date(r);
    if (d.y < 1950) d.y = 1950;
    abs = fmt("%04d%02d%02d%02d%02d%02dZ", d.y, d.mo, d.d > 28 ? d.d = 28 : d.d, d.h, d.mi, d.s);
    if (r.chance(1, 3)) { abs = "99991231235959Z"; d = ref::Date{9999, 12, 31, 23, 59, 59}; }
    abs_epoch = ref::epoch(d);
    if (d.y < 9999 && d.y > 1950 && r.chance(1, 4)) { // the same instant in another zone
      int off = (int)r.range(-12, 14) * 60 + (int)r.pick(std::vector<int>{0, 0, 30, 45});
      if (off > 14 * 60) off = 14 * 60;
      abs.back() = off < 0 ? '-' : '+';
      abs += fmt("%02d%02d", abs_of(off) / 60, abs_of(off) % 60);
      abs_epoch -= off * 60;
      zoned = true;
    }
    m.not_after_absolute = abs.c_str();
  } else m.not_after = (long)r.range(1, 86400L * 365 * 40);
  static const std::vector<const char *> BC = {nullptr, "CA:false", "CA:true", "critical,CA:TRUE", "critical,CA:TRUE,pathlen:3", "CA:TRUE,pathlen:0"};
  int bci = (int)r.below(BC.size());
  m.basic_constraints = (char *)BC[bci];
  m.issuer = has_i ? ki.l : nullptr;
  m.subject = has_s ? ks.l : nullptr;
  std::string info = fmt("serial %llu subject %s issuer %s nb %ld na %ld abs %s bc %s %s", (unsigned long long)m.serial_number, has_s ? show(subj).c_str() : "-",
                         has_i ? show(iss).c_str() : "-", m.not_before, m.not_after, abs.c_str(), BC[bci] ? BC[bci] : "-", rsa ? "rsa" : "ec");
  Kv extra(subj);
  switch (bad) {
  case 1: m.not_after_absolute = "99991231235959Z"; m.not_after = 5; break;
  case 2: m.not_after = 0; m.not_after_absolute = "not a date"; break;
  case 3: m.basic_constraints = (char *)"CA:maybe"; break;
  case 4: { // a value longer than X.520 allows
    const Attr &a = ATTRS[r.below(8)];
    Bytes v(a.max + 1 + r.below(3), 'A');
    push_keyvalue_list(extra.l, (char *)a.key, (char *)v.c_str());
    m.subject = extra.l;
    break;
  }
  case 5: push_keyvalue_list(extra.l, (char *)"noSuchName", (char *)"x"); m.subject = extra.l; break;
  case 8: // a name without a value: refused, or carried as it is
    push_keyvalue_list(extra.l, (char *)ATTRS[r.below(10)].key, (char *)"");
    m.subject = extra.l;
    break;
  case 6: kder = kder.substr(0, kder.size() / 2); break;
  default: break;
  }
  Buf kb(kder);
  uint8_t *cp = (uint8_t *)0x1;
  time_t t0 = time(nullptr);
  ssize_t n;
  bool wrong_kind = bad == 7;
  if (rsa != wrong_kind) n = crypto_generate_rsacert(&m, kb.a.array, kb.a.length, &cp);
  else n = crypto_generate_eccert(&m, kb.a.array, kb.a.length, &cp);
  time_t t1 = time(nullptr);
  ERR_clear_error();
  evaluated(hash(info) + bad, true);
  if (bad == 8 && n > 0) {
    X x(Bytes((char *)cp, n));
    free(cp);
    if (!x.x || X509_NAME_entry_count(X509_get_subject_name(x)) != (int)subj.size() + 1) failf("name-dropped", "the subject misses the attribute without a value: %s", info.c_str());
    EVP_PKEY_free(pk);
    return;
  }
  if (zoned && n <= 0 && !bad) { // refusing another zone than UTC would be in order
    EVP_PKEY_free(pk);
    return;
  }
  if (bad) {
    if (n >= 0) { failf(fmt("bad-accepted:%d", bad), "%s", info.c_str()); free(cp); }
    else if (cp != nullptr && cp != (uint8_t *)0x1) fail("cert-on-failure", "failed generation leaves a buffer");
    count("bad-refused");
    EVP_PKEY_free(pk);
    return;
  }
  if (n <= 0) { failf("generate-fails", "%s", info.c_str()); EVP_PKEY_free(pk); return; }
  Bytes der((char *)cp, n);
  free(cp);
  X x(der);
  if (!x.x || der_cert(x) != der) { failf("not-a-certificate", "%s", info.c_str()); EVP_PKEY_free(pk); return; }
  uint64_t sn = 0;
  if (!ASN1_INTEGER_get_uint64(&sn, X509_get0_serialNumber(x)) || sn != m.serial_number) failf("serial", "%llu for %s", (unsigned long long)sn, info.c_str());
  if (!canonical(X509_get0_notBefore(x)) || !canonical(X509_get0_notAfter(x))) failf("validity-encoding", "%s", info.c_str());
  if (!strong_signature(x)) failf("weak-signature", "%s", info.c_str());
  if (zoned) count("validity-zoned");
  if (X509_get_version(x) != 2) failf("version", "%ld for %s", X509_get_version(x), info.c_str());
  Names gs = read_name(X509_get_subject_name(x)), gi = read_name(X509_get_issuer_name(x));
  if (gs != (has_s ? subj : Names())) failf("subject", "%s for %s", show(gs).c_str(), info.c_str());
  if (gi != (has_i ? iss : Names())) failf("issuer", "%s for %s", show(gi).c_str(), info.c_str());
  int64_t nb = to_epoch(X509_get0_notBefore(x)), na = to_epoch(X509_get0_notAfter(x));
  if (nb < t0 + m.not_before || nb > t1 + m.not_before) failf("not-before", "%lld at %lld for %s", (long long)nb, (long long)t0, info.c_str());
  if (abs.empty() ? (na < t0 + m.not_after || na > t1 + m.not_after) : na != abs_epoch) failf("not-after", "%lld at %lld for %s", (long long)na, (long long)t0, info.c_str());
  if (pubkey(X509_get0_pubkey(x)) != pubkey(pk)) failf("public-key", "%s", info.c_str());
  if (X509_verify(x, pk) != 1) failf("self-signature", "%s", info.c_str());
  if (X509_get_ext_count(x) != (BC[bci] ? 1 : 0)) failf("extensions", "%d for %s", X509_get_ext_count(x), info.c_str());
  else if (BC[bci]) {
    int crit = -1;
    BASIC_CONSTRAINTS *b = (BASIC_CONSTRAINTS *)X509_get_ext_d2i(x, NID_basic_constraints, &crit, nullptr);
    long pl = b && b->pathlen ? ASN1_INTEGER_get(b->pathlen) : -1;
    bool ca = bci >= 2, cr = bci == 3 || bci == 4;
    if (!b || (b->ca != 0) != ca || crit != (cr ? 1 : 0) || pl != (bci == 4 ? 3 : bci == 5 ? 0 : -1)) failf("basic-constraints", "%s", info.c_str());
    BASIC_CONSTRAINTS_free(b);
  }
  accessors(der, has_i ? iss : Names(), has_s ? subj : Names(), m.serial_number, true, "generated certificate");
  count(rsa ? "generated-rsa" : "generated-ec");

  // re-sign, also a certificate with other extensions, under a CA
  int ck = r.chance(1, 5) ? N_EC + (int)r.below(N_RSA) : (int)r.below(N_EC);
  Names can = names(r);
  Spec ca;
  for (auto &y : can) ca.subject.push_back({ATTRS[y.first].key, y.second});
  ca.issuer = cn("whoever");
  ca.pub = ck;
  ca.sig = (int)r.below(N_EC);
  ca.bc = "CA:TRUE";
  Bytes cad = make_cert(ca), in = der;
  if (r.chance(1, 2)) {
    Spec s;
    s.subject = {{"CN", "dev"}, {"serialNumber", "A-" + std::to_string(r.below(1000))}};
    s.issuer = cn("old");
    s.serial = rand_sn(r);
    s.nb = (long)r.range(-1000000, 0);
    s.na = (long)r.range(1, 100000000);
    s.pub = (int)r.below(N_EC + N_RSA);
    s.sig = (int)r.below(N_EC + N_RSA);
    if (r.chance(1, 2)) s.bc = "CA:FALSE";
    if (r.chance(1, 2)) s.ku = "critical,digitalSignature";
    if (r.chance(1, 2)) s.eku = "clientAuth";
    s.skid = r.chance(1, 2);
    in = make_cert(s);
  }
  uint8_t *io = (uint8_t *)malloc(in.size());
  memcpy(io, in.data(), in.size());
  Buf cab(cad), sk(key(ck).der);
  int sbad = r.chance(1, 5) ? (int)r.range(1, 3) : 0;
  if (sbad == 1) cab.set(r.bytes(50));
  if (sbad == 2) sk.set(r.bytes(50));
  ssize_t on = crypto_sign_cert(sk.a.array, sk.a.length, cab.a.array, cab.a.length, sbad == 3 ? in.size() / 2 : in.size(), &io);
  ERR_clear_error();
  if (sbad) {
    if (on >= 0) failf("sign-cert-bad-accepted", "%d", sbad);
    else if (memcmp(io, in.data(), in.size())) fail("sign-cert-input-changed", "a failed signing changes its input");
    count("sign-cert-refused");
    free(io);
  } else if (on <= 0) { fail("sign-cert-fails", info); free(io); }
  else {
    Bytes out((char *)io, on);
    free(io);
    X a(in), b(out), c(cad);
    if (!b.x || der_cert(b) != out) fail("sign-cert-garbage", info);
    else {
      if (der_name(X509_get_issuer_name(b)) != der_name(X509_get_subject_name(c))) fail("sign-cert-issuer", info);
      if (X509_verify(b, key(ck).k) != 1) fail("sign-cert-signature", info);
      if (!strong_signature(b)) fail("sign-cert-weak", info);
      if (der_name(X509_get_subject_name(a)) != der_name(X509_get_subject_name(b))) fail("sign-cert-changes-subject", info);
      if (ASN1_INTEGER_cmp(X509_get0_serialNumber(a), X509_get0_serialNumber(b))) fail("sign-cert-changes-serial", info);
      if (to_epoch(X509_get0_notBefore(a)) != to_epoch(X509_get0_notBefore(b)) || to_epoch(X509_get0_notAfter(a)) != to_epoch(X509_get0_notAfter(b))) fail("sign-cert-changes-validity", info);
      if (pubkey(X509_get0_pubkey(a)) != pubkey(X509_get0_pubkey(b))) fail("sign-cert-changes-key", info);
      if (extensions(a) != extensions(b)) fail("sign-cert-changes-extensions", info);
      if (X509_get_version(a) != X509_get_version(b)) fail("sign-cert-changes-version", info);
      uint64_t bs = 0;
      ASN1_INTEGER_get_uint64(&bs, X509_get0_serialNumber(b));
      accessors(out, can, read_name(X509_get_subject_name(b)), bs, true, "re-signed certificate");
    }
    count("re-signed");
  }
  if (i % 8 == 0) files(r, der, kder);
  EVP_PKEY_free(pk);
  if (want_sample()) sample(info);
}

int main(int argc, char **argv) {
  init(argc, argv);
  if (!getenv("LOUD")) quiet_log();
  return run([&](Rng &r, long i) { one(r, i); }, 100);
}
