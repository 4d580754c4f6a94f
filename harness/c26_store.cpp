// C26: keys, certificates and messages between files, buffers and contexts.
// Files are written and read independently with the OpenSSL API; writing is
// also driven into full devices and file size limits; after every case the
// number of open files is as before.
#include "brski_c.hpp"
#include "oracle.hpp"
#include "pki.hpp"
#include <csignal>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace vh;
using namespace pki;

static int open_fds() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (d && readdir(d)) n++;
  if (d) closedir(d);
  return n;
}
static Bytes slurp(const std::string &p) {
  Bytes b;
  FILE *f = fopen(p.c_str(), "rb");
  char t[65536];
  size_t n;
  while (f && (n = fread(t, 1, sizeof t, f)) > 0) b.append(t, n);
  if (f) fclose(f);
  return b;
}
static void put(const std::string &p, const Bytes &b) {
  FILE *f = fopen(p.c_str(), "wb");
  if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f)) harness_error("cannot write %s", p.c_str());
}
static Bytes take(BIO *b) {
  BUF_MEM *m = nullptr;
  BIO_get_mem_ptr(b, &m);
  Bytes s(m->data ? m->data : "", m->length);
  BIO_free(b);
  return s;
}
static Bytes own(BinaryArray *a) { // takes and frees
  Bytes b = a && a->array ? Bytes((const char *)a->array, a->length) : Bytes();
  free_binary_array(a);
  return b;
}

// ---- keys of many kinds -----------------------------------------------------------------
enum Kind { EC256, EC384, EC521, SECP256K1, RSA2048, RSA1024, RSA3072, ED25519, KINDS };
static const char *kinds[] = {"P-256", "P-384", "P-521", "secp256k1", "RSA-2048", "RSA-1024", "RSA-3072", "Ed25519"};
static bool is_rsa(int k) { return k == RSA2048 || k == RSA1024 || k == RSA3072; }
static bool is_ec(int k) { return k <= SECP256K1; }
static EVP_PKEY *some_key(int kind, Rng &r) {
  static EVP_PKEY *pool[KINDS][3];
  EVP_PKEY *&k = pool[kind][is_rsa(kind) ? r.below(2) : r.below(3)];
  if (!k) {
    switch (kind) {
    case RSA2048: k = EVP_RSA_gen(2048); break;
    case RSA1024: k = EVP_RSA_gen(1024); break;
    case RSA3072: k = EVP_RSA_gen(thorough() ? 4096 : 3072); break;
    case ED25519: k = EVP_PKEY_Q_keygen(nullptr, nullptr, "ED25519"); break;
    default: k = EVP_EC_gen(kind == SECP256K1 ? "secp256k1" : kinds[kind]);
    }
    if (!k) harness_error("key of kind %s", kinds[kind]);
  }
  return k;
}
static int some_kind(Rng &r) { return r.chance(1, 2) ? (int)EC256 : (int)r.below(KINDS); }
static Bytes pkcs8_der(EVP_PKEY *k) {
  PKCS8_PRIV_KEY_INFO *p = EVP_PKEY2PKCS8(k);
  Bytes b = der_of((const PKCS8_PRIV_KEY_INFO *)p, [](const PKCS8_PRIV_KEY_INFO *x, unsigned char **o) { return i2d_PKCS8_PRIV_KEY_INFO(x, o); });
  PKCS8_PRIV_KEY_INFO_free(p);
  return b;
}
static Bytes wrap(const std::string &label, const Bytes &der, const char *eol = "\n", size_t width = 64) {
  Bytes t = ref::b64(der), o = "-----BEGIN " + label + "-----" + eol;
  for (size_t i = 0; i < t.size(); i += width) o += t.substr(i, width) + eol;
  return o + "-----END " + label + "-----" + eol;
}
static const char *eol_of(Rng &r) { return r.chance(1, 3) ? "\r\n" : "\n"; }
static Bytes key_text(EVP_PKEY *k, int kind, Rng &r) {
  if (kind != ED25519 && r.chance(1, 2)) return wrap(is_rsa(kind) ? "RSA PRIVATE KEY" : "EC PRIVATE KEY", der_key(k), eol_of(r));
  return wrap("PRIVATE KEY", pkcs8_der(k), eol_of(r));
}
static Bytes params_text(Rng &r) { return wrap("EC PARAMETERS", Bytes("\x06\x08\x2a\x86\x48\xce\x3d\x03\x01\x07", 10), eol_of(r)); }
static Bytes prose(Rng &r) {
  switch (r.below(5)) {
  case 0: return "Bag Attributes\n    localKeyID: 01 02 03\n    friendlyName: something\nKey Attributes: <No Attributes>\n";
  case 1: return "Certificate:\n    Data:\n        Version: 3 (0x2)\n        Serial Number: 1 (0x1)\n        Signature Algorithm: ecdsa-with-SHA256\n";
  case 2: return "\n\n   \n";
  case 3: { Bytes b; for (long n = r.range(1, 30); n > 0; n--) { for (long m = r.range(0, 120); m > 0; m--) b += (char)r.range(' ', 'z'); b += "\n"; } for (size_t p; (p = b.find("-----")) != Bytes::npos;) b.erase(p, 1); return b; }
  default: return "# a comment - with -- dashes\n";
  }
}
static Bytes a_cert(Rng &r, EVP_PKEY *subject = nullptr) {
  X509 *x = X509_new();
  X509_set_version(x, 2);
  Bytes sn = r.bytes(r.chance(1, 3) ? r.range(1, 20) : r.range(1, 8));
  sn[0] = (char)((sn[0] & 0x7f) | 1);
  BIGNUM *bn = BN_bin2bn((const unsigned char *)sn.data(), (int)sn.size(), nullptr);
  BN_to_ASN1_INTEGER(bn, X509_get_serialNumber(x));
  BN_free(bn);
  X509_gmtime_adj(X509_getm_notBefore(x), -3600);
  X509_gmtime_adj(X509_getm_notAfter(x), 86400L * r.range(1, 30000));
  X509_NAME *n = to_name(cn("subject " + std::to_string(r.below(1000000))));
  X509_set_subject_name(x, n);
  X509_NAME_free(n);
  n = to_name(cn("issuer " + std::to_string(r.below(1000000))));
  X509_set_issuer_name(x, n);
  X509_NAME_free(n);
  int sk = r.chance(1, 2) ? (int)EC256 : r.chance(1, 2) ? (int)RSA2048 : (int)EC384;
  X509_set_pubkey(x, subject ? subject : some_key(some_kind(r), r));
  if (r.chance(1, 2)) add_ext(x, nullptr, NID_basic_constraints, r.chance(1, 2) ? "critical,CA:TRUE" : "CA:FALSE");
  if (r.chance(1, 3)) { // certificates may be large
    Bytes c((size_t)(r.chance(1, 6) ? r.range(20000, 150000) : r.range(1, 9000)), 'a');
    for (auto &ch : c) ch = (char)r.range('a', 'z');
    add_ext(x, nullptr, NID_netscape_comment, c);
    if (c.size() > 8192) count("certificates over 8 KiB");
  }
  if (!X509_sign(x, some_key(sk, r), EVP_sha256())) harness_error("X509_sign");
  Bytes d = der_cert(x);
  X509_free(x);
  return d;
}
static Bytes a_message(Rng &r) {
  static Node nodes[3];
  Node &n = nodes[r.below(3)];
  if (n.cert.empty()) n = root("R" + std::to_string(r.below(1000)), r.chance(1, 3) ? (int)N_EC : 1, r);
  size_t len = r.chance(1, 10) ? (size_t)r.range(20000, 200000) : r.chance(1, 8) ? (size_t)r.range(0, 3) : (size_t)r.range(1, 5000);
  Bytes content = r.bytes(len);
  if (r.chance(1, 2)) for (auto &c : content) c = (char)r.range(' ', '~');
  return cms_sign(content, {{n.cert, n.key}}, r.chance(1, 3) ? std::vector<Bytes>{a_cert(r)} : std::vector<Bytes>{}, CMS_BINARY | (r.chance(1, 4) ? CMS_NOSMIMECAP : 0));
}

// ---- writing ------------------------------------------------------------------------------
struct Thing { int what; Bytes der; EVP_PKEY *key = nullptr; std::string name; }; // 0 key, 1 certificate, 2 message
static Thing thing(Rng &r) {
  Thing t;
  t.what = (int)r.below(3);
  if (t.what == 0) {
    int k = some_kind(r);
    t.key = some_key(k, r);
    bool p8 = r.chance(1, 3);
    t.der = p8 ? pkcs8_der(t.key) : der_key(t.key);
    t.name = std::string(kinds[k]) + " key" + (p8 ? " (PKCS#8)" : "");
  } else if (t.what == 1) t.der = a_cert(r), t.name = "certificate";
  else t.der = a_message(r), t.name = "message";
  return t;
}
static int write_thing(const Thing &t, const std::string &p) {
  Buf b(t.der);
  Bytes before = b.str();
  int rc = t.what == 0 ? keybuf_to_file(&b.a, p.c_str()) : t.what == 1 ? certbuf_to_file(&b.a, p.c_str()) : cmsbuf_to_file(&b.a, p.c_str());
  if (b.str() != before) failf("input changed", "writing a %s changes the buffer given", t.name.c_str());
  return rc;
}
static std::string wrong_file(const Thing &t, const std::string &p) { // "" if the file is as it should be
  Bytes text = slurp(p);
  BIO *b = BIO_new_mem_buf(text.data(), (int)text.size());
  std::string bad;
  if (t.what == 2) {
    CMS_ContentInfo *c = SMIME_read_CMS(b, nullptr);
    if (!c) bad = "is not an S/MIME message";
    else if (der_cms(c) != t.der) {
      Opened x = cms_open(der_cms(c)), y = cms_open(t.der);
      if (!x.ok || x.content != y.content || x.signers != y.signers || x.embedded != y.embedded) bad = "holds another message";
    }
    CMS_ContentInfo_free(c);
  } else {
    if (text.compare(0, 11, "-----BEGIN ") || text.size() < 6 || text.compare(text.size() - 6, 6, "-----\n")) bad = "holds more than PEM text";
    if (t.what == 1) {
      X509 *x = PEM_read_bio_X509(b, nullptr, nullptr, nullptr), *y = nullptr;
      if (!x) bad = "holds no certificate";
      else if (der_cert(x) != t.der) bad = "holds another certificate";
      else if ((y = PEM_read_bio_X509(b, nullptr, nullptr, nullptr))) bad = "holds two certificates";
      X509_free(x), X509_free(y);
    } else {
      EVP_PKEY *k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, (void *)""), *y = nullptr;
      if (!k) bad = "holds no private key that reads without a password";
      else if (der_key(k) != der_key(t.key)) bad = "holds another key";
      else if ((y = PEM_read_bio_PrivateKey(b, nullptr, nullptr, (void *)""))) bad = "holds two keys";
      EVP_PKEY_free(k), EVP_PKEY_free(y);
    }
  }
  BIO_free(b);
  ERR_clear_error();
  return bad;
}
static void writing(Rng &r, const std::string &dir) {
  Thing t = thing(r);
  std::string p = dir + "/f", state = "new file";
  switch (r.below(3)) {
  case 0: break;
  case 1: put(p, Bytes((size_t)r.range(1, 400000), 'x')); state = "old file"; break;
  default: put(p, r.chance(1, 2) ? wrap("CERTIFICATE", a_cert(r)) + wrap("CERTIFICATE", a_cert(r)) : "x"); state = "old PEM file"; break;
  }
  int rc = write_thing(t, p);
  if (rc < 0) { failf("writing fails", "%s, %zu bytes, to a %s", t.name.c_str(), t.der.size(), state.c_str()); return; }
  std::string bad = wrong_file(t, p);
  if (!bad.empty()) failf("written " + std::string(t.what == 0 ? "key" : t.what == 1 ? "certificate" : "message"), "the file of a %s of %zu bytes (%s) %s", t.name.c_str(), t.der.size(), state.c_str(), bad.c_str());
  if (t.what < 2) {
    BinaryArray *a = t.what ? file_to_x509buf(p.c_str()) : file_to_keybuf(p.c_str());
    bool null = !a;
    Bytes d = own(a);
    if (null || d != (t.what ? t.der : der_key(t.key))) failf("read back", "%s of %zu bytes read back %s", t.name.c_str(), t.der.size(), null ? "fails" : "differs");
  }
  count("written: " + std::string(t.what == 0 ? "keys" : t.what == 1 ? "certificates" : "messages"));
  // the same where only a part fits, exactly all of it does, or nothing can be written
  struct stat st;
  if (stat(p.c_str(), &st)) harness_error("stat");
  long size = (long)st.st_size;
  for (int k = 0; k < 3; k++) {
    Bytes how;
    std::string to = dir + "/g";
    long limit = -1;
    bool want = false;
    switch (r.below(5)) {
    case 0: to = "/dev/full", how = "a full device"; break;
    case 1: case 2: limit = r.chance(1, 4) ? size - 1 : r.range(0, size - 1), how = "less space than needed"; break;
    case 3: limit = size, want = true, how = "just enough space"; break;
    default: to = r.chance(1, 2) ? dir : r.chance(1, 2) ? dir + "/none/g" : r.chance(1, 2) ? "" : dir + "/" + std::string(300, 'n'), how = "a place which cannot be written"; break;
    }
    rlimit old{}, now{};
    if (limit >= 0) {
      getrlimit(RLIMIT_FSIZE, &old);
      now = old, now.rlim_cur = (rlim_t)limit;
      if (setrlimit(RLIMIT_FSIZE, &now)) harness_error("setrlimit");
    }
    int got = write_thing(t, to);
    if (limit >= 0) setrlimit(RLIMIT_FSIZE, &old);
    if (want != (got >= 0)) failf(want ? "fails with " + how : "success with " + how, "%s of %zu bytes (a file of %ld bytes, %ld fit): returns %d", t.name.c_str(), t.der.size(), size, limit, got);
    else if (want && !(bad = wrong_file(t, to)).empty()) failf("written with " + how, "the file of a %s %s", t.name.c_str(), bad.c_str());
    count("written to " + how);
    if (to == dir + "/g") unlink(to.c_str());
  }
  // what is no such thing is not written
  Bytes junk = r.chance(1, 2) ? r.bytes(r.range(1, 300)) : t.der.substr(0, (size_t)r.range(0, (long)t.der.size() - 1));
  Thing j = t;
  j.der = junk;
  if (r.chance(1, 3)) { Thing o = thing(r); if (o.what != t.what) j.der = o.der; }
  if (write_thing(j, dir + "/g") >= 0) failf("junk written", "%zu bytes which are no %s are written", j.der.size(), t.name.c_str());
  count("junk refused");
  unlink((dir + "/g").c_str());
  unlink(p.c_str());
  evaluated(hash(t.der), true);
}

// ---- reading ------------------------------------------------------------------------------
static void reading(Rng &r, const std::string &dir) {
  std::string p = dir + "/f", what;
  bool want_key = r.chance(1, 2);
  int kind = some_kind(r);
  EVP_PKEY *k = some_key(kind, r);
  Bytes der = want_key ? der_key(k) : a_cert(r), text, want;
  Bytes mine = want_key ? key_text(k, kind, r) : wrap("CERTIFICATE", der, eol_of(r), r.chance(1, 4) ? 76 : 64);
  Bytes else_ = want_key ? (r.chance(1, 3) && is_ec(kind) ? params_text(r) : wrap("CERTIFICATE", a_cert(r))) : key_text(some_key(EC256, r), EC256, r);
  Bytes body = want_key ? pkcs8_der(k) : der;
  std::string label = want_key ? "PRIVATE KEY" : "CERTIFICATE";
  bool good = false, dirfile = false;
  switch (r.below(14)) {
  case 0: case 1: text = mine, what = "alone", good = true; break;
  case 2: text = prose(r) + mine, what = "after text", good = true; break;
  case 3: text = mine + prose(r), what = "before text", good = true; break;
  case 4: text = else_ + mine, what = "after another block", good = true; break;
  case 5: text = prose(r) + else_ + prose(r) + mine + prose(r), what = "among other things", good = true; break;
  case 6: { // the first one counts
    text = mine + (want_key ? key_text(some_key(EC384, r), EC384, r) : wrap("CERTIFICATE", a_cert(r)));
    what = "before another of its kind", good = true;
    break;
  }
  case 7: text = mine, what = "without the last line end", good = true; while (!text.empty() && (text.back() == '\n' || text.back() == '\r')) text.pop_back(); break;
  case 8: text = mine.substr(0, (size_t)r.range(0, (long)mine.rfind("-----END") - 1)), what = "cut"; break;
  case 9: text = wrap(label, r.chance(1, 2) ? body.substr(0, (size_t)r.range(0, (long)body.size() - 1)) : r.bytes(r.range(1, 400))), what = "with damaged content"; break;
  case 10: text = r.chance(1, 2) ? else_ : r.chance(1, 2) ? prose(r) : "", what = "missing"; break;
  case 11: text = wrap(want_key ? "PUBLIC KEY" : "CERTIFICATE REQUEST", body), what = "under another label"; break;
  case 12: text = ref::b64(body) + "\n", what = "without its label lines"; break;
  default: dirfile = true, what = "in a file which cannot be read"; break;
  }
  if (dirfile) p = r.chance(1, 2) ? dir : r.chance(1, 2) ? dir + "/none" : "";
  else put(p, text);
  BinaryArray *a = want_key ? file_to_keybuf(p.c_str()) : file_to_x509buf(p.c_str());
  bool got = a != nullptr;
  Bytes d = own(a);
  std::string name = want_key ? std::string(kinds[kind]) + " key" : "certificate";
  if (got != good) failf(good ? "not read: " + what : "read although " + what, "%s of %zu bytes; %s", name.c_str(), der.size(), printable(text, 1500).c_str());
  else if (good && d != der) failf("read differently: " + what, "%s of %zu bytes gives %zu bytes; %s", name.c_str(), der.size(), d.size(), printable(text, 1500).c_str());
  if (!dirfile && slurp(p) != text) failf("file changed", "reading a %s changes the file", name.c_str());
  count(std::string(good ? "read " : "refused ") + (want_key ? "key " : "certificate ") + what);
  if (!dirfile) unlink(p.c_str());
  evaluated(hash(text + name), !text.empty());
}

// ---- buffers and contexts -----------------------------------------------------------------
static void contexts(Rng &r) {
  if (r.chance(1, 2)) { // certificates
    Bytes der = a_cert(r);
    CRYPTO_CERT c;
    { Buf b(der); c = crypto_cert2context(b.a.array, b.a.length); }
    if (!c) { failf("certificate context", "a certificate of %zu bytes is refused", der.size()); return; }
    CRYPTO_CERT d = crypto_copycert(c);
    if (!d || d == c) failf("copy", "no copy of a certificate");
    if (own(crypto_cert2buf(c)) != der) failf("context to buffer", "a certificate of %zu bytes differs", der.size());
    BinaryArray *is = crypto_getcert_issuer(c);
    (void)own(is);
    char *hexs = crypto_getcert_serialhex(c);
    BIGNUM *have = nullptr, *want = ASN1_INTEGER_to_BN(X509_get0_serialNumber((X509 *)c), nullptr);
    if (!hexs || BN_hex2bn(&have, hexs) != (int)strlen(hexs) || BN_cmp(have, want)) failf("serial number", "%s for a serial number of %d bits", hexs ? hexs : "NULL", BN_num_bits(want));
    BN_free(have), BN_free(want);
    if (hexs) sys_free(hexs);
    crypto_free_certcontext(c); // the copy is on its own
    if (d && own(crypto_cert2buf(d)) != der) failf("copy to buffer", "the copy of a certificate of %zu bytes differs", der.size());
    crypto_free_certcontext(d);
    Bytes cut = der.substr(0, (size_t)r.range(0, (long)der.size() - 1));
    Buf b(cut);
    if ((c = crypto_cert2context(b.a.array, b.a.length))) { failf("cut certificate", "%zu of %zu bytes are taken for a certificate", cut.size(), der.size()); crypto_free_certcontext(c); }
    count("certificate contexts");
    evaluated(hash(der), true);
    return;
  }
  int kind = some_kind(r);
  EVP_PKEY *k = some_key(kind, r);
  bool p8 = r.chance(1, 3);
  Bytes der = p8 ? pkcs8_der(k) : der_key(k);
  for (int f = 0; f < 3; f++) {
    static const char *fn[] = {"crypto_key2context", "crypto_eckey2context", "crypto_rsakey2context"};
    auto make = [&](const Bytes &x) { Buf b(x); return f == 0 ? crypto_key2context(b.a.array, b.a.length) : f == 1 ? crypto_eckey2context(b.a.array, b.a.length) : crypto_rsakey2context(b.a.array, b.a.length); };
    bool want = f == 0 || (f == 1 ? is_ec(kind) : is_rsa(kind));
    CRYPTO_KEY c = make(der);
    if (want != (c != nullptr)) failf(std::string(fn[f]) + (want ? " refuses" : " accepts"), "%s key%s", kinds[kind], p8 ? " (PKCS#8)" : "");
    else if (c && der_key((EVP_PKEY *)c) != der_key(k)) failf(std::string(fn[f]) + " differs", "%s key%s", kinds[kind], p8 ? " (PKCS#8)" : "");
    crypto_free_keycontext(c);
    Bytes cut = der.substr(0, (size_t)r.range(0, (long)der.size() - 1));
    if ((c = make(cut))) { failf(std::string(fn[f]) + " accepts a part", "%zu of %zu bytes of a %s key", cut.size(), der.size(), kinds[kind]); crypto_free_keycontext(c); }
  }
  count("key contexts");
  // which key is a certificate for?
  bool same = r.chance(1, 2);
  int ok = some_kind(r);
  EVP_PKEY *o = same ? k : some_key(ok, r);
  same = EVP_PKEY_eq(o, k) == 1;
  Buf cert(a_cert(r, k)), keyb(r.chance(1, 3) ? pkcs8_der(o) : der_key(o));
  int rc = crypto_verify_certkey(&cert.a, &keyb.a);
  if ((rc == 0) != same) failf(same ? "own key refused" : "other key accepted", "a certificate for a %s key, %s", kinds[kind], same ? "with it" : kinds[ok]);
  count(same ? "certificate with its key" : "certificate with another key");
  ERR_clear_error();
  evaluated(hash(der + cert.str() + keyb.str()), true);
}

static void one(Rng &r, long i) {
  std::string dir = opt("scratch", ".") + "/s" + std::to_string(i);
  mkdir(dir.c_str(), 0700);
  int fds = open_fds();
  switch (r.below(3)) {
  case 0: writing(r, dir); break;
  case 1: reading(r, dir); break;
  default: contexts(r); break;
  }
  int now = open_fds();
  if (now != fds) failf("files left open", "%d files more are open after the case", now - fds);
  unlink((dir + "/f").c_str()), unlink((dir + "/g").c_str());
  rmdir(dir.c_str());
}
int main(int argc, char **argv) {
  signal(SIGXFSZ, SIG_IGN);
  init(argc, argv);
  if (!getenv("LOUD")) quiet_log();
  return run([&](Rng &r, long i) { one(r, i); }, 100);
}
