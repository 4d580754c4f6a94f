// A small BRSKI world: manufacturer, MASA, domain and an impostor, with
// hand-made voucher messages around it.
#pragma once
#include "pki.hpp"
#include "vmodel.hpp"
namespace world {
using namespace vh;
using namespace pki;
using ref::Date;

// What a party trusts when verifying CMS messages
struct Trust {
  std::vector<Bytes> certs, store;
  bool has_certs = false, has_store = false;
  std::string what;
  List c, s;
  void build() {
    if (has_certs) { c.empty(); for (auto &x : certs) c.add(x); }
    if (has_store) { s.empty(); for (auto &x : store) s.add(x); }
  }
  const BinaryArrayList *C() const { return has_certs ? c.l : nullptr; }
  const BinaryArrayList *S() const { return has_store ? s.l : nullptr; }
};
// 1 must be accepted (as far as the signature goes), 0 must not, -1 open
static inline int trusts(const Trust &t, const Bytes &msg, Opened &o, std::string &why) {
  o = cms_open(msg, t.certs);
  if (!o.ok) { why = "bad signature"; return 0; }
  if (o.signers.empty()) { why = "no signer"; return 0; }
  if (!t.has_store) return 1;
  std::vector<Bytes> pool = o.embedded;
  pool.insert(pool.end(), t.certs.begin(), t.certs.end());
  std::map<Bytes, Bytes> names;
  bool clash = false, viacerts = false;
  for (const std::vector<Bytes> *v : {(const std::vector<Bytes> *)&pool, &t.store})
    for (auto &d : *v) {
      X x(d);
      Bytes n = der_of((const X509_NAME *)X509_get_subject_name(x), [](const X509_NAME *y, unsigned char **p) { return i2d_X509_NAME(y, p); });
      if (names.count(n) && names[n] != d) clash = true;
      names[n] = d;
    }
  for (auto &s : o.signers) {
    if (!chain_exists(s, pool, t.store, true)) { why = "untrusted signer"; return 0; }
    if (!chain_exists(s, o.embedded, t.store, true)) viacerts = true;
  }
  return clash || viacerts ? -1 : 1;
}

struct Party {
  Node root, inter, leaf; // inter may be absent
  bool has_inter = false;
  std::vector<Bytes> embed() const { return has_inter ? std::vector<Bytes>{inter.cert} : std::vector<Bytes>{}; }
};
static inline Party party(const char *name, int k, bool deep, Rng &r, const Name &leaf) {
  Party p;
  p.root = root(std::string(name) + " root", k, r);
  p.has_inter = deep;
  if (deep) p.inter = child(p.root, cn(std::string(name) + " sub"), k + 1, true, r);
  p.leaf = child(deep ? p.inter : p.root, leaf, k + 2, false, r);
  return p;
}
// with long names or RSA keys, for certificates of other sizes
static inline void enlarge(Party &p, int rsa, Rng &r) {
  Name n = p.root.name;
  bool longer = r.chance(1, 2);
  if (longer) {
    n.insert(n.begin(), {"O", Bytes(r.range(1, 60), 'o')});
    for (int k = (int)r.below(6); k > 0; k--) n.insert(n.begin(), {"OU", fmt("%d ", k) + Bytes(r.range(1, 58), 'u')});
  }
  bool rr = r.chance(1, 2), rl = r.chance(1, 2);
  if (!longer && !rr && !rl) rr = true;
  p.root = root(n, rr ? rsa : p.root.key, r);
  if (p.has_inter) p.inter = child(p.root, p.inter.name, p.inter.key, true, r);
  p.leaf = child(p.has_inter ? p.inter : p.root, p.leaf.name, rl ? rsa : p.leaf.key, false, r);
}
// the same names with other keys
static inline Party impostor(const Party &p, int k, Rng &r) {
  Party q;
  q.root = root(p.root.name, k, r);
  q.has_inter = p.has_inter;
  if (p.has_inter) q.inter = child(q.root, p.inter.name, k, true, r);
  q.leaf = child(p.has_inter ? q.inter : q.root, p.leaf.name, k, false, r);
  return q;
}
// What the party q trusts regarding p: mostly right, sometimes not.
static inline void make_trust(Trust &t, const Party &p, const Party &fake, const Party &other, Rng &r, bool need_store = false) {
  switch (r.below(need_store ? 8 : 10)) {
  case 0: t.has_store = true; t.store = {fake.root.cert}; t.what = "look-alike store"; break;
  case 1: t.has_store = true; t.store = {other.root.cert}; t.what = "other store"; break;
  case 2: t.has_store = true; t.store = {other.root.cert, p.root.cert}; t.what = "two-root store"; break;
  case 3: if (r.chance(1, 3)) { t.has_store = true; t.what = "empty store"; break; } // fall through
  case 4: case 5: case 6: case 7: t.has_store = true; t.store = {p.root.cert}; t.what = "store"; break;
  default: t.what = "no store";
  }
  if (r.chance(1, 3)) {
    t.has_certs = true;
    if (p.has_inter) t.certs.push_back(p.inter.cert);
    if (r.chance(1, 2)) t.certs.push_back(other.leaf.cert);
    if (r.chance(1, 3)) t.certs.push_back(r.chance(1, 2) ? other.root.cert : fake.root.cert); // known, not trusted
    t.what += "+certs";
  }
  t.build();
}
// Makes the message of a signer in one of several ways; most are genuine.
static inline Bytes sign_somehow(const Bytes &content, const Party &p, const Party &fake, const Party &other, Rng &r, std::string &how, unsigned bad_one_in = 3) {
  bool bad = r.chance(1, bad_one_in);
  std::vector<Bytes> em = p.embed();
  if (!bad) {
    how = "genuine";
    if (p.has_inter && r.chance(1, 8)) { em.clear(); how = "genuine, intermediate missing"; }
    else if (r.chance(1, 6)) { em.push_back(other.leaf.cert); how = "genuine, extra certificate"; }
    return cms_sign(content, {{p.leaf.cert, p.leaf.key}}, em);
  }
  switch (r.below(7)) {
  case 0: how = "signed by impostor"; return cms_sign(content, {{fake.leaf.cert, fake.leaf.key}}, fake.embed());
  case 1: how = "signed by other party"; return cms_sign(content, {{other.leaf.cert, other.leaf.key}}, other.embed());
  case 2: how = "signature of impostor"; return with_signature(cms_sign(content, {{p.leaf.cert, p.leaf.key}}, em), signature_of(cms_sign(content, {{fake.leaf.cert, fake.leaf.key}}, {})));
  case 3: how = "signature of other content"; return with_signature(cms_sign(content, {{p.leaf.cert, p.leaf.key}}, em), signature_of(cms_sign(content + " ", {{p.leaf.cert, p.leaf.key}}, {})));
  case 4: { how = "changed bit"; Bytes m = cms_sign(content, {{p.leaf.cert, p.leaf.key}}, em); m[r.below(m.size())] ^= (char)(1 << r.below(8)); return m; }
  case 5: { how = "truncated"; Bytes m = cms_sign(content, {{p.leaf.cert, p.leaf.key}}, em); return m.substr(0, r.below(m.size())); }
  default: how = "not a CMS message"; return r.chance(1, 2) ? content : r.bytes(r.below(300));
  }
}
// Damages a document so that it is no voucher any more (or leaves it).
static inline Bytes spoil(const Bytes &doc, Rng &r, std::string &how) {
  switch (r.below(7)) {
  case 0: how += " unknown attribute"; { Bytes d = doc; size_t p = d.find('{', d.find('{') + 1); d.insert(p + 1, "\"last-renewal\":\"x\","); return d; }
  case 1: how += " other root"; { Bytes d = doc; size_t p = d.find("ietf-voucher:voucher"); d.replace(p, 20, "ietf-voucher:vouchex"); return d; }
  case 2: how += " cut"; return doc.substr(0, r.below(doc.size()));
  case 3: how += " empty document"; return "{\"ietf-voucher:voucher\":{}}";
  case 4: how += " array root"; return "[" + doc + "]";
  case 5: how += " garbage"; return r.bytes(r.range(1, 80));
  default: how += " malformed date"; { Bytes d = doc; size_t p = d.find('{', d.find('{') + 1); d.insert(p + 1, "\"created-on\":\"yesterday\","); return d; }
  }
}
static inline Bytes doc_of(const ref::VoucherModel &m, Rng &r) {
  return ref::render_root("ietf-voucher:voucher", ref::render_members(ref::members(m, r), r), r);
}
static inline Bytes plain_serial(Rng &r) { // accepted by everything, printable
  static const std::vector<Bytes> v = {"AA:BB:CC:DD:EE:FF", "12345", "a", "0", "serial \"quoted\"", "\xc3\xa9\xe2\x82\xac", "x/y\\z"};
  if (r.chance(1, 4)) return r.pick(v);
  if (r.chance(1, 4)) { Bytes b = ref::rand_serial(r); if (!b.empty() && b.find('\0') == Bytes::npos) return b; }
  Bytes b;
  for (int n = (int)r.range(1, 40); n > 0; n--) b += "0123456789ABCDEFabcdef-:."[r.below(25)];
  return b;
}
static inline Bytes near(const Bytes &s, Rng &r) { // another serial number close to s
  Bytes t = s;
  switch (r.below(6)) {
  case 0: t += "0"; break;
  case 1: if (t.size() > 1) { t.pop_back(); break; } t += "x"; break;
  case 2: for (auto &c : t) if (isalpha((unsigned char)c)) { c ^= 0x20; break; } break;
  case 3: t = " " + t; break;
  case 4: t += " "; break;
  default: t = "other" + std::to_string(r.below(100));
  }
  if (t == s) t = "other";
  if (t.size() > 127) t = "other";
  return t;
}
static inline Bytes near_blob(const Bytes &s, Rng &r) {
  Bytes t = s;
  switch (r.below(4)) {
  case 0: if (t.size() > 1) { t.pop_back(); break; } // fall through
  case 1: t += (char)r.next(); break;
  case 2: if (!t.empty()) { t[r.below(t.size())] ^= (char)(1 << r.below(8)); break; } // fall through
  default: t = r.bytes(r.range(1, 40));
  }
  if (t == s || t.empty()) t = s + "x";
  return t;
}
static inline std::vector<Bytes> sorted(std::vector<Bytes> v) { std::sort(v.begin(), v.end()); return v; }
// An artefact issued by the code under test
static inline void check_issued(const char *key, const Bytes &cms, const Bytes &signer, const std::vector<Bytes> &extra, const ref::VoucherModel &want, const std::string &info) {
  Opened o = cms_open(cms);
  if (!o.ok) { failf(fmt("%s-not-signed", key), "what was issued is no validly signed message; %s", info.c_str()); return; }
  if (o.signers != std::vector<Bytes>{signer}) failf(fmt("%s-signer", key), "%zu signers or another signer; %s", o.signers.size(), info.c_str());
  std::vector<Bytes> em = extra;
  em.push_back(signer);
  if (sorted(o.embedded) != sorted(em)) failf(fmt("%s-certs", key), "%zu certificates carried, %zu expected; %s", o.embedded.size(), em.size(), info.c_str());
  ref::VoucherModel got;
  std::string why;
  int j = ref::judge(o.content, got, &why);
  if (j != 1) { failf(fmt("%s-content", key), "content is no voucher (%s): %s; %s", why.c_str(), printable(o.content).c_str(), info.c_str()); return; }
  if (!(got == want)) failf(fmt("%s-attributes", key), "contains %s expected %s; %s", got.text().c_str(), want.text().c_str(), info.c_str());
}
static inline Bytes take(struct BinaryArray *b) { // and release
  Bytes s = str(b);
  free_binary_array(b);
  return s;
}
// files
static inline Bytes pem(const char *label, const Bytes &der) {
  Bytes b = ref::b64(der), o = std::string("-----BEGIN ") + label + "-----\n";
  for (size_t i = 0; i < b.size(); i += 64) o += b.substr(i, 64) + "\n";
  return o + "-----END " + label + "-----\n";
}
static inline void write_file(const std::string &path, const Bytes &d) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f || fwrite(d.data(), 1, d.size(), f) != d.size()) harness_error("write %s", path.c_str());
  fclose(f);
}
static inline Bytes read_file(const std::string &path, bool *there = nullptr) {
  FILE *f = fopen(path.c_str(), "rb");
  if (there) *there = f != nullptr;
  if (!f) return Bytes();
  Bytes s;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
  fclose(f);
  return s;
}
static inline Bytes key_pem(int k) {
  BIO *b = BIO_new(BIO_s_mem());
  PEM_write_bio_PrivateKey(b, key(k).k, nullptr, nullptr, 0, nullptr, nullptr);
  BUF_MEM *m;
  BIO_get_mem_ptr(b, &m);
  Bytes s(m->data, m->length);
  BIO_free(b);
  return s;
}
} // namespace world
