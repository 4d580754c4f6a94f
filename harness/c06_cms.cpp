// C06: signing and verification of CMS messages and vouchers.
#include "pki.hpp"
#include "vmodel.hpp"
using namespace vh;
using namespace pki;

struct Verdict { ssize_t rc; Bytes content; std::vector<Bytes> signers; };
static Verdict verify(const Bytes &cms, const BinaryArrayList *certs, const BinaryArrayList *store, bool want_certs = true) {
  Verdict v;
  Buf b(cms);
  uint8_t *data = (uint8_t *)0x1;
  BinaryArrayList *out = nullptr;
  static Recycled rc_, rs;
  static long turn;
  if (++turn / 16 % 2) { // lists at the addresses of the verifications before, with other content
    v.rc = crypto_verify_cms(&b.a, rc_.as(certs), rs.as(store), &data, want_certs ? &out : nullptr);
    count("recycled-lists");
  } else
  v.rc = crypto_verify_cms(&b.a, certs, store, &data, want_certs ? &out : nullptr);
  ERR_clear_error();
  if (v.rc >= 0) {
    if (v.rc > 0) v.content = Bytes((char *)data, v.rc);
    if (data == (uint8_t *)0x1) fail("output-not-set", "verification succeeded without setting the data pointer");
    else free(data);
    v.signers = str_list(out);
  } else if (data != (uint8_t *)0x1 && data != nullptr) {
    fail("data-on-failure", "failed verification leaves a data pointer with the caller");
  }
  if (v.rc < 0 && out) fail("certs-on-failure", "failed verification leaves a certificate list with the caller");
  free_array_list(out);
  return v;
}
static std::vector<Bytes> sorted(std::vector<Bytes> v) { std::sort(v.begin(), v.end()); return v; }

// What any acceptance must satisfy, whatever the message looks like.
static void acceptance(const char *kind, const Bytes &msg, const Verdict &v, const std::vector<Bytes> &certs, bool has_store, const std::vector<Bytes> &store,
                       const std::string &info) {
  if (v.rc < 0) return;
  Opened o = cms_open(msg, certs);
  if (!o.ok) { failf(fmt("accepted:%s", kind), "verification succeeds but not every signature is valid: %s message %s", info.c_str(), hex(msg, 3000).c_str()); return; }
  if (o.content != v.content) failf(fmt("wrong-content:%s", kind), "content %s, signed %s %s", hex(v.content, 60).c_str(), hex(o.content, 60).c_str(), info.c_str());
  if (sorted(o.signers) != sorted(v.signers)) failf(fmt("wrong-signers:%s", kind), "%zu signers reported, %zu signed, or others; %s", v.signers.size(), o.signers.size(), info.c_str());
  if (has_store) {
    std::vector<Bytes> pool = o.embedded;
    pool.insert(pool.end(), certs.begin(), certs.end());
    for (auto &s : o.signers)
      if (!chain_exists(s, pool, store, true)) failf(fmt("accepted-untrusted:%s", kind), "a signer does not chain to the store: %s", info.c_str());
  }
}

static Bytes payload(Rng &r) {
  switch (r.below(8)) {
  case 0: return Bytes(1, (char)r.next());
  case 1: return "a\nb\r\nc\n\n";
  case 2: return Bytes("\0\0\0", 3);
  case 3: return r.bytes(r.range(1000, 20000));
  case 4: return "{\"ietf-voucher:voucher\":{\"serial-number\":\"" + std::to_string(r.next()) + "\"}}";
  default: return r.bytes(r.range(1, 400));
  }
}

struct World {
  std::vector<Node> roots, inters, leafs; // leafs[i] below inters[i] below roots[i]
  std::vector<int> depth;
};

static ssize_t do_sign(int api, const Bytes &data, const Bytes &cert, const Bytes &k, const BinaryArrayList *extra, Bytes &out) {
  Buf d(data), c(cert), kk(k);
  uint8_t *cms = (uint8_t *)0x1;
  auto fn = api == 0 ? crypto_sign_eccms : api == 1 ? crypto_sign_rsacms : crypto_sign_cms;
  ssize_t n = fn(d.a.array, d.a.length, c.a.array, c.a.length, kk.a.array, kk.a.length, extra, &cms);
  ERR_clear_error();
  if (n >= 0) {
    out = Bytes((char *)cms, n);
    free(cms);
  } else if (cms != nullptr && cms != (uint8_t *)0x1) fail("cms-on-failure", "failed signing leaves a buffer with the caller");
  return n;
}

static void one(Rng &r, long i) {
  uint64_t h = r.s;
  bool rsa = r.chance(1, 6);
  int depth = (int)r.below(4); // 0: self-signed signer
  int base = (int)r.below(4) * 3;
  Node top = root("Root " + std::to_string(r.below(3)), base, r), cur = top;
  std::vector<Bytes> inter;
  for (int d = 1; d < depth; d++) {
    cur = child(cur, cn("Inter " + std::to_string(d)), base + d, true, r);
    inter.push_back(cur.cert);
  }
  int lk = rsa ? N_EC + (int)r.below(N_RSA) : (int)r.below(12);
  Node leaf = depth ? child(cur, {{"C", "IE"}, {"CN", "leaf"}, {"serialNumber", std::to_string(r.below(1000))}}, lk, false, r) : top;
  if (!depth) { lk = top.key; rsa = false; }
  Node stranger = root(r.chance(1, 2) ? "Root 0" : "Other", 12, r);
  // same names and serial as the leaf, another key, signed by a stranger with the same name as the issuer
  Bytes imposter;
  {
    X l(leaf.cert);
    Spec s;
    s.subject = leaf.name;
    s.issuer = depth ? cur.name : top.name;
    s.pub = s.sig = 13;
    uint64_t sn = 0;
    ASN1_INTEGER_get_uint64(&sn, X509_get0_serialNumber(l));
    s.serial = sn;
    s.bc = "CA:TRUE";
    imposter = make_cert(s);
  }
  Bytes data = payload(r);
  std::string info = fmt("depth %d %s payload %zu bytes", depth, rsa ? "rsa" : "ec", data.size());

  // extra certificates: the intermediates (needed) and noise
  List extra;
  bool embed = r.chance(2, 3);
  std::vector<Bytes> extra_v, certs_v;
  if (embed) extra_v = inter;
  else certs_v = inter;
  for (int n = (int)r.below(3); n > 0; n--) (r.chance(1, 2) ? extra_v : certs_v).push_back(r.chance(1, 2) ? stranger.cert : top.cert);
  // no duplicates within the message: OpenSSL refuses to embed a certificate twice
  {
    std::vector<Bytes> u;
    for (auto &e : extra_v) if (std::find(u.begin(), u.end(), e) == u.end() && e != leaf.cert) u.push_back(e);
    extra_v = u;
  }
  for (auto &e : extra_v) extra.add(e);
  if (r.chance(1, 4)) extra.empty();

  int api = r.chance(1, 2) ? 2 : rsa ? 1 : 0;
  Bytes msg;
  ssize_t n = do_sign(api, data, leaf.cert, key(lk).der, extra, msg);
  if (n <= 0) { failf("sign-fails", "signing with a matching certificate and key returns %zd: %s", n, info.c_str()); return; }
  count(fmt("sign:%s", api == 0 ? "ec" : api == 1 ? "rsa" : "auto"));
  if (r.chance(1, 4)) { // key that does not match, wrong kind, garbage
    Bytes m2;
    int other = rsa ? N_EC + (lk - N_EC + 1) % N_RSA : (lk + 1) % N_EC;
    if (do_sign(api, data, leaf.cert, key(other).der, extra, m2) >= 0) fail("signs-with-foreign-key", info);
    if (api < 2 && do_sign(1 - api, data, leaf.cert, key(lk).der, extra, m2) >= 0) fail("signs-with-wrong-key-kind", info);
    if (do_sign(api, data, leaf.cert.substr(0, leaf.cert.size() - 1), key(lk).der, extra, m2) >= 0) fail("signs-with-cut-cert", info);
    if (do_sign(api, data, leaf.cert, r.bytes(20), extra, m2) >= 0) fail("signs-with-garbage-key", info);
    List bad;
    bad.add(r.bytes(30));
    if (do_sign(api, data, leaf.cert, key(lk).der, bad, m2) >= 0) fail("signs-with-garbage-extra", info);
    count("sign-refused");
  }
  Opened o = cms_open(msg);
  if (!o.ok || o.content != data || o.signers != std::vector<Bytes>{leaf.cert}) failf("message-wrong", "independent reading of the message: valid %d, content %s, %zu signers; %s", o.ok, o.content == data ? "same" : "differs", o.signers.size(), info.c_str());
  else {
    std::vector<Bytes> want = extra_v;
    want.push_back(leaf.cert);
    if (sorted(o.embedded) != sorted(want)) failf("extra-certs-wrong", "%zu certificates embedded, %zu expected; %s", o.embedded.size(), want.size(), info.c_str());
  }
  List certs, store, wrong_store, empty_store, mixed_store;
  for (auto &c : certs_v) certs.add(c);
  store.add(top.cert);
  wrong_store.add(stranger.cert);
  mixed_store.add(stranger.cert);
  mixed_store.add(top.cert);
  empty_store.empty();

  // genuine messages
  struct { const char *k; const BinaryArrayList *c, *s; bool ok; } gen[] = {
      {"no-store", certs, nullptr, true}, {"no-store-no-certs", nullptr, nullptr, true}, {"store", certs, store, true},
      {"mixed-store", certs, mixed_store, true}, {"wrong-store", certs, wrong_store, false}, {"empty-store", certs, empty_store, false}};
  for (auto &g : gen) {
    bool names_clash = stranger.name == top.name; // path building may pick the look-alike first
    Verdict v = verify(msg, g.c, g.s, true);
    // with this OpenSSL only embedded certificates serve as intermediates
    if (g.ok && !(names_clash && g.s) && !(g.s && !embed && !inter.empty())) {
      if (v.rc != (ssize_t)data.size() || v.content != data) failf(fmt("genuine-rejected:%s", g.k), "returns %zd (%zu signed); %s", v.rc, data.size(), info.c_str());
      else if (v.signers != std::vector<Bytes>{leaf.cert}) failf(fmt("signer-list:%s", g.k), "%zu signers; %s", v.signers.size(), info.c_str());
      count(fmt("genuine:%s", g.k));
    } else if (!g.ok) {
      if (v.rc >= 0) failf(fmt("untrusted-accepted:%s", g.k), "%s", info.c_str());
      count(fmt("refused:%s", g.k));
    }
    std::vector<Bytes> sv;
    if (g.s == store.l) sv = {top.cert};
    if (g.s == wrong_store.l) sv = {stranger.cert};
    if (g.s == mixed_store.l) sv = {stranger.cert, top.cert};
    acceptance(g.k, msg, v, g.c ? certs_v : std::vector<Bytes>(), g.s != nullptr, sv, info);
  }
  evaluated(h, true);
  if (want_sample()) sample(fmt("%s: signed %zu-byte message, verified with and without store, then attacked", info.c_str(), msg.size()));

  auto attack = [&](const char *kind, const Bytes &m, bool must_fail, bool with_store, bool use_certs = true) {
    if (m.empty() || m == msg) return;
    Verdict v = verify(m, use_certs ? certs.l : nullptr, with_store ? store.l : nullptr);
    if (must_fail && v.rc >= 0) failf(fmt("forgery-accepted:%s", kind), "%s store=%d message %s", info.c_str(), with_store, hex(m, 4000).c_str());
    acceptance(kind, m, v, use_certs ? certs_v : std::vector<Bytes>(), with_store, {top.cert}, info);
    if (v.rc >= 0 && !must_fail) {
      count(fmt("attack-accepted-harmless:%s", kind));
    }
    count(fmt("attack:%s", kind));
    evaluated(hash(m), true);
  };
  auto changed = [&](const char *kind, const Bytes &m, bool with_store) {
    // a changed message: if accepted at all, then with the signed content and the signer's key
    if (m.empty() || m == msg) return;
    Verdict v = verify(m, certs, with_store ? store.l : nullptr);
    acceptance(kind, m, v, certs_v, with_store, {top.cert}, info);
    if (v.rc >= 0) {
      count(fmt("changed-accepted-harmless:%s", kind));
      if (v.content != data) failf(fmt("altered-content:%s", kind), "accepted with content %s; %s", hex(v.content, 100).c_str(), info.c_str());
      if (v.signers.size() != 1 || !same_key(v.signers[0], leaf.cert)) failf(fmt("altered-signer:%s", kind), "accepted with %zu signers, other key; %s", v.signers.size(), info.c_str());
      else if (with_store && v.signers[0] != leaf.cert) failf(fmt("altered-signer-cert:%s", kind), "accepted with an altered signer certificate; %s", info.c_str());
    }
    count(fmt("changed:%s", kind));
    evaluated(hash(m), true);
  };

  Bytes data2 = data;
  data2[r.below(data2.size())] ^= (char)(1 << r.below(8));
  attack("content-replaced", replace(msg, data, data2), data.size() > 6, true);
  attack("content-replaced", replace(msg, data, data2), data.size() > 6, false);
  attack("content-other-length", with_content(msg, data + "x"), true, r.chance(1, 2));
  if (data.size() > 1) attack("content-shortened", with_content(msg, data.substr(0, data.size() - 1)), true, r.chance(1, 2));
  attack("content-emptied", with_content(msg, ""), true, r.chance(1, 2));
  Bytes other = cms_sign(data2, {{leaf.cert, lk}}, extra_v);
  attack("signature-of-other-content", with_signature(msg, signature_of(other)), true, r.chance(1, 2));
  attack("content-under-other-signature", with_content(other, data), true, r.chance(1, 2));
  Bytes forged = cms_sign(data2, {{imposter, 13}}, extra_v);
  attack("imposter-same-name-and-serial", forged, true, true, false);
  {
    // with the genuine certificate at hand the imposter's signature must not count for it
    List c2;
    c2.add(leaf.cert);
    Verdict v = verify(forged, c2, store);
    if (v.rc >= 0) failf("forgery-accepted:imposter-with-genuine-at-hand", "%s", info.c_str());
    v = verify(forged, c2, nullptr);
    acceptance("imposter-with-genuine-at-hand", forged, v, {leaf.cert}, false, {}, info);
    count("attack:imposter-with-genuine-at-hand");
  }
  attack("stranger", cms_sign(data2, {{stranger.cert, 12}}, extra_v), true, true);
  { // the genuine certificate in the message, the signature by another key
    Bytes f = cms_sign(data, {{leaf.cert, lk}}, extra_v), g = cms_sign(data, {{imposter, 13}}, extra_v);
    attack("foreign-signature", with_signature(f, signature_of(g)), true, r.chance(1, 2));
  }
  attack("no-signature", with_signature(msg, ""), true, r.chance(1, 2));
  { // two signers
    Bytes two = cms_sign(data, {{leaf.cert, lk}, {stranger.cert, 12}}, extra_v);
    if (!(stranger.cert == leaf.cert)) {
      Verdict v = verify(two, certs, nullptr);
      if (v.rc < 0) failf("two-signers-rejected", "%s", info.c_str());
      acceptance("two-signers", two, v, certs_v, false, {}, info);
      attack("two-signers-one-untrusted", two, true, true);
      attack("two-signers-first-bad", with_signature(two, signature_of(other)), true, false);
    }
  }
  { // no signers at all
    BIO *b = BIO_new_mem_buf(data.data(), (int)data.size());
    CMS_ContentInfo *c = CMS_sign(nullptr, nullptr, nullptr, b, CMS_BINARY | CMS_PARTIAL);
    X x(leaf.cert);
    CMS_add1_cert(c, x);
    CMS_final(c, b, nullptr, CMS_BINARY);
    Bytes m = der_cms(c);
    CMS_ContentInfo_free(c);
    BIO_free(b);
    attack("no-signers", m, true, true);
    attack("no-signers", m, true, false);
  }
  { // other content types
    BIO *b = BIO_new_mem_buf(data.data(), (int)data.size());
    CMS_ContentInfo *c = CMS_data_create(b, CMS_BINARY);
    if (c) { attack("plain-data", der_cms(c), true, r.chance(1, 2)); CMS_ContentInfo_free(c); }
    BIO_free(b);
    b = BIO_new_mem_buf(data.data(), (int)data.size());
    c = CMS_digest_create(b, EVP_sha256(), CMS_BINARY);
    if (c) { attack("digested-data", der_cms(c), true, r.chance(1, 2)); CMS_ContentInfo_free(c); }
    BIO_free(b);
    attack("detached", cms_sign(data, {{leaf.cert, lk}}, extra_v, CMS_BINARY | CMS_DETACHED), true, r.chance(1, 2));
  }
  if (depth >= 2) {
    // the intermediate replaced by one of the same name with another key, signed by nobody we trust
    Spec s;
    s.subject = cur.name;
    s.issuer = top.name;
    s.pub = 13;
    s.sig = 13;
    s.bc = "critical,CA:TRUE";
    Bytes fake = make_cert(s);
    Spec l;
    l.subject = leaf.name;
    l.issuer = cur.name;
    l.pub = 12;
    l.sig = 13;
    Bytes fl = make_cert(l);
    attack("forged-intermediate", cms_sign(data2, {{fl, 12}}, {fake}), true, true);
  }
  if (depth >= 1) {
    // a leaf below an unconstrained-less (not CA) genuine leaf
    Spec l;
    l.subject = cn("sub");
    l.issuer = leaf.name;
    l.pub = 12;
    l.sig = lk;
    std::vector<Bytes> ex = inter;
    ex.push_back(leaf.cert);
    if (leaf.name != cur.name) attack("leaf-as-ca", cms_sign(data2, {{make_cert(l), 12}}, ex), true, true);
    // outside its validity
    Spec e;
    e.subject = cn("late");
    e.issuer = cur.name;
    e.pub = 12;
    e.sig = cur.key;
    if (r.chance(1, 2)) { e.nb = -86400 * 20; e.na = -86400; } else { e.nb = 86400; e.na = 86400 * 20; }
    attack("signer-not-valid-now", cms_sign(data, {{make_cert(e), 12}}, inter), true, true);
  }
  // every kind of byte damage
  int flips = thorough() ? 400 : 60;
  for (int k = 0; k < flips; k++) {
    Bytes m = msg;
    size_t p = (size_t)r.below(m.size());
    if (data.size() > 500) { // mostly outside the payload
      size_t a = m.find(data);
      if (a != Bytes::npos && p >= a && p < a + data.size() && r.chance(3, 4)) p = r.chance(1, 2) ? r.below(a) : a + data.size() + r.below(m.size() - a - data.size());
    }
    switch (r.below(4)) {
    case 0: case 1: m[p] ^= (char)(1 << r.below(8)); changed("bit", m, r.chance(1, 2)); break;
    case 2: m[p] = (char)r.next(); changed("byte", m, r.chance(1, 2)); break;
    default: m = m.substr(0, p); if (!m.empty()) attack("truncated", m, true, r.chance(1, 2));
    }
  }
}

// sweep: every single bit of one message
static void sweep(Rng &r, long i) {
  (void)i;
  Node top = root("Root", 0, r);
  int lk = r.chance(1, 4) ? N_EC : 3;
  Node leaf = child(top, cn("leaf"), lk, false, r);
  Bytes data = "{\"ietf-voucher:voucher\":{\"serial-number\":\"" + std::to_string(r.below(100000)) + "\"}}";
  Bytes msg;
  if (do_sign(2, data, leaf.cert, key(lk).der, nullptr, msg) <= 0) { fail("sign-fails", "sweep"); return; }
  List store;
  store.add(top.cert);
  bool ws = r.chance(1, 2);
  long same = 0, tried = 0;
  size_t step = thorough() ? 1 : 3;
  for (size_t b = r.below(step); b < msg.size() * 8; b += step) {
    Bytes m = msg;
    m[b / 8] ^= (char)(1 << (b % 8));
    Verdict v = verify(m, nullptr, ws ? store.l : nullptr);
    tried++;
    if (v.rc >= 0) {
      same++;
      if (v.content != data) failf("altered-content:sweep", "bit %zu of %s", b, hex(msg, 3000).c_str());
      if (v.signers.size() != 1 || !same_key(v.signers[0], leaf.cert) || (ws && v.signers[0] != leaf.cert)) failf("altered-signer:sweep", "bit %zu store=%d of %s", b, ws, hex(msg, 3000).c_str());
      acceptance("sweep", m, v, {}, ws, {top.cert}, "sweep");
    }
    evaluated(hash(m), true);
  }
  count("sweep-bits", tried);
  count("sweep-accepted-harmless", same);
}

// vouchers through the voucher level functions
static void vouch(Rng &r, long i) {
  (void)i;
  bool rsa = r.chance(1, 6);
  int lk = rsa ? N_EC : 4;
  Node top = root("Root", 0, r), leaf = child(top, cn("leaf"), lk, false, r);
  ref::VoucherModel m = ref::rand_voucher(r);
  if (m.serial && m.serial->empty()) m.serial.reset();
  struct Voucher *v = init_voucher();
  if (!v || !put(v, m)) harness_error("put");
  Buf c(leaf.cert), k(key(lk).der);
  List ex, store, wrong;
  if (r.chance(1, 2)) ex.add(top.cert);
  store.add(top.cert);
  Node st = root("Stranger", 7, r);
  wrong.add(st.cert);
  int api = r.chance(1, 2) ? 2 : rsa ? 1 : 0;
  BinaryArray *cms = api == 0 ? sign_eccms_voucher(v, &c.a, &k.a, ex) : api == 1 ? sign_rsacms_voucher(v, &c.a, &k.a, ex) : sign_cms_voucher(v, &c.a, &k.a, ex);
  if (!cms) { fail("voucher-sign-fails", m.text()); free_voucher(v); return; }
  char *ser = serialize_voucher(v);
  Opened o = cms_open(str(cms));
  if (!o.ok || o.content != Bytes(ser)) fail("voucher-content", "the signed content is not the serialized voucher: " + m.text());
  free(ser);
  for (int st = 0; st < 3; st++) {
    BinaryArrayList *out = nullptr;
    bool wc = r.chance(1, 2);
    struct Voucher *w = verify_cms_voucher(cms, nullptr, st == 0 ? nullptr : st == 1 ? store.l : wrong.l, wc ? &out : nullptr);
    ERR_clear_error();
    if (st == 2) { if (w) fail("voucher-untrusted-accepted", m.text()); if (out) fail("voucher-certs-on-failure", m.text()); }
    else if (!w) fail("voucher-genuine-rejected", m.text());
    else {
      ref::VoucherModel g;
      std::string err;
      if (!get(w, g, err)) fail("voucher-getter", err);
      else if (!(g == m)) fail("voucher-differs", g.text() + " for " + m.text());
      if (wc && (!out || str_list(out) != std::vector<Bytes>{leaf.cert})) fail("voucher-signers", m.text());
    }
    free_voucher(w);
    free_array_list(out);
    count("voucher-verify");
  }
  // authentic content that is no voucher: no voucher, nothing left behind
  Bytes junk = r.chance(1, 2) ? r.bytes(r.range(1, 60)) : Bytes("{\"ietf-voucher:voucher\":{\"created-on\":\"x\"}}");
  Buf j(cms_sign(junk, {{leaf.cert, lk}}));
  BinaryArrayList *out = nullptr;
  struct Voucher *w = verify_cms_voucher(&j.a, nullptr, r.chance(1, 2) ? store.l : nullptr, &out);
  if (w) fail("junk-accepted", hex(junk));
  if (out) fail("junk-certs-left", "a failed verification leaves the signer list with the caller");
  free_voucher(w);
  free_array_list(out);
  count("voucher-junk");
  free_binary_array(cms);
  free_voucher(v);
  evaluated(hash(m.text()), true);
}

int main(int argc, char **argv) {
  init(argc, argv);
  if (!getenv("LOUD")) quiet();
  std::string mode = opt("mode", "messages");
  return run([&](Rng &r, long i) {
    if (mode == "messages") one(r, i);
    else if (mode == "sweep") sweep(r, i);
    else vouch(r, i);
  }, 50);
}
