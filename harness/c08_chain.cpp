
// C08: certificate verification against lists and trust stores, judged by
// which signatures are real.
#include "pki.hpp"
#include "brski_c.hpp"
using namespace vh;
using namespace pki;

struct C { Bytes der; int parent = -1; int key; Name name; bool forged = false, altered = false, ca = true, self = false; std::string what; };

static void one(Rng &r, long i) {
  std::vector<C> cs;
  int nroots = (int)r.range(1, 3);
  auto newname = [&](int n) { return cn("N" + std::to_string(n)); };
  int n = (int)r.range(2, 8), uniq = 0;
  bool collide = r.chance(1, 2); // re-use names
  for (int k = 0; k < n; k++) {
    C c;
    c.key = (int)r.below(N_EC);
    if (r.chance(1, 10)) c.key = N_EC + (int)r.below(N_RSA);
    c.name = newname(collide && r.chance(1, 3) ? (int)r.below(3) : 100 + uniq++);
    Spec s;
    s.serial = r.next() >> 1;
    s.subject = c.name;
    s.pub = c.key;
    if (k < nroots || r.chance(1, 10)) {
      c.self = true;
      s.issuer = c.name;
      s.sig = c.key;
      s.bc = "critical,CA:TRUE";
      c.what = "root";
    } else {
      c.parent = (int)r.below(k);
      const C &p = cs[c.parent];
      s.issuer = p.name;
      s.sig = p.key;
      c.ca = r.chance(2, 3);
      s.bc = c.ca ? "critical,CA:TRUE" : r.chance(1, 2) ? "CA:FALSE" : "";
      c.what = "child of " + std::to_string(c.parent);
      if (r.chance(1, 5)) { // names its parent, but signed by somebody else
        do s.sig = (int)r.below(N_EC); while (s.sig == p.key);
        c.forged = true;
        c.what += " (forged)";
      }
    }
    c.der = make_cert(s);
    if (!c.self && !c.forged && r.chance(1, 8)) { // altered after signing
      X x(c.der);
      Bytes old = c.der;
      for (int t = 0; t < 20; t++) {
        Bytes m = old;
        // inside the serial number or the subject: still a certificate of the same shape
        size_t at = m.find(c.name[0].second, m.find(c.name[0].second) + 1);
        (void)at;
        size_t p = (size_t)r.below(m.size());
        m[p] ^= (char)(1 << r.below(8));
        X y(m);
        if (y.x && der_cert(y) == m && !signed_by(m, cs[c.parent].der) && X509_NAME_cmp(X509_get_issuer_name(y), X509_get_issuer_name(x)) == 0) {
          c.der = m;
          c.altered = true;
          c.what += " (altered)";
          break;
        }
      }
    }
    cs.push_back(c);
  }
  bool again = r.chance(1, 2);
  for (int t = 0; t < 6; t++) {
    int target = (int)r.below(n);
    std::vector<Bytes> certs, store;
    std::string info = "target " + std::to_string(target) + " certs";
    // lists: the true ancestors and others, in any order
    std::vector<int> anc;
    for (int p = cs[target].parent; p >= 0; p = cs[p].parent) anc.push_back(p);
    std::vector<int> cl, sl;
    int mode = (int)r.below(6);
    bool with_store = r.chance(1, 2), crl_null = false;
    (void)crl_null;
    if (mode <= 2) { // complete chain, plus noise
      for (size_t k = 0; k < anc.size(); k++) {
        if (with_store && k + 1 == anc.size()) sl.push_back(anc[k]);
        else cl.push_back(anc[k]);
      }
      if (anc.empty()) (with_store ? sl : cl).push_back(target);
      for (int k = (int)r.below(3); k > 0; k--) { int o = (int)r.below(n); if (o != target || r.chance(1, 2)) ((with_store && r.chance(1, 2)) ? sl : cl).push_back(o); }
    } else if (mode == 3) { // one link missing
      for (size_t k = 0; k < anc.size(); k++) (with_store && k + 1 == anc.size() ? sl : cl).push_back(anc[k]);
      std::vector<int> &w = (!cl.empty() && (sl.empty() || r.chance(1, 2))) ? cl : sl;
      if (!w.empty()) w.erase(w.begin() + (long)r.below(w.size()));
    } else
      for (int k = 0; k < n; k++) if (r.chance(1, 2)) ((with_store && r.chance(1, 2)) ? sl : cl).push_back(k);
    for (size_t k = cl.size(); k > 1; k--) std::swap(cl[k - 1], cl[r.below(k)]);
    for (size_t k = sl.size(); k > 1; k--) std::swap(sl[k - 1], sl[r.below(k)]);
    List L, S;
    L.empty();
    if (with_store) S.empty();
    for (int k : cl) { certs.push_back(cs[k].der); L.add(cs[k].der); info += " " + std::to_string(k); }
    if (with_store) info += " store";
    for (int k : sl) { store.push_back(cs[k].der); S.add(cs[k].der); info += " " + std::to_string(k); }
    Buf b(cs[target].der);
    static Recycled RL, RS;
    static std::vector<uint8_t> same(65536);
    int rc;
    if (again) { // lists and certificate at the addresses of the verifications before
      memcpy(same.data(), b.a.array, b.a.length);
      rc = crypto_verify_cert(same.data(), b.a.length, RL.as(L), RS.as(with_store ? S.l : nullptr));
      count("recycled-lists");
    } else rc = crypto_verify_cert(b.a.array, b.a.length, L, with_store ? S.l : nullptr);
    ERR_clear_error();
    std::string all = info + " of";
    for (int k = 0; k < n; k++) all += fmt(" %d=%s:%s", k, cs[k].name[0].second.c_str(), cs[k].what.c_str());
    bool chain = chain_exists(cs[target].der, certs, with_store ? store : certs);
    if (!chain) {
      if (rc >= 0) failf(with_store ? "unchained-accepted-store" : "unchained-accepted", "%s; target %s", all.c_str(), hex(cs[target].der, 2000).c_str());
      bool named = false; // somebody supplied is named as issuer
      for (auto *v : {&certs, &store})
        for (auto &d : *v) { X x(d), y(cs[target].der); if (X509_NAME_cmp(X509_get_subject_name(x), X509_get_issuer_name(y)) == 0) named = true; }
      count(named ? "refused:look-alike-or-broken" : "refused:unrelated");
    } else {
      // must be accepted when nothing makes the path ambiguous and it is a proper CA path
      bool clear = true;
      std::set<Bytes> seen_der;
      std::map<Bytes, Bytes> by_name;
      by_name[cs[target].name[0].second] = cs[target].der;
      for (auto *v : {&cl, &sl})
        for (int k : *v) {
          if (by_name.count(cs[k].name[0].second) && by_name[cs[k].name[0].second] != cs[k].der) clear = false;
          by_name[cs[k].name[0].second] = cs[k].der;
          if (cs[k].altered) clear = false;
        }
      // walk the true path
      int p = target, depth = 0;
      bool to_root = false;
      auto has = [](const std::vector<int> &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); };
      while (clear) {
        if (cs[p].forged || cs[p].altered) { clear = false; break; }
        if (with_store && has(sl, p)) { to_root = cs[p].self; break; }
        if (!with_store && p == target && has(cl, p) && cs[p].self) { to_root = true; break; }
        int q = cs[p].parent;
        if (q < 0 || !(has(cl, q) || has(sl, q))) { to_root = !with_store && depth > 0; break; }
        if (!cs[q].ca) { clear = false; break; }
        p = q;
        depth++;
      }
      if (clear && to_root) {
        if (rc < 0) failf(with_store ? "genuine-rejected-store" : "genuine-rejected", "%s", all.c_str());
        count(fmt("accepted:%s:depth%d", with_store ? "store" : "list", depth));
      } else count("chained-but-unspecified");
    }
    evaluated(hash(all), true);
    if (want_sample()) sample(all + fmt(" -> %d", rc));
  }
  // unusable arguments
  if (i % 16 == 0) {
    List L, bad, E;
    L.add(cs[0].der);
    E.empty();
    bad.add(r.bytes(60));
    Buf b(cs[0].der), g(r.bytes(100)), cut(cs[0].der.substr(0, cs[0].der.size() - 1));
    if (crypto_verify_cert(nullptr, 0, L, nullptr) >= 0) fail("null-accepted", "NULL certificate");
    if (crypto_verify_cert(b.a.array, b.a.length, nullptr, L) >= 0) fail("null-accepted", "NULL list");
    if (crypto_verify_cert(g.a.array, g.a.length, L, L) >= 0 || crypto_verify_cert(g.a.array, g.a.length, L, nullptr) >= 0) fail("garbage-accepted", "certificate");
    if (crypto_verify_cert(cut.a.array, cut.a.length, L, L) >= 0 || crypto_verify_cert(cut.a.array, cut.a.length, L, nullptr) >= 0) fail("garbage-accepted", "cut certificate");
    if (crypto_verify_cert(b.a.array, b.a.length, bad, L) >= 0 || crypto_verify_cert(b.a.array, b.a.length, L, bad) >= 0) fail("garbage-accepted", "list");
    if (crypto_verify_cert(b.a.array, b.a.length, E, nullptr) >= 0) fail("empty-accepted", "no certificates at all");
    if (crypto_verify_cert(b.a.array, b.a.length, L, E) >= 0) fail("empty-accepted", "empty trust store");
    ERR_clear_error();
    count("bad-arguments");
  }
}
int main(int argc, char **argv) {
  init(argc, argv);
  if (!getenv("LOUD")) quiet_log();
  return run([&](Rng &r, long i) { one(r, i); }, 100);
}
