// C12: what vouchers a pledge accepts.
#include "world.hpp"
using namespace world;

struct Relation { Bytes pinned, reg; int ok; std::string what; bool has_pinned = true; };
static Bytes spec_cert(const Name &subj, const Name &iss, int pub, int sig, const char *bc, Rng &r) {
  Spec s;
  s.subject = subj;
  s.issuer = iss;
  s.pub = pub;
  s.sig = sig;
  s.bc = bc;
  s.serial = r.next() >> 1;
  return make_cert(s);
}
static Relation relation(const Party &dom, const Party &faked, const Party &other, Rng &r) {
  Relation x;
  x.reg = dom.leaf.cert;
  const Node &issuer = dom.has_inter ? dom.inter : dom.root, &fi = faked.has_inter ? faked.inter : faked.root;
  switch (r.chance(1, 2) ? 0 : (int)r.below(12)) {
  case 0: x.pinned = issuer.cert; x.ok = 1; x.what = dom.has_inter ? "pinned intermediate" : "pinned root"; break;
  case 1: x.reg = x.pinned = dom.root.cert; x.ok = 1; x.what = "pinned self-signed registrar"; break;
  case 2: x.pinned = dom.leaf.cert; x.ok = -1; x.what = "pinned registrar itself"; break;
  case 3: x.pinned = fi.cert; x.ok = 0; x.what = "pinned look-alike"; break;
  case 4: x.pinned = other.root.cert; x.ok = 0; x.what = "pinned unrelated"; break;
  case 5: x.pinned = near_blob(issuer.cert, r); x.ok = chain_exists(x.reg, {}, {x.pinned}) ? -1 : 0; x.what = "pinned damaged"; break;
  case 6: x.pinned = r.bytes(r.range(1, 100)); x.ok = 0; x.what = "pinned garbage"; break;
  case 7: x.has_pinned = false; x.ok = 0; x.what = "nothing pinned"; break;
  case 8: x.pinned = issuer.cert; x.reg = spec_cert(dom.leaf.name, issuer.name, dom.leaf.key, 9, "CA:FALSE", r); x.ok = 0; x.what = "registrar certificate signed by somebody else"; break;
  case 9: x.pinned = issuer.cert; x.reg = faked.leaf.cert; x.ok = 0; x.what = "registrar of a look-alike domain"; break;
  case 10: x.pinned = issuer.cert; x.reg = other.leaf.cert; x.ok = 0; x.what = "foreign registrar"; break;
  case 11:
    if (dom.has_inter) { x.pinned = dom.root.cert; x.ok = 0; x.what = "pinned root, intermediate unknown"; }
    else { x.pinned = dom.root.cert; x.reg = dom.leaf.cert; x.reg[x.reg.size() - 1] ^= 1; x.ok = 0; x.what = "registrar certificate altered"; }
    break;
  }
  return x;
}

static void one(Rng &r, long) {
  uint64_t h = r.s;
  Party masa = party("Masa", 6, r.chance(1, 2), r, cn("masa"));
  Party dom = party("Domain", 3, r.chance(1, 2), r, cn("registrar"));
  Party other = party("Other", 10, r.chance(1, 2), r, cn("other"));
  Party fakem = impostor(masa, 9, r), faked = impostor(dom, 13, r);
  Bytes serial = plain_serial(r), nonce = r.bytes(r.range(1, 40));
  bool sent_nonce = r.chance(3, 4);
  Relation rel = relation(dom, faked, other, r);
  std::string how, show;
  VoucherModel m;
  m.time[ref::A_EXPIRES] = ref::rand_date(r);
  m.time[ref::A_EXPIRES].y = 9000; // whether it has expired is not the question here
  m.serial = serial;
  m.assertion = 3;
  if (rel.has_pinned) m.array[ref::A_PINNED] = rel.pinned;
  if (sent_nonce || r.chance(1, 4)) m.array[ref::A_NONCE] = nonce;
  if (r.chance(1, 3))
    switch (r.below(10)) {
    case 0: m.serial.reset(); how = "no serial"; break;
    case 1: m.serial = near(serial, r); how = "near serial"; break;
    case 2: m.serial = plain_serial(r); how = "other serial"; break;
    case 3: m.array.erase(ref::A_NONCE); how = "no nonce"; break;
    case 4: m.array[ref::A_NONCE] = near_blob(nonce, r); how = "near nonce"; break;
    case 5: m.array[ref::A_NONCE] = r.bytes(nonce.size()); how = "other nonce"; break;
    case 6: m.assertion = (int)r.below(3); how = "other assertion"; break;
    case 7: m.revcheck = true; m.array[ref::A_ISSUER] = r.bytes(10); m.time[ref::A_CREATED] = ref::rand_date(r); how = "more attributes"; break;
    case 8: m.array[ref::A_PROXIMITY] = rel.reg; how = "proximity certificate"; break;
    case 9: m.array[ref::A_NONCE] = nonce + Bytes(1, '\0'); how = "nonce with trailing zero"; break;
    }
  Bytes doc = doc_of(m, r);
  if (r.chance(1, 10)) doc = spoil(doc, r, how);
  Bytes msg = sign_somehow(doc, masa, fakem, other, r, show, 4);
  Trust t;
  make_trust(t, masa, fakem, other, r);
  // what the pledge knows about domains
  Trust ds;
  int dsok = 1;
  if (r.chance(1, 3)) {
    ds.has_store = true;
    switch (r.below(5)) {
    case 0: case 1: ds.store = {dom.root.cert}; ds.what = "domain root"; break;
    case 2: ds.store = {other.root.cert}; ds.what = "another root"; break;
    case 3: ds.store = {faked.root.cert}; ds.what = "look-alike domain root"; break;
    case 4: ds.store = {other.root.cert, dom.root.cert}; ds.what = "two roots"; break;
    }
    ds.build();
    if (!chain_exists(rel.reg, rel.has_pinned ? std::vector<Bytes>{rel.pinned} : std::vector<Bytes>{}, ds.store)) dsok = 0;
  }
  std::string info = fmt("voucher (%s) %s, trusted by %s; %s; domain store: %s; nonce %s", how.c_str(), show.c_str(), t.what.c_str(), rel.what.c_str(), ds.has_store ? ds.what.c_str() : "none", sent_nonce ? "sent" : "not sent");

  Opened o;
  std::string why;
  VoucherModel g;
  int want = trusts(t, msg, o, why);
  if (want) {
    int j = ref::judge(o.content, g, &why);
    if (j < 1) want = j;
    if (j) {
      auto no = [&](const char *w) { want = 0; why = w; };
      if (!g.serial) no("no serial");
      else if (*g.serial != serial) no("serial differs");
      if (sent_nonce) {
        auto p = g.array.find(ref::A_NONCE);
        if (p == g.array.end()) no("no nonce");
        else if (p->second != nonce) no("nonce differs");
      }
      auto p = g.array.find(ref::A_PINNED);
      if (p == g.array.end()) no("nothing pinned");
      else if (p->second == rel.pinned) {
        if (!rel.ok) no(rel.what.c_str());
        else if (rel.ok < 0 && want) want = -1;
      } else if (!chain_exists(rel.reg, {}, {p->second})) no("pinned differs");
      else if (want) want = -1;
      if (want && !dsok) no("domain store does not vouch");
      else if (want > 0 && ds.has_store && ds.what == "look-alike domain root") want = -1;
    }
  }
  Buf bm(msg), bn(nonce), br(rel.reg), junk(r.bytes(40));
  std::vector<char> ser(serial.begin(), serial.end());
  ser.push_back(0);
  const BinaryArray *mp = &bm.a, *rp = &br.a;
  const char *sp = ser.data();
  BinaryArray empty{};
  if (r.chance(1, 12)) {
    int f = (int)r.below(5);
    switch (f) {
    case 0: mp = nullptr; break;
    case 1: sp = nullptr; break;
    case 2: rp = nullptr; break;
    case 3: rp = &empty; break;
    case 4: rp = &junk.a; break;
    }
    want = 0;
    why = fmt("own part %d unusable", f);
  }
  BinaryArray pinned{};
  BinaryArrayList *out = nullptr;
  bool want_out = r.chance(1, 2);
  int rc = verify_masa_pledge_voucher(mp, sp, sent_nonce ? &bn.a : nullptr, rp, ds.S(), t.C(), t.S(), want_out ? &out : nullptr, &pinned);
  ERR_clear_error();
  evaluated(h, true);
  if (want_sample()) sample(info + (want == 1 ? " -> accepted" : " -> refused: " + why));
  if (rc < 0) {
    if (pinned.array || pinned.length) failf("pinned-on-failure", "a refused voucher leaves %zu bytes of pinned certificate with the caller; %s", pinned.length, info.c_str());
    if (out) failf("certs-on-failure", "a refused voucher leaves a certificate list with the caller; %s", info.c_str());
    if (want == 1) failf("genuine-refused", "%s", info.c_str());
    count(want == 0 ? "refused:" + why : "open");
  } else {
    if (want == 0) failf("accepted:" + why, "a voucher was accepted although: %s (%s)", why.c_str(), info.c_str());
    else {
      if (str(&pinned) != g.array[ref::A_PINNED]) failf("pinned-wrong", "%zu bytes handed out, not the pinned certificate; %s", pinned.length, info.c_str());
      if (want_out && sorted(str_list(out)) != sorted(o.signers)) failf("signers-wrong", "%zu certificates handed out, %zu signers; %s", str_list(out).size(), o.signers.size(), info.c_str());
    }
    count(want == 1 ? "accepted:" + rel.what : "open");
  }
  free(pinned.array);
  free_array_list(out);
}
int main(int argc, char **argv) {
  init(argc, argv);
  if (!getenv("LOUD")) quiet_log();
  return run(one, 100);
}
