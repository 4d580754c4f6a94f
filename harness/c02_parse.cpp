// C02: the parser's verdict and values against the reference judge.
#include "vmodel.hpp"
#include <algorithm>
using namespace vh;
using namespace ref;

static void check(const Bytes &doc, int expect, const char *kind) {
  VoucherModel m;
  std::string why;
  int j = judge(doc, m, &why);
  if (expect != -2 && j != expect) harness_error("generator/judge disagree (%s): judge %d (%s) on %s", kind, j, why.c_str(), printable(doc).c_str());
  Buf in(doc);
  struct Voucher *v = deserialize_voucher(in.a.array, in.a.length);
  count(std::string(j == 1 ? "must_accept:" : j == 0 ? "must_reject:" : "unspecified:") + (j == 1 ? kind : why));
  evaluated(hash(doc), j != -1);
  if (j == 1) {
    if (!v) fail("valid-rejected", fmt("%s: %s", kind, printable(doc).c_str()));
    else {
      VoucherModel g;
      std::string err;
      if (!get(v, g, err)) fail("getter", err + printable(doc));
      else if (!(g == m)) fail("wrong-values", "parsed as " + g.text() + ", document " + printable(doc));
    }
  } else if (j == 0 && v) {
    VoucherModel g;
    std::string err;
    get(v, g, err);
    fail("accepted:" + why, fmt("%s: accepted as %s: %s", kind, g.text().c_str(), printable(doc).c_str()));
  } else if (j == -1 && v) { // whatever it is, the object has to be sound
    VoucherModel g;
    std::string err;
    if (!get(v, g, err)) fail("getter", err + printable(doc));
    char *s = serialize_voucher(v);
    free(s);
  }
  free_voucher(v);
}

static Bytes corrupt_name(Rng &r, const Bytes &n) {
  switch (r.below(8)) {
  case 0: return n.substr(0, r.below(n.size()));
  case 1: return n + "x";
  case 2: return n.substr(1);
  case 3: { Bytes x = n; size_t p = r.below(n.size()); x[p] = x[p] == 'q' ? 'w' : 'q'; return x; }
  case 4: { Bytes x = n; x[r.below(n.size())] ^= 0x20; if (x.find_first_of(Bytes("\"\\\0\r\n\x1a\x1f", 7)) != Bytes::npos) return n + "-"; return x; }
  case 5: return n + " ";
  case 6: return "";
  default: return " " + n;
  }
}
static bool is_name(const Bytes &n) {
  for (int i = 0; i < NATTR; i++) if (n == ATTR_NAMES[i]) return true;
  return false;
}

static void one(Rng &r, long i) {
  VoucherModel m = rand_voucher(r);
  auto mem = members(m, r);
  const Bytes root = "ietf-voucher:voucher";
  int kind = (int)(i % 16);
  switch (kind) {
  case 0: case 1: case 2:
    check(render_root(root, render_members(mem, r), r), 1, "well-formed");
    break;
  case 3: { // root name near misses
    static const std::vector<Bytes> names = {"", "i", "ietf", "ietf-voucher", "ietf-voucher:", "ietf-voucher:vouche", "ietf-voucher:vouchers", "ietf-voucher:voucher ",
                                             "ietf-voucher-request:voucher", "voucher", "Ietf-voucher:voucher", "ietf-voucher:Voucher", "ietf-voucher.voucher"};
    Bytes n = r.chance(1, 2) ? r.pick(names) : corrupt_name(r, root);
    if (n == root) n = "ietf";
    check(render_root(n, render_members(mem, r), r), 0, "root-name");
    break;
  }
  case 4: { // unknown attribute
    Bytes n;
    do n = corrupt_name(r, ATTR_NAMES[r.below(NATTR)]); while (is_name(n));
    static const std::vector<Bytes> vals = {"\"x\"", "true", "\"2023-01-01T00:00:00Z\"", "\"AAAA\"", "\"verified\""};
    mem.insert(mem.begin() + (long)r.below(mem.size() + 1), {n, r.pick(vals)});
    check(render_root(root, render_members(mem, r), r), 0, "unknown-attribute");
    break;
  }
  case 5: { // unknown assertion
    mem.erase(std::remove_if(mem.begin(), mem.end(), [](const std::pair<Bytes, Bytes> &x) { return x.first == "assertion"; }), mem.end());
    static const std::vector<Bytes> vals = {"", "none", "v", "verifie", "verifiedx", "Verified", "LOGGED", "prox", "proximity ", " logged", "logged,verified", "0", "1", "3"};
    mem.insert(mem.begin() + (long)r.below(mem.size() + 1), {"assertion", "\"" + r.pick(vals) + "\""});
    check(render_root(root, render_members(mem, r), r), 0, "assertion");
    break;
  }
  case 6: { // malformed date
    int a = (int)std::vector<int>{A_CREATED, A_EXPIRES, A_RENEWAL}[r.below(3)];
    mem.erase(std::remove_if(mem.begin(), mem.end(), [&](const std::pair<Bytes, Bytes> &x) { return x.first == ATTR_NAMES[a]; }), mem.end());
    Bytes d = rand_date(r).text();
    switch (r.below(9)) {
    case 0: d = d.substr(0, r.below(d.size())); break;
    case 1: d += "x"; break;
    case 2: d += Bytes((size_t)r.range(50, 90), '0'); break;
    case 3: d[10] = ' '; break;
    case 4: d.replace(5, 2, r.chance(1, 2) ? "13" : "00"); break;
    case 5: d.replace(8, 2, r.chance(1, 2) ? "32" : "00"); break;
    case 6: d.replace(11, 2, "25"); break;
    case 7: d = ""; break;
    default: d[r.below(d.size())] = "x?!Q"[r.below(4)];
    }
    mem.insert(mem.begin() + (long)r.below(mem.size() + 1), {ATTR_NAMES[a], "\"" + d + "\""});
    check(render_root(root, render_members(mem, r), r), 0, "date");
    break;
  }
  case 7: { // malformed boolean
    mem.erase(std::remove_if(mem.begin(), mem.end(), [&](const std::pair<Bytes, Bytes> &x) { return x.first == ATTR_NAMES[A_REVCHECK]; }), mem.end());
    static const std::vector<Bytes> vals = {"null", "\"truetrue\"", "\"falsey\"", "12", "-1", "\"yesyes\"", "1.5"};
    mem.insert(mem.begin() + (long)r.below(mem.size() + 1), {ATTR_NAMES[A_REVCHECK], r.pick(vals)});
    check(render_root(root, render_members(mem, r), r), 0, "boolean");
    break;
  }
  case 8: { // malformed base64
    int a = (int)std::vector<int>{A_ISSUER, A_PINNED, A_NONCE, A_PRIOR, A_PROXIMITY}[r.below(5)];
    mem.erase(std::remove_if(mem.begin(), mem.end(), [&](const std::pair<Bytes, Bytes> &x) { return x.first == ATTR_NAMES[a]; }), mem.end());
    Bytes t;
    switch (r.below(4)) {
    case 0: t = ""; break;
    case 1: t = Bytes((size_t)r.range(1, 9), "!?-_* "[r.below(6)]); break;
    case 2: t = b64(r.bytes(3 * (size_t)r.below(20))) + Bytes(1, B64[r.below(64)]); break;
    default: { t = b64(r.bytes(3 * (size_t)r.below(3))); t.insert(r.below(t.size() + 1), "\\n"); t += Bytes(1, B64[r.below(64)]); }
    }
    mem.insert(mem.begin() + (long)r.below(mem.size() + 1), {ATTR_NAMES[a], "\"" + t + "\""});
    check(render_root(root, render_members(mem, r), r), 0, "base64");
    break;
  }
  case 9: { // not a plain scalar
    int a = (int)r.below(NATTR);
    Bytes inner;
    for (auto &x : mem) if (x.first == ATTR_NAMES[a]) inner = x.second;
    mem.erase(std::remove_if(mem.begin(), mem.end(), [&](const std::pair<Bytes, Bytes> &x) { return x.first == ATTR_NAMES[a]; }), mem.end());
    if (inner.empty()) inner = is_time(a) ? "\"2023-01-01T00:00:00Z\"" : a == A_ASSERTION ? "\"verified\"" : a == A_REVCHECK ? "true" : "\"AAAA\"";
    Bytes val;
    switch (r.below(6)) {
    case 0: val = "[" + inner + "]"; break;
    case 1: val = "{\"" + Bytes(ATTR_NAMES[a]) + "\":" + inner + "}"; break;
    case 2: val = "{}"; break;
    case 3: val = "[]"; break;
    case 4: val = "[\"serial-number\",\"evil\"]"; break;
    default: val = "{\"serial-number\":\"evil\"}";
    }
    mem.insert(mem.begin() + (long)r.below(mem.size() + 1), {ATTR_NAMES[a], val});
    check(render_root(root, render_members(mem, r), r), 0, "non-scalar");
    break;
  }
  case 10: { // over-long serial number
    mem.erase(std::remove_if(mem.begin(), mem.end(), [&](const std::pair<Bytes, Bytes> &x) { return x.first == ATTR_NAMES[A_SERIAL]; }), mem.end());
    size_t n = r.chance(1, 3) ? 128 : (size_t)r.range(128, 2000);
    mem.insert(mem.begin() + (long)r.below(mem.size() + 1), {ATTR_NAMES[A_SERIAL], "\"" + Bytes(n, 'a') + "\""});
    check(render_root(root, render_members(mem, r), r), 0, "long-serial");
    // and the longest one that is allowed
    for (auto &x : mem) if (x.first == ATTR_NAMES[A_SERIAL]) x.second = "\"" + Bytes(127, 'a') + "\"";
    check(render_root(root, render_members(mem, r), r), 1, "longest-serial");
    break;
  }
  case 11: { // every proper prefix
    if (mem.size() > 3) mem.resize(3);
    for (auto &x : mem) if (x.second.size() > 300) x.second = "\"AAAA\"";
    for (auto &x : mem) if (x.first == ATTR_NAMES[A_SERIAL]) x.second = "\"" + Bytes(12, '1') + "\"";
    Bytes d = render_root(root, render_members(mem, r), r);
    while (d.back() != '}') d.pop_back();
    for (size_t n = 0; n < d.size(); n++) {
      Bytes p = d.substr(0, n);
      Buf in(p);
      struct Voucher *v = deserialize_voucher(in.a.array, in.a.length);
      if (v) fail("accepted:cut-short", fmt("prefix of %zu of %zu bytes accepted: %s", n, d.size(), printable(p).c_str()));
      free_voucher(v);
      evaluated(hash(p), true);
      count("must_reject:prefix");
    }
    break;
  }
  case 12: { // the root is not where it has to be, or is no object
    static const std::vector<Bytes> docs = {"[]", "{}", "\"ietf-voucher:voucher\"", "true", "1", "null", "[{\"ietf-voucher:voucher\":{}}]",
      "{\"a\":{\"ietf-voucher:voucher\":{}}}", "{\"a\":[\"ietf-voucher:voucher\",{}]}", "{\"ietf-voucher:voucher\":[]}", "{\"ietf-voucher:voucher\":null}",
      "{\"ietf-voucher:voucher\":\"\"}", "{\"ietf-voucher:voucher\":\"{}\"}", "{\"ietf-voucher:voucher\":true}", "{\"a\":\"ietf-voucher:voucher\",\"b\":{}}",
      "{\"ietf-voucher:voucher\":[{}]}", "{\"x\":{\"y\":{\"ietf-voucher:voucher\":{\"serial-number\":\"1\"}}}}"};
    Bytes child = render_members(mem, r);
    switch (r.below(4)) {
    case 0: check(r.pick(docs), 0, "root-position"); break;
    case 1: check("{\"data\":{\"ietf-voucher:voucher\":" + child + "}}", 0, "root-position"); break;
    case 2: check("[{\"ietf-voucher:voucher\":" + child + "}]", 0, "root-position"); break;
    default: check("{\"x\":\"ietf-voucher:voucher\",\"y\":" + child + "}", 0, "root-position");
    }
    break;
  }
  default: { // random damage, judged by the reference
    Bytes d = render_root(root, render_members(mem, r), r);
    int n = (int)r.range(1, 4);
    static const std::vector<Bytes> tok = {"{", "}", "[", "]", ":", ",", "\"", "\\", "null", "true", "{}", "\"\"", "\\u0000", "\\u00e9", "\\ud83d\\ude00", " ", "0", "ietf-voucher:voucher"};
    while (n--) {
      size_t p = r.below(d.size() + 1);
      switch (r.below(6)) {
      case 0: d.insert(p, r.pick(tok)); break;
      case 1: if (p < d.size()) d.erase(p, (size_t)r.range(1, 8)); break;
      case 2: if (p < d.size()) d[p] = (char)r.range(32, 126); break;
      case 3: if (p < d.size()) d[p] = (char)r.next(); break;
      case 4: { size_t q = r.below(d.size() + 1); if (q > p && q - p < 600) d.insert(p, d.substr(p, q - p)); break; }
      default: { size_t q = d.find('"', p); if (q != Bytes::npos) d.insert(q + 1, Bytes(1, (char)r.range(32, 126))); }
      }
      if (d.empty()) d = "{";
    }
    check(d, -2, "damaged");
  }
  }
  if (i % 700 == 3 && want_sample()) sample("kind " + std::to_string(kind) + " from " + m.text());
}
int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  return run(one, 500);
}
