// Damage to bytes, to DER structures and to text, from small to absurd.
#pragma once
#include "world.hpp"
namespace mutate {
using namespace world;

// ---- DER ---------------------------------------------------------------------------
struct Tlv {
  Bytes tag, content; // content of a primitive
  std::vector<Tlv> kids;
  bool nested = false; // has kids instead of content
  bool bits = false;   // a BIT STRING around kids
};
static bool der_parse(const Bytes &b, std::vector<Tlv> &out, int depth = 0) {
  size_t p = 0;
  while (p < b.size()) {
    Tlv t;
    size_t q = p;
    unsigned char id = (unsigned char)b[q++];
    if ((id & 31) == 31) { do { if (q >= b.size()) return false; } while ((unsigned char)b[q++] & 128); }
    t.tag = b.substr(p, q - p);
    if (q >= b.size()) return false;
    size_t len = (unsigned char)b[q++];
    if (len & 128) {
      size_t n = len & 127;
      if (!n || n > 4 || q + n > b.size()) return false;
      for (len = 0; n--;) len = len << 8 | (unsigned char)b[q++];
    }
    if (len > b.size() - q) return false;
    t.content = b.substr(q, len);
    if (depth < 40 && len) {
      bool inside = (id & 32) || id == 4;
      Bytes c = t.content;
      if (id == 3 && len > 1 && !c[0]) { c.erase(0, 1); inside = true; t.bits = true; }
      std::vector<Tlv> k;
      if (inside && der_parse(c, k, depth + 1) && !k.empty()) t.kids = k, t.nested = true, t.content.clear();
      else t.bits = false;
    }
    out.push_back(t);
    p = q + len;
  }
  return true;
}
static Bytes der_head(const Bytes &tag, size_t n) {
  Bytes b = tag;
  if (n < 128) return b + (char)n;
  Bytes l;
  for (size_t x = n; x; x >>= 8) l.insert(l.begin(), (char)x);
  return b + (char)(128 | l.size()) + l;
}
static Bytes der_text(const std::vector<Tlv> &v);
static Bytes der_text(const Tlv &t) {
  Bytes c = t.nested ? (t.bits ? Bytes(1, '\0') : Bytes()) + der_text(t.kids) : t.content;
  return der_head(t.tag, c.size()) + c;
}
static Bytes der_text(const std::vector<Tlv> &v) { Bytes b; for (auto &t : v) b += der_text(t); return b; }
static void der_all(std::vector<Tlv> &v, std::vector<std::pair<std::vector<Tlv> *, size_t>> &at) {
  for (size_t k = 0; k < v.size(); k++) { at.push_back({&v, k}); if (v[k].nested) der_all(v[k].kids, at); }
}
static const char *der_damage(std::vector<Tlv> &v, Rng &r) {
  std::vector<std::pair<std::vector<Tlv> *, size_t>> at;
  der_all(v, at);
  if (at.empty()) return "none";
  auto w = r.pick(at);
  std::vector<Tlv> &s = *w.first;
  Tlv &t = s[w.second];
  auto opaque = [&](const Bytes &c) { t.nested = t.bits = false; t.kids.clear(); t.content = c; };
  switch (r.below(14)) {
  case 0: s.erase(s.begin() + (long)w.second); return "element removed";
  case 1: { Tlv c = t; for (int n = r.chance(1, 10) ? (int)r.range(50, 400) : 1; n > 0; n--) s.insert(s.begin() + (long)w.second, c); return "element repeated"; }
  case 2: { size_t k = r.below(s.size()); std::swap(s[k], s[w.second]); return "elements exchanged"; }
  case 3: { auto o = r.pick(at); Tlv c = (*o.first)[o.second]; t = c; return "element copied"; }
  case 4: opaque(""); return "element emptied";
  case 5: opaque(r.bytes(r.range(1, 12))); return "content replaced";
  case 6: opaque(Bytes((size_t)(r.chance(1, 5) ? r.range(2000, 70000) : r.range(60, 400)), "\0\xff""A0 "[r.below(5)])); return "content enlarged";
  case 7: if (!t.nested && !t.content.empty()) t.content[r.below(t.content.size())] ^= (char)(1 << r.below(8)); else t.tag[0] ^= 1; return "bit of content";
  case 8: t.tag[0] = (char)r.below(256); if ((t.tag[0] & 31) == 31) t.tag[0] &= (char)~1; return "tag replaced";
  case 9: { static const unsigned char tags[] = {1, 2, 3, 4, 5, 6, 10, 12, 19, 20, 22, 23, 24, 28, 30, 48, 49, 160, 161, 128, 129, 163}; t.tag = Bytes(1, (char)tags[r.below(sizeof tags)]); return "type replaced"; }
  case 10: { Tlv c = t; t.nested = true, t.bits = false, t.tag = "\x30", t.kids = {c}; return "element wrapped"; }
  case 11: { int n = (int)r.range(2, r.chance(1, 20) ? 3000 : 60); Bytes x = der_text(t), tag(1, "\x30\x31\xa0\x24"[r.below(4)]); for (; n > 0; n--) x = der_head(tag, x.size()) + x; t.tag = tag; opaque(""); std::vector<Tlv> k; t.content = x; return "nested deeply"; }
  case 12: if (!t.nested) { size_t k = r.below(t.content.size() + 1); t.content.insert(k, r.chance(1, 2) ? Bytes(1, '\0') : r.bytes(r.range(1, 8))); } return "content inserted";
  default: if (!t.nested && !t.content.empty()) t.content.resize(r.below(t.content.size())); return "content cut";
  }
}
// ---- bytes and text ------------------------------------------------------------------
static Bytes bytes_damage(Bytes b, Rng &r, const std::vector<std::string> &words, int times) {
  for (; times > 0; times--) {
    size_t p = r.below(b.size() + 1), n = b.size() ? (size_t)r.range(1, std::min<long>((long)b.size(), r.chance(1, 4) ? 200 : 8)) : 0;
    switch (r.below(11)) {
    case 0: if (p < b.size()) b[p] ^= (char)(1 << r.below(8)); break;
    case 1: if (p < b.size()) b[p] = "\0\xff\x80\x7f\x01 \n\"\\=/-"[r.below(12)]; break;
    case 2: if (p < b.size()) b[p] = (char)r.below(256); break;
    case 3: if (p < b.size()) b.erase(p, n); break;
    case 4: b.insert(p, r.bytes(n ? n : 3)); break;
    case 5: if (p < b.size()) { Bytes c = b.substr(p, n); b.insert(r.below(b.size() + 1), c); } break;
    case 6: if (p < b.size()) { Bytes c = b.substr(p, n); for (int k = (int)r.range(1, r.chance(1, 8) ? 3000 : 30); k > 0 && b.size() < 300000; k--) b.insert(p, c); } break;
    case 7: b.resize(p); break;
    case 8: if (!words.empty()) b.insert(p, r.pick(words)); break;
    case 9: if (!words.empty() && p < b.size()) b.replace(p, n, r.pick(words)); break;
    default: if (p < b.size()) { Bytes c = b.substr(p, n); size_t q = r.below(b.size()); b.replace(q, std::min(n, b.size() - q), c); }
    }
  }
  return b;
}
static Bytes damaged_der(const Bytes &b, Rng &r, std::string *how = nullptr) {
  std::vector<Tlv> v;
  if (r.chance(1, 4) || !der_parse(b, v)) { if (how) *how = "bytes"; return bytes_damage(b, r, {}, (int)r.range(1, 4)); }
  for (int k = (int)r.range(1, r.chance(1, 3) ? 6 : 1); k > 0; k--) { const char *h = der_damage(v, r); if (how) *how = h; }
  return der_text(v);
}
static const std::vector<std::string> &json_words() {
  static const std::vector<std::string> w{"{", "}", "[", "]", "\"", ":", ",", "\\", "\\u0000", "\\ud800", "\\u00", "\\x", "null", "true", "false", "1e999999", "-0", "99999999999999999999999999", "0.00000001", "\"ietf-voucher:voucher\"",
                                          "\"serial-number\":", "\"nonce\":\"", "\"created-on\":\"", "\"assertion\":\"", "\"domain-cert-revocation-checks\":", "\"prior-signed-voucher-request\":\"", "\"\"", "{}", "[]", "//", "/*", "\xef\xbb\xbf", "\xff\xfe", "\xc0\x80", std::string(1, '\0'), std::string(5000, '['),
                                          std::string(3000, '{'), std::string(70000, 'A'), std::string(400, '9'), "\"2023-01-01T00:00:00Z\"", "%s%n", "=", "===="};
  return w;
}
static Bytes damaged_json(const Bytes &b, Rng &r) { return bytes_damage(b, r, json_words(), (int)r.range(1, r.chance(1, 3) ? 12 : 3)); }
static Bytes damaged_text(const Bytes &b, Rng &r, const std::vector<std::string> &words) { return bytes_damage(b, r, words, (int)r.range(1, r.chance(1, 3) ? 12 : 3)); }
static Bytes damaged_base64(const Bytes &der, Rng &r) {
  static const std::vector<std::string> w{"=", "==", "====", "\n", "\r\n", " ", "-", "_", "A", "AA", "AAA", "-----BEGIN CMS-----\n", std::string(1, '\0'), std::string(9000, '='), std::string(9000, '\n'), std::string(9000, '!')};
  return bytes_damage(ref::b64(der), r, w, (int)r.range(1, 3));
}
} // namespace mutate
