// Independent reference implementations the monitors compare with: a strict
// RFC 8259 parser, RFC 4648 base64, proleptic Gregorian dates, and the voucher
// model of RFC 8366.
#pragma once
#include <map>
#include <optional>
#include <string>
#include <vector>
#include "vh.hpp"

namespace ref {
using vh::Bytes;
using vh::Rng;

// ---- JSON ----------------------------------------------------------------
struct Json {
  enum T { Null, Bool, Num, Str, Arr, Obj } t = Null;
  bool b = false;
  Bytes s; // string value (unescaped) or number text
  std::vector<Json> a;
  std::vector<std::pair<Bytes, Json>> o;
};
struct JsonParser {
  const Bytes &d;
  size_t p = 0;
  int depth = 0;
  bool escaped_key = false;
  explicit JsonParser(const Bytes &x) : d(x) {}
  void ws() { while (p < d.size() && (d[p] == ' ' || d[p] == '\t' || d[p] == '\n' || d[p] == '\r')) p++; }
  bool lit(const char *w) {
    size_t n = strlen(w);
    if (d.compare(p, n, w) != 0) return false;
    p += n;
    return true;
  }
  static void utf8(Bytes &o, unsigned c) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
  }
  bool hex4(unsigned &v) {
    v = 0;
    for (int i = 0; i < 4; i++) {
      if (p >= d.size()) return false;
      char c = d[p++];
      v <<= 4;
      if (c >= '0' && c <= '9') v |= c - '0';
      else if (c >= 'a' && c <= 'f') v |= c - 'a' + 10;
      else if (c >= 'A' && c <= 'F') v |= c - 'A' + 10;
      else return false;
    }
    return true;
  }
  bool str(Bytes &o) {
    if (p >= d.size() || d[p] != '"') return false;
    p++;
    while (p < d.size()) {
      unsigned char c = d[p++];
      if (c == '"') return true;
      if (c < 0x20) return false;
      if (c != '\\') { o += (char)c; continue; }
      if (p >= d.size()) return false;
      c = d[p++];
      switch (c) {
      case '"': case '\\': case '/': o += (char)c; break;
      case 'b': o += '\b'; break;
      case 'f': o += '\f'; break;
      case 'n': o += '\n'; break;
      case 'r': o += '\r'; break;
      case 't': o += '\t'; break;
      case 'u': {
        unsigned v, w;
        if (!hex4(v)) return false;
        if (v >= 0xd800 && v < 0xdc00) {
          if (p + 1 >= d.size() || d[p] != '\\' || d[p + 1] != 'u') return false;
          p += 2;
          if (!hex4(w) || w < 0xdc00 || w > 0xdfff) return false;
          v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
        } else if (v >= 0xdc00 && v <= 0xdfff) return false;
        utf8(o, v);
        break;
      }
      default: return false;
      }
    }
    return false;
  }
  bool num(Bytes &o) {
    size_t s = p;
    if (p < d.size() && d[p] == '-') p++;
    if (p >= d.size()) return false;
    if (d[p] == '0') p++;
    else if (d[p] >= '1' && d[p] <= '9') while (p < d.size() && isdigit((unsigned char)d[p])) p++;
    else return false;
    if (p < d.size() && d[p] == '.') {
      p++;
      if (p >= d.size() || !isdigit((unsigned char)d[p])) return false;
      while (p < d.size() && isdigit((unsigned char)d[p])) p++;
    }
    if (p < d.size() && (d[p] == 'e' || d[p] == 'E')) {
      p++;
      if (p < d.size() && (d[p] == '+' || d[p] == '-')) p++;
      if (p >= d.size() || !isdigit((unsigned char)d[p])) return false;
      while (p < d.size() && isdigit((unsigned char)d[p])) p++;
    }
    o = d.substr(s, p - s);
    return true;
  }
  bool value(Json &j) {
    if (++depth > 64) return false;
    ws();
    if (p >= d.size()) return false;
    char c = d[p];
    bool ok = false;
    if (c == '{') {
      j.t = Json::Obj;
      p++;
      ws();
      if (p < d.size() && d[p] == '}') { p++; ok = true; }
      else for (;;) {
        Bytes k;
        Json v;
        ws();
        size_t k0 = p;
        if (!str(k)) return false;
        if (d.substr(k0, p - k0).find('\\') != Bytes::npos) escaped_key = true;
        ws();
        if (p >= d.size() || d[p++] != ':') return false;
        if (!value(v)) return false;
        j.o.emplace_back(k, v);
        ws();
        if (p >= d.size()) return false;
        char e = d[p++];
        if (e == '}') { ok = true; break; }
        if (e != ',') return false;
      }
    } else if (c == '[') {
      j.t = Json::Arr;
      p++;
      ws();
      if (p < d.size() && d[p] == ']') { p++; ok = true; }
      else for (;;) {
        Json v;
        if (!value(v)) return false;
        j.a.push_back(v);
        ws();
        if (p >= d.size()) return false;
        char e = d[p++];
        if (e == ']') { ok = true; break; }
        if (e != ',') return false;
      }
    } else if (c == '"') { j.t = Json::Str; ok = str(j.s); }
    else if (lit("true")) { j.t = Json::Bool; j.b = true; ok = true; }
    else if (lit("false")) { j.t = Json::Bool; ok = true; }
    else if (lit("null")) ok = true;
    else { j.t = Json::Num; ok = num(j.s); }
    depth--;
    return ok;
  }
};
static inline bool parse_json(const Bytes &d, Json &j, bool *escaped_key = nullptr) {
  JsonParser p(d);
  if (!p.value(j)) return false;
  p.ws();
  if (escaped_key) *escaped_key = p.escaped_key;
  return p.p == d.size();
}
static inline Bytes escape_json(const Bytes &s, Rng *r = nullptr) {
  Bytes o;
  char t[8];
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = (unsigned char)s[i];
    if (r && c >= 0xc2 && r->chance(1, 4)) { // beyond ASCII, as one escape or as a pair of them
      size_t n = c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : 2;
      unsigned v = c & (0xff >> (n + 1));
      for (size_t k = 1; k < n && i + k < s.size(); k++) v = v << 6 | ((unsigned char)s[i + k] & 0x3f);
      Bytes again;
      JsonParser::utf8(again, v);
      if (again == s.substr(i, n) && !(v >= 0xd800 && v <= 0xdfff) && v <= 0x10ffff) {
        const char *x = r->chance(1, 2) ? "\\u%04x" : "\\u%04X";
        if (v >= 0x10000) { snprintf(t, sizeof t, x, 0xd800 + ((v - 0x10000) >> 10)); o += t; v = 0xdc00 + ((v - 0x10000) & 0x3ff); }
        snprintf(t, sizeof t, x, v);
        o += t;
        i += n - 1;
        continue;
      }
    }
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '/' && r && r->chance(1, 3)) o += "\\/";
    else if (c < 0x20) {
      const char *sh = c == '\n' ? "\\n" : c == '\t' ? "\\t" : c == '\r' ? "\\r" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : nullptr;
      if (sh && (!r || r->chance(1, 2))) o += sh;
      else { snprintf(t, sizeof t, (r && r->chance(1, 2)) ? "\\u%04X" : "\\u%04x", c); o += t; }
    } else if (r && c < 0x7f && r->chance(1, 24)) { snprintf(t, sizeof t, "\\u%04x", c); o += t; }
    else o += (char)c;
  }
  return o;
}

// ---- base64 --------------------------------------------------------------
static const char *B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static inline Bytes b64(const Bytes &d) {
  Bytes o;
  size_t i = 0;
  for (; i + 2 < d.size(); i += 3) {
    unsigned v = (unsigned char)d[i] << 16 | (unsigned char)d[i + 1] << 8 | (unsigned char)d[i + 2];
    o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += B64[v >> 6 & 63]; o += B64[v & 63];
  }
  if (d.size() - i == 1) {
    unsigned v = (unsigned char)d[i] << 16;
    o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += "==";
  } else if (d.size() - i == 2) {
    unsigned v = (unsigned char)d[i] << 16 | (unsigned char)d[i + 1] << 8;
    o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += B64[v >> 6 & 63]; o += "=";
  }
  return o;
}
// canonical text only
static inline bool unb64(const Bytes &t, Bytes &o) {
  o.clear();
  if (t.size() % 4) return false;
  for (size_t i = 0; i < t.size(); i += 4) {
    unsigned v = 0;
    int pad = 0;
    for (int k = 0; k < 4; k++) {
      char c = t[i + k];
      const char *q = c ? strchr(B64, c) : nullptr;
      if (c == '=' && i + 4 == t.size() && k >= 2) { pad++; v <<= 6; }
      else if (q && !pad) v = v << 6 | (unsigned)(q - B64);
      else return false;
    }
    o += (char)(v >> 16);
    if (pad < 2) o += (char)(v >> 8);
    if (pad < 1) o += (char)v;
  }
  return b64(o) == t;
}

// ---- dates ---------------------------------------------------------------
struct Date {
  int y = 0, mo = 0, d = 0, h = 0, mi = 0, s = 0;
  bool operator==(const Date &o) const { return y == o.y && mo == o.mo && d == o.d && h == o.h && mi == o.mi && s == o.s; }
  Bytes text() const { return vh::fmt("%04d-%02d-%02dT%02d:%02d:%02dZ", y, mo, d, h, mi, s); }
  struct tm tm() const {
    struct tm t;
    memset(&t, 0, sizeof t);
    t.tm_year = y - 1900; t.tm_mon = mo - 1; t.tm_mday = d; t.tm_hour = h; t.tm_min = mi; t.tm_sec = s;
    return t;
  }
  static Date from(const struct tm &t) {
    Date x;
    x.y = t.tm_year + 1900; x.mo = t.tm_mon + 1; x.d = t.tm_mday; x.h = t.tm_hour; x.mi = t.tm_min; x.s = t.tm_sec;
    return x;
  }
};
static inline bool leap(int y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; }
static inline int mdays(int y, int m) {
  static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && leap(y) ? 29 : n[m - 1];
}
static inline int64_t days(int y, int m, int d) { // days since 1970-01-01
  y -= m <= 2;
  int64_t era = (y >= 0 ? y : y - 399) / 400;
  unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + (int64_t)doe - 719468;
}
static inline int64_t epoch(const Date &t) { return days(t.y, t.mo, t.d) * 86400 + t.h * 3600 + t.mi * 60 + t.s; }
static inline bool parse_date(const Bytes &s, Date &t) {
  if (s.size() != 20) return false;
  static const char *pat = "dddd-dd-ddTdd:dd:ddZ";
  for (int i = 0; i < 20; i++)
    if (pat[i] == 'd' ? !isdigit((unsigned char)s[i]) : s[i] != pat[i]) return false;
  t.y = atoi(s.substr(0, 4).c_str()); t.mo = atoi(s.substr(5, 2).c_str()); t.d = atoi(s.substr(8, 2).c_str());
  t.h = atoi(s.substr(11, 2).c_str()); t.mi = atoi(s.substr(14, 2).c_str()); t.s = atoi(s.substr(17, 2).c_str());
  return t.mo >= 1 && t.mo <= 12 && t.d >= 1 && t.d <= mdays(t.y, t.mo) && t.h < 24 && t.mi < 60 && t.s < 60;
}
static inline Date rand_date(Rng &r) {
  Date t;
  switch (r.below(6)) {
  case 0: t.y = 1900; break;
  case 1: t.y = 9999; break;
  case 2: t.y = (int)r.range(1968, 1972); break;
  case 3: t.y = (int)r.range(2036, 2040); break;
  default: t.y = (int)r.range(1900, 9999);
  }
  t.mo = r.chance(1, 4) ? (r.chance(1, 2) ? 1 : 12) : (int)r.range(1, 12);
  t.d = r.chance(1, 4) ? (r.chance(1, 2) ? 1 : mdays(t.y, t.mo)) : (int)r.range(1, mdays(t.y, t.mo));
  t.h = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : 23) : (int)r.range(0, 23);
  t.mi = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : 59) : (int)r.range(0, 59);
  t.s = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : 59) : (int)r.range(0, 59);
  return t;
}

// ---- voucher model -------------------------------------------------------
static const char *ATTR_NAMES[] = {"created-on", "expires-on", "assertion", "serial-number", "idevid-issuer", "pinned-domain-cert",
                                   "domain-cert-revocation-checks", "nonce", "last-renewal-date", "prior-signed-voucher-request",
                                   "proximity-registrar-cert"};
static const char *ASSERTIONS[] = {nullptr, "verified", "logged", "proximity"};
enum { NATTR = 11, A_CREATED = 0, A_EXPIRES, A_ASSERTION, A_SERIAL, A_ISSUER, A_PINNED, A_REVCHECK, A_NONCE, A_RENEWAL, A_PRIOR, A_PROXIMITY };
static inline bool is_time(int a) { return a == A_CREATED || a == A_EXPIRES || a == A_RENEWAL; }
static inline bool is_array(int a) { return a == A_ISSUER || a == A_PINNED || a == A_NONCE || a == A_PRIOR || a == A_PROXIMITY; }

struct VoucherModel {
  std::map<int, Date> time;
  std::map<int, Bytes> array;
  std::optional<Bytes> serial;
  int assertion = 0;
  bool revcheck = false; // always present in the serialized form
  bool operator==(const VoucherModel &o) const {
    return time == o.time && array == o.array && serial == o.serial && assertion == o.assertion && revcheck == o.revcheck;
  }
  std::string text() const {
    std::string s = "{";
    for (auto &t : time) s += std::string(ATTR_NAMES[t.first]) + "=" + t.second.text() + " ";
    for (auto &t : array) s += std::string(ATTR_NAMES[t.first]) + "=" + vh::hex(t.second, 24) + " ";
    if (serial) s += "serial=\"" + vh::printable(*serial) + "\" ";
    if (assertion) s += std::string("assertion=") + ASSERTIONS[assertion] + " ";
    return s + (revcheck ? "revcheck=true}" : "revcheck=false}");
  }
};
static inline bool operator==(const std::pair<const int, Date> &a, const std::pair<const int, Date> &b) { return a.first == b.first && a.second == b.second; }

static inline Bytes rand_utf8(Rng &r, size_t maxlen) {
  Bytes o;
  size_t n = r.below(maxlen + 1);
  while (o.size() < n) {
    Bytes c;
    switch (r.below(10)) {
    case 0: c = Bytes(1, "\"\\/{}[],:"[r.below(9)]); break;
    case 1: c = Bytes(1, (char)r.range(1, 31)); break;
    case 2: c = Bytes(1, (char)127); break;
    case 3: JsonParser::utf8(c, (unsigned)r.range(0x80, 0x7ff)); break;
    case 4: { unsigned v = (unsigned)r.range(0x800, 0xffff); if (v >= 0xd800 && v <= 0xdfff) v = 0x20ac; JsonParser::utf8(c, v); break; }
    case 5: JsonParser::utf8(c, (unsigned)r.range(0x10000, 0x10ffff)); break;
    default: c = Bytes(1, (char)r.range(32, 126));
    }
    if (o.size() + c.size() > maxlen) break;
    o += c;
  }
  return o;
}
static inline Bytes rand_serial(Rng &r) {
  static const std::vector<Bytes> inj = {"\"", "\\", "\",\"assertion\":\"verified", "\"}}", "a\\", "\\\"", "\\u0041", "\n", "{}", "null", "true", "\",\"nonce\":\"AAAA", "/", "x\ty"};
  switch (r.below(8)) {
  case 0: return r.pick(inj);
  case 1: return "12345";
  case 2: return rand_utf8(r, 127);
  case 3: { Bytes b; size_t n = 127; while (b.size() < n) b += (char)r.range(33, 126); return b; }
  case 4: return Bytes(1, (char)r.range(1, 127));
  case 5: { Bytes b; size_t n = r.range(1, 127); while (b.size() < n) b += (char)r.range(32, 126); return b; }
  case 6: { Bytes b = r.pick(inj); b += rand_utf8(r, 40); b += r.pick(inj); return b; }
  default: { Bytes b; size_t n = r.range(1, 24); while (b.size() < n) b += "0123456789ABCDEF-"[r.below(17)]; return b; }
  }
}
static inline Bytes rand_blob(Rng &r) {
  size_t n;
  switch (r.below(6)) {
  case 0: n = 1; break;
  case 1: n = (size_t)r.range(1, 6); break;
  case 2: n = (size_t)r.range(1, 64); break;
  case 3: n = (size_t)r.range(50, 60); break;
  case 4: n = (size_t)r.range(200, 3000); break;
  default: n = (size_t)r.range(7, 300);
  }
  switch (r.below(4)) {
  case 0: return Bytes(n, (char)0);
  case 1: return Bytes(n, (char)0xff);
  default: return r.bytes(n);
  }
}
static inline VoucherModel rand_voucher(Rng &r) {
  VoucherModel m;
  unsigned mask = r.chance(1, 8) ? 0x7ff : (unsigned)r.below(0x800);
  for (int a = 0; a < NATTR; a++) {
    if (!(mask >> a & 1)) continue;
    if (is_time(a)) m.time[a] = rand_date(r);
    else if (is_array(a)) m.array[a] = rand_blob(r);
    else if (a == A_SERIAL) m.serial = rand_serial(r);
    else if (a == A_ASSERTION) m.assertion = (int)r.range(1, 3);
    else m.revcheck = r.chance(1, 2);
  }
  return m;
}
// Renders a model as a voucher document, in any order and spacing.
static inline Bytes ws(Rng &r) {
  Bytes o;
  for (int n = r.chance(1, 3) ? (int)r.below(4) : 0; n > 0; n--) o += " \t\r\n"[r.below(4)];
  return o;
}
static inline std::vector<std::pair<Bytes, Bytes>> members(const VoucherModel &m, Rng &r) {
  std::vector<std::pair<Bytes, Bytes>> v;
  for (auto &t : m.time) v.push_back({ATTR_NAMES[t.first], "\"" + t.second.text() + "\""});
  for (auto &t : m.array) v.push_back({ATTR_NAMES[t.first], "\"" + b64(t.second) + "\""});
  if (m.serial) v.push_back({ATTR_NAMES[A_SERIAL], "\"" + escape_json(*m.serial, &r) + "\""});
  if (m.assertion) v.push_back({ATTR_NAMES[A_ASSERTION], std::string("\"") + ASSERTIONS[m.assertion] + "\""});
  if (m.revcheck || r.chance(1, 2)) v.push_back({ATTR_NAMES[A_REVCHECK], m.revcheck ? "true" : "false"});
  for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
  return v;
}
static inline Bytes render_members(const std::vector<std::pair<Bytes, Bytes>> &v, Rng &r) {
  Bytes o = "{" + ws(r);
  bool first = true;
  for (auto &x : v) {
    if (!first) o += "," + ws(r);
    first = false;
    o += "\"" + x.first + "\"" + ws(r) + ":" + ws(r) + x.second + ws(r);
  }
  return o + "}";
}
static inline Bytes render_root(const Bytes &name, const Bytes &child, Rng &r) {
  return ws(r) + "{" + ws(r) + "\"" + name + "\"" + ws(r) + ":" + ws(r) + child + ws(r) + "}" + ws(r);
}
// What a voucher document denotes. 1: exactly this voucher; 0: must be
// rejected; -1: outside what is specified.
static inline int judge(const Bytes &doc, VoucherModel &m, std::string *why = nullptr) {
  auto no = [&](const char *w) { if (why) *why = w; return 0; };
  auto gray = [&](const char *w) { if (why) *why = w; return -1; };
  Json j;
  if (doc.find('\0') != Bytes::npos) return gray("NUL");
  bool ek = false;
  if (!parse_json(doc, j, &ek)) return gray("not strict JSON");
  if (ek) return gray("escaped key");
  if (j.t != Json::Obj) return no("not an object");
  const Json *root = nullptr;
  for (auto &k : j.o)
    if (k.first == "ietf-voucher:voucher") {
      if (root) return gray("two roots");
      root = &k.second;
    }
  if (!root) return no("no root member");
  if (j.o.size() > 1) return gray("extra root members");
  if (root->t != Json::Obj) return no("root is not an object");
  std::map<Bytes, int> seen;
  bool dup = false, grayv = false;
  for (auto &k : root->o) {
    int a = -1;
    for (int i = 0; i < NATTR; i++) if (k.first == ATTR_NAMES[i]) a = i;
    if (a < 0) return no("unknown attribute");
    if (seen[k.first]++) dup = true;
    const Json &v = k.second;
    if (v.t == Json::Arr || v.t == Json::Obj) return no("not a scalar");
    if (a == A_REVCHECK) {
      if (v.t == Json::Bool) m.revcheck = v.b;
      else if ((v.t == Json::Str && v.s.size() <= 5) || (v.t == Json::Num && v.s.size() == 1)) grayv = true;
      else return no("malformed boolean");
      continue;
    }
    if (v.t != Json::Str) {
      if (a == A_SERIAL) { grayv = true; continue; } // a bare number as serial number
      if (is_array(a)) { grayv = true; continue; }   // 1234 also is base64 text
      return no("not a string");
    }
    if (v.s.find('\0') != Bytes::npos) { grayv = true; continue; } // \u0000
    if (is_time(a)) {
      Date t;
      if (!parse_date(v.s, t)) {
        // only texts that are no date in any reading are claimed
        Bytes digits;
        for (char c : v.s) if (!isdigit((unsigned char)c)) digits += c;
        if (v.s.size() == 20 && digits == "--T::Z" && t.mo >= 1 && t.mo <= 12 && t.d >= 1 && t.d <= 31 && t.h < 24 && t.mi < 60 && t.s < 62) {
          grayv = true; // 31st of February, leap seconds
          continue;
        }
        return no("malformed date");
      }
      if (t.y < 1900) { grayv = true; continue; }
      m.time[a] = t;
    } else if (is_array(a)) {
      Bytes o, clean;
      bool foreign = false;
      for (char c : v.s) {
        if (c && (strchr(B64, c) || c == '=')) clean += c;
        else foreign = true;
      }
      (void)foreign;
      if (clean.empty()) return no("empty base64");
      if (!unb64(clean, o) || o.empty()) {
        size_t alpha = 0;
        for (char c : clean) alpha += c != '=';
        if (clean.find('=') == Bytes::npos && alpha % 4 == 1) return no("cut base64");
        grayv = true;
        continue;
      }
      m.array[a] = o;
    } else if (a == A_SERIAL) {
      if (v.s.find('\0') != Bytes::npos) { grayv = true; continue; }
      if (v.s.size() >= 128) return no("serial number too long");
      m.serial = v.s;
    } else {
      int x = 0;
      for (int i = 1; i <= 3; i++) if (v.s == ASSERTIONS[i]) x = i;
      if (!x) return no("unknown assertion");
      m.assertion = x;
    }
  }
  if (dup) return gray("duplicate attribute");
  if (grayv) return gray("unspecified value");
  return 1;
}
} // namespace ref
