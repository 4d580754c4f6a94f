// C03: base64, dates and booleans against reference implementations.
#include "vmodel.hpp"
using namespace vh;
using namespace ref;

static Bytes interleave(Rng &r, const Bytes &t, bool any) {
  Bytes o;
  for (char c : t) {
    while (r.chance(1, any ? 6 : 20)) {
      unsigned char f;
      do f = any ? (unsigned char)r.next() : (unsigned char)" \r\n\t"[r.below(4)]; while (f && (strchr(B64, f) || f == '='));
      o += (char)f;
    }
    o += c;
  }
  return o;
}
static void decode_ok(const Bytes &text, const Bytes &want, const char *how) {
  Buf in(text);
  uint8_t *out = (uint8_t *)0x1;
  ssize_t n = serialize_base64str2array(in.a.array, in.a.length, &out);
  if (n < 0) { failf("base64-decode-refused", "%s: %s", how, printable(text).c_str()); return; }
  if (Bytes((char *)out, (size_t)n) != want) failf("base64-decode-wrong", "%s: %s gives %s, want %s", how, printable(text).c_str(), hex(Bytes((char *)out, (size_t)n)).c_str(), hex(want).c_str());
  free(out);
}
static void decode_bad(const Bytes &text, const char *how) {
  Buf in(text);
  uint8_t *out = (uint8_t *)0x1;
  ssize_t n = serialize_base64str2array(in.a.array, in.a.length, &out);
  if (n >= 0) { failf("base64-bad-accepted", "%s: %s gives %zd bytes", how, printable(text).c_str(), n); free(out); return; }
  if (out) failf("base64-buffer-left-on-error", "%s: %s", how, printable(text).c_str());
  count("base64_rejected");
}
static void base64_case(Rng &r, long i) {
  size_t n = i < 600 ? (size_t)i + 1 : r.chance(1, 5) ? (size_t)r.range(1, 9000) : (size_t)r.range(1, 200);
  Bytes d = r.chance(1, 6) ? Bytes(n, (char)(r.chance(1, 2) ? 0 : 0xff)) : r.bytes(n);
  Buf in(d);
  uint8_t *out = (uint8_t *)0x1;
  ssize_t l = serialize_array2base64str(in.a.array, in.a.length, &out);
  Bytes want = b64(d);
  if (l < 0) { failf("base64-encode-refused", "%s", hex(d).c_str()); return; }
  if (Bytes((char *)out, (size_t)l) != want) failf("base64-encode-wrong", "%s gives %s", hex(d).c_str(), printable(Bytes((char *)out, (size_t)l)).c_str());
  else if (out[l] != 0) fail("base64-encode-not-terminated", hex(d));
  else { // and back, in place as produced
    uint8_t *back = nullptr;
    ssize_t bl = serialize_base64str2array(out, (size_t)l, &back);
    if (bl < 0 || Bytes((char *)back, (size_t)bl) != d) failf("base64-roundtrip", "%s", hex(d).c_str());
    free(back);
  }
  free(out);
  count("base64_encoded");
  decode_ok(want, d, "plain");
  decode_ok(interleave(r, want, false), d, "with blanks");
  decode_ok(interleave(r, want, true), d, "with foreign bytes");
  { // line breaks every 64/76
    Bytes t;
    size_t w = r.chance(1, 2) ? 64 : 76;
    for (size_t k = 0; k < want.size(); k += w) t += want.substr(k, w) + (w == 64 ? "\n" : "\r\n");
    decode_ok(t, d, "with line breaks");
  }
  count("base64_decoded", 4);
  // undecodable
  Bytes none;
  for (size_t k = r.below(20); k > 0; k--) { unsigned char f; do f = (unsigned char)r.next(); while (f && (strchr(B64, f) || f == '=')); none += (char)f; }
  decode_bad(none, "no base64 at all");
  Bytes whole = b64(r.bytes(3 * (size_t)r.below(30)));
  decode_bad(interleave(r, whole + Bytes(1, B64[r.below(64)]), r.chance(1, 2)), "one character left over");
  decode_bad(whole + Bytes(1, B64[r.below(64)]) + "===", "three padding characters");
  decode_bad(whole + "====", "four padding characters");
  evaluated(hash(d), true);
  if (i % 997 == 1) sample("base64 of " + hex(d, 40));
}

static void date_case(Rng &r, long i) {
  static const char *zones[] = {"UTC", "America/New_York", "Asia/Kolkata", "Europe/Berlin", "XYZ-13", "ABC+11:30"};
  setenv("TZ", zones[i % 6], 1);
  tzset();
  for (int k = 0; k < 40; k++) {
    Date d = rand_date(r);
    if (k < 20) { // walk whole days over the range
      int64_t n = ((int64_t)i * 20 + k) * 7 % (days(9999, 12, 31) - days(1900, 1, 1)) + days(1900, 1, 1);
      int y = (int)(n / 365.2425) + 1970;
      while (days(y + 1, 1, 1) <= n) y++;
      while (days(y, 1, 1) > n) y--;
      int mo = 12;
      while (days(y, mo, 1) > n) mo--;
      d.y = y; d.mo = mo; d.d = (int)(n - days(y, mo, 1)) + 1;
    }
    struct tm t = d.tm();
    if (r.chance(1, 2)) { // what a real clock yields as well
      t.tm_wday = (int)(((days(d.y, d.mo, d.d) + 4) % 7 + 7) % 7);
      t.tm_yday = (int)(days(d.y, d.mo, d.d) - days(d.y, 1, 1));
      t.tm_isdst = (int)r.range(-1, 1);
    }
    char *s = serialize_time2str(&t);
    if (!s || d.text() != s) failf("date-format", "%s formatted as %s", d.text().c_str(), s ? s : "NULL");
    free(s);
    struct tm back;
    memset(&back, 0x5a, sizeof back);
    Bytes txt = d.text();
    char *exact = strdup(txt.c_str());
    int rc = serialize_str2time(exact, &back);
    if (rc != 0 || !(Date::from(back) == d)) failf("date-parse", "%s: rc %d, %s", txt.c_str(), rc, rc ? "" : Date::from(back).text().c_str());
    else {
      char *s2 = serialize_time2str(&back);
      if (!s2 || txt != s2) failf("date-roundtrip", "%s gives %s", txt.c_str(), s2 ? s2 : "NULL");
      free(s2);
    }
    free(exact);
    evaluated(hash(txt), true);
    count("dates");
    // other texts
    Bytes b = txt;
    bool valid = false;
    switch (r.below(14)) {
    case 0: b = b.substr(0, r.below(20)); break;
    case 1: b += (char)r.range(1, 255); break;
    case 2: b = " " + b; break;
    case 3: { static const int seps[] = {4, 7, 10, 13, 16, 19}; b[(size_t)seps[r.below(6)]] = (char)r.range(33, 126); break; }
    case 4: b.replace(5, 2, fmt("%02d", r.chance(1, 2) ? 0 : (int)r.range(13, 99))); break;
    case 5: b.replace(8, 2, fmt("%02d", r.chance(1, 2) ? 0 : (int)r.range(32, 99))); break;
    case 6: b.replace(11, 2, fmt("%02d", (int)r.range(24, 99))); break;
    case 7: b.replace(14, 2, fmt("%02d", (int)r.range(60, 99))); break;
    case 8: b.replace(17, 2, fmt("%02d", (int)r.range(62, 99))); break;
    case 9: { static const int pos[] = {0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18}; b[(size_t)pos[r.below(14)]] = r.chance(1, 2) ? ' ' : (char)r.range(58, 126); break; }
    case 10: { static const int pos[] = {5, 8, 11, 14, 17}; size_t p = (size_t)pos[r.below(5)]; b.erase(p, 1); break; }
    case 11: b = b.substr(0, 19) + "+00:00"; break;
    case 12: b = b.substr(0, 19) + ".5Z"; break;
    default: b.insert(r.below(21), Bytes(1, (char)r.range(48, 57)));
    }
    Date pd;
    valid = parse_date(b, pd);
    exact = strdup(b.c_str());
    Bytes c = exact; // cut at NUL
    if (!valid) valid = parse_date(c, pd);
    rc = serialize_str2time(exact, &back);
    if (!valid && rc == 0) failf("date-bad-accepted", "%s accepted as %s", printable(b).c_str(), Date::from(back).text().c_str());
    if (!valid) count("dates_rejected");
    free(exact);
  }
}

static void bool_text(const Bytes &t) {
  if (t.find('\0') != Bytes::npos) return; // not a text
  Buf in(t);
  int v = serialize_str2bool((const char *)in.a.array, in.a.length);
  Bytes l;
  for (char c : t) l += (char)(c >= 'A' && c <= 'Z' ? c + 32 : c);
  int want = t == "true" ? 1 : t == "false" ? 0 : -1;
  bool lenient = want == -1 && (l == "true" || l == "false" || t == "0" || t == "1");
  if (lenient) { // other spellings may be taken, but only for what they say
    int meaning = l == "true" || t == "1";
    if (v != -1 && v != meaning) failf("bool-wrong", "%s read as %d", printable(t).c_str(), v);
  } else if (v != want) failf("bool-wrong", "%s read as %d", printable(t).c_str(), v);
  evaluated(hash(t), true);
  count("bool_texts");
}
static void bool_case(Rng &r, long i) {
  for (int v = 0; v < 2; v++) {
    char *s = serialize_bool2str(v);
    if (!s || strcmp(s, v ? "true" : "false")) failf("bool-format", "%d gives %s", v, s ? s : "NULL");
    free(s);
  }
  if (i < 256) {
    bool_text(Bytes(1, (char)i));
    for (int k = 0; k < 256; k++) { Bytes t(2, (char)i); t[1] = (char)k; bool_text(t); }
  } else for (int k = 0; k < 100; k++) {
    Bytes t = r.chance(1, 2) ? "true" : "false";
    switch (r.below(6)) {
    case 0: t = t.substr(0, (size_t)r.range(0, (int64_t)t.size())); break;
    case 1: t += (char)r.next(); break;
    case 2: t[r.below(t.size())] = (char)r.next(); break;
    case 3: t.insert(r.below(t.size() + 1), Bytes(1, (char)r.next())); break;
    case 4: for (auto &c : t) if (r.chance(1, 2)) c ^= 0x20; break;
    default: t = r.bytes(r.below(9));
    }
    bool_text(t);
  }
  if (serialize_str2bool(nullptr, 4) != -1) fail("bool-wrong", "NULL accepted");
}
static void one(Rng &r, long i) {
  switch (i % 4) {
  case 0: case 1: base64_case(r, i / 4 * 2 + i % 4); break;
  case 2: date_case(r, i / 4); break;
  default: bool_case(r, i / 4);
  }
}
int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  return run(one, 500);
}
