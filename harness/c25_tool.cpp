// C25: each command of the tool, with good and bad configurations, inputs and
// places for its output. What it must do is known beforehand; the exit status,
// the standard output and every file in reach are compared to that.
#include "e2e.hpp"
#include <dirent.h>
using namespace e2e;
static std::string scratch;
static void spoil(api::Deploy &d, const char *&what, char *&field, const char *n1, Rng &r) { // a file which cannot be used
  what = n1;
  switch (r.below(6)) {
  case 0: field = d.str(d.dir + "/missing"); break;
  case 1: field = d.str(d.file(fmt("spoilt%d", (int)d.files.size()), "")); break;
  case 2: field = d.str(d.file(fmt("spoilt%d", (int)d.files.size()), r.bytes(100))); break;
  case 3: field = d.str(d.file(fmt("spoilt%d", (int)d.files.size()), "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n")); break;
  case 4: field = d.str(d.dir); break;
  default: { Bytes t = read_file(field); field = d.str(d.file(fmt("spoilt%d", (int)d.files.size()), t.substr(0, t.size() / 2))); }
  }
}

// ---- where the result goes ----------------------------------------------------------
typedef std::map<std::string, Bytes> Tree; // name below the directory -> content
static void look(const std::string &base, const std::string &at, Tree &t) {
  DIR *d = opendir((base + at).c_str());
  if (!d) return;
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name, p = at + "/" + n;
    if (n == "." || n == "..") continue;
    struct stat st;
    if (lstat((base + p).c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { t[p + "/"] = ""; look(base, p, t); }
    else if (S_ISLNK(st.st_mode)) t[p] = "-> elsewhere";
    else t[p] = read_file(base + p);
  }
  closedir(d);
}
static void clear(const std::string &base) { // of what this harness has made
  Tree t;
  look(base, "", t);
  for (auto i = t.rbegin(); i != t.rend(); ++i) {
    std::string p = base + i->first;
    if (p.back() == '/') rmdir(p.c_str()); else unlink(p.c_str());
  }
  rmdir(base.c_str());
}
struct Place {
  std::string dir, opt, to, what = "stdout"; // argument of -o, where stdout goes
  bool file = false, bad = false;            // bad: cannot be written
  std::vector<std::string> suffix;
  std::string path(size_t k) const { return opt + suffix[k]; }
  // only_stdout: the command does not use -o
  Place(Rng &r, const std::string &d, std::vector<std::string> s, bool only_stdout = false) : dir(d), suffix(s) {
    auto name = [&](size_t n) { std::string x; static const char ok[] = "abcXYZ019 .-_+,=@%~(){}[]&;:'"; while (x.size() < n) x += ok[r.below(sizeof ok - 1)]; return x; };
    int k = (int)r.below(only_stdout ? 4 : 12);
    if (k == 3) { to = "/dev/full", bad = true, what = "a full stdout"; return; }
    if (k < 3) return;
    file = true;
    opt = dir + "/" + name(r.range(1, 40));
    what = "a new file";
    size_t which = r.below(suffix.size());
    switch (k) {
    case 7: for (size_t j = 0; j < suffix.size(); j++) write_file(path(j), r.bytes(r.range(0, 9000))); what = "an existing file"; break;
    case 8: opt = dir + "/missing/" + name(5); bad = true; what = "a file in a missing directory"; break;
    case 9: mkdir(path(which).c_str(), 0755); bad = true; what = "a file named like a directory"; break;
    case 10: if (symlink("/dev/full", path(which).c_str())) harness_error("symlink"); bad = true; what = "a full device"; break;
    case 11: bad = r.chance(1, 2); opt = dir + "/" + name(bad ? (size_t)r.range(252, 400) : 255 - 6); what = bad ? "a file with too long a name" : "a file with a long name"; break;
    }
  }
  void args(std::vector<std::string> &a) const { if (file) { a.push_back("-o"); a.push_back(opt); } }
};
struct Job {
  Rng &r;
  std::string dir, info;
  Tree before;
  Process p;
  Place *place;
  Job(Rng &q, const std::string &d, Place *w) : r(q), dir(d), place(w) { }
  Ran run(std::vector<std::string> args, const Bytes &in = "", bool leaks = false, int pieces = 0, int seconds = 100) {
    look(dir, "", before);
    // options in any order, before or after the command
    p.start(dir + ".p", args, in, {}, place ? place->to : "", leaks && !(place && place->bad), pieces); // the tool does not clean up when it fails
    Ran x = p.finish(seconds);
    if (x.hung) failf("hang", "the tool does not end: %s", info.c_str());
    if (x.crashed) failf("crash", "the tool ends with %d: %s: %s", x.rc, info.c_str(), why(x).c_str());
    return x;
  }
  // nothing but the files which were asked for may change; false when some do
  bool untouched(bool output_too) {
    Tree now;
    look(dir, "", now);
    std::set<std::string> mine;
    if (place && place->file && !output_too)
      for (size_t k = 0; k < place->suffix.size(); k++) {
        std::string q = place->path(k).substr(dir.size());
        mine.insert(q), mine.insert(q + "/");
      }
    for (auto &x : now) if (!mine.count(x.first) && (!before.count(x.first) || before[x.first] != x.second)) { failf("other file", "the tool writes %s: %s", printable(x.first).c_str(), info.c_str()); return false; }
    for (auto &x : before) if (!mine.count(x.first) && !now.count(x.first)) { failf("other file", "the tool removes %s: %s", printable(x.first).c_str(), info.c_str()); return false; }
    return true;
  }
  // want: 1 must succeed, 0 must fail, -1 open. true: it has rightly succeeded
  bool verdict(const Ran &x, int want, const std::string &because) {
    if (x.hung || x.crashed) return false;
    bool bad = place && place->bad;
    if (x.rc != 0) {
      if (want == 1 && !bad) failf("failure", "the tool fails (%d): %s: %s", x.rc, info.c_str(), why(x).c_str());
      if (!x.out.empty() && !bad) failf("output on failure", "%s: %s", printable(x.out).c_str(), info.c_str());
      untouched(!bad);
      count(bad && want ? "fails for its output" : "fails: " + because);
      return false;
    }
    if (bad) { failf("success without output: " + place->what, "the tool succeeds but its result cannot have been written: %s", info.c_str()); return false; }
    if (want == 0) failf("success: " + because, "the tool succeeds although: %s; %s", because.c_str(), info.c_str());
    untouched(false);
    if (place && place->file && !x.out.empty()) failf("stdout and file", "%s: %s", printable(x.out).c_str(), info.c_str());
    if (want_sample()) sample(info + " -> " + printable(x.out, 80));
    return want != 0;
  }
};
static bool line(const Bytes &t, Bytes &der) { return !t.empty() && t.back() == '\n' && t.find('\n') == t.size() - 1 && ref::unb64(t.substr(0, t.size() - 1), der); }
// -c and -d and -o and -i around the command in any order
static std::vector<std::string> arrange(Rng &r, std::vector<std::vector<std::string>> groups, const std::string &command) {
  groups.push_back({command});
  if (r.chance(1, 3)) groups.push_back({"-d"});
  std::vector<std::string> v;
  if (r.chance(1, 2)) { // the command last
    std::vector<std::string> c = groups[groups.size() - (groups.back()[0] == "-d" ? 2 : 1)];
    groups.erase(groups.end() - (groups.back()[0] == "-d" ? 2 : 1));
    for (size_t k = groups.size(); k > 1; k--) std::swap(groups[k - 1], groups[r.below(k)]);
    groups.push_back(c);
  } else for (size_t k = groups.size(); k > 1; k--) std::swap(groups[k - 1], groups[r.below(k)]);
  for (auto &g : groups) {
    if (g.size() == 2 && g[1].size() && r.chance(1, 5)) v.push_back(g[0] + g[1]); // -cFILE
    else v.insert(v.end(), g.begin(), g.end());
  }
  return v;
}
// a configuration file that cannot be used
static std::vector<std::string> no_config(Rng &r, const std::string &dir, std::string &because) {
  switch (r.below(4)) {
  case 0: because = "no configuration"; return {};
  case 1: because = "configuration missing"; return {"-c", dir + "/nowhere"};
  case 2: because = "configuration is a directory"; return {"-c", dir};
  default: because = "configuration name empty"; return {"-c", ""};
  }
}

// ---- epvr ------------------------------------------------------------------------------
static Bytes smime(const Bytes &t) {
  BIO *b = BIO_new_mem_buf(t.data(), (int)t.size());
  CMS_ContentInfo *c = SMIME_read_CMS(b, nullptr);
  Bytes d;
  if (c) d = der_of((const CMS_ContentInfo *)c, [](const CMS_ContentInfo *x, unsigned char **p) { return i2d_CMS_ContentInfo((CMS_ContentInfo *)x, p); });
  CMS_ContentInfo_free(c);
  BIO_free(b);
  ERR_clear_error();
  return d;
}
static void epvr(Rng &r, const std::string &dir) {
  api::Deploy d(r, dir + "/d", false);
  Place place(r, dir, {".smime"});
  Job job(r, dir, &place);
  int want = 1;
  const char *because = "good";
  std::string why_config;
  std::vector<std::vector<std::string>> g;
  Date created{};
  bool has_created = r.chance(1, 3);
  if (has_created) { created = ref::rand_date(r); d.pc.created_on = d.str(created.text()); }
  Bytes tls = d.dom.leaf.cert;
  if (r.chance(1, 4)) { d.rc.tls_cert_path = d.str(d.path["dom-ca.crt"]); tls = d.dom.root.cert; }
  bool conf = true;
  if (r.chance(2, 5)) {
    want = 0;
    switch (r.below(11)) {
    case 0: spoil(d, because, d.pc.cms_sign_cert_path, "signing certificate", r); break;
    case 1: spoil(d, because, d.pc.cms_sign_key_path, "signing key", r); break;
    case 2: spoil(d, because, d.rc.tls_cert_path, "registrar certificate", r); break;
    case 3: d.pc.cms_add_certs_paths = d.list({d.path["idevid-ca.crt"], d.dir + "/missing"}); because = "additional certificate missing"; break;
    case 4: d.pc.cms_add_certs_paths = d.list({d.path["idevid.key"]}); because = "additional certificate is a key"; break;
    case 5: d.pc.serial_number = nullptr; because = "no serial number"; break;
    case 6: d.pc.cms_sign_cert_path = nullptr; because = "no signing certificate"; break;
    case 7: d.pc.cms_sign_key_path = nullptr; because = "no signing key"; break;
    case 8: d.rc.tls_cert_path = nullptr; because = "no registrar certificate"; break;
    case 9: d.pc.cms_sign_key_path = d.str(d.path["masa.key"]); because = "another key"; break;
    default: { std::vector<std::string> c = no_config(r, dir, why_config); conf = false; because = why_config.c_str(); if (!c.empty()) g.push_back(c); }
    }
  }
  write_file(dir + "/c", config_text(d.pc, d.rc, d.mc, r));
  if (conf) g.push_back({"-c", dir + "/c"});
  if (place.file) g.push_back({"-o", place.opt});
  job.info = fmt("epvr to %s, %s", place.what.c_str(), because);
  time_t t0 = time(nullptr);
  Ran x = job.run(arrange(r, g, "epvr"), "", want == 1);
  time_t t1 = time(nullptr);
  if (job.verdict(x, want, because)) {
    Bytes cms, t;
    if (place.file) {
      cms = smime(read_file(place.path(0)));
      if (cms.empty()) failf("epvr file", "no CMS message in the file; %s", job.info.c_str());
    } else if (!line(x.out, cms)) failf("epvr output", "%s; %s", printable(x.out).c_str(), job.info.c_str());
    VoucherModel m, q;
    m.serial = d.serial;
    m.assertion = 3;
    m.array[ref::A_PROXIMITY] = tls;
    if (d.pc.nonce) m.array[ref::A_NONCE] = d.nonce;
    if (has_created) m.time[ref::A_CREATED] = created;
    else {
      Opened o = cms_open(cms);
      if (o.ok && ref::judge(o.content, q) == 1 && q.time.count(ref::A_CREATED)) {
        Date w = q.time[ref::A_CREATED];
        if (ref::epoch(w) < t0 - 1 || ref::epoch(w) > t1 + 1) failf("created-on", "%s is not now; %s", w.text().c_str(), job.info.c_str());
        m.time[ref::A_CREATED] = w;
      }
    }
    if (!cms.empty()) check_issued("epvr", cms, d.maker.leaf.cert, d.maker.has_inter ? std::vector<Bytes>{d.maker.inter.cert} : std::vector<Bytes>{}, m, job.info);
    count(place.file ? "epvr to file" : "epvr to stdout");
  }
}

// ---- vmasa -----------------------------------------------------------------------------
// a voucher whose base64 is of the wanted length, if that can be had
static Bytes sized(api::Deploy &d, const VoucherModel &m, size_t want, Rng &r) {
  Bytes doc = doc_of(m, r), cms;
  size_t pad = 0;
  for (int k = 0; k < 40; k++) {
    cms = cms_sign(doc + Bytes(pad, ' '), {{d.masa.leaf.cert, d.masa.leaf.key}}, d.masa.embed());
    long over = (long)want - (long)ref::b64(cms).size();
    if (over == 0) break;
    long step = over * 3 / 4;
    if (step == 0) step = over > 0 ? 1 : -1;
    if ((long)pad + step < 0) break;
    pad = (size_t)((long)pad + step);
  }
  return cms;
}
static void vmasa(Rng &r, const std::string &dir) {
  api::Deploy d(r, dir + "/d", false);
  Place place(r, dir, {".crt"});
  Job job(r, dir, &place);
  std::string what = "good voucher", because;
  VoucherModel v, rm;
  rm.serial = d.serial;
  if (r.chance(9, 10)) rm.array[ref::A_NONCE] = d.nonce;
  v = d.voucher_model(rm);
  if (r.chance(1, 2)) v.time[ref::A_CREATED] = ref::rand_date(r);
  Bytes text, cms;
  Bytes reg = d.dom.leaf.cert;
  std::string reg_file = d.path["reg-tls.crt"];
  Wants want{d.serial, d.nonce, d.pc.nonce != nullptr, {d.masa.root.cert}, {}};
  int open = 1; // what holds besides the voucher
  const Party *signer = &d.masa;
  int fault = r.chance(1, 2) ? -1 : (int)r.below(15);
  switch (fault) {
  case 0: v.serial = near(d.serial, r); what = "near serial number"; break;
  case 1: v.array[ref::A_NONCE] = near_blob(d.nonce, r); what = "near nonce"; break;
  case 2: v.array.erase(ref::A_NONCE); what = "no nonce"; break;
  case 3: v.array[ref::A_PINNED] = d.fake_dom.root.cert; what = "look-alike pinned"; break;
  case 4: v.array[ref::A_PINNED] = d.other.root.cert; what = "other domain pinned"; break;
  case 5: v.array.erase(ref::A_PINNED); what = "nothing pinned"; break;
  case 6: signer = &d.fake_masa; what = "signed by a look-alike"; break;
  case 7: signer = &d.other; what = "signed by somebody else"; break;
  case 8: signer = &d.dom; what = "signed by the registrar"; break;
  case 9: reg = d.fake_dom.leaf.cert; reg_file = d.file("fake.crt", pem("CERTIFICATE", reg)); what = "look-alike registrar"; break;
  case 10: reg = d.other.leaf.cert; reg_file = d.file("fake.crt", pem("CERTIFICATE", reg)); what = "other registrar"; break;
  case 11: v.serial.reset(); what = "no serial number"; break;
  default: break;
  }
  int stretch = fault < 0 && r.chance(1, 3) ? (int)r.below(4) : -1;
  size_t n = 0;
  if (stretch >= 0) {
    n = stretch == 0 ? 4096 : stretch == 1 ? 4092 : stretch == 2 ? 4100 : (size_t)r.range(2000, 9000);
    cms = sized(d, v, n, r);
    what = fmt("voucher of %zu characters", ref::b64(cms).size());
  } else cms = cms_sign(doc_of(v, r), {{signer->leaf.cert, signer->leaf.key}}, signer->embed());
  text = ref::b64(cms);
  if (fault == 12) { text = api::junk_body(r); what = "junk"; }
  if (fault == 13) { text.resize(r.below(text.size())); what = "cut"; }
  if (fault == 14) { Bytes b = cms; b[r.below(b.size())] ^= (char)(1 << r.below(8)); text = ref::b64(b); what = "bit changed"; }
  if (fault < 0 && stretch < 0 && r.chance(1, 3)) { text += "\n"; what += " and a newline"; }
  // the configuration and the registrar's certificate
  std::vector<std::vector<std::string>> g;
  std::string broken;
  bool conf = true, input = true;
  if (r.chance(1, 5)) {
    open = 0;
    const char *b = "";
    char *f;
    switch (r.below(6)) {
    case 0: { std::vector<std::string> c = no_config(r, dir, broken); conf = false; if (!c.empty()) g.push_back(c); break; }
    case 1: input = false; broken = "no registrar certificate"; break;
    case 2: f = d.str(reg_file); spoil(d, b, f, "registrar certificate", r); reg_file = f; broken = b; break;
    case 3: d.pc.cms_verify_store_paths = d.list({d.path["masa-root.crt"], d.dir + "/missing"}); broken = "store certificate missing"; break;
    case 4: d.pc.cms_verify_certs_paths = d.list({d.path["idevid.key"]}); broken = "verify certificate is a key"; break;
    default: d.pc.serial_number = nullptr; broken = "no serial number configured";
    }
  }
  write_file(dir + "/c", config_text(d.pc, d.rc, d.mc, r));
  if (conf) g.push_back({"-c", dir + "/c"});
  if (input) g.push_back({"-i", reg_file});
  if (place.file) g.push_back({"-o", place.opt});
  Bytes pinned;
  int j = judge_text(text, want, reg, pinned, because);
  if (text.size() > 4096 && j) j = -1; // more than the tool takes
  if (text.size() && text.back() == '\n' && j == 1) j = -1;
  if (fault < 0 && text.size() <= 4096) {
    // as printed, with a newline
    Bytes t = text;
    if (t.size() && t.back() == '\n') { t.pop_back(); if (judge_text(t, want, reg, pinned, because) == 1 && text.size() <= 4096) j = 1; }
  }
  if (!open) j = 0, because = broken;
  int pieces = r.chance(1, 2) ? (int)r.range(1, 5) : 0;
  job.info = fmt("vmasa to %s, %s%s%s%s", place.what.c_str(), what.c_str(), open ? "" : ", ", broken.c_str(), pieces ? " in pieces" : "");
  Ran x = job.run(arrange(r, g, "vmasa"), text, j == 1, pieces);
  if (job.verdict(x, j, because)) {
    Bytes der;
    if (place.file ? !from_pem(read_file(place.path(0)), "CERTIFICATE", der) : !line(x.out, der)) failf("vmasa output", "%s; %s", printable(place.file ? read_file(place.path(0)) : x.out).c_str(), job.info.c_str());
    else if (der != pinned && j == 1) failf("vmasa certificate", "another certificate than the pinned one; %s", job.info.c_str());
    count(place.file ? "vmasa to file" : "vmasa to stdout");
    if (stretch >= 0) count(text.size() == 4096 ? "vmasa of 4096" : text.size() > 4096 ? "vmasa accepts more than 4096" : "vmasa of a long voucher");
  }
}

// ---- serial ----------------------------------------------------------------------------
static void serial(Rng &r, const std::string &dir) {
  mkdir((dir + "/d").c_str(), 0755);
  Place place(r, dir, {".none"}, true);
  Job job(r, dir, &place);
  Spec s;
  s.pub = (int)r.below(N_EC), s.sig = (int)r.below(N_EC);
  s.serial = r.next() >> 1;
  s.issuer = r.chance(1, 2) ? Name{{"CN", "maker"}, {"serialNumber", "of the maker"}} : cn("maker");
  std::string expect;
  bool has = false;
  static const char *kinds[] = {"CN", "O", "OU", "serialNumber", "C", "L", "ST", "emailAddress", "GN", "dnQualifier"};
  int n = (int)r.range(1, 7);
  for (int k = 0; k < n; k++) {
    std::string a = r.chance(1, 4) ? "serialNumber" : kinds[r.below(10)], v;
    if (a == "C") v = "IE";
    else {
      static const std::string ok = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?", more = "%s%n#<>&\"\\;_@!*|~^";
      size_t l = (size_t)r.range(1, r.chance(1, 3) ? 60 : 12);
      while (v.size() < l) v += r.chance(1, 8) && a != "serialNumber" && a != "dnQualifier" && a != "emailAddress" ? more[r.below(more.size())] : ok[r.below(ok.size())];
      if (a == "emailAddress") v = "a@" + std::to_string(r.below(1000)) + ".example";
    }
    s.subject.push_back({a, v});
    if (a == "serialNumber" && !has) has = true, expect = v;
  }
  Bytes der = make_cert(s), t = pem("CERTIFICATE", der);
  std::string f = dir + "/d/the certificate", what = "a certificate", because = "no serial number in it";
  int want = has;
  std::vector<std::vector<std::string>> g;
  bool input = true;
  switch (r.below(14)) {
  case 0: t = "Subject: something\n\n" + t; what = "text and a certificate"; break;
  case 1: { Spec o = s; o.subject = {{"serialNumber", "the second"}}; t += pem("CERTIFICATE", make_cert(o)); what = "two certificates"; break; }
  case 2: { Bytes c; for (char x : t) { if (x == '\n') c += '\r'; c += x; } t = c; what = "a certificate with CRLF"; break; }
  case 3: t = key_pem(1); want = 0; because = what = "a key"; break;
  case 4: t = der; want = 0; because = what = "a certificate in DER"; break;
  case 5: t.resize(t.size() / 2); want = 0; because = what = "half a certificate"; break;
  case 6: t = ""; want = 0; because = what = "an empty file"; break;
  case 7: t = pem("CERTIFICATE", r.bytes(200)); want = 0; because = what = "junk in PEM"; break;
  case 8: f = dir + "/d"; t = ""; want = 0; because = what = "a directory"; break;
  case 9: f += " elsewhere"; want = 0; because = what = "a missing file"; break;
  case 10: input = false; want = 0; because = what = "no file given"; break;
  default: break;
  }
  if (f.find(" elsewhere") == std::string::npos && f != dir + "/d") write_file(f, t);
  if (input) g.push_back({"-i", f});
  job.info = fmt("serial of %s to %s, subject %zu attributes", what.c_str(), place.what.c_str(), s.subject.size());
  Ran x = job.run(arrange(r, g, "serial"), "", want == 1);
  if (job.verdict(x, want, because)) {
    if (x.out != expect && x.out != expect + "\n") failf("serial output", "'%s' instead of '%s'; %s", printable(x.out).c_str(), expect.c_str(), job.info.c_str());
    count("serial numbers read");
  }
}

// ---- options -----------------------------------------------------------------------------
static const std::vector<std::string> commands{"epvr", "preq", "vmasa", "sign", "serial", "registrar", "masa"};
static void options(Rng &r, const std::string &dir) {
  Job job(r, dir, nullptr);
  std::vector<std::string> a;
  int want = 0;
  std::string what;
  std::string c = r.pick(commands);
  std::unique_ptr<api::Deploy> d;
  switch (r.below(11)) {
  case 10: { // -p which is not a port, with all a command needs
    what = "not a port";
    c = r.chance(1, 2) ? "serial" : "epvr";
    d.reset(new api::Deploy(r, dir + "/d", true));
    write_file(dir + "/c", config_text(d->pc, d->rc, d->mc, r));
    a = {"-c", dir + "/c", "-i", d->path["idevid.crt"]};
    std::vector<std::string> bad{"", " ", "x", "abc", "12x", "0x1f", "-1", "-65535", "65536", "70000", "131072", "2147483647", "2147483648", "4294967295", "4294967296", "4294967376", "99999999999999999999", "-99999999999999999999", "80,81", "1 2", "443/tcp", "1e3", "8080:"};
    std::vector<std::string> x{"-p", r.pick(bad)};
    a.insert(r.chance(1, 2) ? a.begin() : a.end(), x.begin(), x.end());
    a.push_back(c);
    break;
  }
  case 0: what = "nothing", want = 2; break;
  case 1: a = {"-h"}; what = "-h", want = 2; if (r.chance(1, 2)) a.push_back(c); if (r.chance(1, 3)) a.insert(a.begin(), "-d"); break;
  case 2: a = {"-v"}; what = "-v", want = 1; if (r.chance(1, 2)) a.push_back(c); if (r.chance(1, 3)) a = {"-c", "/nowhere", "-v"}; break;
  case 3: what = "options without a command"; a = {"-c", dir + "/x"}; if (r.chance(1, 2)) a.push_back("-d"); break;
  case 4: { what = "unknown option"; static const char bad[] = "befgjklmnqrstuwxyzABCHIOPV0123456789"; a = {fmt("-%c", bad[r.below(sizeof bad - 1)])}; if (r.chance(1, 2)) a.push_back(c); else a.insert(a.begin(), c); break; }
  case 5: { static const char need[] = "ciopa"; what = "option without its argument"; a = {c, fmt("-%c", need[r.below(5)])}; break; }
  case 6: case 9: {
    what = "unknown command";
    if (r.chance(1, 2)) c = r.chance(1, 2) ? "serial" : "epvr";
    switch (r.below(5)) {
    case 0: c += r.chance(1, 2) ? " " : "s"; break;
    case 1: c.pop_back(); break;
    case 2: c[r.below(c.size())] ^= 0x20; break;
    case 3: c = ""; break;
    default: c = "help"; break;
    }
    a = {c};
    if (r.chance(1, 2)) a.insert(a.begin(), "-d");
    if (r.chance(1, 2)) { // with all a command needs
      d.reset(new api::Deploy(r, dir + "/d", true));
      write_file(dir + "/c", config_text(d->pc, d->rc, d->mc, r));
      std::vector<std::string> more{"-c", dir + "/c", "-i", d->path["idevid.crt"]};
      a.insert(a.begin(), more.begin(), more.end());
    } else if (a.size() == 1) a.push_back("-d");
    break;
  }
  case 7: what = "long option"; a = {"--" + r.pick(std::vector<std::string>{"config", "quiet", "help-me", "nothing"}), c}; a[0] = "-" + std::string("z") + a[0].substr(2); break;
  default: { what = "a command without configuration"; do c = r.pick(commands); while (c == "serial"); a = {c}; break; }
  }
  job.info = what;
  for (auto &x : a) job.info += " '" + x + "'";
  Ran x = job.run(a);
  if (x.hung || x.crashed) return;
  if ((x.rc == 0) != (want > 0)) failf("options: " + what, "ends with %d: %s", x.rc, job.info.c_str());
  if (want == 2) for (auto &k : commands) if (x.out.find(k) == std::string::npos) failf("help", "%s is not in %s", k.c_str(), printable(x.out, 400).c_str());
  if (want == 1 && x.out.find("brski") == std::string::npos) failf("version", "%s", printable(x.out, 400).c_str());
  job.untouched(true);
  count("options: " + what);
}

// ---- with servers ---------------------------------------------------------------------------
struct Servers {
  std::string dir;
  std::unique_ptr<api::Deploy> d;
  Process masa, reg;
  bool up = false;
  static int port_from(const std::string &file, Process &p) {
    for (int k = 0; k < 60000; k++) {
      bool there;
      Bytes b = read_file(file, &there);
      if (there) { unlink(file.c_str()); return atoi(b.c_str()); }
      if (!p.running()) return 0;
      usleep(1000);
    }
    return 0;
  }
  Servers(Rng &r) : dir(scratch + "/servers") {
    mkdir(dir.c_str(), 0755);
    d.reset(new api::Deploy(r, dir + "/d", true));
    d->rc.port = d->mc.port = 0;
    write_file(dir + "/c", config_text(d->pc, d->rc, d->mc, r));
    std::string log = "VH_LOG=" + dir + "/log", pf = dir + "/port";
    masa.start(dir + "/m", {"-c", dir + "/c", "masa"}, "", {log, "VH_PORTFILE=" + pf});
    d->mc.port = (unsigned)port_from(pf, masa);
    if (!d->mc.port) return;
    bool by_option = r.chance(1, 2); // the address to listen at comes from the command line
    char *addr = d->rc.bind_address, elsewhere[] = "203.0.113.5";
    if (by_option) d->rc.bind_address = elsewhere;
    write_file(dir + "/c", config_text(d->pc, d->rc, d->mc, r));
    d->rc.bind_address = addr;
    std::vector<std::string> ra = {"-c", dir + "/c", "registrar"};
    if (by_option) ra = r.chance(1, 2) ? std::vector<std::string>{"-a", addr, "-c", dir + "/c", "registrar"} : std::vector<std::string>{"registrar", "-c", dir + "/c", "-a", addr};
    reg.start(dir + "/r", ra, "", {log, "VH_PORTFILE=" + pf});
    d->rc.port = (unsigned)port_from(pf, reg);
    up = d->rc.port != 0;
  }
  ~Servers() {
    if (reg.pid > 0) reg.finish(1, true);
    if (masa.pid > 0) masa.finish(1, true);
    for (const char *f : {"/c", "/log", "/port"}) unlink((dir + f).c_str());
    d.reset();
    rmdir(dir.c_str());
  }
};
static std::unique_ptr<Servers> servers;
static void net(Rng &r, const std::string &dir) {
  if (!servers) servers.reset(new Servers(r));
  if (!servers->up) { failf("does not start", "the servers do not start"); return; }
  api::Deploy &d = *servers->d;
  bool sign = r.chance(1, 2);
  Place place(r, dir, sign ? std::vector<std::string>{".crt", ".key"} : std::vector<std::string>{".crt"});
  pledge_config p = d.pc;
  registrar_config c = d.rc;
  int want = 1;
  std::string because = "good";
  std::string junk = dir + "/junk", gone = dir + "/gone", other;
  write_file(junk, r.bytes(80));
  std::vector<std::vector<std::string>> g;
  bool conf = true;
  int dead = -1;
  if (r.chance(2, 5)) {
    want = 0;
    char *bad = r.chance(1, 2) ? &junk[0] : &gone[0];
    switch (r.below(10)) {
    case 8: c.port += 65536u * (unsigned)r.range(1, r.chance(1, 2) ? 2 : 30000), because = "port out of range"; break;
    case 0: p.idevid_cert_path = bad; because = "identity certificate"; break;
    case 1: p.idevid_key_path = bad; because = "identity key"; break;
    case 2: other = d.path["masa.key"]; p.idevid_key_path = &other[0]; because = "identity with another key"; break;
    case 3: p.cms_sign_cert_path = bad; because = "signing certificate"; break;
    case 4: p.cms_sign_key_path = bad; because = "signing key"; break;
    case 5: p.serial_number = nullptr; because = "no serial number"; break;
    case 6: other = ""; c.bind_address = &other[0]; because = "no address"; break;
    case 7: { // nobody there
      dead = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
      sockaddr_in sa{};
      sa.sin_family = AF_INET, sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      if (bind(dead, (sockaddr *)&sa, sizeof sa)) harness_error("bind");
      c.port = (unsigned)port_of(dead), because = "nobody listens";
      break;
    }
    default: { std::vector<std::string> x = no_config(r, dir, because); conf = false; if (!x.empty()) g.push_back(x); }
    }
  }
  // the registrar's address and port may come from the command line, which has the last word
  std::string opts;
  if (want == 1 && r.chance(1, 2)) {
    bool wrong = r.chance(1, 4);
    int which = (int)r.below(3); // -a, -p, both
    std::string right_a = c.bind_address, right_p = std::to_string(c.port), no_a = "127.0.0." + std::to_string(r.range(2, 250)), no_p;
    dead = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in sa{};
    sa.sin_family = AF_INET, sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(dead, (sockaddr *)&sa, sizeof sa)) harness_error("bind");
    no_p = std::to_string(port_of(dead));
    other = no_a;
    if (which != 1) { g.push_back({"-a", wrong && which == 0 ? no_a : right_a}); if (!wrong) c.bind_address = r.chance(1, 4) ? nullptr : &other[0]; }
    if (which != 0) { g.push_back({"-p", wrong ? no_p : right_p}); if (!wrong) c.port = r.chance(1, 4) ? 0 : (unsigned)atoi(no_p.c_str()); }
    for (auto &x : g) opts += " " + x[0] + " " + x[1];
    if (wrong) want = 0, because = "nobody listens where the options say";
    else because = "good by options";
    count("net: " + because);
  }
  write_file(dir + "/c", config_text(p, c, d.mc, r));
  if (conf) g.push_back({"-c", dir + "/c"});
  if (place.file) g.push_back({"-o", place.opt});
  const char *cmd = sign ? "sign" : "preq";
  std::vector<std::string> args = arrange(r, g, cmd);
  for (int attempt = 0;; attempt++) {
    Job job(r, dir, &place);
    job.info = fmt("%s%s to %s, %s", cmd, opts.c_str(), place.what.c_str(), because.c_str());
    Ran x = job.run(args, "", want == 1 && !place.bad);
    if (want == 1 && x.rc == 1 && !place.bad && attempt < 2) { count("repeated"); continue; }
    if (job.verdict(x, want, because)) {
      Bytes a, b;
      bool well;
      if (place.file) well = from_pem(read_file(place.path(0)), "CERTIFICATE", a) && (!sign || from_pem(read_file(place.path(1)), "PRIVATE KEY", b));
      else if (!sign) well = line(x.out, a);
      else { size_t e = x.out.find('\n'); well = e != std::string::npos && line(x.out.substr(0, e + 1), a) && line(x.out.substr(e + 1), b); }
      if (!well) failf("output", "%s; %s", printable(x.out).c_str(), job.info.c_str());
      else if (!sign && a != d.dom.root.cert) failf("pinned certificate", "another certificate than the pinned one; %s", job.info.c_str());
      else if (sign && (!signed_by(a, d.dom.root.cert) || pub_of_key(b).empty() || pub_of_key(b) != pub_of(a))) failf("enrolled certificate", "not one of the domain's CA for the key; %s", job.info.c_str());
      count(fmt("%s to %s", cmd, place.file ? "file" : "stdout"));
    }
    break;
  }
  if (dead >= 0) close(dead);
}
// a server which cannot start
static void start(Rng &r, const std::string &dir) {
  api::Deploy d(r, dir + "/d", true);
  bool reg = r.chance(1, 2);
  char *&cert = reg ? d.rc.tls_cert_path : d.mc.tls_cert_path, *&key = reg ? d.rc.tls_key_path : d.mc.tls_key_path, *&addr = reg ? d.rc.bind_address : d.mc.bind_address;
  unsigned &port = reg ? d.rc.port : d.mc.port;
  port = 0;
  const char *what = "";
  std::string because;
  int busy = -1;
  std::vector<std::vector<std::string>> g;
  bool conf = true;
  switch (reg ? r.below(9) : r.below(7)) {
  case 5: port = r.chance(1, 2) ? 65536u + (unsigned)r.range(0, 65535) : 65536u * (unsigned)r.range(1, 65535), because = "port out of range"; break;
  case 8: g.push_back({"-a", "203.0.113.5"}); because = "address of another machine by option"; break;
  case 7: {
    busy = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in sa{};
    sa.sin_family = AF_INET, sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(busy, (sockaddr *)&sa, sizeof sa) || listen(busy, 1)) harness_error("bind");
    g.push_back({"-p", std::to_string(port_of(busy))}), because = "port in use by option";
    break;
  }
  case 0: spoil(d, what, cert, "certificate", r); because = what; break;
  case 1: spoil(d, what, key, "key", r); because = what; break;
  case 2: key = d.str(d.path[reg ? "masa.key" : "reg-tls.key"]); because = "another key"; break;
  case 3: addr = d.str("203.0.113.5"); because = "address of another machine"; break;
  case 4: {
    busy = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in sa{};
    sa.sin_family = AF_INET, sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(busy, (sockaddr *)&sa, sizeof sa) || listen(busy, 1)) harness_error("bind");
    port = (unsigned)port_of(busy), because = "port in use";
    break;
  }
  default: { std::vector<std::string> c = no_config(r, dir, because); conf = false; if (!c.empty()) g.push_back(c); }
  }
  write_file(dir + "/c", config_text(d.pc, d.rc, d.mc, r));
  if (conf) g.push_back({"-c", dir + "/c"});
  Job job(r, dir, nullptr);
  job.info = fmt("%s, %s", reg ? "registrar" : "masa", because.c_str());
  Ran x = job.run(arrange(r, g, reg ? "registrar" : "masa"), "", false, 0, 60);
  job.verdict(x, 0, because);
  if (busy >= 0) close(busy);
}

static void one(Rng &r, long i) {
  std::string dir = scratch + "/w" + std::to_string(i);
  mkdir(dir.c_str(), 0755);
  uint64_t h = r.s;
  int k = (int)r.below(100);
  if (k < 26) epvr(r, dir);
  else if (k < 56) vmasa(r, dir);
  else if (k < 74) serial(r, dir);
  else if (k < 84) options(r, dir);
  else if (k < 94) net(r, dir);
  else start(r, dir);
  evaluated(h, true);
  clear(dir);
}
int main(int argc, char **argv) {
  setenv("TZ", "UTC", 1);
  init(argc, argv);
  start_process();
  if (!getenv("LOUD")) quiet_log();
  scratch = opt("scratch", ".");
  Process::tool() = opt("cli", "");
  int rc = run(one, 25);
  servers.reset();
  return rc;
}
