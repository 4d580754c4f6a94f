// C24: the dates the program puts into vouchers, under a chosen clock and in
// chosen time zones.
#define STUB_HTTPS
#include "apiworld.hpp"
#include "brski/pledge/pledge_request.hpp"
#include <sys/time.h>
#include <time.h>
extern "C" {
#include "brski/pledge/pledge_utils.h"
}
using namespace api;

// ---- the clock ---------------------------------------------------------------
static int64_t clock_now = 1000000000, clock_step = 0;
static long clock_reads = 0;
static int64_t tick() { clock_reads++; int64_t t = clock_now; clock_now += clock_step; return t; }
extern "C" time_t time(time_t *p) noexcept { time_t t = (time_t)tick(); if (p) *p = t; return t; }
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept { tv->tv_sec = (time_t)tick(); tv->tv_usec = 999999; return 0; }
#include <sys/syscall.h>
extern "C" int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) return (int)syscall(SYS_clock_gettime, c, ts);
  ts->tv_sec = (time_t)tick();
  ts->tv_nsec = 999999999;
  return 0;
}

// ---- an independent calendar -------------------------------------------------
static std::string utc(int64_t t) {
  int64_t days = t / 86400, s = t % 86400;
  int64_t y = 1970;
  auto leap = [](int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
  // whole 400-year cycles first
  y += days / 146097 * 400;
  days %= 146097;
  while (days >= (leap(y) ? 366 : 365)) days -= leap(y) ? 366 : 365, y++;
  static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  int m = 0;
  while (days >= len[m] + (m == 1 && leap(y))) days -= len[m] + (m == 1 && leap(y)), m++;
  return fmt("%04d-%02d-%02dT%02d:%02d:%02dZ", (int)y, m + 1, (int)days + 1, (int)(s / 3600), (int)(s / 60 % 60), (int)(s % 60));
}
static int64_t rand_time(Rng &r) {
  static const std::vector<int64_t> edges = {946684799, 946684800, 951782399, 951782400, 951868800, 1709164799, 1709164800, 1709251199, 1709251200,
                                             1711846799, 1711846800, 1711846801, 1729990799, 1729990800, 1729994400, 2147483646, 2147483647, 2147483648LL, 4102444799LL, 4102444800LL,
                                             4107542399LL, 4107542400LL, 4294967295LL, 4294967296LL, 32503679999LL};
  switch (r.below(5)) {
  case 0: return r.pick(edges);
  case 1: return r.range(946684800, 2000000000);
  case 2: return r.range(1600000000, 1800000000);
  case 3: return r.range(0, 253300000000LL) / 86400 * 86400 + r.range(-2, 2) + 86400; // around midnight
  default: return r.range(86400, 253300000000LL);
  }
}
static const std::vector<const char *> zones = {"UTC", "UTC0", nullptr, "", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "<+14>-14", "<-12>12", "<+0545>-5:45", "NST3:30NDT,M3.2.0,M11.1.0",
                                                "XXX-23:59:59", "XXX+24", "IST-1GMT0,M10.5.0,M3.5.0/1", "Europe/London", "America/New_York", "Asia/Kolkata", "nonsense", "AEST-10AEDT,M10.1.0,M4.1.0/3"};
static std::string scratch;

static void one(Rng &r, long i) {
  const char *z = r.pick(zones);
  int64_t t = rand_time(r);
  if (z) setenv("TZ", z, 1);
  else unsetenv("TZ");
  tzset();
  clock_step = 0;
  clock_now = t;
  Deploy d(r, scratch + "/d" + std::to_string(i), true);
  // another zone from here on in some cases: it must not matter at all
  if (r.chance(1, 6)) { z = r.pick(zones); if (z) setenv("TZ", z, 1); else unsetenv("TZ"); if (r.chance(1, 2)) tzset(); }
  clock_step = r.chance(1, 3) ? (int64_t)r.pick(std::vector<int>{1, 7, 59}) : 0;
  clock_now = t;
  int kind = (int)r.below(4);
  std::string got, info = fmt("zone %s, clock %s + %d per reading", z ? z : "(unset)", utc(t).c_str(), (int)clock_step);
  Bytes cms;
  long reads0 = clock_reads;
  const char *what = "";
  switch (kind) {
  case 0:
  case 1: {
    what = "pledge voucher-request";
    d.pc.created_on = nullptr;
    Buf reg(d.dom.leaf.cert);
    char *p = voucher_pledge_request_to_base64(&d.pc, &reg.a);
    if (p && !ref::unb64(p, cms)) cms = "";
    free(p);
    break;
  }
  case 2: {
    what = "registrar voucher-request";
    VoucherModel m = d.pledge_model(r);
    Bytes body = ref::b64(d.pledge_request(m, r));
    net() = [&](const Out &o, std::string &resp, X509 *&) { if (!ref::unb64(o.body, cms)) cms = ""; resp = "x"; return 200; };
    clock_now = t;
    RegistrarContext ctx{&d.rc, &d.mc, nullptr, ""};
    Reply p = call(registrar_requestvoucher, body, d.maker.leaf.cert, &ctx);
    net() = nullptr;
    break;
  }
  default: {
    what = "serialized present time";
    char *s = serialize_localtime();
    got = s ? s : "";
    free(s);
  }
  }
  int64_t end = clock_now;
  long reads = clock_reads - reads0;
  clock_step = 0;
  if (kind != 3) {
    Opened o = cms_open(cms);
    VoucherModel m;
    if (!o.ok || ref::judge(o.content, m) != 1) { failf(fmt("no-request-%d", kind), "%s: nothing usable was issued; %s", what, info.c_str()); return; }
    if (!m.time.count(ref::A_CREATED)) { failf("no-date", "%s without created-on; %s", what, info.c_str()); return; }
    got = m.time[ref::A_CREATED].text();
  }
  // the moment: any reading between the start and the end
  bool ok = false;
  for (int64_t x = t; x <= end && !ok; x++) ok = got == utc(x);
  if (!ok) failf(fmt("date-%d", kind ? kind : 1), "%s says %s, the time is %s; %s", what, got.c_str(), utc(t).c_str(), info.c_str());
  // a date of the configuration is taken as it is
  if (kind == 0 && r.chance(1, 3)) {
    ref::Date c = ref::rand_date(r);
    d.pc.created_on = d.str(c.text());
    Buf reg(d.dom.leaf.cert);
    char *p = voucher_pledge_request_to_base64(&d.pc, &reg.a);
    Bytes c2;
    if (p && !ref::unb64(p, c2)) c2 = "";
    free(p);
    Opened o = cms_open(c2);
    VoucherModel m;
    if (!o.ok || ref::judge(o.content, m) != 1 || !m.time.count(ref::A_CREATED) || m.time[ref::A_CREATED].text() != c.text()) failf("configured-date", "configured %s; %s", c.text().c_str(), info.c_str());
    count("configured date");
  }
  count(what);
  count("clock readings", reads);
  if (t > 2147483647) count("after 2038");
  count(std::string("zone ") + (z ? z : "(unset)"));
  evaluated(mix(t ^ hash(info)) ^ kind, true);
  if (want_sample()) sample(fmt("%s: %s; %s", what, got.c_str(), info.c_str()));
}
int main(int argc, char **argv) {
  init(argc, argv);
  if (!getenv("LOUD")) quiet_log();
  scratch = opt("scratch", ".");
  return run(one, 100);
}
