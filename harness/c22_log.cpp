// C22: everything logged is compared with what came out, sequentially and from
// many threads under an installed lock whose use is watched.
#include "brski_c.hpp"
#include <atomic>
#include <cerrno>
#include <pthread.h>
#include <regex>
#include <sched.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
using namespace vh;

static const char *NAMES[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR"};
static std::string dir;
static Bytes slurp(const std::string &p) {
  FILE *f = fopen(p.c_str(), "rb");
  Bytes b;
  char t[65536];
  size_t n;
  while (f && (n = fread(t, 1, sizeof t, f)) > 0) b.append(t, n);
  if (f) fclose(f);
  return b;
}

// ---- disturbance: the text of a message is written in the middle of a line
static std::atomic<uint32_t> jitter{0};
extern "C" int __real_vfprintf(FILE *, const char *, va_list);
extern "C" int __wrap_vfprintf(FILE *f, const char *fm, va_list a) {
  uint32_t j = jitter.load(std::memory_order_relaxed);
  if (j) {
    static thread_local uint64_t x = (uint64_t)pthread_self();
    x = mix(x + j);
    if (x % 3 == 0) sched_yield();
    else if (x % 31 == 0) usleep(50);
  }
  return __real_vfprintf(f, fm, a);
}

// ---- the lock
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static std::atomic<long> *acquired, *released, *bad_release, *nested; // shared with forked children
static std::atomic<pthread_t> *owner;
static void lock_fn(bool l) {
  if (l) {
    if (owner->load() == pthread_self()) { (*nested)++; return; }
    pthread_mutex_lock(&mtx);
    owner->store(pthread_self());
    (*acquired)++;
  } else {
    if (owner->load() != pthread_self()) { (*bad_release)++; return; }
    owner->store(0);
    (*released)++;
    pthread_mutex_unlock(&mtx);
  }
}
static void reset_lock() { *acquired = *released = *bad_release = *nested = 0; *owner = 0; }
static void judge_lock(const std::string &what) {
  if (*nested) failf("lock-nested", "%ld times (%s)", nested->load(), what.c_str());
  if (*bad_release) failf("lock-released-without", "%ld times (%s)", bad_release->load(), what.c_str());
  if (*acquired != *released) failf("lock-kept", "taken %ld times, released %ld times (%s)", acquired->load(), released->load(), what.c_str());
}

// one line as it should come out
struct Line { int level; bool meta; Bytes text; std::string file; int err; };

// message of one line: level, place and text
static bool line_ok(const Bytes &l, const Line &w) {
  if (l.size() < w.text.size() || l.compare(l.size() - w.text.size(), Bytes::npos, w.text)) return false;
  Bytes head = l.substr(0, l.size() - w.text.size());
  Bytes e = w.err > 0 ? strerror(w.err) : "";
  if (!e.empty() && head.find(e) == Bytes::npos) return false;
  if (!w.meta) return e.empty() ? head.empty() : true;
  // time, level, file and line number
  size_t lv = head.find(NAMES[w.level]), fl = head.find(w.file);
  for (int i = 0; i < 5; i++) if (i != w.level && head.find(NAMES[i]) != Bytes::npos) return false;
  return lv != Bytes::npos && fl != Bytes::npos && lv < fl;
}
static void compare(const Bytes &got, const std::vector<Line> &want, const std::string &what) {
  size_t p = 0, i = 0;
  for (; i < want.size(); i++) {
    size_t e = got.find('\n', p);
    if (e == Bytes::npos) break;
    Bytes l = got.substr(p, e - p);
    // a text may hold line feeds itself
    for (size_t q = 0; (q = want[i].text.find('\n', q)) != Bytes::npos; q++) {
      e = got.find('\n', e + 1);
      if (e == Bytes::npos) { e = got.size(); break; }
      l = got.substr(p, e - p);
    }
    if (!line_ok(l, want[i])) {
      failf("line", "line %zu is '%s', expected level %s text '%s' (%s)", i, printable(l, 200).c_str(), NAMES[want[i].level], printable(want[i].text, 120).c_str(), what.c_str());
      return;
    }
    p = e + 1;
  }
  if (i < want.size()) failf("lost", "%zu of %zu messages came out, the next one missing is '%s' (%s)", i, want.size(), printable(want[i].text, 100).c_str(), what.c_str());
  else if (p < got.size()) failf("extra", "unexpected output '%s' (%s)", printable(got.substr(p), 200).c_str(), what.c_str());
}

static Bytes text(Rng &r, const std::string &id) {
  Bytes b = "<" + id + "> ";
  size_t n = r.chance(1, 30) ? (size_t)r.range(4000, 70000) : r.chance(1, 8) ? (size_t)r.range(200, 2000) : (size_t)r.range(0, 80);
  for (size_t i = 0; i < n; i++) b += (char)r.range(33, 126);
  if (r.chance(1, 8)) b += "%s%n%d%%";
  if (r.chance(1, 10)) b += "\xc3\xa9\xff\x01\t";
  return b;
}
static const char *const HERE = "c22_log.cpp";
static void emit(int level, const Bytes &t, int err, int style) {
  if (err >= 0) {
    errno = err;
    log_errno("%s", t.c_str());
    if (errno != err) failf("errno-changed", "errno %d became %d", err, errno);
    return;
  }
  switch (style) {
  case 1: // several arguments
    { std::string a = t.substr(0, t.size() / 2), b = t.substr(t.size() / 2);
      log_levels((uint8_t)level, HERE, 7, "%s%.*s", a.c_str(), (int)b.size(), b.c_str()); }
    return;
  default:
    switch (level) {
    case 0: log_trace("%s", t.c_str()); return;
    case 1: log_debug("%s", t.c_str()); return;
    case 2: log_info("%s", t.c_str()); return;
    case 3: log_warn("%s", t.c_str()); return;
    default: log_error("%s", t.c_str()); return;
    }
  }
}

struct Capture { // of standard error
  int saved, fd;
  std::string path;
  explicit Capture(const std::string &p) : path(p) {
    fflush(stderr);
    saved = dup(2);
    fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if (saved < 0 || fd < 0 || dup2(fd, 2) < 0) _exit(3);
  }
  Bytes end() {
    fflush(stderr);
    dup2(saved, 2);
    close(saved);
    close(fd);
    Bytes b = slurp(path);
    unlink(path.c_str());
    return b;
  }
};

static void sequential(Rng &r, long i) {
  std::string what, fpath[2] = {dir + "/log.a", dir + "/log.b"};
  std::vector<Line> out[3]; // stderr, files
  Bytes got[3];
  int level = 0, dest = 0;
  bool quiet = false, meta = true, locked = r.chance(1, 2);
  log_set_level(0), log_set_quiet(false), log_set_meta(true), log_set_color(r.chance(1, 2));
  reset_lock();
  log_set_lock(locked ? lock_fn : nullptr);
  std::vector<std::pair<std::string, std::string>> bad; // reported after the capture
  uint64_t h = mix(i);
  int steps = (int)r.range(5, 60), written = 0, suppressed = 0;
  Capture cap(dir + "/stderr.txt");
  for (int s = 0; s < steps; s++) {
    int op = (int)r.below(14);
    h = mix(h ^ op);
    if (op == 0) { level = (int)r.below(6); log_set_level((uint8_t)level); }
    else if (op == 1) { quiet = r.chance(1, 3); log_set_quiet(quiet); }
    else if (op == 2) { meta = r.chance(2, 3); log_set_meta(meta); }
    else if (op == 3) log_set_color(r.chance(1, 2));
    else if (op == 4) {
      if (dest) { log_close_file(); dest = 0; }
      else {
        int f = (int)r.below(2);
        std::string p = fpath[f];
        if (log_open_file((char *)p.c_str()) != 0) { bad.push_back({"open-file", "log_open_file fails"}); break; }
        dest = 1 + f;
        if (r.chance(1, 3)) log_set_color(true);
      }
    } else if (op == 5 && !dest && r.chance(1, 2)) {
      std::string p = dir + "/nosuchdir/log";
      if (log_open_file((char *)p.c_str()) == 0) bad.push_back({"open-file", "log_open_file succeeds for a path that cannot be written"});
    } else {
      int lv = (int)r.below(5);
      int err = r.chance(1, 6) ? (int)r.pick(std::vector<int>{0, ENOENT, EINVAL, EMFILE, 9999, ENOTRECOVERABLE}) : -1;
      if (err >= 0) lv = 4;
      Bytes t = text(r, fmt("%d", s));
      if (r.chance(1, 12)) t += "\n continued";
      emit(lv, t, err, (int)r.below(2));
      if (lv >= level && !quiet) { out[dest].push_back({lv, meta, t, HERE, err}); written++; }
      else suppressed++;
    }
  }
  if (dest) log_close_file();
  got[0] = cap.end();
  log_set_lock(nullptr);
  log_set_quiet(true);
  for (int f = 0; f < 2; f++) { got[f + 1] = slurp(fpath[f]); unlink(fpath[f].c_str()); }
  for (auto &b : bad) fail(b.first, b.second);
  for (int d = 0; d < 3; d++) compare(got[d], out[d], d ? "file" : "standard error");
  if (locked) judge_lock("sequential");
  count("written", written);
  count("suppressed", suppressed);
  evaluated(h, written > 0 && suppressed > 0);
}

static void concurrent(Rng &r, long i) {
  int T = (int)r.range(2, 8), N = (int)r.range(10, 60), level = (int)r.below(4);
  bool meta = r.chance(3, 4), file = r.chance(1, 2);
  std::string path = dir + "/log";
  log_set_level((uint8_t)level), log_set_quiet(false), log_set_meta(meta), log_set_color(r.chance(1, 2));
  reset_lock();
  log_set_lock(lock_fn);
  if (file && log_open_file((char *)path.c_str()) != 0) { fail("open-file", "log_open_file fails"); return; }
  std::vector<std::vector<std::pair<int, Bytes>>> msg(T);
  std::vector<std::vector<int>> errs(T);
  std::map<Bytes, std::pair<int, int>> expected; // text -> thread, number
  for (int t = 0; t < T; t++) for (int n = 0; n < N; n++) {
    int lv = (int)r.below(5), err = r.chance(1, 8) ? ENOENT : -1;
    if (err >= 0) lv = 4;
    msg[t].push_back({lv, text(r, fmt("t%d.%d", t, n))});
    errs[t].push_back(err);
  }
  std::atomic<int> ready{0};
  jitter = (uint32_t)r.next() | 1;
  Capture *cap = file ? nullptr : new Capture(dir + "/stderr.txt");
  std::vector<std::thread> th;
  for (int t = 0; t < T; t++) th.emplace_back([&, t] {
    ready++;
    while (ready < T) sched_yield();
    for (int n = 0; n < N; n++) emit(msg[t][n].first, msg[t][n].second, errs[t][n], (t + n) % 2);
  });
  for (auto &x : th) x.join();
  jitter = 0;
  Bytes got;
  if (file) { log_close_file(); got = slurp(path); unlink(path.c_str()); }
  else got = cap->end();
  delete cap;
  log_set_lock(nullptr);
  log_set_quiet(true);
  std::string what = fmt("%d threads, %d messages each, level %d, to %s", T, N, level, file ? "a file" : "standard error");
  judge_lock(what);
  // per thread the lines come in order, each complete
  std::vector<int> next(T, 0);
  auto skip = [&](int t) { while (next[t] < N && msg[t][next[t]].first < level) next[t]++; };
  for (int t = 0; t < T; t++) skip(t);
  size_t p = 0;
  int last = -1, switches = 0, lines = 0;
  while (p < got.size()) {
    size_t e = got.find('\n', p);
    Bytes l = got.substr(p, (e == Bytes::npos ? got.size() : e) - p);
    if (e == Bytes::npos) { failf("concurrent-line", "the last line '%s' is not complete (%s)", printable(l, 150).c_str(), what.c_str()); break; }
    p = e + 1;
    size_t a = l.find("<t");
    int t = -1, n = -1;
    if (a == Bytes::npos || sscanf(l.c_str() + a, "<t%d.%d>", &t, &n) != 2 || t < 0 || t >= T || n < 0 || n >= N) { failf("concurrent-line", "'%s' is no message (%s)", printable(l, 150).c_str(), what.c_str()); break; }
    if (next[t] != n) { failf(n < next[t] ? "concurrent-twice" : msg[t][n].first < level ? "concurrent-level" : "concurrent-lost", "message %d of thread %d comes, %d was due (%s)", n, t, next[t], what.c_str()); break; }
    if (!line_ok(l, {msg[t][n].first, meta, msg[t][n].second, HERE, errs[t][n]})) { failf("concurrent-line", "message '%s' came out as '%s' (%s)", printable(msg[t][n].second, 100).c_str(), printable(l, 200).c_str(), what.c_str()); break; }
    next[t]++;
    skip(t);
    if (last >= 0 && last != t) switches++;
    last = t;
    lines++;
  }
  if (!S().fails) for (int t = 0; t < T; t++) if (next[t] < N) failf("concurrent-lost", "message %d of thread %d did not come out (%s)", next[t], t, what.c_str());
  count("concurrent lines", lines);
  count("switches between threads", switches);
  evaluated(mix(r.s), switches > 2);
  if (want_sample()) sample(what + fmt(": %d lines, %d switches between threads", lines, switches));
}

// the calls that end the process: the message is out, the lock released, the exit status a failure
static void ending(Rng &r, long i) {
  bool proc = r.chance(1, 2), file = r.chance(1, 2), quiet = r.chance(1, 5);
  std::string path = dir + "/log", errp = dir + "/stderr.txt";
  Bytes t = text(r, "end");
  reset_lock();
  pid_t c = fork();
  if (c == 0) {
    int fd = open(errp.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    dup2(fd, 2);
    log_set_level(0), log_set_quiet(quiet), log_set_meta(true);
    log_set_lock(lock_fn);
    if (file && log_open_file((char *)path.c_str()) != 0) _exit(77);
    errno = ENOENT;
    if (proc) log_err_exp("%s", t.c_str());
    else {
#if defined(__SANITIZE_ADDRESS__)
      __lsan_disable();
#endif
      log_err_ex("%s", t.c_str());
    }
    _exit(78);
  }
  int st = 0;
  waitpid(c, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != EXIT_FAILURE) failf("ending-status", "%s ended with wait status %d", proc ? "log_err_exp" : "log_err_ex", st);
  judge_lock("ending the process");
  std::vector<Line> w, none;
  if (!quiet) w.push_back({4, true, t, HERE, ENOENT});
  compare(slurp(errp), file ? none : w, "ending, standard error");
  compare(slurp(path), file ? w : none, "ending, file");
  unlink(errp.c_str());
  unlink(path.c_str());
  count("ending");
  evaluated(hash(t), true);
}

int main(int argc, char **argv) {
  init(argc, argv);
  unsetenv("EF_DUMPCORE");
  dir = opt("scratch", ".");
  char *sh = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  acquired = new (sh) std::atomic<long>(0), released = new (sh + 64) std::atomic<long>(0), bad_release = new (sh + 128) std::atomic<long>(0), nested = new (sh + 192) std::atomic<long>(0);
  owner = new (sh + 256) std::atomic<pthread_t>(0);
  log_set_quiet(true);
  std::string m = opt("mode");
  return run([&](Rng &r, long i) {
    if (m == "concurrent") concurrent(r, i);
    else if (i % 20 == 7) ending(r, i);
    else sequential(r, i);
  }, m == "concurrent" ? 0 : 200);
}
