"""Runs the instrumented harnesses of one check, watches them, and turns what
the monitors and sanitizers report into a verdict and an evidence file.

Verdicts: 0 held on everything explored; 1 with a VIOLATION line; 2 harness or
build failure, or a run that observed too little (inconclusive)."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
import build

VERIF = build.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
ASAN = "abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:print_legend=0:malloc_context_size=12"
UBSAN = "print_stacktrace=1:halt_on_error=1:exitcode=99"
TSAN = "ignore_noninstrumented_modules=1:halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"
LSAN = "print_suppressions=0:report_objects=0"


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def _frames(text):
    """repository functions named in a stack, outermost last"""
    fr = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?([^\s(]+)[^\n]*?(/[^\s:]+):(\d+)", text)
    return [(f, p) for f, p, _ in fr]


def _sig(text):
    for f, p in _frames(text):
        if p.startswith(build.SRC):
            return f
    fr = _frames(text)
    for f, p in fr:
        if "/harness/" in p:
            return "harness:" + f
    return fr[0][0] if fr else "?"


def classify_crash(rc, err):
    """(key, detail) of an abnormal end, from the sanitizer report"""
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([^\n]*)", err)
    if m:
        kind = m.group(2).split(" on ")[0].split(" ")[0].strip(":")
        if "attempting double-free" in m.group(2):
            kind = "double-free"
        return "asan:%s:%s" % (kind, _sig(err[m.start():])), err[m.start():m.start() + 3000]
    m = re.search(r"([^\n]*runtime error: ([^\n]*))", err)
    if m:
        return "ubsan:%s:%s" % (re.sub(r"[^a-z]+", "-", m.group(2).lower())[:40], _sig(err[m.start():])), err[m.start():m.start() + 3000]
    m = re.search(r"==\d+== ((?:Invalid|Conditional|Use of|Syscall param|Mismatched|Source and dest)[^\n]*)\n((?:==\d+==    [^\n]*\n)+)", err)
    if m:
        fs = re.findall(r"(?:at|by) 0x[0-9A-F]+: (\S+) \(([^):\s]+):\d+\)", m.group(2))
        src = {os.path.basename(x) for pat in ("*.c", "*.cpp", "*.h", "*.hpp") for x in glob.glob(os.path.join(build.SRC, "**", pat), recursive=True)}
        f = [a for a, b in fs if b in src] or [a for a, b in fs] or ["?"]
        return "memcheck:%s:%s" % (re.sub(r"[^a-z]+", "-", m.group(1).lower())[:40].strip("-"), f[0]), err[m.start():m.start() + 3000]
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", err)
    if m:
        body = err[m.start():m.start() + 5000]
        parts = re.split(r"\n\s*\n", body)
        sig = "+".join(sorted({_sig(p) for p in parts[:2]}))
        return "tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), sig), body
    if rc < 0:
        try:
            n = signal.Signals(-rc).name
        except ValueError:
            n = str(-rc)
        return "signal:" + n, err[-2000:]
    return "exit:%d" % rc, err[-2000:]


MEMCHECK = ["valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=9", "--num-callers=16", "--leak-check=no"]


class Check:
    def __init__(self, prop, rule, level="exploration", assumptions=()):
        self.prop, self.rule, self.level, self.assumptions = prop, rule, level, list(assumptions)
        self.t0 = time.time()
        self.viol = {}          # key -> dict
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.stages = []
        self.notes = []
        self.inconclusive = []
        self.tmp = tempfile.mkdtemp(prefix="vchk_%s_" % prop)
        self.bins = {}
        os.chmod(self.tmp, 0o755)

    # -- building
    def build(self, specs):
        try:
            self.bins.update(build.build(specs))
        except build.BuildError as e:
            print("HARNESS-ERROR: build failed\n%s" % e)
            self.finish_error()
        self.build_s = time.time() - self.t0

    def finish_error(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        sys.stdout.flush()
        os._exit(2)

    def scale(self, quick, thorough):
        return thorough if TIER == "thorough" else quick

    # -- recording
    def violation(self, key, detail, replay=None):
        if key not in self.viol:
            self.viol[key] = {"key": key, "detail": detail[:6000], "replay": replay or {}, "count": 0}
        self.viol[key]["count"] += 1

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def evaluated(self, ident, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hash(ident))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s[:600])

    # -- running
    def env(self, extra=None):
        e = dict(os.environ)
        e.update(ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN, TSAN_OPTIONS=TSAN, LSAN_OPTIONS=LSAN, TZ="UTC", LC_ALL="C")
        e.update(extra or {})
        return e

    def _cmd(self, binary, a, b, out, prog, opts):
        c = [binary, "--seed", str(SEED), "--tier", TIER, "--from", str(a), "--to", str(b), "--out", out, "--progress", prog]
        for k, v in (opts or {}).items():
            c += ["--" + k, str(v)]
        return c

    def _progress(self, p):
        try:
            with open(p, "rb") as f:
                return int.from_bytes(f.read(8), "little", signed=True)
        except OSError:
            return -1

    def stage(self, name, binary, cases, shards=8, opts=None, env=None, hang_s=60, max_crashes=3, cwd=None, wrap=()):
        """Run cases [0,cases) of a harness split over shard processes."""
        if TIER == "quick":
            hang_s = min(hang_s, 130)
        t0 = time.time()
        binary = self.bins.get(binary, binary)
        shards = max(1, min(shards, cases))
        step = (cases + shards - 1) // shards
        work = [(i * step, min(cases, (i + 1) * step)) for i in range(shards) if i * step < cases]
        serial = 0
        running = []
        ev0 = self.evaluations
        crashes = 0

        def start(a, b, only=False, hang=hang_s):
            nonlocal serial
            serial += 1
            d = os.path.join(self.tmp, "%s.%d" % (name, serial))
            os.mkdir(d)
            out, prog, err = d + "/out", d + "/progress", d + "/stderr"
            so = dict(opts or {})
            so["scratch"] = d
            p = subprocess.Popen(list(wrap) + self._cmd(binary, a, b, out, prog, so), stdout=subprocess.DEVNULL, stderr=open(err, "wb"),
                                 stdin=subprocess.DEVNULL, env=self.env(env), cwd=cwd or d, start_new_session=True)
            running.append(dict(p=p, a=a, b=b, out=out, prog=prog, err=err, last=None, t=time.time(), only=only, hang=hang, d=d))

        for a, b in work:
            start(a, b)
        while running:
            time.sleep(0.02)
            if TIER == "quick" and time.time() - self.t0 > 800:
                self.notes.append("stage %s: stopped after 800 s, with cases left" % name)
                self._kill(running)
                for r in running:
                    r["p"].wait()
                    self._collect(name, r, binary, opts, partial=True)
                break
            for r in list(running):
                rc = r["p"].poll()
                cur = self._progress(r["prog"])
                if rc is None:
                    if cur != r["last"]:
                        r["last"], r["t"] = cur, time.time()
                        continue
                    if time.time() - r["t"] < r["hang"]:
                        continue
                    # no progress: stop it, then retry this case alone
                    try:
                        os.killpg(r["p"].pid, signal.SIGKILL)
                    except OSError:
                        pass
                    r["p"].wait()
                    running.remove(r)
                    self._collect(name, r, binary, opts, partial=True)
                    if r["only"]:
                        self.violation("hang:" + name, "case %d made no progress for %d s, twice (alone the second time)" % (cur, r["hang"]),
                                       self._replay(name, binary, cur, opts, env))
                        self.notes.append("stage %s: stopped at the first confirmed hang" % name)
                        self._kill(running)
                        running = []
                        break
                    if cur < 0:
                        cur = r["a"]
                    self.notes.append("stage %s: case %d made no progress for %d s; retried alone" % (name, cur, r["hang"]))
                    start(cur, cur + 1, only=True, hang=2 * hang_s)
                    if cur + 1 < r["b"]:
                        start(cur + 1, r["b"])
                    continue
                running.remove(r)
                try:
                    os.killpg(r["p"].pid, signal.SIGKILL)
                except OSError:
                    pass
                err = open(r["err"], errors="replace").read()
                if rc == 3 or "HARNESS-ERROR" in err:
                    if self.viol:
                        self.notes.append("harness error after violations: " + err[-500:])
                        continue
                    print("HARNESS-ERROR in stage %s (cases %d-%d, at %d):\n%s" % (name, r["a"], r["b"], cur, err[-4000:]))
                    self._kill(running)
                    self.finish_error()
                done = self._collect(name, r, binary, opts, partial=(cur != -2), env=env, err=err)
                if cur == -2 and done:
                    continue
                # died in the middle
                crashes += 1
                key, det = classify_crash(rc, err)
                if cur < 0:
                    cur = r["a"]
                self.violation(key, "stage %s, case %d: the process ended abnormally (status %d)\n%s" % (name, cur, rc, det),
                               self._replay(name, binary, cur, opts, env))
                if crashes <= max_crashes and cur + 1 < r["b"]:
                    start(cur + 1, r["b"])
        self.stages.append({"stage": name, "cases": cases, "evaluations": self.evaluations - ev0, "wall_s": round(time.time() - t0, 2)})

    def _kill(self, running):
        for r in running:
            try:
                os.killpg(r["p"].pid, signal.SIGKILL)
            except OSError:
                pass

    def _replay(self, name, binary, case, opts, env):
        return {"stage": name, "case": case, "seed": SEED, "tier": TIER, "options": opts or {}, "env": env or {},
                "how": "run the check with VERIF_SEED=%d; or its harness with --seed %d --tier %s --from %d --to %d" % (SEED, SEED, TIER, case, case + 1)}

    def _collect(self, name, r, binary, opts, partial, env=None, err=""):
        done = False
        try:
            lines = open(r["out"], errors="replace").read().split("\n")
        except OSError:
            lines = []
        for l in lines:
            if not l.startswith("{"):
                continue
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j["t"] == "fail":
                key, det = j["key"], j["detail"]
                if key == "leak":
                    m = list(re.finditer(r"(?:Direct|Indirect) leak of[^\n]*\n(?:[^\n]+\n)*", err))
                    if m:
                        sig = sorted({_sig(x.group(0)) for x in m if x.group(0).startswith("Direct")}) or sorted({_sig(x.group(0)) for x in m})
                        key = "leak:" + "+".join(sig[:3])
                        det += "\n" + "\n".join(x.group(0) for x in m)[:3000]
                    elif "LeakSanitizer has encountered a fatal error" in err:
                        print("HARNESS-ERROR: LeakSanitizer cannot run here:\n" + err[-1500:])
                        self.finish_error()
                self.violation(key, "stage %s, case %d: %s" % (name, j["case"], det), self._replay(name, binary, j["case"], opts, env))
            elif j["t"] == "end":
                done = True
                self.evaluations += j["evaluations"]
                for k, v in j["counters"].items():
                    self.count(k, v)
                self.distinct.update(hash((name, x)) for x in j["distinct"])
                for s in j["samples"][:2]:
                    self.sample(s)
        if partial and not done:
            # what a dead process had observed is lost except for its position
            n = max(0, self._progress(r["prog"]) - r["a"])
            self.count("cases_before_abnormal_end", n)
        return done

    # -- verdict
    def finish(self, require=None, min_evaluations=1):
        known = known_findings(self.prop)
        kk = {k: d for k, d in known}
        reported = {k: v for k, v in self.viol.items() if k not in kk}
        seen_known = {k: v for k, v in self.viol.items() if k in kk}
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples, "observed": dict(sorted(self.counters.items())), "stages": self.stages}
        if self.notes:
            cov["notes"] = self.notes
        if known:
            cov["known_findings_seen"] = {k: v["count"] for k, v in seen_known.items()}
        ev = {"property": self.prop, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(reported)}
        if not self.samples:
            cov["samples"] = ["(none)"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, d in known:
            print("KNOWN-FINDING: property=%s %s [%s; %s]" % (self.prop, d, k, "observed in this run" if k in seen_known else "not reached in this run"))
        shutil.rmtree(self.tmp, ignore_errors=True)
        rep = os.path.join(VERIF, "evidence", "replay")
        if reported:
            os.makedirs(rep, exist_ok=True)
            for i, (k, v) in enumerate(sorted(reported.items())[:10]):
                p = os.path.join(rep, "%s-%d.json" % (self.prop, i))
                with open(p, "w") as f:
                    json.dump({"property": self.prop, **v}, f, indent=1)
                print("--- %s: %s (%d times)\n%s" % (self.prop, k, v["count"], v["detail"][:1500]))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("%s: %d evaluations, %d distinct, %.1f s" % (self.prop, self.evaluations, len(self.distinct), time.time() - self.t0))
            sys.stdout.flush()
            os._exit(1)
        short = [(k, n, self.counters.get(k, 0)) for k, n in (require or {}).items() if self.counters.get(k, 0) < n]
        if self.evaluations < min_evaluations:
            short.append(("evaluations", min_evaluations, self.evaluations))
        print("%s: held on %d evaluations, %d distinct non-trivial, %.1f s" % (self.prop, self.evaluations, len(self.distinct), time.time() - self.t0))
        if short:
            print("INCONCLUSIVE: too little observed: %s" % short)
            sys.stdout.flush()
            os._exit(2)
        sys.stdout.flush()
        os._exit(0)
