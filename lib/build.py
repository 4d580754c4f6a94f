"""Compiles the sources of the repository (current working tree) and the
harnesses, instrumented.  Objects are cached by content in /verif/.build."""
import hashlib, os, re, subprocess, sys, threading, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
BUILD = os.path.join(VERIF, ".build")
SRC = os.path.join(REPO, "src")


class BuildError(Exception):
    pass


KINDS = {
    # one sanitizer family per build
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "plain": ["-O1", "-g"],
}
# the vendored HTTP library is slow to compile: same sanitizer, less optimisation
HTTP_KINDS = {
    "asan": ["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"],
    "tsan": ["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "plain": ["-O0", "-g1"],
}
CDEFS = ["-D_DEFAULT_SOURCE", "-D_BSD_SOURCE", "-D_XOPEN_SOURCE"]
LIBS = ["-lminIni", "-lssl", "-lcrypto", "-lpthread"]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_lock = threading.Lock()
_hdr = None


def _gen_include():
    """version.h, which the real build generates from the project version."""
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    t = _read(os.path.join(REPO, "version.h.in")).decode()
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", _read(os.path.join(REPO, "CMakeLists.txt")).decode())
    v = m.groups() if m else ("0", "0", "0")
    rep = {"PROJECT_VERSION": ".".join(v), "PROJECT_VERSION_MAJOR": v[0], "PROJECT_VERSION_MINOR": v[1],
           "PROJECT_VERSION_PATCH": v[2]}
    t = re.sub(r"@(\w+)@", lambda k: rep.get(k.group(1), ""), t)
    p = os.path.join(d, "version.h")
    if not os.path.exists(p) or _read(p).decode() != t:
        with open(p + ".%d" % os.getpid(), "w") as f:
            f.write(t)
        os.rename(p + ".%d" % os.getpid(), p)
    return d


def _headers_hash():
    global _hdr
    with _lock:
        if _hdr is None:
            h = hashlib.sha256()
            fs = []
            for pat in ("**/*.h", "**/*.hpp", "**/*.inc"):
                fs += glob.glob(os.path.join(SRC, pat), recursive=True)
            fs += glob.glob(os.path.join(VERIF, "harness", "*.h*"))
            for f in sorted(fs):
                h.update(f.encode() + b"\0" + _read(f))
            _hdr = h.hexdigest()
    return _hdr


def _rel(p):
    return os.path.relpath(p, REPO)


def sources():
    """Groups of sources of the repository, found by looking."""
    g = {"core": [], "api": [], "http": [], "cli": []}
    for p in sorted(glob.glob(os.path.join(SRC, "**", "*"), recursive=True)):
        ext = os.path.splitext(p)[1]
        if ext not in (".c", ".cpp", ".cc"):
            continue
        r = os.path.relpath(p, SRC)
        if r == "voucher/crypto_wssl.c":
            continue
        if r == "brski/brski.cpp":
            g["cli"].append(p)
        elif r.startswith("brski/http/"):
            g["http"].append(p)
        elif ext == ".c":
            g["core"].append(p)
        else:
            g["api"].append(p)
    return g


def _compile(src, flags, cxx, tag):
    h = hashlib.sha256()
    h.update(_headers_hash().encode())
    h.update(("\0".join(flags) + src).encode())
    h.update(_read(src))
    for inc in re.findall(rb'#include "([^"]+\.(?:c|cpp))"', _read(src)):
        for base in (os.path.dirname(src), SRC):
            q = os.path.join(base, inc.decode())
            if os.path.exists(q):
                h.update(_read(q))
    out = os.path.join(BUILD, tag, os.path.basename(src) + "." + h.hexdigest()[:24] + ".o")
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    cmd = [("g++" if cxx else "gcc")] + flags + ["-w", "-c", src, "-o", tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s\n%s" % (src, " ".join(cmd), r.stderr[-4000:]))
    os.rename(tmp, out)
    return out


def _flags_for(src, kind, group):
    gen = _gen_include()
    if src.endswith(".c"):
        return KINDS[kind] + ["-std=gnu11", "-I" + SRC] + CDEFS + ["-I" + gen], False
    k = HTTP_KINDS[kind] if group == "http" else KINDS[kind]
    return k + ["-std=c++11", "-DWITH_CPPHTTPLIB_LIB", "-I" + SRC, "-I" + gen], True


def objects(kind, groups, pool):
    srcs = sources()
    futs = []
    for g in groups:
        for s in srcs[g]:
            fl, cxx = _flags_for(s, kind, g)
            futs.append((g, pool.submit(_compile, s, fl, cxx, kind)))
    return futs


def link(name, kind, objs, extra=()):
    h = hashlib.sha256(("\0".join(sorted(objs)) + "\0" + "\0".join(extra)).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, kind, "%s.%s" % (name, h))
    if os.path.exists(out):
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    san = [f for f in KINDS[kind] if f.startswith("-fsanitize")]
    cmd = ["g++"] + san + objs + ["-o", tmp] + list(extra) + LIBS
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
    os.rename(tmp, out)
    return out


def build(specs):
    """specs: list of dicts {name, kind, harness: [files] , groups: [...],
    link: [flags], cflags: [flags]}; returns {name: binary}.  name may be the
    command-line tool ("groups" with cli and no harness)."""
    out = {}
    with ThreadPoolExecutor(8) as pool:
        pend = []
        guard = None
        if any(s["kind"] == "asan" for s in specs):
            g = os.path.join(VERIF, "harness", "guard.cpp")
            guard = pool.submit(_compile, g, KINDS["asan"] + ["-std=gnu++17", "-I" + os.path.join(VERIF, "harness")], True, "asan")
            guards = re.findall(r"^GR?\([^,]*?, (\w+), ", _read(g).decode(), re.M)
        # slow things first
        order = sorted(specs, key=lambda s: 0 if "http" in s["groups"] else 1)
        for s in order:
            groups = sorted(s["groups"], key=lambda g: {"http": 0}.get(g, 1))
            f = objects(s["kind"], groups, pool)
            hf = []
            for src in s.get("harness", []):
                p = os.path.join(VERIF, "harness", src)
                fl = KINDS[s["kind"]] + ["-std=gnu++17", "-DWITH_CPPHTTPLIB_LIB", "-I" + SRC,
                                         "-I" + os.path.join(VERIF, "harness"), "-I" + _gen_include()] + list(s.get("cflags", []))
                hf.append(pool.submit(_compile, p, fl, True, s["kind"]))
            pend.append((s, f, hf))
        for s, f, hf in pend:
            objs = [x.result() for x in hf] + [x.result() for _, x in f]
            if guard is not None and s["kind"] == "asan":
                objs.append(guard.result())
            # the same object only once
            seen, o2 = set(), []
            for o in objs:
                if o not in seen:
                    seen.add(o)
                    o2.append(o)
            out[s["name"]] = pool.submit(link, s["name"], s["kind"], o2, tuple(s.get("link", [])) + (tuple("-Wl,--wrap=" + x for x in guards) if s["kind"] == "asan" else ()))
        return {k: v.result() for k, v in out.items()}


if __name__ == "__main__":
    import time
    t = time.time()
    print(build([{"name": "brski", "kind": k, "groups": ["core", "api", "http", "cli"]} for k in (sys.argv[1:] or ["asan"])]))
    print("%.1f s" % (time.time() - t))
