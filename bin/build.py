#!/usr/bin/env python3
"""Content-hash incremental builder.

Builds a harness binary from /verif/sim/<name>.cpp plus the sources of /repo/sparta listed in its
CMakeLists.txt, taken from /repo's *current working tree*.  An object is reused only if the SHA-256 of the
source, of every non-system header it included last time, and of its flags are unchanged (mtimes are never
looked at, because checks run in copies).

usage: build.py <harness>...       prints nothing on success; exit 3 with compiler output on failure
"""
import sys, os, re, json, hashlib, subprocess, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
SPARTA = os.path.join(REPO, "sparta")
BUILD = os.environ.get("DST_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("DST_JOBS", str(os.cpu_count() or 4)))

BASE = ["-std=gnu++17", "-DNDEBUG", "-DRAPIDJSON_NOMEMBERITERATORCLASS", "-DSIMDB_ENABLED=0",
        '-DSPARTA_VERSION="dst"', "-I" + SPARTA, "-I" + os.path.join(VERIF, "sim"), "-w", "-pthread"]
VARIANTS = {
    # the shipped configuration (Release: NDEBUG, sparta_assert active), lightly optimised to build fast
    "plain": ["-O1", "-fno-omit-frame-pointer"],
    # every memory access calls back into the harness (see sim/tsan_rt.cpp): used to make memory
    # accesses scheduling points of the simulator, never linked with the real ThreadSanitizer runtime
    "yield": ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}
LIBS = ["-lyaml-cpp", "-lz", "-lboost_date_time", "-lboost_iostreams", "-lboost_serialization",
        "-lboost_timer", "-lboost_program_options", "-lboost_chrono", "-lboost_system", "-lrt", "-ldl", "-pthread"]

# harness -> extra sources, per-file variant overrides
sys.path.insert(0, os.path.join(VERIF, "bin"))
from harnesses import HARNESSES

_sha = {}
def sha(path):
    if path not in _sha:
        try:
            with open(path, "rb") as f:
                _sha[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _sha[path] = "missing"
    return _sha[path]

def lib_sources():
    txt = open(os.path.join(SPARTA, "CMakeLists.txt")).read()
    out = []
    # the unconditional list only: SimDB- and Python-guarded sources are not part of this build
    m = re.search(r"list\s*\(APPEND SourceCppFiles(.*?)\)", txt, re.S)
    for s in m.group(1).split():
        s = s.replace("${SPARTA_BASE}/", "")
        if s.endswith(".cpp") and os.path.exists(os.path.join(SPARTA, s)):
            out.append(os.path.join(SPARTA, s))
    return out

class BuildError(Exception):
    pass

def parse_deps(dfile):
    txt = open(dfile).read().replace("\\\n", " ")
    deps = txt.split(":", 1)[1].split()
    return sorted({os.path.realpath(d) for d in deps if not d.startswith("/usr/")})

def compile_one(job):
    src, variant, extra = job
    flags = BASE + VARIANTS[variant] + extra
    rel = src.replace(REPO, "repo").replace(VERIF, "verif").strip("/").replace("/", "__")
    tag = variant + ("-" + hashlib.sha256(" ".join(extra).encode()).hexdigest()[:8] if extra else "")
    odir = os.path.join(BUILD, "obj", tag)
    os.makedirs(odir, exist_ok=True)
    obj = os.path.join(odir, rel + ".o")
    man = obj + ".json"
    key = hashlib.sha256(("\0".join(["g++"] + flags + [src])).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(man):
        try:
            m = json.load(open(man))
            if m["key"] == key and all(sha(p) == h for p, h in m["deps"].items()):
                return obj, False
        except Exception:
            pass
    if os.path.exists(man):
        os.unlink(man)
    dfile = obj + ".d"
    cmd = ["g++"] + flags + ["-MD", "-MF", dfile, "-c", src, "-o", obj]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (src, r.stdout[-6000:]))
    deps = {p: sha(p) for p in parse_deps(dfile)}
    with open(man + ".tmp", "w") as f:
        json.dump({"key": key, "deps": deps}, f)
    os.rename(man + ".tmp", man)
    return obj, True

def build(names):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    libs = lib_sources()
    jobs, per = [], {}
    for n in names:
        h = HARNESSES[n]
        over = h.get("lib_variant", {})
        drop = set(h.get("lib_drop", []))
        mine = [(os.path.join(VERIF, "sim", s) if not s.startswith("@") else os.path.join(REPO, s[1:]),
                 h.get("variant", "plain"), h.get("flags", []))
                for s in h["src"]]
        mine += [(os.path.join(VERIF, "sim", s), "plain", []) for s in h.get("rt", ["dst_main.cpp"])]
        lib = [(s, over.get(os.path.basename(s), "plain"), []) for s in libs if os.path.basename(s) not in drop]
        per[n] = (mine, lib)
        for j in mine + lib:
            if tuple(map(str, j)) not in {tuple(map(str, k)) for k in jobs}:
                jobs.append(j)
    # big files first
    jobs.sort(key=lambda j: -(os.path.getsize(j[0]) + (10**7 if "/sim/" in j[0] else 0)))
    res = {}
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [(j, ex.submit(compile_one, j)) for j in jobs]
        for j, f in futs:
            res[str(j)] = f.result()
    out = []
    for n in names:
        mine, lib = per[n]
        mo = [res[str(j)][0] for j in mine]
        lo = [res[str(j)][0] for j in lib]
        exe = os.path.join(BUILD, "bin", n)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        lkey = hashlib.sha256(json.dumps([sha_obj(o) for o in mo + lo] + HARNESSES[n].get("ldflags", [])).encode()).hexdigest()
        kf = exe + ".key"
        if os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == lkey:
            continue
        ar = os.path.join(BUILD, "bin", n + ".a")
        if os.path.exists(ar):
            os.unlink(ar)
        subprocess.run(["ar", "rcs", ar] + lo, check=True)
        cmd = ["g++", "-o", exe] + mo + [ar] + HARNESSES[n].get("ldflags", []) + LIBS + ["-rdynamic"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        os.unlink(ar)
        if r.returncode != 0:
            raise BuildError("link failed: %s\n%s" % (n, r.stdout[-6000:]))
        open(kf, "w").write(lkey)
    return 0

def sha_obj(o):
    with open(o, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()

if __name__ == "__main__":
    names = sys.argv[1:]
    if names == ["all"]:
        names = list(HARNESSES)
    try:
        t = time.time()
        build(names)
        if os.environ.get("DST_VERBOSE"):
            print("build %.1fs" % (time.time() - t))
    except BuildError as e:
        print(e)
        sys.exit(3)
