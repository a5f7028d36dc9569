"""Compile /repo's current sources to LLVM bitcode and link/dump them.

Everything is derived from the working tree of /repo on every run; a cache
keyed by the hash of every source file only avoids repeating work when the
tree did not change (it lives in /verif/.cache, ignored by git).
"""
import hashlib, json, os, pickle, subprocess, sys, tempfile, glob, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLY_REPO", "/repo")
SRC = os.path.join(REPO, "repos/plywood/src")
CACHE = os.path.join(VERIF, ".cache")
LLVM = "/usr/lib/llvm-18/bin"

class BuildError(Exception):
    pass

INCLUDE_DIRS = """platform runtime math/math math/serial reflect image/image image/reflect audio/primitives
pylon/pylon pylon/reflect cpp crowbar build build/common build/folder build/provider build/repo build/target
web/common web/markdown web/sass web/documentation web/serve-docs test/test apps/plytool apps/plytool/plytool apps/plytool/plytool-client""".split()

GEN_DIRS = ["gen", "gen/crowbar", "gen/documentation", "gen/audio", "gen/crowbartest"]

# Source groups: directory -> glob; what the real build compiles.
GROUP_DIRS = {
    "runtime": ["runtime/ply-runtime"],
    "math": ["math/math/ply-math"],
    "reflect": ["reflect/ply-reflect"],
    "pylon": ["pylon/pylon/pylon"],
    "pylonreflect": ["pylon/reflect/pylon-reflect"],
    "cpp": ["cpp/ply-cpp"],
    "crowbar": ["crowbar/ply-crowbar"],
    "build": ["build/common", "build/folder", "build/provider", "build/repo", "build/target"],
    "webcommon": ["web/common/web-common"],
    "markdown": ["web/markdown/web-markdown"],
    "docs": ["web/documentation/web-documentation", "web/serve-docs/ply-web-serve-docs"],
    "plytool": ["apps/plytool/plytool", "apps/plytool/plytool-client/plytool-client"],
    "audio": ["audio/primitives/audio-primitives"],
    "image": ["image/image/image", "image/reflect/image-reflect"],
    "mathserial": ["math/serial/ply-math-serial"],
    "test": ["test/test/ply-test"],
    "sass": ["web/sass/web-sass"],
}
EXCLUDE = ["_Win32", "_Winsock", "_Mac", "WString.cpp", "dlmalloc.c"]

def base_flags():
    fl = ["-x", "c++", "-include", "utility", "-g", "-std=c++14", "-pthread", "-fno-exceptions",
          "-Wno-everything", "-Wno-invalid-offsetof", "-ferror-limit=5"]
    for d in INCLUDE_DIRS:
        fl.append("-I" + os.path.join(SRC, d))
    for d in GEN_DIRS:
        fl.append("-I" + os.path.join(VERIF, "config", d))
    return fl

def sources(groups):
    res = []
    for g in groups:
        for d in GROUP_DIRS[g]:
            root = os.path.join(SRC, d)
            if not os.path.isdir(root):
                raise BuildError("source directory vanished: " + d)
            for dp, dn, fn in os.walk(root):
                dn.sort()
                for f in sorted(fn):
                    if not f.endswith(".cpp"):
                        continue
                    if any(e in f for e in EXCLUDE):
                        continue
                    if f.endswith(".modules.cpp") or "/codegen" in dp:
                        continue
                    res.append(os.path.join(dp, f))
    return res

_tree_hash = None
def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for base in (SRC, os.path.join(VERIF, "config")):
            for dp, dn, fn in os.walk(base):
                dn.sort()
                for f in sorted(fn):
                    if f.endswith((".cpp", ".h", ".inl", ".c", ".modules.cpp")):
                        p = os.path.join(dp, f)
                        h.update(os.path.relpath(p, base).encode())
                        with open(p, "rb") as fh:
                            h.update(hashlib.sha256(fh.read()).digest())
        _tree_hash = h.hexdigest()[:24]
    return _tree_hash

def file_hash(p):
    with open(p, "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()[:16]

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd[-3:]), p.stderr.decode(errors="replace")[-3000:]))
    return p.stdout

def tool(name):
    """Build tools/<name>.cpp unless an up-to-date binary exists."""
    src = os.path.join(VERIF, "tools", name + ".cpp")
    out = os.path.join(CACHE, "bin", name + "-" + file_hash(src))
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cfg = LLVM + "/llvm-config"
    cxxflags = run([cfg, "--cxxflags"]).decode().split()
    ld = run([cfg, "--ldflags", "--libs", "--link-shared"]).decode().split()
    extra = ["-l:libclang-cpp.so.18.1"] if name.startswith("ast") else []
    tmp = out + ".tmp%d" % os.getpid()
    run(["/usr/bin/clang++"] + cxxflags + ["-fno-rtti", "-O1", "-Wno-everything", src, "-o", tmp] + ld + extra)
    os.rename(tmp, out)
    return out

def key_dir():
    d = os.path.join(CACHE, "t-" + tree_hash())
    if not os.path.isdir(d):
        os.makedirs(os.path.join(CACHE), exist_ok=True)
        # keep the cache small: drop the oldest trees
        old = sorted(glob.glob(os.path.join(CACHE, "t-*")), key=os.path.getmtime)
        for o in old[:-12]:
            shutil.rmtree(o, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    return d

def compile_bc(src, asserts=1, extra=()):
    rel = os.path.relpath(src, SRC) if src.startswith(SRC) else os.path.basename(src) + "-" + file_hash(src)
    name = rel.replace("/", "_") + ("" if asserts else "-noassert") + (hashlib.md5(repr(extra).encode()).hexdigest()[:6] if extra else "") + ".bc"
    out = os.path.join(key_dir(), name)
    if os.path.exists(out):
        return out
    # Scratch copies (mutation tests) share unchanged units through a pool keyed by the contents of every file read.
    share = os.environ.get("PLY_BCPOOL")
    pool = os.path.join(CACHE, "bc", name)
    if share and os.path.isdir(pool):
        for j in sorted(glob.glob(pool + "/*.json"), reverse=True):
            try:  # another run may prune the pool meanwhile
                with open(j) as fh:
                    deps = json.load(fh)
                if all(os.path.exists(os.path.join(SRC, p)) and fhash(os.path.join(SRC, p)) == h for p, h in deps):
                    shutil.copyfile(j[:-5] + ".bc", out + ".tmp%d" % os.getpid())
                    os.rename(out + ".tmp%d" % os.getpid(), out)
                    return out
            except FileNotFoundError:
                continue
    tmp = out + ".tmp%d" % os.getpid()
    run(["/usr/bin/clang++"] + base_flags() + ["-DPLY_WITH_ASSERTS=%d" % asserts, "-O0", "-Xclang", "-disable-O0-optnone",
        "-fno-discard-value-names", "-emit-llvm", "-c"] + (["-MD", "-MF", tmp + ".d"] if share else []) + list(extra) + [src, "-o", tmp], cwd=SRC)
    if share:
        with open(tmp + ".d") as fh:
            words = fh.read().replace("\\\n", " ").split()[1:]
        os.unlink(tmp + ".d")
        deps = [(os.path.relpath(w, SRC) if w.startswith(SRC) else w) for w in words]
        os.makedirs(pool, exist_ok=True)
        def mtime(p):
            try:
                return os.path.getmtime(p)
            except OSError:
                return 0
        old = sorted(glob.glob(pool + "/*.json"), key=mtime)
        for o in old[:-8]:
            for f in (o, o[:-5] + ".bc"):
                try:
                    os.unlink(f)
                except OSError:
                    pass
        k = os.path.join(pool, hashlib.md5(repr(sorted((d, fhash(os.path.join(SRC, d))) for d in deps)).encode()).hexdigest()[:16])
        shutil.copyfile(tmp, k + ".bc")
        with open(k + ".json.tmp%d" % os.getpid(), "w") as fh:
            json.dump([(d, fhash(os.path.join(SRC, d))) for d in deps], fh)
        os.rename(k + ".json.tmp%d" % os.getpid(), k + ".json")
    os.rename(tmp, out)
    return out

_fh = {}
def fhash(p):
    if p not in _fh:
        _fh[p] = file_hash(p)
    return _fh[p]

def compile_all(srcs, asserts=1, extra=()):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: compile_bc(s, asserts, extra), srcs))

def dump(groups=(), files=(), drivers=(), asserts=1, passes=None, extra=()):
    """Return the JSON dump (dict) of the linked program."""
    srcs = sources(groups) + [os.path.join(SRC, f) for f in files] + [os.path.join(VERIF, "drivers", d) for d in drivers]
    for s in srcs:
        if not os.path.exists(s):
            raise BuildError("source vanished: " + s)
    t = tool("irdump")
    k = hashlib.md5(repr((sorted(srcs), [file_hash(s) for s in srcs if s.startswith(VERIF)], asserts, passes, extra, t)).encode()).hexdigest()[:12]
    pk = os.path.join(key_dir(), "dump-%s.pickle" % k)
    if os.path.exists(pk):
        with open(pk, "rb") as fh:
            return pickle.load(fh), len(srcs)
    bcs = compile_all(srcs, asserts, extra)
    js = pk + ".json%d" % os.getpid()
    cmd = [t, "-o", js] + bcs
    if passes:
        cmd += ["-opt-passes", passes]
    run(cmd)
    with open(js, encoding="utf-8", errors="replace") as fh:
        d = json.load(fh)
    os.unlink(js)
    with open(pk + ".tmp%d" % os.getpid(), "wb") as fh:
        pickle.dump(d, fh, protocol=4)
    os.rename(pk + ".tmp%d" % os.getpid(), pk)
    return d, len(srcs)

_inst = {}
def instances(asserts=1):
    """The driver that instantiates every member of the container templates; left out when the tree no longer compiles it."""
    if asserts not in _inst:
        p = subprocess.run(["/usr/bin/clang++"] + base_flags() + ["-DPLY_WITH_ASSERTS=%d" % asserts, "-fsyntax-only", os.path.join(VERIF, "drivers/templates.cpp")],
                           cwd=SRC, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        _inst[asserts] = ("templates.cpp",) if p.returncode == 0 else ()
    return _inst[asserts]

def ast(groups=(), files=(), drivers=(), asserts=1):
    """Typed syntax trees of every function of the groups: list of Function/Record/Enum/Global nodes."""
    srcs = sources(groups) + [os.path.join(SRC, f) for f in files] + [os.path.join(VERIF, "drivers", d) for d in drivers]
    t = tool("astdump")
    k = hashlib.md5(repr((sorted(srcs), [file_hash(s) for s in srcs if s.startswith(VERIF)], asserts, t)).encode()).hexdigest()[:12]
    pk = os.path.join(key_dir(), "ast-%s.pickle" % k)
    if os.path.exists(pk):
        with open(pk, "rb") as fh:
            return pickle.load(fh), len(srcs)
    fl = "\n".join(base_flags() + ["-DPLY_WITH_ASSERTS=%d" % asserts, "-fsyntax-only", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"])
    parts = [srcs[i::8] for i in range(8) if srcs[i::8]]

    def one(i):
        js = pk + ".json%d-%d" % (os.getpid(), i)
        run([t, "-o", js, "-root", SRC, "-flags", fl] + parts[i], cwd=SRC)
        return js
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, range(len(parts))))
    res, seen = [], set()
    for js in outs:
        with open(js, encoding="utf-8", errors="replace") as fh:
            for o in json.load(fh):
                key = (o["k"], o["file"], o["l"], o.get("f", o["n"]), o.get("ta"), o.get("t"))
                if key not in seen:
                    seen.add(key)
                    res.append(o)
        os.unlink(js)
    with open(pk + ".tmp%d" % os.getpid(), "wb") as fh:
        pickle.dump(res, fh, protocol=4)
    os.rename(pk + ".tmp%d" % os.getpid(), pk)
    return res, len(srcs)
