"""P08: nothing is used before it has a value."""
import os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import build, ir, initan

# Members a constructor leaves open on purpose: the code that creates the object assigns them before anything reads
# them (read at each creation site), or the object only ever lives in zero-initialised static storage.
OPEN = {
    "ply::details::WalkImpl::StackItem": {"dirIndex"},                 # WalkImpl pushes an item and assigns all three members
    "ply::Heap_DL": None, "ply::Mutex_LazyInit": None, "ply::Trace_Counters": None,   # static storage
    "ply::Trace_MemLog::Event": {"tid"},                               # log() assigns every member of the slot it claims
    "ply::FormatDescriptor_Enum": {"fixedSize"},                       # both creators assign
    "ply::FormatDescriptor_EnumIndexedArray": {"itemFormat", "enumFormat"},
    "ply::FormatDescriptor_Switch::State": {"structFormat"},
    "ply::FormatDescriptor_Struct::Member": {"formatDesc"},
    "pylon::ParseError::Scope": None,                                  # plain record, built by its static factories
    "ply::build::RepoInstantiator": {"repoReg"},
    "ply::audio::OfflineClipNode": {"buffer"},
}
WARN = ["-Wuninitialized", "-Wsometimes-uninitialized", "-Wconditional-uninitialized", "-Wreturn-type", "-Wself-assign-field", "-Wself-move"]
THIRD = ("dlmalloc", "Hash128", "pthread")


def compiler(srcs, asserts):
    fl = [x for x in build.base_flags() if x != "-Wno-everything"] + ["-Wno-everything"] + WARN + ["-fsyntax-only", "-DPLY_WITH_ASSERTS=%d" % asserts]

    def one(s):
        p = subprocess.run(["/usr/bin/clang++"] + fl + [s], cwd=build.SRC, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if p.returncode:
            raise build.BuildError("does not compile: %s\n%s" % (s, p.stderr.decode(errors="replace")[-1500:]))
        return p.stderr.decode(errors="replace")
    with ThreadPoolExecutor(8) as ex:
        for out in ex.map(one, srcs):
            for l in out.split("\n"):
                m = re.match(r"(.*?):(\d+):\d+: warning: (.*) \[-W([a-z-]+)\]", l)
                if m:
                    yield os.path.relpath(m.group(1), build.SRC), m.group(2), m.group(3), m.group(4)


def run(rep, tier):
    groups = list(build.GROUP_DIRS)
    srcs = build.sources(groups)
    for asserts in ((1, 0) if tier == "thorough" else (1,)):
        for f, l, msg, w in compiler(srcs, asserts):
            name = re.search(r"'([^']*)'", msg)
            rep.violation("flow:%s:%s:%s" % (f, w, name.group(1) if name else ""), "%s:%s" % (f, l), msg)
    d, n = build.dump(groups, drivers=build.instances(1), extra=("-Xclang", "-disable-llvm-passes"))
    prog = ir.Program(d)
    sys.setrecursionlimit(20000)
    A = initan.Analysis(prog)
    for name in list(prog.fns):
        A.summary(name)
    prov = [f for f in prog.fns.values() if f.bbs]
    # a plain value nobody assigned, used directly
    nops = 0
    for f in prov:
        for bb in f.bbs:
            for I in bb:
                nops += 1
                if I[0] in ("icmp", "fcmp", "br", "switch", "ret", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "zext", "sext", "trunc", "getelementptr", "sitofp", "uitofp"):
                    for o in ir.operands(I):
                        if isinstance(o, dict) and "u" in o:
                            rep.violation("value:%s" % f.qual, "%s:%d (%s)" % (f.file, I[3], f.qual), "uses a value that was never assigned")
    # objects read before they are written
    for fn, rs in A.reports.items():
        f = prog.fns[fn]
        for r, miss, I, kind, callee, off, site in rs:
            var = f.vars.get(r[1], "object").split("|")[0] if isinstance(f.vars.get(r[1]), str) else "object"
            if kind == "read":
                rep.violation("read:%s:%s" % (f.qual, var), "%s:%d (%s)" % (f.file, I[3], f.qual),
                              "reads '%s' (bytes %s) before any path has assigned it" % (var, rng(miss)))
            else:
                g = prog.fns.get(callee)
                low = (miss & -miss).bit_length() - 1
                s = (site or {}).get(low - off)
                rep.violation("read:%s:%s" % (f.qual, var), "%s:%d (%s)" % (f.file, I[3], f.qual),
                              "passes '%s' to %s, which reads bytes %s that are not assigned yet" % (var, g.qual if g else callee, rng(miss)),
                              ["read at %s:%d (%s)" % (s[0].file, s[1][3], s[0].qual)] if s else None)
    # constructors
    nct = nmem = 0
    for f in prov:
        if not re.search(r"C[12]E", f.name) or not f.args or f.short.split("<")[0] != f.scope.split("::")[-1].split("<")[0]:
            continue
        if f.file.startswith("/") and not f.file.startswith(build.SRC) or f.scope.startswith("std::"):
            continue
        ls = list(initan.leaves(prog, f.scope))
        if not ls:
            continue
        nct += 1
        m = A.sum[f.name].must.get(0, 0)
        if m == initan.ALL:
            continue
        nmem += len(ls)
        miss = [l for l in ls if initan.span(l[0], l[1]) & ~m]
        if not miss:
            continue
        # T() {} or a plain aggregate: declares that the object starts out without values
        if len(miss) == len(ls) and len(f.args) == 1 and not any(I[0] in ("call", "store", "invoke") for bb in f.bbs for I in bb if not wrapper(prog, A, I)):
            continue
        for o, s, path, t in miss:
            ex = OPEN.get(f.scope, ())
            top = path.split(".")[0]
            if ex is None or top in ex or any(inner(prog, f.scope, o, ty) for ty in OPEN):
                continue
            rep.violation("ctor:%s:%s" % (f.scope, path), "%s:%d (%s)" % (f.file, f.line, f.d), "the constructor can return without assigning member '%s'" % path)
    # classes whose default constructor is the members' own initialisers: all of them or none
    T, _ = build.ast(groups, drivers=build.instances(1))
    enums = {o["n"] for o in T if o["k"] == "Enum"}
    nrec = 0
    for r in T:
        if r["k"] != "Record" or r["union"] or not r.get("impldefault"):
            continue
        s = [x for x in r["fields"] if (initan.SCALAR.search(x["t"]) or x["t"] in enums or "(*)" in x["t"]) and not x["t"].endswith("&")]
        if any(x["init"] for x in s):
            nrec += 1
            for x in s:
                if not x["init"] and x["n"]:
                    rep.violation("member:%s:%s" % (r["n"], x["n"]), "%s:%d (%s)" % (r["file"], r["l"], r["t"]),
                                  "default construction initialises only some plain members; '%s' starts out without a value" % x["n"])
    rep.require("default-initialised classes", nrec, 40)
    # every written constructor, class templates that nothing instantiates included: each plain member has an
    # initialiser, or the body (or a function the body hands the object to) names it
    nw = 0
    for c in T:
        if c["k"] != "Ctor" or not c["fields"]:
            continue
        nw += 1
        ex = OPEN.get(c["cls"], ())
        miss = [x for x in c["fields"] if not (x["init"] or x["list"] or x["body"])]
        if not miss or c["whole"] or ex is None or (len(miss) == len(c["fields"]) and c["np"] == 0 and c["empty"]):
            continue
        for x in miss:
            if x["n"] not in ex:
                rep.violation("list:%s:%s" % (c["f"], x["n"]), "%s:%d (%s)" % (c["file"], c["l"], c["f"]), "no initialiser or statement of the constructor mentions member '%s'" % x["n"])
    rep.require("written constructors", nw, 150)
    rep.require("functions", A.n_fns, 4000)
    rep.require("constructors", nct, 150)
    rep.cover("constructor members", nmem)
    rep.cover("objects followed", A.n_roots)
    rep.cover("reads and calls judged", A.n_reads)
    rep.cover("instructions", nops)
    rep.cover("translation_units", n)
    return rep.finish("must-written / possibly-read-before-written byte sets of every local, allocated and constructed object, bottom-up over the call graph on LLVM IR; "
                      "every member of every constructor; the compiler's own flow analysis (%s) on every translation unit. Reads through unresolved calls, "
                      "variable indexing and merged pointers are not judged." % " ".join(WARN))


def wrapper(prog, A, I):
    """a call that itself writes nothing of the object: constructing empty members"""
    if I[0] not in ("call", "invoke"):
        return False
    c = prog.callee(I)
    s = A.sum.get(c)
    return s is not None and not any(s.may.values())


def inner(prog, scope, off, ty):
    """is the member at off part of a sub-object of type ty?"""
    t = prog.types.get(scope)
    for nm, ob, sb, mt in (t or {}).get("m", ()):
        o, n = ob // 8, sb // 8
        if o <= off < o + n:
            ex = OPEN.get(mt)
            if mt == ty:
                return ex is None or any(q[0] == off - o and q[2].split(".")[0] in ex for q in initan.leaves(prog, mt))
            return inner(prog, mt, off - o, ty)
    return False


def rng(m):
    low = (m & -m).bit_length() - 1
    return "%d-%d" % (low, m.bit_length() - 1)
