"""P10: what an owner holds is released exactly once."""
import re
from collections import Counter
import build, ir, absint, clients
from absint import UNDEF, split
from report import AnalysisError

REALLOCS = clients.REALLOC
# owners whose destructor depends on a flag: the representations to start from (byte offset member, value)
CASES = {
    "hybrid": ("ply::HybridString", [{"isOwner": 1}, {"isOwner": 0}]),
    "optowned": (None, [("flag", 1), ("flag", 0)]),
}


class Client(clients.PlyClient):
    max_depth = 14
    small_limit = 400

    def __init__(self, prog):
        self.p = prog
        self.small = {}
        self.out = []
        self.problems = []

    def should_inline(self, eng, st, fn):
        return True

    def ev(self, st, kind, v):
        st.ts["ev"] = st.ts.get("ev", ()) + ((kind, v),)

    def on_alloc(self, eng, st, obj, size, I):
        self.ev(st, "new", ("P", obj, 0))

    def on_free(self, eng, st, ptr, I):
        if ptr != 0:
            if ("free", ptr) in st.ts.get("ev", ()) and eng.cmp(st, "eq", ptr, 0) is not True:
                self.problems.append((self.where(st, I), "releases the same block twice", absint.trace_lines(st, self.p)))
            self.ev(st, "free", ptr)

    def on_realloc(self, eng, st, old, new, size, I):
        if old != 0:
            self.ev(st, "free", old)
        self.ev(st, "new", ("P", new, 0))

    def touched(self, st, I, base):
        for k, v in st.ts.get("ev", ()):
            if k == "free" and split(v)[0] == base:
                self.problems.append((self.where(st, I), "uses a block after releasing it", absint.trace_lines(st, self.p)))
                return

    def on_store(self, eng, st, I, base, off, val, size):
        self.touched(st, I, base)

    def on_load(self, eng, st, I, base, off, size):
        self.touched(st, I, base)

    def call(self, eng, st, name, fn, I, args):
        r = super().call(eng, st, name, fn, I, args)
        if r is not None:
            return r
        if name is None and args and type(args[0]) is tuple and "h" in repr(args[0]) and self.val_target(eng, st, I, args[0]):
            # the object's own destroy function
            self.on_free(eng, st, args[0], I)
            return [(st, None)]
        if name and fn is not None and not fn.bbs or name and fn is None:
            m = re.match(r"_ZN1KD[012]Ev$", name or "")
            if m:
                if ("end", args[0]) in st.ts.get("ev", ()):
                    self.problems.append((self.where(st, I), "destroys the same object twice", absint.trace_lines(st, self.p)))
                self.ev(st, "end", args[0])
                return [(st, None)]
            if re.match(r"_ZN1KC[12]E", name):
                self.ev(st, "begin", args[0])
                return [(st, args[0])]
            if name == "_ZN2RC6incRefEv":
                self.ev(st, "inc", args[0])
                return [(st, None)]
            if name == "_ZN2RC6decRefEv":
                self.ev(st, "dec", args[0])
                return [(st, None)]
        q = self.p.fns[name].qual if name in self.p.fns else ""
        if q.endswith("BlockList::Footer::incRef") or q.endswith("RefCounted::incRef"):
            self.ev(st, "inc", args[0])
            return [(st, None)]
        if q.endswith("RefCounted::decRef"):
            self.ev(st, "dec", args[0])
            return [(st, None)]
        if q in ("ply::AnyObject::destroy",):
            b, o = eng.ptr(st, args[0])
            v = eng.load(st, b, o, 8)
            self.ev(st, "free", v)
            return [(st, None)]
        return None

    def val_target(self, eng, st, I, obj):
        v = eng.val(st, I[4])
        return type(v) is tuple and v[:2] == ("s", "ld") and v[2] == obj

    def pure(self, eng, name, fn):
        return True

    def clobbers(self, eng, st, name, fn, g):
        return False

    def at_return(self, eng, st, val):
        ev = []
        for k, v in st.ts.get("ev", ()):
            if eng.cmp(st, "eq", v, 0) is True:
                continue
            ev.append((k, v))
        self.out.append((ev, absint.trace_lines(st, self.p), st))


def balance(ev):
    """net effect: what was released without having been acquired here, and what was acquired and kept"""
    c = Counter()
    for k, v in ev:
        c[("block" if k in ("new", "free") else "object" if k in ("begin", "end") else "count", v)] += 1 if k in ("free", "end", "dec") else -1
    return {k: n for k, n in c.items() if n}


def subst(v, m):
    if v in m:
        return m[v]
    if type(v) is tuple:
        return tuple(subst(x, m) for x in v)
    return v


def cases(prog, tname):
    """Representations to start from: [(label, [(offset, size, value)])], value may mention H (the owner's address)."""
    if tname == "ply::HybridString":
        return [("owning", [(8, 4, 11)]), ("borrowing", [(8, 4, 10)]), ("empty", [(0, 8, 0), (8, 4, 0)]), ("owning an empty block", [(8, 4, 1)])]
    if tname.startswith("ply::OptionallyOwned<"):
        return [("owning", [(0, 8, ("P", ("s", "ld*", H), 1))]), ("borrowing", [(0, 8, ("P", ("s", "ld*", H), 0))]), ("empty", [(0, 8, 0)])]
    return [("", [])]


H = ("s", "h0")


def analyse(prog, f, init, keep=()):
    c = Client(prog)
    c.keep = keep
    eng = absint.Engine(prog, c, K=60, max_steps=40000)
    eng.BITS = True
    eng.EDEPTH = 12
    eng.aligned = {("s", "ld*", ("s", "h%d" % i)) for i in range(3)} | {("s", "ld", ("s", "h%d" % i), 0, 8, None) for i in range(3)}

    def start(e, st):
        for i, cells in enumerate(init):
            for off, size, v in cells or ():
                e.store(st, ("s", "h%d" % i), off, size, subst(v, {H: ("s", "h%d" % i)}))
    eng.run(f, args=[("s", "h%d" % i) for i in range(len(f.args))], init=start)
    return c, eng


def ptype(f, i):
    t = f.sig[1 + i] if len(f.sig) > 1 + i else ""
    return t[:-1].strip() if t.endswith("*") else None


def transfers(rep):
    """Every hand-written copy or move accounts for every member of the object it takes from."""
    from astq import walk, kids, strip
    T, nt = build.ast(list(build.GROUP_DIRS), drivers=list(build.instances(1)) + ["own.cpp"])
    rep.cover("translation_units", nt)
    recs = {o["t"]: o for o in T if o["k"] == "Record"}
    n = nf = 0
    seen = set()
    for f in T:
        if f["k"] != "Function" or "cls" not in f or len(f["params"]) != 1:
            continue
        m = re.match(r"(?:const )?(.*?) ?(&&?)$", f["params"][0]["t"])
        if not m or not (f.get("ctor") or f["n"].split("::")[-1] == "operator="):
            continue
        r = recs.get(m.group(1))
        if r is None or m.group(1).split("<")[0] != f["cls"].split("<")[0]:
            continue
        copy = f["params"][0]["t"].startswith("const ")
        pd = f["params"][0]["d"]
        nodes = list(walk(f["body"])) if f["body"] else []
        for i in f.get("inits") or ():
            if i["e"]:
                nodes += walk(i["e"])
        if not nodes:
            continue
        par = {}
        for x in nodes:
            for c in x.get("c", ()):
                if c:
                    par.setdefault(id(c), x)

        def up(x):
            p = par.get(id(x))
            while p is not None and p["k"] in ("ImplicitCastExpr", "ParenExpr"):
                p = par.get(id(p))
            return p
        whole = selfpassed = False
        got = set()
        for x in nodes:
            if x["k"] == "DeclRefExpr" and x.get("d") == pd:
                p = up(x)
                if p is None or p["k"] != "MemberExpr" or p["t"] == "<bound member function type>":
                    whole = True
                else:
                    q = up(p)
                    if not (q is not None and q["k"] == "BinaryOperator" and q.get("op") == "=" and strip(kids(q)[0]) is p):
                        got.add(p["n"].split("::")[-1])
            elif x["k"] == "CXXThisExpr":
                p = up(x)
                if p is not None and p["k"] != "MemberExpr":
                    selfpassed = True
        n += 1
        nf += len(r["fields"])
        if whole:
            continue
        for x in r["fields"]:
            if x["n"] and x["n"] not in got and not (copy and selfpassed):
                key = "%s:%s" % (re.sub(r"<.*>", "", m.group(1)), x["n"])
                if key not in seen:
                    seen.add(key)
                    rep.violation("transfer:%s:%d" % (key, copy), "%s:%d" % (f["file"], f["l"]),
                                  "%s of %s does not take over '%s'" % ("copy" if copy else "move", m.group(1), x["n"]), [f["f"]])
    rep.require("hand-written copies and moves", n, 100)
    rep.cover("members_of_copied_objects", nf)


def run(rep, tier):
    nops = npaths = ncase = 0
    for asserts in (1, 0) if tier == "thorough" else (1,):
        d, n = build.dump(["runtime", "reflect"], drivers=["own.cpp"], asserts=asserts, extra=("-Xclang", "-disable-llvm-passes"))
        prog = ir.Program(d)
        rep.cover("translation_units", n)
        ops = {}
        for f in prog.fns.values():
            m = re.search(r"own__([a-z]+)__([a-z_]+)", f.name)
            if m and f.bbs and f.short.startswith("own__"):
                ops[f.short] = f
        # what each kind of owner releases when it is simply destroyed
        held = {}
        for f in ops.values():
            if not f.short.endswith("__base"):
                continue
            t = ptype(f, 0)
            for label, cells in cases(prog, t):
                c, eng = analyse(prog, f, [cells] * len(f.args))
                toks = set()
                for ev, tr, st in c.out:
                    for k, v in balance(ev).items():
                        if "h1" not in repr(k):
                            toks.add(k)
                            if v != 1:
                                rep.violation("%s:base" % f.short, "%s destructor" % t, "releases what it holds %d times" % v, tr)
                for w, m, tr in c.problems:
                    rep.violation("%s:base" % f.short, w, m, tr)
                if not c.out or eng.incomplete:
                    rep.notes.append("incomplete: destructor of " + t)
                if not toks and label not in ("borrowing", "empty"):
                    rep.violation("%s:base" % f.short, "%s destructor" % t, "releases nothing")
                held[(t, label)] = toks
        for nm, f in sorted(ops.items()):
            combos = [[]]
            for i in range(len(f.args)):
                t = ptype(f, i)
                cs = cases(prog, t) if t and any(k[0] == t for k in held) else [None]
                combos = [x + [c] for x in combos for c in cs]
            nops += 1
            for combo in combos:
                ncase += 1
                want = set()
                for i, x in enumerate(combo):
                    if x:
                        want |= {subst(k, {H: ("s", "h%d" % i)}) for k in held[(ptype(f, i), x[0])]}
                held_ = set(want)
                if nm.split("__")[2].startswith("keep"):
                    want = set()        # not destroyed in the end: still holds what it held
                c, eng = analyse(prog, f, [x[1] if x else None for x in combo], {k[1] for k in held_})
                what = "%s of %s%s" % (nm.split("__")[2], ptype(f, 0) or nm.split("__")[1], "".join(" (%s)" % x[0] for x in combo if x and x[0]))
                for w, m, tr in c.problems:
                    rep.violation("%s:%s" % (nm, m), w, "%s: %s" % (what, m), tr)
                if not c.out or eng.incomplete:
                    rep.notes.append("incomplete: " + what)
                for ev, tr, st in c.out:
                    npaths += 1
                    b = balance(ev)
                    run_ = Counter()
                    for k, v in ev:
                        run_[v] += {"dec": 1, "inc": -1}.get(k, 0)
                        if k == "inc" and ("count", v) in held_ and run_[v] >= 0:
                            rep.violation("%s:revived" % nm, what, "gives up the last count before taking a new one", tr)
                    for k in want:
                        if b.get(k, 0) == 1:
                            continue
                        if eng.cmp(st, "eq", k[1], 0) is True:
                            continue
                        rep.violation("%s:%s" % (nm, "lost" if b.get(k, 0) < 1 else "twice"), what, "what the owner held is %s" % (
                            "never released" if b.get(k, 0) < 1 else "released more than once"), tr)
                    for k, v in b.items():
                        if k in want:
                            continue
                        isnew = type(k[1]) is tuple and split(k[1])[0] != UNDEF and type(split(k[1])[0]) is tuple and split(k[1])[0][0] == "H"
                        rep.violation("%s:%s" % (nm, "leak" if v < 0 else "foreign"), what, "%s %s" % (
                            "an object or block created here is" if isnew or v < 0 else "what the owner should still hold is" if k in held_ else "something no owner held is", "never released" if v < 0 else "released"), tr)
    transfers(rep)
    rep.require("owner operations", nops, 80)
    rep.cover("representations", ncase)
    rep.require("paths", npaths, 100)
    return rep.finish("conservation of ownership: on every path of every owner operation each held resource is released exactly once and each new one is held or released; hand-written copies and moves account for every member")
