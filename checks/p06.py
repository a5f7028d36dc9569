"""P06: a build with assertions and one without compute the same."""
import re
import build, ir, astq
from astq import kids, walk, asserted, where

ASSIGN = {"=", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "<<=", ">>=", "%="}
PURE_EXT = ("llvm.", "__builtin_", "memcmp", "memchr", "strlen", "strcmp", "__errno_location", "fabs", "sqrt", "floor", "ceil", "round", "sin", "cos", "atan",
            "__cxa_guard_", "_ZNKSt", "_ZSt", "isnan", "__isnan", "fmod", "pow", "nearbyint", "rint", "trunc", "_ZNSt3map", "_ZNSt8_Rb_tree", "abort")


class Purity:
    def __init__(self, prog, A):
        self.p = prog
        self.memo = {}
        self.ast = {o["mn"]: o for o in A if o["k"] == "Function"}

    def owned(self, f):
        """SSA values that point into the function's own frame"""
        own = set()
        defs = [I for bb in f.bbs for I in bb]
        changed = True
        while changed:
            changed = False
            for I in defs:
                if I[1] in own or I[1] < 0:
                    continue
                if I[0] == "alloca" or (I[0] == "getelementptr" and type(I[4]) is int and I[4] in own) or \
                   (I[0] == "phi" and I[4] and all(type(v) is int and (v in own or v == I[1]) for v, _ in I[4])):
                    own.add(I[1])
                    changed = True
        return own

    def impure(self, name, strict=True):
        """None when calling it changes nothing its caller can see; else what it changes.
        strict: may not write through its arguments either; otherwise only globals and the outside world count."""
        k = (name, strict)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None      # recursion: assume pure, the other paths decide
        f = self.p.fns.get(name)
        if f is None or not f.bbs:
            r = None if name.startswith(PURE_EXT) else self.tree(self.ast[name]) if name in self.ast else None if "$_" in name else "calls %s" % name
        elif f.qual.startswith(("ply::Heap_DL::", "ply::Heap_CRT::")):
            r = None
        else:
            r = self.body(f, strict)
        self.memo[k] = r
        return r

    def tree(self, f):
        """inline functions no translation unit emits: judged on the syntax tree"""
        own = {y["d"] for y in walk(f["body"]) if y["k"] == "VarDecl"} | {p["d"] for p in f["params"] if not p["t"].endswith(("&", "*"))}
        if any(y["k"] == "VarDecl" and y.get("static") for y in walk(f["body"])):
            return None
        for y in walk(f["body"]):
            if y["k"] in ("BinaryOperator", "CompoundAssignOperator") and y["op"] in ASSIGN or y["k"] == "UnaryOperator" and y["op"] in ("++", "--"):
                t = astq.strip(kids(y)[0])
                if not (t["k"] == "DeclRefExpr" and t["d"] in own):
                    return "stores to memory (%s)" % f["n"]
            elif y["k"].endswith("CallExpr"):
                w = self.impure(y["mn"], mutable(y)) if y.get("mn") else "calls through a pointer"
                if w:
                    return w
        return None

    def roots(self, f):
        """SSA values computed from the address of a global"""
        own = set()
        defs = [I for bb in f.bbs for I in bb]
        isg = lambda v: v in own if type(v) is int else type(v) is dict and ("g" in v or "ce" in v)
        changed = True
        while changed:
            changed = False
            for I in defs:
                if I[1] >= 0 and I[1] not in own and (I[0] == "getelementptr" and isg(I[4]) or I[0] == "phi" and any(isg(v) for v, _ in I[4])):
                    own.add(I[1])
                    changed = True
        return isg

    def body(self, f, strict):
        own, glob = self.owned(f), self.roots(f)
        lazy = any(I[0] in ("call", "invoke") and (self.p.callee(I) or "").startswith("__cxa_guard_acquire") for bb in f.bbs for I in bb)
        if lazy:
            return None
        mine = lambda v: type(v) is int and v in own
        bad = lambda v: not mine(v) if strict else glob(v)
        for bb in f.bbs:
            for I in bb:
                if I[0] == "store":
                    if bad(I[5]):
                        return "stores to memory (%s)" % f.qual
                elif I[0] in ("cmpxchg", "atomicrmw"):
                    if bad(I[4]):
                        return "changes an atomic (%s)" % f.qual
                elif I[0] in ("call", "invoke"):
                    c = self.p.callee(I)
                    if c is None:
                        if strict:
                            return "calls through a pointer (%s)" % f.qual
                        continue
                    if c.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                        if bad(I[5][0]):
                            return "stores to memory (%s)" % f.qual
                        continue
                    g = self.p.fns.get(c)
                    onown = g is not None and g.bbs and I[5] and mine(I[5][0])
                    w = self.impure(c, strict and not onown)
                    if w:
                        return w
        return None


CONSTARG = re.compile(r"^const |^(?!.*[&*]$)")


def mutable(x):
    """May the call change its object or its arguments, going by their types?"""
    if x["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and "mc" in x and not x["mc"] & 3:
        o = astq.callee_object(x)
        t = (o or {}).get("t", "")
        if not (o and astq.strip(o)["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CallExpr", "CXXMemberCallExpr") and not t.endswith(("&", "*"))):
            return True
    f = x.get("f") or ""
    m = re.search(r"\((.*)\)[^()]*$", f)
    if not m:
        return True
    depth, cur, ps = 0, "", []
    for ch in m.group(1) + ",":
        if ch == "," and depth == 0:
            if cur.strip():
                ps.append(cur.strip())
            cur = ""
        else:
            depth += ch in "<([" and 1 or ch in ">)]" and -1 or 0
            cur += ch
    return any(not CONSTARG.match(p) for p in ps)


def run(rep, tier):
    groups = list(build.GROUP_DIRS)
    DRV = build.instances()
    A, n = build.ast(groups, drivers=DRV, asserts=1)
    B, _ = build.ast(groups, drivers=DRV, asserts=0)
    d, _ = build.dump(groups, drivers=DRV, asserts=1, extra=("-Xclang", "-disable-llvm-passes"))     # keeps functions marked always-inline
    prog = ir.Program(d)
    pur = Purity(prog, A)
    rep.cover("translation_units", n)

    # 1. evaluating an assertion changes nothing
    total = 0
    for f in A:
        if f["k"] != "Function":
            continue
        for x in walk(f["body"]):
            if not asserted(x):
                continue
            if x["k"] == "DoStmt":
                total += 1
            bad = None
            if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and x["op"] in ASSIGN:
                bad = "an assignment"
            elif x["k"] == "UnaryOperator" and x["op"] in ("++", "--"):
                bad = "an increment or decrement"
            elif x["k"] in ("CXXNewExpr", "CXXDeleteExpr", "CXXThrowExpr"):
                bad = "an allocation"
            elif x["k"].endswith("CallExpr") and x.get("mn") and x["n"] != "__builtin_trap":
                w = pur.impure(x["mn"], mutable(x))
                if w and not (x["n"].startswith("std::") and x["mn"] not in prog.fns):
                    bad = "a call of %s, which %s" % (x["n"], w)
            if bad:
                rep.violation("%s:%s" % (f["n"], bad.split(",")[0]), where(f, x), "an assertion contains %s: it changes what the program computes" % bad)
    rep.require("assertions", total, 200)

    # 2. nothing outside assertions depends on whether they are compiled in
    key = lambda o: (o["k"], o["file"], o["n"], o.get("f"), o.get("mn"), o.get("ta"), o.get("t"))
    KB = {key(o): o for o in B}
    only = set()
    extra = {}      # record -> members that only exist with assertions
    for o in A:
        if o["k"] == "Record" and key(o) in KB:
            nb = {x["n"] for x in KB[key(o)]["fields"]}
            ex = [i for i, x in enumerate(o["fields"]) if x["n"] not in nb]
            if ex:
                extra[o["t"]] = ex
                only |= {"%s::%s" % (o[w], o["fields"][i]["n"]) for i in ex for w in ("n", "t")}
    checkers = {o["n"] for o in A if o["k"] == "Record"} - {o["n"] for o in B if o["k"] == "Record"}
    cmp = Compare(rep, extra, only, pur, checkers)
    pairs = 0
    for o in A:
        if o["k"] != "Function" or key(o) not in KB:
            continue
        pairs += 1
        p = KB[key(o)]
        cmp.f = o
        ia = [i for i in o.get("inits", ()) if i.get("member") not in only]
        ib = list(p.get("inits", ()))
        if [i.get("member") for i in ia] != [i.get("member") for i in ib]:
            rep.violation(o["n"] + ":members", where(o), "which members a constructor initialises depends on whether assertions are compiled in")
            continue
        for x, y in zip(ia, ib):
            cmp.same(x["e"], y["e"])
        cmp.same(o["body"], p["body"])
    ka = {key(o) for o in A}
    for k, p in KB.items():
        if p["k"] == "Function" and k not in ka and not p["ta"] and "<" not in p["n"] and "(anonymous" not in p["n"]:
            rep.violation(p["n"] + ":release-only", where(p), "this function only exists when assertions are compiled out")
    rep.require("functions_compared", pairs, 2500)
    return rep.finish("side-effect analysis of every assertion (syntax trees + interprocedural store summary) and comparison of the trees of both builds")


class Compare:
    ATTR = ("n", "t", "op", "i", "s", "f", "ta", "ck", "static")

    def __init__(self, rep, extra, only, pur, checkers):
        self.rep, self.extra, self.only, self.pur, self.checkers = rep, extra, only, pur, checkers
        self.f = None

    def shape(self, n):
        if n is None or self.dropped(n):
            return None
        return (n["k"],) + tuple(n.get(a) for a in self.ATTR) + tuple(self.shape(c) for c in self.list(n))

    def list(self, n):
        c = n.get("c", ())
        if n["k"] == "CompoundStmt":
            c = [x for x in c if not (x is not None and self.dropped(x))]
        else:
            c = [None if x is not None and self.dropped(x) else x for x in c]
        t = (n.get("t") or "").replace("const ", "")
        if n["k"] == "InitListExpr" and t in self.extra and self.drop:
            c = [x for i, x in enumerate(c) if i not in self.extra[t]]
        return c

    drop = True

    def dropped(self, x):
        """assertions, and what is left of them when they are compiled out"""
        if x["k"] == "DoStmt" and kids(x) and kids(x)[0]["k"] == "CompoundStmt" and not kids(kids(x)[0]) and all(y["k"] in ("ImplicitCastExpr", "IntegerLiteral") for y in walk(kids(x)[1])):
            return True
        return x["k"] == "NullStmt" or x["k"] == "DoStmt" and any(m == "PLY_ASSERT" for m in x.get("m", ()))

    def touches_only_checks(self, x):
        """A statement that exists only for checking: it changes nothing but check-only members and its own variables."""
        own = {y["d"] for y in walk(x) if y["k"] == "VarDecl"}
        for y in walk(x):
            if y["k"] == "CXXConstructExpr" and y.get("t") in self.checkers:
                continue
            if y["k"] in ("ReturnStmt", "BreakStmt", "ContinueStmt", "GotoStmt", "CXXNewExpr", "CXXDeleteExpr"):
                return False
            t = None
            if y["k"] in ("BinaryOperator", "CompoundAssignOperator") and y["op"] in ASSIGN or y["k"] == "UnaryOperator" and y["op"] in ("++", "--"):
                t = astq.strip(kids(y)[0])
                if not (t["k"] == "DeclRefExpr" and t["d"] in own or t["k"] == "MemberExpr" and t["n"] in self.only):
                    return False
            elif y["k"].endswith("CallExpr") and y.get("mn") and y["n"] != "__builtin_trap":
                o = astq.callee_object(y)
                o = astq.strip(o) if o else None
                if o is not None and o["k"] == "MemberExpr" and o["n"] in self.only:
                    continue
                if self.pur.impure(y["mn"]):
                    return False
            elif y["k"].endswith("CallExpr") and y.get("n") != "__builtin_trap":
                return False
        return True

    def bad(self, n, what):
        self.rep.violation("%s:%s" % (self.f["n"], what[:40]), where(self.f, n), "outside assertions, %s" % what)

    def same(self, a, b):
        self.drop = True
        sa = self.shape(a)
        self.drop = False
        sb = self.shape(b)
        self.drop = True
        if sa == sb:
            return
        if a is None or b is None:
            return self.bad(a or b, "code exists in only one of the two builds")
        if a["k"] != b["k"] or any(a.get(x) != b.get(x) for x in self.ATTR):
            return self.bad(a, "the code depends on whether assertions are compiled in")
        la = list(self.list(a))
        self.drop = False
        lb = list(self.list(b))
        self.drop = True
        if a["k"] == "CompoundStmt":
            i = 0
            for x in la:
                sx = self.shape(x)
                self.drop = False
                sy = self.shape(lb[i]) if i < len(lb) else None
                self.drop = True
                if i < len(lb) and sx == sy:
                    i += 1
                elif x is not None and self.touches_only_checks(x):
                    continue
                elif i < len(lb) and x is not None and lb[i] is not None and x["k"] == lb[i]["k"]:
                    self.same(x, lb[i])
                    i += 1
                else:
                    return self.bad(x or a, "a statement that changes something exists only when assertions are compiled in")
            if i < len(lb):
                self.bad(lb[i], "a statement exists only when assertions are compiled out")
            return
        if len(la) != len(lb):
            return self.bad(a, "the code depends on whether assertions are compiled in")
        for x, y in zip(la, lb):
            self.same(x, y)
