"""P15: requests and virtual paths never reach files outside the folder they are served from."""
import re
import build, flow
from astq import kids, walk, strip, callee_object, where, args
from absence import uncv, unref

TEXT = re.compile(r"^(const )?(ply::(StringView|MutableStringView|String|HybridString|Tuple<|Array<ply::String|Array<ply::StringView|FixedArray<)|(const )?char( const)? ?\*|(const )?char \[)")
OPENS = {"fopen", "open", "opendir", "unlink", "rmdir", "mkdir", "rename", "stat", "lstat", "access", "chdir"}
INSIDE, UP, ABS, NORM = "inside", "no way up", "not absolute", "normalized"
CLEAN = frozenset([UP, ABS])
ALL = frozenset([UP, ABS, NORM])


def short(n):
    s = n.get("n") or ""
    i = s.find("::operator")
    return s[i + 2:] if i >= 0 else s.split("::")[-1]


def ty(n):
    return uncv(unref(n.get("t", "")))


def ser(e):
    """The structure of an expression, or None when it is not a plain computation."""
    e = strip(e)
    if e["k"] == "CallExpr" and e.get("n") in ("std::move", "std::forward"):
        return ser(args(e)[0])
    if e["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "InitListExpr", "CXXBindTemporaryExpr") and len(kids(e)) == 1:
        return ser(kids(e)[0])
    if e["k"] == "LambdaExpr":
        return ("lambda",)
    return (e["k"], e.get("n"), e.get("d"), e.get("i"), e.get("op", e.get("oper"))) + tuple(ser(c) for c in kids(e))


def vars_in(s, out):
    if isinstance(s, tuple):
        if len(s) > 2 and s[0] == "DeclRefExpr" and s[2] is not None:
            out.add(s[2])
        for x in s:
            vars_in(x, out)
    return out


class Program:
    def __init__(self, A):
        self.by = {}
        for f in A:
            if f.get("body") and f.get("mn"):
                self.by.setdefault(f["mn"], f)
        self.lit = {}
        self.pol = {}
        self.rets = {}
        self.work = []
        self.done = {}

    def mentions_up(self, mn, depth=3):
        """Does the function look at '..' itself or through what it calls?"""
        f = self.by.get(mn)
        if f is None or depth == 0:
            return False
        if mn in self.lit:
            return self.lit[mn]
        self.lit[mn] = False
        r = False
        for x in walk(f["body"]):
            if x["k"] == "StringLiteral" and str(x.get("s", x.get("i", ""))).startswith(".."):
                r = True
                break
            if x["k"] in ("CallExpr", "CXXMemberCallExpr") and x.get("mn") in self.by and "filesystem" in self.by[x["mn"]]["file"] and self.mentions_up(x["mn"], depth - 1):
                r = True
                break
        self.lit[mn] = r
        return r

    def polarity(self, mn, depth=3):
        """True: a true result means the path stays inside; False: the other way round; None: not known."""
        f = self.by.get(mn)
        if f is None or depth == 0:
            return None
        nm = f["n"].split("::")[-1]
        rs = [kids(x)[0] for x in walk(f["body"]) if x["k"] == "ReturnStmt" and kids(x)]
        if len(rs) == 1:
            e, neg = strip(rs[0]), False
            while e["k"] == "UnaryOperator" and e["op"] == "!":
                e, neg = strip(kids(e)[0]), not neg
            if e["k"] in ("CallExpr", "CXXMemberCallExpr") and e.get("mn") in self.by:
                p = self.polarity(e["mn"], depth - 1)
                return None if p is None else p != neg
        if nm == "staysInside":
            return True
        return None

    def guard(self, mn):
        f = self.by.get(mn)
        return f is not None and f.get("ret") == "bool" and f["n"].split("::")[-1] not in ("operator==", "operator!=", "isNormalized", "isAbsolute", "isRelative") and self.mentions_up(mn)


class Taint(flow.Flow):
    """State: variable -> facts known about the outside text in it (absent: nothing from outside);
    ("x", structure) -> facts learnt about an expression."""

    def __init__(self, P, f, params):
        super().__init__(f)
        self.P = P
        self.out = {}
        self.ret = None
        self.sinks = 0
        self.params = params
        self.bdef = {}
        for x in walk(f["body"]):
            if x["k"] == "VarDecl" and uncv(x["t"]) == "bool" and kids(x):
                self.bdef[x["d"]] = kids(x)[0]

    def join(self, a, b):
        r = {}
        for k in set(a) | set(b):
            if isinstance(k, tuple):
                if k in a and k in b:
                    v = a[k] & b[k]
                    if v:
                        r[k] = v
            elif k in a and k in b:
                r[k] = a[k] & b[k]
            else:
                r[k] = a.get(k, b.get(k))
        return r

    def start(self):
        st = {}
        for i, p in enumerate(self.f.get("params", ())):
            if i in self.params:
                st[p["d"]] = self.params[i]
        self.run(st)

    # facts about the value of an expression; None: nothing from outside in it
    def facts(self, e):
        e = strip(e)
        if e is None or self.st is None:
            return None
        if self.st.get(("x", ser(e))) is not None:
            base = self.facts1(e)
            return None if base is None else base | self.st[("x", ser(e))]
        return self.facts1(e)

    def meet(self, xs):
        r = None
        for x in xs:
            if x is not None:
                r = x if r is None else r & x
        return r

    def facts1(self, e):
        k = e["k"]
        c = kids(e)
        if k == "DeclRefExpr":
            return self.st.get(e.get("d"))
        if k in ("StringLiteral", "IntegerLiteral", "CXXBoolLiteralExpr", "LambdaExpr"):
            return None
        if k == "MemberExpr":
            if "web::Request::" in e.get("n", "") and TEXT.match(ty(e)):
                return frozenset()
            return self.facts(c[0]) if c and TEXT.match(ty(c[0])) else None
        if k == "ConditionalOperator":
            return self.meet([self.facts(c[1]), self.facts(c[2])])
        if k == "CallExpr" and e.get("n") in ("std::move", "std::forward"):
            return self.facts(args(e)[0])
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXFunctionalCastExpr", "CXXBindTemporaryExpr", "ArraySubscriptExpr"):
            return self.meet([self.facts(x) for x in c])
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            nm = short(e)
            if not (TEXT.match(ty(e)) or k == "CXXOperatorCallExpr"):
                return None
            o = callee_object(e) if k == "CXXMemberCallExpr" else None
            if o is not None and "FileSystem" in o.get("t", "") and "Virtual" not in o.get("t", "") or e.get("n", "").startswith("ply::FileSystem::"):
                return None            # what is read from a file is not a path from outside
            xs = list(args(e)) if k != "CXXOperatorCallExpr" else c[1:]
            if o is not None and TEXT.match(ty(o)):
                xs = [o] + xs
            fs = [self.facts(x) for x in xs]
            m = self.meet(fs)
            if m is None:
                return None
            g = self.P.by.get(e.get("mn"))
            if g is not None and inscope(g) and not nm.startswith("operator"):
                return self.P.summary(g, {i: self.facts(x) for i, x in enumerate(args(e)) if self.facts(x) is not None})
            if nm in ("normalize", "join", "joinAndNormalize"):
                first = next((i for i, x in enumerate(xs) if self.facts(x) is not None), 0)
                r = set(m) | {NORM}
                if first > 0 and m >= CLEAN:
                    return ALL
                if first > 0:
                    r.discard(UP)
                return frozenset(r)
            if nm in ("ltrim", "trim"):
                return (m - {NORM}) | {ABS} if len(xs) > 1 else m
            if nm in ("view", "copy", "from", "operator StringView", "withNullTerminator", "rtrim", "operator ply::StringView") or nm.startswith("operator "):
                return m
            if nm == "operator+" or nm == "operator+=":
                return m if fs[-1] is None or m >= CLEAN else frozenset()
            if nm in ("left", "subStr", "split", "splitFull", "splitExt", "upperAsc", "lowerAsc", "operator[]"):
                return m if m >= CLEAN else frozenset()
            return m if m >= CLEAN else frozenset()
        return self.meet([self.facts(x) for x in c]) if c and TEXT.match(ty(e)) else None

    def learn(self, e, new):
        """A test on e has established new facts."""
        e = strip(e)
        s = ser(e)
        self.st[("x", s)] = self.st.get(("x", s), frozenset()) | new
        for d, q in self.defser.items():
            if q == s and d in self.st:
                self.st[d] = self.st[d] | new
        if s and s[0] == "DeclRefExpr" and s[2] in self.st:
            self.st[s[2]] = self.st[s[2]] | new
        # normalizing and converting keep what a path leads to
        x = e
        if x["k"] == "CXXMemberCallExpr" and short(x).startswith("operator ") and callee_object(x) is not None:
            self.learn(callee_object(x), new)
            return
        if x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "InitListExpr", "CXXBindTemporaryExpr") and len(kids(x)) == 1:
            self.learn(kids(x)[0], new)
            return
        while x["k"] in ("CallExpr", "CXXMemberCallExpr") and short(x) in ("normalize", "from", "copy", "view", "withNullTerminator") and (args(x) or callee_object(x) is not None):
            y = strip(callee_object(x)) if short(x) in ("copy", "view", "withNullTerminator") and callee_object(x) is not None else strip(args(x)[-1])
            if len(args(x)) > 1 and short(x) == "normalize":
                break
            self.learn(y, new - {NORM})
            return

    def refine(self, e, truth):
        x = strip(e)
        while x["k"] == "ImplicitCastExpr" and kids(x):
            x = strip(kids(x)[0])
        k = x["k"]
        if k == "DeclRefExpr" and x.get("d") in self.bdef:
            d = self.bdef[x["d"]]
            self.implied(d, truth, 0)
            return
        self.test(x, truth)

    def implied(self, e, truth, depth):
        e = strip(e)
        c = kids(e)
        if depth > 4:
            return
        if e["k"] == "UnaryOperator" and e["op"] == "!":
            self.implied(c[0], not truth, depth + 1)
        elif e["k"] == "BinaryOperator" and e["op"] in ("&&", "||"):
            if (e["op"] == "&&") == truth:
                self.implied(c[0], truth, depth + 1)
                self.implied(c[1], truth, depth + 1)
        else:
            self.test(e, truth)

    def test(self, x, truth):
        k = x["k"]
        if k not in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "BinaryOperator"):
            return
        nm = short(x)
        a = list(args(x)) if k in ("CallExpr", "CXXMemberCallExpr") else kids(x)[1 if k == "CXXOperatorCallExpr" else 0:]
        o = callee_object(x) if k == "CXXMemberCallExpr" else None
        lit = any(str(y.get("s", y.get("i", ""))).startswith("..") for z in a for y in walk(z) if y["k"] == "StringLiteral")
        if nm == "isAbsolute":
            if not truth:
                for y in a:
                    self.learn(y, frozenset([ABS]))
            return
        if nm == "isRelative":
            if truth:
                for y in a:
                    self.learn(y, frozenset([ABS]))
            return
        if self.P.guard(x.get("mn")):
            p = self.P.polarity(x["mn"])
            if p is None or p == truth:
                for y in a:
                    if TEXT.match(ty(strip(y))):
                        self.learn(y, CLEAN)
            return
        if lit:
            tested = ([o] if o is not None else []) + [y for y in a if TEXT.match(ty(strip(y)))]
            good = truth if x.get("oper", x.get("op")) == "!=" else not truth
            for y in tested:
                fy = self.facts(y)
                if fy is not None and good and (NORM in fy or self.component(y)):
                    self.learn(y, frozenset([UP]))
                    z = self.parts.get(strip(y).get("d")) if strip(y)["k"] == "DeclRefExpr" else None
                    if z is not None:
                        self.st[("part", z)] = frozenset([UP])

    def component(self, y):
        y = strip(y)
        return y["k"] == "DeclRefExpr" and y.get("d") in self.parts

    parts = {}

    def enter_range(self, loop):
        c = kids(loop)
        vs = [v for v in walk(loop) if v["k"] == "VarDecl"]
        rng = kids(vs[0]) if vs else ()
        lv = [v for v in vs if not v["n"].startswith("__")]
        if rng and lv and self.facts(rng[0]) is not None:
            e = strip(rng[0])
            self.st[lv[0]["d"]] = frozenset()
            self.parts = dict(self.parts)
            self.parts[lv[0]["d"]] = True
            # a loop over the components of a path that leaves when it meets one that leads up
            body = c[-1]
            leaves = any(x["k"] == "IfStmt" and any(str(y.get("s", y.get("i", ""))).startswith("..") for y in walk(kids(x)[0]) if y["k"] == "StringLiteral") and
                         any(y["k"] in ("ReturnStmt", "GotoStmt") for y in walk(x)) for x in walk(body))
            if leaves:
                src = e
                if e["k"] in ("CallExpr", "CXXMemberCallExpr") and short(e) == "splitFull" and args(e):
                    src = strip(args(e)[-1])
                elif e["k"] == "DeclRefExpr" and e.get("d") in self.split:
                    src = strip(self.split[e["d"]])
                self.learn(src, frozenset([UP]))

    split = {}
    defser = {}

    def kill(self, d):
        self.defser = {v: q for v, q in self.defser.items() if v != d and d not in vars_in(q, set())}
        for q in list(self.st):
            if isinstance(q, tuple) and d in vars_in(q[1], set()):
                del self.st[q]

    def visit(self, n):
        k = n["k"]
        c = kids(n)
        if k == "VarDecl":
            if c and n["d"] not in self.parts:
                r = self.facts(c[0])
                self.kill(n["d"])
                self.st.pop(n["d"], None)
                if r is not None:
                    self.st[n["d"]] = r
                    self.defser[n["d"]] = ser(c[0])
                s = strip(c[0])
                if s["k"] in ("CallExpr", "CXXMemberCallExpr") and short(s) == "splitFull" and args(s):
                    self.split = dict(self.split)
                    self.split[n["d"]] = args(s)[-1]
            return
        op = n.get("op", n.get("oper"))
        if k in ("BinaryOperator", "CXXOperatorCallExpr", "CompoundAssignOperator") and op in ("=", "+=") and len(c) >= 2:
            l, r = strip(c[-2]), c[-1]
            if l["k"] == "DeclRefExpr" and l.get("d") is not None:
                v = self.facts(r)
                old = self.st.get(l["d"])
                if op == "+=":
                    v = (None if old is None and v is None else (self.meet([old, v]) if self.meet([old, v]) >= CLEAN else frozenset())) if v is not None else old
                self.kill(l["d"])
                self.st.pop(l["d"], None)
                if v is not None:
                    self.st[l["d"]] = v
            return
        if k in ("CallExpr", "CXXMemberCallExpr"):
            self.call(n)

    def atreturn(self, s):
        if getattr(self, "inlambda", 0):
            return
        for x in kids(s):
            r = self.facts(x)
            if r is not None:
                self.ret = r if self.ret is None else self.ret & r

    def call(self, n):
        nm = n.get("n") or ""
        a = list(args(n))
        o = callee_object(n) if n["k"] == "CXXMemberCallExpr" else None
        if n["k"] == "CallExpr" and "mn" not in n and kids(n):
            y = strip(kids(n)[0])
            if y is not None and y["k"] == "MemberExpr":
                nm = y.get("n", "")
        sink = nm.startswith("ply::FileSystem::") and not nm.startswith(("ply::FileSystem::native", "ply::FileSystem::createVirtual")) or nm in OPENS or nm.startswith("ply::Subprocess::exec")
        if sink and ("Virtual" not in nm):
            for i, x in enumerate(a):
                if not TEXT.match(ty(strip(x))) and not TEXT.match(ty(x)):
                    continue
                if short({"n": nm}).startswith(("makeDirsAndSave", "setLast")) and i > 0:
                    continue
                self.sinks += not self.quiet
                r = self.facts(x)
                if r is not None and not r >= CLEAN and not self.quiet:
                    miss = [t for t in (UP, ABS) if t not in r]
                    self.out.setdefault((n["l"], nm), (n, miss, short({"n": nm})))
            return
        g = self.P.by.get(n.get("mn"))
        if g is not None and inscope(g) and not self.quiet:
            t = {i: self.facts(x) for i, x in enumerate(a) if self.facts(x) is not None}
            if t:
                self.P.want(g, t)


def inscope(f):
    return f["file"].startswith("web/") or "FileSystem_Virtual" in f["file"] or f["file"].startswith("apps/WebServer")


class World(Program):
    def want(self, f, t):
        key = f["mn"]
        old = self.done.get(key)
        new = dict(old) if old else {}
        for i, v in t.items():
            new[i] = v if i not in new else new[i] & v
        if old != new:
            self.done[key] = new
            self.work.append(key)

    def summary(self, f, t):
        key = (f["mn"], tuple(sorted((i, tuple(sorted(v))) for i, v in t.items())))
        if key in self.rets:
            return self.rets[key]
        self.rets[key] = None
        x = Taint(self, f, t)
        x.start()
        self.rets[key] = x.ret
        return x.ret


def run(rep, tier):
    A, n = build.ast(list(build.GROUP_DIRS), drivers=build.instances())
    W = World([f for f in A if f.get("body")])
    src = 0
    for f in W.by.values():
        if not inscope(f):
            continue
        ps = f.get("params", ())
        handler = any(re.search(r"web::ResponseIface \*", p["t"]) for p in ps)
        entry = "FileSystem_Virtual::" in f["n"] and any("FileSystem *" in p["t"] for p in ps)
        t = {}
        if handler or entry:
            for i, p in enumerate(ps):
                if TEXT.match(uncv(unref(p["t"]))):
                    t[i] = frozenset()
        if t or handler:
            src += len(t)
            W.want(f, t)
        elif any("web::Request" in str(x.get("n", "")) for x in walk(f["body"]) if x["k"] == "MemberExpr"):
            W.want(f, {})
            W.work.append(f["mn"]) if f["mn"] not in W.work else None
    seen, sinks, nf = {}, {}, set()
    while W.work:
        mn = W.work.pop()
        f = W.by[mn]
        x = Taint(W, f, W.done.get(mn, {}))
        x.start()
        nf.add(mn)
        sinks[mn] = x.sinks
        seen[mn] = (f, x.out)
    for mn in sorted(seen):
        f, out = seen[mn]
        for k in sorted(out, key=str):
            node, miss, nm = out[k]
            rep.violation("%s:%s:%s" % (f["file"], f["n"], nm), where(f, node),
                          "a path from outside reaches %s without a test that it stays inside the folder (%s not established)" % (nm, " and ".join(miss)))
    ns = sum(sinks.values())
    rep.cover("translation units", n)
    rep.cover("paths that come from outside", src)
    rep.cover("functions they flow through", len(nf))
    rep.cover("file system calls on the way", ns)
    rep.require("paths that come from outside", src, 5)
    rep.require("file system calls on the way", ns, 8)
    return rep.finish("Text from requests and from callers of the virtual file system is followed through assignments, calls and path operations to every file system call; "
                      "on every path there it must have been established that it is not absolute and has no way up out of the folder it is joined to.")
