"""Which values may be absent (null handle, failed lookup, negative position, other alternative) where they are used.

state: key -> mask of N (absent on some path), P (present), U (nothing known). Missing keys are U.
Keys name variables and member paths; alternatives of tagged values have keys 'path#tag' with a frozenset of names."""
import re
from astq import kids, walk, strip, callee_object, asserted, TRANSPARENT
import flow
from views import unref, uncv, isptr, isref

N, P, U = 1, 2, 4
OPENED = re.compile(r"ply::(InPipe|OutPipe|InStream|OutStream)\b")
HANDLE = re.compile(r"^(ply::(Owned|Reference|Borrowed|OptionallyOwned|OptionallyBorrowed|Ref|WeakRef|TypedPtr)\b|ply::Functor<|ply::HiddenArgFunctor<)")
CURSOR = re.compile(r"ply::HashMap<.*>::(Const)?(Cursor|FindResult)|(^|::)HashMap.*Cursor|ply::BTree<.*>::(Const)?Iterator")
SWITCH = re.compile(r"^(const )?ply::SwitchWrapper<")
INT = {"int", "long", "short", "s32", "s64", "long long", "ply::s32"}
PASS = {"get", "borrow", "release", "move", "forward"}


def mname(e):
    n = e.get("n", "")
    i = n.rfind("::operator ")
    return n[i + 2:] if i >= 0 else n.split("::")[-1]


def ty(e):
    return uncv(unref(e.get("t", "")))


def nullable(t):
    t = uncv(unref(t))
    return isptr(t) or bool(HANDLE.match(t))


def tracked(t):
    t = uncv(unref(t))
    return isptr(t) or bool(HANDLE.match(t)) or bool(CURSOR.search(t)) or t in INT


def peel(e):
    """Through parentheses, value-preserving casts, temporaries, handle conversions."""
    while e is not None:
        c = kids(e)
        k = e["k"]
        if k in TRANSPARENT and c:
            if k == "ImplicitCastExpr" and e.get("ck") in ("IntegralToBoolean", "PointerToBoolean"):
                e = c[0]
                continue
            e = c[0]
        elif k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") and len(c) == 1 and (e.get("copy") or HANDLE.match(ty(e)) or k == "InitListExpr" and nullable(ty(e))):
            e = c[0]
        elif k == "CXXMemberCallExpr" and (mname(e) in PASS or mname(e).startswith("operator ")) and callee_object(e) is not None and (
                HANDLE.match(ty(callee_object(e)))):
            if mname(e) == "operator bool":
                return e
            e = callee_object(e)
        elif k == "CallExpr" and e.get("n") in ("std::move", "std::forward") and len(c) > 1:
            e = c[1]
        else:
            return e
    return e


def key(e):
    e = peel(e)
    if e is None:
        return None
    c = kids(e)
    k = e["k"]
    if k == "DeclRefExpr" and e.get("d") is not None and e.get("dk") in ("Var", "ParmVar", "VarTemplateSpecialization", None, "Binding"):
        return "v%d" % e["d"]
    if k == "CXXThisExpr":
        return "this"
    if k == "MemberExpr" and c:
        if c[0].get("k") == "CXXThisExpr":
            return "this." + e["n"].split("::")[-1]
        b = key(c[0])
        return b and b + "." + e["n"].split("::")[-1]
    if k == "CXXOperatorCallExpr" and e.get("oper") in ("->",) and len(c) > 1:
        return key(c[1])
    if k == "UnaryOperator" and e["op"] == "*" and c:
        b = key(c[0])
        return b and b + ".*"
    if k == "CXXOperatorCallExpr" and e.get("oper") == "*" and len(c) == 2:
        b = key(c[1])
        return b and b + ".*"
    if k == "BinaryOperator" and e.get("op") == "=" and c:
        return key(c[0])
    return None


class Absence(flow.Flow):
    """self.st is {flag values: facts} between nodes, and one of the facts while a node is visited."""
    MAXD = 8

    def copy(self, a):
        return {k: dict(v) for k, v in a.items()}

    def join(self, a, b):
        r = dict(a)
        for k, v in b.items():
            r[k] = self.join1(r[k], v) if k in r else dict(v)
        if len(r) > self.MAXD:
            m = None
            for v in r.values():
                m = dict(v) if m is None else self.join1(m, v)
            r = {frozenset(): m}
        return r

    def each(self, g):
        whole, out = self.st, {}
        for fl, facts in whole.items():
            self.st, self.fl = dict(facts), fl
            g()
            if self.st is not None:
                out[self.fl] = self.join1(out[self.fl], self.st) if self.fl in out else self.st
        self.st = out or None

    VISITED = {"VarDecl", "BinaryOperator", "CompoundAssignOperator", "UnaryOperator", "MemberExpr", "ArraySubscriptExpr", "CXXOperatorCallExpr", "ImplicitCastExpr",
               "CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"}

    def visit_if(self, n):
        if self.st is not None and n["k"] in self.VISITED:
            self.each(lambda: self.visit(n))

    def cond(self, e):
        return super().cond(e)

    def refine(self, e, truth):
        self.each(lambda: self.refine1(e, truth))

    def atreturn(self, n):
        self.each(lambda: self.atreturn1(n))

    def picked(self, n, x):
        if x is kids(n)[1]:
            n["_m"] = 0
        if self.st is not None:
            self.each(lambda: self.picked1(n, x))

    def setflag(self, d, v):
        if d in self.flags:
            self.fl = frozenset(z for z in self.fl if z[0] != d) | ({(d, v)} if v is not None else frozenset())

    def __init__(self, S, f):
        super().__init__(f)
        self.S = S
        self.out, self.n = {}, set()
        self.vars = {}
        self.unstable = set()
        self.pidx = {}
        for i, p in enumerate(f["params"]):
            self.vars[p["d"]] = p
            self.pidx["v%d" % p["d"]] = i
        lam = 0
        for x in walk(f["body"]):
            if x["k"] == "VarDecl":
                self.vars[x["d"]] = x
                if x.get("static"):
                    self.unstable.add("v%d" % x["d"])
            if x["k"] == "LambdaExpr":
                for y in walk(x):
                    if y["k"] == "BinaryOperator" and y["op"] == "=" or y["k"] == "CXXOperatorCallExpr" and y.get("oper") == "=":
                        k = key(kids(y)[0] if y["k"] == "BinaryOperator" else kids(y)[1])
                        if k:
                            self.unstable.add(k)
        self.requires = {}
        self.ret = 0
        self.uses = 0
        self.find_flags()

    def join1(self, a, b):
        r = {}
        for k in set(a) | set(b):
            x, y = a.get(k, U), b.get(k, U)
            if k[0] == "#":
                if x == U or y == U:
                    continue
                r[k] = x | y
            else:
                m = x | y
                if m != U:
                    r[k] = m
        return r

    # ---- values
    def mask(self, e):
        x = peel(e)
        if x is None:
            return U
        c = kids(x)
        k = x["k"]
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return N
        if ty(e) in INT and ("const" in x or k == "IntegerLiteral"):
            return N if x.get("const", x.get("i", "")).startswith("-") else P
        if k == "IntegerLiteral" and isptr(ty(e)):
            return N if x["i"] == "0" else P
        if k == "ImplicitValueInitExpr" or k in ("CXXConstructExpr", "InitListExpr", "CXXTemporaryObjectExpr", "CXXScalarValueInitExpr") and not c and nullable(ty(x)):
            return N if nullable(ty(x)) else U
        if k in ("CXXNewExpr", "CXXThisExpr", "StringLiteral"):
            return P
        if k == "UnaryOperator" and x["op"] == "&":
            return P
        if k == "ConditionalOperator":
            v = x.get("_m")
            return v if v is not None else self.mask(c[1]) | self.mask(c[2])
        kk = key(x)
        if kk is not None:
            if self.st is None:
                return U
            if kk in self.unstable:
                return U
            return self.st.get(kk, U)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            return self.callmask(x)
        return U

    def callmask(self, x):
        r = self.S.ret.get(x.get("mn"), U)
        t = ty(x)
        if "mn" not in x and x["k"] == "CallExpr" and kids(x):
            # a call through an entry of a table of functions: any function of that name may be behind it
            y = strip(kids(x)[0])
            if y is not None and y["k"] == "MemberExpr":
                for mn in self.S.named.get((y["n"].split("::")[-1], uncv(t)), ()):
                    r = (r | self.S.ret.get(mn, U)) if r != U else self.S.ret.get(mn, U)
        if CURSOR.search(t):
            m = mname(x)
            if m == "find":
                return N | P
            return U
        if r & N:
            return r
        return U

    def picked1(self, n, x):
        # the value of a conditional expression, arm by arm, each in its own state
        n["_m"] |= self.mask(x)

    # ---- facts
    def put(self, k, m):
        if k is None or self.st is None:
            return
        if k in self.unstable:
            return
        if m == U:
            self.st.pop(k, None)
        else:
            self.st[k] = m

    def drop(self, k, below=True, itself=True):
        if k is None:
            return
        pre, tag = k + ".", "#" + k
        for q in list(self.st):
            if itself and q == k or below and (q.startswith(pre) or q == tag or q.startswith(tag + ".")):
                del self.st[q]

    # ---- flags: bool locals that only ever hold constants split the state, others stand for their defining condition
    def find_flags(self):
        self.flags, self.defs = set(), {}
        asg = {}
        for x in walk(self.f["body"]):
            if x["k"] == "VarDecl" and uncv(x["t"]) == "bool" and kids(x):
                asg.setdefault(x["d"], []).append(kids(x)[0])
            elif x["k"] == "BinaryOperator" and x["op"] == "=":
                y = strip(kids(x)[0])
                if y["k"] == "DeclRefExpr" and y.get("d") is not None:
                    asg.setdefault(y["d"], []).append(kids(x)[1])
            elif x["k"] == "CompoundAssignOperator" or x["k"] == "UnaryOperator" and x["op"] == "&":
                y = strip(kids(x)[0])
                if y["k"] == "DeclRefExpr" and y.get("d") is not None:
                    asg.setdefault(y["d"], []).append(None)
        for d, es in asg.items():
            v = self.vars.get(d)
            if v is None or uncv(v["t"]) != "bool" or "v%d" % d in self.unstable:
                continue
            const = [self.constant(e) for e in es]
            if len(es) > 1 and all(c is not None for c in const):
                self.flags.add(d)
            elif len(es) == 1 and v["k"] == "VarDecl" and es[0] is not None:
                self.defs[d] = es[0]

    @staticmethod
    def constant(e):
        if e is None:
            return None
        e = strip(e)
        return {"1": True, "0": False}.get(e.get("i")) if e["k"] == "CXXBoolLiteralExpr" else None

    def report(self, n, msg):
        if not self.quiet:
            self.out.setdefault((n["l"], msg), n)

    def label(self, e):
        x = peel(e)
        k = x["k"]
        if k in ("DeclRefExpr", "MemberExpr"):
            return x["n"].split("::")[-1]
        if x.get("n"):
            return "the result of %s" % "::".join(x["n"].split("::")[-2:])
        return "the value"

    def used(self, e, n, how):
        """The value must be present here."""
        if not self.quiet:
            self.uses += 1
        m = self.mask(e)
        kk = key(e)
        if m & N:
            why = "is absent here" if m == N else "may be absent here"
            self.report(n, "%s %s and is %s without a test on this path" % (self.label(e), why, how))
        elif kk in self.pidx and not (m & P) and not self.asserts(n) and kk not in self.unstable:
            self.requires.setdefault(self.pidx[kk], n["l"])
        if kk is not None:
            self.put(kk, P)

    def asserts(self, n):
        return False

    # ---- events
    def visit(self, n):
        k = n["k"]
        c = kids(n)
        if k == "VarDecl" and n["d"] in self.flags or k == "BinaryOperator" and n["op"] == "=" and strip(c[0]).get("d") in self.flags:
            self.setflag(n["d"] if k == "VarDecl" else strip(c[0])["d"], self.constant(c[-1]) if c else None)
            return
        if k == "VarDecl":
            d = "v%d" % n["d"]
            self.drop(d)
            if c and not isref(n["t"]):
                e = peel(c[0])
                if tracked(n["t"]):
                    self.put(d, self.mask(c[0]))
                    self.moved(c[0])
                else:
                    self.default_members(d, e)
            elif nullable(n["t"]) and not c and HANDLE.match(uncv(unref(n["t"]))):
                self.put(d, N)
            return
        if k == "BinaryOperator" and n["op"] == "=" or k == "CXXOperatorCallExpr" and n.get("oper") == "=" and len(c) > 2:
            l, r = (c[0], c[1]) if k == "BinaryOperator" else (c[1], c[2])
            kk = key(l)
            if kk is not None:
                m = self.mask(r) if tracked(ty(l)) else U
                self.drop(kk)
                if tracked(ty(l)):
                    self.put(kk, m)
                self.moved(r)
            elif peel(l)["k"] == "UnaryOperator":
                pass
            return
        if k in ("CompoundAssignOperator",) or k == "UnaryOperator" and n["op"] in ("++", "--"):
            kk = key(c[0])
            if kk:
                self.drop(kk)
            return
        if k == "UnaryOperator" and n["op"] == "*":
            if isptr(ty(c[0])):
                self.used(c[0], n, "dereferenced")
            return
        if k == "MemberExpr" and n.get("arrow") and c:
            b = c[0]
            if strip(b)["k"] != "CXXThisExpr" and isptr(ty(b)) and not (peel(b)["k"] == "CXXOperatorCallExpr" and peel(b).get("oper") == "->"):
                self.used(b, n, "dereferenced")
            return
        if k == "ArraySubscriptExpr":
            for x in c:
                if isptr(ty(x)):
                    self.used(x, n, "indexed")
            return
        if k == "CXXOperatorCallExpr" and n.get("oper") in ("->", "*") and len(c) == 2:
            t = ty(c[1])
            if HANDLE.match(t) or CURSOR.search(t):
                self.used(c[1], n, "dereferenced")
            return
        if k == "CXXOperatorCallExpr" and n.get("oper") == "()" and len(c) >= 2 and re.match(r"^(const )?ply::(HiddenArg)?Functor<", ty(c[1])):
            self.used(c[1], n, "called")
            return
        if k == "ImplicitCastExpr" and n.get("ck") == "IntegralCast" and ty(n).startswith(("unsigned", "u32", "ureg", "ply::u")) and ty(c[0]) in INT:
            x = peel(c[0])
            if x["k"] in ("DeclRefExpr", "CXXMemberCallExpr", "CallExpr", "MemberExpr") and "const" not in x:
                n["_neg"] = True
            return
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
            self.call(n)

    def moved(self, e):
        pass

    def default_members(self, d, e):
        pass

    def call(self, n):
        k = n["k"]
        c = kids(n)
        obj = None
        if k == "CXXMemberCallExpr":
            obj = callee_object(n)
            a = c[1:]
        elif k == "CXXOperatorCallExpr":
            if n.get("mc") is not None and not (n["mc"] & 2):
                obj = c[1]
                a = c[2:]
            else:
                a = c[1:]
        elif k == "CallExpr":
            a = c[1:]
        else:
            a = c
        name = mname(n)
        # a position that may be negative handed over as a size
        if name not in ("operator=", "format"):
            for x in a:
                if x.get("_neg") and self.mask(x) & N:
                    self.report(x, "%s may be negative here (nothing found) and is passed as a position to %s" % (self.label(x), name))
        if k == "CXXConstructExpr" and HANDLE.match(ty(n)) and len(a) == 1 and self.st is not None and self.mask(a[0]) & N:
            self.st["h%d" % id(n)] = self.mask(a[0])     # what a converted handle holds
        # an absent object handed over to be kept where everyone expects one
        keeps = k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not HANDLE.match(ty(n)) or name in ("append", "createImporter", "createExporter")
        if keeps:
            for x in a:
                m = self.mask(x)
                y = x
                while m == U and y is not None:
                    m = (self.st or {}).get("h%d" % id(y), U)
                    y = kids(y)[0] if len(kids(y)) == 1 else None
                if (HANDLE.match(ty(x)) or name == "append" and isptr(ty(x))) and m & N and m != N:
                    self.report(n, "%s may be absent and is handed over to %s" % (self.label(x), name))
        req = self.S.req.get(n.get("mn"))
        if req:
            for i, x in enumerate(a):
                if i in req and nullable(ty(x)) and "#arg" not in str(n.get("m")):
                    m = self.mask(x)
                    if not self.quiet:
                        self.uses += 1
                    if m & N:
                        self.report(n, "%s %s and is passed to %s, which uses it without a test" % (self.label(x), "is absent" if m == N else "may be absent", name))
                    kk = key(x)
                    if kk is not None and kk in self.pidx and not m & P and kk not in self.unstable:
                        self.requires.setdefault(self.pidx[kk], n["l"])
        pure = name in ("move", "forward", "wasFound", "isEmpty", "numItems", "get", "borrow", "operator bool", "isValid", "view") or name.startswith("operator ")
        if pure:
            return
        if n.get("mn") in self.S.noreturn or (
                n.get("mn") in self.S.fatal and any(fatal_level(x) for x in a)):
            self.st = None
            return
        sig = n.get("f", "")
        ptypes = sig[sig.find("(") + 1:].rstrip(")").split(",") if "(" in sig else []
        for i, x in enumerate(a):
            y = peel(x)
            if y["k"] == "UnaryOperator" and y["op"] == "&" and kids(y):
                self.drop(key(kids(y)[0]))
            elif x.get("v") == "l" and not ty_const(x) or y is not None and (x.get("v") == "x" or y.get("v") == "x"):
                kk = key(x)
                if kk:
                    self.drop(kk)
            elif isptr(ty(x)) or HANDLE.match(ty(x)):
                self.drop(key(x), True, False)
        if obj is not None and not (n.get("mc", 0) & 1):
            kk = key(obj)
            if kk:
                arrow = strip(c[0]).get("arrow") if k == "CXXMemberCallExpr" else False
                self.drop(kk, True, not arrow and kk != "this")
        # anything reachable from elsewhere may change
        for q in list(self.st):
            kq = q.lstrip("#")
            if "." in kq and not (self.S.pure(n)):
                root = kq.split(".")[0]
                v = self.vars.get(int(root[1:])) if root[0] == "v" else None
                if v is None or isptr(v["t"]) or isref(v["t"]) or HANDLE.match(uncv(v["t"])):
                    del self.st[q]

    def atreturn1(self, s):
        if getattr(self, "inlambda", 0):
            return
        c = kids(s)
        if c:
            m = self.mask(c[0])
            self.ret |= m

    # ---- conditions
    def refine1(self, e, truth):
        x = e
        while x["k"] in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "CStyleCastExpr", "CXXFunctionalCastExpr") and kids(x):
            x = kids(x)[0]
        c = kids(x)
        k = x["k"]
        if k == "CXXMemberCallExpr":
            o = callee_object(x)
            nm = mname(x)
            if o is not None and (nm in ("operator bool", "wasFound", "isValid") or nm.startswith("operator ") and HANDLE.match(ty(o))):
                if nm != "isValid" or CURSOR.search(ty(o)):
                    self.known(o, truth)
            return
        if k == "BinaryOperator" and x["op"] == "=":
            self.known(c[0], truth)
            return
        if k in ("BinaryOperator",) and x["op"] in ("==", "!=", "<", ">", "<=", ">="):
            self.compare(c[0], c[1], x["op"], truth)
            return
        if k == "CXXOperatorCallExpr" and x.get("oper") in ("==", "!=") and len(c) == 3:
            self.compare(c[1], c[2], x["oper"], truth)
            return
        if k == "DeclRefExpr" and x.get("d") in self.flags:
            have = dict(self.fl).get(x["d"])
            if have is not None and have != truth:
                self.st = None
            else:
                self.setflag(x["d"], truth)
            return
        if k == "DeclRefExpr" and x.get("d") in self.defs and not getattr(self, "deep", 0):
            self.deep = 1
            self.implied(self.defs[x["d"]], truth)
            self.deep = 0
            return
        if isptr(ty(x)) or HANDLE.match(ty(x)):
            self.known(x, truth)

    def implied(self, e, truth):
        e = strip(e)
        c = kids(e)
        if self.st is None:
            return
        if e["k"] == "BinaryOperator" and e["op"] in ("&&", "||"):
            if (e["op"] == "&&") == truth:
                self.implied(c[0], truth)
                self.implied(c[1], truth)
        elif e["k"] == "UnaryOperator" and e["op"] == "!":
            self.implied(c[0], not truth)
        else:
            self.refine1(e, truth)

    def known(self, e, present):
        kk = key(e)
        if kk is None:
            return
        m = self.st.get(kk, U)
        if m == U and CURSOR.search(ty(peel(e))):
            return      # made by insertOrFind: there is an item either way
        want = P if present else N
        if m in (N, P) and m != want:
            self.st = None
            return
        if not present and asserted(e):
            return      # an assertion that allows for absence does not make it likely
        self.put(kk, want)

    def compare(self, a, b, op, truth):
        if not truth:
            op = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[op]
        pa, pb = peel(a), peel(b)
        for x in (pa, pb):
            if x["k"] == "DeclRefExpr" and x.get("dk") == "EnumConstant" and x["n"].endswith("FSResult::OK"):
                if op == "==":
                    # an open that reports success hands back an object
                    for q in list(self.st):
                        v = self.vars.get(int(q[1:])) if q[:1] == "v" and q[1:].isdigit() else None
                        if v is not None and self.st[q] & N and self.st[q] != N and OPENED.search(v["t"]):
                            self.st[q] = P
                return
        null = lambda z: z["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or z["k"] == "IntegerLiteral" and z["i"] == "0"
        for x, y, o in ((a, pb, op), (b, pa, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
            t = ty(peel(x))
            if nullable(t):
                if null(y) and o in ("==", "!="):
                    self.known(x, o == "!=")
                    return
                if o == "==" and self.mask(y) == P:
                    self.known(x, True)
                    return
            elif t in INT:
                v = y.get("const", y.get("i") if y["k"] == "IntegerLiteral" else None)
                if v is None:
                    if o in (">", "==", ">=") and self.mask(y) == P:
                        self.known(x, True)
                        return
                    # compared as an unsigned number below some limit
                    continue
                v = int(v)
                if o == "<" and v <= 0 or o == "<=" and v < 0 or o == "==" and v < 0:
                    self.known(x, False)
                elif o == ">=" and v >= 0 or o == ">" and v >= -1 or o == "==" and v >= 0 or o == "!=" and v == -1:
                    self.known(x, True)
                return
            if t.startswith("unsigned") and o in ("<", "<="):
                z = peel(x)
                if ty(z) in INT:
                    self.known(z, True)


def ty_const(x):
    t = x.get("t", "")
    return t.startswith("const ")


# functions whose absent results their callers rightly do not expect
ALLOW = {
    "ply::SchemaLoader::readFormatDescriptor": "null only at the top level, as the assertion in front of it says",
}


def NOTABSENT(f):
    return f["file"].startswith("runtime/ply-runtime/memory/") or f["n"] in ALLOW      # allocation is assumed to succeed


def fatal_level(x):
    return any(y["k"] == "DeclRefExpr" and str(y.get("r", y.get("n", ""))).split("::")[-1] == "Fatal" for y in walk(x))


class Summaries:
    def __init__(self, A):
        self.by = {}
        for f in A:
            if f.get("mn") and f.get("body"):
                self.by.setdefault(f["mn"], f)
        self.ret, self.req, self.noreturn = {}, {}, set()
        self.named = {}
        for mn, f in self.by.items():
            if nullable(f.get("ret", "")):
                self.named.setdefault((f["n"].split("::")[-1], uncv(f["ret"])), []).append(mn)
        # error reporters documented not to return for a fatal level; believed
        # only while their body really contains a call that ends the process
        self.fatal = set()
        for mn, f in self.by.items():
            if f["n"].endswith("ErrorHandler::log") and any(
                    c["k"] == "CallExpr" and c.get("n", "") in ("exit", "_exit", "abort") for c in walk(f["body"])):
                self.fatal.add(mn)

    def pure(self, n):
        return bool(n.get("mc", 0) & 1)

    def solve(self, rounds):
        for r in range(rounds):
            ch = False
            for mn in sorted(self.by):
                f = self.by[mn]
                a = Absence(self, f)
                ex = a.run({frozenset(): {}})
                if NOTABSENT(f):
                    a.ret = U
                if nullable(f.get("ret", "")) or uncv(unref(f.get("ret", ""))) in INT:
                    if self.ret.get(mn, U) != a.ret and a.ret & N:
                        self.ret[mn] = a.ret
                        ch = True
                if a.requires and set(a.requires) != set(self.req.get(mn, ())):
                    self.req[mn] = a.requires
                    ch = True
                if ex is None and mn not in self.noreturn and f["body"]["k"] == "CompoundStmt":
                    self.noreturn.add(mn)
                    ch = True
            if not ch:
                return r + 1
        return rounds
