"""Which storage does a view, pointer or reference depend on?

Every function is summarised by where the views it returns or stores come from, in terms of its parameters; the summaries are
iterated to a fixed point over the program.  Origins:
  ("var", d)   the storage of local variable d (or a parameter passed by value)
  ("tmp", i)   the storage of a temporary that ends with its full expression
  ("p", i)     the object parameter i refers to (-1: *this)
  ("pv", i)    whatever the value of parameter i views (-1: whatever the fields of *this view)
"""
import re
from astq import kids, walk, strip, TRANSPARENT

EMPTY = frozenset()
PASS = {"ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "FullExpr", "CXXDefaultArgExpr", "CXXDefaultInitExpr"}
CASTS = {"ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "CXXFunctionalCastExpr", "CXXDynamicCastExpr"}
CTORS = {"CXXConstructExpr", "CXXTemporaryObjectExpr"}


def unref(t):
    t = t.strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    return t


def uncv(t):
    t = t.strip()
    while True:
        if t.startswith("const "):
            t = t[6:]
        elif t.startswith("volatile "):
            t = t[9:]
        elif t.endswith(" const"):
            t = t[:-6]
        elif t.endswith("*const"):
            t = t[:-5]
        else:
            return t.strip()


def isptr(t):
    return uncv(t).endswith("*") or "(*)" in t


def isref(t):
    return t.strip().endswith("&") or "(&)" in t or "(&&)" in t


class Types:
    def __init__(self, nodes):
        self.rec = {}
        for o in nodes:
            if o["k"] == "Record":
                self.rec[o["t"]] = o
        self.memo = {}
        self.owned = set()  # fields released by the destructor of their class
        self.counted = set()
        for f in nodes:
            if f["k"] == "Function" and f.get("dtor"):
                names = {x["n"] for x in walk(f["body"]) if x["k"] == "MemberExpr" and isptr(x["t"])}
                if any("decRef" in x.get("n", "") or "decWeakRef" in x.get("n", "") for x in walk(f["body"])):
                    self.counted |= names
                else:
                    self.owned |= names

    def bears(self, t):
        """May a value of this type hold a view (a pointer or reference to something it does not own)?"""
        t = uncv(unref(t))
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = False
        r = False
        if "(*)(" in t and not t.startswith("ply::"):
            r = False
        elif t.endswith("*"):
            r = True
        elif t.endswith("]"):
            r = self.bears(t[:t.index("[")])
        elif t.startswith("(lambda") or t.startswith("ply::Functor<"):
            r = True
        elif t in self.rec:
            o = self.rec[t]
            n = o["n"]
            if n in ("ply::String",) or t.startswith("ply::Owned<") or t.startswith("ply::Reference<") or t.startswith("ply::WeakRef<"):
                r = False
            elif t.startswith("ply::Array<") or t.startswith("ply::HashMap<") or t.startswith("ply::BTree<") or t.startswith("ply::Sequence<"):
                inner = t[t.index("<") + 1:-1]
                r = self.bears(inner) and not inner.endswith("*")
            elif n == "ply::HybridString":
                r = True
            else:
                r = any(isref(f["t"]) or (self.bears(f["t"]) and (not isptr(f["t"]) or (o["trivialdtor"]))) for f in o["fields"]) or any(self.bears(b) for b in o["bases"])
        elif t.startswith("std::initializer_list<"):
            r = True
        elif t.startswith("ply::LambdaView<") or t.startswith("ply::ArrayView<"):
            r = True
        self.memo[t] = r
        return r


class Summary:
    __slots__ = ("ret", "stores")

    def __init__(self):
        self.ret = EMPTY
        self.stores = EMPTY  # (dst param index, origin)


class Fn:
    """One function (or lambda body)."""

    def __init__(self, A, f):
        self.A, self.T, self.f = A, A.T, f
        self.params = {}
        for i, p in enumerate(f["params"]):
            self.params[p["d"]] = (i, p["t"])
        self.vars = {}     # d -> (VarDecl node, scope interval)
        self.dep = {}      # d -> origins its value holds / for references: the storage they are bound to
        self.tmpv = {}
        self.memo = {}
        self.events = []   # (kind, node, origins, d)
        self.order = {}
        self.sum = Summary()
        self.lambda_depth = 0

    # ---- storage and contents -------------------------------------------------
    def contents(self, S):
        r = set()
        for o in S:
            if o[0] == "var":
                d = o[1]
                if d in self.params:
                    r.add(("pv", self.params[d][0]))
                r |= self.dep.get(d, EMPTY)
            elif o[0] == "tmp":
                r |= self.tmpv.get(o[1], EMPTY)
            elif o[0] == "p":
                r.add(("pv", o[1]))
            elif o[0] == "xt":
                r |= o[1]
                r |= self.contents(o[1])
        return frozenset(r)

    def pun(self, e, src, L):
        """An owner reinterpreted as a view of what it owns: reading it gives a view into the owner."""
        a, b = uncv(unref(src)).rstrip("*").strip(), uncv(unref(e.get("t", ""))).rstrip("*").strip()
        a, b = uncv(a), uncv(b)
        ra = self.T.rec.get(a)
        if a != b and ra and not ra["trivialdtor"] and b in self.T.rec and self.T.rec[b]["trivialdtor"] and self.T.bears(b) and L and b not in [uncv(x) for x in ra["bases"]]:
            return L | {("xt", frozenset(x for x in L if x[0] != "xt"))}
        return L

    def lv(self, e):
        """The storage a glvalue designates."""
        k = e["k"]
        c = kids(e)
        if k in PASS or (k in CASTS and e.get("v")):
            if not c:
                return EMPTY
            L = self.lv(c[0])
            return self.pun(e, c[0].get("t", ""), L) if k in CASTS and e.get("ck") in ("LValueBitCast", "BitCast", "NoOp") else L
        if k == "DeclRefExpr":
            d = e.get("d")
            if d in self.params:
                i, t = self.params[d]
                return frozenset([("p", i)]) if isref(t) else frozenset([("var", d)])
            if d in self.vars:
                v = self.vars[d]
                if v.get("static"):
                    return EMPTY
                if isref(v["t"]):
                    return self.dep.get(d, EMPTY)
                return frozenset([("var", d)])
            return EMPTY
        if k == "MaterializeTemporaryExpr":
            v = self.val(c[0])
            x = strip(c[0])
            if x["k"] in CTORS and not kids(x):
                return EMPTY  # freshly made and empty: there is nothing to view
            if e.get("sd") == 0:
                i = id(e)
                self.tmpv[i] = self.tmpv.get(i, EMPTY) | v
                return frozenset([("tmp", i)])
            if "ext" in e:
                self.dep[("ext", e["ext"])] = self.dep.get(("ext", e["ext"]), EMPTY) | v
                return frozenset([("var", ("ext", e["ext"]))])
            return EMPTY
        if k == "MemberExpr":
            if not c:
                return EMPTY
            if e.get("arrow"):
                return self.val(c[0])
            return self.lv(c[0]) if c[0].get("v") else self.prv(c[0])
        if k == "ArraySubscriptExpr":
            return self.val(c[0]) | (self.val(c[1]) if isptr(c[1].get("t", "")) else EMPTY)
        if k == "UnaryOperator":
            if e["op"] == "*":
                return self.val(c[0])
            if e["op"] in ("++", "--"):
                return self.lv(c[0])
        if k == "BinaryOperator" and e["op"] == ",":
            self.val(c[0])
            return self.lv(c[1])
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            self.val(e)
            return self.lv(c[0])
        if k == "ConditionalOperator":
            return self.lv(c[1]) | self.lv(c[2])
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral"):
            return self.call(e)
        if not e.get("v"):
            return self.prv(e)
        return EMPTY

    def prv(self, e):
        """A prvalue used as an object."""
        v = self.val(e)
        i = id(e)
        self.tmpv[i] = self.tmpv.get(i, EMPTY) | v
        return frozenset([("tmp", i)])

    def val(self, e):
        if e is None:
            return EMPTY
        i = id(e)
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = EMPTY
        r = self._val(e)
        self.memo[i] = r
        return r

    def _val(self, e):
        k = e["k"]
        c = kids(e)
        t = e.get("t", "")
        if e.get("v") and k not in ("BinaryOperator", "CompoundAssignOperator"):
            L = self.lv(e)
            return self.read(e, L)
        if k in PASS:
            return self.val(c[0]) if c else EMPTY
        if k in CASTS:
            ck = e.get("ck")
            if ck == "LValueToRValue":
                return self.read(c[0], self.lv(c[0])) if self.T.bears(t) else (self.val(c[0]), EMPTY)[1]
            if ck in ("ArrayToPointerDecay",):
                return self.lv(c[0])
            if ck in ("IntegralToPointer", "NullToPointer", "FunctionToPointerDecay", "PointerToIntegral", "PointerToBoolean"):
                for x in c:
                    self.val(x)
                return EMPTY
            if ck == "BitCast":
                return self.pun(e, c[0].get("t", ""), self.val(c[0]))
            return self.val(c[0])
        if k == "UnaryOperator":
            if e["op"] == "&":
                return self.lv(c[0])
            return self.val(c[0]) if isptr(t) else (self.val(c[0]), EMPTY)[1]
        if k == "BinaryOperator":
            if e["op"] == "=":
                self.assign(e, c[0], c[1])
                return self.val(c[1])
            a, b = self.val(c[0]), self.val(c[1])
            if e["op"] == ",":
                return b
            return a | b if isptr(t) else EMPTY
        if k == "CompoundAssignOperator":
            self.val(c[1])
            return self.val(c[0]) if isptr(t) else EMPTY
        if k == "ConditionalOperator":
            self.val(c[0])
            return self.val(c[1]) | self.val(c[2])
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral"):
            return self.call(e)
        if k in CTORS:
            return self.construct(e)
        if k == "InitListExpr":
            r = EMPTY
            for x in c:
                r |= self.bindval(x)
            return r if self.T.bears(t) else EMPTY
        if k == "CXXThisExpr":
            return frozenset([("p", -1)])
        if k == "LambdaExpr":
            body = c[-1] if c else None
            r = EMPTY
            for x, cap in zip(c[:-1], e.get("caps", ())):
                if cap.startswith("&"):
                    r |= self.lv(x) if x.get("v") else self.val(x)
                else:
                    r |= self.val(x)
            if body:
                self.lambda_depth += 1
                self.stmt(body)
                self.lambda_depth -= 1
            return r
        if k == "CXXNewExpr":
            r = EMPTY
            for x in c:
                r |= self.val(x)
            if e.get("placement"):
                # constructed where the pointer says
                dst = EMPTY
                src = EMPTY
                for x in c:
                    if x["k"] in CTORS or x["k"] == "InitListExpr" or x["k"] in PASS and self.T.bears(x.get("t", "")) and not isptr(x["t"]):
                        src |= self.val(x)
                    elif isptr(x.get("t", "")):
                        dst |= self.val(x)
                if self.T.bears(t[:-1].strip()):
                    self.store(e, dst, src)
                return dst
            return EMPTY
        if k == "CXXDeleteExpr":
            for x in c:
                self.val(x)
            return EMPTY
        for x in c:
            if x["k"].endswith("Stmt") or x["k"] == "VarDecl":
                self.stmt(x)
            else:
                self.val(x)
        return EMPTY

    def read(self, e, L):
        """The value read from storage L by expression e."""
        t = e.get("t", "")
        if not self.T.bears(t):
            return EMPTY
        r = self.contents(L)
        x = strip(e)
        if x["k"] == "MemberExpr" and isptr(t) and x["n"] in self.T.owned:
            r |= L
        elif x["k"] == "MemberExpr" and isptr(t) and x["n"] in self.T.counted:
            return EMPTY
        elif x["k"] == "MemberExpr" and not isptr(t):
            pass
        return frozenset(o for o in r)

    def bindval(self, x):
        """Value given to a field or parameter of unknown passing mode."""
        return self.val(x) if not x.get("v") else (self.lv(x) | self.val(x) if not self.T.bears(x.get("t", "")) else self.val(x))

    # ---- calls ------------------------------------------------------------------
    def argmap(self, e, args, params, obj):
        """origin in the callee's terms -> origins here"""
        def m(o):
            if o[0] == "xt":
                S = frozenset(y for x in o[1] for y in m(x) if y[0] != "xt")
                return frozenset([("xt", S)]) if S else EMPTY
            if o[0] not in ("p", "pv"):
                return EMPTY
            i = o[1]
            if i == -1:
                if obj is None:
                    return EMPTY
                return obj if o[0] == "p" else self.contents(obj)
            if i >= len(args):
                return EMPTY
            a = args[i]
            if a.get("v") or (i < len(params) and isref(params[i])):
                L = self.lv(a)
                return L if o[0] == "p" else (self.contents(L) | self.val(a))
            return self.val(a)
        return m

    def paramtypes(self, e):
        s = e.get("f", "")
        f = self.A.byname.get(e.get("mn"))
        if f:
            return [p["t"] for p in f["params"]]
        if "(" in s:
            return split_types(s[s.index("("):] if not s.startswith("(") else s)
        return []

    def call(self, e):
        i = ("call", id(e))
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = EMPTY
        c = kids(e)
        name = e.get("n", "")
        k = e["k"]
        t = e.get("t", "")
        obj = None
        f = self.A.byname.get(e.get("mn"))
        if k == "CXXMemberCallExpr":
            m = strip(c[0])
            if m["k"] == "MemberExpr" and kids(m):
                o = kids(m)[0]
                obj = self.val(o) if m.get("arrow") else (self.lv(o) if o.get("v") else self.prv(o))
            elif kids(m):
                for x in kids(m):
                    self.val(x)
            args = c[1:]
        elif k == "CXXOperatorCallExpr" and (e.get("mc") is not None and not (e["mc"] & 2)):
            o = c[1]
            obj = self.lv(o) if o.get("v") else self.prv(o)
            args = c[2:]
        else:
            self.val(c[0])
            args = c[1:]
        for a in args:
            self.val(a)
        if name.startswith("std::initializer_list<"):
            return self.contents(obj) if obj else EMPTY
        if "memory_dl" in name or "Heap" in name:
            return EMPTY
        if name in ("std::move", "std::forward"):
            r = self.lv(args[0])
            self.memo[i] = r
            return r
        sm = self.A.sums.get(e.get("mn"))
        pts = self.paramtypes(e)
        mp = self.argmap(e, args, pts, obj)
        res = set()
        matters = self.T.bears(t) or e.get("v")
        if sm is not None:
            for o in sm.ret:
                res |= mp(o)
            for dst, o in sm.stores:
                D = mp(("p", dst)) if dst == -1 or (dst < len(pts) and isref(pts[dst])) else mp(("pv", dst))
                self.store(e, frozenset(D), frozenset(mp(o)))
        elif e.get("oper") == "=" and obj is not None and args:
            # implicit assignment
            self.assign(e, c[1], args[0])
            res |= obj
        elif matters and "::" in name:
            for n, a in enumerate(args):
                pt = pts[n] if n < len(pts) else ""
                if isref(pt):
                    res |= self.lv(a) if a.get("v") or True else EMPTY
                res |= self.val(a)
            if obj is not None:
                res |= obj
        if e.get("oper") == "=" and obj is not None and args and sm is not None and self.T.bears(unref(c[1]["t"])):
            pass
        r = frozenset(res) if matters else EMPTY
        self.memo[i] = r
        return r

    def construct(self, e):
        c = kids(e)
        t = e.get("t", "")
        for a in c:
            self.val(a)
        sm = self.A.sums.get(e.get("mn"))
        pts = self.paramtypes(e)
        if not self.T.bears(t):
            return EMPTY
        if sm is None:
            if e.get("copy") and c:
                return self.val(c[0])
            r = EMPTY
            for n, a in enumerate(c):
                pt = pts[n] if n < len(pts) else ""
                if isref(pt) and not self.T.bears(pt):
                    r |= self.lv(a)
                else:
                    r |= self.val(a)
            return r
        mp = self.argmap(e, c, pts, frozenset())
        r = set()
        if uncv(t).startswith("ply::Functor<"):
            for a in c:
                r |= self.val(a)
        for dst, o in sm.stores:
            if dst == -1:
                r |= mp(o)
        return frozenset(r)

    # ---- stores -----------------------------------------------------------------
    def assign(self, e, l, r):
        v = self.val(r)
        if not self.T.bears(r.get("t", "")) and not self.T.bears(l.get("t", "")):
            self.lv(l) if l.get("v") else None
            return
        self.store(e, self.lv(l), v, l)

    def store(self, e, D, V, l=None):
        if not V:
            return
        for o in D:
            if o[0] == "var":
                self.dep[o[1]] = self.dep.get(o[1], EMPTY) | V
                self.events.append(("var", e, V, o[1]))
            elif o[0] == "tmp":
                self.tmpv[o[1]] = self.tmpv.get(o[1], EMPTY) | V
            elif o[0] in ("p", "pv"):
                # an object the caller knows
                for x in V:
                    if x[0] in ("p", "pv"):
                        self.sum.stores |= {(o[1], x)}
                self.events.append(("obj", e, V, (o, l)))
        if not D:
            self.events.append(("obj", e, V, (None, l)))

    # ---- statements -------------------------------------------------------------
    def stmt(self, s):
        if s is None:
            return
        k = s["k"]
        c = kids(s)
        if k == "VarDecl":
            self.vars[s["d"]] = s
            if c:
                init = c[0]
                if isref(s["t"]):
                    L = self.lv(init) if init.get("v") or init["k"] in PASS | {"MaterializeTemporaryExpr"} | CASTS else self.prv(init)
                    self.dep[s["d"]] = self.dep.get(s["d"], EMPTY) | L
                    L = frozenset(x for x in L if x[0] != "xt")
                    self.events.append(("bind", s, L, s["d"]))
                else:
                    v = self.val(init)
                    if self.T.bears(s["t"]):
                        self.dep[s["d"]] = self.dep.get(s["d"], EMPTY) | v
                        self.events.append(("var", s, v, s["d"]))
            return
        if k == "ReturnStmt":
            if c:
                e = c[0]
                ret = self.f["ret"]
                if self.lambda_depth:
                    self.val(e)
                    return
                if isref(ret):
                    L = self.lv(e)
                elif self.T.bears(ret):
                    L = self.val(e)
                else:
                    self.val(e)
                    return
                self.sum.ret |= frozenset(o for o in L if o[0] in ("p", "pv") or (o[0] == "xt" and all(x[0] in ("p", "pv") for x in o[1])))
                self.events.append(("ret", s, L, None))
            return
        if "t" in s:
            self.val(s)
            return
        for x in c:
            self.stmt(x)

    def run(self):
        self.sum = Summary()
        f = self.f
        for it in range(2):
            self.memo = {}
            self.events = []
            for q in f.get("inits", ()):
                e = q.get("e")
                if not e:
                    continue
                if "member" in q:
                    mt = self.A.fieldtype(q["member"], f.get("cls"))
                    if mt and isref(mt):
                        v = self.lv(e)
                    else:
                        v = self.val(e) if mt is None or self.T.bears(mt) else (self.val(e), EMPTY)[1]
                    for x in v:
                        if x[0] in ("p", "pv"):
                            self.sum.stores |= {(-1, x)}
                    if any(x[0] in ("tmp", "var") for x in v):
                        self.events.append(("obj", e, v, (("p", -1), None)))
                else:
                    for x in self.val(e):
                        if x[0] in ("p", "pv"):
                            self.sum.stores |= {(-1, x)}
            self.stmt(f["body"])
        # what is taken over from an object about to die, or copied from one of the same kind, is not borrowed from it
        for p in f["params"]:
            i = self.params[p["d"]][0]
            own = not self.T.rec.get(uncv(unref(p["t"])), {"trivialdtor": True})["trivialdtor"]
            if own and (p["t"].endswith("&&") or (isref(p["t"]) and f.get("cls") and uncv(unref(p["t"])).split("<")[0] == f["cls"].split("<")[0] and (f.get("ctor") or f["n"].endswith("operator=")))):
                if f.get("ctor") or f["n"].endswith("operator="):
                    self.sum.stores = frozenset(x for x in self.sum.stores if x[1] != ("p", i))
        cls = f.get("cls") or ""
        last = cls.rsplit("::", 1)[-1]
        if any(w in last for w in ("Iterator", "Cursor")) and not self.T.rec.get(cls, {}).get("k") == "none":
            # what an iterator or cursor gives out lives in what it walks over
            self.sum.ret = frozenset(("pv", -1) if x == ("p", -1) and not f["n"].endswith(("++", "--", "operator=")) else x for x in self.sum.ret)
        if cls.startswith("ply::Switch"):
            self.sum.ret = EMPTY  # a pun over the switch that contains it
        # ownership handed over: a pointer member that is returned and overwritten is no longer held
        owned_ret = ("p", -1) in self.sum.ret
        if owned_ret and isptr(f["ret"]):
            for x in walk(f["body"]):
                if x["k"] == "BinaryOperator" and x["op"] == "=":
                    l = strip(kids(x)[0])
                    r = strip(kids(x)[1])
                    if l["k"] == "MemberExpr" and l["n"] in self.T.owned and (r["k"] in ("CXXNullPtrLiteralExpr",) or r.get("const") == "0" or r["k"] == "ImplicitCastExpr"):
                        self.sum.ret -= {("p", -1)}
        return self.sum


def split_types(s):
    s = s[1:-1] if s.startswith("(") else s
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Analysis:
    def __init__(self, nodes):
        self.T = Types(nodes)
        self.fns = [f for f in nodes if f["k"] == "Function" and "memory_dl" not in f["n"] and "Heap" not in f["n"] and "dlmalloc" not in f["file"]]
        self.byname = {}
        for f in self.fns:
            self.byname.setdefault(f["mn"], f)
        self.fields = {}
        for o in nodes:
            if o["k"] == "Record":
                for q in o["fields"]:
                    self.fields.setdefault((o["n"], q["n"]), set()).add(q["t"])
        self.sums = {}

    def fieldtype(self, qn, cls):
        c, _, n = qn.rpartition("::")
        ts = self.fields.get((c, n)) or self.fields.get((cls, n))
        if ts and len({isref(t) for t in ts}) == 1:
            return sorted(ts, key=lambda t: not self.T.bears(t))[0]
        return None

    def solve(self, rounds=8):
        work = list(self.byname.values())
        callers = {}
        for f in work:
            for x in list(walk(f["body"])) + [y for q in f.get("inits", ()) if q.get("e") for y in walk(q["e"])]:
                if x.get("mn"):
                    callers.setdefault(x["mn"], set()).add(f["mn"])
        for mn in self.byname:
            self.sums[mn] = Summary()
        todo = set(self.byname)
        n = 0
        while todo and n < rounds:
            n += 1
            nxt = set()
            for mn in sorted(todo):
                a = Fn(self, self.byname[mn])
                s = a.run()
                o = self.sums[mn]
                if s.ret - o.ret or s.stores - o.stores:
                    ns = Summary()
                    ns.ret, ns.stores = s.ret | o.ret, s.stores | o.stores
                    self.sums[mn] = ns
                    nxt |= callers.get(mn, set())
            todo = nxt
        self.rounds = n
        return n
