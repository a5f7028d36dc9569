"""P14: text put into web pages is escaped."""
import re
import build
from astq import kids, walk, strip, callee_object, where, args
from absence import uncv, unref

TAG = re.compile(r"<(/?[a-zA-Z][^<>]*|!DOCTYPE[^<>]*)>|<[a-zA-Z/]|</|&[a-z]+;|\b(href|class|id|src)=")
TEXT = re.compile(r"^(const )?(ply::(StringView|MutableStringView|String|HybridString|WString|ArrayView<(const )?char>|ConstBufferView|Array<char>)|(const )?char \*|(const )?char \[\d+\]|std::string)")
ESC = "XMLEscape"
STREAM = re.compile(r"ply::(OutStream|MemOutStream|StringWriter)\b")
# where text in a page comes from already as HTML (files the site's own generator wrote)
MARKUP = {"loadText": "cooked pages are HTML already", "loadTextAutodetect": "cooked pages are HTML already"}
PLAIN = {"ply::IPAddress::toString": "digits, dots and colons"}


def short(n):
    return n.get("n", "").split("::")[-1]


def ty(n):
    return uncv(unref(n.get("t", "")))


def lit(e):
    return e["k"] == "StringLiteral"


def writes(f):
    """(node, value) for every value the function writes to a stream or formats into a string, and the literal texts."""
    for n in walk(f["body"]):
        if n["k"] == "CXXOperatorCallExpr" and n.get("oper") == "<<" and len(kids(n)) == 3 and STREAM.search(n.get("t", "") + kids(n)[1].get("t", "")):
            yield n, kids(n)[2], "<<"
        elif n["k"] == "CXXMemberCallExpr" and short(n) in ("format", "write") and callee_object(n) is not None and STREAM.search(callee_object(n).get("t", "")):
            for a in args(n):
                yield n, a, short(n)
        elif n["k"] == "CallExpr" and n.get("n", "").endswith("String::format"):
            for a in args(n):
                yield n, a, "format"


class Pages:
    def __init__(self, A):
        self.by = {}
        for f in A:
            if f.get("body") and f.get("mn") and f["file"].startswith("web/"):
                self.by.setdefault(f["mn"], f)
        self.lits = {}
        self.html = {m for m, f in self.by.items() if self.istag(f)}
        self.calls = {}
        for m, f in self.by.items():
            for n in walk(f["body"]):
                if n.get("mn") in self.by:
                    self.calls.setdefault(n["mn"], []).append((m, n))
        ch = True
        while ch:
            ch = False
            for m, f in self.by.items():
                if m in self.html or not any(STREAM.search(p.get("t", "")) for p in f.get("params", ())):
                    continue
                if any(c in self.html for c, n in self.calls.get(m, ())):
                    self.html.add(m)
                    ch = True
        self.memo = {}

    def istag(self, f):
        for n, v, how in writes(f):
            if any(lit(x) and TAG.search(str(x.get("s", x.get("i", "")))) for x in walk(v)):
                return True
        return False

    def defs(self, f):
        d = {}
        for n in walk(f["body"]):
            if n["k"] == "VarDecl":
                d.setdefault(n["d"], []).append(kids(n)[0] if kids(n) else None)
            elif n["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and n.get("op", n.get("oper")) in ("=", "+="):
                c = kids(n)[-2:]
                y = strip(c[0])
                if y["k"] == "DeclRefExpr" and y.get("d") is not None:
                    d.setdefault(y["d"], []).append(c[1])
            elif n["k"] == "CompoundAssignOperator":
                y = strip(kids(n)[0])
                if y.get("d") is not None:
                    d.setdefault(y["d"], []).append(kids(n)[1])
        return d

    def ranges(self, f):
        r = {}
        for n in walk(f["body"]):
            if n["k"] == "CXXForRangeStmt":
                for c in kids(n):
                    for x in walk(c):
                        if x["k"] == "VarDecl":
                            r.setdefault(x["d"], n)
                            break
                    break
        return r

    def lambdas(self, f):
        """parameter of a local function object -> the values it is called with"""
        out = {}
        D = {}
        for n in walk(f["body"]):
            if n["k"] == "VarDecl" and kids(n):
                for x in walk(kids(n)[0]):
                    if x["k"] == "LambdaExpr":
                        D[n["d"]] = x
                        break
        for n in walk(f["body"]):
            if n["k"] == "CXXOperatorCallExpr" and n.get("oper") == "()" and len(kids(n)) >= 2:
                o = strip(kids(n)[1])
                l = D.get(o.get("d"))
                if l is not None:
                    for p, a in zip(l.get("params", ()), kids(n)[2:]):
                        out.setdefault(p["d"], []).append(a)
        return out

    def safe(self, f, e, seen=()):
        """Is this value certain to be markup or text that needs no escaping?"""
        e = strip(e)
        if e is None:
            return True
        t = ty(e)
        k = e["k"]
        c = kids(e)
        if ESC in t:
            return True
        if lit(e) or k in ("CXXBoolLiteralExpr", "IntegerLiteral", "CharacterLiteral", "FloatingLiteral", "CXXNullPtrLiteralExpr"):
            return True
        if t in ("bool", "float", "double") or re.match(r"^(un)?signed|^(int|long|short)\b", t) or t.startswith("enum "):
            return True
        if k in ("CXXDefaultArgExpr",):
            return True
        if k == "ConditionalOperator":
            return self.safe(f, c[1], seen) and self.safe(f, c[2], seen)
        if k == "DeclRefExpr" and e.get("d") is not None:
            key = (f["mn"], e["d"])
            if key in seen:
                return True
            s2 = seen + (key,)
            if e.get("dk") == "ParmVar":
                vals = self.lambdas(f).get(e["d"])
                if vals:
                    return all(self.safe(f, v, s2) for v in vals)
                idx = [i for i, p in enumerate(f.get("params", ())) if p.get("d") == e["d"]]
                cs = self.calls.get(f["mn"], ())
                if idx and cs and not STREAM.search(t):
                    return all(len(args(n)) > idx[0] and self.safe(self.by[m], args(n)[idx[0]], s2) for m, n in cs)
                return False
            if not e.get("local", True):
                return "const char" in e.get("t", "")      # a fixed text
            ds = self.defs(f).get(e["d"])
            rg = self.ranges(f).get(e["d"])
            if rg is not None:
                return False
            if ds is None:
                return False
            return all(d is None or self.safe(f, d, s2) for d in ds)
        if k == "ArraySubscriptExpr":
            return self.safe(f, c[0], seen)
        if k == "MemberExpr" and c and ty(c[0]).startswith("ply::Tuple<"):
            return self.safe(f, c[0], seen)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXFunctionalCastExpr", "CXXBindTemporaryExpr"):
            return all(self.safe(f, x, seen) for x in c)
        if k == "CallExpr" and e.get("n") in ("std::move", "std::forward"):
            return self.safe(f, args(e)[0], seen)
        if k == "CallExpr" and e.get("n", "").endswith("String::format"):
            return all(self.safe(f, a, seen) for a in args(e))
        if k == "CXXOperatorCallExpr" and e.get("oper") == "+":
            return all(self.safe(f, x, seen) for x in c[1:])
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            nm = e.get("n", "")
            if nm in PLAIN or short(e) in MARKUP:
                return True
            o = callee_object(e) if k == "CXXMemberCallExpr" else None
            if o is not None and STREAM.search(o.get("t", "")):
                return short(e) == "moveToString"     # what was written to it is judged where it is written
            if o is not None and "InStream" in o.get("t", ""):
                # a reader over a text: as safe as that text
                return self.safe(f, o, seen)
            g = self.by.get(e.get("mn"))
            if g is not None:
                key = ("ret", e["mn"])
                if key in seen:
                    return True
                rs = [kids(x)[0] for x in walk(g["body"]) if x["k"] == "ReturnStmt" and kids(x)]
                return bool(rs) and all(self.safe(g, r, seen + (key,)) for r in rs)
            if o is not None and TEXT.match(ty(o)):
                return self.safe(f, o, seen)      # part of a text
            if k == "CXXOperatorCallExpr" and len(c) > 1 and TEXT.match(ty(c[1])):
                return self.safe(f, c[1], seen)
            return False
        return False


def escaper(rep, A):
    """The escaper itself: every character that is markup comes out as an entity and nothing else is dropped."""
    want = {"<": "&lt;", ">": "&gt;", '"': "&quot;", "&": "&amp;"}
    fs = [f for f in A if f.get("body") and f["n"].endswith("::print") and any(ESC in p.get("t", "") for p in f.get("params", ()))]
    n = 0
    for f in fs[:1]:
        cases = {}
        for x in walk(f["body"]):
            if x["k"] == "SwitchStmt":
                cur = None
                for s in walk(x):
                    if s["k"] == "CaseStmt":
                        v = next((y for y in walk(kids(s)[0]) if "const" in y or y["k"] in ("CharacterLiteral", "IntegerLiteral")), {})
                        cur = v.get("const", v.get("i"))
                    elif s["k"] == "DefaultStmt":
                        cur = None
                    elif lit(s) and cur is not None:
                        cases.setdefault(int(cur), []).append(s.get("s", s.get("i")))
        if not cases:
            continue          # written in another way; not judged
        for ch, ent in want.items():
            n += 1
            got = cases.get(ord(ch))
            if got != [ent]:
                rep.violation("%s:%s:escape %s" % (f["file"], f["n"], ch), where(f, f["body"]),
                              "the character %s comes out as %s, not as %s" % (ch, got, ent))
    return n


def run(rep, tier):
    A, n = build.ast(list(build.GROUP_DIRS), drivers=build.instances())
    A = [f for f in A if f.get("body")]
    P = Pages(A)
    nw = nf = 0
    for m in sorted(P.html):
        f = P.by[m]
        nf += 1
        seen = set()
        for node, v, how in writes(f):
            nw += 1
            if not P.safe(f, v):
                s = strip(v)
                name = short(s) or "a value"
                if (node["l"], name) in seen:
                    continue
                seen.add((node["l"], name))
                rep.violation("%s:%s:%s" % (f["file"], f["n"], name), where(f, node), "%s goes into a page without being escaped" % name)
    e = escaper(rep, A)
    rep.cover("translation units", n)
    rep.cover("functions that write pages", nf)
    rep.cover("values written into pages", nw)
    rep.cover("characters the escaper must replace", e)
    rep.require("functions that write pages", nf, 3)
    rep.require("values written into pages", nw, 40)
    return rep.finish("Every value a page-writing function writes or formats is traced to where it comes from: literals, numbers, already cooked markup "
                      "and text wrapped in the escaper are fine, anything else is reported; the escaper's own table is compared with the characters that are markup.")
