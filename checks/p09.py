"""P09: every text template has one value per placeholder."""
import build, re
from astq import walk, walkp, strip, args, kids, asserted, where

BASE = {"ply::OutStream::formatInternal"}


def literals(n, fn, env, depth=0):
    """The texts an expression can denote, or None."""
    n = strip(n)
    if n is None or depth > 8:
        return None
    k = n["k"]
    if k == "StringLiteral":
        return [n.get("s", "")]
    if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") and len(kids(n)) == 1:
        return literals(kids(n)[0], fn, env, depth + 1)
    if k == "ConditionalOperator":
        c = kids(n)
        a, b = literals(c[1], fn, env, depth + 1), literals(c[2], fn, env, depth + 1)
        return None if a is None or b is None else a + b
    if k == "DeclRefExpr" and n.get("d") in env:
        v = env[n["d"]]
        return literals(v, fn, env, depth + 1) if v is not None else None
    if k == "DeclRefExpr" and n.get("n") in env:
        return literals(env[n["n"]], fn, env, depth + 1)
    if k == "CXXOperatorCallExpr" or k == "ArraySubscriptExpr":
        base = kids(n)[1 if k == "CXXOperatorCallExpr" else 0]
        base = strip(base)
        if base["k"] == "DeclRefExpr":
            v = env.get(base.get("d"), env.get(base.get("n")))
            if v is not None:
                out = []
                for x in kids(strip(v)):
                    r = literals(x, fn, env, depth + 1)
                    if r is None:
                        return None
                    out += r
                return out
    return None


def count(s):
    """placeholders of a template, or a complaint"""
    i = n = 0
    while i < len(s):
        if s[i] in "{}":
            t = s[i:i + 2]
            if t == "{}":
                n += 1
            elif t not in ("{{", "}}"):
                return "has an unmatched '%s'" % s[i]
            i += 2
        else:
            i += 1
    return n


def run(rep, tier):
    T, nt = build.ast(list(build.GROUP_DIRS), drivers=build.instances(1))
    fns = [o for o in T if o["k"] == "Function" and o.get("body")]
    globs = {o["n"]: o.get("init") for o in T if o["k"] == "Global" and "const" in o["t"] and o.get("init")}
    # functions that hand one of their own parameters on as a template: (function) -> index of that parameter
    fwd = {f["mn"]: 0 for f in fns if f["n"] == "ply::OutStream::format"}
    rep.require("format functions", len(fwd), 10)
    for f in fns:
        if f["mn"] in fwd:
            nargs = len(f["params"]) - 1
            for n in walk(f["body"]):
                m = n["k"] == "VarDecl" and re.search(r"FixedArray<.*, (\d+)>$", n["t"])
                if m and int(m.group(1)) != nargs:
                    rep.violation("format:args", where(f, n), "collects %s values out of %d" % (m.group(1), nargs))
    ncall = nph = 0
    more = True
    done = set()
    while more:
        more = False
        for f in fns:
            env = dict(globs)
            pidx = {p["d"]: i for i, p in enumerate(f["params"])}
            assigned = set()
            nodes = list(walk(f["body"]))
            for n in nodes:
                if n["k"] == "VarDecl" and n.get("c"):
                    env[n["d"]] = n["c"][0]
                if n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    l = strip(kids(n)[0])
                    if l["k"] == "DeclRefExpr":
                        assigned.add(l.get("d"))
                if n["k"] == "CXXOperatorCallExpr" and n.get("oper", "").endswith("=") and n["oper"] not in ("==", "!=", "<=", ">="):
                    l = strip(kids(n)[1])
                    if l["k"] == "DeclRefExpr":
                        assigned.add(l.get("d"))
            for d in assigned:
                env[d] = None
            for n in nodes:
                if "mn" not in n or n["mn"] not in fwd or n["k"].startswith("CXXConstruct"):
                    continue
                key = (f["mn"], f["file"], id(n))
                if key in done:
                    continue
                done.add(key)
                a = args(n)
                k = fwd[n["mn"]]
                if len(a) <= k:
                    continue
                given = len(a) - k - 1
                e = strip(a[k])
                while e["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(kids(e)) == 1:
                    e = strip(kids(e)[0])
                if e["k"] == "DeclRefExpr" and e.get("d") in pidx and e["d"] not in assigned:
                    i = pidx[e["d"]]
                    if len(f["params"]) - i - 1 != given:
                        rep.violation("forward:%s" % f["n"], where(f, n), "passes its template on with %d of %d values" % (given, len(f["params"]) - i - 1))
                    if f["mn"] not in fwd:
                        fwd[f["mn"]] = i
                        more = True
                    continue
                ls = literals(a[k], f, env)
                ncall += 1
                if ls is None:
                    rep.violation("template:%s" % f["n"], where(f, n), "the template is not a fixed text: its braces would be interpreted")
                    continue
                for s in ls:
                    c = count(s)
                    if isinstance(c, str):
                        rep.violation("template:%s:%s" % (f["n"], s[:24]), where(f, n), "the template %r %s" % (s, c))
                    elif c != given:
                        rep.violation("template:%s:%s" % (f["n"], s[:24]), where(f, n), "the template %r has %d placeholders for %d values" % (s, c, given))
                    else:
                        nph += c
    rep.require("templates", ncall, 150)
    rep.cover("placeholders", nph)
    rep.cover("translation_units", nt)
    return rep.finish("every call of a formatting function (and of functions that forward their own template parameter), over the typed syntax trees: "
                      "the template resolves to fixed texts, whose well-formed placeholders are counted against the values passed")
