"""P12: no view outlives, or is used after a change of, what it views."""
import collections, re
import build, flow, views
from astq import kids, walk, walkp, strip, callee_object, where, TRANSPARENT
from views import unref, uncv, isptr, isref

VIEW = re.compile(r"^(const )?ply::(StringView|MutableStringView|ArrayView<|LambdaView<|HybridString|fmt::|Tuple<|FixedArray<|Array<|TypedArrayView|Functor<)")
GROW = {"append", "extend", "moveExtend", "insert", "insertMany", "resize", "reserve", "reserveIncrement", "clear", "erase", "eraseQuick", "operator=", "operator+=", "truncate",
        "insertOrFind", "moveOut", "compact", "realloc", "reset"}
OWNERS = re.compile(r"^(const )?ply::(String$|Array<|HashMap<|Owned<|HybridString|MemOutStream)")


class Order:
    def __init__(self, f):
        self.pos, self.end, self.scope, self.par = {}, {}, {}, {}
        self.n = 0
        for q in f.get("inits", ()):
            if q.get("e"):
                self.go(q["e"], f["body"])
        self.go(f["body"], f["body"])

    def go(self, n, sc):
        self.n += 1
        self.pos[id(n)] = self.n
        if n["k"] in ("CompoundStmt", "ForStmt", "CXXForRangeStmt", "IfStmt", "WhileStmt", "DoStmt", "SwitchStmt", "LambdaExpr"):
            sc = n
        if n["k"] == "VarDecl":
            self.scope[n["d"]] = sc
        for c in kids(n):
            self.par[id(c)] = n
            self.go(c, sc)
        self.end[id(n)] = self.n

    def fullend(self, n):
        x = n
        while id(x) in self.par and "t" in self.par[id(x)] and self.par[id(x)]["k"] != "LambdaExpr":
            x = self.par[id(x)]
        return self.end.get(id(x), 0)

    def scope_end(self, d):
        if isinstance(d, tuple):
            d = d[1]
        s = self.scope.get(d)
        return self.end[id(s)] if s else 10 ** 9

    def chain(self, n):
        r = [n]
        while id(n) in self.par:
            n = self.par[id(n)]
            r.append(n)
        return r


LEAVES = {"ReturnStmt", "BreakStmt", "ContinueStmt", "GotoStmt"}


def leaves(s):
    """Does control never run off the end of this statement?"""
    if s["k"] in LEAVES:
        return True
    c = kids(s)
    if s["k"] == "CompoundStmt":
        return any(leaves(x) for x in c)
    if s["k"] == "IfStmt" and len(c) >= 3:
        return leaves(c[-1]) and leaves(c[-2])
    if s["k"] in ("CaseStmt", "DefaultStmt"):
        return bool(c) and leaves(c[-1])
    return False


def reaches(o, m, u):
    """Can control go from node m on to node u (which comes later in the text)?"""
    cm, cu = o.chain(m), o.chain(u)
    su = {id(x): i for i, x in enumerate(cu)}
    for i, a in enumerate(cm):
        if id(a) in su:
            break
    else:
        return False
    # everything between m and the common ancestor must be able to finish
    for x in cm[:i]:
        if x["k"] in LEAVES:
            return False
        p = o.par.get(id(x))
        if p is not None and p["k"] == "CompoundStmt":
            sib = kids(p)
            k = next(j for j, y in enumerate(sib) if y is x)
            stop = next((j for j, y in enumerate(sib) if j > k and (id(y) in su)), len(sib))
            for y in sib[k:stop]:
                if leaves(y):
                    return False
    if a["k"] == "IfStmt" and cm[i - 1] is not cu[su[id(a)] - 1]:
        c = kids(a)
        br = [x for x in c[-2:]] if len(c) >= 3 else c[-1:]
        bm, bu = cm[i - 1], cu[su[id(a)] - 1]
        if len(c) >= 3 and any(x is bm for x in br) and any(x is bu for x in br) and "t" not in br[0]:
            return False
    if a["k"] == "ConditionalOperator":
        c = kids(a)
        if cm[i - 1] is c[1] and cu[su[id(a)] - 1] is c[2]:
            return False
    return True


LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")


def runs_again(o, x, L):
    """Can the loop go round again after node x in it?"""
    anc = o.chain(x)
    for q in anc[:next(i for i, y in enumerate(anc) if y is L)]:
        if q["k"] == "CompoundStmt":
            for z in kids(q):
                if o.end[id(z)] >= o.pos[id(x)] and (leaves(z) and not ends_continue(z)):
                    return False
        if q["k"] in ("ReturnStmt", "LambdaExpr"):
            return False
    return True


def ends_continue(z):
    return z["k"] == "ContinueStmt" or (z["k"] == "CompoundStmt" and kids(z) and ends_continue(kids(z)[-1]))


def path(e, env, depth=0):
    """A name for the object an expression designates, or None."""
    e = strip(e)
    c = kids(e)
    if e["k"] == "CXXThisExpr":
        return "this"
    if e["k"] == "DeclRefExpr" and e.get("d") is not None:
        r = env.get(e["d"])
        return r if r else "v%d" % e["d"]
    if e["k"] == "MemberExpr" and c:
        b = path(c[0], env, depth + 1)
        return b and b + "." + e["n"].split("::")[-1]
    if e["k"] == "UnaryOperator" and e["op"] in "*&" and c:
        return path(c[0], env, depth + 1)
    if e["k"] == "CXXOperatorCallExpr" and e.get("oper") in ("->", "*") and len(c) > 1:
        return path(c[1], env, depth + 1)
    if e["k"] == "CXXMemberCallExpr" and e["n"].split("::")[-1].startswith("operator "):
        o = callee_object(e)
        return o and path(o, env, depth + 1)
    return None


def holder(v, e, env):
    """The container a view, reference or pointer was obtained from: (path, node, view of an element's own buffer)"""
    addr, deep = isref(v["t"]), False
    for _ in range(12):
        e = strip(e)
        if e is None:
            return None
        c = kids(e)
        if e["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr"):
            o = callee_object(e)
            if o is None or (e["k"] == "CXXOperatorCallExpr" and not (e.get("mc") is not None)):
                return None
            t = uncv(unref(o.get("t", "")))
            if OWNERS.match(t) and not t.startswith(("ply::Owned<", "ply::HybridString")):
                if t == "ply::String":
                    p = path(o, env)
                    if p:
                        return (p, o, deep)
                    deep = True
                    e = o
                    continue
                if e.get("v") and not addr:
                    et = uncv(unref(e.get("t", "")))
                    if isptr(et) or VIEW.match(et):
                        return None  # a copy of a view or pointer kept in the container
                    deep = True
                p = path(o, env)
                return (p, o, deep) if p else None
            if not e.get("v"):
                addr = False
            e = o
        elif e["k"] == "UnaryOperator" and e["op"] in "&*" and c:
            addr = e["op"] == "&"
            e = c[0]
        elif e["k"] == "MemberExpr" and c:
            if e.get("arrow") or isptr(e["t"]):
                t = uncv(unref(c[0].get("t", "")))
                if not e.get("arrow") and t == "ply::String":
                    p = path(c[0], env)
                    return (p, c[0], False) if p else None
                return None
            e = c[0]
        elif e["k"] in ("CXXConstructExpr",) and len(c) == 1:
            if uncv(unref(c[0].get("t", ""))) == "ply::String" and uncv(unref(e.get("t", ""))) in ("ply::StringView",):
                p = path(c[0], env)
                return (p, c[0], False) if p else None
            e = c[0]
        else:
            return None
    return None


def lifetimes(V, f):
    a = views.Fn(V, f)
    a.run()
    n_obl = 0
    out = []
    ev = a.events
    if not ev:
        return 0, out
    o = Order(f)
    uses = collections.defaultdict(list)
    moved = set()
    for x in walk(f["body"]):
        if x["k"] == "DeclRefExpr" and x.get("d") is not None:
            uses[x["d"]].append(o.pos[id(x)])
        if x["k"] == "CallExpr" and x.get("n") == "std::move":
            for y in walk(x):
                if y["k"] == "DeclRefExpr" and y.get("d") is not None:
                    moved.add(y["d"])

    def name(d):
        v = a.vars.get(d)
        if v:
            return v["n"]
        return next((p["n"] for p in f["params"] if p["d"] == d), "?")
    for kind, n, O, d in ev:
        if id(n) not in o.pos:
            continue
        n_obl += 1
        tmps = [x for x in O if x[0] == "tmp"]
        vs = [x for x in O if x[0] == "var"]
        if kind in ("var", "bind"):
            if tmps and any(u > o.fullend(n) for u in uses[d]):
                out.append((n, "%s keeps a view of a temporary that is gone at the end of the statement, and is used afterwards" % name(d)))
            for x in vs:
                if x[1] == d or x[1] in moved:
                    continue
                if o.scope_end(x[1]) < o.scope_end(d) and any(u > o.scope_end(x[1]) for u in uses[d]):
                    out.append((n, "%s keeps a view of %s after the scope of %s has ended" % (name(d), name(x[1]), name(x[1]))))
        elif kind == "ret":
            if tmps:
                out.append((n, "returns a view of a temporary"))
            for x in vs:
                out.append((n, "returns a view of the local variable %s" % name(x[1])))
        elif kind == "obj":
            dst, l = d
            vs = [x for x in vs if x[1] not in moved]
            if not (tmps or vs):
                continue
            if l is not None:
                lt = uncv(unref(l.get("t", "")))
                if not VIEW.match(lt):
                    continue
            elif n["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and callee_object(n) is not None:
                ct = uncv(unref(callee_object(n).get("t", "")))
                if not VIEW.match(ct) or (ct.startswith(("ply::Array<", "ply::FixedArray<")) and "*" in ct):
                    continue
            elif "member" in str(n.get("k")):
                continue
            elif n["k"] in ("CallExpr",) or n["k"] == "CXXConstructExpr":
                continue
            out.append((n, "an object that lives on is given a view of %s" % ("a temporary" if tmps else "the local variable " + name(vs[0][1]))))
    return n_obl, out


def envof(body):
    env = {}
    for x in walk(body):
        if x["k"] == "VarDecl" and kids(x) and isref(x["t"]):
            p = path(kids(x)[0], env)
            if p:
                env[x["d"]] = p
    return env


def direct(x, env):
    """(container path, method) when the call may move or release what the container holds"""
    if x["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr"):
        ob = callee_object(x)
        if ob is not None:
            m = x.get("n", "").split("::")[-1]
            t = uncv(unref(ob.get("t", "")))
            if m in GROW and OWNERS.match(t) and (m != "operator=" or x["k"] == "CXXOperatorCallExpr"):
                p = path(ob, env)
                if p:
                    return p, m
    return None


def applied(V, M, x, env):
    """Containers of the caller that the callee of call x may change."""
    mm = M.get(x.get("mn"))
    if not mm:
        return
    c = kids(x)
    obj = None
    if x["k"] == "CXXMemberCallExpr":
        obj = callee_object(x)
        a = c[1:]
    elif x["k"] == "CXXOperatorCallExpr" and x.get("mc") is not None and not (x["mc"] & 2):
        obj = c[1]
        a = c[2:]
    else:
        a = c[1:]
    for root, suf in mm:
        e = obj if root == -1 else (a[root] if root < len(a) else None)
        if e is None:
            continue
        p = path(e, env)
        if p:
            yield p + suf


def mutations(V):
    """Which containers, named from its parameters, does each function change (itself or through what it calls)?"""
    M, calls, envs = {}, {}, {}
    for mn, f in V.byname.items():
        if f["file"].startswith("runtime/ply-runtime/container/") or f["file"].startswith("runtime/ply-runtime/string/"):
            continue  # the containers themselves
        env = envof(f["body"])
        pi = {"v%d" % p["d"]: i for i, p in enumerate(f["params"]) if isref(p["t"]) or isptr(p["t"])}
        envs[mn] = (env, pi)
        s = set()
        for x, anc in walkp(f["body"]):
            if any(q["k"] == "LambdaExpr" for q in anc):
                continue
            r = direct(x, env)
            if r:
                k = rooted(r[0], pi)
                if k:
                    s.add(k)
            elif x.get("mn") and "c" in x and x["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                calls.setdefault(mn, []).append(x)
        M[mn] = s
    for _ in range(6):
        ch = False
        for mn, cs in calls.items():
            env, pi = envs[mn]
            for x in cs:
                if V.byname.get(x["mn"]) is None:
                    continue
                for p in applied(V, M, x, env):
                    k = rooted(p, pi)
                    if k and k not in M[mn]:
                        M[mn].add(k)
                        ch = True
        if not ch:
            break
    return M


def rooted(p, pi):
    h, _, t = p.partition(".")
    if t.count(".") > 2:
        return None
    suf = "." + t if t else ""
    if h == "this":
        return (-1, suf)
    if h in pi:
        return (pi[h], suf)
    return None


def hand_overs(V, f):
    """A local variable or parameter read after its contents were moved out, without having been given a new value."""
    out, n_obl = [], 0
    body = f["body"]
    local = {p["d"]: (p["n"], p["t"], None) for p in f["params"]}
    refs = collections.defaultdict(list)
    moves = []
    for x, anc in walkp(body):
        if x["k"] == "VarDecl":
            local[x["d"]] = (x["n"], x["t"], x)
        elif x["k"] == "DeclRefExpr" and x.get("d") is not None:
            refs[x["d"]].append((x, anc))
        elif x["k"] == "CallExpr" and x.get("n") == "std::move":
            y = strip(kids(x)[1])
            if y["k"] == "DeclRefExpr" and y.get("d") is not None and anc:
                p = None
                for q in reversed(anc):
                    if q["k"] in views.CTORS or q["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "InitListExpr", "CXXNewExpr"):
                        p = q
                        break
                    if q["k"] not in TRANSPARENT:
                        break
                if p is not None:
                    moves.append((x, y, anc))
    if not moves:
        return 0, out
    o = Order(f)
    for x, y, anc in moves:
        d = y["d"]
        if d not in local:
            continue
        nm, t, decl = local[d]
        r = V.T.rec.get(uncv(unref(t)))
        if r is None or r["trivialdtor"] or t.strip().endswith("*"):
            continue
        n_obl += 1

        def gives(u, uanc):
            """The reference is where the variable gets a new value."""
            if not uanc:
                return False
            p = uanc[-1]
            for q in reversed(uanc):
                if q["k"] in ("ImplicitCastExpr", "ParenExpr", "MemberExpr"):
                    continue
                p = q
                break
            if p["k"] in ("CXXOperatorCallExpr",) and p.get("oper") == "=" and len(kids(p)) > 1:
                return any(z is u for z in walk(kids(p)[1]))
            if p["k"] == "BinaryOperator" and p["op"] == "=":
                return any(z is u for z in walk(kids(p)[0]))
            if p["k"] == "CXXMemberCallExpr" and any(z is u for z in walk(kids(p)[0])):
                return p["n"].split("::")[-1] in ("clear", "resize", "reset", "assign", "switchTo")
            return False
        lam = [q for q in anc if q["k"] == "LambdaExpr"]
        loops = [q for q in anc if q["k"] in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") and (decl is None or o.pos[id(q)] > o.pos[id(decl)])]
        full = o.fullend(x)
        given = [(u, ua) for u, ua in refs[d] if gives(u, ua)]
        for u, ua in refs[d]:
            if u is y or (u, ua) in given or [q for q in ua if q["k"] == "LambdaExpr"] != lam:
                continue
            if o.pos[id(u)] <= full:
                continue
            if any(o.pos[id(x)] < o.pos[id(g)] < o.pos[id(u)] and reaches(o, g, u) for g, _ in given):
                continue
            if reaches(o, x, u):
                out.append((u, "%s is read after its contents were handed over (line %d)" % (nm, x["l"])))
                break
        for L in loops:
            if any(L in ga for _, ga in given) or any(q["k"] == "LambdaExpr" for q in anc[anc.index(L):]):
                continue
            if runs_again(o, x, L):
                out.append((x, "%s is handed over again in the next turn of the loop" % nm))
    return n_obl, out


RELEASES = ("clear", "erase", "eraseQuick", "operator=", "resize", "truncate", "reset")


def isview(t):
    return isref(t) or isptr(t) or uncv(t) in ("ply::StringView", "ply::MutableStringView") or uncv(t).startswith("ply::ArrayView<")


class Held(flow.Flow):
    """state: variable -> (containers it points into: frozenset of (path, deep), why it may dangle or None)"""

    def __init__(self, V, f, env):
        super().__init__(f)
        self.V, self.env = V, env
        self.out, self.n = {}, set()
        self.types = {}
        for x in walk(f["body"]):
            if x["k"] == "VarDecl":
                self.types[x["d"]] = x
        for p in f["params"]:
            self.types[p["d"]] = p

    def join(self, a, b):
        r = dict(a)
        for d, (h, w) in b.items():
            if d in r:
                r[d] = (r[d][0] | h, r[d][1] or w)
            else:
                r[d] = (h, w)
        return r

    def inherit(self, e, t):
        """What a variable that the expression takes an address through points into."""
        addr = isref(t)
        for _ in range(8):
            e = strip(e)
            c = kids(e)
            if e["k"] == "DeclRefExpr":
                d = e.get("d")
                v = self.types.get(d)
                if v is None or d not in self.st:
                    return None
                if addr and not isref(v["t"]):
                    return None         # the address of the pointer itself
                return self.st[d]
            if e["k"] == "UnaryOperator" and e["op"] in "&*" and c:
                addr = e["op"] == "&"
                e = c[0]
            elif e["k"] == "MemberExpr" and c:
                if not addr:
                    return None
                addr = not e.get("arrow")
                e = c[0]
            elif e["k"] == "ConditionalOperator":
                a, b = self.inherit(c[1], t), self.inherit(c[2], t)
                return a or b
            else:
                return None
        return None

    def bind(self, v, e, n):
        d, t = v["d"], v["t"]
        self.st.pop(d, None)
        if not isview(t) or v["n"].startswith("__"):
            return
        h = holder(v, e, self.env)
        if h is None:
            i = self.inherit(e, t)
            if i is not None:
                self.st[d] = i
                self.n.add(id(n))
            return
        self.n.add(id(n))
        self.st[d] = (frozenset([(h[0], h[2])]), None)

    def report(self, n, msg):
        if not self.quiet:
            self.out.setdefault((n["l"], msg), n)

    def skip_operand(self, n, x):
        # the left side of an assignment that makes the variable anew is not a use of it
        c = kids(n)
        if n["k"] == "BinaryOperator" and n["op"] == "=" and x is c[0] or n["k"] == "CXXOperatorCallExpr" and n.get("oper") == "=" and len(c) > 2 and x is c[1]:
            y = strip(x)
            if y["k"] == "DeclRefExpr" and y.get("d") in self.types and not isref(self.types[y["d"]]["t"]):
                return True
        return False

    def visit(self, n):
        k = n["k"]
        if k == "VarDecl":
            if kids(n):
                self.bind(n, kids(n)[0], n)
            return
        if k == "DeclRefExpr":
            s = self.st.get(n.get("d"))
            if s is not None and s[1]:
                self.report(n, "%s points into a container that %s" % (self.types[n["d"]]["n"], s[1]))
            return
        if k == "BinaryOperator" and n["op"] == "=" or k == "CXXOperatorCallExpr" and n.get("oper") == "=" and len(kids(n)) > 2:
            c = kids(n)
            l, r = (c[0], c[1]) if k == "BinaryOperator" else (c[1], c[2])
            y = strip(l)
            if y["k"] == "DeclRefExpr" and y.get("d") in self.types:
                v = self.types[y["d"]]
                if not isref(v["t"]) and isview(v["t"]):
                    self.bind(v, r, n)
                if isptr(v["t"]):
                    # what was named through the pointer is something else now
                    pre = "v%d." % y["d"]
                    for d, (h, w) in list(self.st.items()):
                        if d != y["d"] and any(q.startswith(pre) for q, _ in h):
                            self.st[d] = (frozenset(z for z in h if not z[0].startswith(pre)), w)
                    return
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            r = direct(n, self.env)
            if r:
                self.mutate(r[0], r[1], n, True)
            else:
                for p in applied(self.V, self.V.changed, n, self.env):
                    self.mutate(p, n.get("n", "").split("::")[-1], n, False)

    def mutate(self, p, m, n, is_direct):
        for d, (h, w) in list(self.st.items()):
            if w:
                continue
            for q, deep in h:
                if q == p and not (deep and is_direct and m not in RELEASES):
                    self.st[d] = (h, "%s() (line %d) may have moved or released" % (m, n["l"]))
                    break

    def enter_range(self, s):
        rng = kids(s["c"][0])[0] if s["c"][0] is not None and kids(s["c"][0]) else None
        if rng is None or not kids(rng):
            return
        e = strip(kids(rng)[0])
        t = uncv(unref(e.get("t", "")))
        if not t.startswith(("ply::Array<",)):
            return
        p = path(e, self.env)
        if p:
            self.st[("range", id(s))] = (frozenset([(p, False)]), None)
            self.types[("range", id(s))] = {"n": "the loop", "t": "", "d": 0}
            self.n.add(id(s))

    def backedge(self, s):
        x = self.st.get(("range", id(s)))
        if x and x[1]:
            self.report(s, "the loop goes on over a container that %s" % x[1])


def changes(V, f):
    """Views, references and pointers into a container used after the container may have moved its contents."""
    body = f["body"]
    env = envof(body)
    h = Held(V, f, env)
    h.run({})
    return len(h.n), [(n, msg) for (l, msg), n in h.out.items()]


def run(rep, tier):
    groups = list(build.GROUP_DIRS)
    A, n = build.ast(groups, drivers=build.instances())
    V = views.Analysis(A)
    V.changed = mutations(V)
    rounds = V.solve(12 if tier == "thorough" else 8)
    nf = obl = chg = mv = 0
    for mn in sorted(V.byname):
        f = V.byname[mn]
        nf += 1
        seen = set()
        for fn, tag in ((lifetimes, "a"), (changes, "b"), (hand_overs, "c")):
            k, res = fn(V, f)
            if tag == "a":
                obl += k
            elif tag == "b":
                chg += k
            else:
                mv += k
            for node, msg in res:
                key = (node["l"], msg)
                if key in seen:
                    continue
                seen.add(key)
                rep.violation("%s:%s:%s" % (f["file"], f["n"], msg), where(f, node), msg)
    rep.cover("translation units", n)
    rep.cover("functions", nf)
    rep.cover("views bound, stored or returned", obl)
    rep.cover("views into growable containers", chg)
    rep.cover("values handed over", mv)
    rep.cover("summary rounds", rounds)
    rep.require("functions", nf, 2000)
    rep.require("views bound, stored or returned", obl, 500)
    borrowing = sum(1 for s in V.sums.values() if s.ret or s.stores)
    rep.cover("functions that lend or keep part of their arguments", borrowing)
    rep.require("functions that lend or keep part of their arguments", borrowing, 200)
    return rep.finish("Origins of every view, reference and pointer (which variable, temporary, parameter or member they point into) computed by an interprocedural "
               "summary analysis over the typed syntax trees; a view may not be used, returned or stored once its origin's lifetime has ended or its container may have moved its contents.")
