"""Linear normal forms of abstract values, and a small linear entailment over the facts of a state."""
from absint import split, is_obj, UNDEF, INF


def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        n = r.get(x, 0) + c * k
        if n:
            r[x] = n
        else:
            r.pop(x, None)
    return r


def lin(v, d=0):
    """value -> {atom: coefficient}; the constant is under None."""
    if type(v) is int:
        return {None: v} if v else {}
    if type(v) is not tuple or d > 24:
        return {v: 1}
    if v[0] == "P":
        r = lin(v[1], d + 1)
        return add(r, {None: v[2]})
    if v[0] == "e":
        op = v[1]
        if op == "add":
            return add(lin(v[2], d + 1), lin(v[3], d + 1))
        if op == "sub":
            return add(lin(v[2], d + 1), lin(v[3], d + 1), -1)
        if op == "ptrx":
            return add(lin(v[2], d + 1), lin(v[3], d + 1), v[4])
        if op == "mul" and type(v[3]) is int:
            return add({}, lin(v[2], d + 1), v[3])
        if op == "shl" and type(v[3]) is int and v[3] < 40:
            return add({}, lin(v[2], d + 1), 1 << v[3])
    return {v: 1}


class Facts:
    """Zero forms (solved for one atom each) and non-negative forms, indexed by the atoms they can cancel."""

    def __init__(self, eq, ge):
        self.bad = False        # contradictory equalities
        self.sub = []           # (atom, replacement form)
        for e in eq:
            self.equal(e)
        self.best = {}
        for f in ge:
            self.atleast(f)
        self.idx = {}
        for k, c in self.best.items():
            f = dict(k)
            if c:
                f[None] = c
            for x, v in k:
                self.idx.setdefault((x, v > 0), []).append(f)
        self.memo = {}

    def norm(self, d):
        for x, r in self.sub:
            c = d.get(x)
            if c:
                d = dict(d)
                del d[x]
                d = add(d, r, c)
        return d

    def equal(self, e):
        e = self.norm(e)
        if not e:
            return
        if const(e) is not None:
            self.bad = True
            return
        for x, c in sorted(e.items(), key=lambda i: (abs(i[1]), repr(i[0]))):
            if x is not None and abs(c) == 1:
                r = dict(e)
                del r[x]
                r = add({}, r, -c)
                self.sub = [(y, add({k: v for k, v in q.items() if k != x}, r, q[x]) if x in q else q) for y, q in self.sub]
                self.sub.append((x, r))
                return
        self.rest = getattr(self, "rest", []) + [e]

    def atleast(self, f):
        f = self.norm(f)
        c = f.get(None, 0)
        k = frozenset((x, v) for x, v in f.items() if x is not None)
        if not k:
            if c < 0:
                self.bad = True
            return
        if k not in self.best or self.best[k] > c:
            self.best[k] = c

    def zero(self, d):
        d = self.norm(d)
        if not d:
            return True
        if const(d) is not None:
            return False
        return self.nonneg(d) and self.nonneg(add({}, d, -1))

    def nonneg(self, d, depth=6):
        d = self.norm(d)
        return self.go(d, depth)

    def go(self, d, n):
        c = const(d)
        if c is not None:
            return c >= 0
        key = frozenset(d.items())
        m = self.memo.get(key)
        if m is not None and (m is True or m >= n):
            return m is True
        best = None
        for x, v in d.items():
            if x is None:
                continue
            cand = self.idx.get((x, v > 0), ())
            if best is None or len(cand) < len(best[1]):
                best = (x, cand)
                if not cand:
                    break
        x, cand = best
        if not cand or (n <= 0):
            self.memo[key] = n
            return False
        self.memo[key] = 99     # cycles fail
        k = 0 if len(cand) == 1 else 1
        for f in cand:
            q, r = divmod(abs(d[x]), abs(f[x]))
            if r:
                # scale d instead
                e = add(add({}, d, abs(f[x])), f, -abs(d[x]))
            else:
                e = add(d, f, -q)
            if len(e) <= 9 and self.go(e, n - k):
                self.memo[key] = True
                return True
        self.memo[key] = n
        return False


def facts(st):
    eq, ge = [], []
    for k, c in st.cons.items():
        if k[0] == "R":
            if c == frozenset("<=>") or c == frozenset("<>"):
                continue
            a, b = lin(k[1]), lin(k[2])
            d = add(b, a, -1)           # b - a
            if c == frozenset("="):
                eq.append(d)
            elif c <= frozenset("<="):
                ge.append(d if "=" in c else add(d, {None: -1}))
            elif c <= frozenset(">="):
                d = add(a, b, -1)
                ge.append(d if "=" in c else add(d, {None: -1}))
        elif k[0] in ("S", "U"):
            lo, hi = c
            f = lin(k[1])
            if lo == hi:
                eq.append(add(f, {None: -lo}))
            else:
                if lo > -INF // 2:
                    if lo or k[0] == "S":
                        ge.append(add(f, {None: -lo}))
                if hi < INF // 2:
                    ge.append(add(add({}, f, -1), {None: hi}))
    return Facts(eq, ge)


def const(d):
    """constant value of a form or None"""
    if not d:
        return 0
    if len(d) == 1 and None in d:
        return d[None]
    return None


def is_zero(st, d, fx=None):
    if not d:
        return True
    if const(d) is not None:
        return False
    return (fx or facts(st)).zero(d)


def nonneg(st, d, fx=None, depth=6):
    """d >= 0 follows from the facts (a combination of a few of them)."""
    c = const(d)
    if c is not None:
        return c >= 0
    return (fx or facts(st)).nonneg(d, depth)


def same(st, a, b, fx=None):
    if a == b:
        return True
    if a == UNDEF or b == UNDEF:
        return False
    return is_zero(st, add(lin(a), lin(b), -1), fx)


def le(st, a, b, fx=None):
    """a <= b is entailed."""
    if a == UNDEF or b == UNDEF:
        return False
    return nonneg(st, add(lin(b), lin(a), -1), fx)


def infeasible(st):
    """The facts of the state contradict each other."""
    fx = facts(st)
    if fx.bad:
        return True
    for k, c in list(fx.best.items()):
        f = dict(k)
        f[None] = c
        if fx.nonneg(add(add({}, f, -1), {None: -1})):
            return True
    return False


def refutes(st, p, a, b):
    """a p b (p one of eq lt le gt ge) contradicts the facts."""
    d = add(lin(b), lin(a), -1)
    m = {None: -1}
    fx = None
    if p == "ne":
        return not d
    fx = facts(st)
    neg = lambda: add({}, d, -1)
    if p == "eq":
        return nonneg(st, add(d, m), fx, 5) or nonneg(st, add(neg(), m), fx, 5)
    if p == "lt":
        return nonneg(st, neg(), fx, 5)
    if p == "le":
        return nonneg(st, add(neg(), m), fx, 5)
    if p == "gt":
        return nonneg(st, d, fx, 5)
    return nonneg(st, add(d, m), fx, 5)
