"""Canonical value numbers: rational-coefficient polynomials over interned atoms.

A polynomial is a dict {monomial: Fraction}; a monomial is a sorted tuple of (atom id, exponent).
Atoms are interned descriptors, so two values with the same normal form get the same number.
Indicator atoms ("gt", q) and ("eq", q) stand for the truth (0 or 1) of q > 0 and q == 0; every
non-arithmetic function is distributed over the indicators its argument contains, so a value computed
through branches, through selects or through min/max has one normal form.
"""
from fractions import Fraction
from functools import lru_cache
import math

F0, F1 = Fraction(0), Fraction(1)
_atoms = {}
_desc = []
IND = set()      # ids of indicator atoms
SQRT = {}        # id -> poly under the root
_eqof = {}       # id of eq atom -> poly q
_gtof = {}
LIMIT = 4000

class TooBig(Exception):
    pass

def atom(desc):
    i = _atoms.get(desc)
    if i is None:
        i = len(_desc)
        _atoms[desc] = i
        _desc.append(desc)
    return i

def desc(i):
    return _desc[i]

def const(c):
    c = Fraction(c)
    return {(): c} if c else {}

def var(d):
    return {((atom(d), 1),): F1}

def snap(x):
    """The short decimal or fraction a float constant was written as."""
    f = Fraction(x)
    if f == 0:
        return f
    for lim in (1000, 100000):
        g = f.limit_denominator(lim)
        if g and abs(g - f) < abs(f) * Fraction(1, 10**7):
            return g
    return Fraction("%.7g" % float(f))

def is_const(p):
    return not p or (len(p) == 1 and () in p)

def cval(p):
    return p.get((), F0)

def key(p):
    return tuple(sorted(p.items()))

def add(a, b, k=F1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, F0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r

def sub(a, b):
    return add(a, b, -F1)

def neg(a):
    return {m: -c for m, c in a.items()}

def scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}

def _mulmono(x, y):
    """Product of two monomials -> (monomial, extra polynomial factor or None) or None when zero."""
    d = dict(x)
    for a, e in y:
        d[a] = d.get(a, 0) + e
    extra = None
    out = []
    inds = None
    for a, e in d.items():
        if e == 0:
            continue
        if a in IND:
            e = 1
            inds = inds or []
            inds.append(a)
        elif a in SQRT and e not in (0, 1):
            h, r = divmod(e, 2)
            f = power(SQRT[a], h)
            extra = f if extra is None else mul(extra, f)
            e = r
            if not e:
                continue
        out.append((a, e))
    if inds and len(inds) > 1:
        pos = {}
        for a in inds:
            k, q = _desc[a][0], _desc[a][1:]
            if q in pos and pos[q] != k:
                return None
            pos[q] = k
    out.sort()
    return tuple(out), extra

def mul(a, b):
    if not a or not b:
        return {}
    if is_const(a):
        return scale(b, cval(a))
    if is_const(b):
        return scale(a, cval(b))
    r = {}
    if len(a) * len(b) > LIMIT * 4:
        raise TooBig()
    for x, c in a.items():
        for y, d in b.items():
            mm = _mulmono(x, y)
            if mm is None:
                continue
            m, extra = mm
            if extra is None:
                v = r.get(m, F0) + c * d
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
            else:
                r = add(r, mul({m: F1}, extra), c * d)
    if len(r) > LIMIT:
        raise TooBig()
    return reduce_eq(r)

def reduce_eq(r):
    """q * [q == 0] is zero: reduce the coefficient of every eq indicator modulo q."""
    for _ in range(64):
        hit = None
        for m in r:
            for a, e in m:
                if a in _eqof:
                    q, lead = _eqof[a]
                    if lead is None:
                        continue
                    dm = dict(m)
                    if all(x in dm and ((n > 0 and dm[x] >= n) or (n < 0 and dm[x] <= n)) for x, n in lead):
                        hit = (m, q, lead)
                        break
            if hit:
                break
        if not hit:
            return r
        m, q, lead = hit
        c = r[m]
        dm = dict(m)
        for x, n in lead:
            dm[x] -= n
        rest = tuple(sorted((x, n) for x, n in dm.items() if n))
        r = dict(r)
        del r[m]
        qr = {mm: cc for mm, cc in q.items() if mm != lead}
        lc = q[lead]
        for mm, cc in qr.items():
            t = _mulmono(rest, mm)
            if t is None:
                continue
            mo, extra = t
            r = add(r, {mo: F1} if extra is None else mul({mo: F1}, extra), -c * cc / lc)
    return r

def indicators(p):
    s = set()
    for m in p:
        for a, e in m:
            if a in IND:
                s.add(a)
    return sorted(s)

def assume(p, a, val):
    """p with indicator a set to val (0 or 1)."""
    r = {}
    other = None
    if val and _desc[a][0] in ("gt", "eq"):
        o = ("eq" if _desc[a][0] == "gt" else "gt",) + _desc[a][1:]
        other = _atoms.get(o)
    for m, c in p.items():
        if other is not None and any(x == other for x, _ in m):
            continue
        if any(x == a for x, _ in m):
            if not val:
                continue
            m = tuple(t for t in m if t[0] != a)
        v = r.get(m, F0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r

def ite(c, a, b):
    if is_const(c):
        return a if cval(c) else b
    if a == b:
        return a
    return add(b, mul(c, sub(a, b)))

def lift(f, *ps):
    """Distribute f over the indicators of its arguments."""
    for p in ps:
        ind = indicators(p)
        if ind:
            a = ind[0]
            t = lift(f, *[assume(q, a, 1) for q in ps])
            e = lift(f, *[assume(q, a, 0) for q in ps])
            return ite({((a, 1),): F1}, t, e)
    return f(*ps)

def power(p, n):
    if n < 0:
        return power(inv(p), -n)
    r = const(1)
    for _ in range(n):
        r = mul(r, p)
    return r

def lead(p):
    return max(p, key=lambda m: (sum(abs(e) for _, e in m), m))

def inv(p):
    return lift(_inv, p)

def _inv(p):
    if not p:
        return var(("inf",))
    if len(p) == 1:
        (m, c), = p.items()
        out = {(): F1 / c}
        for a, e in m:
            if a in SQRT:
                # 1/s = s / s^2
                out = mul(out, {((a, 1),): F1})
                out = mul(out, inv(SQRT[a]))
            else:
                out = mul(out, {((a, -e),): F1})
        return out
    l = lead(p)
    c = p[l]
    # take out the common monomial
    common = None
    for m in p:
        d = dict(m)
        common = d if common is None else {a: min(common.get(a, 0), d.get(a, 0)) for a in set(common) | set(d)}
    common = tuple(sorted((a, e) for a, e in common.items() if e and a not in SQRT))
    if common:
        dv = tuple((a, -e) for a, e in common)
        q = {}
        for m, k in p.items():
            mo, extra = _mulmono(m, dv)
            q[mo] = k
        return mul({dv: F1}, _inv(q))
    n = scale(p, F1 / c)
    a = atom(("poly", key(n)))
    return {((a, -1),): F1 / c}

def div(a, b):
    return mul(a, inv(b))

def sqrt(p):
    return lift(_sqrt, p)

def _sqrt(p):
    if is_const(p):
        c = cval(p)
        if c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
    # take a positive rational square out of the content
    c = abs(p[lead(p)]) if p else F1
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if not (n * n == c.numerator and d * d == c.denominator):
        n, d, c = 1, 1, F1
    q = scale(p, 1 / c)
    a = atom(("sqrt", key(q)))
    SQRT[a] = q
    return {((a, 1),): Fraction(n, d)}

def fn(name, *ps):
    return lift(lambda *q: var(("fn", name) + tuple(key(x) for x in q)), *ps)

def _sign_norm(p):
    c = p[lead(p)]
    return scale(p, F1 / abs(c)), c > 0

def gt0(p, tag=""):
    return lift(lambda q: _gt0(q, tag), p)

def _ind(kind, q, tag):
    a = atom((kind, key(q), tag))
    if a not in IND:
        IND.add(a)
        if kind == "eq":
            l = lead(q)
            _eqof[a] = (q, l if l and all(x not in IND for x, _ in l) else None)
    return {((a, 1),): F1}

def _gt0(p, tag):
    if is_const(p):
        return const(1 if cval(p) > 0 else 0)
    q, pos = _sign_norm(p)
    if pos:
        return _ind("gt", q, tag)
    q = neg(q)
    return sub(sub(const(1), _ind("gt", q, tag)), _ind("eq", q, tag))

def eq0(p, tag=""):
    return lift(lambda q: _eq0(q, tag), p)

def _eq0(p, tag):
    if is_const(p):
        return const(0 if cval(p) else 1)
    q, pos = _sign_norm(p)
    if not pos:
        q = neg(q)
    return _ind("eq", q, tag)

def absval(p):
    return lift(lambda q: const(abs(cval(q))) if is_const(q) else ite(gt0(q), q, neg(q)), p)

def is_bool(p):
    """Is the value 0 or 1 in every state?"""
    if is_const(p):
        return cval(p) in (0, 1)
    return len(p) <= 64 and all(c.denominator == 1 and all(a in IND for a, _ in m) for m, c in p.items()) and mul(p, p) == p

def subst(p, v, r, memo=None):
    """p with the variable atom v replaced by the polynomial r, inside every atom too."""
    memo = {} if memo is None else memo
    out = {}
    for m, c in p.items():
        t = {(): c}
        for a, e in m:
            t = mul(t, power(_subst_atom(a, v, r, memo), e))
        out = add(out, t)
    return out

def _subst_atom(a, v, r, memo):
    if a == v:
        return r
    if a in memo:
        return memo[a]
    d = _desc[a]
    keep = {((a, 1),): F1}
    s = lambda k: subst(dict(k), v, r, memo)
    if d[0] == "sqrt":
        q = s(d[1])
        res = keep if q == dict(d[1]) else sqrt(q)
    elif d[0] == "poly":
        q = s(d[1])
        res = keep if q == dict(d[1]) else q
    elif d[0] in ("gt", "eq") and d[2] == "":
        q = s(d[1])
        res = keep if q == dict(d[1]) else (gt0(q) if d[0] == "gt" else eq0(q))
    elif d[0] == "fn" and all(isinstance(x, tuple) for x in d[2:]):
        q = [s(x) for x in d[2:]]
        res = keep if all(x == dict(y) for x, y in zip(q, d[2:])) else fn(d[1], *q)
    else:
        res = keep
    memo[a] = res
    return res

def _solve(q):
    """(atom, value) with q == 0 solved for a variable it is linear in."""
    for x in sorted({a for m in q for a, e in m if _desc[a][0] == "var"}):
        co, rest, ok = {}, {}, True
        for m, c in q.items():
            dm = dict(m)
            if x in dm:
                ok = ok and dm[x] == 1
                co[tuple(t for t in m if t[0] != x)] = c
            else:
                rest[m] = c
        if ok and len(co) == 1:
            return x, neg(div(rest, co))
    return None

def equal(a, b, depth=0):
    """Equality as functions: split on the indicators left in the difference, then multiply out inverted factors."""
    d = reduce_eq(sub(a, b))
    if not d:
        return True
    ind = indicators(d)
    if ind and depth < 12:
        x = ind[0]
        k, q = _desc[x][0], dict(_desc[x][1])
        pa, pb = assume(a, x, 1), assume(b, x, 1)
        if k == "eq":
            sv = _solve(q)
            if sv:
                pa, pb = subst(pa, *sv), subst(pb, *sv)
        return equal(pa, pb, depth + 1) and equal(assume(a, x, 0), assume(b, x, 0), depth + 1)
    for _ in range(24):
        if not d:
            return True
        worst = None
        for m in d:
            for x, e in m:
                if e < 0 and _desc[x][0] == "poly":
                    worst = x
        if worst is None:
            break
        n = max(-e for m in d for x, e in m if x == worst)
        base = dict(_desc[worst][1])
        r = {}
        for m, c in d.items():
            e = dict(m).get(worst, 0) + n
            rest = {tuple(t for t in m if t[0] != worst): c}
            r = add(r, mul(rest, power(base, e)) if e else rest)
            if len(r) > LIMIT:
                raise TooBig()
        d = reduce_eq(r)
    if not d:
        return True
    # rounding of constants folded by the compiler
    big = {}
    for p in (a, b):
        for m, c in p.items():
            big[m] = max(big.get(m, F0), abs(c))
    return all(m in big and abs(c) <= big[m] * Fraction(1, 10**6) for m, c in d.items())

def show(p, depth=0):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda t: (len(t[0]), t[0]))[:6]:
        f = [] if c == 1 and m else ["%g" % float(c)]
        for a, e in m:
            s = show_atom(a, depth)
            f.append(s if e == 1 else "%s^%d" % (s, e))
        out.append("*".join(f))
    return " + ".join(out) + (" + …" if len(p) > 6 else "")

def show_atom(a, depth):
    d = _desc[a]
    if d[0] == "var":
        return d[1]
    if depth > 2:
        return d[0] + "(…)"
    if d[0] in ("gt", "eq"):
        return "[%s%s0]" % (show(dict(d[1]), depth + 1), ">" if d[0] == "gt" else "==")
    if d[0] in ("sqrt", "poly"):
        return "%s(%s)" % (d[0] if d[0] == "sqrt" else "", show(dict(d[1]), depth + 1))
    if d[0] == "fn":
        return "%s(%s)" % (d[1], ", ".join(show(dict(x), depth + 1) for x in d[2:]))
    return str(d[0])
