"""Gated value numbering of functions over the IR.

Every register and every scalar cell of memory gets a value number (lib/poly.py): a normal form of the
function of the entry state that it holds. Blocks are visited in control-flow order; at a branch whose
condition is not a constant both arms are numbered up to the branch's immediate postdominator and the
two states are merged with a gate on the condition (no path is enumerated and nothing is executed).
Loops are followed as long as their exit condition has a constant value number.
"""
import re
import struct
from fractions import Fraction
import poly as P

class Unsupported(Exception):
    pass

class Ptr:
    __slots__ = ("alts",)
    def __init__(self, obj, off=0, alts=None):
        self.alts = alts or ((None, obj, off),)
    def shift(self, n):
        return Ptr(0, 0, tuple((c, o, f + n) for c, o, f in self.alts))
    def __eq__(self, o):
        return isinstance(o, Ptr) and self.alts == o.alts
    def __hash__(self):
        return 1

class Cat:
    """An integer that carries several cells: ((byte offset, size, value), …)."""
    __slots__ = ("parts",)
    def __init__(self, parts):
        self.parts = parts
    def __eq__(self, o):
        return isinstance(o, Cat) and self.parts == o.parts

UNDEF = ("undef",)
NULL = Ptr("null")

def tsize(t):
    if t in ("p", "d", "i64"):
        return 8
    if t == "f":
        return 4
    if t[0] == "i":
        return (int(t[1:]) + 7) // 8
    if t[0] in "xa":
        return int(re.match(r".(\d+)", t).group(1))
    raise Unsupported("type " + t)

def vec(t):
    """(count, element type) of a vector type."""
    _, n, e = t.split(":", 2)
    return int(n), e

def parse_layout(s):
    """'{0=x8:2:f,8=f}' -> [(off, layout)…] or a scalar type."""
    pos = 0

    def go():
        nonlocal pos
        if s[pos] != "{":
            m = re.compile(r"[^,{}]+").match(s, pos)
            pos = m.end()
            return m.group(0)
        pos += 1
        r = []
        while s[pos] != "}":
            if s[pos] == ",":
                pos += 1
            m = re.compile(r"(\d+)=").match(s, pos)
            pos = m.end()
            r.append((int(m.group(1)), go()))
        pos += 1
        return r
    return go()

class State:
    __slots__ = ("mem",)
    def __init__(self, mem=None):
        self.mem = mem if mem is not None else {}
    def copy(self):
        return State({o: dict(d) for o, d in self.mem.items()})

class Eval:
    def __init__(self, prog, limit=60000, opaque=None):
        self.prog = prog
        self.nobj = 0
        self.leaf = {}          # object -> {off: (size, kind)} for lazily materialised inputs
        self.steps = 0
        self.limit = limit
        self.pdom = {}
        self.gates = 0
        self.opaque = opaque or {}
        self.called = set()

    # ---- memory -----------------------------------------------------------
    def leaves(self, ty, base=0, depth=0):
        """Scalar cells of a C++ type from the debug information."""
        n = {"float": ("f", 4), "double": ("d", 8), "bool": ("i", 1), "char": ("i", 1), "unsigned char": ("u", 1), "signed char": ("i", 1),
             "int": ("i", 4), "unsigned int": ("u", 4), "short": ("i", 2), "unsigned short": ("u", 2), "unsigned long": ("u", 8), "long": ("i", 8),
             "short int": ("i", 2), "short unsigned int": ("u", 2), "long unsigned int": ("u", 8), "long int": ("i", 8)}.get(ty)
        if n:
            return [(base, n[1], n[0])]
        t = self.prog.types.get(ty)
        if not t or depth > 8:
            return None
        if "enum" in t:
            return [(base, t["size"], "u")]
        if t.get("union"):
            return None
        out = []
        for nm, ob, sb, mt in t.get("m", []):
            o = base + ob // 8
            if mt.endswith("[]"):
                e = mt[:-2]
                one = self.leaves(e, 0, depth + 1)
                if one is None:
                    return None
                es = self.sizeof(e)
                for k in range(sb // 8 // es):
                    out += [(o + k * es + a, b, c) for a, b, c in one]
            else:
                l = self.leaves(mt, o, depth + 1)
                if l is None:
                    return None
                out += l
        return out

    def sizeof(self, ty):
        t = self.prog.types.get(ty)
        if t:
            return t["size"]
        l = self.leaves(ty)
        return l[0][1]

    def input(self, st, name, ty):
        """An input object of a C++ type whose cells hold symbols name[off]."""
        cells = self.leaves(ty)
        if cells is None:
            raise Unsupported("type " + ty)
        st.mem[name] = {o: (s, P.var(("var", "%s+%d" % (name, o), s, k))) for o, s, k in cells}
        return Ptr(name)

    def new(self, st):
        self.nobj += 1
        o = "#%d" % self.nobj
        st.mem[o] = {}
        return o

    def obj(self, st, o):
        d = st.mem.get(o)
        if d is None:
            if o.startswith("@"):
                d = {}
                g = self.prog.globals.get(o[1:])
                if g is None or "init" not in g:
                    raise Unsupported("global " + o)
                self.fill(d, 0, g["init"], g["size"])
                st.mem[o] = d
            else:
                raise Unsupported("object " + o)
        return d

    def fill(self, d, off, v, size):
        if "s" in v:
            for o, s, x in v["s"]:
                self.fill(d, off + o, x, s)
        elif "str" in v:
            for k, ch in enumerate(v["str"]):
                d[off + k] = (1, P.const(ord(ch)))
        elif "z" in v:
            d[off] = (size, P.const(0))
        else:
            d[off] = (size, self.constant(v))

    def read1(self, d, off, size, ty):
        c = d.get(off)
        if c and c[0] == size:
            return c[1]
        # a narrower read of a wider constant, or a wider read of several cells
        for o, (s, v) in d.items():
            if o <= off and off + size <= o + s:
                if isinstance(v, dict) and P.is_const(v):
                    n = P.cval(v)
                    if n == 0:
                        return {}
                    if n.denominator == 1:
                        w = (int(n) >> (8 * (off - o))) & ((1 << (8 * size)) - 1)
                        return P.const(w)
                if isinstance(v, Cat):
                    for po, ps, pv in v.parts:
                        if po == off - o and ps == size:
                            return pv
                raise Unsupported("partial read")
        parts, o = [], off
        while o < off + size:
            c = d.get(o)
            if not c or o + c[0] > off + size:
                # tolerate padding
                nx = [x for x in d if o < x < off + size]
                if not nx:
                    break
                o = min(nx)
                continue
            parts.append((o - off, c[0], c[1]))
            o += c[0]
        if not parts:
            return UNDEF
        if all(isinstance(v, dict) and not v for _, _, v in parts) and sum(s for _, s, _ in parts) == size:
            return {}
        return Cat(tuple(parts))

    def write1(self, d, off, size, v):
        for o in [o for o, (s, _) in d.items() if o < off + size and off < o + s]:
            s, old = d.pop(o)
            if o < off or o + s > off + size:
                if isinstance(old, dict) and not old:
                    if o < off:
                        d[o] = (off - o, {})
                    if o + s > off + size:
                        d[off + size] = (o + s - off - size, {})
                elif isinstance(old, Cat):
                    for po, ps, pv in old.parts:
                        if o + po + ps <= off or o + po >= off + size:
                            d[o + po] = (ps, pv)
                elif old is not UNDEF:
                    raise Unsupported("partial overwrite")
        if isinstance(v, Cat):
            for po, ps, pv in v.parts:
                d[off + po] = (ps, pv)
        elif v is not UNDEF:
            d[off] = (size, v)

    def load(self, st, p, ty, lay=None):
        if not isinstance(p, Ptr):
            raise Unsupported("load through a non-pointer")
        vals = []
        for c, o, off in p.alts:
            if o == "null":
                vals.append((c, UNDEF))
                continue
            d = self.obj(st, o)
            vals.append((c, self.loadobj(d, off, lay if lay is not None else ty)))
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = self.gate(c, v, r)
        return r

    def loadobj(self, d, off, ty):
        if isinstance(ty, list):
            return tuple(self.loadobj(d, off + o, t) for o, t in ty)
        if ty[0] == "x":
            n, e = vec(ty)
            es = tsize(e)
            return tuple(self.read1(d, off + k * es, es, e) for k in range(n))
        return self.read1(d, off, tsize(ty), ty)

    def store(self, st, p, v, ty, lay=None):
        if not isinstance(p, Ptr):
            raise Unsupported("store through a non-pointer")
        if len(p.alts) == 1:
            c, o, off = p.alts[0]
            if o == "null":
                return
            self.storeobj(self.obj(st, o), off, v, lay if lay is not None else ty)
            return
        rest = None
        for c, o, off in p.alts:
            if o == "null":
                continue
            cc = c if rest is None else P.mul(rest, c) if c is not None else rest
            if c is not None:
                nc = P.sub(P.const(1), c)
                rest = nc if rest is None else P.mul(rest, nc)
            d = self.obj(st, o)
            if lay is not None or ty[0] in "xa":
                raise Unsupported("gated aggregate store")
            old = self.read1(d, off, tsize(ty), ty)
            self.write1(d, off, tsize(ty), self.gate(cc, v, old))

    def storeobj(self, d, off, v, ty):
        if isinstance(ty, list):
            for k, (o, t) in enumerate(ty):
                self.storeobj(d, off + o, v[k] if v is not UNDEF else UNDEF, t)
            return
        if ty[0] == "x":
            n, e = vec(ty)
            es = tsize(e)
            for k in range(n):
                self.write1(d, off + k * es, es, v[k] if v is not UNDEF else UNDEF)
            return
        self.write1(d, off, tsize(ty), v)

    def copy(self, st, dst, src, n):
        if len(dst.alts) != 1 or dst.alts[0][1] == "null":
            raise Unsupported("memcpy")
        dd, do = self.obj(st, dst.alts[0][1]), dst.alts[0][2]
        alts = []
        for c, so, sf in src.alts:
            if so == "null":
                continue
            sd = self.obj(st, so)
            cells = [(o - sf, s, v) for o, (s, v) in sd.items() if sf <= o and o + s <= sf + n]
            if not cells:
                for o, (s, v) in sd.items():
                    if o <= sf and sf + n <= o + s and isinstance(v, dict) and not v:
                        cells = [(0, n, {})]
            alts.append((c, sorted(cells, key=lambda t: t[:2])))
        if len(alts) == 1:
            self.write1(dd, do, n, UNDEF)
            for o, s, v in alts[0][1]:
                self.write1(dd, do + o, s, v)
            return
        shape = [[t[:2] for t in a[1]] for a in alts]
        if any(s != shape[0] for s in shape):
            raise Unsupported("gated memcpy")
        self.write1(dd, do, n, UNDEF)
        for k, (o, s) in enumerate(shape[0]):
            r = alts[-1][1][k][2]
            for c, cells in reversed(alts[:-1]):
                r = self.gate(c, cells[k][2], r)
            self.write1(dd, do + o, s, r)

    # ---- values -----------------------------------------------------------
    def gate(self, c, a, b):
        if a == b:
            return a
        if P.is_const(c):
            return a if P.cval(c) else b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, dict) and isinstance(b, dict):
            return P.ite(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.gate(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            out = []
            for k, x, o in a.alts:
                out.append((c if k is None else P.mul(c, k), x, o))
            # when c fails the list continues with b's alternatives
            # (the last of a's alternatives is unconditional within a, so it is guarded by c)
            return Ptr(0, 0, tuple(out) + b.alts)
        if isinstance(a, Cat) and isinstance(b, Cat) and [t[:2] for t in a.parts] == [t[:2] for t in b.parts]:
            return Cat(tuple((x[0], x[1], self.gate(c, x[2], y[2])) for x, y in zip(a.parts, b.parts)))
        if isinstance(a, Cat) and isinstance(b, dict) and not b:
            return Cat(tuple((x[0], x[1], self.gate(c, x[2], {})) for x in a.parts))
        if isinstance(b, Cat) and isinstance(a, dict) and not a:
            return Cat(tuple((x[0], x[1], self.gate(c, {}, x[2])) for x in b.parts))
        raise Unsupported("merge")

    def merge(self, c, a, b):
        """State after a gate: a where c holds, b elsewhere."""
        out = State()
        for o in set(a.mem) | set(b.mem):
            x, y = a.mem.get(o), b.mem.get(o)
            if x is None or y is None:
                out.mem[o] = dict(x if x is not None else y)
                continue
            d = {}
            for off in set(x) | set(y):
                u, v = x.get(off), y.get(off)
                if u is None or v is None:
                    w = u or v
                    # one arm leaves the cell unset or holds it inside a wider zero
                    other = y if u is not None else x
                    cov = [z for oo, z in other.items() if oo <= off and off + w[0] <= oo + z[0]]
                    if cov and isinstance(cov[0][1], dict) and not cov[0][1]:
                        d[off] = (w[0], self.gate(c, w[1], {}) if u is not None else self.gate(c, {}, w[1]))
                    elif not any(oo < off + w[0] and off < oo + z[0] for oo, z in other.items()):
                        d[off] = w
                    elif isinstance(w[1], dict) and not w[1]:
                        pass  # the finer cells of the other arm are merged instead
                    else:
                        raise Unsupported("merge of differently shaped cells")
                elif u[0] == v[0]:
                    d[off] = (u[0], self.gate(c, u[1], v[1]))
                else:
                    zu, zv = isinstance(u[1], dict) and not u[1], isinstance(v[1], dict) and not v[1]
                    if zu and u[0] > v[0]:
                        d[off] = (v[0], self.gate(c, {}, v[1]))
                    elif zv and v[0] > u[0]:
                        d[off] = (u[0], self.gate(c, u[1], {}))
                    else:
                        raise Unsupported("merge of differently sized cells")
            out.mem[o] = d
        return out

    def constant(self, v):
        if "c" in v:
            return P.const(v["c"])
        if "f" in v:
            f = float(v["f"])
            if f != f or f in (float("inf"), float("-inf")):
                return P.var(("fn", str(f)))
            return P.const(P.snap(f))
        if "u" in v:
            return UNDEF
        if "g" in v:
            g = v["g"]
            return Ptr("@" + g, v.get("o", 0)) if g not in self.prog.fns else ("fnptr", g)
        if "z" in v:
            return ("zero",)
        if "s" in v:
            return tuple(self.constant(x) for _, _, x in v["s"])
        raise Unsupported("constant")

    def val(self, env, v, ty=None):
        if isinstance(v, int):
            return env.get(v, UNDEF)
        r = self.constant(v)
        if r == ("zero",):
            if ty and ty[0] == "x":
                return tuple({} for _ in range(vec(ty)[0]))
            raise Unsupported("zero aggregate")
        if ty == "p" and isinstance(r, dict) and not r:
            return NULL
        if r is UNDEF and ty and ty[0] == "x":
            return tuple(UNDEF for _ in range(vec(ty)[0]))
        return r

    def num(self, v):
        if isinstance(v, dict):
            return v
        raise Unsupported("not a number: %r" % (v if isinstance(v, tuple) else type(v).__name__,))

    # ---- control ----------------------------------------------------------
    def ipdom(self, fn):
        r = self.pdom.get(fn.name)
        if r is not None:
            return r
        n = len(fn.bbs)
        EXIT = n
        succ = [list(s) or [EXIT] for s in fn.succs()]
        full = set(range(n + 1))
        pd = [full] * n + [{EXIT}]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                s = set.intersection(*[pd[x] for x in succ[b]]) | {b}
                if s != pd[b]:
                    pd[b] = s
                    ch = True
        r = {}
        for b in range(n):
            c = pd[b] - {b}
            best = None
            for x in c:
                if len(pd[x]) == len(c):
                    best = x
            r[b] = best
        self.pdom[fn.name] = r
        return r

    def call(self, fn, args, st, depth=0):
        """Returns (value, state)."""
        if depth > 40:
            raise Unsupported("recursion")
        env = {}
        for k, a in enumerate(args):
            env[k] = a
        self.called.add(fn.name)
        r = self.run(fn, 0, None, env, st, None, depth)
        # r: ("ret", value, state)
        return r

    def run(self, fn, bb, prev, env, st, stop, depth):
        """Number blocks from bb until `stop` (exclusive) or a return. -> (kind, value, state, prev, env)"""
        pd = self.ipdom(fn)
        while True:
            if bb == stop:
                return ("stop", None, st, prev, env)
            nxt = None
            B = fn.bbs[bb]
            ph = {}
            for I in B:
                if I[0] != "phi":
                    break
                for v, b in I[4]:
                    if b == prev:
                        ph[I[1]] = self.val(env, v, I[2])
                        break
                else:
                    if prev is not None and I[1] in env and ("phi", bb) in env:
                        pass
            if ("phi", bb) in env:
                pre = env.pop(("phi", bb))
                ph.update(pre)
            env.update(ph)
            for I in B:
                self.steps += 1
                if self.steps > self.limit:
                    raise Unsupported("too many steps")
                op = I[0]
                if op == "phi":
                    continue
                if op == "br":
                    if len(I) <= 5:
                        nxt = I[4]
                        break
                    c = self.num(self.val(env, I[4]))
                    if P.is_const(c):
                        nxt = I[5] if P.cval(c) else I[6]
                        break
                    nxt = ("gate", c, I[5], I[6])
                    break
                if op == "switch":
                    c = self.num(self.val(env, I[4]))
                    if P.is_const(c):
                        nxt = I[5]
                        for k, t in I[6]:
                            if k == P.cval(c):
                                nxt = t
                        break
                    nxt = ("switch", c, I[5], I[6])
                    break
                if op == "ret":
                    v = self.val(env, I[4], I[2]) if len(I) > 4 else None
                    return ("ret", v, st, None, env)
                if op == "unreachable":
                    return ("dead", None, st, None, env)
                r = self.inst(fn, I, env, st, depth)
                if isinstance(r, tuple) and len(r) == 3 and r[0] == "state":
                    st = r[2]
                    r = r[1]
                if I[1] >= 0:
                    env[I[1]] = r
            if isinstance(nxt, int):
                prev, bb = bb, nxt
                continue
            self.gates += 1
            j = pd[bb]
            EXIT = len(fn.bbs)
            if nxt[0] == "gate":
                branches = [(nxt[1], nxt[2]), (None, nxt[3])]
            else:
                branches = [(P.eq0(P.sub(nxt[1], P.const(k))), t) for k, t in nxt[3]] + [(None, nxt[2])]
            if j is None:
                j = EXIT
            outs = []
            for c, t in branches:
                e2, s2 = dict(env), st.copy()
                outs.append((c, self.run(fn, t, bb, e2, s2, j if j != EXIT else None, depth)))
            outs = [(c, o) for c, o in outs if o[0] != "dead"] or outs[:1]
            r = outs[-1][1]
            if j != EXIT and any(o[0] != "stop" for _, o in outs):
                raise Unsupported("irregular control flow")
            if r[0] == "dead":
                return r
            # value of phi nodes of the join, per arm
            phis = [I for I in (fn.bbs[j] if j != EXIT else []) if I[0] == "phi"]

            def phivals(o):
                d = {}
                for I in phis:
                    for v, b in I[4]:
                        if b == o[3]:
                            d[I[1]] = self.val(o[4], v, I[2])
                            break
                    else:
                        if ("phi", j) in o[4] and I[1] in o[4][("phi", j)]:
                            d[I[1]] = o[4][("phi", j)][I[1]]
                return d
            ms, mv, mp = r[2], r[1], phivals(r)
            menv = r[4]
            live = fn.live_in()[j] if j != EXIT else frozenset()
            for c, o in reversed(outs[:-1]):
                ms = self.merge(c, o[2], ms)
                if j == EXIT:
                    mv = self.gate(c, o[1], mv) if mv is not None else None
                else:
                    op2 = phivals(o)
                    mp = {k: self.gate(c, op2[k], mp[k]) if k in op2 and k in mp else op2.get(k, mp.get(k)) for k in set(op2) | set(mp)}
                    for k in live:
                        x, y = o[4].get(k, UNDEF), menv.get(k, UNDEF)
                        if x != y and k not in mp:
                            try:
                                menv[k] = self.gate(c, x, y)
                            except Unsupported:
                                menv[k] = UNDEF
            if j == EXIT:
                return ("ret", mv, ms, None, env)
            env = menv
            env.pop(("phi", j), None)
            if phis:
                env[("phi", j)] = mp
            st, prev, bb = ms, None, j
            if bb == stop:
                return ("stop", None, st, prev, env)

    # ---- instructions -----------------------------------------------------
    def inst(self, fn, I, env, st, depth):
        op, ty = I[0], I[2]
        V = lambda k, t=None: self.val(env, I[k], t)
        if op == "alloca":
            return Ptr(self.new(st))
        if op == "load":
            return self.load(st, V(4, "p"), ty, parse_layout(I[7]) if len(I) > 7 else None)
        if op == "store":
            v = I[4]
            if len(I) > 8:
                lay = parse_layout(I[8])
                self.store(st, V(5, "p"), self.val(env, v), "a", lay)
                return None
            size = I[6]
            x = self.val(env, v) if isinstance(v, int) else None
            if x is None:
                x = self.constant(v)
                if x == ("zero",):
                    x = {}
                if isinstance(x, tuple) and x and isinstance(x[0], dict):
                    d = self.obj(st, V(5, "p").alts[0][1])
                    off = V(5, "p").alts[0][2]
                    for (o, s, _), xv in zip(v["s"], x):
                        self.write1(d, off + o, s, xv)
                    return None
                if isinstance(x, dict) and "c" in v and v["c"] == 0 and False:
                    x = NULL
            p = V(5, "p")
            if isinstance(x, tuple) and x is not UNDEF and x[:1] != ("fnptr",):
                n = len(x)
                if len(p.alts) != 1:
                    raise Unsupported("gated vector store")
                d = self.obj(st, p.alts[0][1])
                for k in range(n):
                    self.write1(d, p.alts[0][2] + k * (size // n), size // n, x[k])
                return None
            self.store(st, p, x, "i%d" % (size * 8))
            return None
        if op == "getelementptr":
            p = V(4, "p")
            if not isinstance(p, Ptr):
                raise Unsupported("gep base")
            off = I[5]
            for ix, sc in I[6]:
                c = self.num(self.val(env, ix))
                if not P.is_const(c):
                    p = self.symindex(p, c, sc)
                    continue
                n = int(P.cval(c))
                off += n * sc
            return p.shift(off)
        if op in ("fadd", "add"):
            return self.arith(ty, V(4, ty), V(5, ty), P.add)
        if op in ("fsub", "sub"):
            return self.arith(ty, V(4, ty), V(5, ty), P.sub)
        if op in ("fmul", "mul"):
            return self.arith(ty, V(4, ty), V(5, ty), P.mul)
        if op == "fdiv":
            return self.arith(ty, V(4, ty), V(5, ty), P.div)
        if op == "fneg":
            return self.map1(V(4, ty), P.neg)
        if op in ("sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            return self.map2(V(4, ty), V(5, ty), lambda a, b: self.intop(op, ty if ty[0] != "x" else vec(ty)[1], a, b))
        if op in ("icmp", "fcmp"):
            a, b, pr = V(4, I[7]), V(5, I[7]), I[6]
            return self.map2(a, b, lambda x, y: self.cmp(pr, x, y)) if I[7][0] == "x" else self.cmp(pr, a, b)
        if op == "select":
            c = self.num(V(4))
            return self.gate(c, V(5, ty), V(6, ty))
        if op in ("zext", "sext", "trunc", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            return self.cast(op, V(4), I[5] if len(I) > 5 else ty, ty)
        if op == "extractvalue":
            v = V(4)
            for k in I[5]:
                v = v[k]
            return v
        if op == "insertvalue":
            v = V(4)
            if len(I[6]) != 1:
                raise Unsupported("insertvalue")
            k = I[6][0]
            v = list(v) if v is not UNDEF else []
            while len(v) <= k:
                v.append(UNDEF)
            v[k] = V(5)
            return tuple(v)
        if op == "extractelement":
            v, k = V(4), self.num(V(5))
            return v[int(P.cval(k))]
        if op == "insertelement":
            v, x, k = V(4, ty), V(5), int(P.cval(self.num(V(6))))
            v = list(v) if v is not UNDEF else [UNDEF] * vec(ty)[0]
            v[k] = x
            return tuple(v)
        if op == "shufflevector":
            a, b = V(4), V(5)
            n = len(a) if a is not UNDEF and a != ("undef",) else len(b)
            a = list(a) if a is not UNDEF else [UNDEF] * n
            b = list(b) if isinstance(b, tuple) and b is not UNDEF else [UNDEF] * n
            both = a + b
            return tuple(both[k] if k >= 0 else UNDEF for k in I[6])
        if op == "call":
            return self.docall(fn, I, env, st, depth)
        if op == "fence":
            return None
        raise Unsupported(op)

    def symindex(self, p, c, sc):
        """Index with a gated constant: distribute over the indicators."""
        ind = P.indicators(c)
        if not ind:
            raise Unsupported("symbolic index")
        a = ind[0]
        t, e = P.assume(c, a, 1), P.assume(c, a, 0)
        pt = p.shift(int(P.cval(t)) * sc) if P.is_const(t) else self.symindex(p, t, sc)
        pe = p.shift(int(P.cval(e)) * sc) if P.is_const(e) else self.symindex(p, e, sc)
        return self.gate({((a, 1),): P.F1}, pt, pe)

    def map1(self, a, f):
        if isinstance(a, tuple) and a is not UNDEF:
            return tuple(UNDEF if x is UNDEF else f(self.num(x)) for x in a)
        if a is UNDEF:
            return UNDEF
        return f(self.num(a))

    def map2(self, a, b, f):
        if isinstance(a, tuple) and a is not UNDEF:
            return tuple(UNDEF if x is UNDEF or y is UNDEF else f(x, y) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return f(a, b)

    def arith(self, ty, a, b, f):
        r = self.map2(a, b, lambda x, y: f(self.num(x), self.num(y)))
        if ty[0] == "i" and isinstance(r, dict):
            return self.wrapint(r, int(ty[1:]))
        return r

    def wrapint(self, r, w):
        """Coefficients of an integer of width w, modulo 2^w."""
        if all(c.denominator == 1 and -(1 << (w - 1)) <= c < (1 << (w - 1)) for c in r.values()):
            return r
        out = {}
        for m, c in r.items():
            if c.denominator != 1:
                return r
            c = int(c) & ((1 << w) - 1)
            if c >> (w - 1):
                c -= 1 << w
            if c:
                out[m] = Fraction(c)
        return out

    def intop(self, op, ty, a, b):
        w = int(ty[1:])
        if isinstance(a, Cat) or isinstance(b, Cat):
            raise Unsupported("packed integer " + op)
        a, b = self.num(a), self.num(b)
        if P.is_const(a) and P.is_const(b):
            x, y = int(P.cval(a)), int(P.cval(b))
            ux, uy = x & ((1 << w) - 1), y & ((1 << w) - 1)
            if op in ("sdiv", "srem", "udiv", "urem") and y == 0:
                return P.var(("fn", "div0"))
            r = {"and": lambda: ux & uy, "or": lambda: ux | uy, "xor": lambda: ux ^ uy, "shl": lambda: ux << uy if uy < w else 0,
                 "lshr": lambda: ux >> uy if uy < w else 0, "ashr": lambda: x >> uy if uy < w else 0,
                 "udiv": lambda: ux // uy, "urem": lambda: ux % uy,
                 "sdiv": lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1),
                 "srem": lambda: x - y * (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))}[op]()
            return self.wrapint(P.const(r), w)
        if P.is_bool(a) and P.is_bool(b):
            if op == "and":
                return P.mul(a, b)
            if op == "or":
                return P.sub(P.add(a, b), P.mul(a, b))
            if op == "xor":
                return P.sub(P.add(a, b), P.scale(P.mul(a, b), 2))
        if op == "shl" and P.is_const(b):
            return self.wrapint(P.scale(a, 1 << int(P.cval(b))), w)
        if op in ("and", "or", "xor") and P.key(b) < P.key(a):
            a, b = b, a
        return P.lift(lambda x, y: self.intop(op, ty, x, y) if P.is_const(x) and P.is_const(y)
                      else P.fn("%s%d" % (op, w), x, y), a, b)

    def cmp(self, pr, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.alts) == 1 and len(b.alts) == 1:
                same = a == b
                if pr in ("eq", "ne"):
                    return P.const(1 if same == (pr == "eq") else 0)
                if a.alts[0][1] == b.alts[0][1] and pr[0] == "u":
                    return self.cmp("s" + pr[1:], P.const(a.alts[0][2]), P.const(b.alts[0][2]))
            raise Unsupported("pointer comparison")
        if a is UNDEF or b is UNDEF:
            return UNDEF
        a, b = self.num(a), self.num(b)
        if P.is_bool(a) and P.is_bool(b) and pr in ("eq", "ne"):
            x = P.sub(P.add(a, b), P.scale(P.mul(a, b), 2))
            return x if pr == "ne" else P.sub(P.const(1), x)
        if pr == "true" or pr == "false":
            return P.const(1 if pr == "true" else 0)
        if pr in ("ord", "uno"):
            return P.const(1 if pr == "ord" else 0)
        tag = "u" if pr in ("ult", "ule", "ugt", "uge") and False else ""
        k = pr[1:] if pr not in ("eq", "ne") else pr
        d = P.sub(a, b)
        if k == "eq":
            return P.eq0(d)
        if k == "ne":
            return P.sub(P.const(1), P.eq0(d))
        if k == "gt":
            return P.gt0(d, tag)
        if k == "lt":
            return P.gt0(P.neg(d), tag)
        if k == "ge":
            return P.sub(P.const(1), P.gt0(P.neg(d), tag))
        if k == "le":
            return P.sub(P.const(1), P.gt0(d, tag))
        raise Unsupported("compare " + pr)

    def cast(self, op, v, fr, to):
        if v is UNDEF:
            return UNDEF
        if op == "freeze":
            return v
        if op == "bitcast":
            if to[0] == "x" or fr[0] == "x":
                if to[0] == "x" and fr[0] == "x" and vec(to)[0] == vec(fr)[0]:
                    return tuple(self.cast("bitcast", x, vec(fr)[1], vec(to)[1]) for x in v)
                # through memory
                d = {}
                self.storeobj(d, 0, v, fr)
                return self.loadobj(d, 0, to)
            if isinstance(v, Ptr):
                return v
            v = self.num(v)
            if P.is_const(v):
                n = P.cval(v)
                if fr == "f" and to == "i32":
                    return P.const(struct.unpack("<i", struct.pack("<f", float(n)))[0])
                if fr == "i32" and to == "f":
                    return P.const(P.snap(struct.unpack("<f", struct.pack("<I", int(n) & 0xffffffff))[0]))
            return P.fn("bits%s" % to, v)
        if isinstance(v, Cat):
            if op == "trunc":
                n = tsize(to)
                ps = [t for t in v.parts if t[0] + t[1] <= n]
                if len(ps) == 1 and ps[0][:2] == (0, n):
                    return ps[0][2]
                if ps and sum(t[1] for t in ps) == n:
                    return Cat(tuple(ps))
            if op == "zext":
                return v
            raise Unsupported("packed integer")
        if isinstance(v, tuple):
            f, t = vec(fr)[1], vec(to)[1]
            return tuple(self.cast(op, x, f, t) for x in v)
        if isinstance(v, Ptr):
            if op in ("ptrtoint", "inttoptr"):
                return v
            raise Unsupported("pointer cast")
        v = self.num(v)
        if op in ("fpext", "fptrunc"):
            return v
        if op in ("sitofp", "uitofp"):
            if P.is_const(v):
                n = int(P.cval(v))
                if op == "uitofp" and n < 0:
                    n += 1 << int(fr[1:])
                return P.const(n)
            if P.is_bool(v):
                return v if op == "uitofp" or fr != "i1" else P.neg(v)
            return P.lift(lambda q: q if P.is_const(q) else P.fn(op, q), v)
        if op in ("fptosi", "fptoui"):
            return P.lift(lambda q: P.const(int(P.cval(q))) if P.is_const(q) else self.toint(op, to, q), v)
        if op == "trunc":
            w = int(to[1:])
            if P.is_bool(v):
                return v
            if w == 1:
                return P.lift(lambda q: P.const(int(P.cval(q)) & 1) if P.is_const(q) else self.truth(q), v)
            return self.wrapint(self.untrunc(v, w), w)
        if op in ("zext", "sext"):
            w = int(fr[1:])
            if P.is_bool(v):
                return P.neg(v) if op == "sext" and w == 1 else v
            return P.lift(lambda q: self.ext(op, q, w), v)
        raise Unsupported(op)

    def toint(self, op, to, q):
        if len(q) == 1:
            (m, c), = q.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                d = P.desc(m[0][0])
                if d[:2] == ("fn", "sitofp"):
                    return dict(d[2])
        return P.fn(op + to, q)

    def truth(self, q):
        # a bool stored in a byte: a symbol read as bool
        return P._ind("gt", q, "bool") if len(q) == 1 else P.fn("bit0", q)

    def ext(self, op, q, w):
        if P.is_const(q):
            n = int(P.cval(q))
            if op == "zext":
                n &= (1 << w) - 1
            return P.const(n)
        if len(q) == 1:
            (m, c), = q.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                d = P.desc(m[0][0])
                if d[0] == "var" and len(d) == 4 and d[2] * 8 == w and d[3] == ("i" if op == "sext" else "u"):
                    return q
        return P.var((op, w, P.key(q)))

    def untrunc(self, v, w):
        """Modulo 2^w the extension of a w-bit (or wider) value is the value itself."""
        out = {}
        for m, c in v.items():
            t = {(): c}
            for a, e in m:
                d = P.desc(a)
                if d[0] in ("zext", "sext") and d[1] >= w and e > 0:
                    t = P.mul(t, P.power(self.untrunc(dict(d[2]), w), e))
                elif e > 0 and a not in P.IND and not (d[0] == "var" and len(d) == 4 and d[2] * 8 <= w):
                    t = P.mul(t, {((P.atom(("trunc", w, a)), e),): P.F1})
                else:
                    t = P.mul(t, {((a, e),): P.F1})
            out = P.add(out, t)
        return out

    def docall(self, fn, I, env, st, depth):
        name = self.prog.callee(I)
        if name is None:
            c = I[4]
            if isinstance(c, dict) and c.get("x") == "asm":
                return None
            v = self.val(env, c)
            if isinstance(v, tuple) and v[:1] == ("fnptr",):
                name = v[1]
            else:
                raise Unsupported("indirect call")
        args = I[5]
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") or name in ("memcpy", "memmove"):
            n = self.num(self.val(env, args[2]))
            if not P.is_const(n):
                raise Unsupported("memcpy size")
            self.copy(st, self.val(env, args[0], "p"), self.val(env, args[1], "p"), int(P.cval(n)))
            return self.val(env, args[0], "p")
        if name.startswith("llvm.memset"):
            n, v = self.num(self.val(env, args[2])), self.num(self.val(env, args[1]))
            p = self.val(env, args[0], "p")
            if not P.is_const(n) or v or len(p.alts) != 1:
                raise Unsupported("memset")
            self.write1(self.obj(st, p.alts[0][1]), p.alts[0][2], int(P.cval(n)), {})
            return None
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime") or name.startswith("llvm.assume"):
            return None
        if name == "__cxa_guard_acquire":
            return P.const(1)
        if name == "__cxa_guard_release":
            p = self.val(env, args[0], "p")
            self.store(st, p, P.const(1), "i8")
            return None
        if name == "__cxa_atexit":
            return P.const(0)
        m = re.match(r"(?:llvm\.)?([a-z0-9_.]+?)(?:\.(?:f32|f64|i32|i64))*$", name)
        base = m.group(1) if m else name
        f = self.prog.resolve(name)
        if f is None or not f.bbs:
            r = self.math(base, [self.val(env, a) for a in args])
            if r is not None:
                return r
            r = self.opaque.get(name)
            if r:
                return r(self, [self.val(env, a) for a in args], st)
            raise Unsupported("call " + name[:60])
        vals = []
        for k, a in enumerate(args):
            t = f.args[k][0] if k < len(f.args) else None
            v = self.val(env, a, t)
            if k < len(f.args) and f.args[k][2] == "byval" and isinstance(v, Ptr):
                o = self.new(st)
                d = self.obj(st, v.alts[0][1])
                if len(v.alts) != 1:
                    raise Unsupported("byval")
                st.mem[o] = {x - v.alts[0][2]: y for x, y in d.items() if x >= v.alts[0][2]}
                v = Ptr(o)
            vals.append(v)
        kind, rv, s2, _, _ = self.call(f, vals, st, depth + 1)
        if kind == "dead":
            raise Unsupported("noreturn call")
        return ("state", rv, s2)

    def math(self, b, a):
        if b in ("fmuladd", "fma", "fmaf"):
            return self.map2(a[0], a[1], lambda x, y: (x, y)) and P.add(P.mul(self.num(a[0]), self.num(a[1])), self.num(a[2]))
        if b in ("sqrtf", "sqrt"):
            return P.sqrt(self.num(a[0]))
        if b in ("fabs", "fabsf", "abs"):
            return P.absval(self.num(a[0]))
        if b in ("minnum", "fmin", "fminf"):
            x, y = self.num(a[0]), self.num(a[1])
            return P.ite(P.gt0(P.sub(y, x)), x, y)
        if b in ("maxnum", "fmax", "fmaxf"):
            x, y = self.num(a[0]), self.num(a[1])
            return P.ite(P.gt0(P.sub(y, x)), y, x)
        for s in ("cos", "sin", "tan", "atan2", "pow", "floor", "ceil", "round", "trunc", "exp", "log", "acos", "asin", "atan", "fmod", "rint", "nearbyint", "lround", "copysign"):
            if b in (s, s + "f"):
                return P.fn(s, *[self.num(x) for x in a])
        if b.startswith("x86."):
            def flat(v):
                if isinstance(v, tuple) and v is not UNDEF:
                    r = []
                    for x in v:
                        r += flat(x)
                    return r
                return [P.var(("fn", "undef"))] if v is UNDEF else [self.num(v)]
            ps = []
            for x in a:
                ps += flat(x)[:1]
            return P.fn(b, *ps)
        return None
