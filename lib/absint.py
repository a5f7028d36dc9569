"""Path-sensitive typestate dataflow over the SSA program (property simulation).

A finite abstract state (constants, equalities/ranges on opaque symbols, an
abstract store, and a client typestate) is propagated along the CFG to a
fixpoint; callees defined in the program are entered (bounded call depth),
others are opaque.  Nothing is executed and no solver is involved: branch
outcomes are decided only by the interval/equality facts in the state, and
when the number of states at a program point with the same typestate exceeds
a bound they are joined.

Values
  int                constant (pointers: 0 == null)
  ('P', base, off)   base + constant offset; base is an object or a symbol
  ('s', ...)         opaque symbol
  ('e', op, a, b..)  expression over values
  ('u',)             undefined
Objects (bases that are not symbols): ('A',ctx,id) stack slot, ('H',site) heap
block, ('G',name) global.  A symbol used as a pointer is its own object.
"""
import collections

UNDEF = ("u",)
INF = 1 << 70


def is_sym(v):
    return type(v) is tuple and v[0] == "s"


def mkp(base, off):
    if off == 0 and type(base) is tuple and base[0] in ("s", "e"):
        return base
    if type(base) is int:
        return base + off
    if type(base) is tuple and base[0] == "P":
        return mkp(base[1], base[2] + off)
    return ("P", base, off)


def split(v):
    """value -> (base, constant offset)"""
    if type(v) is tuple and v[0] == "P":
        return v[1], v[2]
    return v, 0


def is_obj(b):
    return type(b) is tuple and b[0] in ("A", "H", "G")


def bits_of(ty):
    if ty[0] == "i":
        return int(ty[1:])
    return 64


def sx(v, w):
    v &= (1 << w) - 1
    if w > 1 and v >> (w - 1):
        v -= 1 << w
    return v


class Frame:
    __slots__ = ("fn", "bb", "idx", "prev", "env", "ctx", "dst", "meta")

    def __init__(self, fn, ctx, dst):
        self.fn, self.ctx, self.dst = fn, ctx, dst
        self.bb, self.idx, self.prev = 0, 0, -1
        self.env = {}
        self.meta = None

    def copy(self):
        f = Frame(self.fn, self.ctx, self.dst)
        f.bb, f.idx, f.prev = self.bb, self.idx, self.prev
        f.env = dict(self.env)
        f.meta = self.meta
        return f


class State:
    __slots__ = ("frames", "mem", "ver", "copies", "cons", "ts", "trace", "seen", "hidden")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.ver = {}
        self.copies = ()
        self.cons = {}
        self.ts = {}
        self.trace = None
        self.seen = set()
        self.hidden = None

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.ver = dict(self.ver)
        s.copies = self.copies
        s.cons = dict(self.cons)
        s.ts = dict(self.ts)
        s.trace = self.trace
        s.seen = set(self.seen)
        return s

    @property
    def top(self):
        return self.frames[-1]

    # ---- facts -------------------------------------------------------
    def rng(self, v, fam="S"):
        if type(v) is int:
            return v, v
        b, o = split(v)
        if type(b) is int:
            return b + o, b + o
        lo, hi = self.cons.get((fam, b), (-INF, INF) if fam == "S" else (0, INF))
        if fam == "S":
            ulo, uhi = self.cons.get(("U", b), (0, INF))
            if uhi < (1 << 31) or lo >= 0:
                lo, hi = max(lo, ulo), min(hi, uhi)
        else:
            slo, shi = self.cons.get(("S", b), (-INF, INF))
            if slo >= 0:
                lo, hi = max(lo, slo), min(hi, shi)
        return lo + o, hi + o

    def ne(self, v):
        b, o = split(v)
        return self.cons.get(("N", b), frozenset())

    def setrng(self, v, lo, hi, fam="S"):
        """Constrain; returns False when contradictory."""
        if type(v) is int:
            return lo <= v <= hi
        b, o = split(v)
        k = (fam, b)
        clo, chi = self.cons.get(k, (-INF, INF) if fam == "S" else (0, INF))
        lo, hi = max(clo, lo - o), min(chi, hi - o)
        if fam == "U":
            lo = max(lo, 0)
        if lo > hi:
            return False
        n = self.cons.get(("N", b))
        if n:
            while lo in n and lo <= hi:
                lo += 1
            while hi in n and hi >= lo:
                hi -= 1
            if lo > hi:
                return False
        if (clo, chi) != (lo, hi):
            self.cons[k] = (lo, hi)
        # cross-family feasibility
        slo, shi = self.rng(b, "S")
        ulo, uhi = self.rng(b, "U")
        if slo > shi or ulo > uhi:
            return False
        if slo >= 0 and (ulo > shi or uhi < slo):
            return False
        return True

    def setne(self, v, c):
        if type(v) is int:
            return v != c
        b, o = split(v)
        c -= o
        lo, hi = self.rng(b, "S")
        if lo == hi == c:
            return False
        n = self.cons.get(("N", b), frozenset())
        if c not in n and len(n) < 24:
            self.cons[("N", b)] = n | {c}
        ok = True
        for fam in ("S", "U"):
            k = (fam, b)
            if k in self.cons:
                l, h = self.cons[k]
                nn = self.cons.get(("N", b), frozenset())
                while l in nn and l <= h:
                    l += 1
                while h in nn and h >= l:
                    h -= 1
                if l > h:
                    return False
                self.cons[k] = (l, h)
        return ok


KILL = object()


class Budget(Exception):
    pass


class Client:
    """Override what is needed."""
    max_depth = 10
    inline_all = True
    ATOMICS = False     # atomic accesses are reported and their results are unknown (other threads)
    keep = ()           # values whose facts are never dropped

    def should_inline(self, eng, st, fn):
        return True

    def call(self, eng, st, name, fn, I, args):
        """Return None for default treatment, or a list of (state, retval)."""
        return None

    def at_return(self, eng, st, val):
        pass

    def at_inlined_return(self, eng, st, fn, val, dst):
        pass

    def at_enter(self, eng, st, fn):
        pass

    def on_store(self, eng, st, I, base, off, val, size):
        pass

    def on_load(self, eng, st, I, base, off, size):
        return None

    def opaque(self, eng, st, name, fn, I, args):
        """Called for opaque calls before havoc; may return a retval or None."""
        return None

    def at_noreturn(self, eng, st, name, I):
        pass

    def on_atomic(self, eng, st, I, kind, order, base, off, val):
        pass

    def on_branch(self, eng, st, I, cond, taken):
        pass

    def pure(self, eng, name, fn):
        return False

    def clobbers(self, eng, st, name, fn, g):
        """May an opaque call change global g?"""
        return True


PURE_EXTERN = {"strlen", "memcmp", "strcmp", "__errno_location", "getpid", "strerror", "isatty"}


class Engine:
    K = 12            # states kept apart per (program point, typestate)
    WIDEN = 4         # visits of a loop head before changing cells are widened
    MAX_STEPS = 400000
    EDEPTH = 4         # nesting of symbolic values before they are replaced by a fresh one
    LIN = None         # refutes a relation with linear reasoning: f(st, pred, a, b) -> True if a pred b is impossible
    aligned = ()       # symbols whose low three bits are zero
    BITS = False       # follow single bits of words that are only partly assigned
    IDEAL = False      # unsigned sums and differences never wrap
    E_OBJECTS = False  # give base+symbolic offset addresses their own cells (no aliasing with other offsets assumed)

    def __init__(self, prog, client, K=None, max_steps=None):
        self.p = prog
        self.c = client
        self.visited_fns = set()
        self.calls_seen = 0
        self.steps = 0
        self.joins = 0
        self.incomplete = []
        if K:
            self.K = K
        if max_steps:
            self.MAX_STEPS = max_steps

    # ---- running -----------------------------------------------------
    def run(self, fn, args=None, init=None):
        st = State()
        fr = Frame(fn, (fn.name,), None)
        for i, a in enumerate(fn.args):
            v = args[i] if args and i < len(args) and args[i] is not None else ("s", "arg", fn.name, i)
            fr.env[i] = v
        st.frames.append(fr)
        if init:
            init(self, st)
        self.visited_fns.add(fn.name)
        self.work = collections.deque([st])
        self.table = {}
        self.entry = fn
        start = self.steps
        while self.work:
            s = self.work.pop()
            try:
                self.step_path(s)
            except Budget:
                self.incomplete.append(fn.name)
                break
            if self.steps - start > self.MAX_STEPS:
                self.incomplete.append(fn.name)
                break
        return self

    def step_path(self, st):
        """Run until the path ends or is queued."""
        while True:
            r = self.step(st)
            if r is None:
                return

    def goto(self, st, tgt):
        fr = st.top
        fr.prev, fr.bb, fr.idx = fr.bb, tgt, 0
        bb = fr.fn.bbs[tgt]
        # phis in parallel
        newv = []
        for I in bb:
            if I[0] != "phi":
                break
            for v, b in I[4]:
                if b == fr.prev:
                    newv.append((I[1], self.val(st, v)))
                    break
            else:
                newv.append((I[1], UNDEF))
        n = len(newv)
        for k, v in newv:
            fr.env[k] = v
        fr.idx = n
        # prune dead values
        live = fr.fn.live_in()[tgt]
        keep = set(live)
        for k, _ in newv:
            keep.add(k)
        if len(fr.env) > len(keep):
            for k in [k for k in fr.env if k not in keep]:
                del fr.env[k]
        return self.enter_block(st)

    def enter_block(self, st):
        """Dedupe / join at block entry. Returns True to continue, None to stop."""
        fr = st.top
        multi = len(fr.fn.preds()[fr.bb]) > 1
        if not multi:
            return True
        self.gc(st)
        pos = tuple((f.ctx, f.bb, f.idx) for f in st.frames)
        tskey = self.tskey(st)
        tab = self.table.setdefault((pos, tskey), [])
        key = self.statekey(st)
        for k, _ in tab:
            if k == key:
                return None
        head = fr.bb in fr.fn.loop_heads()
        limit = self.WIDEN if head else self.K
        if len(tab) >= limit:
            # join with the most recent one
            old = tab[-1][1]
            j = self.join(old, st, pos)
            self.joins += 1
            if j is None:
                return None
            self.gc(j)
            jk = self.statekey(j)
            for k, _ in tab:
                if k == jk:
                    return None
            if len(tab) > limit + 40:
                # force termination: drop all facts
                j.cons = {}
                j.mem = {k: v for k, v in j.mem.items() if is_obj(k[0]) and k[0][0] == "A" and type(v[0]) is tuple and v[0][0] == "P"}
                jk = self.statekey(j)
                for k, _ in tab:
                    if k == jk:
                        return None
                if len(tab) > limit + 80:
                    self.incomplete.append(fr.fn.name)
                    return None
            tab.append((jk, j.copy()))
            st.frames, st.mem, st.ver, st.copies, st.cons, st.ts, st.seen = (
                j.frames, j.mem, j.ver, j.copies, j.cons, j.ts, j.seen)
            return True
        tab.append((key, st.copy()))
        return True

    def tskey(self, st):
        return tuple(sorted(((k, v) for k, v in st.ts.items() if not (type(k) is str and k.startswith("_"))), key=repr))

    def statekey(self, st):
        return (tuple((f.bb, f.idx, frozenset(f.env.items()), f.prev if f.idx == 0 else 0) for f in st.frames),
                frozenset(st.mem.items()), frozenset(st.cons.items()), frozenset(st.ver.items()), st.copies)

    def join(self, a, b, pos):
        """Least upper bound, cell-wise; symbols named after the cell."""
        j = b.copy()
        n = 0

        def jv(x, y, nm):
            if x == y:
                return x
            s = ("s", "j", pos[-1], nm)
            return s
        repl = {}
        for fi, (fa, fb) in enumerate(zip(a.frames, j.frames)):
            for k in list(fb.env):
                if k in fa.env:
                    x, y = fa.env[k], fb.env[k]
                    if x != y:
                        pk = (x, y)
                        if pk not in repl:
                            repl[pk] = jv(x, y, ("v", fi, k))
                        fb.env[k] = repl[pk]
                else:
                    del fb.env[k]
        for k in list(j.mem):
            if k in a.mem:
                if a.mem[k] != j.mem[k]:
                    if a.mem[k][1] == j.mem[k][1]:
                        pk = (a.mem[k][0], j.mem[k][0])
                        if pk not in repl:
                            repl[pk] = jv(pk[0], pk[1], ("m", k))
                        j.mem[k] = (repl[pk], j.mem[k][1])
                    else:
                        del j.mem[k]
                        j.ver[k[0]] = ("j", pos[-1])
            else:
                del j.mem[k]
                j.ver[k[0]] = ("j", pos[-1])
        for k in a.mem:
            if k not in b.mem:
                j.ver[k[0]] = ("j", pos[-1])
        for k in set(a.ver) | set(b.ver):
            if a.ver.get(k) != b.ver.get(k):
                j.ver[k] = ("j", pos[-1])
        if a.copies != b.copies:
            for c in set(a.copies) ^ set(b.copies):
                j.ver[c[0]] = ("j", pos[-1])
            j.copies = tuple(c for c in j.copies if c in a.copies)
        cons = {}
        for k, v in a.cons.items():
            if k in b.cons:
                w = b.cons[k]
                if v == w:
                    cons[k] = v
                elif k[0] in ("S", "U"):
                    lo, hi = min(v[0], w[0]), max(v[1], w[1])
                    # widen bounds that moved
                    cons[k] = (lo if v[0] == lo else -INF if k[0] == "S" else 0, hi if v[1] == hi else INF)
                elif k[0] == "N":
                    x = v & w
                    if x:
                        cons[k] = x
                elif k[0] == "R":
                    x = v | w
                    if len(x) < 3:
                        cons[k] = x
            # facts that hold for a joined symbol in both branches
        for (x, y), s in repl.items():
            if not is_sym(s):
                continue
            for fam in ("S", "U"):
                lx, hx = a.rng(x, fam) if (type(x) is int or True) else (-INF, INF)
                ly, hy = b.rng(y, fam)
                if fam == "U" and (type(x) is int and x < 0 or type(y) is int and y < 0):
                    continue
                lo, hi = min(lx, ly), max(hx, hy)
                if lo > -INF // 2 or hi < INF // 2:
                    if x == s:   # re-join of the same cell: widen what moved
                        lo = lo if lo == lx else (-INF if fam == "S" else 0)
                        hi = hi if hi == hx else INF
                    if type(x) is int and type(y) is int:
                        # two constants: widen upward so that counters terminate
                        lo, hi = (lo, INF) if fam == "S" else (lo, INF)
                    if lo > -INF // 2 or hi < INF // 2:
                        cons[(fam, s)] = (lo, hi)
            nz = self.nonzero(a, x) and self.nonzero(b, y)
            if nz:
                cons[("N", s)] = cons.get(("N", s), frozenset()) | {0}
        j.cons = cons
        j.seen = a.seen | b.seen
        return j

    def nonzero(self, st, v):
        if type(v) is int:
            return v != 0
        b, o = split(v)
        if is_obj(b):
            return True
        lo, hi = st.rng(v, "S")
        if lo > 0 or hi < 0:
            return True
        return -o in st.ne(v)

    def gc(self, st):
        """Drop facts and store cells that nothing live can reach."""
        roots = set()
        live = set()

        def add(v):
            stack = [v]
            while stack:
                x = stack.pop()
                if type(x) is not tuple or x in live:
                    continue
                live.add(x)
                for y in x[1:]:
                    if type(y) is tuple:
                        stack.append(y)
        for f in st.frames:
            for v in f.env.values():
                add(v)
        for v in self.c.keep:
            add(v)
        for k, v in st.ts.items():
            add(k) if type(k) is tuple else None
            add(v) if type(v) is tuple else None
        # memory: keep cells of live objects (stack of live frames, globals, heap, symbols)
        ctxs = {f.ctx for f in st.frames}
        for (o, off) in list(st.mem):
            if o[0] == "A" and o[1] not in ctxs:
                del st.mem[(o, off)]
                continue
        for o in [o for o in st.ver if o[0] == "A" and o[1] not in ctxs]:
            del st.ver[o]
        if st.copies:
            st.copies = tuple(c for c in st.copies if not (c[0][0] == "A" and c[0][1] not in ctxs))
        changed = True
        for (o, off), (v, s) in st.mem.items():
            add(o)
            add(v)
        for c in st.copies:
            add(c[0]); add(c[3])
        for k in list(st.cons):
            b = k[1]
            if k[0] == "R":
                for x in k[1:3]:
                    if type(x) is tuple and x not in live and not self.reachable_expr(split(x)[0], live):
                        del st.cons[k]
                        break
            elif b not in live and not self.reachable_expr(b, live):
                del st.cons[k]

    def reachable_expr(self, b, live):
        if type(b) is tuple and b[0] == "e":
            return all((type(x) is not tuple) or x in live or x[0] in ("A", "G", "H") or self.reachable_expr(x, live) or
                       (x[0] == "P" and (x[1] in live or is_obj(x[1]))) for x in b[2:])
        return False

    # ---- values ------------------------------------------------------
    def val(self, st, o):
        if type(o) is int:
            return st.top.env.get(o, UNDEF)
        if "c" in o:
            return o["c"]
        if "g" in o:
            return ("P", ("G", self.p.aliases.get(o["g"], o["g"])), o.get("o", 0))
        if "u" in o:
            return UNDEF
        if "f" in o:
            return ("e", "fp", o["f"])
        if "z" in o:
            return ("agg", ())
        return ("s", "opq")

    def fresh(self, st, *name):
        s = ("s",) + name
        if s in st.seen:
            self.age(st, s)
        st.seen.add(s)
        return s

    def age(self, st, s):
        """s is about to be redefined: what is left in the state is an older generation."""
        old = ("s", "old") + s[1:]
        cache = {}

        def sub(v):
            if type(v) is not tuple:
                return v
            if v == s:
                return old
            if not v or type(v[0]) is not tuple and v[0] not in ("P", "e", "s", "agg", "H"):
                return v
            r = cache.get(v)
            if r is None:
                r = tuple(sub(x) if type(x) is tuple else x for x in v)
                cache[v] = r
            return r
        for f in st.frames:
            for k, v in f.env.items():
                if type(v) is tuple:
                    f.env[k] = sub(v)
        st.mem = {(sub(o), off): (sub(v), z) for (o, off), (v, z) in st.mem.items()}
        st.ver = {sub(o): v for o, v in st.ver.items()}
        st.copies = tuple((sub(c[0]), c[1], c[2], sub(c[3]), c[4]) for c in st.copies)
        nc = {}
        for k, v in st.cons.items():
            kk = (k[0],) + tuple(sub(x) if type(x) is tuple else x for x in k[1:])
            if kk != k and kk in st.cons:
                continue
            if kk in nc:
                continue
            nc[kk] = v
        st.cons = nc
        st.ts = {(sub(k) if type(k) is tuple else k): (sub(v) if type(v) is tuple else v) for k, v in st.ts.items()}

    # ---- memory ------------------------------------------------------
    def ptr(self, st, v):
        b, o = split(v)
        if type(b) is int:
            return None, b + o
        return b, o

    def load(self, st, base, off, size, ty="i64", site=None, depth=0):
        m = st.mem
        r = m.get((base, off))
        if r is not None:
            if r[1] == size:
                return r[0]
            if type(r[0]) is int and size < r[1]:
                return sx(r[0], size * 8)
            if size < r[1]:
                return ("e", "lo", size, r[0])
        # overlapping smaller/larger cells
        for d in range(1, 16):
            q = m.get((base, off - d))
            if q is not None and q[1] > d:
                if type(q[0]) is int and d + size <= q[1]:
                    return sx((q[0] & ((1 << (8 * q[1])) - 1)) >> (8 * d), size * 8)
                return self.fresh(st, "part", base, off, size, site)
        if r is not None:
            # cell smaller than the load: combine constants if possible
            acc, p = 0, 0
            while p < size:
                q = m.get((base, off + p))
                if q is None or type(q[0]) is not int:
                    break
                acc |= (q[0] & ((1 << (8 * q[1])) - 1)) << (8 * p)
                p += q[1]
            if p == size:
                return sx(acc, 8 * size)
            return self.fresh(st, "part", base, off, size, site)
        if depth < 6:
            for (dobj, doff, n, sobj, soff) in st.copies:
                if dobj == base and doff <= off and off + size <= doff + n:
                    v = self.load(st, sobj, soff + (off - doff), size, ty, site, depth + 1)
                    m[(base, off)] = (v, size)
                    return v
        if base[0] == "G":
            g = self.p.globals.get(base[1])
            if g and g.get("const") and "init" in g:
                v = self.ginit(g["init"], off, size)
                if v is not None:
                    return v
        ver = st.ver.get(base)
        if base[0] == "A" and ver is None:
            v = UNDEF
        elif base[0] == "H" and ver is None:
            v = UNDEF
        else:
            if self.depthof(base) > 6:
                v = self.fresh(st, "deep", site, off)
            else:
                v = ("s", "ld", base, off, size, ver)
                st.seen.add(v)
        m[(base, off)] = (v, size)
        return v

    def depthof(self, v):
        n = 0
        while type(v) is tuple and v[0] == "s" and len(v) > 2 and v[1] == "ld":
            v = v[2]
            n += 1
        return n

    def ginit(self, init, off, size):
        if "c" in init:
            if off == 0:
                return init["c"]
        if "g" in init and off == 0:
            return ("P", ("G", self.p.aliases.get(init["g"], init["g"])), init.get("o", 0))
        if "z" in init:
            return 0
        if "str" in init:
            s = init["str"]
            b = [ord(c) for c in s]
            acc = 0
            for i in range(size):
                acc |= (b[off + i] if off + i < len(b) else 0) << (8 * i)
            return sx(acc, 8 * size)
        if "s" in init:
            for o, n, c in init["s"]:
                if o <= off < o + n:
                    return self.ginit(c, off - o, size)
        return None

    def store(self, st, base, off, size, v):
        m = st.mem
        # preserve earlier contents for copies
        for (dobj, doff, n, sobj, soff) in st.copies:
            if sobj == base and (base, off) not in m and soff <= off < soff + n:
                k = (dobj, doff + off - soff)
                if k not in m:
                    m[k] = (self.load(st, base, off, size), size)
        for d in range(1, 16):
            q = m.get((base, off - d))
            if q is not None and q[1] > d:
                del m[(base, off - d)]
                st.ver[base] = ("split", off - d, off)
        for d in range(1, size):
            if (base, off + d) in m:
                del m[(base, off + d)]
        r = m.get((base, off))
        if r is not None and r[1] > size:
            # upper part unknown now
            pass
        m[(base, off)] = (v, size)

    def havoc(self, st, base, site):
        for k in [k for k in st.mem if k[0] == base]:
            del st.mem[k]
        st.ver[base] = site
        if st.copies:
            st.copies = tuple(c for c in st.copies if c[0] != base and c[3] != base)

    def havoc_range(self, st, base, off, n, site):
        """Forget [off, off+n) of an object; what is known outside stays."""
        for (dobj, doff, m, sobj, soff) in st.copies:
            if dobj == base or sobj == base:
                return self.havoc(st, base, site)
        for k in [k for k in st.mem if k[0] == base and k[1] < off + n and k[1] + st.mem[k][1] > off]:
            del st.mem[k]
        st.ver[base] = site

    def reach(self, st, v, out):
        b, o = split(v)
        if type(b) is not tuple or b in out or b[0] == "u" or b[0] == "agg":
            return
        if b[0] == "e":
            for x in b[2:]:
                if type(x) is tuple:
                    self.reach(st, x, out)
            return
        if b[0] == "G":
            f = self.p.fns.get(b[1])
            if f is not None:
                return
            g = self.p.globals.get(b[1])
            if g and g.get("const"):
                return
        out.add(b)
        for (o2, off), (w, s) in list(st.mem.items()):
            if o2 == b and type(w) is tuple:
                self.reach(st, w, out)

    # ---- comparison --------------------------------------------------
    def kbits(self, st, v, d=0):
        """(mask of known bits, value)"""
        if type(v) is int:
            return (1 << 64) - 1, v & ((1 << 64) - 1)
        if d > 8 or type(v) is not tuple:
            return 0, 0
        if v in self.aligned:
            return 7, 0
        if v[0] == "P" and (v[1] in self.aligned or v[1][0] == "H"):
            return 7, v[2] & 7
        lo, hi = st.rng(v, "S") if v[0] in ("s", "P", "e") else (-INF, INF)
        if lo == hi:
            return (1 << 64) - 1, lo & ((1 << 64) - 1)
        if v[0] == "e":
            M = (1 << 64) - 1
            if v[1] == "and":
                m1, v1 = self.kbits(st, v[2], d + 1)
                m2, v2 = self.kbits(st, v[3], d + 1)
                ones = (m1 & v1) & (m2 & v2)
                zeros = (m1 & ~v1) | (m2 & ~v2)
                return (ones | zeros) & M, ones & M
            if v[1] == "or":
                m1, v1 = self.kbits(st, v[2], d + 1)
                m2, v2 = self.kbits(st, v[3], d + 1)
                ones = (m1 & v1) | (m2 & v2)
                zeros = (m1 & ~v1) & (m2 & ~v2)
                return (ones | zeros) & M, ones & M
            if v[1] == "shl" and type(v[3]) is int:
                m1, v1 = self.kbits(st, v[2], d + 1)
                k = v[3]
                return ((m1 << k) | ((1 << k) - 1)) & M, (v1 << k) & M
            if v[1] == "lshr" and type(v[3]) is int:
                m1, v1 = self.kbits(st, v[2], d + 1)
                k = v[3]
                w = v[4] if len(v) > 4 else 64
                if m1 & ((1 << w) - 1) == 0:
                    return 0, 0
                return ((m1 & ((1 << w) - 1)) >> k) | (M & ~((1 << max(0, w - k)) - 1)), (v1 & ((1 << w) - 1)) >> k
            if v[1] in ("icmp", "not1"):
                return M & ~1, 0
        ulo, uhi = st.rng(v, "U") if v[0] in ("s", "P", "e") else (0, INF)
        if uhi < (1 << 40):
            n = uhi.bit_length()
            return ((1 << 64) - 1) & ~((1 << n) - 1), 0
        return 0, 0

    SW = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
          "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
    NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
           "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}

    def cmp(self, st, pred, a, b, w=64):
        """True / False / None"""
        if a == UNDEF or b == UNDEF:
            return None
        if type(a) is int and type(b) is int:
            if pred[0] == "u":
                m = (1 << w) - 1
                a, b = a & m, b & m
            p = pred if pred in ("eq", "ne") else pred[1:]
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]
        if a == b and type(a) is tuple and a[0] != "u":
            return pred in ("eq", "ule", "uge", "sle", "sge")
        ab, ao = split(a)
        bb, bo = split(b)
        if ab == bb and type(ab) is tuple:
            p = pred if pred in ("eq", "ne") else pred[1:]
            return {"eq": ao == bo, "ne": ao != bo, "lt": ao < bo, "le": ao <= bo, "gt": ao > bo, "ge": ao >= bo}[p]
        if type(a) is int and type(b) is not int:
            return self.cmp(st, self.SW[pred], b, a, w)
        if type(b) is int:
            if is_obj(ab):
                if b == 0:
                    if pred in ("ne", "ugt"):
                        return True
                    if pred in ("eq", "ule"):
                        return False
                    if pred == "uge":
                        return True
                    if pred == "ult":
                        return False
                return None
            if type(a) is tuple and a[0] == "e" and a[1] in ("icmp", "not1") and b in (0, 1, -1):
                r = self.truth(st, a)
                if r is not None and pred in ("eq", "ne"):
                    return (r == (b != 0)) == (pred == "eq")
            lo, hi = st.rng(a, "S")
            if pred in ("eq", "ne"):
                if b < lo or b > hi or (b - ao) in st.ne(a):
                    return pred == "ne"
                if lo == hi == b:
                    return pred == "eq"
                ulo, uhi = st.rng(a, "U")
                if b >= 0 and (b > uhi or b < ulo) and ao == 0:
                    return pred == "ne"
                km, kv = self.kbits(st, a)
                if km and ((kv ^ b) & km):
                    return pred == "ne"
                if km == (1 << 64) - 1 and not ((kv ^ b) & km):
                    return pred == "eq"
                return None
            if pred[0] == "s":
                r = {"lt": (hi < b, lo >= b), "le": (hi <= b, lo > b), "gt": (lo > b, hi <= b), "ge": (lo >= b, hi < b)}[pred[1:]]
            else:
                ub = b & ((1 << w) - 1)
                ulo, uhi = st.rng(a, "U")
                if ao != 0 and lo < 0:
                    # wrapped arithmetic: only usable when the sum is known non-negative
                    return None
                r = {"lt": (uhi < ub, ulo >= ub), "le": (uhi <= ub, ulo > ub), "gt": (ulo > ub, uhi <= ub), "ge": (ulo >= ub, uhi < ub)}[pred[1:]]
            if r[0]:
                return True
            if r[1]:
                return False
            return None
        if is_obj(ab) and is_obj(bb):
            if pred == "eq":
                return False
            if pred == "ne":
                return True
            return None
        # two symbolic values
        if pred in ("eq", "ne"):
            la, ha = st.rng(a, "S")
            lb, hb = st.rng(b, "S")
            if ha < lb or hb < la:
                return pred == "ne"
        fam = "s" if pred[0] == "s" else "u"
        s = self.rel(st, a, b, fam)
        if s is None and pred in ("eq", "ne"):
            s = self.rel(st, a, b, "s")
        if s is not None:
            p = pred if pred in ("eq", "ne") else pred[1:]
            t = {"eq": {"="}, "ne": {"<", ">"}, "lt": {"<"}, "le": {"<", "="}, "gt": {">"}, "ge": {">", "="}}[p]
            if s <= t:
                return True
            if not (s & t):
                return False
        return None

    def rkey(self, a, b, fam):
        if repr(a) <= repr(b):
            return ("R", a, b, fam), False
        return ("R", b, a, fam), True

    def rel(self, st, a, b, fam):
        k, sw = self.rkey(a, b, fam)
        r = st.cons.get(k)
        if r is None:
            return None
        if sw:
            r = frozenset({"<": ">", ">": "<", "=": "="}[x] for x in r)
        return r

    def truth(self, st, v):
        """truth of an i1 value"""
        if type(v) is int:
            return bool(v & 1)
        if type(v) is tuple and v[0] == "e":
            if v[1] == "icmp":
                return self.cmp(st, v[2], v[3], v[4], v[5])
            if v[1] == "not1":
                r = self.truth(st, v[2])
                return None if r is None else not r
            if v[1] == "and":
                x, y = self.truth(st, v[2]), self.truth(st, v[3])
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            if v[1] == "or":
                x, y = self.truth(st, v[2]), self.truth(st, v[3])
                if x or y:
                    return True
                if x is False and y is False:
                    return False
        if type(v) is tuple and v[0] in ("s", "P", "e"):
            lo, hi = st.rng(v, "S")
            if lo == hi:
                return bool(lo & 1)
            if 0 in st.ne(v):
                return True
        return None

    def assume(self, st, v, t):
        """Refine st with (v is t). False when infeasible."""
        cur = self.truth(st, v)
        if cur is not None:
            return cur == t
        if type(v) is tuple and v[0] == "e":
            if v[1] == "icmp":
                return self.assume_cmp(st, v[2] if t else self.NEG[v[2]], v[3], v[4], v[5])
            if v[1] == "not1":
                return self.assume(st, v[2], not t)
            if v[1] == "and" and t:
                return self.assume(st, v[2], True) and self.assume(st, v[3], True)
            if v[1] == "or" and not t:
                return self.assume(st, v[2], False) and self.assume(st, v[3], False)
        if type(v) is tuple and v[0] in ("s", "P", "e"):
            if t:
                return st.setne(v, 0)
            return st.setrng(v, 0, 0)
        return True

    def assume_cmp(self, st, pred, a, b, w=64):
        if a == UNDEF or b == UNDEF:
            return True
        if type(a) is int and type(b) is not int:
            return self.assume_cmp(st, self.SW[pred], b, a, w)
        if type(b) is int:
            ab, ao = split(a)
            if is_obj(ab):
                return True
            if pred == "eq":
                if type(a) is tuple and a[0] == "e" and a[1] in ("icmp", "not1") and b in (0, 1, -1):
                    if not self.assume(st, a, b != 0):
                        return False
                    return True
                if type(a) is tuple and a[0] == "e" and a[1] == "select" and type(a[3]) is int and type(a[4]) is int:
                    if a[3] == b and a[4] != b:
                        return self.assume(st, a[2], True)
                    if a[4] == b and a[3] != b:
                        return self.assume(st, a[2], False)
                if not st.setrng(a, b, b):
                    return False
                if b >= 0:
                    return st.setrng(a, b, b, "U")
                return True
            if pred == "ne":
                if type(a) is tuple and a[0] == "e" and a[1] in ("icmp", "not1") and b in (0, 1, -1):
                    return self.assume(st, a, b == 0)
                if type(a) is tuple and a[0] == "e" and a[1] == "select" and type(a[3]) is int and type(a[4]) is int:
                    if a[3] == b and a[4] != b:
                        return self.assume(st, a[2], False)
                    if a[4] == b and a[3] != b:
                        return self.assume(st, a[2], True)
                return st.setne(a, b)
            fam = "S" if pred[0] == "s" else "U"
            c = b if fam == "S" else b & ((1 << w) - 1)
            if fam == "U" and ao != 0:
                lo, hi = st.rng(a, "S")
                if lo < 0:
                    if not self.IDEAL:
                        return True
                    fam = "S"
            p = pred[1:]
            if p == "lt":
                return st.setrng(a, -INF if fam == "S" else 0, c - 1, fam)
            if p == "le":
                return st.setrng(a, -INF if fam == "S" else 0, c, fam)
            if p == "gt":
                if fam == "U" and c == 0:
                    if not st.setne(a, 0):
                        return False
                return st.setrng(a, c + 1, INF, fam)
            if p == "ge":
                return st.setrng(a, c, INF, fam)
            return True
        # relation between symbols
        fam = "s" if pred[0] == "s" else "u"
        p = pred if pred in ("eq", "ne") else pred[1:]
        t = frozenset({"eq": "=", "ne": "<>", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[p])
        k, sw = self.rkey(a, b, fam)
        if sw:
            t = frozenset({"<": ">", ">": "<", "=": "="}[x] for x in t)
        cur = st.cons.get(k, frozenset("<=>"))
        n = cur & t
        if not n:
            return False
        if n != cur and self.LIN is not None and self.LIN(st, p, a, b):
            return False
        if n != cur:
            st.cons[k] = n
        if n == frozenset("="):
            # propagate ranges both ways
            for f in ("S", "U"):
                lo, hi = st.rng(a, f)
                if not st.setrng(b, lo, hi, f):
                    return False
                lo, hi = st.rng(b, f)
                if not st.setrng(a, lo, hi, f):
                    return False
        return True

    # ---- transfer ----------------------------------------------------
    def where(self, st, I=None):
        fr = st.top
        if I is None:
            I = fr.fn.bbs[fr.bb][min(fr.idx, len(fr.fn.bbs[fr.bb]) - 1)]
        return (fr.fn.file, I[3], fr.fn.qual)

    def site(self, st, I):
        return (st.top.ctx, I[1] if I[1] >= 0 else ("l", st.top.bb, st.top.idx))

    def step(self, st):
        self.steps += 1
        fr = st.top
        I = fr.fn.bbs[fr.bb][fr.idx]
        op = I[0]
        if op == "br":
            if len(I) == 5:
                return self.goto(st, I[4])
            v = self.val(st, I[4])
            t = self.truth(st, v)
            if t is not None:
                self.c.on_branch(self, st, I, v, t)
                st.trace = (st.trace, fr.fn.name, I[3], t)
                return self.goto(st, I[5] if t else I[6])
            o = st.copy()
            if self.assume(o, v, False):
                self.c.on_branch(self, o, I, v, False)
                o.trace = (o.trace, fr.fn.name, I[3], False)
                if self.goto(o, I[6]):
                    self.work.append(o)
            if self.assume(st, v, True):
                self.c.on_branch(self, st, I, v, True)
                st.trace = (st.trace, fr.fn.name, I[3], True)
                return self.goto(st, I[5])
            return None
        if op == "switch":
            v = self.val(st, I[4])
            if type(v) is int:
                tgt = I[5]
                for c, b in I[6]:
                    if c == v:
                        tgt = b
                        break
                st.trace = (st.trace, fr.fn.name, I[3], ("case", v))
                return self.goto(st, tgt)
            for c, b in I[6]:
                if self.cmp(st, "eq", v, c) is False:
                    continue
                o = st.copy()
                if self.assume_cmp(o, "eq", v, c):
                    o.trace = (o.trace, fr.fn.name, I[3], ("case", c))
                    if self.goto(o, b):
                        self.work.append(o)
            ok = True
            for c, b in I[6]:
                if not self.assume_cmp(st, "ne", v, c):
                    ok = False
                    break
            if ok:
                st.trace = (st.trace, fr.fn.name, I[3], "default")
                return self.goto(st, I[5])
            return None
        if op == "ret":
            v = self.val(st, I[4]) if len(I) > 4 else None
            return self.do_return(st, v)
        if op == "unreachable":
            return None
        if op == "call" or op == "invoke":
            return self.do_call(st, I)
        fr.idx += 1
        d = I[1]
        if op == "alloca":
            o = ("A", fr.ctx, d)
            for k in [k for k in st.mem if k[0] == o]:
                del st.mem[k]
            st.ver.pop(o, None)
            if st.copies:
                st.copies = tuple(c for c in st.copies if c[0] != o and c[3] != o)
            fr.env[d] = ("P", o, 0)
        elif op == "load":
            b, o = self.ptr(st, self.val(st, I[4]))
            if b is None or type(b) is not tuple or b == UNDEF or b[0] in ("agg",):
                fr.env[d] = self.fresh(st, "bad", fr.ctx, d)
            else:
                r = self.c.on_load(self, st, I, b, o, I[5])
                if self.c.ATOMICS and len(I) > 6 and I[6]:
                    r = self.fresh(st, "at", fr.ctx, d)
                    self.c.on_atomic(self, st, I, "load", I[6], b, o, r)
                if r is None:
                    if b[0] == "e" and b[1] in ("ptrx",) and not self.E_OBJECTS:
                        r = self.fresh(st, "elt", fr.ctx, d)
                    else:
                        r = self.load(st, b, o, I[5], I[2], (fr.ctx, d))
                if r == UNDEF and I[2][0] == "a":
                    r = UNDEF
                fr.env[d] = r
        elif op == "store":
            v = self.val(st, I[4])
            b, o = self.ptr(st, self.val(st, I[5]))
            if b is not None and type(b) is tuple and b != UNDEF:
                self.c.on_store(self, st, I, b, o, v, I[6])
                if self.c.ATOMICS and len(I) > 7 and I[7]:
                    self.c.on_atomic(self, st, I, "store", I[7], b, o, v)
                if b[0] == "e" and not (self.E_OBJECTS and b[1] == "ptrx"):
                    # unknown offset into some object: forget that object
                    for x in self.bases(b):
                        self.havoc(st, x, ("st", fr.ctx, fr.bb, fr.idx))
                elif type(v) is tuple and v[0] == "agg":
                    self.havoc(st, b, ("st", fr.ctx, fr.bb, fr.idx))
                else:
                    self.store(st, b, o, I[6], v)
        elif op == "getelementptr":
            b = self.val(st, I[4])
            off = I[5]
            for iv, sc in I[6]:
                x = self.val(st, iv)
                if type(x) is int:
                    off += x * sc
                else:
                    xb, xo = split(x)
                    off += xo * sc
                    b = self.addsym(st, b, xb, sc)
            fr.env[d] = mkp(b, off) if b != UNDEF else UNDEF
        elif op == "icmp":
            a, b = self.val(st, I[4]), self.val(st, I[5])
            w = bits_of(I[7])
            t = self.cmp(st, I[6], a, b, w)
            if t is not None:
                fr.env[d] = 1 if t else 0
            elif a == UNDEF or b == UNDEF:
                fr.env[d] = self.fresh(st, "und", fr.ctx, d)
            else:
                fr.env[d] = self.mkicmp(st, I[6], a, b, w)
        elif op == "select":
            c, a, b = self.val(st, I[4]), self.val(st, I[5]), self.val(st, I[6])
            t = self.truth(st, c)
            if t is not None:
                fr.env[d] = a if t else b
            elif a == b:
                fr.env[d] = a
            elif type(c) is tuple and c != UNDEF:
                if I[2] == "i1":
                    if b == 0:
                        fr.env[d] = ("e", "and", c, a)
                        return True
                    if a == 1:
                        fr.env[d] = ("e", "or", c, b)
                        return True
                o = st.copy()
                if self.assume(o, c, False):
                    o.top.env[d] = b
                    self.work.append(o)
                if self.assume(st, c, True):
                    fr.env[d] = a
                    return True
                return None
            else:
                fr.env[d] = self.fresh(st, "sel", fr.ctx, d)
        elif op in ("zext", "sext", "bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            v = self.val(st, I[4])
            if op == "zext":
                w = bits_of(I[5])
                if type(v) is int:
                    v &= (1 << w) - 1
                elif v != UNDEF and type(v) is tuple and v[0] in ("s", "P", "e"):
                    if v[0] == "e" and v[1] in ("icmp", "not1"):
                        pass
                    else:
                        lo, hi = st.rng(v, "S")
                        ulo, uhi = st.rng(v, "U")
                        if lo < 0 and w < 64:
                            if v[0] == "s" or v[0] == "e":
                                # treat as the unsigned reading of the same bits
                                if uhi > (1 << w) - 1 and v[0] == "s":
                                    st.setrng(v, 0, (1 << w) - 1, "U")
            elif op == "sext" and type(v) is int:
                v = sx(v, bits_of(I[5]))
            fr.env[d] = v
        elif op == "trunc":
            v = self.val(st, I[4])
            w = bits_of(I[2])
            if type(v) is int:
                v = sx(v, w) if w > 1 else v & 1
            elif type(v) is tuple and v[0] in ("s", "P", "e"):
                if w == 1:
                    if v[0] == "e" and v[1] in ("icmp", "not1"):
                        pass
                    else:
                        km, kv = self.kbits(st, v)
                        if km & 1:
                            v = kv & 1
                        elif v[0] == "e" and v[1] in ("and", "or", "lshr", "shl", "xor"):
                            v = self.mkicmp(st, "ne", ("e", "and", v, 1), 0, 64)
                else:
                    lo, hi = st.rng(v, "S")
                    if not (lo >= -(1 << (w - 1)) and hi < (1 << w)):
                        if v[0] == "s":
                            pass  # identity on opaque symbols (idealised integers)
                        else:
                            v = v
            fr.env[d] = v
        elif op == "extractvalue":
            v = self.val(st, I[4])
            r = None
            if type(v) is tuple and v[0] == "agg":
                for k, x in v[1]:
                    if list(k) == I[5]:
                        r = x
                        break
                else:
                    r = 0 if not v[1] else UNDEF
            elif type(v) is tuple and v[0] == "s":
                r = ("s", "xv", v, tuple(I[5]))
            fr.env[d] = r if r is not None else self.fresh(st, "xv", fr.ctx, d)
        elif op == "insertvalue":
            a, v = self.val(st, I[4]), self.val(st, I[5])
            items = dict(a[1]) if type(a) is tuple and a[0] == "agg" else {}
            items[tuple(I[6])] = v
            fr.env[d] = ("agg", tuple(sorted(items.items(), key=lambda t: t[0])))
        elif op == "atomicrmw":
            b, o = self.ptr(st, self.val(st, I[4]))
            size = max(1, bits_of(I[2]) // 8)
            if b is not None and type(b) is tuple and b != UNDEF:
                x = self.val(st, I[5])
                if self.c.ATOMICS:
                    old = self.fresh(st, "at", fr.ctx, d)
                    self.c.on_atomic(self, st, I, "rmw " + I[6], I[7], b, o, (x, old))
                else:
                    old = self.load(st, b, o, size, I[2], (fr.ctx, d))
                nv = self.binop(st, {"add": "add", "sub": "sub", "and": "and", "or": "or", "xor": "xor"}.get(I[6], "?"), old, x, bits_of(I[2])) if I[6] != "xchg" else x
                self.c.on_store(self, st, I, b, o, nv, size)
                self.store(st, b, o, size, nv)
                fr.env[d] = old
            else:
                fr.env[d] = self.fresh(st, "rmw", fr.ctx, d)
        elif op == "cmpxchg":
            b, o = self.ptr(st, self.val(st, I[4]))
            if self.c.ATOMICS:
                e, n = self.val(st, I[5]), self.val(st, I[6])
                s2 = st.copy()
                self.c.on_atomic(self, st, I, "cx ok", I[7], b, o, (e, n))
                fr.env[d] = ("agg", (((0,), e), ((1,), 1)))
                old = self.fresh(s2, "at", fr.ctx, d)
                if not (len(I) > 8 and I[8]) and type(e) is int:
                    s2.setne(old, e)
                self.c.on_atomic(self, s2, I, "cx no", I[7], b, o, (e, n))
                s2.top.env[d] = ("agg", (((0,), old), ((1,), 0)))
                self.work.append(s2)
                return True
            old = self.fresh(st, "cx", fr.ctx, d)
            ok = self.fresh(st, "cxok", fr.ctx, d)
            if b is not None and type(b) is tuple and b != UNDEF:
                self.havoc(st, b, ("cx", fr.ctx, d))
            fr.env[d] = ("agg", (((0,), old), ((1,), ok)))
        elif op == "fence":
            if self.c.ATOMICS:
                self.c.on_atomic(self, st, I, "fence", I[4], None, 0, None)
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, b = self.val(st, I[4]), self.val(st, I[5])
            fr.env[d] = self.binop(st, op, a, b, bits_of(I[2]), I)
        elif op == "phi":
            pass
        else:
            if d >= 0:
                fr.env[d] = self.fresh(st, op, fr.ctx, d)
        return True

    def bases(self, e):
        out = []
        stack = [e]
        while stack:
            x = stack.pop()
            if type(x) is not tuple:
                continue
            if x[0] == "P":
                x = x[1]
            if is_obj(x):
                out.append(x)
            elif x[0] == "e":
                stack.extend(x[2:])
            elif x[0] == "s":
                out.append(x)
        return out

    def addsym(self, st, b, x, sc):
        if b == UNDEF or x == UNDEF:
            return UNDEF
        lo, hi = st.rng(x, "S")
        if lo == hi:
            return mkp(b, lo * sc)
        if self.edepth(b) > self.EDEPTH or self.edepth(x) > self.EDEPTH:
            return self.fresh(st, "ptr", st.top.ctx, st.top.bb, st.top.idx)
        if type(x) is tuple and x[0] == "e" and x[1] == "sub" and x[3] == b and sc == 1:
            return x[2]
        bb, bo = split(b)
        return mkp(("e", "ptrx", bb if not is_obj(bb) else ("P", bb, 0), x, sc), bo)

    def edepth(self, v):
        if type(v) is not tuple or v[0] not in ("e", "P"):
            return 0
        return 1 + max([self.edepth(x) for x in v[1:]] + [0])

    def mkicmp(self, st, pred, a, b, w):
        if type(a) is int and type(b) is not int:
            a, b, pred = b, a, self.SW[pred]
        # boolean compared with 0/1
        if b == 0 and type(a) is tuple and a[0] == "e" and a[1] in ("icmp", "not1"):
            if pred == "ne":
                return a
            if pred == "eq":
                if a[1] == "not1":
                    return a[2]
                return ("e", "icmp", self.NEG[a[2]], a[3], a[4], a[5])
        # normalise x + k ? c for equality
        if type(b) is int and pred in ("eq", "ne"):
            ab, ao = split(a)
            if ao and not is_obj(ab):
                a, b = ab, b - ao
            # (x - y) == 0
            if b == 0 and type(a) is tuple and a[0] == "e" and a[1] == "sub":
                a, b = a[2], a[3]
        return ("e", "icmp", pred, a, b, w)

    def binop(self, st, op, a, b, w, I=None):
        if self.BITS and op in ("and", "or"):
            # part of a word is set while the rest has no value yet
            if a == UNDEF and b != UNDEF:
                a = ("s", "undefined bits")
            elif b == UNDEF and a != UNDEF:
                b = ("s", "undefined bits")
        if a == UNDEF or b == UNDEF:
            return UNDEF
        if type(a) is int and type(b) is int:
            m = (1 << w) - 1
            try:
                r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b,
                     "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b if b < 128 else 0,
                     "lshr": lambda: (a & m) >> b, "ashr": lambda: a >> b,
                     "udiv": lambda: (a & m) // (b & m), "sdiv": lambda: int(a / b),
                     "urem": lambda: (a & m) % (b & m), "srem": lambda: a - int(a / b) * b}[op]()
                return sx(r, w) if w > 1 else r & 1
            except (KeyError, ZeroDivisionError):
                return ("s", "opq")
        for x in (a, b):
            if type(x) is tuple and x[0] not in ("s", "P", "e"):
                return ("s", "opq")
        if op in ("and", "or") and type(b) is int and type(a) is tuple:
            q, o = split(a)
            if type(q) is tuple and (q in self.aligned or q[0] == "H") and w == 64:
                if op == "or" and 0 <= b < 8:
                    return mkp(q, o | b)
                if op == "and" and -8 <= b < 0:
                    return mkp(q, o & b)
        if op == "add":
            if type(b) is int:
                return mkp(a, b)
            if type(a) is int:
                return mkp(b, a)
            if type(a) is tuple and a[0] == "e" and a[1] == "sub" and a[3] == b:
                return a[2]
        if op == "sub":
            if type(b) is int:
                return mkp(a, -b)
            if a == b:
                return 0
            ab, ao = split(a)
            bb, bo = split(b)
            if ab == bb:
                return ao - bo
            if type(ab) is tuple and ab[0] == "e" and ab[1] == "ptrx":
                inner = ab[2]
                ib, io = split(inner)
                if ib == bb and ab[4] == 1:
                    return mkp(ab[3], ao + io - bo)
            if ao or bo:
                if self.edepth(ab) <= self.EDEPTH and self.edepth(bb) <= self.EDEPTH and not is_obj(ab) and not is_obj(bb):
                    return mkp(("e", "sub", ab, bb), ao - bo)
        if op == "xor" and w == 1 and (b == 1 or b == -1):
            if type(a) is tuple and a[0] == "e" and a[1] == "icmp":
                return ("e", "icmp", self.NEG[a[2]], a[3], a[4], a[5])
            if type(a) is tuple and a[0] == "e" and a[1] == "not1":
                return a[2]
            return ("e", "not1", a)
        if op == "mul":
            if b == 1:
                return a
            if b == 0 or a == 0:
                return 0
        if op == "and" and type(b) is int:
            if b == 0:
                return 0
            if b == -1:
                return a
            if type(a) is tuple and a[0] == "e" and a[1] == "and" and type(a[3]) is int:
                a, b = a[2], a[3] & b
            if type(a) is tuple and a[0] == "e" and a[1] == "or" and type(a[3]) is int and a[3] & b == 0:
                a = a[2]
                if type(a) is int:
                    return sx(a & b, w)
            if self.aligned and b < 0 and w == 64:
                km, kv = self.kbits(st, a)
                if ~b & ~km == 0 and kv & ~b == 0:
                    return a
        if op in ("or", "xor", "shl", "lshr", "ashr") and b == 0:
            return a
        if op in ("sdiv", "udiv") and b == 1:
            return a
        if op in ("and", "or") and a == b:
            return a
        if self.edepth(a) > self.EDEPTH + 1 or self.edepth(b) > self.EDEPTH + 1:
            return self.fresh(st, "bin", st.top.ctx, st.top.bb, st.top.idx)
        if op in ("add", "mul", "and", "or", "xor") and type(a) is int:
            a, b = b, a
        elif op in ("add", "mul", "xor") and repr(a) > repr(b) and type(b) is not int:
            a, b = b, a
        r = ("e", op, a, b) if op not in ("lshr",) else ("e", op, a, b, w)
        km, kv = self.kbits(st, r) if op in ("and", "or", "shl", "lshr") else (0, 0)
        M = (1 << 64) - 1
        if km == M:
            return sx(kv, 64)
        if op == "and" and type(b) is int and b >= 0:
            st.setrng(r, 0, b)
        if op in ("urem",) and type(b) is int and b > 0:
            st.setrng(r, 0, b - 1)
        return r

    # ---- calls -------------------------------------------------------
    def do_return(self, st, v):
        fr = st.top
        if len(st.frames) == 1:
            if fr.fn.ret == "i1" and getattr(self.c, "split_result", False) and type(v) is tuple and v != UNDEF and self.truth(st, v) is None:
                # a boolean result that is still a comparison: one state per outcome
                for t in (True, False):
                    s = st.copy()
                    if self.assume(s, v, t) and not self.c.impossible(s):
                        self.c.at_return(self, s, int(t))
                return None
            self.c.at_return(self, st, v)
            return None
        self.c.at_inlined_return(self, st, fr.fn, v, fr.dst)
        st.frames.pop()
        # stack objects of the frame die
        for k in [k for k in st.mem if k[0][0] == "A" and k[0][1] == fr.ctx]:
            del st.mem[k]
        for k in [k for k in st.ver if k[0] == "A" and k[1] == fr.ctx]:
            del st.ver[k]
        t = st.top
        if fr.dst is not None and fr.dst >= 0:
            t.env[fr.dst] = v if v is not None else UNDEF
        return True

    def target(self, st, I):
        """Resolve callee: (name or None, Fn or None)"""
        n = self.p.callee(I)
        if n is not None:
            return n, self.p.fns.get(n)
        v = self.val(st, I[4])
        if type(v) is tuple and v[0] == "P" and v[2] == 0 and v[1][0] == "G":
            n = self.p.aliases.get(v[1][1], v[1][1])
            return n, self.p.fns.get(n)
        return None, None

    def do_call(self, st, I):
        fr = st.top
        self.calls_seen += 1
        name, fn = self.target(st, I)
        args = [self.val(st, a) for a in I[5]]
        d = I[1]
        # client first
        fr.idx += 1
        r = self.c.call(self, st, name, fn, I, args)
        if r is not None:
            return self.finish(st, r, d)
        if name is not None:
            if name.startswith("llvm."):
                return self.intrinsic(st, name, I, args)
            if name in ("memcpy", "memmove", "memset"):
                return self.intrinsic(st, "llvm." + name, I, args)
        noret = "N" in (I[6] if len(I) > 6 else "") or (fn is not None and fn.noreturn)
        if noret and not (fn is not None and fn.bbs):
            self.c.at_noreturn(self, st, name, I)
            return None
        if fn is not None and fn.bbs and len(st.frames) < self.c.max_depth and \
                not any(f.fn is fn for f in st.frames) and self.c.should_inline(self, st, fn):
            nf = Frame(fn, fr.ctx + ((fr.fn.name, I[1] if I[1] >= 0 else (fr.bb, fr.idx)),), d)
            for i, a in enumerate(fn.args):
                nf.env[i] = args[i] if i < len(args) else UNDEF
                if a[2] == "byval" and i < len(args):
                    pass
            st.frames.append(nf)
            self.visited_fns.add(fn.name)
            self.c.at_enter(self, st, fn)
            return True
        return self.opaque_call(st, name, fn, I, args)

    def finish(self, st, r, d):
        first = None
        for i, (s, v) in enumerate(r):
            if d >= 0 and v is not None:
                s.top.env[d] = v
            if s is st:
                first = s
            else:
                self.work.append(s)
        return True if first is not None else None

    def opaque_call(self, st, name, fn, I, args):
        fr = st.top
        d = I[1]
        site = ("call", fr.ctx, d if d >= 0 else (fr.bb, fr.idx))
        rv = self.c.opaque(self, st, name, fn, I, args)
        if not (name in PURE_EXTERN or self.c.pure(self, name, fn)):
            out = set()
            part = []
            for i, a in enumerate(args):
                if type(a) is not tuple:
                    continue
                n = 0
                if fn is not None and i < len(fn.args) and fn.scope:
                    # a member function reaches its own object through 'this'
                    if fn.args[i][1] == "this" or (i == 1 and fn.args[0][2] == "sret" and fn.args[1][1] == "this"):
                        t = self.p.types.get(fn.scope)
                        n = t["size"] if t and t.get("size") else 0
                b, o = split(a)
                if n and type(b) is tuple and b[0] in ("A", "H", "G", "s"):
                    part.append((b, o, n))
                    for (o2, off), (w, sz) in list(st.mem.items()):
                        if o2 == b and o <= off < o + n and type(w) is tuple:
                            self.reach(st, w, out)
                else:
                    self.reach(st, a, out)
            for b, o, n in part:
                if b not in out:
                    self.havoc_range(st, b, o, n, site)
            for b in out:
                self.havoc(st, b, site)
            # mutable globals may change as well
            for g in {k[0] for k in st.mem if k[0][0] == "G"} - out:
                gg = self.p.globals.get(g[1])
                if not (gg and gg.get("const")) and self.c.clobbers(self, st, name, fn, g):
                    self.havoc(st, g, site)
        if d >= 0:
            if rv is None:
                rv = self.fresh(st, "call", name or "?", fr.ctx, d)
                if I[2][0] == "i" and I[2] != "i1":
                    pass
            fr.env[d] = rv
        return True

    def intrinsic(self, st, name, I, args):
        fr = st.top
        d = I[1]
        base = name.split(".")[1]
        if base in ("trap", "debugtrap", "ubsantrap"):
            self.c.at_noreturn(self, st, name, I)
            return None
        if base in ("memcpy", "memmove"):
            db, do = self.ptr(st, args[0])
            sb, so = self.ptr(st, args[1])
            n = args[2]
            if type(db) is tuple and db != UNDEF:
                if type(sb) is tuple and sb != UNDEF and type(n) is int and db[0] != "e" and sb[0] != "e":
                    cells = {k: v for k, v in st.mem.items() if k[0] == sb and so <= k[1] and k[1] + v[1] <= so + n}
                    self.c.on_store(self, st, I, db, do, ("memcpy", sb, so, n), n)
                    for k in [k for k in st.mem if k[0] == db and do <= k[1] < do + n]:
                        del st.mem[k]
                    st.copies = tuple(c for c in st.copies if not (c[0] == db and do <= c[1] and c[1] + c[2] <= do + n))
                    if sb != db:
                        st.copies = st.copies + ((db, do, n, sb, so),)
                    for k, v in cells.items():
                        st.mem[(db, do + k[1] - so)] = v
                else:
                    self.c.on_store(self, st, I, db, do, ("memcpy", sb, so, n), n)
                    for x in (self.bases(db) if db[0] == "e" else [db]):
                        self.havoc(st, x, ("mcpy", fr.ctx, fr.bb, fr.idx))
            if d >= 0:
                fr.env[d] = args[0]
            return True
        if base == "memset":
            db, do = self.ptr(st, args[0])
            n = args[2]
            if type(db) is tuple and db != UNDEF:
                self.c.on_store(self, st, I, db, do, ("memset", args[1], n), n)
                if db[0] != "e" and type(n) is int and args[1] == 0 and n <= 4096:
                    for k in [k for k in st.mem if k[0] == db and do <= k[1] < do + n]:
                        del st.mem[k]
                    st.copies = tuple(c for c in st.copies if not (c[0] == db and do <= c[1] and c[1] + c[2] <= do + n))
                    st.copies = st.copies + ((db, do, n, ("G", "<zero>"), 0),)
                else:
                    for x in (self.bases(db) if db[0] == "e" else [db]):
                        self.havoc(st, x, ("mset", fr.ctx, fr.bb, fr.idx))
            if d >= 0:
                fr.env[d] = args[0]
            return True
        if base == "expect":
            fr.env[d] = args[0]
            return True
        if base in ("assume", "dbg", "va_start", "va_end", "stacksave", "stackrestore", "prefetch"):
            if d >= 0:
                fr.env[d] = self.fresh(st, "intr", fr.ctx, d)
            return True
        if base in ("umin", "umax", "smin", "smax", "abs", "ctlz", "cttz", "bswap"):
            fr.env[d] = self.fresh(st, "intr", fr.ctx, d)
            return True
        if base in ("umul", "uadd", "smul", "sadd", "usub", "ssub"):
            op = base[1:]
            v = self.binop(st, op, args[0], args[1], 64)
            fr.env[d] = ("agg", (((0,), v), ((1,), 0)))
            return True
        if d >= 0:
            fr.env[d] = self.fresh(st, "intr", fr.ctx, d)
        return True


def trace_lines(st, prog, n=12):
    out = []
    t = st.trace
    while t is not None and len(out) < n:
        out.append("%s:%d=%s" % (prog.fns[t[1]].short or t[1], t[2], t[3]))
        t = t[0]
    return list(reversed(out))
