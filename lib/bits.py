"""Abstract interpreter over the LLVM IR whose values are vectors of bits: 0, 1, an input bit or a negated input bit.
Where a branch, an address or a carry depends on an input bit, the set of inputs is divided on that bit and both halves are
followed, so that the result covers every input; no input is ever chosen and no solver is asked."""
import re


class Split(Exception):
    def __init__(self, var):
        self.var = var


class Stop(Exception):
    """The program does not continue (assertion, abort)."""


class Fault(Exception):
    """Memory outside an object, an unset bit that decides something, ..."""


class Unknown(Exception):
    """A construct the domain has no transfer function for."""


def width(t):
    if t in ("p", "ptr"):
        return 64
    m = re.match(r"i(\d+)$", t)
    if not m:
        raise Unknown("type " + t)
    return int(m.group(1))


def const(v, w):
    return tuple((v >> i) & 1 for i in range(w))


def isval(b):
    return b is not None and b in (0, 1)


def cval(bits):
    """The number, or None when some bit is an input bit."""
    r = 0
    for i, b in enumerate(bits):
        if b is None:
            raise Fault("decides on a value that was never set")
        if b not in (0, 1):
            return None
        r |= b << i
    return r


def var(b):
    return abs(b)


def inv(b):
    return None if b is None else 1 - b if b in (0, 1) else -b


def b_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    if a is None or b is None:
        return None
    if a == -b:
        return 0
    raise Split(var(a))


def b_or(a, b):
    return inv(b_and(inv(a), inv(b)))


def b_xor(a, b):
    if a is None or b is None:
        return None
    if a in (0, 1):
        return b if a == 0 else inv(b)
    if b in (0, 1):
        return a if b == 0 else inv(a)
    if a == b:
        return 0
    if a == -b:
        return 1
    raise Split(var(a))


def add(a, b, c=0):
    out = []
    for x, y in zip(a, b):
        if x is None or y is None:
            out.append(None)
            c = None
            continue
        if c is None:
            out.append(None)
            continue
        out.append(b_xor(b_xor(x, y), c))
        c = b_or(b_and(x, y), b_and(c, b_or(x, y)))
    return tuple(out)


class Sum(tuple):
    """Input bits plus a number: a sum whose carries are not resolved yet. (bits with zeros for constants, number)"""


def parts(v):
    if isinstance(v, Sum):
        return v
    return tuple(0 if b in (0, 1) else b for b in v), sum(1 << i for i, b in enumerate(v) if b == 1)


def resolve(v):
    if not isinstance(v, Sum):
        return v
    return add(v[0], const(v[1], len(v[0])))


def lazy_add(a, b, c=0):
    """a + b + c; where the carries would depend on the input, the constants are collected first."""
    try:
        if not isinstance(a, Sum) and not isinstance(b, Sum):
            return add(a, b, c)
    except Split:
        pass
    (x, m), (y, n) = parts(a), parts(b)
    w = len(x)
    if None in x or None in y or any(p != 0 and q != 0 for p, q in zip(x, y)):
        return add(resolve(a), resolve(b), c)
    t = tuple(q if p == 0 else p for p, q in zip(x, y))
    k = (m + n + c) & ((1 << w) - 1)
    try:
        return add(t, const(k, w))
    except Split:
        return Sum((t, k))


def need(bits):
    """The number; divides the inputs on the highest input bit if there is one."""
    v = cval(bits)
    if v is None:
        for b in reversed(bits):
            if b not in (0, 1):
                raise Split(var(b))
    return v


class Machine:
    def __init__(self, prog, steps=200000):
        self.p = prog
        self.mem = {}          # object -> list of byte cells: (tuple of 8 bits) | ("p", pointer, i) | None
        self.n = 0
        self.left = steps
        self.entered = set()
        self.gl = {}
        self.intr = {}

    # memory ---------------------------------------------------------------
    def new(self, size, kind="obj", cells=None):
        self.n += 1
        o = (kind, self.n)
        self.mem[o] = list(cells) if cells is not None else [None] * size
        return ("P", o, 0)

    def glob(self, g):
        if g in self.gl:
            return self.gl[g]
        j = self.p.globals.get(g)
        if j is None:
            raise Unknown("global " + g)
        size = j.get("size") or 0
        cells = []

        def put(off, c, sz):
            while len(cells) < off + sz:
                cells.append((0,) * 8)
            if "c" in c:
                for i in range(sz):
                    cells[off + i] = const((c["c"] >> (8 * i)) & 255, 8)
            elif "g" in c:
                for i in range(8):
                    cells[off + i] = ("p", ("G", c["g"], c.get("o", 0)), i)
        init = j.get("init") or {}
        for o, n, c in init.get("s", []):
            put(o, c, n if "c" in c else 8)
        if "b" in init:
            for i, ch in enumerate(bytes.fromhex(init["b"])):
                put(i, {"c": ch}, 1)
        if size and len(cells) < size:
            cells += [(0,) * 8] * (size - len(cells))
        self.n += 1
        o = ("global " + g, self.n)
        self.mem[o] = cells
        self.gl[g] = o
        return o

    def at(self, p, n, what):
        if p[0] != "P":
            if p[0] == "G":
                o = self.glob(p[1])
                p = ("P", o, p[2])
            else:
                raise Fault("%s through a pointer that points nowhere" % what)
        m = self.mem.get(p[1])
        if m is None:
            raise Fault("%s of memory that was released" % what)
        if p[2] < 0 or p[2] + n > len(m):
            raise Fault("%s outside the %d bytes of the buffer" % (what, len(m)))
        return m, p[2]

    def load(self, p, size, ty):
        m, o = self.at(p, size, "read")
        cs = m[o:o + size]
        if ty in ("p", "ptr") or (size == 8 and cs and isinstance(cs[0], tuple) and cs[0][0] == "p"):
            if all(isinstance(c, tuple) and c[0] == "p" and c[2] == i and c[1] == cs[0][1] for i, c in enumerate(cs)):
                return cs[0][1]
            if any(c is None or (isinstance(c, tuple) and c[0] == "p") for c in cs):
                return ("undef",)
            b = sum(cs, ())
            if cval(b) == 0:
                return ("null",)
            return ("int", b)
        w = width(ty)
        out = ()
        for c in cs:
            out += (None,) * 8 if c is None or c[0] == "p" else c
        return out[:w]

    def store(self, p, v, size):
        m, o = self.at(p, size, "write")
        if isinstance(v, dict):
            raise Unknown("aggregate store")
        if v and v[0] in ("P", "G", "F"):
            for i in range(size):
                m[o + i] = ("p", v, i)
            return
        if v and v[0] == "null":
            v = (0,) * 64
        if v and v[0] == "undef":
            v = (None,) * (8 * size)
        if v and v[0] == "int":
            v = v[1]
        v = tuple(v) + (0,) * (8 * size - len(v))
        for i in range(size):
            c = v[8 * i:8 * i + 8]
            m[o + i] = None if all(b is None for b in c) else c

    # execution --------------------------------------------------------------
    def val(self, env, o, w=None, raw=False):
        if isinstance(o, int):
            if o not in env:
                raise Fault("value never set")
            v = env[o]
            return v if raw else resolve(v)
        if "c" in o:
            if w is None:
                return ("k", o["c"])
            if w == "ptr":
                return ("null",) if o["c"] == 0 else ("int", const(o["c"], 64))
            return const(o["c"], w)
        if "g" in o:
            g = self.p.aliases.get(o["g"], o["g"])
            return ("G", g, o.get("o", 0))
        if "u" in o:
            return ("undef",) if w in (None, "ptr") else (None,) * w
        if "z" in o:
            return ("null",) if w == "ptr" else {}
        raise Unknown("operand")

    def ptr(self, v):
        if isinstance(v, tuple) and v and v[0] in ("P", "G"):
            return v
        if isinstance(v, tuple) and v and v[0] == "k" and v[1] == 0:
            return ("null",)
        return ("null",) if not (isinstance(v, tuple) and v and v[0] == "F") else v

    def ty(self, t):
        return "ptr" if t in ("p", "ptr") else width(t) if re.match(r"i\d+$", t) else None

    def run(self, fn, args, depth=0):
        if depth > 40:
            raise Unknown("recursion")
        self.entered.add(fn.qual)
        env = dict(enumerate(args))
        frame = []
        bb, prev, i = 0, None, 0
        while True:
            blk = fn.bbs[bb]
            if i == 0:
                ph = []
                for I in blk:
                    if I[0] != "phi":
                        break
                    for v, b in I[4]:
                        if b == prev:
                            ph.append((I[1], self.val(env, v, self.ty(I[2]))))
                            break
                    i += 1
                for d, v in ph:
                    env[d] = v
            I = blk[i]
            i += 1
            self.left -= 1
            if self.left < 0:
                raise Fault("does not come to an end")
            op = I[0]
            if op == "br":
                prev = bb
                if len(I) == 5:
                    bb = I[4]
                else:
                    bb = I[5] if need(self.val(env, I[4], 1)[:1]) else I[6]
                i = 0
            elif op == "switch":
                v = self.val(env, I[4], 64)
                w = len(v)
                prev, t = bb, I[5]
                n = need(v)
                for c, b in I[6]:
                    if c & ((1 << w) - 1) == n:
                        t = b
                bb, i = t, 0
            elif op == "ret":
                for o in frame:
                    self.mem.pop(o, None)
                return self.val(env, I[4], self.ty(fn.ret)) if len(I) > 4 else None
            elif op == "unreachable":
                raise Stop()
            elif op in ("call", "invoke"):
                r = self.call(env, I, depth)
                if I[1] >= 0:
                    env[I[1]] = r
                if op == "invoke":
                    raise Unknown("invoke")
            else:
                env[I[1]] = self.inst(env, I, op, frame)

    def inst(self, env, I, op, frame):
        if op == "alloca":
            p = self.new(I[4], "local")
            frame.append(p[1])
            return p
        if op == "load":
            return self.load(self.ptr(self.val(env, I[4], "ptr")), I[5], I[2])
        if op == "store":
            self.store(self.ptr(self.val(env, I[5], "ptr")), self.val(env, I[4], 8 * I[6]), I[6])
            return None
        if op == "getelementptr":
            b = self.ptr(self.val(env, I[4], "ptr"))
            off = I[5]
            for iv, sc in I[6]:
                x = self.val(env, iv, 64)
                n = need(x)
                if n >> (len(x) - 1):
                    n -= 1 << len(x)
                off += n * sc
            if b[0] == "P":
                return ("P", b[1], b[2] + off)
            if b[0] == "G":
                return ("G", b[1], b[2] + off)
            if off == 0:
                return b
            return ("int", const(off, 64))
        if op == "icmp":
            return (self.icmp(env, I),)
        if op == "select":
            c = self.val(env, I[4], 1)
            t = self.ty(I[2])
            a, b = self.val(env, I[5], t), self.val(env, I[6], t)
            if a == b:
                return a
            return a if need(c[:1]) else b
        if op in ("zext", "sext", "trunc"):
            v = self.val(env, I[4], 64)
            w = width(I[2])
            if op == "trunc":
                return v[:w]
            return tuple(v) + ((0,) if op == "zext" else (v[-1],)) * (w - len(v))
        if op in ("bitcast", "freeze"):
            return self.val(env, I[4], self.ty(I[2]))
        if op == "ptrtoint":
            return self.val(env, I[4], "ptr")
        if op == "inttoptr":
            return self.val(env, I[4], 64)
        if op == "extractvalue":
            v = self.val(env, I[4])
            k = tuple(I[5])
            if isinstance(v, dict):
                return v.get(k, ("undef",))
            return ("undef",)
        if op == "insertvalue":
            v = self.val(env, I[4])
            d = dict(v) if isinstance(v, dict) else {}
            x = self.val(env, I[5])
            d[tuple(I[6])] = x
            return d
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            w = width(I[2])
            raw = op in ("add", "sub")
            return self.arith(op, self.val(env, I[4], w, raw), self.val(env, I[5], w, raw), w)
        raise Unknown(op)

    def arith(self, op, a, b, w):
        if isinstance(a, Sum) or isinstance(b, Sum):
            if op == "add":
                return lazy_add(a, b)
            b = resolve(b)
            if isinstance(a, Sum) and not (b and b[0] in ("P", "G", "null", "undef", "int")):
                return lazy_add(a, tuple(map(inv, b)), 1)
            a = resolve(a)
        pa, pb = a and a[0] in ("P", "G", "null", "undef", "int"), b and b[0] in ("P", "G", "null", "undef", "int")
        if pa or pb:
            if op == "sub" and pa and pb and a[0] == b[0] and a[0] in ("P", "G") and a[1] == b[1]:
                return const(a[2] - b[2], w)
            if op == "sub" and a == b == ("null",):
                return const(0, w)
            if op in ("add", "sub") and a[0] in ("P", "G") and not pb:
                n = need(b)
                if n >> (w - 1):
                    n -= 1 << w
                return (a[0], a[1], a[2] + (n if op == "add" else -n))
            raise Unknown("pointer " + op)
        if op == "and":
            return tuple(map(b_and, a, b))
        if op == "or":
            return tuple(map(b_or, a, b))
        if op == "xor":
            return tuple(map(b_xor, a, b))
        if op == "add":
            return lazy_add(a, b)
        if op == "sub":
            return lazy_add(a, tuple(map(inv, b)), 1)
        if op in ("shl", "lshr", "ashr"):
            n = need(b)
            if n >= w:
                return (None,) * w
            if op == "shl":
                return (0,) * n + tuple(a[:w - n])
            return tuple(a[n:]) + ((0,) if op == "lshr" else (a[-1],)) * n
        x, y = cval(a), cval(b)
        if op == "mul":
            if x is not None:
                a, b, x, y = b, a, y, x
            if y is None:
                y = need(b)
            r = (0,) * w
            for i in range(w):
                if (y >> i) & 1:
                    r = add(r, ((0,) * i + tuple(a))[:w])
            return r
        if y is not None and y and (y & (y - 1)) == 0 and op in ("udiv", "urem"):
            k = y.bit_length() - 1
            return tuple(a[k:]) + (0,) * k if op == "udiv" else tuple(a[:k]) + (0,) * (w - k)
        x, y = need(a), need(b)
        if y == 0:
            raise Fault("division by zero")
        if op[0] == "s":
            sx, sy = x - (1 << w) if x >> (w - 1) else x, y - (1 << w) if y >> (w - 1) else y
            q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
            return const(q if op == "sdiv" else sx - q * sy, w)
        return const(x // y if op == "udiv" else x % y, w)

    def icmp(self, env, I):
        pred = I[6]
        t = self.ty(I[7])
        a, b = self.val(env, I[4], t), self.val(env, I[5], t)
        ap = a and a[0] in ("P", "G", "null", "undef", "int")
        bp = b and b[0] in ("P", "G", "null", "undef", "int")
        if ap or bp:
            if not ap and cval(a) == 0:
                a = ("null",)
            if not bp and cval(b) == 0:
                b = ("null",)
            if a[0] == "undef" or b[0] == "undef":
                raise Fault("decides on a pointer that was never set")
            if pred in ("eq", "ne"):
                return 1 if (a == b) == (pred == "eq") else 0
            if a[0] == b[0] and a[0] in ("P", "G") and a[1] == b[1]:
                x, y = a[2], b[2]
            else:
                raise Unknown("pointer comparison")
            return 1 if {"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[pred] else 0
        a, b = list(a), list(b)
        if any(x is None for x in a + b):
            raise Fault("decides on a value that was never set")
        if pred in ("eq", "ne"):
            hard = None
            for x, y in zip(reversed(a), reversed(b)):
                if x in (0, 1) and y in (0, 1):
                    if x != y:
                        return 0 if pred == "eq" else 1
                elif x == y:
                    pass
                elif x == -y:
                    return 0 if pred == "eq" else 1
                elif hard is None:
                    hard = x if x not in (0, 1) else y
            if hard is None:
                return 1 if pred == "eq" else 0
            if len(a) == 1:
                o = b[0] if a[0] not in (0, 1) else a[0]
                v = a[0] if a[0] not in (0, 1) else b[0]
                if o in (0, 1):
                    r = v if o == 1 else -v
                    return r if pred == "eq" else -r
            raise Split(var(hard))
        if pred[0] == "s":
            a[-1], b[-1] = inv(a[-1]), inv(b[-1])
        lo = [sum(1 << i for i, x in enumerate(v) if x == 1) for v in (a, b)]
        hi = [sum(1 << i for i, x in enumerate(v) if x != 0) for v in (a, b)]
        if pred[1:] in ("lt", "ge"):
            if hi[0] < lo[1] or lo[0] >= hi[1]:
                return int((hi[0] < lo[1]) == (pred[1:] == "lt"))
        elif hi[0] <= lo[1] or lo[0] > hi[1]:
            return int((hi[0] <= lo[1]) == (pred[1:] == "le"))
        for x, y in zip(reversed(a), reversed(b)):
            if x == y:
                continue
            if x in (0, 1) and y in (0, 1):
                lt = x < y
                return 1 if (pred[1:] in ("lt", "le")) == lt else 0
            raise Split(var(x) if x not in (0, 1) else var(y))
        return 1 if pred[1:] in ("le", "ge") else 0

    def call(self, env, I, depth):
        c = I[4]
        name = None
        if isinstance(c, dict) and "g" in c:
            name = self.p.aliases.get(c["g"], c["g"])
        elif isinstance(c, str):
            name = c
        else:
            v = self.ptr(self.val(env, c, "ptr"))
            if v[0] != "G":
                raise Fault("calls through a pointer that points nowhere")
            name = v[1]
        fn = self.p.fns.get(name)
        if fn is not None and fn.bbs:
            ops = [self.val(env, a, self.ty(fn.args[k][0]) if k < len(fn.args) else 64) for k, a in enumerate(I[5])]
        else:
            ops = [self.val(env, a, 64) for a in I[5]]
        if name in ("llvm.trap", "llvm.debugtrap", "abort", "exit", "_exit"):
            raise Stop()
        if name.startswith("llvm.") or name in ("memcpy", "memmove", "memset"):
            if "lifetime" in name or "dbg" in name or "assume" in name or "expect" in name:
                return ops[0] if "expect" in name else None
            if "memcpy" in name or "memmove" in name:
                n = need(ops[2])
                if n:
                    s, so = self.at(self.ptr(ops[1]), n, "read")
                    d, do = self.at(self.ptr(ops[0]), n, "write")
                    d[do:do + n] = s[so:so + n]
                return ops[0]
            if "memset" in name:
                n = need(ops[2])
                if n:
                    d, do = self.at(self.ptr(ops[0]), n, "write")
                    d[do:do + n] = [tuple(ops[1][:8])] * n
                return ops[0]
            m = re.match(r"llvm\.(umin|umax|smin|smax|bswap|abs)\.i(\d+)", name)
            if m:
                w = int(m.group(2))
                a = tuple(ops[0][:w])
                if m.group(1) == "bswap":
                    return sum((a[8 * k:8 * k + 8] for k in reversed(range(w // 8))), ())
                b = tuple(ops[1][:w])
                x, y = need(a), need(b)
                if m.group(1) == "abs":
                    return const(abs(x - (1 << w) if x >> (w - 1) else x), w)
                if m.group(1)[0] == "s":
                    x, y = x - (1 << w) if x >> (w - 1) else x, y - (1 << w) if y >> (w - 1) else y
                return a if (x < y) == (m.group(1)[1:] == "min") else b
            if "stacksave" in name or "stackrestore" in name:
                return ("null",)
            raise Unknown(name)
        if name in ("_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t"):
            return self.new(need(ops[0]), "heap")
        if name in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "free"):
            p = self.ptr(ops[0])
            if p[0] == "P":
                if p[1] not in self.mem:
                    raise Fault("releases memory twice")
                del self.mem[p[1]]
            return None
        if name == "bcmp" or name == "memcmp":
            n = need(ops[2])
            a, ao = self.at(self.ptr(ops[0]), n, "read")
            b, bo = self.at(self.ptr(ops[1]), n, "read")
            for k in range(n):
                x, y = need(a[ao + k]), need(b[bo + k])
                if x != y:
                    return const(-1 if x < y else 1, 32)
            return const(0, 32)
        if fn is not None and fn.noreturn or "N" in (I[6] if len(I) > 6 else ""):
            raise Stop()
        if name in self.intr:
            return self.intr[name](self, ops)
        if fn is None or not fn.bbs:
            raise Unknown("call of " + name)
        for k, a in enumerate(fn.args):
            if len(a) > 2 and a[2] == "byval" and k < len(ops):
                n = a[3] if len(a) > 3 else 4096
                s, so = self.at(self.ptr(ops[k]), 1, "read")
                ops[k] = self.new(0, "byval", s[so:])
        return self.run(fn, ops, depth + 1)


def subst(bits, asg):
    out = []
    for b in bits:
        if b is None or b in (0, 1) or var(b) not in asg:
            out.append(b)
        else:
            v = asg[var(b)]
            out.append(v if b > 0 else 1 - v)
    return tuple(out)


def explore(run, limit=1500):
    """run(assignment) for a division of the inputs; yields (assignment, outcome)."""
    work = [{}]
    n = 0
    while work:
        a = work.pop()
        n += 1
        if n > limit:
            raise Unknown("too many cases")
        try:
            yield a, run(a)
        except Split as s:
            if s.var in a:
                raise Unknown("split twice")
            for v in (1, 0):
                d = dict(a)
                d[s.var] = v
                work.append(d)
