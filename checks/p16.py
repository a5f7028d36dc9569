"""P16: characters survive encoding, decoding and conversion."""
import build, ir, bits, par
from bits import const, subst, Stop, Fault, Unknown, Split
from report import AnalysisError

T, I, V = 0, 1, 2
V0 = 2                      # numbers of input bits start here (0 and 1 are constants)
ENCS = ("utf8", "utf16le", "utf16be", "bytes")


def cubes(lo, hi):
    """Aligned blocks [base, base + 2**free) that make up [lo, hi)."""
    while lo < hi:
        k = 0
        while lo % (2 << k) == 0 and lo + (2 << k) <= hi:
            k += 1
        yield lo, k
        lo += 1 << k


POINTS = [c for r in ((0, 0x80), (0x80, 0x800), (0x800, 0xd800), (0xe000, 0x10000)) for c in cubes(*r)] + [(v << 16, 16) for v in range(1, 17)]


class Vars:
    def __init__(self):
        self.n = V0

    def bits(self, k):
        r = tuple(range(self.n, self.n + k))
        self.n += k
        return r


def point(vs, cube):
    base, k = cube
    return vs.bits(k) + const(base >> k, 32 - k)


def encode(enc, p):
    """The encoding standard, on bits: bytes of the character p, or None where the encoding has none."""
    hi = max([i for i in range(32) if p[i] != 0] + [-1])
    if enc == "bytes":
        return [p[:8]] if hi < 8 else None
    if enc == "utf8":
        def tail(i):
            return tuple(p[6 * i:6 * i + 6]) + (0, 1)
        if hi < 7:
            return [p[:8]]
        if hi < 11:
            return [tuple(p[6:11]) + (0, 1, 1), tail(0)]
        if hi < 16:
            return [tuple(p[12:16]) + (0, 1, 1, 1), tail(1), tail(0)]
        return [tuple(p[18:21]) + (0, 1, 1, 1, 1), tail(2), tail(1), tail(0)]
    if hi < 16:
        us = [p[:16]]
    else:
        q = bits.add(p, const(-0x10000, 32))
        us = [tuple(q[10:20]) + const(0xd800 >> 10, 6), tuple(q[:10]) + const(0xdc00 >> 10, 6)]
    out = []
    for u in us:
        b = [tuple(u[:8]), tuple(u[8:16])]
        out += b if enc == "utf16le" else b[::-1]
    return out


class Enough(Exception):
    """Enough violations (or constructs out of reach) to report."""


class Check:
    def __init__(self, rep, prog, asserts):
        self.rep, self.p, self.asserts = rep, prog, asserts
        self.cases = 0
        self.entered = set()
        self.seen = set()
        self.errors = []

    def fn(self, name):
        f = self.p.fns.get(name)
        if f is None or not f.bbs:
            raise AnalysisError("entry point %s vanished" % name)
        return f

    def where(self, name):
        """The function of the code base behind an entry point."""
        f = self.fn(name)
        for bb in f.bbs:
            for x in bb:
                if x[0] == "call" and isinstance(x[4], dict) and "g" in x[4]:
                    g = self.p.fns.get(self.p.aliases.get(x[4]["g"], x[4]["g"]))
                    if g is not None and g.file and "drivers" not in g.file and g.short not in ("put", "StringView", "MutableStringView", "get"):
                        return "%s:%d (%s)" % (g.file, g.line, g.qual)
        return f.file

    def bad(self, name, what, key):
        self.rep.violation("%s:%s" % (name, key), self.where(name), what)

    def over(self, name, mk, check, what):
        """mk(machine, assignment) -> (arguments, result reader); every case must satisfy check."""
        f = self.fn(name)

        def one(asg):
            m = bits.Machine(self.p)
            args, read = mk(m, lambda b: subst(b, asg))
            self.cases += 1
            try:
                r = m.run(f, args)
                out = ("ret", read(m, r))
            except Stop:
                out = ("stop", None)
            except Fault as e:
                out = ("fault", str(e))
            self.entered |= m.entered
            msg = check(out, lambda b: subst(b, asg))
            return msg
        try:
            for asg, msg in bits.explore(one):
                if msg:
                    key = (name, what, msg)
                    if key not in self.seen:
                        self.seen.add(key)
                        self.bad(name, "%s: %s" % (what, msg), msg)
                        if len(self.seen) > 12:
                            raise Enough()
                    return
        except Unknown as e:
            self.errors.append("%s: %s" % (name, e))
            if len(self.errors) > 20 or not self.seen and len(self.errors) > 5:
                raise Enough()

    # -------------------------------------------------------------------------
    def decode(self, name, data, want, what, needs=None):
        """data: bytes (bit tuples); want = (point bits or -1, status, number of bytes)."""
        def mk(m, sub):
            src = m.new(0, "input", [sub(b) for b in data])
            out = m.new(12, "result")
            return [src, const(len(data), 32), out], lambda m, r: [m.load(("P", out[1], o), 4, "i32") for o in (0, 4, 8)]

        def check(o, sub):
            if o[0] == "stop":
                return "does not return"
            if o[0] == "fault":
                return o[1]
            pt, st, nb = o[1]
            wp = const(-1, 32) if want[0] is None else sub(want[0])
            for got, exp, nm in ((st, const(want[1], 32), "status"), (nb, const(want[2], 32), "number of bytes"), (pt, wp, "character")):
                if tuple(got) != tuple(exp):
                    return "wrong " + nm
        self.over(name, mk, check, what)

    def encode(self, name, enc, p, data, room):
        def mk(m, sub):
            dst = m.new(room, "output")
            return [dst, const(room, 32), sub(p)], lambda m, r: (r, m.mem[dst[1]])

        def check(o, sub):
            if o[0] == "fault":
                return o[1]
            if room < len(data):
                return "stores part of a character" if o[0] == "ret" and bits.cval(o[1][0]) != 0 else None
            if o[0] == "stop":
                return "does not return"
            n, cells = o[1]
            if tuple(n) != const(len(data), 32):
                return "wrong number of bytes"
            for c, b in zip(cells, data):
                if c is None or tuple(c) != sub(b):
                    return "wrong bytes"
        self.over(name, mk, check, "encoding with room for %d bytes" % room)

    def number(self, name, args, want, what, buf=None):
        def mk(m, sub):
            a = [sub(x) for x in args]
            if buf is not None:
                a = [m.new(0, "input", [sub(b) for b in buf])] + a
            return a, lambda m, r: r

        def check(o, sub):
            if o[0] == "fault":
                return o[1]
            if o[0] == "stop":
                return "does not return"
            if callable(want):
                return want(bits.need(o[1]))
            if tuple(o[1]) != const(want, 32):
                return "wrong number of bytes"
        self.over(name, mk, check, what)

    def convert(self, name, data, s1, s2, room, want):
        def mk(m, sub):
            src = m.new(0, "input", [sub(b) for b in data])
            out = m.new(len(want) + room + 4, "output")
            return ([src, const(s1, 32), const(s2, 32), const(len(data), 32), const(room, 32), out], lambda m, r: (r, m.mem[out[1]]))

        def check(o, sub):
            if o[0] == "fault":
                return o[1]
            if o[0] == "stop":
                return "does not return"
            n, cells = o[1]
            if tuple(n) != const(len(want), 32):
                return "wrong amount of output"
            for c, b in zip(cells, want):
                if c is None or tuple(c) != sub(b):
                    return "wrong output"
        self.over(name, mk, check, "converting in pieces with room for %d bytes at a time" % room)


def units(enc):
    return 2 if enc.startswith("utf16") else 1


def encoding(c, enc):
    chars = 0
    ent = "vp_%s_" % enc
    u = units(enc)
    c.number(ent + "unit", [], u, "unit size")
    for cube in POINTS:
        vs = Vars()
        p = point(vs, cube)
        data = encode(enc, p)
        if data is None:
            continue
        chars += 1 << cube[1]
        k = len(data)
        for e in ("encode", "tencode"):
            for room in range(0, 6):
                c.encode(ent + e, enc, p, data, room)
        c.number(ent + "size", [p], k, "size of a character")
        for e in ("decode", "tdecode"):
            for extra in (0, 1, 4):
                c.decode(ent + e, data + [vs.bits(8) for _ in range(extra)], (p, V, k), "decoding a character")
            for j in range(u, k):
                first = data[0] if u == 1 else data[0] + data[1] if enc == "utf16le" else data[1] + data[0]
                c.decode(ent + e, data[:j], (tuple(first) + (0,) * (32 - len(first)), T, u), "decoding a character that is cut off")
        for before in (0, 1, 4) if u == 1 else (0, 2, 4):
            pre = [vs.bits(8) for _ in range(before)]
            c.number(ent + "back", [const(k + before, 32)], k, "stepping back over a character", pre + data)
    for e in ("decode", "tdecode"):
        for j in range(u):
            c.decode(ent + e, [Vars().bits(8) for _ in range(j)], (None, T, 0), "decoding too few bytes")
    # malformed input
    if enc == "utf8":
        for e in ("decode", "tdecode"):
            for lead in list(cubes(0x80, 0xc0)) + list(cubes(0xf8, 0x100)):
                for more in range(0, 5):
                    vs = Vars()
                    b = point(vs, lead)[:8]
                    c.decode(ent + e, [b] + [vs.bits(8) for _ in range(more)], (b + (0,) * 24, I, 1), "decoding a byte that begins no character")
            for lead, k in ((0xc0, 2), (0xe0, 3), (0xf0, 4)):
                for wrong in range(1, k):
                    for top in (0, 1, 3):
                        vs = Vars()
                        b = vs.bits(6 - k + 1) + const(lead >> (7 - k), 1 + k)
                        rest = [vs.bits(8) for _ in range(5)]
                        rest[wrong - 1] = vs.bits(6) + const(top, 2)
                        c.decode(ent + e, [b] + rest, (b + (0,) * 24, I, 1), "decoding a sequence with a wrong byte")
        for m in range(1, 6):
            vs = Vars()
            c.number(ent + "back", [const(m, 32)], lambda r, m=m: None if 1 <= r <= min(m, 4) else "steps out of the text",
                     "stepping back", [vs.bits(8) for _ in range(m)])
    if u == 2:
        for e in ("decode", "tdecode"):
            for base, nxt in ((0xdc00, None), (0xd800, "not low")):
                for low in ([None] if nxt is None else list(cubes(0, 0xdc00)) + list(cubes(0xe000, 0x10000))):
                    vs = Vars()
                    w = vs.bits(10) + const(base >> 10, 6)
                    ws = [w, vs.bits(16) if low is None else point(vs, low)[:16], vs.bits(16)]
                    data = []
                    for x in ws:
                        data += [x[:8], x[8:]] if enc == "utf16le" else [x[8:], x[:8]]
                    c.decode(ent + e, data, (w + (0,) * 16, I, 2), "decoding an unpaired surrogate")
    return chars


FEW = [(0x20, 5), (0x400, 10), (0x1000, 12), (0x10000, 16), (0x100000, 16)]
PAIRS = (("8_16le", "utf8", "utf16le"), ("8_16be", "utf8", "utf16be"), ("16le_8", "utf16le", "utf8"), ("16be_8", "utf16be", "utf8"),
         ("8_8", "utf8", "utf8"), ("b_8", "bytes", "utf8"))


def conversion(c, pair, tier):
    """One or two characters, cut anywhere (twice), any room; text that ends within a character; bytes that begin none."""
    nm, src, dst = pair
    few = FEW if src != "bytes" else [(0x80, 7), (0x20, 5)]
    firsts = few if src == "bytes" or tier != "thorough" else POINTS
    if src == "bytes":
        firsts = list(cubes(0, 0x80)) + list(cubes(0x80, 0x100))
    rooms = (1, 2, 3, 4, 5, 16) if tier == "thorough" else (1, 3, 4)

    def cuts(n):
        return [(i, j) for i in range(n + 1) for j in range(i, n + 1) if tier == "thorough" or j in (i, i + 1, i + 2, n)]
    for a in firsts:
        for b in [None] + few:
            vs = Vars()
            data, want, last = [], [], []
            for cube in (a, b):
                if cube:
                    p = point(vs, cube)
                    last = encode(src, p)
                    before = list(want)
                    data += last
                    want += encode(dst, p)
            for i, j in cuts(len(data)):
                for room in rooms:
                    c.convert("vp_conv_" + nm, data, i, j, room, want)
            if src == "utf8" and dst != "utf8":
                # the text ends within its last character: what is there is passed on byte by byte
                for keep in range(1, len(last)):
                    part = data[:len(data) - len(last) + keep]
                    w = list(before)
                    for x in last[:keep]:
                        w += encode(dst, tuple(x) + (0,) * 24)
                    for i, j in cuts(len(part)):
                        c.convert("vp_conv_" + nm, part, i, j, 3, w)
    if src == "utf8" and dst != "utf8":
        for lead in [(0x80, 6), (0xf8, 3)]:
            for more in range(0, 6):
                vs = Vars()
                data = [point(vs, lead)[:8]] + [vs.bits(7) + (0,) for _ in range(more)]
                want = [w for x in data for w in encode(dst, tuple(x) + (0,) * 24)]
                for i, j in cuts(len(data)):
                    c.convert("vp_conv_" + nm, data, i, j, 3, want)


def run(rep, tier):
    progs = {}
    for asserts in (1, 0):
        d, n = build.dump(["runtime"], drivers=["text.cpp"], asserts=asserts)
        progs[asserts] = ir.Program(d)
        rep.cover("translation units", n)
    jobs = [(a, k, x) for a in (1, 0) for k, x in [("conv", p) for p in PAIRS if a or tier == "thorough"] + [("enc", e) for e in ENCS[::-1]]]

    def job(j, r):
        asserts, kind, x = j
        c = Check(r, progs[asserts], asserts)
        chars = 0
        try:
            if kind == "enc":
                chars = encoding(c, x)
            else:
                conversion(c, x, tier)
        except Enough:
            pass
        return c.cases, sorted(c.entered), chars, c.errors
    res = par.each(rep, jobs, job)
    errors = [e for r in res for e in r[3]]
    if errors and not rep.v:
        raise AnalysisError(errors[0])
    rep.cover("functions entered", len({f for r in res for f in r[1]}))
    rep.cover("characters covered", sum(r[2] for r in res))
    rep.require("cases", sum(r[0] for r in res), 2000)
    rep.assumptions = ["the encoding tables are not modified at run time", "sequences that spell a character in more bytes than needed are outside"]
    return rep.finish("abstract interpretation of the LLVM IR of encoders, decoders and converters over vectors of input bits: for every block of "
                      "characters, every cut and every room, the resulting bits equal those of the encoding standard")
