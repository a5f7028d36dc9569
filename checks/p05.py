"""P05: input is delivered completely, once and in order."""
import build, ir, absint, clients, par, lin
from absint import UNDEF, split, mkp
from report import AnalysisError
from p04 import Base, runner, ARG

MAXREAD = 3


def sub(a, b):
    return lin.add(lin.lin(a), lin.lin(b), -1)


class Source(Base):
    """A modelled pipe: readSome() delivers 1..n bytes, or 0 at the end."""
    RS, DE = ("G", "<pipe readSome>"), ("G", "<pipe destroy>")

    def __init__(self, prog, rep, root, tag, cfg):
        super().__init__(prog, rep, root, tag)
        self.cfg = cfg
        self.events = 0

    def mkpipe(self, eng, st, Q):
        QF = ("s", "pipefuncs")
        PF = "ply::InPipe::Funcs"
        st.setne(Q, 0)
        eng.store(st, Q, self.p.field("ply::InPipe", "funcs"), 8, QF)
        for n, g in (("readSome", self.RS), ("destroy", self.DE)):
            eng.store(st, QF, self.p.field(PF, n), 8, ("P", g, 0))

    # maps: (base address, length, logical position of the first byte), newest first
    def pos(self, st, addr, n, fx, maps=None):
        """linear form of the logical position of addr, when [addr, addr+n) was delivered; else None"""
        for b, l, p in (maps or st.ts["g_maps"]):
            d = sub(addr, b)
            if lin.nonneg(st, d, fx) and lin.nonneg(st, lin.add(lin.add(lin.lin(l), d, -1), lin.lin(n), -1), fx):
                return lin.add(lin.lin(p), d)
        return None

    def addmap(self, eng, st, at, k, p):
        fx = lin.facts(st)
        ms = st.ts["g_maps"]
        for i, (b, l, q) in enumerate(ms):
            if lin.is_zero(st, lin.add(sub(at, b), lin.lin(l), -1), fx) and lin.is_zero(st, lin.add(sub(p, q), lin.lin(l), -1), fx):
                st.ts["g_maps"] = ((b, eng.binop(st, "add", l, k, 64), q),) + ms[:i] + ms[i + 1:]
                return
        st.ts["g_maps"] = ((at, k, p),) + ms

    def deliver(self, eng, st, at, k):
        self.addmap(eng, st, at, k, st.ts["g_end"])
        st.ts["g_end"] = eng.binop(st, "add", st.ts["g_end"], k, 64)

    def readsome(self, eng, st, I, args):
        w = self.where(st, I)
        self.events += 1
        n = st.ts.get("g_n", 0)
        if n >= (2 if self.cfg.get("text") else MAXREAD):
            return []
        self.need(st, args[0] == self.Q, w, "wrong-pipe", "bytes are requested from something other than the stream's pipe")
        self.need(st, st.ts.get("g_dead") is None, w, "read-after-destroy", "the pipe is read after it was destroyed")
        fx = lin.facts(st)
        self.room(eng, st, w, args[1], args[2], fx)
        e = st.copy()
        e.ts["g_eof"] = 1
        e.ts["g_n"] = n + 1
        k = eng.fresh(st, "got", n)
        st.setrng(k, 1, 1 << 30)
        st.ts["g_n"] = n + 1
        out = [(e, 0)]
        if eng.assume_cmp(st, "sle", k, args[2], 32) and eng.assume_cmp(st, "ule", k, args[2], 32):
            self.deliver(eng, st, args[1], k)
            out.append((st, k))
        return out

    def room(self, eng, st, w, at, n, fx):
        pass


class Stream(Source):
    def setup(self, eng, st):
        p = self.p
        T, BL = "ply::InStream", "ply::BlockList::Footer"
        self.off_cur, self.off_end, self.off_status = (p.field(T, n) for n in ("curByte", "endByte", "status"))
        self.off_block = p.field(T, "block") if p.field(T, "block") is not None else 16
        self.off_pipe = p.field(T, "inPipe") if p.field(T, "inPipe") is not None else 24
        self.b = {n: p.field(BL, n) for n in ("fileOffset", "nextBlock", "prevBlock", "bytes", "startOffset", "numBytesUsed", "blockSize", "refCount")}
        if None in (self.off_cur, self.off_end, self.off_status) or None in self.b.values():
            raise AnalysisError("InStream or BlockList::Footer lost a member")
        S = self.S = self.cfg["stream"]
        typ, eof = self.cfg["type"], self.cfg["eof"]
        status = 12 | ({"view": 0, "pipe": 1}[typ] << 27) | (self.cfg.get("owner", 0) << 29) | (eof << 30)
        eng.store(st, S, self.off_status, 4, absint.sx(status, 32))
        Y, B, C, U, Z, F = (("s", x) for x in ("bytes", "blk", "C", "U", "Z", "fileOffset"))
        self.Y, self.B, self.C, self.U, self.Z, self.F = Y, B, C, U, Z, F
        self.keep += (Y, B, C, U, Z, F)
        for x in (Y, B, F, C, U, Z):
            st.seen.add(x)
        for x in (Y, B):
            st.setne(x, 0)
        for x in (C, U, Z):
            st.setrng(x, 0, 1 << 30)
        st.setrng(F, 0, 1 << 40)
        st.setrng(Z, 101, 1 << 30)

        def le(a, b):
            eng.assume_cmp(st, "ule", a, b)
            eng.assume_cmp(st, "sle", a, b)
        le(C, U); le(U, Z); le(C, Z)
        cur, end = eng.addsym(st, Y, C, 1), eng.addsym(st, Y, U, 1)
        eng.store(st, S, self.off_cur, 8, cur)
        eng.store(st, S, self.off_end, 8, end)
        st.ts["g_maps"] = ((Y, U, F),)
        st.ts["g_end"] = eng.binop(st, "add", F, U, 64)
        if typ == "view":
            eng.store(st, S, self.off_block, 8, Y)
            eng.store(st, S, self.off_pipe, 8, 0)
            eng.store(st, S, self.off_block, 8, Y)
            st.ts["g_end"] = eng.binop(st, "add", F, U, 64)
        else:
            eng.store(st, S, self.off_block, 8, B)
            N = 0
            if self.cfg.get("next"):
                N, NY, NU, NZ, NF = (("s", x) for x in ("nblk", "nbytes", "NU", "NZ", "nfileOffset"))
                self.keep += (N, NY, NU, NZ, NF)
                for x in (N, NY, NU, NZ, NF):
                    st.seen.add(x)
                for x in (N, NY):
                    st.setne(x, 0)
                for x in (NU, NZ):
                    st.setrng(x, 1, 1 << 30)
                st.setrng(NZ, 101, 1 << 30)
                le(NU, NZ)
                if self.cfg["next"] == 1:      # the next block starts where this one ends
                    NF = eng.binop(st, "add", F, U, 64)
                else:                          # the next block repeats the last bytes of this one
                    D = ("s", "D")
                    st.seen.add(D)
                    self.keep += (D,)
                    st.setrng(D, 0, 1 << 30)
                    le(D, U)
                    le(D, NU)
                    NF = eng.binop(st, "sub", eng.binop(st, "add", F, U, 64), D, 64)
                for n, v, s in (("fileOffset", NF, 8), ("nextBlock", 0, 8), ("prevBlock", B, 8), ("bytes", NY, 8), ("startOffset", 0, 4),
                                ("numBytesUsed", NU, 4), ("blockSize", NZ, 4), ("refCount", 1, 4)):
                    eng.store(st, N, self.b[n], s, v)
                st.ts["g_maps"] += ((NY, NU, NF),)
                st.ts["g_end"] = eng.binop(st, "add", NF, NU, 64)
            for n, v, s in (("fileOffset", F, 8), ("nextBlock", N, 8), ("bytes", Y, 8), ("startOffset", 0, 4),
                            ("numBytesUsed", U, 4), ("blockSize", Z, 4), ("refCount", self.cfg.get("refs", 1), 4)):
                eng.store(st, B, self.b[n], s, v)
            self.Q = ("s", "pipe")
            eng.store(st, S, self.off_pipe, 8, self.Q)
            self.mkpipe(eng, st, self.Q)
        if eof:
            st.ts["g_eof"] = 1
        st.ts["g_read"] = eng.binop(st, "add", F, C, 64)   # logical position of the next byte to give
        st.ts["g_got"] = 0                              # bytes stored in the caller's memory
        st.ts["g_arg"] = 0

    def room(self, eng, st, w, at, n, fx):
        # the region must lie inside the current block, after the bytes it holds
        B = eng.load(st, self.S, self.off_block, 8)
        bb, bo = split(B)
        Y, U, Z = (eng.load(st, bb, bo + self.b[x], s) for x, s in (("bytes", 8), ("numBytesUsed", 4), ("blockSize", 4)))
        fx = lin.facts(st)
        self.need(st, lin.is_zero(st, lin.add(sub(at, Y), lin.lin(U), -1), fx), w, "fill-address", "bytes from the pipe are not stored after the bytes already held")
        self.need(st, lin.nonneg(st, lin.add(lin.add(lin.add(lin.lin(Y), lin.lin(Z)), lin.lin(at), -1), lin.lin(n), -1), fx), w, "fill-overrun",
                  "more bytes are requested from the pipe than the block has room for")

    def call(self, eng, st, name, fn, I, args):
        r = super().call(eng, st, name, fn, I, args)
        if r is not None:
            return r
        if name == "<pipe readSome>":
            return self.readsome(eng, st, I, args)
        if name == "<pipe destroy>":
            w = self.where(st, I)
            self.need(st, args[0] == self.Q, w, "wrong-pipe", "something other than the stream's pipe is destroyed")
            self.need(st, st.ts.get("g_dead") is None, w, "pipe-destroyed-twice", "the pipe is destroyed twice")
            st.ts["g_dead"] = 1
            return [(st, None)]
        if name is None:
            return None
        if self.cfg["ret"] in ("skip", "text") and fn is not None and fn.qual == "ply::InStream::tryMakeBytesAvailableInternal":
            # keeps the rounds of the caller's loop apart
            st.ts["g_round"] = st.ts.get("g_round", 0) + 1
            if st.ts["g_round"] > MAXREAD + 2:
                return []
            return None
        if name.startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")):
            return self.copy(eng, st, I, args)
        if name.startswith(("llvm.memset", "memset")) and self.cfg.get("dsts"):
            return self.zero(eng, st, I, args)
        if self.cfg.get("text") and fn is not None and fn.qual == "ply::BlockList::toString":
            w = self.where(st, I)
            bb, bo = split(args[1])
            H, at = eng.load(st, bb, bo, 8), eng.load(st, bb, bo + 8, 8)
            fx = lin.facts(st)
            self.need(st, H == self.B and lin.is_zero(st, lin.add(sub(at, self.Y), lin.lin(self.C), -1), fx), w, "text-start", "the text does not start at the read position")
            self.need(st, st.ts.get("g_eof"), w, "text-early", "the text is taken before the pipe reached its end")
            self.chain(eng, st, w, H, at)
            st.ts["g_text"] = 1
            return [(st, None)]
        return None

    def dest(self, eng, st, at, fx):
        """The caller's buffer that contains the address: (index, offset form)"""
        ds = self.cfg.get("dsts") or []
        k = st.ts["g_arg"]
        for j in (k, k + 1):
            if j < len(ds):
                d = lin.add(sub(at, ds[j][0]), lin.lin(st.ts["g_got"] if j == k else 0), -1)
                if lin.is_zero(st, d, fx):
                    return j
        return None

    def copy(self, eng, st, I, args):
        db, do = split(args[0])
        if type(db) is tuple and db[0] == "A" or st.ts.get("g_maps") is None:
            return None
        if split(args[1])[0] == self.S or db in (self.S, ARG(self.root, 0)):
            return None
        fx = lin.facts(st)
        w = self.where(st, I)
        j = self.dest(eng, st, args[0], fx)
        src = args[1]
        if j is None:
            # a copy into another block
            if self.isdst(st, db):
                self.bad(st, w, "store-address", "input is stored somewhere else than after the bytes already read")
                return None
            if args[2] == 0:
                return [(st, None)]
            p = self.spread(st, src, lin.lin(args[2]), fx)
            lo, hi = st.rng(args[2], "S") if type(args[2]) is not int else (args[2], args[2])
            if p is None:
                if lo == hi == 0:
                    return [(st, None)]
                self.need(st, False, w, "copied-garbage", "bytes that did not come from the pipe are copied into a block")
                return [(st, None)]
            # position of src relative to the map, kept as a value
            for b, l, q in st.ts["g_maps"]:
                d = sub(src, b)
                if lin.nonneg(st, d, fx) and lin.is_zero(st, lin.add(lin.add(lin.lin(q), d), p, -1), fx):
                    off = eng.binop(st, "sub", src, b, 64)
                    self.addmap(eng, st, args[0], args[2], eng.binop(st, "add", q, off, 64))
                    break
            return [(st, None)]
        n = st.ts.get("g_c", 0)
        if n >= MAXREAD + 2:
            return []
        if j != st.ts["g_arg"]:
            st.ts["g_arg"] = j
            st.ts["g_got"] = 0
            st.ts.pop("g_zero", None)
        a, l = self.cfg["dsts"][j]
        got = st.ts["g_got"]
        p = self.spread(st, src, lin.lin(args[2]), fx)
        d = lin.add(p, lin.lin(st.ts["g_read"]), -1) if p is not None else None
        z = lin.is_zero(st, lin.lin(args[2]), fx)
        self.need(st, z or p is not None, w, "read-garbage", "bytes that did not come from the pipe are given to the reader")
        self.need(st, z or d is None or lin.is_zero(st, d, fx), w, "read-order", "the bytes given to the reader do not continue where the last read stopped")
        self.need(st, not st.ts.get("g_zero"), w, "read-after-zero", "bytes are stored after the remainder was cleared")
        self.need(st, lin.nonneg(st, lin.add(lin.add(lin.lin(l), lin.lin(got), -1), lin.lin(args[2]), -1), fx), w, "store-overrun", "more bytes are stored than the reader asked for")
        st.ts["g_got"] = args[2] if got == 0 else eng.binop(st, "add", got, args[2], 64)
        st.ts["g_read"] = eng.binop(st, "add", st.ts["g_read"], args[2], 64)
        st.ts["g_c"] = n + 1
        return [(st, None)]

    def isdst(self, st, b):
        for a, l in self.cfg.get("dsts") or []:
            x = b
            for _ in range(20):
                if x == a:
                    return True
                if type(x) is tuple and x[0] == "e" and x[1] in ("ptrx", "add", "sub"):
                    x = split(x[2])[0]
                else:
                    break
        return False

    def zero(self, eng, st, I, args):
        fx = lin.facts(st)
        db, do = split(args[0])
        if not self.isdst(st, db):
            return None
        w = self.where(st, I)
        j = self.dest(eng, st, args[0], fx)
        if not self.need(st, j is not None, w, "zero-address", "the cleared bytes do not follow the bytes read"):
            return [(st, None)]
        if j != st.ts["g_arg"]:
            st.ts["g_arg"], st.ts["g_got"] = j, 0
        l = self.cfg["dsts"][j][1]
        self.need(st, args[1] == 0, w, "zero-value", "the remainder is not cleared to zero")
        self.need(st, lin.is_zero(st, lin.add(lin.add(lin.lin(l), lin.lin(st.ts["g_got"]), -1), lin.lin(args[2]), -1), fx), w, "zero-length", "the cleared bytes are not exactly the remainder")
        st.ts["g_zero"] = j + 1
        return [(st, None)]

    def on_load(self, eng, st, I, base, off, size):
        if size == 1 and self.cfg["ret"] == "byte":
            st.ts["g_ld"] = mkp(base, off)
        return None

    def chain(self, eng, st, w, B, at):
        """Everything delivered and not read yet is still held, starting at address `at` of block B."""
        fx = lin.facts(st)
        ld = lambda o, n, s: eng.load(st, split(o)[0], split(o)[1] + self.b[n], s)
        Y, U, Z, F, N = ld(B, "bytes", 8), ld(B, "numBytesUsed", 4), ld(B, "blockSize", 4), ld(B, "fileOffset", 8), ld(B, "nextBlock", 8)
        fx = lin.facts(st)
        n = lin.add(sub(Y, at), lin.lin(U))       # unread bytes in this block
        if not self.need(st, lin.nonneg(st, n, fx) and lin.nonneg(st, lin.add(lin.lin(Z), lin.lin(U), -1), fx), w, "bounds", "the read position lies outside the bytes the block holds"):
            return
        rd = st.ts["g_read"]
        empty = lin.is_zero(st, n, fx)
        pos = None
        for b, l, q in st.ts["g_maps"]:
            d = sub(at, b)
            if lin.nonneg(st, d, fx) and lin.nonneg(st, lin.add(lin.add(lin.lin(l), d, -1), n, -1), fx):
                pos = lin.add(lin.lin(q), d)
                break
        if pos is None and not empty:
            # contiguous maps: several deliveries into the same block
            pos = self.spread(st, at, n, fx)
        if not self.need(st, empty or pos is not None, w, "holds-garbage", "the unread bytes of the block did not come from the pipe"):
            return
        if pos is not None and not empty:
            self.need(st, lin.is_zero(st, lin.add(pos, lin.lin(rd), -1), fx), w, "position", "the next byte to be read is not the first one not given out yet")
        here = lin.add(lin.lin(rd), n)
        self.need(st, lin.is_zero(st, lin.add(lin.add(lin.lin(F), lin.lin(U)), here, -1), fx), w, "file-offset", "the block's offset does not tell the position of its bytes")
        V = ld(B, "prevBlock", 8)
        if V not in (0, UNDEF) and st.mem.get((split(V)[0], split(V)[1] + self.b["numBytesUsed"])) and self.cfg.get("next") != 2:
            # the block before, when it is known, ends where this one begins
            VF, VU = ld(V, "fileOffset", 8), ld(V, "numBytesUsed", 4)
            fx = lin.facts(st)
            self.need(st, lin.is_zero(st, lin.add(lin.add(lin.lin(VF), lin.lin(VU)), lin.lin(F), -1), fx), w, "previous-block",
                      "the block before this one does not end where this one begins")
        for _ in range(3):
            if N == 0:
                break
            NY, NU, NF, NN = ld(N, "bytes", 8), ld(N, "numBytesUsed", 4), ld(N, "fileOffset", 8), ld(N, "nextBlock", 8)
            fx = lin.facts(st)
            p = self.spread(st, NY, lin.lin(NU), fx)
            e = lin.add(lin.lin(NF), lin.lin(NU))
            ok = p is not None and lin.is_zero(st, lin.add(p, lin.lin(NF), -1), fx) or lin.is_zero(st, lin.lin(NU), fx)
            ok = ok and lin.nonneg(st, lin.add(here, lin.lin(NF), -1), fx) and lin.nonneg(st, lin.add(e, here, -1), fx)
            if not self.need(st, ok, w, "next-block", "the next block does not continue the bytes of the one before it"):
                return
            here = e
            N = NN
        self.need(st, lin.is_zero(st, lin.add(here, lin.lin(st.ts["g_end"]), -1), fx), w, "bytes-lost", "bytes delivered by the pipe and not read yet are dropped")

    def spread(self, st, at, n, fx, depth=4):
        """logical position of `at` when [at, at+n) is covered by maps that continue each other"""
        for b, l, q in st.ts["g_maps"]:
            d = sub(at, b)
            if not lin.nonneg(st, d, fx):
                continue
            rest = lin.add(lin.lin(l), d, -1)
            if lin.nonneg(st, lin.add(rest, n, -1), fx):
                return lin.add(lin.lin(q), d)
            if depth and lin.nonneg(st, rest, fx):
                # the part behind this map
                p = lin.add(lin.lin(q), d)
                nx = self.spreadform(st, lin.add(lin.lin(at), rest), lin.add(n, rest, -1), fx, depth - 1)
                if nx is not None and lin.is_zero(st, lin.add(lin.add(p, rest), nx, -1), fx):
                    return p
        return None

    def spreadform(self, st, at, n, fx, depth):
        for b, l, q in st.ts["g_maps"]:
            d = lin.add(at, lin.lin(b), -1)
            if not lin.is_zero(st, d, fx):
                continue
            if lin.nonneg(st, lin.add(lin.lin(l), n, -1), fx):
                return lin.lin(q)
            if depth and lin.nonneg(st, lin.add(n, lin.lin(l), -1), fx):
                nx = self.spreadform(st, lin.add(at, lin.lin(l)), lin.add(n, lin.lin(l), -1), fx, depth - 1)
                if nx is not None and lin.is_zero(st, lin.add(lin.add(lin.lin(q), lin.lin(l)), nx, -1), fx):
                    return lin.lin(q)
        return None

    def at_return(self, eng, st, val):
        self.returns += 1
        w = self.end(st)
        S, kind = self.S, self.cfg["ret"]
        typ = self.cfg["type"]
        fx = lin.facts(st)
        if kind == "text":
            self.need(st, st.ts.get("g_text"), w, "text-not-taken", "the text is not built from the stream's blocks")
            return
        if kind == "destroy":
            own = self.cfg.get("owner", 0)
            self.need(st, (st.ts.get("g_dead") == 1) == (own == 1), w, "pipe-ownership", "an owned pipe is destroyed with its stream and a borrowed one is not")
            return
        if kind == "seek":
            want = lin.add(lin.lin(self.F), lin.lin(self.C)) if typ != "view" else lin.lin(self.C)
            self.need(st, lin.is_zero(st, lin.add(lin.lin(val), want, -1), fx), w, "seek-position", "the stream position does not count the bytes read")
        if "moved" in self.cfg:
            S = ARG(self.root, self.cfg["moved"])
            sv = eng.load(st, self.S, self.off_status, 4)
            km, kv = eng.kbits(st, sv)
            self.need(st, km & 0x18000000 == 0x18000000 and kv & 0x18000000 == 0, w, "moved-from", "the stream moved from still refers to the pipe")
            self.need(st, eng.load(st, S, self.off_pipe, 8) == self.Q, w, "moved-pipe", "the pipe does not move with the stream")
        sv = eng.load(st, S, self.off_status, 4)
        km, kv = eng.kbits(st, sv)
        if not self.need(st, (km >> 30) & 1, w, "eof-unclear", "whether the stream reports end of file depends on something other than the pipe"):
            return
        eof = (kv >> 30) & 1
        hiteof = st.ts.get("g_eof")
        cur, end = eng.load(st, S, self.off_cur, 8), eng.load(st, S, self.off_end, 8)
        room = sub(end, cur)
        n = self.cfg.get("n")
        if kind == "rewind":
            return self.rewound(eng, st, w, cur, end, eof)
        if typ == "pipe":
            if hiteof:
                self.need(st, eof == 1, w, "eof-forgotten", "the pipe reached its end but the stream does not report it")
            else:
                self.need(st, eof == 0, w, "false-eof", "the stream reports end of file although the pipe did not")
            B = eng.load(st, S, self.off_block, 8)
            if not (type(B) is tuple and B[0] in ("s", "P", "e", "H")):
                self.bad(st, w, "no-block", "the stream is left without a block")
                return
            bb, bo = split(B)
            Y, U = eng.load(st, bb, bo + self.b["bytes"], 8), eng.load(st, bb, bo + self.b["numBytesUsed"], 4)
            fx = lin.facts(st)
            self.need(st, lin.is_zero(st, lin.add(sub(end, Y), lin.lin(U), -1), fx), w, "end-pointer", "the end pointer is not the end of the bytes the block holds")
            if kind == "byte":
                one = lin.is_zero(st, lin.add(lin.add(room, {}), {None: 0}), fx)
            self.account(eng, st, w, val, cur, end, eof, room, fx, B)
            self.chain(eng, st, w, B, cur)
        else:
            self.account(eng, st, w, val, cur, end, eof, room, fx, None)
            # a view never moves its memory
            self.need(st, lin.is_zero(st, lin.add(sub(end, self.Y), lin.lin(self.U), -1), fx), w, "end-pointer", "the end pointer of a view moved")
            d = lin.add(lin.add(lin.add(lin.lin(cur), lin.lin(self.Y), -1), lin.lin(self.F)), lin.lin(st.ts["g_read"]), -1)
            self.need(st, lin.is_zero(st, d, fx), w, "position", "the next byte to be read is not the first one not given out yet")

    def account(self, eng, st, w, val, cur, end, eof, room, fx, B):
        kind, n = self.cfg["ret"], self.cfg.get("n")
        if kind == "byte":
            took = st.ts.get("g_ld") is not None
            if took:
                p = self.spread(st, st.ts["g_ld"], {None: 1}, fx)
                if self.need(st, p is not None, w, "read-garbage", "a byte that did not come from the pipe is given to the reader"):
                    self.need(st, lin.is_zero(st, lin.add(p, lin.lin(st.ts["g_read"]), -1), fx), w, "read-order", "the byte given to the reader is not the next one")
                st.ts["g_read"] = eng.binop(st, "add", st.ts["g_read"], 1, 64)
            else:
                self.need(st, val == 0, w, "byte-value", "a byte is reported although none was read")
                self.need(st, eof and lin.is_zero(st, room, fx), w, "false-end", "nothing is read although the input did not end")
        elif kind == "skip":
            # the amount consumed shows in the read position
            took = self.consumed(eng, st, w, cur, fx, B)
            if took is None:
                return
            t = eng.truth(st, val)
            if not self.need(st, t is not None, w, "result", "the result does not tell whether the bytes were skipped"):
                return
            if t:
                self.need(st, lin.is_zero(st, lin.add(took, lin.lin(n), -1), fx), w, "skip-count", "a different number of bytes than asked is skipped")
            else:
                self.need(st, eof and lin.is_zero(st, room, fx), w, "false-end", "the skip fails although the input did not end")
                self.need(st, lin.nonneg(st, lin.add(lin.add(lin.lin(n), took, -1), {None: -1}), fx), w, "skip-count", "the skip fails although all bytes were skipped")
        elif kind == "try":
            got = lin.lin(val)
            self.need(st, lin.nonneg(st, lin.add(room, got, -1), fx), w, "available-overstated", "more bytes are reported available than the stream holds")
            short = lin.add(got, lin.lin(n), -1)
            if not eof and self.cfg["type"] == "pipe":
                self.need(st, lin.nonneg(st, short, fx), w, "available-understated", "fewer bytes than asked are made available although the input did not end")
            elif not lin.nonneg(st, short, fx):
                self.need(st, lin.is_zero(st, lin.add(room, got, -1), fx), w, "available-understated", "fewer bytes are reported available than the stream holds")
        elif kind == "read":
            ds = self.cfg["dsts"]
            t = eng.truth(st, val)
            a, l = ds[0]
            if not self.need(st, t is not None, w, "result", "the result does not tell whether the buffer was filled"):
                return
            full = lin.add(lin.lin(l), lin.lin(st.ts["g_got"]), -1)
            if t:
                self.need(st, lin.is_zero(st, full, fx) and not st.ts.get("g_zero"), w, "read-incomplete", "the read reports success but the buffer was not filled")
            else:
                self.need(st, st.ts.get("g_zero"), w, "not-cleared", "the read fails without clearing the remainder")
                self.need(st, eof and lin.is_zero(st, room, fx), w, "false-end", "the read fails although the input did not end")

    def consumed(self, eng, st, w, cur, fx, B):
        """form of the number of bytes by which the read position advanced (from the maps)"""
        if self.cfg["type"] == "view":
            took = lin.add(lin.add(lin.lin(cur), lin.lin(self.Y), -1), lin.lin(self.C), -1)
        else:
            bb, bo = split(B)
            Y, F = eng.load(st, bb, bo + self.b["bytes"], 8), eng.load(st, bb, bo + self.b["fileOffset"], 8)
            took = lin.add(lin.add(lin.add(lin.add(lin.lin(cur), lin.lin(Y), -1), lin.lin(F)), lin.lin(self.F), -1), lin.lin(self.C), -1)
        # as a value: the ghost read position advances by the same amount
        if lin.is_zero(st, lin.add(took, lin.lin(self.cfg["n"]), -1), fx):
            st.ts["g_read"] = eng.binop(st, "add", st.ts["g_read"], self.cfg["n"], 64)
        elif self.cfg["type"] == "view":
            st.ts["g_read"] = eng.binop(st, "add", st.ts["g_read"], eng.binop(st, "sub", eng.binop(st, "sub", cur, self.Y, 64), self.C, 64), 64)
        else:
            st.ts["g_read"] = eng.binop(st, "add", F, eng.binop(st, "sub", cur, Y, 64), 64)
        return took

    def rewound(self, eng, st, w, cur, end, eof):
        B = eng.load(st, self.S, self.off_block, 8)
        P, V = self.saved
        bb, bo = split(P)
        Y, U = eng.load(st, bb, bo + self.b["bytes"], 8), eng.load(st, bb, bo + self.b["numBytesUsed"], 4)
        fx = lin.facts(st)
        self.need(st, B == P and cur == V, w, "rewind-position", "the stream does not return to the saved position")
        self.need(st, lin.is_zero(st, lin.add(sub(end, Y), lin.lin(U), -1), fx), w, "end-pointer", "the end pointer is not the end of the bytes the block holds")
        self.need(st, eof == 0, w, "rewind-eof", "the end-of-file state survives a rewind")


class Rewind(Stream):
    def setup(self, eng, st):
        super().setup(eng, st)
        r = ARG(self.root, 1)
        P, PY, PU, PZ, V = (("s", x) for x in ("savedblk", "savedbytes", "PU", "PZ", "PV"))
        for x in (P, PY):
            st.setne(x, 0)
        for x in (PU, PZ, V):
            st.setrng(x, 0, 1 << 30)
        for a, b in ((V, PU), (PU, PZ)):
            eng.assume_cmp(st, "ule", a, b)
            eng.assume_cmp(st, "sle", a, b)
        self.keep += (P, PY, PU, PZ, V)
        at = eng.addsym(st, PY, V, 1)
        self.saved = (P, at)
        eng.store(st, r, self.p.field("ply::BlockList::WeakRef", "block"), 8, P)
        eng.store(st, r, self.p.field("ply::BlockList::WeakRef", "byte"), 8, at)
        for n, v, s in (("bytes", PY, 8), ("startOffset", 0, 4), ("numBytesUsed", PU, 4), ("blockSize", PZ, 4), ("refCount", 2, 4), ("nextBlock", 0, 8)):
            eng.store(st, P, self.b[n], s, v)


class Ctor(Stream):
    def setup(self, eng, st):
        super().setup(eng, st)
        for k in [k for k in st.mem if k[0] == self.S]:
            del st.mem[k]
        self.Q = Q = ARG(self.root, 0)
        eng.aligned = (Q,)
        st.setne(Q, 0)

    def at_return(self, eng, st, val):
        self.returns += 1
        w, S = self.end(st), self.S
        km, kv = eng.kbits(st, eng.load(st, S, self.off_status, 4))
        m, want = 0xf8000000, (1 << 27) | (self.cfg["owner"] << 29)
        if not self.need(st, km & m == m and kv & m == want, w, "ctor-status", "a new stream does not record its kind, its ownership of the pipe and that nothing happened"):
            return
        B = eng.load(st, S, self.off_block, 8)
        if not self.need(st, type(B) is tuple and B[0] in ("P", "s", "H", "e"), w, "ctor-block", "a new stream has no block"):
            return
        bb, bo = split(B)
        Y, U, F, rc = (eng.load(st, bb, bo + self.b[n], s) for n, s in (("bytes", 8), ("numBytesUsed", 4), ("fileOffset", 8), ("refCount", 4)))
        cur, end = eng.load(st, S, self.off_cur, 8), eng.load(st, S, self.off_end, 8)
        self.need(st, cur == Y and end == Y and U == 0 and F == 0, w, "ctor-position", "a new stream does not start empty")
        self.need(st, eng.load(st, S, self.off_pipe, 8) == self.Q and rc == 1, w, "ctor-pipe", "a new stream does not hold its pipe and block")


class PipeRead(Source):
    """InPipe::read: true exactly when the buffer was filled, in order."""

    def setup(self, eng, st):
        self.Q = ARG(self.root, 0)
        self.mkpipe(eng, st, self.Q)
        self.buf = (ARG(self.root, 1), ARG(self.root, 2))
        st.setrng(self.buf[1], 0, 1 << 30)
        st.ts["g_maps"] = ()
        st.ts["g_end"] = 0

    def call(self, eng, st, name, fn, I, args):
        r = super().call(eng, st, name, fn, I, args)
        if r is None and name == "<pipe readSome>":
            return self.readsome(eng, st, I, args)
        return r

    def room(self, eng, st, w, at, n, fx):
        b, L = self.buf
        self.need(st, lin.is_zero(st, lin.add(sub(at, b), lin.lin(st.ts["g_end"]), -1), fx), w, "fill-address", "the bytes read do not continue where the last ones ended")
        self.need(st, lin.nonneg(st, lin.add(lin.add(lin.lin(L), lin.lin(st.ts["g_end"]), -1), lin.lin(n), -1), fx), w, "fill-overrun", "more bytes are requested than the buffer has room for")

    def at_return(self, eng, st, val):
        self.returns += 1
        w = self.end(st)
        t = eng.truth(st, val)
        if not self.need(st, t is not None, w, "result", "the result does not tell whether the buffer was filled"):
            return
        d = lin.add(lin.lin(self.buf[1]), lin.lin(st.ts["g_end"]), -1)
        if t:
            self.need(st, lin.is_zero(st, d), w, "read-incomplete", "the read reports success but the buffer was not filled")
        else:
            self.need(st, st.ts.get("g_eof"), w, "false-end", "the read fails although the pipe did not end")


class FdRead(Base):
    """The device slot: read(2) may deliver some bytes, end, be interrupted or fail."""

    def __init__(self, prog, rep, root, tag):
        super().__init__(prog, rep, root, tag)
        self.reads = 0

    def assert_ok(self, st):
        return st.ts.get("n", 0) == 0

    def call(self, eng, st, name, fn, I, args):
        r = super().call(eng, st, name, fn, I, args)
        if r is not None or name != "read":
            return r
        n = st.ts.get("n", 0)
        if n >= 3:
            return []
        self.reads += 1
        w = self.where(st, I)
        self.need(st, st.ts.get("out") in (None, "intr"), w, "read-again", "the device is read again although it delivered bytes, ended or failed")
        b, L = ARG(self.root, 1), ARG(self.root, 2)
        self.need(st, lin.same(st, args[1], b), w, "fill-address", "the bytes are not stored at the start of the buffer")
        self.need(st, lin.nonneg(st, sub(L, args[2])), w, "fill-overrun", "more bytes are requested than the buffer has room for")
        out = []
        for kind in ("got", "eof", "fail", "intr"):
            s = st.copy()
            s.ts["n"] = n + 1
            s.ts["out"] = kind
            v = -1
            if kind == "got":
                v = eng.fresh(s, "got", n)
                s.setrng(v, 1, (1 << 31) - 1)
                if not eng.assume_cmp(s, "sle", v, args[2], 32):
                    continue
                s.ts["k"] = v
            elif kind == "eof":
                v = 0
            elif kind == "fail":
                e = eng.fresh(s, "errno", n)
                s.setrng(e, 1, 133)
                s.setne(e, 4)
                clients.set_errno(eng, s, e)
            else:
                clients.set_errno(eng, s, 4)
            out.append((s, v))
        return out

    def at_return(self, eng, st, val):
        self.returns += 1
        o = st.ts.get("out")
        w = self.end(st)
        if o == "got":
            self.need(st, lin.same(st, val, st.ts["k"]), w, "count", "the number of bytes read is not what the device delivered")
        elif o in ("eof", "fail"):
            self.need(st, val == 0 or st.rng(val, "S") == (0, 0), w, "end", "the end of the input or an error is not reported as zero bytes")
        elif o == "intr":
            self.need(st, False, w, "interrupted", "an interrupted read is reported as the end of the input")
        else:
            self.need(st, val == 0 or st.rng(val, "S") == (0, 0), w, "unread", "bytes are reported although the device was not read")


def run(rep, tier):
    for asserts in (1, 0):
        d, n = build.dump(["runtime"], drivers=["streams.cpp"], asserts=asserts)
        prog = ir.Program(d)
        rep.cover("translation_units", n)
        jobs = []
        for f in prog.fns.values():
            if f.bbs and len(f.args) == 3 and any(I[0] == "call" and prog.callee(I) == "read" for bb in f.bbs for I in bb):
                jobs.append((FdRead, f, None))
        rep.require("device_read_functions", len(jobs), 1)
        D = {f.short: f for f in prog.fns.values() if f.bbs and f.short.startswith(("drv_in", "drv_ictor"))}
        before = len(jobs)
        ents = [("pipe", e, nx, rf) for e in (0, 1) for nx in (0, 1, 2) for rf in (1, 2)]
        ents += [("view", 0, 0, 1), ("view", 1, 0, 1)]
        for typ, eof, nx, rf in ents:
            cfg = {"type": typ, "eof": eof, "next": nx, "refs": rf}
            if eof and nx:
                continue
            def J(cls, name, **kw):
                if name in D:
                    jobs.append((cls, D[name], dict(cfg, **kw)))
            J(Stream, "drv_in_try", ret="try", narg=1)
            J(Stream, "drv_in_read", ret="read", ndst=1)
            J(Stream, "drv_in_readByte", ret="byte")
            J(Stream, "drv_in_skip", ret="skip", narg=1)
            J(Stream, "drv_in_seekPos", ret="seek")
            if typ == "pipe":
                if rf == 2:
                    J(Stream, "drv_in_rest", ret="text", text=1)
                if not nx and rf == 1:
                    J(Rewind, "drv_in_rewind", ret="rewind")
                    J(Stream, "drv_in_move", ret="none", moved=0)
                    for own in (0, 1):
                        J(Stream, "drv_in_destroy", ret="destroy", owner=own)
        for nm, own in (("drv_ictor_own", 1), ("drv_ictor_borrow", 0)):
            if nm in D:
                jobs.append((Ctor, D[nm], {"type": "pipe", "eof": 0, "owner": own, "ret": "ctor"}))
        if "drv_inpipe_read" in D:
            jobs.append((PipeRead, D["drv_inpipe_read"], {}))
        rep.require("stream_entry_states", len(jobs) - before, 40)

        def one(job, r):
            cls, f, cfg = job
            if cls is FdRead:
                c = runner(prog, r, f, lambda root: FdRead(prog, r, root, "asserts=%d" % asserts))
                r.cover("device_reads", c.reads)
                return
            cfg = dict(cfg)
            base = 1 if f.short in ("drv_in_rest", "drv_ictor_own", "drv_ictor_borrow", "drv_in_move") else 0
            cfg["stream"] = ARG(f, base)
            tag = "%s stream, ended before=%d, next block=%d, references=%d" % (cfg.get("type"), cfg.get("eof", 0), cfg.get("next", 0), cfg.get("refs", 1)) if "type" in cfg else "pipe"
            if cfg.get("narg"):
                cfg["n"] = ARG(f, cfg["narg"])
            if cfg.get("ndst"):
                a = cfg.get("darg", 1)
                cfg["dsts"] = [(ARG(f, a + 2 * i), ARG(f, a + 1 + 2 * i)) for i in range(cfg["ndst"])]
            def mk(root):
                c = cls(prog, r, root, tag, cfg)
                orig = c.setup

                def setup(eng, st):
                    for x, l in cfg.get("dsts", []):
                        st.setrng(l, 0, 1 << 30)
                        st.setne(x, 0)
                    if cfg.get("n"):
                        st.setrng(cfg["n"], 1, 1 << 30)
                    orig(eng, st)
                c.setup = setup
                return c
            c = runner(prog, r, f, mk)
            r.cover("pipe_reads", c.events)
        par.each(rep, jobs, one)
    rep.assumptions = ["integers do not overflow (blocks below 1 GiB)", "allocation succeeds", "at most %d pipe reads per call are followed" % MAXREAD]
    return rep.finish("conservation of delivered bytes along every path of the input stream and device slots, with linear facts about block pointers")
