"""P04: output reaches its destination once, in order, and failures stick."""
import build, ir, absint, clients, par, lin
from absint import UNDEF, split, mkp
from report import AnalysisError

MAXW = 3
ARG = lambda f, i: ("s", "arg", f.name, i)


class Base(clients.PlyClient):
    max_depth = 14
    split_result = True

    def impossible(self, st):
        return lin.infeasible(st)

    def __init__(self, prog, rep, root, tag):
        self.p, self.rep, self.root, self.tag = prog, rep, root, tag
        self.returns = 0
        self.oblig = 0
        self.keep = tuple(ARG(root, i) for i in range(len(root.args)))

    def bad(self, st, where, kind, msg):
        key = "%s:%s" % (self.root.qual, kind)
        self.nbad = getattr(self, "nbad", 0) + 1
        if self.nbad > 60 and self.rep.v:
            raise absint.Budget()
        if key in self.rep.v or lin.infeasible(st):
            return
        self.rep.violation(key, where, msg + " (%s)" % self.tag, absint.trace_lines(st, self.p))

    def need(self, st, ok, where, kind, msg):
        self.oblig += 1
        if not ok:
            self.bad(st, where, kind, msg)
        return ok

    def clobbers(self, eng, st, name, fn, g):
        return False

    def at_noreturn(self, eng, st, name, I):
        if name and name.startswith("llvm.") and self.assert_ok(st) is False:
            fr = st.top
            self.bad(st, self.where(st, I), "assert in %s" % fr.fn.qual, "an assertion can fail although the caller did nothing wrong")

    def assert_ok(self, st):
        return False

    def end(self, st):
        return "%s:%d (%s)" % (self.root.file, self.root.line, self.root.qual)


class FdWrite(Base):
    """The device slot: write(2) may be partial, interrupted or fail."""

    def __init__(self, prog, rep, root, tag, buf):
        super().__init__(prog, rep, root, tag)
        self.buf = buf
        self.writes = 0

    def assert_ok(self, st):
        return st.ts.get("n", 0) == 0   # preconditions on the handle

    def call(self, eng, st, name, fn, I, args):
        r = super().call(eng, st, name, fn, I, args)
        if r is not None:
            return r
        if name == "write":
            n = st.ts.get("n", 0)
            if n >= MAXW + 1:
                return []
            self.writes += 1
            off = st.ts.get("off", 0)
            p, ln = args[1], args[2]
            b, L = self.buf
            self.need(st, lin.is_zero(st, lin.add(lin.add(lin.lin(p), lin.lin(b), -1), lin.lin(off), -1)), self.where(st, I), "write-address",
                      "the bytes given to the device do not continue where the last write stopped")
            self.need(st, lin.nonneg(st, lin.add(lin.add(lin.lin(L), lin.lin(off), -1), lin.lin(ln), -1)), self.where(st, I), "write-length",
                      "more bytes are given to the device than remain in the buffer")
            ok, f, intr = st, st.copy(), st.copy()
            k = eng.fresh(ok, "wrote", n)
            ok.setrng(k, 1, (1 << 31) - 1)
            if not eng.assume_cmp(ok, "sle", k, ln, 32):
                ok = None
            else:
                ok.ts["n"] = n + 1
                ok.ts["off"] = eng.binop(ok, "add", off, k, 64) if off != 0 else k
            e = eng.fresh(f, "errno", n)
            f.setrng(e, 1, 133)
            f.setne(e, 4)
            clients.set_errno(eng, f, e)
            f.ts["failed"] = 1
            f.ts["n"] = n + 1
            clients.set_errno(eng, intr, 4)
            intr.ts["n"] = n + 1
            intr.ts["eintr"] = intr.ts.get("eintr", 0) + 1
            return ([(ok, k)] if ok else []) + [(f, -1), (intr, -1)]
        return None

    def at_return(self, eng, st, val):
        self.returns += 1
        b, L = self.buf
        t = eng.truth(st, val)
        if st.ts.get("failed"):
            self.need(st, t is False, self.end(st), "failure-hidden", "the device failed but the pipe does not report it")
            return
        if t is None or t is False:
            what = "interrupted" if st.ts.get("eintr") else "spurious"
            self.need(st, False, self.end(st), "false-failure-" + what, "the pipe can report failure although no write failed (%s write)" % what)
        if t is None or t is True:
            self.need(st, lin.is_zero(st, lin.add(lin.lin(L), lin.lin(st.ts.get("off", 0)), -1)), self.end(st), "short-write",
                      "the pipe reports success although bytes of its argument were not written")


class Stream(Base):
    """OutStream on a modelled pipe: conservation of the pending bytes."""
    W, FL, DE = ("G", "<pipe write>"), ("G", "<pipe flush>"), ("G", "<pipe destroy>")

    def __init__(self, prog, rep, root, tag, cfg):
        super().__init__(prog, rep, root, tag)
        self.cfg = cfg
        self.events = 0

    def setup(self, eng, st):
        p = self.p
        T, BL, PF = "ply::OutStream", "ply::BlockList::Footer", "ply::OutPipe::Funcs"
        self.o = {n: p.field(T, n) for n in ("curByte", "endByte", "startByte", "block", "outPipe", "headBlock", "reserved", "status")}
        # anonymous unions
        self.off_cur, self.off_end = self.o["curByte"], self.o["endByte"]
        self.off_block = self.o["block"] if self.o["block"] is not None else 16
        self.off_pipe = self.o["outPipe"] if self.o["outPipe"] is not None else 24
        self.off_status = self.o["status"]
        self.b = {n: p.field(BL, n) for n in ("fileOffset", "nextBlock", "prevBlock", "bytes", "startOffset", "numBytesUsed", "blockSize", "refCount")}
        if None in (self.off_cur, self.off_end, self.off_status) or None in self.b.values():
            raise AnalysisError("OutStream or BlockList::Footer lost a member")
        S = self.S = self.cfg["stream"]
        typ, eof = self.cfg["type"], self.cfg["eof"]
        exp = self.cfg.get("exp", 12)
        status = exp | ({"view": 0, "pipe": 1, "mem": 2}[typ] << 28) | (self.cfg.get("owner", 0) << 30) | (eof << 31)
        eng.store(st, S, self.off_status, 4, absint.sx(status, 32))
        Y = ("s", "bytes")
        B, C, U, Z, F = ("s", "blk"), ("s", "C"), ("s", "U"), ("s", "Z"), ("s", "fileOffset")
        self.Y, self.B, self.C, self.U, self.Z, self.F = Y, B, C, U, Z, F
        for x in (Y, B, F, C, U, Z):
            st.seen.add(x)
        self.keep += (Y, B, C, U, Z, F)
        for x in (Y, B):
            st.setne(x, 0)
        for x in (C, U, Z):
            st.setrng(x, 0, 1 << 30)
        st.setrng(Z, 101, 1 << 30)
        eng.assume_cmp(st, "ule", U, C); eng.assume_cmp(st, "sle", U, C)
        eng.assume_cmp(st, "ule", C, Z); eng.assume_cmp(st, "sle", C, Z)
        eng.assume_cmp(st, "ule", U, Z); eng.assume_cmp(st, "sle", U, Z)
        cur, end = eng.addsym(st, Y, C, 1), eng.addsym(st, Y, Z, 1)
        if typ == "view":
            eng.store(st, S, self.off_block, 8, Y)
            eng.store(st, S, self.off_pipe, 8, 0)
        else:
            eng.store(st, S, self.off_block, 8, B)
            for n, v, s in (("fileOffset", F, 8), ("nextBlock", 0, 8), ("bytes", Y, 8), ("startOffset", 0, 4),
                            ("numBytesUsed", U, 4), ("blockSize", Z, 4), ("refCount", 1 if typ == "pipe" else 2, 4)):
                eng.store(st, B, self.b[n], s, v)
        if self.cfg.get("drained"):
            end = cur
        eng.store(st, S, self.off_cur, 8, cur)
        eng.store(st, S, self.off_end, 8, end)
        if typ == "pipe":
            Q, QF = ("s", "pipe"), ("s", "pipefuncs")
            st.setne(Q, 0)
            self.Q = Q
            eng.store(st, S, self.off_pipe, 8, Q)
            eng.store(st, Q, p.field("ply::OutPipe", "funcs"), 8, QF)
            for n, g in (("write", self.W), ("flush", self.FL), ("destroy", self.DE)):
                eng.store(st, QF, p.field(PF, n), 8, ("P", g, 0))
        elif typ == "mem":
            self.H = B if self.cfg.get("single") else ("s", "headblk")
            if self.H != B:
                st.setne(self.H, 0)
                eng.store(st, self.H, self.b["refCount"], 4, 2)
                eng.store(st, B, self.b["prevBlock"], 8, self.H)
            eng.store(st, S, self.off_pipe, 8, self.H)
        st.ts["g_start"] = eng.addsym(st, Y, U, 1)
        st.ts["g_end"] = cur
        st.ts["g_src"] = 0          # bytes of the argument that were buffered
        st.ts["g_app"] = 0          # bytes appended in total
        st.ts["g_failed"] = eof
        st.ts["g_arg"] = 0

    # --- events
    def call(self, eng, st, name, fn, I, args):
        r = super().call(eng, st, name, fn, I, args)
        if r is not None:
            return r
        if name == "<pipe write>":
            self.events += 1
            w = self.where(st, I)
            if st.ts.get("g_n", 0) >= 2:
                return []
            self.need(st, args[0] == self.Q, w, "wrong-pipe", "bytes are sent to something other than the stream's pipe")
            self.need(st, st.ts["g_failed"] == 0, w, "write-after-failure", "bytes are sent to the pipe after it reported a failure")
            self.need(st, st.ts.get("g_dead") is None, w, "write-after-destroy", "the pipe is written after it was destroyed")
            fx = lin.facts(st)
            self.need(st, lin.same(st, args[1], st.ts["g_start"], fx), w, "send-address",
                      "the bytes sent do not start at the first byte that was not sent yet")
            d = lin.add(lin.add(lin.lin(st.ts["g_end"]), lin.lin(st.ts["g_start"]), -1), lin.lin(args[2]), -1)
            self.need(st, lin.is_zero(st, d, fx), w, "send-length", "the bytes sent are not exactly the pending ones")
            f = st.copy()
            for s in (st, f):
                s.ts["g_start"] = s.ts["g_end"]
                s.ts["g_n"] = s.ts.get("g_n", 0) + 1
            f.ts["g_failed"] = 1
            return [(st, 1), (f, 0)]
        if name == "<pipe flush>":
            w = self.where(st, I)
            self.need(st, args[0] == self.Q, w, "wrong-pipe", "something other than the stream's pipe is flushed")
            if st.ts["g_failed"] == 0:
                self.need(st, lin.same(st, st.ts["g_start"], st.ts["g_end"]), w, "flush-order", "the pipe is flushed before the pending bytes are handed to it")
            st.ts["g_flushed"] = args[1]
            f = st.copy()
            f.ts["g_flushfail"] = 1
            st.ts.pop("g_flushfail", None)
            return [(st, 1), (f, 0)]
        if name == "<pipe destroy>":
            w = self.where(st, I)
            self.need(st, args[0] == self.Q, w, "wrong-pipe", "something other than the stream's pipe is destroyed")
            self.need(st, st.ts.get("g_dead") is None, w, "pipe-destroyed-twice", "the pipe is destroyed twice")
            st.ts["g_dead"] = 1
            return [(st, None)]
        if self.cfg.get("text") and fn is not None and fn.qual == "ply::BlockList::toString":
            w = self.where(st, I)
            bb, bo = split(args[1])
            H = eng.load(st, bb, bo, 8)
            at = eng.load(st, bb, bo + 8, 8)
            self.need(st, H == self.H, w, "text-start", "the text does not start at the first block")
            if H == self.B:
                self.need(st, lin.same(st, at, self.Y), w, "text-start", "the text does not start at the first byte")
            else:
                self.need(st, at == eng.load(st, self.H, self.b["bytes"], 8), w, "text-start", "the text does not start at the first byte")
            used = eng.load(st, self.B, self.b["numBytesUsed"], 4)
            self.need(st, lin.same(st, used, self.C), w, "text-end", "the text does not end at the last byte written")
            rc = eng.load(st, self.H, self.b["refCount"], 4)
            if self.H == self.B:
                self.need(st, rc == 1, w, "text-refs", "the only block is still referenced by the stream when the text is built")
            st.ts["g_text"] = 1
            return [(st, None)]
        if name is not None and name.startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")):
            return self.copy(eng, st, I, args)
        return None

    def copy(self, eng, st, I, args):
        """A copy into the stream's buffer."""
        src = self.cfg.get("srcs") or []
        k = st.ts["g_arg"]
        n = st.ts.get("g_c", 0)
        S = st.ts.get("g_S", self.S)
        cur = st.mem.get((S, self.off_cur), (None,))[0]
        if cur is None or not any(True for s, l in src):
            return None
        db, do = split(args[0])
        if type(db) is tuple and db[0] == "A":
            return None
        if n >= MAXW:
            return []
        w = self.where(st, I)
        fx = lin.facts(st)
        if k >= len(src) and not st.ts["g_failed"]:
            self.bad(st, w, "extra-copy", "bytes are added to the stream that the caller did not give")
            return None
        if st.ts["g_failed"]:
            end = st.mem.get((S, self.off_end), (UNDEF,))[0]
            d = lin.add(lin.add(lin.lin(end), lin.lin(cur), -1), lin.lin(args[2]), -1)
            self.need(st, lin.nonneg(st, d, fx) or not lin.same(st, args[0], cur, fx), w, "append-overrun", "more bytes are stored than the buffer has room for")
            return None
        s, l = src[k]
        off = st.ts["g_src"]
        self.need(st, lin.same(st, args[0], cur, fx), w, "append-address", "bytes are stored somewhere else than at the write position")
        self.need(st, lin.is_zero(st, lin.add(lin.add(lin.lin(args[1]), lin.lin(s), -1), lin.lin(off), -1), fx), w, "append-source",
                  "the bytes buffered do not continue where the last copy stopped")
        end = st.mem.get((S, self.off_end), (UNDEF,))[0]
        d = lin.add(lin.add(lin.lin(end), lin.lin(cur), -1), lin.lin(args[2]), -1)
        self.need(st, lin.nonneg(st, d, fx) or st.ts["g_failed"], w, "append-overrun", "more bytes are stored than the buffer has room for")
        d = lin.add(lin.add(lin.lin(l), lin.lin(off), -1), lin.lin(args[2]), -1)
        self.need(st, lin.nonneg(st, d, fx), w, "append-overread", "more bytes are taken from the caller than it gave")
        self.append(eng, st, args[0], args[2], fx)
        st.ts["g_c"] = n + 1
        no = eng.binop(st, "add", off, args[2], 64) if off != 0 else args[2]
        if lin.is_zero(st, lin.add(lin.lin(l), lin.lin(no), -1), fx):
            st.ts["g_arg"] = k + 1
            st.ts["g_src"] = 0
        else:
            st.ts["g_src"] = no
        return [(st, None)]

    def append(self, eng, st, at, n, fx):
        if not lin.same(st, at, st.ts["g_end"], fx):
            if lin.same(st, st.ts["g_start"], st.ts["g_end"], fx) or st.ts["g_failed"] or self.cfg["type"] == "mem":
                st.ts["g_start"] = at
            # otherwise the pending region was abandoned; reported at the end of the function
            else:
                st.ts["g_lost"] = 1
                st.ts["g_start"] = at
        st.ts["g_end"] = eng.binop(st, "add", at, n, 64) if type(n) is not int else mkp(at, n)
        if type(n) is tuple:
            st.ts["g_end"] = eng.addsym(st, at, n, 1)
        a = st.ts["g_app"]
        st.ts["g_app"] = n if a == 0 else eng.binop(st, "add", a, n, 64)

    def on_store(self, eng, st, I, base, off, val, size):
        if size == 8 and self.cfg["ret"] == "moveflush" and val == self.B and type(base) is tuple and base[0] == "A" and off == self.off_block:
            st.ts["g_S"] = base
        # a single byte stored at the write position (writeByte)
        if size == 1 and self.cfg.get("byte"):
            cur = st.mem.get((self.S, self.off_cur), (None,))[0]
            at = mkp(base, off)
            if cur is not None and val == self.cfg["byte"] and (at == cur or mkp(at, 1) == cur):
                cur = at
                end = st.mem.get((self.S, self.off_end), (UNDEF,))[0]
                self.need(st, lin.nonneg(st, lin.add(lin.add(lin.lin(end), lin.lin(cur), -1), {None: -1})), self.where(st, I), "byte-overrun",
                          "a byte is stored although the buffer has no room")
                if val == self.cfg["byte"]:
                    self.append(eng, st, cur, 1, lin.facts(st))
                    st.ts["g_arg"] = st.ts["g_arg"] + 1

    def at_return(self, eng, st, val):
        self.returns += 1
        if self.cfg.get("noexit"):
            return
        w = self.end(st)
        S = self.S
        if self.cfg.get("moved"):
            S = ARG(self.root, self.cfg["moved"])
        fx = lin.facts(st)
        typ = self.cfg["type"]
        if self.cfg.get("text"):
            self.need(st, st.ts.get("g_text"), w, "text-not-taken", "the text is not built from the stream's blocks")
            return
        if self.cfg["ret"] == "moveflush":
            self.need(st, st.ts["g_failed"] or st.ts.get("g_lost") is None and lin.same(st, st.ts["g_start"], st.ts["g_end"], fx), w,
                      "lost-by-move", "bytes accepted before the stream was moved, or written after, are not delivered by a flush")
            return
        if self.cfg["ret"] == "movekeep":
            self.need(st, "g_dead" not in st.ts and not st.ts.get("g_n"), w, "moved-from-active", "a stream that was moved away still acts on the pipe")
        if self.cfg.get("destroyed"):
            if typ == "pipe" and not st.ts["g_failed"]:
                self.need(st, lin.same(st, st.ts["g_start"], st.ts["g_end"], fx), w, "lost-at-destruction",
                          "bytes still held by the stream are not delivered when it is destroyed")
            if typ == "pipe":
                own = self.cfg.get("owner", 0)
                self.need(st, (st.ts.get("g_dead") == 1) == (own == 1), w, "pipe-ownership", "an owned pipe is destroyed with its stream and a borrowed one is not")
                if own == 0:
                    self.need(st, "g_flushed" in st.ts or st.ts["g_failed"], w, "destroy-flush", "destroying the stream does not flush its pipe")
            return
        stv = eng.load(st, S, self.off_status, 4)
        km, kv = eng.kbits(st, stv)
        failed = st.ts["g_failed"]
        if not (km >> 31) & 1:
            self.need(st, False, w, "failure-unclear", "whether the stream remembers a failure depends on something other than the failure")
            return
        eof = (kv >> 31) & 1
        if typ == "pipe":
            if failed:
                self.need(st, eof == 1, w, "failure-forgotten", "the pipe failed but the stream does not remember it")
            else:
                self.need(st, eof == 0, w, "spurious-eof", "the stream reports end of file although the pipe did not fail")
        self.need(st, not st.ts.get("g_lost"), w, "bytes-lost", "bytes accepted earlier are dropped")
        cur = eng.load(st, S, self.off_cur, 8)
        end = eng.load(st, S, self.off_end, 8)
        if typ != "view":
            B = eng.load(st, S, self.off_block, 8)
            if not (type(B) is tuple and B[0] in ("s", "P", "e")):
                self.bad(st, w, "no-block", "the stream is left without a block")
                return
            bb, bo = split(B)
            Y = eng.load(st, bb, bo + self.b["bytes"], 8)
            U = eng.load(st, bb, bo + self.b["numBytesUsed"], 4)
            Z = eng.load(st, bb, bo + self.b["blockSize"], 4)
            F = eng.load(st, bb, bo + self.b["fileOffset"], 8)
            fx = lin.facts(st)
            if not failed and typ == "pipe":
                pend = lin.add(lin.lin(Y), lin.lin(U))
                nothing = lin.same(st, st.ts["g_start"], st.ts["g_end"], fx)
                if nothing:
                    ok = lin.is_zero(st, lin.add(lin.lin(cur), pend, -1), fx)
                    self.need(st, ok, w, "resend", "bytes already sent (or never written) are pending when the function returns")
                else:
                    ok = lin.is_zero(st, lin.add(pend, lin.lin(st.ts["g_start"]), -1), fx) and lin.same(st, cur, st.ts["g_end"], fx)
                    self.need(st, ok, w, "pending-lost", "the pending bytes are not those accepted and not yet sent")
            if not failed and typ == "mem":
                kept = B == self.B
                if kept:
                    # still in the same block: what was there is still below the write position
                    d = lin.add(lin.add(lin.lin(cur), lin.lin(Y), -1), lin.lin(self.C), -1)
                    self.need(st, lin.nonneg(st, d, fx) and lin.le(st, U, eng_sub(cur, Y), fx), w, "mem-lost", "bytes held in memory are dropped")
                else:
                    first = eng.load(st, self.B, self.b["nextBlock"], 8)
                    used = eng.load(st, self.B, self.b["numBytesUsed"], 4)
                    self.need(st, first not in (0, UNDEF), w, "mem-unlinked", "the next block is not linked after the one before it")
                    d = lin.add(lin.lin(used), lin.lin(self.C), -1)
                    self.need(st, lin.nonneg(st, d, lin.facts(st)), w, "mem-lost", "the bytes in the previous block are dropped")
            fx = lin.facts(st)
            if not failed:
                # capacity and position
                d = lin.add(lin.add(lin.lin(Y), lin.lin(Z)), lin.lin(end), -1)
                self.need(st, lin.is_zero(st, d, fx), w, "capacity", "the end pointer is not the end of the block")
                pos = lin.add(lin.add(lin.lin(F), lin.lin(cur)), lin.lin(Y), -1)
                was = lin.add(lin.add(lin.lin(self.F), lin.lin(self.C)), lin.lin(st.ts["g_app"]))
                self.need(st, lin.is_zero(st, lin.add(pos, was, -1), fx), w, "seek-position", "the stream position does not count the bytes written")
        room = lin.add(lin.lin(end), lin.lin(cur), -1)
        kind = self.cfg["ret"]
        n = self.cfg.get("n")
        fx = lin.facts(st)
        stop = eof if typ != "mem" else 0
        if kind == "make":
            self.need(st, lin.nonneg(st, lin.add(room, lin.lin(n), -1), fx), w, "make-room", "less room is available than the caller was promised")
        elif kind == "try":
            got = lin.lin(val)
            self.need(st, lin.nonneg(st, lin.add(room, got, -1), fx), w, "room-overstated", "more bytes are reported as available than there is room for")
            if not stop:
                self.need(st, lin.nonneg(st, lin.add(got, lin.lin(n), -1), fx), w, "room-understated", "fewer bytes than asked are made available although nothing failed")
            elif not self.cfg["eof"]:
                self.need(st, lin.nonneg(st, lin.add(lin.add(lin.lin(n), got, -1), {None: -1}), fx), w, "room-at-eof",
                          "as many bytes as asked are reported available although the pipe failed")
        elif kind == "write":
            t = eng.truth(st, val)
            self.need(st, t is not None and t == (stop == 0), w, "result", "the result does not tell whether the stream accepts data")
            if t is not False:
                self.need(st, st.ts["g_arg"] == len(self.cfg.get("srcs") or [1]) or
                          all(lin.is_zero(st, lin.lin(l), fx) for s, l in (self.cfg.get("srcs") or [])[st.ts["g_arg"]:]), w, "write-incomplete",
                          "the write reports success but did not take all bytes")
        elif kind == "flushint":
            t = eng.truth(st, val)
            self.need(st, t is not None and t == (stop == 0), w, "result", "the result does not tell whether the flush succeeded")
            if typ == "pipe" and not failed:
                self.need(st, lin.same(st, st.ts["g_start"], st.ts["g_end"], fx), w, "not-flushed", "bytes are still pending after a flush")
        elif kind == "flush":
            if typ == "pipe":
                if not failed:
                    self.need(st, lin.same(st, st.ts["g_start"], st.ts["g_end"], fx), w, "not-flushed", "bytes are still pending after a flush")
                    self.need(st, "g_flushed" in st.ts, w, "pipe-not-flushed", "the pipe is not flushed")
                if "dev" in self.cfg and "g_flushed" in st.ts:
                    g = st.ts["g_flushed"]
                    self.need(st, g == self.cfg["dev"] or eng.cmp(st, "eq", g, self.cfg["dev"], 8) is True, w, "flush-depth", "the requested flush depth does not reach the pipe")
                t = eng.truth(st, val) if val is not None else None
                if val is not None and st.ts.get("g_flushfail"):
                    self.need(st, t is False, w, "flush-failure-hidden", "the pipe failed to flush but success is reported")
                if val is not None and not st.ts.get("g_flushfail") and not failed:
                    self.need(st, t is True, w, "flush-false-failure", "a flush that succeeded is reported as failed")


class Ctor(Stream):
    """A freshly constructed stream satisfies what the other rules assume."""

    def setup(self, eng, st):
        super().setup(eng, st)
        for k in [k for k in st.mem if k[0] == self.S]:
            del st.mem[k]
        Q = ARG(self.root, 0)
        eng.aligned = (Q,)
        st.setne(Q, 0)

    def at_return(self, eng, st, val):
        self.returns += 1
        w = self.end(st)
        S = self.S
        ld = lambda o, off, n: eng.load(st, *[x + off if i else x for i, x in enumerate(split(o))], n)
        stv = ld(S, self.off_status, 4)
        km, kv = eng.kbits(st, stv)
        mem = self.cfg["type"] == "mem"
        m = 0xf0000000
        want = ((2 if mem else 1) << 28) | (self.cfg["owner"] << 30)
        if not self.need(st, km & m == m and kv & m == want, w, "ctor-status", "a new stream does not record its kind, its ownership of the pipe and that nothing failed"):
            return
        B = ld(S, self.off_block, 8)
        if not self.need(st, type(B) is tuple and B[0] in ("P", "s", "H", "e"), w, "ctor-block", "a new stream has no block"):
            return
        Y, Z, U, F = (ld(B, self.b[n], k) for n, k in (("bytes", 8), ("blockSize", 4), ("numBytesUsed", 4), ("fileOffset", 8)))
        cur, end = ld(S, self.off_cur, 8), ld(S, self.off_end, 8)
        fx = lin.facts(st)
        self.need(st, lin.same(st, cur, Y, fx) and U == 0 and F == 0, w, "ctor-position", "a new stream does not start at the first byte of an empty block")
        self.need(st, lin.is_zero(st, lin.add(lin.add(lin.lin(Y), lin.lin(Z)), lin.lin(end), -1), fx), w, "ctor-capacity", "the end of a new stream's buffer is not the end of its block")
        rc = ld(B, self.b["refCount"], 4)
        P = ld(S, self.off_pipe, 8)
        if mem:
            self.need(st, P == B and rc == 2, w, "ctor-head", "a new memory stream does not hold its first block")
        else:
            self.need(st, P == ARG(self.root, 0) and rc == 1, w, "ctor-pipe", "a new stream does not hold its pipe")


def eng_sub(a, b):
    return ("e", "sub", a, b)


def runner(prog, rep, root, mk, args=None, K=64):
    c = mk(root)
    eng = absint.Engine(prog, c, K=K, max_steps=900000)
    eng.WIDEN = 40
    eng.E_OBJECTS = eng.IDEAL = True
    eng.EDEPTH = 12
    eng.LIN = lin.refutes
    eng.run(root, args, init=(lambda e, s: c.setup(e, s)) if hasattr(c, "setup") else None)
    if eng.incomplete:
        rep.notes.append("incomplete: %s %s" % (root.qual, c.tag))
    if not c.returns:
        raise AnalysisError("%s (%s) never returns" % (root.qual, c.tag))
    rep.cover("paths_to_return", c.returns)
    rep.cover("obligations", c.oblig)
    return c


def run(rep, tier):
    for asserts in (1, 0):
        d, n = build.dump(["runtime"], drivers=["streams.cpp"], asserts=asserts)
        prog = ir.Program(d)
        rep.cover("translation_units", n)
        jobs = []
        calls_write = lambda f: any(I[0] == "call" and prog.callee(I) == "write" for bb in f.bbs for I in bb)
        dev = [f for f in prog.fns.values() if f.bbs and calls_write(f)]
        for f in dev:
            # (pipe, {bytes, n})
            if len(f.args) == 3:
                jobs.append(("dev", f, None))
        rep.require("device_write_functions", len([j for j in jobs if j[0] == "dev"]), 1)
        D = {f.short: f for f in prog.fns.values() if f.bbs and f.short.startswith(("drv_out", "drv_mem", "drv_ctor"))}
        for typ, eof, dr in (("pipe", 0, 0), ("pipe", 1, 0), ("pipe", 1, 1), ("mem", 0, 0), ("mem", 0, 2), ("view", 0, 0), ("view", 1, 0)):
            cfg = {"type": typ, "eof": eof, "drained": dr == 1, "single": dr == 2}
            def J(name, **kw):
                if name in D:
                    jobs.append(("stream", D[name], dict(cfg, **kw)))
            if not dr == 2:
                J("drv_out_try", ret="try", narg=1)
            J("drv_out_write", ret="write", nsrc=1)
            J("drv_out_writeByte", ret="write", byte=1)
            if typ != "view":
                J("drv_out_make", ret="make", narg=1)
            J("drv_out_flush", ret="flush", dev=1)
            if typ == "mem" and not eof:
                J("drv_mem_toString", ret="text", text=1)
            if typ == "pipe":
                J("drv_out_move_write_flush", ret="moveflush", nsrc=1)
                J("drv_out_move_away", ret="movekeep", moved=1)
                J("drv_out_write2", ret="none", nsrc=2)
                J("drv_out_write_flush_write", ret="none", nsrc=2)
                for own in (0, 1):
                    J("drv_out_destroy", ret="none", destroyed=1, owner=own)
                    if not eof:
                        J("drv_out_write_destroy", ret="none", nsrc=1, destroyed=1, owner=own)
        for n, t, own in (("drv_ctor_own", "pipe", 1), ("drv_ctor_borrow", "pipe", 0), ("drv_ctor_mem", "mem", 0)):
            if n in D:
                jobs.append(("ctor", D[n], {"type": t, "owner": own, "eof": 0, "drained": False, "ret": "ctor"}))
        rep.require("stream_entry_states", len([j for j in jobs if j[0] == "stream"]), 30)

        def one(job, r):
            kind, f, cfg = job
            if kind == "dev":
                c = runner(prog, r, f, lambda root: FdWrite(prog, r, root, "asserts=%d" % asserts, (ARG(f, 1), ARG(f, 2))))
                r.cover("device_writes", c.writes)
                return
            cfg = dict(cfg)
            cfg["stream"] = ARG(f, 1 if cfg.get("text") or f.short in ("drv_ctor_own", "drv_ctor_borrow") else 0)
            tag = "%s stream, failed before=%d%s" % (cfg["type"], cfg["eof"], ", drained" if cfg["drained"] else "")
            if cfg.get("nsrc"):
                cfg["srcs"] = [(ARG(f, 1 + 2 * i), ARG(f, 2 + 2 * i)) for i in range(cfg["nsrc"])]
            if cfg.get("narg"):
                cfg["n"] = ARG(f, cfg["narg"])
            if cfg.get("byte"):
                cfg["byte"] = ARG(f, 1)
            if cfg.get("dev"):
                cfg["dev"] = ARG(f, 1)

            def mk(root):
                c = (Ctor if kind == "ctor" else Stream)(prog, r, root, tag, cfg)
                orig = c.setup

                def setup(eng, st):
                    for s, l in cfg.get("srcs", []):
                        st.setrng(l, 0, 1 << 30)
                    if cfg.get("n"):
                        st.setrng(cfg["n"], 1, 1 << 30)
                    orig(eng, st)
                c.setup = setup
                return c
            c = runner(prog, r, f, mk)
            r.cover("pipe_writes", c.events)
        par.each(rep, jobs, one)
    rep.assumptions = ["integers do not overflow (buffers below 1 GiB)", "allocation succeeds", "at most %d copies and 2 pipe writes per call are followed" % MAXW]
    return rep.finish("conservation of pending bytes along every path of the output stream and device slots, with linear facts about the buffer pointers")
