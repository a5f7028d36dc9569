"""P03: network operations report results that match what happened."""
import build, ir, absint, clients, par
from absint import UNDEF, split
from report import AnalysisError

UNKNOWN, OK, NOSOCKET, UNREACHABLE, REFUSED, INUSE = range(6)
NAMES = ["Unknown", "OK", "NoSocket", "Unreachable", "Refused", "InUse"]
OPS = {"socket", "bind", "listen", "connect", "accept", "accept4"}
ENFILE, EMFILE, EADDRINUSE, ENETUNREACH, ENOBUFS, ECONNREFUSED, ENOMEM = 23, 24, 98, 101, 105, 111, 12
# documented classification: (call, errno) -> code
DOC = {"bindTCP": {("socket", EMFILE): NOSOCKET, ("socket", ENFILE): NOSOCKET, ("socket", ENOBUFS): NOSOCKET, ("socket", ENOMEM): NOSOCKET,
                   ("bind", EADDRINUSE): INUSE, ("listen", EADDRINUSE): INUSE},
       "connectTCP": {("socket", EMFILE): NOSOCKET, ("socket", ENFILE): NOSOCKET, ("socket", ENOBUFS): NOSOCKET, ("socket", ENOMEM): NOSOCKET,
                      ("connect", ECONNREFUSED): REFUSED, ("connect", ENETUNREACH): UNREACHABLE},
       "accept": {}}
MEANS = {NOSOCKET: {EMFILE, ENFILE, ENOBUFS, ENOMEM}, UNREACHABLE: {ENETUNREACH, 113}, REFUSED: {ECONNREFUSED}, INUSE: {EADDRINUSE}}
PURE = {"setsockopt", "getsockopt", "pthread_getspecific", "signal", "shutdown", "getpid", "fcntl", "getsockname", "getpeername"}


def evalx(e, env):
    """Value of an expression over known leaves, or None."""
    if type(e) is int:
        return e
    if e in env:
        return env[e]
    if type(e) is tuple and e[0] == "P":
        b = evalx(e[1], env)
        return None if b is None else b + e[2]
    if type(e) is tuple and e[0] == "e":
        a = [evalx(x, env) if type(x) in (tuple, int) else x for x in e[2:]]
        if any(x is None for x in a):
            return None
        op = e[1]
        try:
            if op == "lshr":
                return (a[0] & ((1 << a[2]) - 1)) >> a[1]
            return {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1], "and": lambda: a[0] & a[1],
                    "or": lambda: a[0] | a[1], "xor": lambda: a[0] ^ a[1], "shl": lambda: a[0] << a[1], "ashr": lambda: a[0] >> a[1],
                    "trunc": lambda: a[0] & ((1 << a[1]) - 1), "zext": lambda: a[0], "sext": lambda: a[0]}[op]()
        except (KeyError, IndexError, TypeError):
            return None
    return None


class Client(clients.PlyClient):
    max_depth = 14
    small_limit = 160

    def __init__(self, prog, rep, root, rel, slot):
        self.p, self.rep, self.root, self.slot = prog, rep, root, slot
        self.relevant, self.small = rel
        self.returns, self.codes, self.ports = 0, set(), 0
        self.key = [g for g, j in prog.globals.items() if "lastResult_" in j.get("d", "") and "Socket" in j.get("d", "")]
        if not self.key:
            raise AnalysisError("Socket lastResult_ vanished")
        self.fd_in = prog.field("ply::TCPConnection_POSIX", "inPipe"), prog.field("ply::InPipe_FD", "fd")
        self.fd_out = prog.field("ply::TCPConnection_POSIX", "outPipe"), prog.field("ply::OutPipe_FD", "fd")
        self.port_off = prog.field("ply::TCPConnection_POSIX", "remotePort_")
        if None in self.fd_in + self.fd_out + (self.port_off,):
            raise AnalysisError("TCPConnection_POSIX fields vanished")

    def pure(self, eng, name, fn):
        return name in PURE or (name or "").startswith("pthread_")

    def clobbers(self, eng, st, name, fn, g):
        if fn is not None and fn.bbs:
            return False        # nothing un-entered sets the socket globals or errno
        return g == clients.ERRNO or name not in ("close", "freeaddrinfo", "signal")

    def bad(self, st, kind, msg):
        f = self.root
        self.rep.violation("%s:%s" % (f.qual, kind), "%s:%d (%s)" % (f.file, f.line, f.qual), msg, absint.trace_lines(st, self.p))

    def mentions(self, v):
        if type(v) is tuple:
            return (v[:1] == ("G",) and v[1] in self.key) or any(self.mentions(x) for x in v if type(x) is tuple)
        return False

    def call(self, eng, st, name, fn, I, args):
        r = super().call(eng, st, name, fn, I, args)
        if r is not None:
            return r
        fr = st.top
        if name == "pthread_setspecific" and self.mentions(args[0]):
            st.ts["res"] = args[1]
            return [(st, 0)]
        if name == "pthread_getspecific" and self.mentions(args[0]):
            return [(st, st.ts.get("res", ("s", "prevres")))]
        if name == "close":
            eng.havoc(st, clients.ERRNO, (name, fr.ctx, fr.bb, fr.idx))
            return [(st, 0)]
        if name in OPS:
            f = st.copy()
            e = eng.fresh(f, "errno", name, fr.ctx, fr.bb, fr.idx)
            f.setrng(e, 1, 133)
            clients.set_errno(eng, f, e)
            f.ts[("op", name)] = ("fail", e, I[3])
            eng.havoc(st, clients.ERRNO, (name, fr.ctx, fr.bb, fr.idx))
            st.ts[("op", name)] = "ok"
            ok = 0
            if name in ("socket", "accept", "accept4"):
                ok = eng.fresh(st, "fd", name, fr.ctx, fr.bb, fr.idx)
                st.setrng(ok, 0, (1 << 31) - 1)
                st.ts["fd"] = ok
            if name == "socket":
                st.ts["family"] = args[0]
            if name in ("accept", "accept4"):
                for s in (st, f):
                    for x in (1, 2):
                        b, o = eng.ptr(s, args[x])
                        if type(b) is tuple and b != UNDEF:
                            eng.havoc(s, b, ("accept", fr.ctx, fr.bb, fr.idx, x))
            if name in ("bind", "listen", "connect"):
                for s in (st, f):
                    if args[0] != s.ts.get("fd"):
                        self.bad(s, name + "-fd", "%s is applied to something that is not the socket just created" % name)
            if name in ("bind", "connect"):
                self.address(eng, st, name, args)
            return [(st, ok), (f, -1)]
        return None

    def address(self, eng, st, name, args):
        b, o = eng.ptr(st, args[1])
        if type(b) is not tuple or b == UNDEF:
            return
        fam = eng.load(st, b, o, 2)
        want = st.ts.get("family")
        if type(fam) is int and type(want) is int and fam != want:
            self.bad(st, name + "-family", "the address family of %s (%d) is not that of the socket (%d)" % (name, fam, want))
        n = args[2]
        if type(fam) is int and type(n) is int and n != {2: 16, 10: 28}.get(fam, n):
            self.bad(st, name + "-length", "the address length %d does not fit address family %d" % (n, fam))
        port = eng.load(st, b, o + 2, 2)
        arg = self.port_arg()
        if type(port) is int:
            self.bad(st, name + "-port", "the port given to %s does not depend on the requested port" % name)
            return
        ok = True
        for p in range(0, 65536, 1 if self.ports == 0 else 251):
            v = evalx(port, {arg: p})
            if v is None:
                ok = None
                break
            if (v & 0xFFFF) != ((p >> 8) | ((p & 255) << 8)):
                ok = False
                break
        if ok is False:
            self.bad(st, name + "-port", "the port given to %s is not the requested port in network byte order" % name)
        if ok:
            self.ports += 1

    def port_arg(self):
        return ("s", "arg", self.root.name, len(self.root.args) - 1)

    def at_return(self, eng, st, val):
        self.returns += 1
        res = st.ts.get("res")
        if res is None:
            self.bad(st, "no-result", "a path returns without updating the last result code")
            return
        if type(res) is not int:
            lo, hi = st.rng(res)
            if lo == hi:
                res = lo
        b, o = eng.ptr(st, st.ts["sret"])
        if self.slot == "bindTCP":
            v = eng.load(st, b, o, 4)
            invalid = eng.cmp(st, "slt", v, 0)
        else:
            v = eng.load(st, b, o, 8)
            invalid = eng.cmp(st, "eq", v, 0)
        isok = eng.cmp(st, "eq", res, OK)
        if invalid is None or isok is None:
            self.rep.notes.append("undecided result on a path of " + self.root.qual)
        elif invalid == isok:
            self.bad(st, "object-vs-result", "returns %s while the last result code is %sOK" % ("no object" if invalid else "an object", "" if isok else "not "))
        fails = {k[1]: x for k, x in st.ts.items() if k[0] == "op" and type(x) is tuple}
        if fails and res == OK:
            self.bad(st, "ok-after-failed-" + sorted(fails)[0], "reports OK although %s failed" % ", ".join(sorted(fails)))
        oks = [k for k, x in st.ts.items() if k[0] == "op" and x == "ok"]
        if not fails and oks and type(res) is int and res != OK:
            self.bad(st, "failure-after-success", "reports %s although every OS call succeeded" % NAMES[res])
        for op, (_, e, line) in fails.items():
            if type(res) is not int:
                continue
            doc = DOC[self.slot]
            cand = [c for c in range(1, 134) if eng.cmp(st, "eq", e, c) is not False]
            if res in MEANS and any(c not in MEANS[res] for c in cand):
                self.bad(st, "wrong-code-" + NAMES[res], "reports %s for errors that do not mean it (e.g. errno %d from %s)" % (
                    NAMES[res], [c for c in cand if c not in MEANS[res]][0], op))
            for (o2, c), want in doc.items():
                if o2 == op and c in cand:
                    if res != want:
                        self.bad(st, "errno-%d" % c, "errno %d from %s is reported as %s instead of %s" % (c, op, NAMES[res], NAMES[want]))
                    elif len(cand) == 1:
                        self.codes.add((op, c))
        if self.slot != "bindTCP" and invalid is False and isok:
            cb, co = eng.ptr(st, v)
            fd = st.ts.get("fd")
            i = eng.load(st, cb, co + sum(self.fd_in), 4)
            w = eng.load(st, cb, co + sum(self.fd_out), 4)
            if i != fd or w != fd:
                self.bad(st, "connection-fd", "the %s side of the returned connection is not the connected socket" % ("reading" if i != fd else "writing"))
            if self.slot == "connectTCP":
                pv = eng.load(st, cb, co + self.port_off, 2)
                if type(pv) is int or (evalx(pv, {self.port_arg(): 0x1234}) not in (0x1234, None)):
                    self.bad(st, "remote-port", "the connection's remote port is not the requested one")
        if self.slot == "bindTCP" and invalid is False and isok and v != st.ts.get("fd"):
            self.bad(st, "listener-fd", "the returned listener does not own the bound socket")


def run(rep, tier):
    tot = 0
    for asserts in (1, 0):
        d, n = build.dump(["runtime"], asserts=asserts)
        prog = ir.Program(d)
        rep.cover("translation_units", n)
        rel = clients.summarize(prog, lambda f, I, c: c in OPS or c in ("pthread_setspecific", "close") and "network" in f.file)
        for scope, short in (("ply::Socket_POSIX", "bindTCP"), ("ply::Socket_POSIX", "connectTCP"), ("ply::TCPListener_POSIX", "accept")):
            fs = [f for f in prog.by_qual(scope + "::" + short)]
            if not fs:
                raise AnalysisError("%s::%s vanished" % (scope, short))
            f = fs[0]
            c = Client(prog, rep, f, rel, short)
            eng = absint.Engine(prog, c, K=40)

            def init(e, st):
                st.ts["sret"] = st.top.env[0]
            eng.run(f, init=init)
            tot += 1
            rep.cover("paths_to_return", c.returns)
            if eng.incomplete:
                rep.notes.append("incomplete: " + f.qual)
            if not c.returns:
                rep.violation("%s:never-returns" % f.qual, "%s:%d" % (f.file, f.line), "no path returns")
            for k in DOC[short]:
                rep.cover("documented_errno_obligations", 1)
                if k not in c.codes:
                    rep.violation("%s:errno-%d" % (f.qual, k[1]), "%s:%d (%s)" % (f.file, f.line, f.qual),
                                  "no returning path reports %s for errno %d from %s" % (NAMES[DOC[short][k]], k[1], k[0]))
            rep.cover("port_encodings_checked", c.ports)
    rep.require("operations_analysed", tot, 6)
    rep.assumptions = ["operator new never fails", "errno values are those of Linux", "setsockopt failures are tolerated by design"]
    return rep.finish("typestate dataflow over LLVM IR of bindTCP, connectTCP and accept with and without assertions: on each path the thread's "
                      "last result code is stored, is OK exactly when a valid object is returned and every OS call succeeded, and stands for "
                      "the errno that occurred; the object returned owns the socket; address family, length and port byte order match")
