"""P02: every OS handle acquired is released exactly once."""
import build, ir, absint, clients, par
from absint import UNDEF, split, is_obj
from report import AnalysisError

ACQ = {"open", "open64", "openat", "creat", "dup", "socket", "accept", "accept4", "opendir", "fdopendir", "pipe", "pipe2", "fopen", "fopen64", "epoll_create",
       "inotify_init", "mkstemp", "memfd_create", "eventfd"}
PTRS = {"opendir", "fopen", "fopen64", "fdopendir"}
REL = {"close": 0, "closedir": 0, "fclose": 0}
USES = {"read", "write", "fcntl", "dup2", "fstat", "lseek", "setsockopt", "getsockopt", "bind", "listen", "connect", "readdir", "shutdown", "send",
        "recv", "ioctl", "fsync", "ftruncate", "pread", "pwrite", "dirfd", "accept", "dup", "getpeername", "getsockname", "sendto", "recvfrom", "poll"}
_r = {}


class Client(clients.PlyClient):
    max_depth = 14
    small_limit = 120

    def __init__(self, prog, rep, root, rel, strict):
        self.p, self.rep, self.root, self.strict = prog, rep, root, strict
        self.relevant, self.small = rel
        self.returns = 0
        self.acq = set()
        self.relseen = set()

    def bad(self, st, where, kind, msg):
        self.rep.violation("%s:%s" % (self.root.qual if not self.strict else "lifecycle " + self.root.qual, kind), where, msg,
                           absint.trace_lines(st, self.p))

    def pure(self, eng, name, fn):
        return name is not None and (name in USES or name.startswith("pthread_") or name in ("waitpid", "kill", "fork", "mkdir", "unlink", "getaddrinfo"))

    def clobbers(self, eng, st, name, fn, g):
        if g == clients.ERRNO and fn is not None and fn.bbs and name not in self.relevant:
            return False
        # a function that is not entered may only change the globals it can reach
        return fn is None or not fn.bbs or g[1] in self.gmod(name)

    def gmod(self, name):
        """Globals stored by a function or its callees."""
        c = _r.setdefault(("gmod", id(self.p)), {})
        if name in c:
            return c[name]
        out, seen, work = set(), set(), [name]
        while work:
            n = work.pop()
            if n in seen or n not in self.p.fns or not self.p.fns[n].bbs:
                continue
            seen.add(n)
            for bb in self.p.fns[n].bbs:
                for I in bb:
                    if I[0] == "store" and isinstance(I[5], dict) and "g" in I[5]:
                        out.add(I[5]["g"])
                    elif I[0] in ("call", "invoke"):
                        k = self.p.callee(I)
                        if k:
                            work.append(k)
        c[name] = out
        return out

    def acquired(self, eng, st, v):
        # two open handles are never equal
        for k, x in list(st.ts.items()):
            if type(k) is tuple and k[0] == "fd" and x == "open" and k[1] != v:
                eng.assume_cmp(st, "ne", v, k[1], 32)
        st.ts[("fd", v)] = "open"

    def site(self, st, I, what):
        fr = st.top
        return "%s in %s" % (what, fr.fn.qual)

    def call(self, eng, st, name, fn, I, args):
        r = super().call(eng, st, name, fn, I, args)
        if r is not None:
            return r
        fr = st.top
        if name == "fcntl" and len(args) > 1 and args[1] in (0, 1030):
            name = "dup"
        if name in ("pipe", "pipe2"):
            b, o = eng.ptr(st, args[0])
            f = st.copy()
            for k in (0, 1):
                v = eng.fresh(st, "fd", name, k, fr.ctx, fr.bb, fr.idx)
                st.setrng(v, 0, (1 << 31) - 1)
                if type(b) is tuple and b != UNDEF:
                    eng.store(st, b, o + 4 * k, 4, v)
                self.acquired(eng, st, v)
                st.ts[("_at", v)] = (name, fr.fn.qual, fr.fn.file, I[3])
            self.acq.add(self.site(st, I, name))
            return [(st, 0), (f, -1)]
        if name in ACQ:
            f = st.copy()
            e = eng.fresh(f, "errno", name, fr.ctx, fr.bb, fr.idx)
            f.setrng(e, 1, 133)
            clients.set_errno(eng, f, e)
            v = eng.fresh(st, "fd", name, fr.ctx, fr.bb, fr.idx)
            if name in PTRS:
                st.setne(v, 0)
            else:
                st.setrng(v, 0, (1 << 31) - 1)
            self.acquired(eng, st, v)
            st.ts[("_at", v)] = (name, fr.fn.qual, fr.fn.file, I[3])
            self.acq.add(self.site(st, I, name))
            if name == "accept" and type(args[1]) is tuple:
                for s in (st, f):
                    for x in (1, 2):
                        b, o = eng.ptr(s, args[x])
                        if type(b) is tuple and b != UNDEF:
                            eng.havoc(s, b, ("accept", fr.ctx, fr.bb, fr.idx, x))
            return [(st, v), (f, 0 if name in PTRS else -1)]
        if name in REL:
            v = args[REL[name]]
            self.relseen.add(self.site(st, I, name))
            if type(v) is tuple and v[0] in ("s", "e"):
                k = ("fd", v)
                cur = st.ts.get(k)
                if cur == "closed":
                    self.bad(st, self.where(st, I), "double-close", "a handle is released twice")
                st.ts[k] = "closed"
            elif v == -1 and name == "close":
                self.bad(st, self.where(st, I), "close-invalid", "the invalid handle is closed")
            return [(st, 0)]
        if name in USES:
            for v in args:
                if type(v) is tuple and st.ts.get(("fd", v)) == "closed":
                    self.bad(st, self.where(st, I), "use-after-close:" + name, "%s uses a handle that was released" % name)
            if name == "readdir":
                v = eng.fresh(st, "dirent", fr.ctx, fr.bb, fr.idx)
                eng.havoc(st, v, ("dirent", fr.ctx, fr.bb, fr.idx))
                return [(st, v)]
            if name == "dup2":
                return [(st, args[1])]
        return None

    def opaque(self, eng, st, name, fn, I, args):
        if name in USES:
            return None
        out = set()
        for a in args:
            if type(a) is tuple:
                self.escape(st, a)
                eng.reach(st, a, out)
        for (b, o), (w, s) in list(st.mem.items()):
            if b in out and type(w) is tuple:
                self.escape(st, w)
        return None

    def on_store(self, eng, st, I, base, off, val, size):
        if base[0] == "G" and type(val) is tuple and st.ts.get(("fd", val)) == "open":
            st.ts[("fd", val)] = "static"      # kept for the life of the process

    def escape(self, st, v):
        k = ("fd", v)
        if st.ts.get(k) == "open":
            st.ts[k] = "escaped"

    def at_return(self, eng, st, val):
        self.returns += 1
        out = set()
        held = set()
        roots = [val] + list(st.top.env.values()) if False else [val]
        if type(val) is tuple and val[0] == "agg":
            roots += [x for _, x in val[1]]
        for v in roots:
            if type(v) is tuple:
                held.add(v)
                eng.reach(st, v, out)
        for i, a in enumerate(st.top.fn.args):
            v = ("s", "arg", st.top.fn.name, i)
            eng.reach(st, v, out)
        for (b, o), (w, s) in list(st.mem.items()):
            if b[0] == "G" or b[0] == "s":
                if b not in out:
                    out.add(b)
                    for (b2, o2), (w2, s2) in list(st.mem.items()):
                        if b2 == b and type(w2) is tuple:
                            eng.reach(st, w2, out)
        for (b, o), (w, s) in st.mem.items():
            if b in out and type(w) is tuple:
                held.add(w)
        for k, v in st.ts.items():
            if type(k) is tuple and k[0] == "fd" and v == "open":
                h = k[1]
                at = st.ts.get(("_at", h))
                if self.strict and not any((b[0] == "G" and w == h) for (b, o), (w, s) in st.mem.items()):
                    self.bad(st, "%s:%d (%s)" % (at[2], at[3], at[1]), "leak:%s in %s" % (at[0], at[1]),
                             "a handle from %s is still open when its last owner is gone" % at[0])
                elif h not in held:
                    self.bad(st, "%s:%d (%s)" % (at[2], at[3], at[1]), "leak:%s in %s" % (at[0], at[1]),
                             "a handle from %s is neither released nor handed over on a returning path" % at[0])


def run(rep, tier):
    for asserts in ((1,) if tier == "quick" else (1, 0)):
        d, n = build.dump(["runtime"], drivers=["p02.cpp"], asserts=asserts)
        prog = ir.Program(d)
        rel = clients.summarize(prog, lambda f, I, c: c in ACQ or c in REL or (c == "fcntl"))
        rep.cover("translation_units", n)
        roots = sorted([f for f in prog.fns.values() if f.bbs and f.name in rel[0] and not f.name.startswith("_GLOBAL__")], key=lambda f: f.name)
        sites, rsites, done, lifecycles = set(), set(), 0, 0
        roots.sort(key=lambda f: (not f.short.startswith("drv_"), -sum(len(b) for b in f.bbs)))

        def one(f, r):
            strict = f.short.startswith("drv_")
            c = Client(prog, r, f, rel, strict)
            eng = absint.Engine(prog, c, K=4, max_steps=1500000)
            eng.run(f)
            r.cover("paths_to_return", c.returns)
            if eng.incomplete:
                r.notes.append("incomplete: " + f.qual)
            if strict and not c.returns:
                raise AnalysisError("lifecycle %s never returns" % f.short)
            return c.acq, c.relseen, strict
        for a, b, strict in par.each(rep, roots, one):
            sites |= a
            rsites |= b
            done += 1
            lifecycles += strict
        rep.cover("functions_analysed", done)
        rep.cover("lifecycles", lifecycles)
        rep.require("acquisition_sites", len(sites), 10)
        rep.require("release_sites", len(rsites), 6)
        rep.require("lifecycles", lifecycles, 13)
    rep.assumptions = ["close() succeeds", "handles stored in globals live for the process", "allocation succeeds"]
    return rep.finish("typestate (open/closed/handed over) of every OS handle along every path of every function that acquires or releases one, "
                      "with callees entered, plus whole lifecycles in which the owner is destroyed; sites: " + "; ".join(sorted(sites)))
