"""FileSystem anchors: operation tables, entry functions, OS-call outcome model."""
import absint, clients
from absint import UNDEF, split, is_obj
from report import AnalysisError

FUNCS_T = "ply::FileSystem::Funcs"
FSRESULT = ["Unknown", "NotFound", "Locked", "AccessDenied", "OK", "AlreadyExists", "Unchanged"]
ENOENT, EACCES, EEXIST, EISDIR, EPERM, ENOTDIR, EINTR, ERANGE = 2, 13, 17, 21, 1, 20, 4, 34

INT_OPS = {"stat", "lstat", "stat64", "mkdir", "chdir", "rename", "unlink", "rmdir", "remove", "fstat", "access", "mkdirat", "fstatat",
           "unlinkat", "renameat"}
FD_OPS = {"open", "open64", "openat", "creat"}
PTR_OPS = {"opendir", "getcwd", "realpath"}


def slots(prog):
    t = prog.types.get(FUNCS_T)
    if not t:
        raise AnalysisError("type %s vanished" % FUNCS_T)
    return {m[1] // 8: m[0] for m in t["m"] if m[0] != "pathFmt"}


def tables(prog):
    """global name -> {slot name: function name}"""
    sl = slots(prog)
    out = {}
    for g, j in prog.globals.items():
        if j.get("type", "").replace("const ", "") != FUNCS_T or "init" not in j:
            continue
        row = {}
        for o, n, c in j["init"].get("s", []):
            if o in sl and "g" in c:
                row[sl[o]] = prog.aliases.get(c["g"], c["g"])
        out[g] = row
    return out


_rel = {}


def relevance(prog):
    if id(prog) not in _rel:
        ops = INT_OPS | FD_OPS | PTR_OPS | {"readdir", "pthread_setspecific", "pthread_getspecific"}

        def interesting(f, I, c):
            if c in ops:
                return True
            if c is None and type(I[4]) is int:
                # call through a table: *(*x + slot)
                d = f.getdefs().get(I[4])
                if d and d[1][0] == "load" and type(d[1][4]) is int:
                    g = f.getdefs().get(d[1][4])
                    while g and g[1][0] == "getelementptr" and type(g[1][4]) is int:
                        g = f.getdefs().get(g[1][4])
                    return bool(g and g[1][0] == "load" and any(x in f.file for x in ("filesystem",)))
            return False
        _rel[id(prog)] = clients.summarize(prog, interesting)
    return _rel[id(prog)]


class FSClient(clients.PlyClient):
    """Models OS calls as succeed-or-fail, and other FileSystem entries by contract."""
    max_depth = 12

    def __init__(self, prog):
        self.p = prog
        self.sl = slots(prog)
        self.key_global = None
        for g, j in prog.globals.items():
            if "lastResult_" in j.get("d", "") and "FileSystem" in j.get("d", ""):
                self.key_global = g
        if not self.key_global:
            raise AnalysisError("FileSystem::lastResult_ vanished")
        self.entry_names = set()
        self.slot_of = {}
        for g, row in tables(prog).items():
            for s, f in row.items():
                self.slot_of[f] = s
        self.slot_sig = {}
        for f, s in self.slot_of.items():
            if f in prog.fns:
                self.slot_sig.setdefault(s, set()).add((prog.fns[f].ret, len(prog.fns[f].args)))
        for f in prog.fns.values():
            if f.bbs and f.scope == "ply::FileSystem" and f.short not in (
                    "setLastResult", "lastResult", "native", "pathFormat", "createVirtual", "FileSystem", "~FileSystem"):
                self.slot_of.setdefault(f.name, f.short)
        self.root = None

        self.relevant, self.small = relevance(prog)

    def pure(self, eng, name, fn):
        return name in ("pthread_getspecific", "readdir", "closedir", "strlen", "strerror", "close", "lseek")

    def clobbers(self, eng, st, name, fn, g):
        if g == clients.ERRNO and fn is not None and fn.bbs and name not in self.relevant:
            return False
        return True

    def is_key(self, eng, st, I):
        a = I[5][0]
        # pthread key value loaded from the lastResult_ global
        v = eng.val(st, a)
        return type(v) is tuple and v[0] in ("s", "e") and self.mentions(v)

    def mentions(self, v):
        if type(v) is tuple:
            if v[:1] == ("G",) and v[1] == self.key_global:
                return True
            return any(self.mentions(x) for x in v if type(x) is tuple)
        return False

    def slot_contract(self, eng, st, slot, I, args, sret):
        """Another FileSystem operation: it stores a result code and reports it."""
        fr = st.top
        if slot in ("exists", "isDir"):
            v = eng.fresh(st, "ex", fr.ctx, I[1])
            st.setrng(v, 0, 2 if slot == "exists" else 1)
            return [(st, v)]
        site = ("slot", fr.ctx, I[1], fr.bb, fr.idx)
        r = eng.fresh(st, "fsres", fr.ctx, fr.bb, fr.idx)
        st.setrng(r, 0, 6)
        st.ts["res"] = r
        st.ts[("site", "res")] = ("contract", slot)
        if sret is not None:
            b, o = eng.ptr(st, sret)
            if type(b) is tuple and b != UNDEF:
                eng.havoc(st, b, site)
                if slot == "getFileStatus":
                    eng.store(st, b, o, 4, r)
                elif slot.startswith("open"):
                    st2 = st.copy()
                    eng.store(st2, b, o, 8, 0)
                    st.ts["opened"], st2.ts["opened"] = True, False
                    st2.setne(r, 4)
                    p = eng.fresh(st, "opened", fr.ctx, fr.bb, fr.idx)
                    st.setne(p, 0)
                    st.setrng(r, 4, 4)
                    eng.store(st, b, o, 8, p)
                    return [(st, None), (st2, None)]
            return [(st, None)]
        return [(st, r)] if I[1] >= 0 else [(st, None)]

    def table_slot(self, eng, st, I, args):
        """Indirect call through FileSystem::funcs?"""
        v = eng.val(st, I[4])
        if type(v) is tuple and v[:2] == ("s", "ld") and v[3] in self.sl:
            t = v[2]
            if type(t) is tuple and t[:2] == ("s", "ld") and t[3] == 0:
                for k in (0, 1):
                    if k < len(args) and args[k] == t[2]:
                        if (I[2], len(args)) not in self.slot_sig.get(self.sl[v[3]], ()):
                            continue
                        return self.sl[v[3]], (args[0] if k == 1 else None)
        return None, None

    def call(self, eng, st, name, fn, I, args):
        r = super().call(eng, st, name, fn, I, args)
        if r is not None:
            return r
        fr = st.top
        if name is None:
            slot, sret = self.table_slot(eng, st, I, args)
            if slot:
                return self.slot_contract(eng, st, slot, I, args, sret)
            v = eng.val(st, I[4])
            if type(v) is tuple and v[:2] == ("s", "ld") and v[3] == self.p.field("ply::Directory::Impl", "next") and args and args[0] == v[2]:
                r = eng.fresh(st, "fsres", fr.ctx, fr.bb, fr.idx)
                st.setrng(r, 0, 6)
                st.ts["res"] = r
                eng.havoc(st, v[2], ("next", fr.ctx, fr.bb, fr.idx))
                eng.store(st, v[2], v[3], 8, v)
                return [(st, r)]
            return None
        if name in self.slot_of and fn is not None and (fn is not self.root or len(st.frames) > 0) and self.contract_ok(st, fn):
            sret = args[0] if fn.args and fn.args[0][2] == "sret" else None
            return self.slot_contract(eng, st, self.slot_of[name], I, args, sret)
        if name == "pthread_setspecific" and self.is_key(eng, st, I):
            st.ts["res"] = args[1]
            return [(st, 0)]
        if name == "pthread_getspecific" and self.is_key(eng, st, I):
            v = st.ts.get("res")
            if v is None:
                v = ("s", "prevres")
            return [(st, v)]
        return self.oscall(eng, st, name, I, args)

    def contract_ok(self, st, fn):
        return True

    def newerr(self, eng, st, name, I):
        fr = st.top
        e = eng.fresh(st, "errno", name, fr.ctx, fr.bb, fr.idx)
        st.setrng(e, 1, 133)
        clients.set_errno(eng, st, e)
        return e

    def on_ok(self, eng, st, name, I, val, args):
        pass

    def on_fail(self, eng, st, name, I, e, args):
        pass

    def oscall(self, eng, st, name, I, args):
        fr = st.top
        if name in INT_OPS or name in FD_OPS or name in PTR_OPS:
            f = st.copy()
            e = self.newerr(eng, f, name, I)
            eng.havoc(st, clients.ERRNO, (name, fr.ctx, fr.bb, fr.idx))
            if name in INT_OPS:
                ok, bad = 0, -1
            elif name in FD_OPS:
                ok, bad = eng.fresh(st, "fd", name, fr.ctx, fr.bb, fr.idx), -1
                st.setrng(ok, 0, (1 << 31) - 1)
            else:
                if name == "getcwd":
                    ok = args[0]
                    if not st.setne(ok, 0):
                        ok = eng.fresh(st, "ptr", name, fr.ctx, fr.bb, fr.idx)
                else:
                    ok = eng.fresh(st, "ptr", name, fr.ctx, fr.bb, fr.idx)
                    st.setne(ok, 0)
                bad = 0
            if name in ("stat", "lstat", "fstat", "stat64"):
                b, o = eng.ptr(st, args[1])
                if type(b) is tuple and b != UNDEF:
                    eng.havoc(st, b, ("stat", fr.ctx, fr.bb, fr.idx))
                    m = eng.fresh(st, "st_mode", fr.ctx, fr.bb, fr.idx)
                    eng.store(st, b, o + 24, 4, m)
                    st.ts["mode"] = m
            if name == "getcwd":
                b, o = eng.ptr(st, args[0])
                if type(b) is tuple and b != UNDEF:
                    eng.havoc(st, b, ("getcwd", fr.ctx, fr.bb, fr.idx))
            self.on_ok(eng, st, name, I, ok, args)
            self.on_fail(eng, f, name, I, e, args)
            return [(st, ok), (f, bad)]
        if name in ("readdir", "readdir64"):
            f = st.copy()
            end = st.copy()
            e = self.newerr(eng, f, name, I)
            ok = eng.fresh(st, "dirent", fr.ctx, fr.bb, fr.idx)
            st.setne(ok, 0)
            eng.havoc(st, ok, ("dirent", fr.ctx, fr.bb, fr.idx))
            self.on_ok(eng, st, name, I, ok, args)
            self.on_ok(eng, end, name, I, 0, args)
            self.on_fail(eng, f, name, I, e, args)
            return [(st, ok), (end, 0), (f, 0)]
        return None
