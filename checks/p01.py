"""P01: FileSystem result codes tell the truth about every operation."""
import build, ir, absint, fsmodel
from fsmodel import FSClient, FSRESULT, ENOENT, EACCES, EEXIST, EISDIR, EPERM, ENOTDIR
from absint import UNDEF, split
from report import AnalysisError

OK = 4
# errno values whose classification is documented, per operation
DOC = {
    "listDir": {ENOENT: 1, EACCES: 3},
    "makeDir": {EEXIST: 5, EACCES: 3},
    "setWorkingDirectory": {ENOENT: 1},
    "openPipeForRead": {ENOENT: 1, EACCES: 3},
    "openPipeForWrite": {ENOENT: 1, EACCES: 3},
    "removeDirTree": {EACCES: 3},
    "getFileStatus": {ENOENT: 1},
}
# errno values a specific code may stand for
MEANS = {1: {ENOENT, ENOTDIR}, 3: {EACCES, EPERM, 30}, 5: {EEXIST, EISDIR}, 2: {16, 26, 11, 35}}
RETURNS_CODE = {"makeDir", "setWorkingDirectory", "moveFile", "deleteFile", "removeDirTree", "makeDirs",
                "makeDirsAndSaveBinaryIfDifferent", "makeDirsAndSaveTextIfDifferent", "next"}
RETURNS_OWNED = {"openPipeForRead", "openPipeForWrite", "openStreamForRead", "openStreamForWrite", "openTextForRead",
                 "openTextForReadAutodetect", "openTextForWrite"}


class Client(FSClient):
    def __init__(self, prog, rep, slot, root, asserts):
        super().__init__(prog)
        self.rep, self.slot, self.root, self.asserts = rep, slot, root, asserts
        self.returns = 0
        self.codes = set()      # (errno, code) seen on returning paths
        self.undecided = 0
        self.transfers = 0
        self.nexts = set()

    def on_ok(self, eng, st, name, I, val, args):
        if name == "readdir" and val == 0:
            st.ts[("op", "readdir")] = "end"
        else:
            st.ts[("op", name)] = "ok"

    def on_fail(self, eng, st, name, I, e, args):
        st.ts[("op", name)] = ("fail", e, I[3])

    def call(self, eng, st, name, fn, I, args):
        transfer = None
        if fn is not None and fn.scope == "ply::InPipe" and fn.short == "read":
            transfer = "read"
        elif name is None:
            v = eng.val(st, I[4])
            if type(v) is tuple and v[:2] == ("s", "ld") and v[3] == self.p.field("ply::OutPipe::Funcs", "write") and I[2] == "i1" \
                    and args and type(v[2]) is tuple and v[2][:2] == ("s", "ld") and v[2][2] == args[0]:
                transfer = "write"
        if transfer:
            # moves bytes through the opened file: all of them, or it reports failure
            self.transfers += 1
            bad = st.copy()
            e = self.newerr(eng, bad, transfer, I)
            self.on_ok(eng, st, transfer, I, 1, args)
            self.on_fail(eng, bad, transfer, I, e, args)
            return [(st, 1), (bad, 0)]
        return super().call(eng, st, name, fn, I, args)

    def contract_ok(self, st, fn):
        # a recursive or sibling operation is used through its contract
        return True

    def bad(self, eng, st, kind, msg):
        f = self.root
        self.rep.violation("%s:%s:%s" % (f.qual, self.slot, kind), "%s:%d (%s)" % (f.file, f.line, f.qual), msg,
                           absint.trace_lines(st, self.p))

    def sretval(self, eng, st, off, size):
        v = st.ts.get("sret")
        b, o = eng.ptr(st, v)
        if type(b) is not tuple or b == UNDEF:
            return UNDEF
        return eng.load(st, b, o + off, size)

    def at_return(self, eng, st, val):
        self.returns += 1
        if self.slot == "listDir":
            b, o = eng.ptr(st, self.sretval(eng, st, 0, 8))
            if type(b) is tuple and b != UNDEF:
                f = eng.load(st, b, o + self.p.field("ply::Directory::Impl", "next"), 8)
                if type(f) is tuple and f[0] == "P" and f[1][0] == "G" and f[1][1] in self.p.fns:
                    self.nexts.add(f[1][1])
        res = st.ts.get("res")
        fails = {k[1]: v for k, v in st.ts.items() if k[0] == "op" and type(v) is tuple and v[0] == "fail"}
        oks = [k[1] for k, v in st.ts.items() if k[0] == "op" and v in ("ok", "end")]
        if self.slot in ("exists", "isDir"):
            if res is not None:
                self.bad(eng, st, "touches-result", "an existence query changes the last result code")
            if self.slot != "exists":
                return
            if "stat" in fails:
                if eng.cmp(st, "eq", val, 0) is False:
                    self.bad(eng, st, "exists-after-failure", "exists() reports an entry although stat failed")
            elif "mode" in st.ts:
                m = ("e", "and", st.ts["mode"], 0xF000)
                for isdir, want in ((True, 2), (False, 1)):
                    s = st.copy()
                    if not eng.assume_cmp(s, "eq" if isdir else "ne", m, 0x4000, 32):
                        continue
                    v = val
                    while type(v) is tuple and v[0] == "e" and v[1] == "select":
                        t = eng.truth(s, v[2])
                        if t is None:
                            break
                        v = v[3] if t else v[4]
                    if eng.cmp(s, "eq", v, want) is False:
                        self.bad(eng, st, "exists-kind", "exists() classifies a %s wrongly" % ("directory" if isdir else "file"))
                    elif type(v) is not int:
                        self.undecided += 1
            return
        if res is None:
            self.bad(eng, st, "no-result", "a path returns without updating the last result code")
            return
        lr = res
        if self.slot in RETURNS_CODE and val is not None:
            if val != lr and eng.cmp(st, "eq", val, lr) is not True:
                if eng.cmp(st, "eq", val, lr) is False or type(val) is int or type(lr) is int:
                    self.bad(eng, st, "return-mismatch", "the returned code differs from the stored last result code")
                else:
                    self.bad(eng, st, "return-mismatch", "the returned code is not the stored last result code (%r vs %r)" % (val, lr))
        if self.slot == "getFileStatus":
            v = self.sretval(eng, st, 0, 4)
            if eng.cmp(st, "eq", v, lr) is False:
                self.bad(eng, st, "return-mismatch", "FileStatus::result differs from the stored last result code")
        if self.slot in RETURNS_OWNED:
            v = self.sretval(eng, st, 0, 8)
            isnull = eng.cmp(st, "eq", v, 0)
            isok = eng.cmp(st, "eq", lr, OK)
            if isnull is not None and isok is not None:
                if isnull == isok:
                    self.bad(eng, st, "null-vs-result", "returns %s while the last result code is %sOK" % ("null" if isnull else "an object", "" if isok else "not "))
        if type(lr) is not int and eng.cmp(st, "eq", lr, OK) is True:
            lr = OK
        if not type(lr) is int:
            b, o = split(lr)
            if not (type(lr) is tuple and lr[:2] == ("s", "fsres")):
                self.undecided += 1
            return
        # outcome of the OS calls on this path
        for op in list(fails):
            e = fails[op][1]
            if op in ("stat", "lstat") and self.slot in ("listDir", "next") and eng.cmp(st, "eq", e, ENOENT) is True:
                del fails[op]    # the entry vanished between readdir and stat: it is skipped
        if fails and lr == OK:
            self.bad(eng, st, "ok-after-failed-" + sorted(fails)[0], "reports OK although %s failed" % ", ".join(sorted(fails)))
        if not fails and oks and lr != OK and lr not in (6,) and self.slot in self.sl.values():
            self.bad(eng, st, "failure-after-success", "reports %s although every OS call succeeded" % FSRESULT[lr] if 0 <= lr < 7 else "bad code")
        for op, (_, e, line) in fails.items():
            doc = DOC.get(self.slot, {})
            if self.slot == "next":
                doc = {}
            if lr in MEANS:
                pinned = any(eng.cmp(st, "eq", e, c) is True for c in MEANS[lr])
                if not pinned:
                    lo, hi = st.rng(e, "S")
                    cand = [c for c in range(max(1, lo), min(133, hi) + 1) if eng.cmp(st, "eq", e, c) is not False]
                    if len(fails) == 1 and any(c not in MEANS[lr] for c in cand):
                        self.bad(eng, st, "wrong-code-%s" % FSRESULT[lr],
                                 "reports %s for errors that do not mean it (e.g. errno %d from %s)" % (FSRESULT[lr], [c for c in cand if c not in MEANS[lr]][0], op))
            for c, want in doc.items():
                if op in ("stat", "readdir") and self.slot == "listDir":
                    continue
                if len(fails) == 1 and eng.cmp(st, "eq", e, c) is not False:
                    if lr != want and lr != OK:
                        self.bad(eng, st, "errno-%d" % c, "errno %d from %s is reported as %s instead of %s" % (c, op, FSRESULT[lr], FSRESULT[want]))
                    elif lr == want and eng.cmp(st, "eq", e, c) is True:
                        self.codes.add((c, lr))


def entries(prog):
    out = []
    for g, row in fsmodel.tables(prog).items():
        for s, f in row.items():
            fn = prog.fns.get(f)
            if fn is None or not fn.bbs:
                raise AnalysisError("slot %s of %s has no definition" % (s, g))
            out.append((g, s, fn))
    for f in sorted(prog.fns.values(), key=lambda f: f.name):
        if f.bbs and f.scope == "ply::FileSystem" and (f.short in RETURNS_CODE or f.short in RETURNS_OWNED or f.short in (
                "loadBinary", "loadText", "loadTextAutodetect", "walk")):
            out.append(("FileSystem", f.short, f))
    return out


unsupported = set()


def analyse(rep, prog, asserts):
    n = 0
    tabs = fsmodel.tables(prog)
    todo = entries(prog)
    seen = set()
    while todo:
        g, slot, fn = todo.pop(0)
        if (slot, fn.name) in seen:
            continue
        seen.add((slot, fn.name))
        if fn.name in unsupported:
            continue
        c = Client(prog, rep, slot, fn, asserts)
        eng = absint.Engine(prog, c, K=60)
        # the entry itself is entered, siblings are contracts

        def init(e, st):
            if fn.args and fn.args[0][2] == "sret":
                st.ts["sret"] = st.top.env[0]
        eng.run(fn, init=init)
        n += 1
        for x in c.nexts:
            todo.append((g, "next", prog.fns[x]))
        rep.cover("paths_to_return", c.returns)
        rep.cover("whole-file reads and writes", c.transfers)
        rep.cover("os_call_and_callee_visits", eng.calls_seen)
        if eng.incomplete:
            rep.notes.append("incomplete: " + slot + " " + fn.qual)
        if c.undecided:
            rep.notes.append("undecided result value in " + fn.qual)
        if asserts and c.returns == 0 and slot in ("setWorkingDirectory", "getWorkingDirectory") and "Virtual" in g:
            unsupported.add(fn.name)     # documented as unsupported there: asserts before doing anything
            rep.notes.append("unsupported by design: " + fn.qual)
        elif asserts and c.returns == 0:
            rep.violation("%s:%s:never-returns" % (fn.qual, slot), "%s:%d" % (fn.file, fn.line), "no path returns")
        if slot in DOC and "POSIX" in g:
            for e, want in DOC[slot].items():
                rep.cover("documented_errno_obligations", 1)
                if (e, want) not in c.codes:
                    rep.violation("%s:%s:errno-%d" % (fn.qual, slot, e), "%s:%d (%s)" % (fn.file, fn.line, fn.qual),
                                  "no returning path reports %s for errno %d%s" % (FSRESULT[want], e, " (the program aborts)" if asserts else ""))
    return n


def run(rep, tier):
    total = 0
    for asserts in (1, 0):
        d, n = build.dump(["runtime"], asserts=asserts)
        prog = ir.Program(d)
        total += analyse(rep, prog, asserts)
        rep.cover("translation_units", n)
    rep.require("operations_analysed", total, 40)
    rep.assumptions = ["operator new and PlyHeap never fail", "a stat that fails with ENOENT inside directory iteration is a vanished entry",
                       "errno values are those of Linux"]
    return rep.finish("typestate dataflow over LLVM IR of every FileSystem::Funcs slot and every FileSystem wrapper, with and without "
                      "assertions: on each path the last result code is stored once it is due, equals the returned code, agrees with the "
                      "outcome and errno of the OS calls made, and pointers are null exactly when the code is not OK")
