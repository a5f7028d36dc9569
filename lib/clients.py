"""Shared modelling of Plywood's runtime services for absint clients."""
import absint
from absint import UNDEF, split, is_obj, mkp

ALLOC = {"_Znwm", "_Znam", "malloc", "calloc", "_ZN3ply7Heap_DL8Operator5allocEm", "_ZN3ply8Heap_CRT8Operator5allocEm"}
REALLOC = {"realloc", "_ZN3ply7Heap_DL8Operator7reallocEPvm", "_ZN3ply8Heap_CRT8Operator7reallocEPvm"}
FREE = {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZN3ply7Heap_DL8Operator4freeEPv", "_ZN3ply8Heap_CRT8Operator4freeEPv"}
HEAP_OPERATE = ("_ZN3ply7Heap_DL7operateEPKc", "_ZN3ply8Heap_CRT7operateEPKc")
ERRNO = ("G", "errno")


def summarize(prog, interesting):
    """Transitive facts per function: reaches an interesting instruction, inlined size, has a loop."""
    direct, callees = {}, {}
    for n, f in prog.fns.items():
        if not f.bbs:
            continue
        d = False
        cs = set()
        size = 0
        for bb in f.bbs:
            size += len(bb)
            for I in bb:
                if I[0] in ("call", "invoke"):
                    c = prog.callee(I)
                    if c is not None:
                        cs.add(c)
                    if not d and interesting(f, I, c):
                        d = True
        direct[n] = (d, size, bool(f.loop_heads()))
        callees[n] = cs
    reach = {n for n, v in direct.items() if v[0]}
    changed = True
    rev = {}
    for n, cs in callees.items():
        for c in cs:
            rev.setdefault(c, set()).add(n)
    work = list(reach)
    while work:
        n = work.pop()
        for m in rev.get(n, ()):
            if m not in reach:
                reach.add(m)
                work.append(m)
    small = {}

    def total(n, depth):
        if n in small:
            return small[n]
        if n not in direct:
            return 1
        if depth > 8 or direct[n][2]:
            small[n] = 100000
            return small[n]
        small[n] = 100000   # recursion
        t = direct[n][1]
        for bb in prog.fns[n].bbs:
            for I in bb:
                if I[0] in ("call", "invoke"):
                    c = prog.callee(I)
                    if c is not None and c in direct:
                        t += total(c, depth + 1)
        small[n] = t
        return t
    for n in list(direct):
        total(n, 0)
    return reach, small


class PlyClient(absint.Client):
    """Heap, errno and static-local guards."""
    small_limit = 90
    relevant = None     # set of function names, or None for everything
    small = {}

    def should_inline(self, eng, st, fn):
        if self.relevant is None:
            return True
        return fn.name in self.relevant or self.small.get(fn.name, 100000) <= self.small_limit

    def newobj(self, eng, st, site):
        o = ("H", site)
        if o in st.seen:
            eng.age(st, o)
        st.seen.add(o)
        for k in [k for k in st.mem if k[0] == o]:
            del st.mem[k]
        st.ver.pop(o, None)
        st.copies = tuple(c for c in st.copies if c[0] != o and c[3] != o)
        return o

    def on_alloc(self, eng, st, obj, size, I):
        pass

    def on_free(self, eng, st, ptr, I):
        pass

    def call(self, eng, st, name, fn, I, args):
        if name is None:
            return None
        if name in ALLOC:
            o = self.newobj(eng, st, ("new", st.top.ctx, I[1]))
            self.on_alloc(eng, st, o, args[-1], I)
            return [(st, ("P", o, 0))]
        if name in REALLOC:
            old = args[-2]
            o = self.newobj(eng, st, ("new", st.top.ctx, I[1]))
            b, off = split(old)
            if type(b) is tuple and b[0] in ("H", "s") and off == 0:
                for (x, f), v in list(st.mem.items()):
                    if x == b:
                        st.mem[(o, f)] = v
                st.ver[o] = ("re", st.top.ctx, I[1])
            self.on_realloc(eng, st, old, o, args[-1], I)
            return [(st, ("P", o, 0))]
        if name in FREE:
            self.on_free(eng, st, args[-1], I)
            return [(st, None)]
        if name in HEAP_OPERATE:
            return [(st, ("s", "heap"))]
        if name == "__errno_location":
            return [(st, ("P", ERRNO, 0))]
        if name == "__cxa_guard_acquire":
            return None
        return None

    def on_realloc(self, eng, st, old, new, size, I):
        pass

    def where(self, st, I):
        fr = st.top
        return "%s:%d (%s)" % (fr.fn.file, I[3], fr.fn.qual)


def set_errno(eng, st, val):
    eng.store(st, ERRNO, 0, 4, val)


def get_errno(eng, st):
    return eng.load(st, ERRNO, 0, 4)
