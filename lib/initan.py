"""Which bytes of an object have been given a value, and which are used before (bottom-up over the call graph).

For every function and pointer parameter: the bytes written on every path to the return ('must'), the bytes possibly
read before they are written ('exposed'). Bytes are bit sets held in Python integers; the join of two paths keeps the
bytes both wrote. Calls that are not resolved, and addresses that leave the analysed shapes (stored to memory, merged
by a phi, indexed by a variable), count as having written everything: the analysis then stays silent.
"""
import re
from ir import operands

ALL = -1
NEW = ("_Znwm", "_Znam", "malloc", "_ZN3ply7Heap_DL8Operator5allocEm", "_ZN3ply8Heap_CRT8Operator5allocEm")


def span(off, size):
    return ((1 << size) - 1) << off


class Summary:
    __slots__ = ("must", "may", "exposed", "sites", "ret")

    def __init__(self):
        self.may = {}       # arg index -> bytes written on some path
        self.must = {}      # arg index -> bytes written on every return path
        self.exposed = {}   # arg index -> bytes possibly read before written
        self.ret = {}       # arg index -> offset (None: unknown) of a returned pointer into the argument
        self.sites = {}     # arg index -> (where, note) of one exposed read per byte group


class Analysis:
    def __init__(self, prog, skip=lambda f: False):
        self.p = prog
        self.sum = {}
        self.busy = set()
        self.skip = skip
        self.reports = {}     # fn -> list of (root desc, off, size, I, via)
        self.n_roots = self.n_reads = self.n_fns = 0

    def summary(self, name):
        s = self.sum.get(name)
        if s is not None:
            return s
        f = self.p.fns.get(name)
        if f is None or not f.bbs or name in self.busy:
            return None
        self.busy.add(name)
        s = self.analyse(f)
        self.busy.discard(name)
        self.sum[name] = s
        return s

    def roots(self, f):
        """SSA id -> (root, offset or None)"""
        ptr = {}
        nargs = len(f.args)
        size = {}
        for a in range(nargs):
            if f.args[a] == "p" or (isinstance(f.args[a], (list, tuple)) and f.args[a][0] == "p"):
                ptr[a] = (("arg", a), 0)
        esc = set()
        for bi in f.rpo():
            for I in f.bbs[bi]:
                op = I[0]
                if op == "alloca":
                    ptr[I[1]] = (("loc", I[1]), 0)
                    size[("loc", I[1])] = I
                elif op == "getelementptr":
                    b = ptr.get(I[4]) if type(I[4]) is int else None
                    if b:
                        ptr[I[1]] = (b[0], None if b[1] is None or I[6] else b[1] + I[5])
                elif op in ("call", "invoke") and I[1] >= 0 and self.p.callee(I) in NEW:
                    ptr[I[1]] = (("new", I[1]), 0)
                elif op in ("call", "invoke") and I[2] == "p":
                    s = self.summary(self.p.callee(I)) if self.p.callee(I) else None
                    hits = [(ptr[a], s.ret[k]) for k, a in enumerate(I[5]) if type(a) is int and a in ptr and k in s.ret] if s else []
                    if len(hits) == 1 and hits[0][1] is not None and len(s.ret) == 1:
                        (r, o), d = hits[0]
                        ptr[I[1]] = (r, None if o is None else o + d)
                    else:
                        for (r, o), d in hits:
                            if r[0] != "arg":
                                esc.add(r)
                elif op in ("phi", "select", "ptrtoint", "insertvalue"):
                    ops = [v for v, _ in I[4]] if op == "phi" else I[4:]
                    for v in ops:
                        if type(v) is int and v in ptr:
                            esc.add(ptr[v][0])
        # objects indexed by a variable are not followed byte by byte
        for bb in f.bbs:
            for I in bb:
                if I[0] == "store" and type(I[5]) is int and I[5] in ptr and ptr[I[5]][1] is None:
                    if ptr[I[5]][0][0] != "arg":
                        esc.add(ptr[I[5]][0])
        return ptr, esc

    def selectors(self, f):
        """phis of constants that a branch tests: which way the function came decides where it goes"""
        K, defs = set(), f.getdefs()
        work = []
        for bb in f.bbs:
            t = bb[-1]
            if t[0] == "switch" or t[0] == "br" and len(t) > 5:
                work.append(t[4])
        while work:
            v = work.pop()
            d = defs.get(v) if type(v) is int else None
            if d is None or v in K:
                continue
            if d[1][0] == "phi" and any(isinstance(x, dict) and "c" in x for x, _ in d[1][4]) or d[1][0] == "phi" and any(x in K for x, _ in d[1][4] if type(x) is int):
                K.add(v)
                work += [x for x, _ in d[1][4]]
            elif d[1][0] == "phi":
                work += []
            elif d[1][0] == "icmp" and d[1][6] in ("eq", "ne"):
                work += d[1][4:6]
        return K

    def masked(self, f):
        """loads of which only some bits are used (bit-field accesses)"""
        uses = {}
        for bb in f.bbs:
            for I in bb:
                for v in operands(I):
                    if type(v) is int:
                        uses.setdefault(v, []).append(I)
        r = set()
        for bb in f.bbs:
            for I in bb:
                if I[0] == "load" and all(u[0] == "and" and any(isinstance(x, dict) and "c" in x for x in u[4:6]) or u[0] in ("lshr", "shl", "trunc") for u in uses.get(I[1], ())):
                    r.add(I[1])
        return r

    def analyse(self, f):
        self.n_fns += 1
        S = Summary()
        ptr, esc = self.roots(f)
        bits = self.masked(f)
        # pointers merged from several arguments
        merged = {}
        for bb in f.bbs:
            for I in bb:
                if I[0] in ("phi", "select"):
                    ops = [v for v, _ in I[4]] if I[0] == "phi" else I[4:]
                    a = set()
                    for v in ops:
                        if type(v) is int:
                            a |= {ptr[v][0][1]} if v in ptr and ptr[v][0][0] == "arg" else merged.get(v, set())
                    if a:
                        merged[I[1]] = a
        used = {v for bb in f.bbs for I in bb for v in operands(I) if type(v) is int}
        may = {}

        def mw(r, m):
            if r[0] == "arg" and may.get(r, 0) != ALL:
                may[r] = ALL if m == ALL else may.get(r, 0) | m
        sret = bool(f.args) and "sret" in f.args[0][2:]
        nb = len(f.bbs)
        # stored addresses escape from the store on; collected flow-insensitively
        stored = {}
        for bb in f.bbs:
            for I in bb:
                if I[0] == "store" and type(I[4]) is int and I[4] in ptr:
                    stored[ptr[I[4]][0]] = True
                elif I[0] == "ret" and len(I) > 4 and type(I[4]) is int and I[4] in ptr:
                    pass
        rets = []

        def transfer(bi, st, rec=None):
            st = dict(st)
            for I in f.bbs[bi]:
                op = I[0]
                if op == "store":
                    p = ptr.get(I[5]) if type(I[5]) is int else None
                    if p:
                        r, o = p
                        mw(r, ALL if o is None or o < 0 else span(o, I[6]))
                        if o is None or o < 0:
                            st[r] = ALL
                        elif st.get(r, 0) != ALL:
                            st[r] = st.get(r, 0) | span(o, I[6])
                    v = ptr.get(I[4]) if type(I[4]) is int else None
                    if v and v[0][0] != "arg":
                        st[("esc", v[0])] = 1
                elif op == "load":
                    p = ptr.get(I[4]) if type(I[4]) is int else None
                    if p and rec is not None and I[1] not in bits:
                        rec("read", p[0], p[1], I[5], I, st)
                elif op in ("call", "invoke"):
                    c = self.p.callee(I)
                    if c and c.startswith("llvm."):
                        if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                            d, n = I[5][0], I[5][2]
                            p = ptr.get(d) if type(d) is int else None
                            src = ptr.get(I[5][1]) if type(I[5][1]) is int and "memset" not in c else None
                            if p:
                                r, o = p
                                mw(r, ALL if o is None or o < 0 or not (isinstance(n, dict) and "c" in n) else span(o, n["c"]))
                                if o is None or o < 0 or not (isinstance(n, dict) and "c" in n):
                                    st[r] = ALL
                                elif st.get(r, 0) != ALL:
                                    m = span(o, n["c"])
                                    if src and src[1] is not None and src[0] not in esc and ("esc", src[0]) not in st and src[0][0] != "arg" and st.get(src[0], 0) != ALL:
                                        m = ((st.get(src[0], 0) >> src[1]) & ((1 << n["c"]) - 1)) << o
                                        st[r] = (st.get(r, 0) & ~span(o, n["c"])) | m
                                    else:
                                        st[r] = st.get(r, 0) | m
                        continue
                    if c in NEW:
                        if I[1] >= 0:
                            st[("new", I[1])] = 0
                            st.pop(("esc", ("new", I[1])), None)
                        continue
                    tgt = self.p.fns.get(c) if c else None
                    s = self.summary(c) if tgt is not None and tgt.bbs and not self.skip(tgt) else None
                    for k, a in enumerate(I[5]):
                        p = ptr.get(a) if type(a) is int else None
                        if not p:
                            continue
                        r, o = p
                        if s is None or o is None or o < 0:
                            mw(r, ALL)
                            st[r] = ALL
                            continue
                        mw(r, ALL if s.may.get(k, 0) == ALL else s.may.get(k, 0) << o)
                        ex = s.exposed.get(k, 0)
                        if ex and rec is not None:
                            rec("call", r, o, ex, I, st, s.sites.get(k), c)
                        # a used result can tell the caller which paths wrote the object; an ignored one cannot
                        m = s.may.get(k, 0) if I[1] in used else s.must.get(k, 0)
                        if st.get(r, 0) != ALL:
                            st[r] = ALL if m == ALL else st.get(r, 0) | (m << o)
                    # anything whose address was stored may be written by any call
                    for r in [r for r in st if type(r) is tuple and r[0] == "esc"]:
                        st[r[1]] = ALL
                elif op == "ret":
                    v = ptr.get(I[4]) if len(I) > 4 and type(I[4]) is int else None
                    if v and v[0][0] == "arg":
                        S.ret[v[0][1]] = v[1] if S.ret.get(v[0][1], v[1]) == v[1] else None
                    elif len(I) > 4 and type(I[4]) is int and I[4] in merged:
                        for a in merged[I[4]]:
                            S.ret[a] = None
                    if rec is not None:
                        rec("ret", None, None, None, I, st)
            return st

        def join(a, b):
            if a is None:
                return dict(b)
            r = {}
            for k in set(a) | set(b):
                x, y = a.get(k), b.get(k)
                if type(k) is tuple and k[0] == "esc":
                    r[k] = 1
                elif type(k) is tuple and k[0] in ("new", "loc") and (x is None or y is None):
                    r[k] = y if x is None else x     # not yet created on the other path
                    if k[0] == "loc":
                        r[k] = 0
                elif x is None or y is None:
                    r[k] = 0
                else:
                    r[k] = x & y
            return r

        order = f.rpo()
        K = self.selectors(f)
        live = f.live_in()
        defs = f.getdefs()

        def val(env, v):
            if isinstance(v, dict):
                return v.get("c")
            if v in env:
                return env[v]
            d = defs.get(v)
            if d and d[1][0] == "icmp" and d[1][6] in ("eq", "ne"):
                x, y = (env.get(o) if type(o) is int else o.get("c") for o in d[1][4:6])
                if x is not None and y is not None:
                    return int((x == y) == (d[1][6] == "eq"))
            return None

        def edges(bi, env):
            t = f.bbs[bi][-1]
            if t[0] == "br" and len(t) > 5:
                c = val(env, t[4])
                return [t[5], t[6]] if c is None else [t[5] if c else t[6]]
            if t[0] == "switch":
                c = val(env, t[4])
                if c is not None:
                    return [next((x[1] for x in t[6] if x[0] == c), t[5])]
            return f.succs()[bi]

        def enter(bi, sx, env):
            e = {k: v for k, v in env.items() if k in live[sx]}
            for I in f.bbs[sx]:
                if I[0] != "phi":
                    break
                if I[1] in K:
                    for v, b in I[4]:
                        if b == bi:
                            c = val(env, v)
                            e.pop(I[1], None)
                            if c is not None:
                                e[I[1]] = c
                            break
                else:
                    e.pop(I[1], None)
            return e

        inn = [dict() for _ in range(nb)]
        inn[0] = {(): {}}
        work, n = True, 0
        while work and n < 40:
            work = False
            n += 1
            for bi in order:
                for key, st in list(inn[bi].items()):
                    env = dict(key)
                    o = transfer(bi, st)
                    for sx in set(edges(bi, env)):
                        k2 = tuple(sorted(enter(bi, sx, env).items()))
                        if k2 not in inn[sx] and len(inn[sx]) >= 48:
                            k2 = ()
                        old = inn[sx].get(k2)
                        nw = join(old, o)
                        if old is None or nw != old:
                            inn[sx][k2] = nw
                            work = True
        reports = []

        def rec(kind, r, o, n, I, st, site=None, callee=None):
            if kind == "ret":
                rets.append(dict(st))
                return
            have = st.get(r, 0)
            if have == ALL or r in esc and r[0] != "arg" or o is None or o < 0:
                return
            self.n_reads += 1
            need = span(o, n) if kind == "read" else n << o
            miss = need & ~have
            if not miss or kind == "read" and miss != need:
                return
            if r[0] == "arg":
                k = r[1]
                S.exposed[k] = S.exposed.get(k, 0) | miss
                S.sites.setdefault(k, {})
                b = miss
                while b:
                    low = (b & -b).bit_length() - 1
                    if kind == "call":
                        S.sites[k].setdefault(low, (site or {}).get(low - o, (f, I)))
                    else:
                        S.sites[k].setdefault(low, (f, I))
                    b &= b - 1
            else:
                reports.append((r, miss, I, kind, callee, o, site))
        for bi in order:
            for st in inn[bi].values():
                transfer(bi, st, rec)
        self.n_roots += len({v[0] for v in ptr.values()})
        self.reports[f.name] = reports
        if f.args and f.args[0][1] == "this" and S.exposed.get(0) and f.scope in self.p.types:
            # what an array or a union member holds goes with a count or a tag elsewhere
            m = 0
            for o, n, _, _ in leaves(self.p, f.scope):
                m |= span(o, n)
            S.exposed[0] &= m
        for a in range(len(f.args)):
            r = ("arg", a)
            if r in esc:
                may[r] = ALL
                if sret and a == 0:
                    S.must[a] = S.may[a] = ALL
                    continue
            m = None
            for st in rets:
                x = st.get(r, 0)
                m = x if m is None else m & x
            S.must[a] = ALL if m is None else m
            S.may[a] = may.get(r, 0)
        return S


SCALAR = re.compile(r"(\*|&)$|^(const )?(bool|char|(un)?signed( char| int| short| long)?|unsigned|int|short|long|float|double|long int|long unsigned int|unsigned int|unsigned long|unsigned char|unsigned short|fn\(\))$")


def leaves(prog, ty, base=0, path="", depth=0):
    """(offset, size, member path, type) of every scalar member; unions and arrays give nothing."""
    t = prog.types.get(ty)
    if t is None or depth > 6 or t.get("union"):
        return
    for nm, ob, sb, mt in t.get("m", ()):
        o = base + ob // 8
        if mt.startswith("const "):
            mt2 = mt[6:] if not mt.endswith(("*", "&")) else mt
        else:
            mt2 = mt
        nt = prog.types.get(mt2)
        p = path + ("." if path else "") + nm if nm != "<base>" else path
        if nt is not None and "enum" not in nt:
            yield from leaves(prog, mt2, o, p, depth + 1)
        elif mt2.endswith("[]"):
            continue
        elif sb % 8 == 0 and sb:
            yield (o, sb // 8, p or "<base>", mt2)
