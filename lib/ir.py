"""Resolved program model on top of irdump's output."""
import re

BR_OPS = {"br", "switch", "ret", "unreachable"}

class Fn:
    __slots__ = ("name", "d", "file", "line", "args", "ret", "bbs", "vars", "scope", "short", "sig",
                 "noreturn", "addr", "internal", "artificial", "_live", "_succ", "_pred", "_loop", "defs", "_rpo")

    def __init__(self, name, j):
        self.name = name
        self.d = j["d"]
        self.file = j.get("file", "")
        self.line = j.get("line", 0)
        self.args = j["args"]
        self.ret = j["ret"]
        self.bbs = j.get("bbs")
        self.vars = {int(k): v for k, v in j.get("vars", {}).items()}
        self.scope = j.get("scope", "")
        self.short = j.get("name", "")
        self.sig = j.get("sig", [])
        self.noreturn = j.get("noreturn", False)
        self.addr = j.get("addr", False)
        self.internal = j.get("internal", False)
        self.artificial = j.get("artificial", False)
        self._live = None
        self._succ = None
        self._pred = None
        self._loop = None
        self._rpo = None
        self.defs = None

    @property
    def qual(self):
        """Qualified name without parameters."""
        if self.short:
            return (self.scope + "::" if self.scope else "") + self.short
        return base_name(self.d)

    def succs(self):
        if self._succ is None:
            r = []
            for bb in self.bbs:
                t = bb[-1]
                if t[0] == "br":
                    r.append([t[5], t[6]] if len(t) > 5 else [t[4]])
                elif t[0] == "switch":
                    r.append([t[5]] + [c[1] for c in t[6]])
                else:
                    r.append([])
            self._succ = r
        return self._succ

    def preds(self):
        if self._pred is None:
            p = [[] for _ in self.bbs]
            for i, ss in enumerate(self.succs()):
                for s in ss:
                    if i not in p[s]:
                        p[s].append(i)
            self._pred = p
        return self._pred

    def rpo(self):
        if self._rpo is None:
            seen, out = set(), []
            stack = [(0, iter(self.succs()[0]))]
            seen.add(0)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs()[s])))
                        break
                else:
                    out.append(n)
                    stack.pop()
            self._rpo = out[::-1]
        return self._rpo

    def loop_heads(self):
        if self._loop is None:
            state = {}
            heads = set()
            stack = [(0, 0)]
            state[0] = 1
            while stack:
                n, i = stack[-1]
                ss = self.succs()[n]
                if i < len(ss):
                    stack[-1] = (n, i + 1)
                    s = ss[i]
                    if state.get(s, 0) == 0:
                        state[s] = 1
                        stack.append((s, 0))
                    elif state[s] == 1:
                        heads.add(s)
                else:
                    state[n] = 2
                    stack.pop()
            self._loop = heads
        return self._loop

    def getdefs(self):
        if self.defs is None:
            self.defs = {}
            for bi, bb in enumerate(self.bbs):
                for I in bb:
                    if I[1] >= 0:
                        self.defs[I[1]] = (bi, I)
        return self.defs

    def live_in(self):
        """SSA ids live at entry of each block (phi operands count as used at pred end)."""
        if self._live is not None:
            return self._live
        n = len(self.bbs)
        use, de, phiuse = [set() for _ in range(n)], [set() for _ in range(n)], [dict() for _ in range(n)]
        for bi, bb in enumerate(self.bbs):
            for I in bb:
                if I[0] == "phi":
                    for v, b in I[4]:
                        if isinstance(v, int):
                            phiuse[b].setdefault(bi, set()).add(v)
                    de[bi].add(I[1])
                    continue
                for v in operands(I):
                    if isinstance(v, int) and v not in de[bi]:
                        use[bi].add(v)
                if I[1] >= 0:
                    de[bi].add(I[1])
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for bi in range(n - 1, -1, -1):
                out = set()
                for s in self.succs()[bi]:
                    out |= live[s]
                    out |= phiuse[bi].get(s, set())
                new = use[bi] | (out - de[bi])
                if new != live[bi]:
                    live[bi] = new
                    changed = True
        self._live = [frozenset(x) for x in live]
        return self._live


def operands(I):
    op = I[0]
    if op == "br":
        return [I[4]] if len(I) > 5 else []
    if op == "switch":
        return [I[4]]
    if op == "phi":
        return [v for v, _ in I[4]]
    if op == "getelementptr":
        return [I[4]] + [x[0] for x in I[6]]
    if op in ("call", "invoke"):
        return [I[4]] + list(I[5])
    if op in ("icmp", "fcmp"):
        return [I[4], I[5]]
    if op == "alloca":
        return []
    if op == "load":
        return [I[4]]
    if op == "store":
        return [I[4], I[5]]
    if op == "extractvalue":
        return [I[4]]
    if op == "shufflevector":
        return [I[4], I[5]]
    if op in ("insertvalue", "atomicrmw"):
        return [I[4], I[5]]
    if op == "cmpxchg":
        return [I[4], I[5], I[6]]
    if op == "fence":
        return []
    return [x for x in I[4:] if not isinstance(x, str)]


def base_name(d):
    """Strip parameters (and template args of the function) from a demangled name."""
    s = d
    s = re.sub(r"\[abi:[^\]]*\]", "", s)
    # cut at the parameter list: the last top-level '('
    depth = 0
    i = len(s) - 1
    # remove trailing qualifiers such as ' const'
    while i >= 0 and s[i] != ")":
        i -= 1
    if i < 0:
        return s
    j = i
    depth = 0
    while j >= 0:
        if s[j] == ")":
            depth += 1
        elif s[j] == "(":
            depth -= 1
            if depth == 0:
                break
        j -= 1
    s = s[:j]
    # drop return type of templates: find last space at depth 0 not inside <>
    depth = 0
    for k in range(len(s) - 1, -1, -1):
        if s[k] in ">)" and not (k > 0 and s[k-1] in "-") and not s[:k + 1].endswith("operator>") and not s[:k+1].endswith("operator>>"):
            depth += 1
        elif s[k] in "<(" and not s[:k + 1].endswith("operator<") and not s[:k+1].endswith("operator<<"):
            depth -= 1
        elif s[k] == " " and depth == 0:
            if "operator" in s[:k].split("::")[-1] or s[:k].endswith("operator"):
                continue
            s = s[k + 1:]
            break
    return s


class Program:
    def __init__(self, dump):
        self.fns = {n: Fn(n, j) for n, j in dump["fns"].items()}
        self.globals = dump["globals"]
        self.types = dump["types"]
        self.aliases = dump.get("aliases", {})
        self._qual = {}
        for f in self.fns.values():
            self._qual.setdefault(f.qual, []).append(f)

    def resolve(self, name):
        name = self.aliases.get(name, name)
        return self.fns.get(name)

    def by_qual(self, q, defined=True):
        return [f for f in self._qual.get(q, []) if f.bbs or not defined]

    def find(self, rx, defined=True):
        r = re.compile(rx)
        return [f for f in self.fns.values() if (f.bbs or not defined) and r.search(f.d)]

    def callee(self, I):
        """Direct callee function name of a call instruction, or None."""
        c = I[4]
        if isinstance(c, dict) and "g" in c:
            return self.aliases.get(c["g"], c["g"])
        return None

    def field(self, ty, name):
        """Byte offset of a (possibly inherited) member."""
        t = self.types.get(ty)
        if not t:
            return None
        for m in t.get("m", []):
            if m[0] == name:
                return m[1] // 8
        for m in t.get("m", []):
            if m[0] == "<base>" or m[0] == "":
                o = self.field(m[3], name)
                if o is not None:
                    return m[1] // 8 + o
        return None

    def field_at(self, ty, off, depth=0):
        """Dotted member path at byte offset."""
        t = self.types.get(ty)
        if not t or depth > 6:
            return None
        best = None
        for m in t.get("m", []):
            o, sz = m[1] // 8, max(1, (m[2] + 7) // 8)
            if o <= off < o + sz:
                sub = self.field_at(m[3], off - o, depth + 1)
                nm = m[0]
                if nm == "<base>":
                    r = sub or "<base>"
                else:
                    r = nm + ("." + sub if sub else "")
                best = best or r
        return best
