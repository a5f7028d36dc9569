"""P11: thread primitives and the locks around shared state."""
import re
import build, ir, absint, clients
from absint import UNDEF, split

ORDER = {2: "relaxed", 4: "acquire", 5: "release", 6: "acq_rel", 7: "seq_cst"}
LOOSE = ("cx no", "sem_wait again", "cond_wait")     # may repeat: waiting


class Client(clients.PlyClient):
    max_depth = 24
    small_limit = 400
    ATOMICS = True

    def __init__(self, prog):
        self.p = prog
        self.small = {}
        self.out = []
        self.keep = set()

    def should_inline(self, eng, st, fn):
        return True

    def pure(self, eng, name, fn):
        return True

    def clobbers(self, eng, st, name, fn, g):
        return False

    def ev(self, st, *e):
        t = st.ts.get("ev", ())
        if e[0] in LOOSE:       # waiting, again: what was seen before no longer counts
            while t and t[-1][0] in LOOSE + ("read",):
                t = t[:-1]
        elif e[0] == "rmw xchg":
            while t and t[-1][0] == "rmw xchg":
                t = t[:-1]
        elif e[0] == "read":
            t = tuple(x for x in t if x[:2] != e[:2])
        if len(t) > 40:
            return
        st.ts["ev"] = t + (e,)

    def on_atomic(self, eng, st, I, kind, order, base, off, val):
        a = ("P", base, off) if base is not None else None
        for v in val if type(val) is tuple and len(val) == 2 else (val,):
            if type(v) is tuple and v[:2] == ("s", "at"):
                self.keep.add(v)
        if kind == "cx no":
            self.ev(st, kind, a, ORDER.get(order, order), val)
        else:
            self.ev(st, kind, a, ORDER.get(order, order), val)

    def on_load(self, eng, st, I, base, off, size):
        if base in self.args:
            r = eng.load(st, base, off, size, I[2], (st.top.ctx, I[1]))
            if not (self.ATOMICS and len(I) > 6 and I[6]):
                self.ev(st, "read", ("P", base, off), None, r)
            return r
        return None

    def on_store(self, eng, st, I, base, off, val, size):
        if base in self.args and I[0] == "store" and not I[7]:
            self.ev(st, "write", ("P", base, off), None, val)

    def addr(self, v):
        b, o = split(v) if type(v) is tuple else (v, 0)
        return ("P", b, o)

    def call(self, eng, st, name, fn, I, args):
        n = name or ""
        m = re.match(r"(?:_ZL\d+__gthrw_)?(pthread_\w+|sem_\w+|clock_gettime|nanosleep)$", n)
        if m:
            n = m.group(1)
            a = self.addr(args[0]) if args else None
            if n == "pthread_mutex_trylock":
                s2 = st.copy()
                self.ev(st, n + " ok", a)
                self.ev(s2, n + " busy", a)
                return [(st, 0), (s2, 16)]
            if n == "sem_wait":
                s2 = st.copy()
                self.ev(st, n + " ok", a)
                self.ev(s2, n + " again", a)
                eng.store(s2, clients.ERRNO, 0, 4, 4)
                return [(st, 0), (s2, -1)]
            if n in ("pthread_mutexattr_init", "pthread_condattr_init"):
                return [(st, 0)]
            if n == "pthread_mutexattr_settype":
                self.ev(st, "settype", None, args[1])
                return [(st, 0)]
            if n in ("pthread_cond_wait", "pthread_cond_timedwait"):
                t = None
                if len(args) > 2:
                    b, o = eng.ptr(st, args[2])
                    t = (eng.load(st, b, o, 8), eng.load(st, b, o + 8, 8))
                self.ev(st, n[8:], a, self.addr(args[1]), t)
                self.wake(eng, st, a)
                return [(st, 0)]
            if n == "pthread_create":
                self.ev(st, n, a, args[2], args[3])
                return [(st, 0)]
            if n == "clock_gettime":
                b, o = eng.ptr(st, args[1])
                eng.store(st, b, o, 8, ("s", "now_s"))
                ns = ("s", "now_ns")
                st.setrng(ns, 0, 999999999)
                st.setrng(("s", "now_s"), 0, 1 << 40)
                eng.store(st, b, o + 8, 8, ns)
                self.ev(st, n, args[0])
                return [(st, 0)]
            if n == "pthread_getspecific":
                r = eng.fresh(st, "tls")
                self.ev(st, n, args[0], r)
                return [(st, r)]
            if n in ("pthread_setspecific", "pthread_join", "pthread_detach", "pthread_key_delete"):
                self.ev(st, n, args[0], args[1] if n == "pthread_setspecific" else None)
                return [(st, 0)]
            self.ev(st, re.sub("^pthread_", "", n), a)
            return [(st, 0)]
        for pat, k in (("condition_variable_any4wait", "cond_wait"), ("condition_variable_any10notify_one", "cond_signal"), ("condition_variable_any10notify_all", "cond_broadcast"),
                       ("condition_variable10notify_one", "cond_signal"), ("condition_variable10notify_all", "cond_broadcast")):
            if pat in n:
                self.ev(st, k, self.addr(args[0]), self.addr(args[1]) if len(args) > 1 else None, None)
                self.wake(eng, st, self.addr(args[0]))
                return [(st, None)]
        if re.match(r"_ZN2FnD[012]Ev$", n):
            self.ev(st, "end", self.addr(args[0]))
            return [(st, None)]
        if re.match(r"_ZN2FnC[12]E", n):
            self.ev(st, "begin", self.addr(args[0]))
            return [(st, None)]
        if n == "_ZN2FnclEv":
            self.ev(st, "run", self.addr(args[0]))
            return [(st, None)]
        m = re.search(r"on(Partial|Full|)RefCountZero", n)
        if m:
            self.ev(st, "zero" + m.group(1), self.addr(args[0]))
            return [(st, None)]
        return super().call(eng, st, name, fn, I, args)

    def wake(self, eng, st, a):
        """another thread may have changed the object while we waited"""
        for x in self.args:
            eng.havoc(st, x, ("wake", x))

    def on_free(self, eng, st, ptr, I):
        self.ev(st, "free", ptr)

    def on_alloc(self, eng, st, obj, size, I):
        self.ev(st, "new", ("P", obj, 0))

    def at_return(self, eng, st, val):
        self.out.append((st.ts.get("ev", ()), val, st))


def analyse(prog, f, fixed=()):
    c = Client(prog)
    eng = absint.Engine(prog, c, K=60, max_steps=60000)
    eng.EDEPTH = 10
    c.args = [("s", "a%d" % i) for i in range(len(f.args))]
    a = list(c.args)
    for k, v in fixed:
        a[k] = v
    eng.run(f, args=a)
    return c, eng




STRENGTH = {"relaxed": set(), "acquire": {"a"}, "release": {"r"}, "acq_rel": {"a", "r"}, "seq_cst": {"a", "r"}}
NEED = {"Relaxed": set(), "Consume": {"a"}, "Acquire": {"a"}, "Release": {"r"}, "AcquireRelease": {"a", "r"}, "ConsumeRelease": {"a", "r"},
        "acquire": {"a"}, "release": {"r"}, "consume": {"a"}, "seqcst": {"a", "r"}}
A0, A1, A2 = ("s", "a0"), ("s", "a1"), ("s", "a2")
PLAIN = ("read", "write", "clock_gettime")
RMWOP = {"fetchAdd": "rmw add", "fetchSub": "rmw sub", "fetchAnd": "rmw and", "fetchOr": "rmw or", "exchange": "rmw xchg"}


def kinds(ev):
    return [e[0] for e in ev if e[0] not in PLAIN]


def truth(st, eng, v):
    if type(v) is int:
        return v != 0
    r = eng.cmp(st, "eq", v, 0, 8)
    return None if r is None else not r


def own(e):
    return e[1] is not None and e[1][1] == A0


def atomic_rule(op, order, ev, val, st, eng):
    at = [e for e in ev if e[0] not in PLAIN]
    if len(at) != 1:
        return "is not a single atomic operation"
    e = at[0]
    if not own(e):
        return "acts on another object"
    if not NEED[order] <= STRENGTH.get(e[2], set()):
        return "asks for %s ordering but uses %s" % (order, e[2])
    if op in RMWOP:
        neg = {"fetchAdd": "rmw sub", "fetchSub": "rmw add"}.get(op)
        if not (e[0] == RMWOP[op] and e[3][0] == A1 or e[0] == neg and e[3][0] == ("e", "sub", 0, A1)):
            return "performs %s of %s" % (e[0], e[3][0])
        return None if val == e[3][1] else "does not return the previous value"
    if op == "load":
        return None if e[0] == "load" and val == e[3] else "does not return the value it loads"
    if op == "store":
        return None if e[0] == "store" and e[3] == A1 else "stores something else"
    if e[0] not in ("cx ok", "cx no"):
        return "performs " + e[0]
    exp = A1 if op == "compareExchange" else ("s", "ld", A1, 0, 4, None)
    if e[3] != (exp, A2):
        return "compares or stores the wrong value"
    if op == "compareExchange":
        if e[0] == "cx ok" and val != A1:
            return "does not return the previous value"
        if e[0] == "cx no" and not (type(val) is tuple and val[:2] == ("s", "at")):
            return "does not return the previous value"
        return None
    if truth(st, eng, val) is not (e[0] == "cx ok"):
        return "reports the wrong outcome"
    if e[0] == "cx no" and not any(x[0] == "write" and x[1][1] == A1 and type(x[3]) is tuple and x[3][:2] == ("s", "at") for x in ev):
        return "does not hand back the value found"
    return None


def value(e, old, c):
    if e == old:
        return c
    if type(e) is int:
        return e
    if type(e) is not tuple or e[0] not in ("e", "P"):
        return None
    if e[0] == "P":
        x = value(e[1], old, c)
        return None if x is None else x + e[2]
    x, y = value(e[2], old, c), value(e[3], old, c) if len(e) > 3 else None
    if x is None or y is None:
        return None
    m = (1 << 32) - 1
    f = {"lshr": lambda: (x & m) >> y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "add": lambda: x + y, "sub": lambda: x - y,
         "mul": lambda: x * y, "shl": lambda: (x << y) & m, "udiv": lambda: (x & m) // y if y else None, "urem": lambda: (x & m) % y if y else None}.get(e[1])
    return f() if f else None


def refuted(st, old, c):
    """do the facts about the path exclude old == c?"""
    for (fam, b), r in st.cons.items():
        v = value(b, old, c)
        if v is not None and (v in r if fam == "N" else not r[0] <= v <= r[1]):
            return True
    return False


def count_rule(op, ev, val, st, eng):
    """counted objects: one atomic step decides"""
    at = [e for e in ev if e[0] not in PLAIN and not e[0].startswith("zero")]
    if len(at) != 1 or not at[0][0].startswith("rmw"):
        return "is not decided by a single atomic step"
    amount = {"incRef": 1, "decRef": -1, "incWeakRef": 65536, "decWeakRef": -65536}[op]
    k, (x, old) = at[0][0], at[0][3]
    delta = x if k == "rmw add" else ("neg", x)
    if type(x) is int:
        delta = x if k == "rmw add" else -x if k == "rmw sub" else None
        if delta is not None and delta & 0xffffffff == amount & 0xffffffff:
            delta = amount
    if delta != amount:
        return "changes the count by %s" % (delta,)
    z = [e[0][4:] for e in ev if e[0].startswith("zero")]
    last = -amount
    if amount > 0:
        return "drops the object" if z else None
    dual = "Partial" in z or "Full" in z
    isfull = eng.cmp(st, "eq", old, last, 32)
    if "" in z or "Full" in z:
        if isfull is not True:
            return "drops the object while it may still be in use"
        return None
    if isfull is not False and not refuted(st, old, last):
        return "does not drop the object with the last count"
    return None


def lazy_rule(ev):
    """lock created on first use: constructed once, published before use, guarded by the spin flag"""
    spin = next((e[1] for e in ev if e[0] == "cx ok"), None)
    held = False
    ready = made = published = False
    for e in ev:
        k = e[0]
        if k == "cx ok":
            if "a" not in STRENGTH.get(e[2], ()):
                return "takes the spin flag without acquire ordering"
            held = True
            ready = False
        elif k == "load" and e[1] != spin:
            pass
        elif k == "store":
            if e[1] == spin:
                if "r" not in STRENGTH.get(e[2], ()):
                    return "gives up the spin flag without release ordering"
                if not held:
                    return "gives up a spin flag it does not hold"
                if made and not published:
                    return "gives up the spin flag before publishing the lock"
                held = False
            else:
                if made and "r" not in STRENGTH.get(e[2], ()):
                    return "publishes the lock without release ordering"
                if not made:
                    return "publishes the lock before it is created"
                published = True
        elif k == "write" and spin is not None or k == "mutex_init":
            if not held and not (k == "write" and e[1] == spin):
                return "creates the lock without holding the spin flag"
            made = True
        elif k == "mutex_lock":
            if held:
                return "still holds the spin flag"
    return "keeps the spin flag" if held else None


def lazy_lock(ev, st, eng):
    r = lazy_rule(ev)
    if r:
        return r
    loads = [(i, e) for i, e in enumerate(ev) if e[0] == "load"]
    li = [i for i, e in enumerate(ev) if e[0] == "mutex_lock"]
    if len(li) != 1:
        return "does not take the lock exactly once"
    made = any(e[0] in ("write", "mutex_init") for e in ev[:li[0]])
    spun = next((i for i, e in enumerate(ev) if e[0] == "cx ok"), None)
    for i, e in loads:
        if truth(st, eng, e[3]) is True and i < li[0]:
            if "a" in STRENGTH.get(e[2], ()) or spun is not None and i > spun:
                return "creates the lock again" if made else None
    if not made:
        return "uses the lock without knowing that it was created"
    # created here: must have seen it absent while holding the spin flag
    if not any(spun is not None and i > spun and truth(st, eng, e[3]) is False for i, e in loads):
        return "creates the lock without checking again"
    return None


SEQ = {     # operations that are one fixed sequence of calls on their own object
    ("mutex", "lock"): ["mutex_lock"], ("mutex", "unlock"): ["mutex_unlock"], ("mutex", "guard"): ["mutex_lock", "mutex_unlock"],
    ("mutexposix", "dtor"): ["mutex_destroy"],
    ("rw", "ctor"): ["rwlock_init"], ("rw", "dtor"): ["rwlock_destroy"], ("rw", "lockExclusive"): ["rwlock_wrlock"], ("rw", "lockShared"): ["rwlock_rdlock"],
    ("rw", "unlockExclusive"): ["rwlock_unlock"], ("rw", "unlockShared"): ["rwlock_unlock"],
    ("rw", "sharedguard"): ["rwlock_rdlock", "rwlock_unlock"], ("rw", "exclusiveguard"): ["rwlock_wrlock", "rwlock_unlock"],
    ("cond", "ctor"): ["cond_init"], ("cond", "dtor"): ["cond_destroy"], ("cond", "wakeOne"): ["cond_signal"], ("cond", "wakeAll"): ["cond_broadcast"],
    ("sem", "ctor"): ["sem_init"], ("sem", "dtor"): ["sem_destroy"], ("sem", "signal"): ["sem_post"] * 3,
    ("event", "signal"): ["mutex_lock", "cond_broadcast", "mutex_unlock"], ("event", "reset"): ["mutex_lock", "mutex_unlock"],
    ("tls", "ctor"): ["key_create"],
}


def lin(e):
    """linear form over symbols; division by 1000 of the same value recombines"""
    out = {}

    def add(v, k):
        if type(v) is int:
            out[1] = out.get(1, 0) + v * k
        elif type(v) is tuple and v[0] == "P":
            add(v[1], k)
            out[1] = out.get(1, 0) + v[2] * k
        elif type(v) is tuple and v[:2] == ("e", "add"):
            add(v[2], k)
            add(v[3], k)
        elif type(v) is tuple and v[:2] == ("e", "sub"):
            add(v[2], k)
            add(v[3], -k)
        elif type(v) is tuple and v[:2] == ("e", "mul") and (type(v[3]) is int or type(v[2]) is int):
            add(v[2] if type(v[3]) is int else v[3], k * (v[3] if type(v[3]) is int else v[2]))
        elif type(v) is tuple and v[:2] == ("e", "urem") and type(v[3]) is int:
            # x % n = x - n * (x / n)
            add(v[2], k)
            q = ("e", "udiv", v[2], v[3])
            out[q] = out.get(q, 0) - v[3] * k
        else:
            out[v] = out.get(v, 0) + k
    add(e[0], 10 ** 9)
    add(e[1], 1)
    return {k: v for k, v in out.items() if v}


def rule(kind, op, ev, val, st, eng):
    if kind == "atomic":
        o, order = op.rsplit("_", 1)
        return atomic_rule(o, order, ev, val, st, eng)
    if kind == "fence":
        f = [e for e in ev if e[0] == "fence"]
        return None if f and NEED[op] <= STRENGTH.get(f[0][2], set()) and (op != "seqcst" or f[0][2] == "seq_cst") else "is not a fence of that kind"
    if kind in ("count", "dual"):
        return count_rule(op, ev, val, st, eng)
    if kind in ("lazy", "spin"):        # a flag exchanged for "taken" was taken if it was free before
        ev = [("cx no" if truth(st, eng, e[3][1]) else "cx ok", e[1], e[2], (0, e[3][0])) if e[0] == "rmw xchg" and type(e[3][0]) is int and e[3][0] else e for e in ev]
    ks = kinds(ev)
    objs = [e for e in ev if e[0] not in PLAIN and e[0].split()[0] not in ("settype", "load", "store")]
    fam = "mutex" if kind.startswith("mutex") else "cond" if kind.startswith("cond") else kind
    want = SEQ.get((kind, op), SEQ.get((fam, op)))
    if kind == "lazy":
        if op == "unlock":
            return None if [k for k in ks if k != "load"] == ["mutex_unlock"] else "does not just release the lock"
        r = lazy_lock(ev, st, eng)
        if r:
            return r
        tail = [k for k in ks if k.startswith("mutex") and k != "mutex_init"]
        return None if tail == (["mutex_lock", "mutex_unlock"] if op == "guard" else ["mutex_lock"]) else "does not take and release the lock once"
    if want is not None:
        if ks != want:
            return "performs %s" % (ks or "nothing")
        if any(not own(e) for e in objs):
            return "acts on another object"
        if kind == "event" and op in ("signal", "reset"):
            names = [e[0] for e in ev if e[0] != "read"]
            w = [e for e in ev if e[0] == "write"]
            if len({e[1] for e in w}) != 1 or truth(st, eng, w[-1][3]) is not (op == "signal"):
                return "does not set the state"
            if not (names.index("mutex_lock") < names.index("write") < len(names) - 1 - names[::-1].index("mutex_unlock")):
                return "changes the state outside the lock"
        return None
    if op == "ctor" and kind == "mutexposix":
        return None if [e[2] for e in ev if e[0] == "settype"] == [1] and ks[-1] == "mutex_init" else "is not created as a recursive lock"
    if op == "tryLock":
        ok = any(k.endswith("ok") for k in ks)
        return None if len(ks) == 1 and truth(st, eng, val) is ok and own(objs[0]) else "reports the wrong outcome"
    if kind == "spin":
        if op == "lock":
            e = ev[-1] if ev else None
            if ks.count("cx ok") != 1 or ks[-1] != "cx ok":
                return "returns without having taken the lock"
            return None if "a" in STRENGTH.get(e[2], ()) and own(e) and e[3][0] == 0 and e[3][1] != 0 else "takes the lock without acquire ordering"
        return None if ks == ["store"] and "r" in STRENGTH.get(ev[-1][2], ()) and ev[-1][3] == 0 and own(ev[-1]) else "releases the lock without release ordering"
    if kind == "sem" and op == "wait":
        return None if ks.count("sem_wait ok") == 1 and ks[-1] == "sem_wait ok" and own(objs[-1]) else "returns without having been signalled"
    if fam == "cond":
        w = [e for e in ev if e[0] in ("cond_wait", "cond_timedwait")]
        if op == "timedWait" and not w:
            return None if eng.cmp(st, "eq", ("s", "a2"), 0) is True else "does not wait"
        if len(w) != 1 or not own(w[0]):
            return "does not wait once on its own condition"
        m = w[0][2]
        if kind == "condposix":
            if m is None or m[1] != ("s", "ld", A1, 0, 8, None):
                return "waits with another lock than the caller's"
        elif m is None or m[1] != A1:
            return "waits with another lock than the caller's"
        if op == "timedWait":
            t = w[0][3]
            if w[0][0] != "cond_timedwait" or t is None:
                return "waits without a limit"
            if lin(t) != {("s", "now_s"): 10 ** 9, ("s", "now_ns"): 1, A2: 10 ** 6}:
                return "waits until another time than now plus the limit"
            if eng.cmp(st, "ult", t[1], 10 ** 9) is False:
                return "passes a deadline the system rejects"
        return None
    if kind == "event" and op == "wait":
        if [k for k in ks if k != "cond_wait"] != ["mutex_lock", "mutex_unlock"]:
            return "performs %s" % ks
        r = [e for e in ev if e[0] == "read"]
        i = [e[0] for e in ev].index("mutex_unlock")
        last = [e for e in ev[:i] if e[0] in ("read", "cond_wait")][-1:]
        if not last or last[0][0] != "read" or truth(st, eng, last[0][3]) is not True:
            return "returns without having seen the event under the lock"
        return None
    if kind == "thread":
        if op == "run":
            c = [e for e in ev if e[0] == "pthread_create"]
            if len(c) != 1 or not own(c[0]):
                return "does not start exactly one thread"
            if "free" in ks or "end" in ks:
                return "destroys what the thread runs"
            return None if any(e[0] == "write" and truth(st, eng, e[3]) is True for e in ev) else "does not remember the thread"
        if op == "join":
            i = [e[0] for e in ev]
            return None if ks == ["pthread_join"] and any(e[0] == "write" and e[3] == 0 for e in ev[i.index("pthread_join"):]) else "does not join once and forget the thread"
        rd = [e for e in ev if e[0] == "read"]
        att = truth(st, eng, rd[0][3]) if rd else None
        return None if (ks == ["pthread_detach"]) == (att is True) else "leaves the thread's resources behind or detaches twice"
    if kind == "tls":
        if ks == [{"load": "pthread_getspecific", "store": "pthread_setspecific", "dtor": "pthread_key_delete"}[op]]:
            e = [x for x in ev if x[0] == ks[0]][0]
            if op == "load" and val != e[2] or op == "store" and e[2] != A1:
                return "passes on another value"
            return None
        return "performs %s" % ks
    return None


SYNC = re.compile(r"Mutex|RWLock|ConditionVariable|Semaphore|ManualResetEvent|Atomic|ThreadLocal|std::atomic")
GUARD = re.compile(r"\b(LockGuard|SharedLockGuard|ExclusiveLockGuard|lock_guard|unique_lock|shared_lock)<")
# documented: "Iterators are meant to be used only after all logging is complete."
QUIESCENT = {("ply::Trace_MemLog::m_head", "ply::Trace_MemLog::begin")}
SETUP = re.compile(r"^~|^(init|initialize|zeroInit|setUp|create|main)\w*$|^operator=$|shutdown", re.I)


def lockset(rep):
    from astq import walk, walkp, kids, strip
    T, nt = build.ast(list(build.GROUP_DIRS), drivers=list(build.instances(1)) + ["sync.cpp"])
    rep.cover("translation_units", nt)
    fns = {}
    for f in T:
        if f["k"] == "Function" and f["body"]:
            fns.setdefault(f["f"], f)
    acc = {}        # variable -> [(function, locks, write?, node)]
    calls = {}      # callee -> [(caller, locks)]
    nguard = 0

    def key(f, m):
        m = strip(m)
        if m is None:
            return None
        if m["k"] == "MemberExpr":
            return m["n"]
        if m["k"] == "DeclRefExpr":
            return "%s#%s" % (f["f"], m["n"]) if m.get("dk") == "Var" and not m.get("local") and "::" not in m["n"] else m["n"]
        return None
    for f in fns.values():
        def visit(n, locks, par):
            nonlocal nguard
            if n is None:
                return
            k = n["k"]
            if k == "CompoundStmt":
                cur = locks
                for c in n.get("c", ()):
                    visit(c, cur, n)
                    if c is not None and c["k"] == "DeclStmt":
                        for v in kids(c):
                            if v["k"] == "VarDecl" and GUARD.search(v.get("t", "")):
                                a = strip(kids(v)[0]) if kids(v) else None
                                while a is not None and a["k"] in ("CXXConstructExpr", "InitListExpr") and kids(a):
                                    a = strip(kids(a)[0])
                                kk = key(f, a)
                                if kk:
                                    nguard += 1
                                    cur = cur | {kk}
                return
            if k == "LambdaExpr":
                locks = frozenset()
            if k in ("MemberExpr", "DeclRefExpr"):
                var = None
                if k == "MemberExpr" and n.get("t") != "<bound member function type>" and "::" in n["n"]:
                    var = n["n"]
                elif k == "DeclRefExpr" and n.get("dk") == "Var" and not n.get("local"):
                    var = key(f, n)
                if var:
                    p = par
                    rd = n["t"].startswith("const ") or p is not None and p["k"] == "ImplicitCastExpr" and (
                        p.get("ck") == "LValueToRValue" or p.get("ck") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase") and p.get("t", "").startswith("const "))
                    asg = p is not None and (p["k"] in ("BinaryOperator", "CompoundAssignOperator") and p.get("op", "").endswith("=") and p.get("op") not in ("==", "!=", "<=", ">=") and kids(p)[0] is n or
                                             p["k"] == "UnaryOperator" and p.get("op") in ("++", "--"))
                    if not SYNC.search(n["t"]):
                        acc.setdefault(var, []).append((f, locks, 2 if asg else 0 if rd else 1, n))
            if n.get("f") and k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr"):
                calls.setdefault(n["f"], []).append((f, locks))
            for c in n.get("c", ()):
                visit(c, locks, n)
        visit(f["body"], frozenset(), None)
    rep.require("guarded regions", nguard, 3)

    def setup(f):
        return bool(f.get("ctor")) or SETUP.search(f["n"].split("::")[-1]) is not None
    # locks every caller holds
    held = {f: None for f in fns}
    for n in fns:
        if not calls.get(n):
            held[n] = frozenset()
    changed = True
    while changed:
        changed = False
        for n, f in fns.items():
            cs = [(g, l) for g, l in calls.get(n, ()) if not (setup(g) or g["f"] == n)]
            if not calls.get(n):
                continue
            v = None
            for g, l in cs:
                h = held.get(g["f"])
                if h is None:
                    continue
                x = l | h
                v = x if v is None else v & x
            if v is None and not cs:
                v = frozenset()
            if v is not None and v != held[n]:
                held[n] = v
                changed = True
    n = 0
    # data guarded by a lock: same object as the lock, touched while it is held, changed after set-up
    for var, xs in acc.items():
        cls = var.rsplit("::", 1)[0] if "::" in var and "#" not in var else var.split("#")[0]
        live = [(f, l | (held[f["f"]] or frozenset()), w, nd) for f, l, w, nd in xs if not setup(f)]
        locks = {k for f, l, w, nd in live for k in l if (k.rsplit("::", 1)[0] if "#" not in k else k.split("#")[0]) == cls}
        if locks and any(w for f, l, w, nd in live):
            n += 1
            for f, l, w, nd in live:
                if not (l & locks) and (var, f["n"]) not in QUIESCENT:
                    rep.violation("lock:%s:%s" % (var, f["n"]), "%s:%d (%s)" % (f["file"], nd["l"], f["n"]),
                                  "'%s' is shared under '%s' but is %s here without it" % (nd["n"].split("::")[-1], sorted(locks)[0].split("::")[-1].split("#")[-1], "changed" if w else "read"), [f["f"]])
        elif not locks and not var.startswith("ply::build::") and any(w == 2 for f, l, w, nd in live) and any(nd["k"] == "DeclRefExpr" for f, l, w, nd in live):
            for f, l, w, nd in live:
                if w == 2 and not l and nd["k"] == "DeclRefExpr" and not f["file"].startswith(("apps/", "test/", "..", "/")) and "/verif/" not in f["file"]:
                    rep.violation("static:%s:%s" % (var, f["n"]), "%s:%d (%s)" % (f["file"], nd["l"], f["n"]),
                                  "the process-wide variable '%s' is assigned without a lock" % nd["n"].split("::")[-1], [f["f"]])
    rep.require("guarded variables", n, 2)
    rep.cover("variables_seen", len(acc))


def run(rep, tier):
    nops = npaths = 0
    for asserts in (1, 0):
        d, n = build.dump(["runtime"], drivers=["sync.cpp"], asserts=asserts, extra=("-Xclang", "-disable-llvm-passes"))
        prog = ir.Program(d)
        for f in sorted(prog.fns.values(), key=lambda f: f.name):
            if not f.short.startswith("sync__") or not f.bbs:
                continue
            _, kind, op = f.short.split("__")
            c, eng = analyse(prog, f, [(1, 3)] if f.short == "sync__sem__signal" else ())
            nops += 1
            if not c.out or eng.incomplete:
                rep.notes.append("incomplete: " + f.short)
            if not c.out:
                rep.violation("sync:%s:%s" % (kind, op), f.short, "never returns")
            for ev, val, st in c.out:
                npaths += 1
                r = rule(kind, op, ev, val, st, eng)
                if r:
                    rep.violation("sync:%s:%s" % (kind, op), "%s of %s" % (op, f.sig[1] if len(f.sig) > 1 else kind), r, absint.trace_lines(st, prog))
    rep.require("thread operations", nops, 120)
    rep.require("paths", npaths, 120)
    lockset(rep)
    return rep.finish("every thread primitive performs its operation, on its own object and with the ordering asked for, on every path; data shared under a lock is only touched under it")
