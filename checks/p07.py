"""P07: vector, matrix, quaternion, box and colour operations compute their formulas.

For every operation of the math library the value numbers (lib/vn.py) that it leaves in its results are
compared with those of the formula spelled out on plain scalars (drivers/math.cpp): both are brought to
one normal form over the reals, so algebraically equal code has equal numbers however it is written.
"""
import os, re, sys, time
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, ir, poly as P, vn, report

_prog = None

def strip(t):
    t = t.strip()
    return re.sub(r"^const ", "", t)

def prepare(prog, ev, st):
    # dynamic initialisers of the constant tables
    for n, f in prog.fns.items():
        if n.startswith("_GLOBAL__sub_I_") and f.bbs and ("AxisVector" in n):
            k, v, s2, _, _ = ev.call(f, [], st)
            st.mem = s2.mem
    return st

def number(prog, name):
    f = prog.fns[name]
    ev = vn.Eval(prog)
    st = vn.State()
    prepare(prog, ev, st)
    args, objs = [], []
    for k, t in enumerate(f.sig[1:]):
        t = strip(t)
        if t.endswith("&"):
            ty = strip(t[:-1])
            args.append(ev.input(st, "p%d" % k, ty))
            objs.append(("p%d" % k, ty))
        elif t.endswith("*"):
            st.mem["p%d" % k] = {}
            args.append(vn.Ptr("p%d" % k))
            objs.append(("p%d" % k, strip(t[:-1]) + "[]"))
        else:
            args.append(P.var(("var", "p%d" % k, t)))
    kind, v, s2, _, _ = ev.call(f, args, st)
    if kind != "ret":
        raise vn.Unsupported("does not return")
    return {o: s2.mem[o] for o, _ in objs}, objs, ev

def flat(d):
    r = {}
    for o, (s, v) in d.items():
        if isinstance(v, vn.Cat):
            for po, ps, pv in v.parts:
                r[o + po] = (ps, pv)
        else:
            r[o] = (s, v)
    return r

def where(prog, ev):
    """The library functions an operation runs through (for the report)."""
    out = []
    for n in ev.called:
        f = prog.fns.get(n)
        if f and f.line and not n.startswith(("m_", "r_", "__cxx")) and re.search(r"math/|platform/", f.file or ""):
            out.append((f.file, f.line, f.qual))
    return sorted(set(out))

def one(name):
    prog = _prog
    t0 = time.time()
    try:
        rm, objs, er = number(prog, "r_" + name)
    except (vn.Unsupported, P.TooBig) as e:
        return name, "spec", "reference not decided: %r" % (e,), None, 0
    try:
        mm, _, em = number(prog, "m_" + name)
    except (vn.Unsupported, P.TooBig) as e:
        return name, "undecided", "%r" % (e,), None, 0
    bad = []
    n = 0
    for o, ty in objs:
        a, b = flat(mm[o]), flat(rm[o])
        for off in sorted(set(a) | set(b)):
            n += 1
            x, y = a.get(off), b.get(off)
            fld = prog.field_at(ty, off) or "%s[%d]" % (o, off)
            if x is None or y is None:
                zero = lambda d: any(oo <= off < oo + s and isinstance(v, dict) and not v for oo, (s, v) in d.items())
                if (x is None and y is not None and not y[1] and zero(a)) or (y is None and not x[1] and zero(b)):
                    continue
                if x is None:
                    bad.append((o, fld, "is not set", y))
                else:
                    continue
            elif not isinstance(x[1], dict) or not isinstance(y[1], dict):
                if x[1] != y[1]:
                    return name, "undecided", "non-numeric result", None, 0
            else:
                try:
                    if not P.equal(x[1], y[1]):
                        bad.append((o, fld, "is %s" % P.show(x[1]), y))
                except P.TooBig:
                    return name, "undecided", "result too large", None, 0
    if bad:
        o, fld, what, y = bad[0]
        return name, "bad", "component %s of %s %s; the formula gives %s" % (fld, "the result", what[:160], P.show(y[1])[:160] if y else "?"), where(prog, em), n
    return name, "ok", len(em.called), where(prog, em), n

# results of these operations have no settled value on part of the domain or use bit tricks the domain does not model
def run(rep, tier):
    global _prog
    d, ntu = build.dump(["math"], drivers=("math.cpp",), asserts=0, extra=("-fno-math-errno",), passes="verify")
    _prog = ir.Program(d)
    names = sorted(n[2:] for n in _prog.fns if n.startswith("m_") and "r_" + n[2:] in _prog.fns)
    rep.require("operations compared", len(names), 600)
    und, cells, fns, okn = [], 0, set(), 0
    with ProcessPoolExecutor(8) as ex:
        for name, kind, msg, wh, n in ex.map(one, names, chunksize=8):
            cells += n
            for w in wh or ():
                fns.add(w)
            if kind == "ok":
                okn += 1
            elif kind == "bad":
                w = wh[0] if wh else ("drivers/math.cpp", 0, name)
                rep.violation("formula:" + name, "%s:%s %s" % (w[0], w[1], "; ".join(x[2] for x in wh[:4])), msg)
            else:
                und.append("%s (%s)" % (name, msg))
    rep.require("operations decided", okn, 500)
    rep.cover("translation_units", ntu)
    rep.cover("result components", cells)
    rep.cover("library functions", len(fns))
    rep.cover("undecided operations", len(und))
    rep.notes += und
    return rep.finish("gated value numbering of %d operations against their formulas: %d result components equal over the reals" % (okn, cells))

