"""Writes drivers/math.cpp: pairs m_<name> (calls the library) and r_<name> (the textbook formula)."""
import os
out = ['// Generated by meta/genmath.py: m_<name> calls the library, r_<name> spells the formula out on plain scalars.',
       '#include <ply-math/Core.h>', '#include <ply-math/Base.h>', '#include <ply-platform/Util.h>', 'using namespace ply;', 'struct HexDigits { char h[6]; };', '']
names = set()

def ck(name, params, impl, ref):
    assert name not in names, name
    names.add(name)
    out.append('extern "C" void m_%s(%s) { %s }' % (name, params, impl))
    out.append('extern "C" void r_%s(%s) { %s }' % (name, params, ref))

C = "xyzw"
def comps(n):
    return C[:n]

# ---- vectors of float -------------------------------------------------------
for n in (2, 3, 4):
    T, B, c = "Float%d" % n, "Bool%d" % n, comps(n)
    p = "f%d_" % n
    ab = "const %s& a, const %s& b, %s& o" % (T, T, T)
    for nm, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/")):
        ck(p + nm, ab, "o = a %s b;" % op, " ".join("o.%s = a.%s %s b.%s;" % (x, x, op, x) for x in c))
        ck(p + nm + "_eq", "%s& a, const %s& b" % (T, T), "a %s= b;" % op, " ".join("a.%s = a.%s %s b.%s;" % (x, x, op, x) for x in c))
        ck(p + nm + "_self", "%s& a" % T, "a %s= a;" % op, " ".join("a.%s = a.%s %s a.%s;" % (x, x, op, x) for x in c))
        ck(p + nm + "_s", "const %s& a, float b, %s& o" % (T, T), "o = a %s b;" % op, " ".join("o.%s = a.%s %s b;" % (x, x, op) for x in c))
        ck(p + "s_" + nm, "float a, const %s& b, %s& o" % (T, T), "o = a %s b;" % op, " ".join("o.%s = a %s b.%s;" % (x, op, x) for x in c))
        ck(p + nm + "_eq_s", "%s& a, float b" % T, "a %s= b;" % op, " ".join("a.%s = a.%s %s b;" % (x, x, op) for x in c))
    ck(p + "neg", "const %s& a, %s& o" % (T, T), "o = -a;", " ".join("o.%s = -a.%s;" % (x, x) for x in c))
    ck(p + "splat", "float a, %s& o" % T, "o = %s{a};" % T, " ".join("o.%s = a;" % x for x in c))
    ck(p + "ctor", ", ".join("float %s" % x for x in c) + ", %s& o" % T, "o = %s{%s};" % (T, ", ".join(c)), " ".join("o.%s = %s;" % (x, x) for x in c))
    ck(p + "copy", "const %s& a, %s& o" % (T, T), "%s t{a}; o = t;" % T, " ".join("o.%s = a.%s;" % (x, x) for x in c))
    l2 = "(%s)" % " + ".join("a.%s * a.%s" % (x, x) for x in c)
    ck(p + "length2", "const %s& a, float& o" % T, "o = a.length2();", "o = %s;" % l2)
    ck(p + "length", "const %s& a, float& o" % T, "o = a.length();", "o = sqrtf(%s);" % l2)
    ck(p + "isUnit", "const %s& a, float t, bool& o" % T, "o = a.isUnit(t);", "o = fabsf(1.f - %s) < t;" % l2)
    ck(p + "normalized", "const %s& a, %s& o" % (T, T), "o = a.normalized();", "float l = sqrtf(%s); " % l2 + " ".join("o.%s = a.%s / l;" % (x, x) for x in c))
    ck(p + "safeNormalized", "const %s& a, const %s& f, float e, %s& o" % (T, T, T), "o = a.safeNormalized(f, e);",
       "float q = %s; float l = sqrtf(q); " % l2 + " ".join("o.%s = q < e ? f.%s : a.%s / l;" % (x, x, x) for x in c))
    ck(p + "dot", "const %s& a, const %s& b, float& o" % (T, T), "o = dot(a, b);", "o = %s;" % " + ".join("a.%s * b.%s" % (x, x) for x in c))
    ck(p + "clamp", "const %s& a, const %s& l, const %s& h, %s& o" % (T, T, T, T), "o = clamp(a, l, h);",
       " ".join("o.%s = a.%s < l.%s ? l.%s : a.%s < h.%s ? a.%s : h.%s;" % ((x,) * 8) for x in c))
    ck(p + "abs", "const %s& a, %s& o" % (T, T), "o = abs(a);", " ".join("o.%s = a.%s < 0 ? -a.%s : a.%s;" % (x, x, x, x) for x in c))
    ck(p + "pow", ab, "o = pow(a, b);", " ".join("o.%s = powf(a.%s, b.%s);" % (x, x, x) for x in c))
    ck(p + "min", ab, "o = min(a, b);", " ".join("o.%s = a.%s < b.%s ? a.%s : b.%s;" % (x, x, x, x, x) for x in c))
    ck(p + "max", ab, "o = max(a, b);", " ".join("o.%s = a.%s > b.%s ? a.%s : b.%s;" % (x, x, x, x, x) for x in c))
    abb = "const %s& a, const %s& b, bool& o" % (T, T)
    ck(p + "eq", abb, "o = a == b;", "o = %s;" % " && ".join("a.%s == b.%s" % (x, x) for x in c))
    ck(p + "ne", abb, "o = a != b;", "o = %s;" % " || ".join("a.%s != b.%s" % (x, x) for x in c))
    ck(p + "isNear", "const %s& a, const %s& b, float e, bool& o" % (T, T), "o = isNear(a, b, e);",
       "o = %s <= e * e;" % " + ".join("(b.%s - a.%s) * (b.%s - a.%s)" % (x, x, x, x) for x in c))
    for nm, op in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        ck(p + nm, "const %s& a, const %s& b, %s& o" % (T, T, B), "o = a %s b;" % op, " ".join("o.%s = a.%s %s b.%s;" % (x, x, op, x) for x in c))
    ck("b%d_all" % n, "const %s& a, bool& o" % B, "o = all(a);", "o = %s;" % " & ".join("(int) a.%s" % x for x in c))
    ck("b%d_any" % n, "const %s& a, bool& o" % B, "o = any(a);", "o = %s;" % " | ".join("(int) a.%s" % x for x in c))
    ck(p + "all", abb, "o = all(a < b);", "o = %s;" % " && ".join("a.%s < b.%s" % (x, x) for x in c))
    ck(p + "any", abb, "o = any(a < b);", "o = %s;" % " || ".join("a.%s < b.%s" % (x, x) for x in c))
    for nm, f in (("roundUp", "ceilf"), ("roundDown", "floorf"), ("roundNearest", "fastRound")):
        ck(p + nm, "const %s& a, float s, %s& o" % (T, T), "o = %s(a, s);" % nm, " ".join("o.%s = %s(a.%s / s) * s;" % (x, f, x) for x in c))
    ck(p + "isRounded", "const %s& a, float s, bool& o" % T, "o = isRounded(a, s);", "o = %s;" % " && ".join("fastRound(a.%s / s) * s == a.%s" % (x, x) for x in c))
    # swizzles with every index pair/triple/quadruple over distinct patterns
    pats = {2: [(0, 1), (1, 0), (n - 1, 0)], 3: [(0, n - 1, 1), (1, 0, n - 1)], 4: [(n - 1, 0, 1, 0), (0, 1, n - 1, 1)]}
    for k, ps in pats.items():
        for j, ix in enumerate(sorted(set(ps))):
            ck(p + "swz%d_%d" % (k, j), "const %s& a, Float%d& o" % (T, k), "o = a.swizzle(%s);" % ", ".join(map(str, ix)),
               " ".join("o.%s = a.%s;" % (C[q], C[i]) for q, i in enumerate(ix)))
    ck(p + "toInt", "const %s& a, Int%d<s32>& o" % (T, n), "o = a.to<Int%d<s32>>();" % n, " ".join("o.%s = (s32) a.%s;" % (x, x) for x in c))
    for q, ch in enumerate("rgba"[:n]):
        ck(p + ch, "const %s& a, float& o" % T, "o = a.%s();" % ch, "o = a.%s;" % C[q])
        ck(p + ch + "_set", "%s& a, float v" % T, "a.%s() = v;" % ch, "a.%s = v;" % C[q])
    ck(p + "mix", "const %s& a, const %s& b, float f, %s& o" % (T, T, T), "o = mix(a, b, f);", " ".join("o.%s = a.%s + (b.%s - a.%s) * f;" % (x, x, x, x) for x in c))
ck("f2_cross", "const Float2& a, const Float2& b, float& o", "o = cross(a, b);", "o = a.x * b.y - a.y * b.x;")
ck("f3_cross", "const Float3& a, const Float3& b, Float3& o", "o = cross(a, b);",
   "o.x = a.y * b.z - a.z * b.y; o.y = a.z * b.x - a.x * b.z; o.z = a.x * b.y - a.y * b.x;")
ck("f3_ctor2", "const Float2& a, float z, Float3& o", "o = Float3{a, z};", "o.x = a.x; o.y = a.y; o.z = z;")
ck("f4_ctor2", "const Float2& a, float z, float w, Float4& o", "o = Float4{a, z, w};", "o.x = a.x; o.y = a.y; o.z = z; o.w = w;")
ck("f4_ctor3", "const Float3& a, float w, Float4& o", "o = Float4{a, w};", "o.x = a.x; o.y = a.y; o.z = a.z; o.w = w;")
ck("f3_as2", "const Float3& a, Float2& o", "o = a.asFloat2();", "o.x = a.x; o.y = a.y;")
ck("f4_as2", "const Float4& a, Float2& o", "o = a.asFloat2();", "o.x = a.x; o.y = a.y;")
ck("f4_as3", "const Float4& a, Float3& o", "o = a.asFloat3();", "o.x = a.x; o.y = a.y; o.z = a.z;")
ck("rectFromFov", "float fov, float aspect, Rect& o", "o = rectFromFov(fov, aspect);",
   "float h = tanf(fov / 2); o.mins.x = -h * aspect; o.mins.y = -h; o.maxs.x = h * aspect; o.maxs.y = h;")

# ---- vectors of integers ----------------------------------------------------
for T1, tn in (("s32", "s32"), ("s16", "s16")):
    for n in (2, 3, 4):
        T, B, c = "Int%d<%s>" % (n, T1), "Bool%d" % n, comps(n)
        p = "i%d_%s_" % (n, tn)
        ab = "const %s& a, const %s& b, %s& o" % (T, T, T)
        for nm, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/")):
            if not (tn != "s32" and nm in ("mul", "div")):
                ck(p + nm, ab, "o = a %s b;" % op, " ".join("o.%s = %s(a.%s %s b.%s);" % (x, T1, x, op, x) for x in c))
            ck(p + nm + "_eq", "%s& a, const %s& b" % (T, T), "a %s= b;" % op, " ".join("a.%s = %s(a.%s %s b.%s);" % (x, T1, x, op, x) for x in c))
            if nm in ("mul", "div"):
                if tn == "s32":
                    ck(p + nm + "_s", "const %s& a, %s b, %s& o" % (T, T1, T), "o = a %s b;" % op, " ".join("o.%s = %s(a.%s %s b);" % (x, T1, x, op) for x in c))
                ck(p + nm + "_eq_s", "%s& a, %s b" % (T, T1), "a %s= b;" % op, " ".join("a.%s = %s(a.%s %s b);" % (x, T1, x, op) for x in c))
        if tn == "s32":
            ck(p + "neg", "const %s& a, %s& o" % (T, T), "o = -a;", " ".join("o.%s = -a.%s;" % (x, x) for x in c))
        ck(p + "min", ab, "o = min(a, b);", " ".join("o.%s = a.%s < b.%s ? a.%s : b.%s;" % (x, x, x, x, x) for x in c))
        ck(p + "max", ab, "o = max(a, b);", " ".join("o.%s = a.%s > b.%s ? a.%s : b.%s;" % (x, x, x, x, x) for x in c))
        abb = "const %s& a, const %s& b, bool& o" % (T, T)
        ck(p + "eq", abb, "o = a == b;", "o = %s;" % " && ".join("a.%s == b.%s" % (x, x) for x in c))
        ck(p + "ne", abb, "o = a != b;", "o = %s;" % " || ".join("a.%s != b.%s" % (x, x) for x in c))
        for nm, op in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
            ck(p + nm, "const %s& a, const %s& b, %s& o" % (T, T, B), "o = a %s b;" % op, " ".join("o.%s = a.%s %s b.%s;" % (x, x, op, x) for x in c))
        ck(p + "dot", "const %s& a, const %s& b, sreg& o" % (T, T), "o = dot(a, b);", "o = %s;" % " + ".join("sreg(a.%s) * b.%s" % (x, x) for x in c))
        ck(p + "length2", "const %s& a, ureg& o" % T, "o = a.length2();", "o = %s;" % " + ".join("sreg(a.%s) * a.%s" % (x, x) for x in c))
        ck(p + "splat", "%s v, %s& o" % (T1, T), "o = %s::splat(v);" % T, " ".join("o.%s = v;" % x for x in c))
        ck(p + "reverse", "const %s& a, %s& o" % (T, T), "o = a.reverse();", " ".join("o.%s = a.%s;" % (x, y) for x, y in zip(c, reversed(c))))
        ck(p + "swz", "const %s& a, %s& o" % (T, T), "o = a.swizzle(%s);" % ", ".join(str((k + 1) % n) for k in range(n)),
           " ".join("o.%s = a.%s;" % (C[k], C[(k + 1) % n]) for k in range(n)))
        for k in range(n):
            ck(p + "ix%d" % k, "const %s& a, %s& o" % (T, T1), "o = a[%d];" % k, "o = a.%s;" % C[k])
            ck(p + "setix%d" % k, "%s& a, %s v" % (T, T1), "a[%d] = v;" % k, "a.%s = v;" % C[k])
        ck(p + "copy", "const %s& a, %s& o" % (T, T), "%s t; t = a; o = t;" % T, " ".join("o.%s = a.%s;" % (x, x) for x in c))
        if tn == "s32":
            ck(p + "toF", "const %s& a, Float%d& o" % (T, n), "o = a.template to<Float%d>();" % n if False else "o = a.to<Float%d>();" % n, " ".join("o.%s = (float) a.%s;" % (x, x) for x in c))
            ck(p + "to16", "const %s& a, Int%d<s16>& o" % (T, n), "o = a.to<Int%d<s16>>();" % n, " ".join("o.%s = (s16) a.%s;" % (x, x) for x in c))
ck("i2_cross", "const Int2<s32>& a, const Int2<s32>& b, sreg& o", "o = cross(a, b);", "o = sreg(a.x) * b.y - sreg(a.y) * b.x;")
ck("i2_yx", "const Int2<s32>& a, Int2<s32>& o", "o = a.yx();", "o.x = a.y; o.y = a.x;")
for nm, op in (("add", "+"), ("sub", "-")):
    ck("i2_%s_s" % nm, "const Int2<s32>& a, s32 b, Int2<s32>& o", "o = a %s b;" % op, "o.x = a.x %s b; o.y = a.y %s b;" % (op, op))

# ---- boxes ------------------------------------------------------------------
for V, T1, n, p in (("Float2", "float", 2, "rect_"), ("Float3", "float", 3, "box3_"), ("Int2<s32>", "s32", 2, "irect_")):
    T, c = "Box<%s>" % V, comps(n)
    two = "const %s& a, const %s& b, %s& o" % (T, T, T)
    hl = ("mins", "maxs")
    for nm, op in (("add", "+"), ("sub", "-")):
        ck(p + nm, two, "o = a %s b;" % op, " ".join("o.%s.%s = a.%s.%s %s b.%s.%s;" % (h, x, h, x, op, h, x) for h in hl for x in c))
        ck(p + nm + "_eq", "%s& a, const %s& b" % (T, T), "a %s= b;" % op, " ".join("a.%s.%s = a.%s.%s %s b.%s.%s;" % (h, x, h, x, op, h, x) for h in hl for x in c))
    ck(p + "mul", "const %s& a, const %s& b, %s& o" % (T, V, T), "o = a * b;", " ".join("o.%s.%s = a.%s.%s * b.%s;" % (h, x, h, x, x) for h in hl for x in c))
    ck(p + "mul_eq", "%s& a, const %s& b" % (T, V), "a *= b;", " ".join("a.%s.%s = a.%s.%s * b.%s;" % (h, x, h, x, x) for h in hl for x in c))
    ck(p + "eq", "const %s& a, const %s& b, bool& o" % (T, T), "o = a == b;", "o = %s;" % " && ".join("a.%s.%s == b.%s.%s" % (h, x, h, x) for h in hl for x in c))
    ck(p + "size", "const %s& a, %s& o" % (T, V), "o = a.size();", " ".join("o.%s = a.maxs.%s - a.mins.%s;" % (x, x, x) for x in c))
    ck(p + "isEmpty", "const %s& a, bool& o" % T, "o = a.isEmpty();", "o = %s;" % " || ".join("a.maxs.%s <= a.mins.%s" % (x, x) for x in c))
    ck(p + "width", "const %s& a, %s& o" % (T, T1), "o = a.width();", "o = a.maxs.x - a.mins.x;")
    ck(p + "height", "const %s& a, %s& o" % (T, T1), "o = a.height();", "o = a.maxs.y - a.mins.y;")
    if n == 3:
        ck(p + "depth", "const %s& a, %s& o" % (T, T1), "o = a.depth();", "o = a.maxs.z - a.mins.z;")
    ck(p + "expand", "const %s& a, const %s& b, %s& o" % (T, V, T), "o = expand(a, b);", " ".join("o.mins.%s = a.mins.%s - b.%s; o.maxs.%s = a.maxs.%s + b.%s;" % (x, x, x, x, x, x) for x in c))
    ck(p + "shrink", "const %s& a, const %s& b, %s& o" % (T, V, T), "o = shrink(a, b);", " ".join("o.mins.%s = a.mins.%s + b.%s; o.maxs.%s = a.maxs.%s - b.%s;" % (x, x, x, x, x, x) for x in c))
    ck(p + "contains", "const %s& a, const %s& b, bool& o" % (T, V), "o = a.contains(b);", "o = %s;" % " && ".join("a.mins.%s <= b.%s && b.%s < a.maxs.%s" % (x, x, x, x) for x in c))
    ck(p + "containsBox", "const %s& a, const %s& b, bool& o" % (T, T), "o = a.contains(b);", "o = %s;" % " && ".join("a.mins.%s <= b.mins.%s && b.maxs.%s <= a.maxs.%s" % (x, x, x, x) for x in c))
    ck(p + "intersects", "const %s& a, const %s& b, bool& o" % (T, T), "o = a.intersects(b);",
       "o = true; " + " ".join("{ %s l = a.mins.%s > b.mins.%s ? a.mins.%s : b.mins.%s; %s h = a.maxs.%s < b.maxs.%s ? a.maxs.%s : b.maxs.%s; o = o && (h > l); }" % (T1, x, x, x, x, T1, x, x, x, x) for x in c))
    ck(p + "union", two, "o = makeUnion(a, b);", " ".join("o.mins.%s = a.mins.%s < b.mins.%s ? a.mins.%s : b.mins.%s; o.maxs.%s = a.maxs.%s > b.maxs.%s ? a.maxs.%s : b.maxs.%s;" % ((x,) * 10) for x in c))
    ck(p + "unionPt", "const %s& a, const %s& b, %s& o" % (T, V, T), "o = makeUnion(a, b);", " ".join("o.mins.%s = a.mins.%s < b.%s ? a.mins.%s : b.%s; o.maxs.%s = a.maxs.%s > b.%s ? a.maxs.%s : b.%s;" % ((x,) * 10) for x in c))
    ck(p + "unionPts", "const %s& a, const %s& b, %s& o" % (V, V, T), "o = makeUnion(a, b);", " ".join("o.mins.%s = a.%s < b.%s ? a.%s : b.%s; o.maxs.%s = a.%s > b.%s ? a.%s : b.%s;" % ((x,) * 10) for x in c))
    ck(p + "intersect", two, "o = intersect(a, b);", " ".join("o.mins.%s = a.mins.%s > b.mins.%s ? a.mins.%s : b.mins.%s; o.maxs.%s = a.maxs.%s < b.maxs.%s ? a.maxs.%s : b.maxs.%s;" % ((x,) * 10) for x in c))
    ck(p + "solid", "const %s& a, %s& o" % (T, T), "o = makeSolid(a);", " ".join("o.mins.%s = a.mins.%s < a.maxs.%s ? a.mins.%s : a.maxs.%s; o.maxs.%s = a.mins.%s > a.maxs.%s ? a.mins.%s : a.maxs.%s;" % ((x,) * 10) for x in c))
    ck(p + "zero", "%s& o" % T, "o = %s::zero();" % T, " ".join("o.%s.%s = 0;" % (h, x) for h in hl for x in c))
    lim = "Limits<%s>" % T1
    ck(p + "empty", "%s& o" % T, "o = %s::empty();" % T, " ".join("o.mins.%s = %s::Max; o.maxs.%s = %s::Min;" % (x, lim, x, lim) for x in c))
    ck(p + "full", "%s& o" % T, "o = %s::full();" % T, " ".join("o.mins.%s = %s::Min; o.maxs.%s = %s::Max;" % (x, lim, x, lim) for x in c))
    ck(p + "point", "const %s& a, %s& o" % (V, T), "o = %s{a};" % T, " ".join("o.mins.%s = a.%s; o.maxs.%s = a.%s;" % (x, x, x, x) for x in c))
    ck(p + "ctor", "const %s& a, const %s& b, %s& o" % (V, V, T), "o = %s{a, b};" % T, " ".join("o.mins.%s = a.%s; o.maxs.%s = b.%s;" % (x, x, x, x) for x in c))
    ck(p + "fromSizeV", "const %s& a, const %s& b, %s& o" % (V, V, T), "o = %s::fromSize(a, b);" % T, " ".join("o.mins.%s = a.%s; o.maxs.%s = a.%s + b.%s;" % (x, x, x, x, x) for x in c))
    if n == 2:
        ck(p + "fromSize", "%s x, %s y, %s w, %s h, %s& o" % (T1, T1, T1, T1, T), "o = %s::fromSize(x, y, w, h);" % T, "o.mins.x = x; o.mins.y = y; o.maxs.x = x + w; o.maxs.y = y + h;")
        ck(p + "topLeft", "const %s& a, %s& o" % (T, V), "o = a.topLeft();", "o.x = a.mins.x; o.y = a.maxs.y;")
        ck(p + "bottomRight", "const %s& a, %s& o" % (T, V), "o = a.bottomRight();", "o.x = a.maxs.x; o.y = a.mins.y;")
    if T1 == "float":
        ck(p + "div", "const %s& a, const %s& b, %s& o" % (T, V, T), "o = a / b;", " ".join("o.%s.%s = a.%s.%s / b.%s;" % (h, x, h, x, x) for h in hl for x in c))
        ck(p + "mid", "const %s& a, %s& o" % (T, V), "o = a.mid();", " ".join("o.%s = (a.mins.%s + a.maxs.%s) / 2;" % (x, x, x) for x in c))
        ck(p + "roundNearest", "const %s& a, float s, %s& o" % (T, T), "o = roundNearest(a, s);", " ".join("o.%s.%s = fastRound(a.%s.%s / s) * s;" % (h, x, h, x) for h in hl for x in c))
        ck(p + "roundExpand", "const %s& a, float s, %s& o" % (T, T), "o = roundExpand(a, s);", " ".join("o.mins.%s = floorf(a.mins.%s / s) * s; o.maxs.%s = ceilf(a.maxs.%s / s) * s;" % (x, x, x, x) for x in c))
        ck(p + "length2", "const %s& a, float& o" % T, "o = a.length2();", "o = %s;" % " + ".join("a.%s.%s * a.%s.%s" % (h, x, h, x) for h in hl for x in c))
        if n == 2:
            ck(p + "mix", "const %s& a, const %s& b, %s& o" % (T, V, V), "o = a.mix(b);", " ".join("o.%s = a.mins.%s + (a.maxs.%s - a.mins.%s) * b.%s;" % (x, x, x, x, x) for x in c))
            ck(p + "unmix", "const %s& a, const %s& b, %s& o" % (T, V, V), "o = a.unmix(b);", " ".join("o.%s = (b.%s - a.mins.%s) / (a.maxs.%s - a.mins.%s);" % (x, x, x, x, x) for x in c))
            ck(p + "mixBox", two, "o = a.mix(b);", " ".join("o.%s.%s = a.mins.%s + (a.maxs.%s - a.mins.%s) * b.%s.%s;" % (h, x, x, x, x, h, x) for h in hl for x in c))
            ck(p + "unmixBox", two, "o = a.unmix(b);", " ".join("o.%s.%s = (b.%s.%s - a.mins.%s) / (a.maxs.%s - a.mins.%s);" % (h, x, h, x, x, x, x) for h in hl for x in c))
            ck(p + "toInt", "const %s& a, Box<Int2<s32>>& o" % T, "o = a.to<Box<Int2<s32>>>();", " ".join("o.%s.%s = (s32) a.%s.%s;" % (h, x, h, x) for h in hl for x in c))

# ---- matrices ---------------------------------------------------------------
M = {"Float2x2": (2, 2), "Float3x3": (3, 3), "Float3x4": (3, 4), "Float4x4": (4, 4)}
def el(o, r, c):
    return "%s.col[%d].%s" % (o, c, C[r])
def full(o, t, r, c):
    """Element of a matrix, with the implicit fourth row of a 3x4 matrix."""
    R, K = M[t]
    if r < R and c < K:
        return el(o, r, c)
    return "1.f" if r == c else "0.f"
for t, (R, K) in M.items():
    p = "m%s_" % t[5:]
    V = "Float%d" % R
    rc = [(r, c) for c in range(K) for r in range(R)]
    ck(p + "identity", "%s& o" % t, "o = %s::identity();" % t, " ".join("%s = %d;" % (el("o", r, c), r == c) for r, c in rc))
    ck(p + "eq", "const %s& a, const %s& b, bool& o" % (t, t), "o = a == b;", "o = %s;" % " && ".join("%s == %s" % (el("a", r, c), el("b", r, c)) for r, c in rc))
    ck(p + "ne", "const %s& a, const %s& b, bool& o" % (t, t), "o = a != b;", "o = %s;" % " || ".join("%s != %s" % (el("a", r, c), el("b", r, c)) for r, c in rc))
    if t != "Float3x4":
        ck(p + "transposed", "const %s& a, %s& o" % (t, t), "o = a.transposed();", " ".join("%s = %s;" % (el("o", r, c), el("a", c, r)) for r, c in rc))
        ck(p + "mulv", "const %s& a, const %s& v, %s& o" % (t, V, V), "o = a * v;", " ".join("o.%s = %s;" % (C[r], " + ".join("%s * v.%s" % (el("a", r, c), C[c]) for c in range(K))) for r in range(R)))
    ck(p + "mulm", "const %s& a, const %s& b, %s& o" % (t, t, t), "o = a * b;",
       " ".join("%s = %s;" % (el("o", r, c), " + ".join("%s * %s" % (full("a", t, r, k), full("b", t, k, c)) for k in range(max(R, K)))) for r, c in rc))
    ck(p + "mulm_self", "%s& a" % t, "a = a * a;",
       "%s t;" % t + " ".join("%s = %s;" % (el("t", r, c), " + ".join("%s * %s" % (full("a", t, r, k), full("a", t, k, c)) for k in range(max(R, K)))) for r, c in rc) +
       " ".join("%s = %s;" % (el("a", r, c), el("t", r, c)) for r, c in rc))
    for k in range(K):
        ck(p + "col%d" % k, "const %s& a, %s& o" % (t, V), "o = a[%d];" % k, " ".join("o.%s = %s;" % (C[r], el("a", r, k)) for r in range(R)))
        ck(p + "setcol%d" % k, "%s& a, const %s& v" % (t, V), "a[%d] = v;" % k, " ".join("%s = v.%s;" % (el("a", r, k), C[r]) for r in range(R)))
    ck(p + "ctor", ", ".join("const %s& c%d" % (V, k) for k in range(K)) + ", %s& o" % t, "o = %s{%s};" % (t, ", ".join("c%d" % k for k in range(K))),
       " ".join("%s = c%d.%s;" % (el("o", r, c), c, C[r]) for r, c in rc))
    sv = "Float2" if t == "Float2x2" else "Float3"
    ck(p + "scale", "const %s& s, %s& o" % (sv, t), "o = %s::makeScale(s);" % t, " ".join("%s = %s;" % (el("o", r, c), ("s.%s" % C[r] if r < (2 if sv == "Float2" else 3) else "1") if r == c else "0") for r, c in rc))
QM = [["1 - 2 * (q.y * q.y + q.z * q.z)", "2 * (q.x * q.y - q.z * q.w)", "2 * (q.x * q.z + q.y * q.w)"],
      ["2 * (q.x * q.y + q.z * q.w)", "1 - 2 * (q.x * q.x + q.z * q.z)", "2 * (q.y * q.z - q.x * q.w)"],
      ["2 * (q.x * q.z - q.y * q.w)", "2 * (q.y * q.z + q.x * q.w)", "1 - 2 * (q.x * q.x + q.y * q.y)"]]
for t in ("Float3x3", "Float3x4", "Float4x4"):
    R, K = M[t]
    p = "m%s_" % t[5:]
    rc = [(r, c) for c in range(K) for r in range(R)]
    pos = ["p.x", "p.y", "p.z", "1"]
    def qm(r, c, withpos):
        if r < 3 and c < 3:
            return QM[r][c]
        if c == 3:
            return pos[r] if withpos else ("1" if r == 3 else "0")
        return "0"
    ck(p + "fromQuat", "const Quaternion& q, %s& o" % t, "o = %s::fromQuaternion(q);" % t, " ".join("%s = %s;" % (el("o", r, c), qm(r, c, False)) for r, c in rc))
    ck(p + "makeRotation", "const Float3& a, float t, %s& o" % t, "o = %s::makeRotation(a, t);" % t,
       "Quaternion q; float s = sinf(t / 2); q.x = s * a.x; q.y = s * a.y; q.z = s * a.z; q.w = cosf(t / 2); " + " ".join("%s = %s;" % (el("o", r, c), qm(r, c, False)) for r, c in rc))
    if K == 4:
        ck(p + "fromQuatPos3", "const Quaternion& q, const Float3& p, %s& o" % t, "o = %s::fromQuaternion(q, p);" % t, " ".join("%s = %s;" % (el("o", r, c), qm(r, c, True)) for r, c in rc))
        ck(p + "fromQuatPos", "const QuatPos& qp, %s& o" % t, "o = %s::fromQuatPos(qp);" % t, "Quaternion q; q.x = qp.quat.x; q.y = qp.quat.y; q.z = qp.quat.z; q.w = qp.quat.w; Float3 p; p.x = qp.pos.x; p.y = qp.pos.y; p.z = qp.pos.z; " + " ".join("%s = %s;" % (el("o", r, c), qm(r, c, True)) for r, c in rc))
        ck(p + "translation", "const Float3& p, %s& o" % t, "o = %s::makeTranslation(p);" % t, " ".join("%s = %s;" % (el("o", r, c), pos[r] if c == 3 else "%d" % (r == c)) for r, c in rc))
        ck(p + "from33", "const Float3x3& m, const Float3& p, %s& o" % t, "o = %s{m, p};" % t, " ".join("%s = %s;" % (el("o", r, c), pos[r] if c == 3 else (el("m", r, c) if r < 3 else "0")) for r, c in rc))
        ck(p + "from33only", "const Float3x3& m, %s& o" % t, "o = %s{m};" % t, " ".join("%s = %s;" % (el("o", r, c), ("1" if r == 3 else "0") if c == 3 else (el("m", r, c) if r < 3 else "0")) for r, c in rc))
        inv = []
        for r in range(R):
            for c in range(4):
                if r == 3:
                    e = "1" if c == 3 else "0"
                elif c < 3:
                    e = el("a", c, r)
                else:
                    e = "-(%s)" % " + ".join("%s * %s" % (el("a", k, r), el("a", k, 3)) for k in range(3))
                    
                inv.append("%s = %s;" % (el("o", r, c), e))
        # the 4x4 form is specified for matrices whose fourth row is [0 0 0 1]
        pre = "" if R == 3 else "Float4x4 t = a; t.col[0].w = 0; t.col[1].w = 0; t.col[2].w = 0; t.col[3].w = 1; "
        ck(p + "invertedOrtho", "const %s& a, %s& o" % (t, t), pre + "o = %s.invertedOrtho();" % ("t" if R == 4 else "a"), " ".join(inv))
    ck(p + "hasScale", "const %s& a, float t, bool& o" % t, "o = a.hasScale(t);", "o = !(%s);" % " && ".join("fabsf(1.f - (%s)) < t" % " + ".join("%s * %s" % (el("a", r, c), el("a", r, c)) for r in range(3)) for c in range(3))) if t != "Float4x4" else None
ck("m2x2_complex", "const Float2& c, Float2x2& o", "o = Float2x2::fromComplex(c);", "o.col[0].x = c.x; o.col[0].y = c.y; o.col[1].x = -c.y; o.col[1].y = c.x;")
ck("m2x2_rotation", "float t, Float2x2& o", "o = Float2x2::makeRotation(t);", "o.col[0].x = cosf(t); o.col[0].y = sinf(t); o.col[1].x = -sinf(t); o.col[1].y = cosf(t);")
ck("m3x4_mulv3", "const Float3x4& a, const Float3& v, Float3& o", "o = a * v;", " ".join("o.%s = %s + %s;" % (C[r], " + ".join("%s * v.%s" % (el("a", r, c), C[c]) for c in range(3)), el("a", r, 3)) for r in range(3)))
ck("m3x4_mulv4", "const Float3x4& a, const Float4& v, Float4& o", "o = a * v;", " ".join("o.%s = %s;" % (C[r], " + ".join("%s * v.%s" % (el("a", r, c), C[c]) for c in range(4))) for r in range(3)) + " o.w = v.w;")
for l, r_ in (("Float3x4", "Float4x4"), ("Float4x4", "Float3x4")):
    ck("m%s_mul_%s" % (l[5:], r_[5:]), "const %s& a, const %s& b, Float4x4& o" % (l, r_), "o = a * b;",
       " ".join("%s = %s;" % (el("o", r, c), " + ".join("%s * %s" % (full("a", l, r, k), full("b", r_, k, c)) for k in range(4))) for c in range(4) for r in range(4)))
ck("m3x4_as33", "const Float3x4& a, Float3x3& o", "o = a.asFloat3x3();", " ".join("%s = %s;" % (el("o", r, c), el("a", r, c)) for c in range(3) for r in range(3)))
ck("m3x4_to44", "const Float3x4& a, Float4x4& o", "o = a.toFloat4x4();", " ".join("%s = %s;" % (el("o", r, c), full("a", "Float3x4", r, c)) for c in range(4) for r in range(4)))
ck("m4x4_to33", "const Float4x4& a, Float3x3& o", "o = a.toFloat3x3();", " ".join("%s = %s;" % (el("o", r, c), el("a", r, c)) for c in range(3) for r in range(3)))
ck("m4x4_to34", "const Float4x4& a, Float3x4& o", "o = a.toFloat3x4();", " ".join("%s = %s;" % (el("o", r, c), el("a", r, c)) for c in range(4) for r in range(3)))
z44 = "for (int c = 0; c < 4; c++) { o.col[c].x = 0; o.col[c].y = 0; o.col[c].z = 0; o.col[c].w = 0; } "
ck("m4x4_projection", "const Rect& f, float n, float z, Float4x4& o", "o = Float4x4::makeProjection(f, n, z);",
   z44 + "o.col[0].x = 2 / (f.maxs.x - f.mins.x); o.col[1].y = 2 / (f.maxs.y - f.mins.y); o.col[2].x = (f.maxs.x + f.mins.x) / (f.maxs.x - f.mins.x); "
   "o.col[2].y = (f.maxs.y + f.mins.y) / (f.maxs.y - f.mins.y); o.col[2].z = -(z + n) / (z - n); o.col[2].w = -1; o.col[3].z = -(2 * z * n) / (z - n);")
ck("m4x4_ortho", "const Rect& f, float n, float z, Float4x4& o", "o = Float4x4::makeOrtho(f, n, z);",
   z44 + "o.col[0].x = 2 / (f.maxs.x - f.mins.x); o.col[1].y = 2 / (f.maxs.y - f.mins.y); o.col[2].z = -2 / (z - n); o.col[3].x = -(f.maxs.x + f.mins.x) / (f.maxs.x - f.mins.x); "
   "o.col[3].y = -(f.maxs.y + f.mins.y) / (f.maxs.y - f.mins.y); o.col[3].z = -(z + n) / (z - n); o.col[3].w = 1;")
ck("m4x4_lookAt", "const Float3& d, Float4x4& o", "o = lookAt(d);",
   "float l = sqrtf(d.x * d.x + d.y * d.y + d.z * d.z); float fx = d.x / l, fy = d.y / l, fz = d.z / l; float k = sqrtf(fx * fx + fy * fy); float rx = fy / k, ry = -fx / k; " + z44 +
   "o.col[0].x = rx; o.col[1].x = ry; o.col[0].y = ry * fz; o.col[1].y = -rx * fz; o.col[2].y = rx * fy - ry * fx; o.col[0].z = -fx; o.col[1].z = -fy; o.col[2].z = -fz; o.col[3].w = 1;")

# ---- quaternions ------------------------------------------------------------
Q = "Quaternion"
QMUL = ("o.x = a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y; o.y = a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x; "
        "o.z = a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w; o.w = a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z;")
ck("q_mul", "const Quaternion& a, const Quaternion& b, Quaternion& o", "o = a * b;", QMUL)
ck("q_mul_self", "Quaternion& a", "a = a * a;", "Quaternion o; " + QMUL.replace("b.", "a.") + " a.x = o.x; a.y = o.y; a.z = o.z; a.w = o.w;")
# q v q*: the vector part, with the unit-length identity not used
ROT = "float tx = 2 * (q.y * v.z - q.z * v.y), ty = 2 * (q.z * v.x - q.x * v.z), tz = 2 * (q.x * v.y - q.y * v.x); o.x = v.x + q.w * tx + (q.y * tz - q.z * ty); o.y = v.y + q.w * ty + (q.z * tx - q.x * tz); o.z = v.z + q.w * tz + (q.x * ty - q.y * tx);"
ck("q_rot", "const Quaternion& q, const Float3& v, Float3& o", "o = q * v;", ROT)
for k, ax in enumerate("XYZ"):
    ck("q_rotUnit" + ax, "const Quaternion& q, Float3& o", "o = q.rotateUnit%s();" % ax, " ".join("o.%s = %s;" % (C[r], QM[r][k]) for r in range(3)))
ck("q_inverted", "const Quaternion& a, Quaternion& o", "o = a.inverted();", "o.x = -a.x; o.y = -a.y; o.z = -a.z; o.w = a.w;")
ck("q_neg", "const Quaternion& a, Quaternion& o", "o = -a;", "o.x = -a.x; o.y = -a.y; o.z = -a.z; o.w = -a.w;")
ck("q_identity", "Quaternion& o", "o = Quaternion::identity();", "o.x = 0; o.y = 0; o.z = 0; o.w = 1;")
ck("q_ctor", "float x, float y, float z, float w, Quaternion& o", "o = Quaternion{x, y, z, w};", "o.x = x; o.y = y; o.z = z; o.w = w;")
ck("q_ctor3", "const Float3& v, float w, Quaternion& o", "o = Quaternion{v, w};", "o.x = v.x; o.y = v.y; o.z = v.z; o.w = w;")
ck("q_normalized", "const Quaternion& a, Quaternion& o", "o = a.normalized();", "float l = sqrtf(a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w); o.x = a.x / l; o.y = a.y / l; o.z = a.z / l; o.w = a.w / l;")
ck("q_axisAngle", "const Float3& a, float t, Quaternion& o", "o = Quaternion::fromAxisAngle(a, t);", "float s = sinf(t / 2); o.x = s * a.x; o.y = s * a.y; o.z = s * a.z; o.w = cosf(t / 2);")
NEGC = "float d = a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; float s = d > 0 ? 1.f : -1.f; "
ck("q_negIfCloser", "const Quaternion& a, const Quaternion& b, Quaternion& o", "o = a.negatedIfCloserTo(b);", NEGC + "o.x = s * a.x; o.y = s * a.y; o.z = s * a.z; o.w = s * a.w;")
MIXQ = NEGC + "float x = s * a.x * (1 - f) + b.x * f, y = s * a.y * (1 - f) + b.y * f, z = s * a.z * (1 - f) + b.z * f, w = s * a.w * (1 - f) + b.w * f; float l = sqrtf(x * x + y * y + z * z + w * w); o.x = x / l; o.y = y / l; o.z = z / l; o.w = w / l;"
ck("q_mix", "const Quaternion& a, const Quaternion& b, float f, Quaternion& o", "o = mix(a, b, f);", MIXQ)
ck("q_unitVectors", "const Float3& a, const Float3& b, Quaternion& o", "o = Quaternion::fromUnitVectors(a, b);",
   "float w = a.x * b.x + a.y * b.y + a.z * b.z + 1; float x, y, z; "
   "if (w < 1e-6f) { w = 0; if (fabsf(a.x) < 0.9f) { x = 0; y = a.z; z = -a.y; } else { x = -a.z; y = 0; z = a.x; } } else { x = a.y * b.z - a.z * b.y; y = a.z * b.x - a.x * b.z; z = a.x * b.y - a.y * b.x; } "
   "float l = sqrtf(x * x + y * y + z * z + w * w); o.x = x / l; o.y = y / l; o.z = z / l; o.w = w / l;")
def e(r, c):
    return "m.col[%d].%s" % (c, C[r])
FO = ("float t, d, s; if ((t = 1.f + %(xx)s + %(yy)s + %(zz)s) >= 0.5f) { d = sqrtf(t) * 0.5f; o.x = (%(zy)s - %(yz)s) / (4 * d); o.y = (%(xz)s - %(zx)s) / (4 * d); o.z = (%(yx)s - %(xy)s) / (4 * d); o.w = d; } "
      "else if ((t = 1.f + %(xx)s - %(yy)s - %(zz)s) >= 0.5f) { float k = %(zy)s - %(yz)s; s = k >= 0 ? 0.5f : -0.5f; d = sqrtf(t) * s; o.x = d; o.y = (%(xy)s + %(yx)s) / (4 * d); o.z = (%(xz)s + %(zx)s) / (4 * d); o.w = k / (4 * d); } "
      "else if ((t = 1.f - %(xx)s + %(yy)s - %(zz)s) >= 0.5f) { float k = %(xz)s - %(zx)s; s = k >= 0 ? 0.5f : -0.5f; d = sqrtf(t) * s; o.x = (%(xy)s + %(yx)s) / (4 * d); o.y = d; o.z = (%(yz)s + %(zy)s) / (4 * d); o.w = k / (4 * d); } "
      "else if ((t = 1.f - %(xx)s - %(yy)s + %(zz)s) >= 0.5f) { float k = %(yx)s - %(xy)s; s = k >= 0 ? 0.5f : -0.5f; d = sqrtf(t) * s; o.x = (%(xz)s + %(zx)s) / (4 * d); o.y = (%(yz)s + %(zy)s) / (4 * d); o.z = d; o.w = k / (4 * d); } "
      "else { o.x = 0; o.y = 0; o.z = 0; o.w = 1; }") % {a + b: e("xyz".index(a), "xyz".index(b)) for a in "xyz" for b in "xyz"}
ck("q_fromOrtho33", "const Float3x3& m, Quaternion& o", "o = Quaternion::fromOrtho(m);", FO)
ck("q_fromOrtho44", "const Float4x4& m, Quaternion& o", "o = Quaternion::fromOrtho(m);", FO)

# ---- QuatPos, QuatPosScale, ScalePos2 ---------------------------------------
def qrot(q, v, o, tag):
    """Statements that leave q*v in o_x, o_y, o_z."""
    return ("float t%(g)sx = 2 * (%(q)s.y * %(v)sz - %(q)s.z * %(v)sy), t%(g)sy = 2 * (%(q)s.z * %(v)sx - %(q)s.x * %(v)sz), t%(g)sz = 2 * (%(q)s.x * %(v)sy - %(q)s.y * %(v)sx); "
            "float %(o)sx = %(v)sx + %(q)s.w * t%(g)sx + (%(q)s.y * t%(g)sz - %(q)s.z * t%(g)sy), %(o)sy = %(v)sy + %(q)s.w * t%(g)sy + (%(q)s.z * t%(g)sx - %(q)s.x * t%(g)sz), "
            "%(o)sz = %(v)sz + %(q)s.w * t%(g)sz + (%(q)s.x * t%(g)sy - %(q)s.y * t%(g)sx); ") % {"q": q, "v": v, "o": o, "g": tag}
def qmul(a, b, o):
    return QMUL.replace("a.", "A.").replace("b.", "B.").replace("o.", "O.").replace("A.", a + ".").replace("B.", b + ".").replace("O.", o + ".")
ck("qp_mulv", "const QuatPos& a, const Float3& v, Float3& o", "o = a * v;", qrot("a.quat", "v.", "r", "") + "o.x = rx + a.pos.x; o.y = ry + a.pos.y; o.z = rz + a.pos.z;")
ck("qp_mul", "const QuatPos& a, const QuatPos& b, QuatPos& o", "o = a * b;", qmul("a.quat", "b.quat", "o.quat") + qrot("a.quat", "b.pos.", "r", "") + "o.pos.x = rx + a.pos.x; o.pos.y = ry + a.pos.y; o.pos.z = rz + a.pos.z;")
ck("qp_mulq", "const QuatPos& a, const Quaternion& b, QuatPos& o", "o = a * b;", qmul("a.quat", "b", "o.quat") + "o.pos.x = a.pos.x; o.pos.y = a.pos.y; o.pos.z = a.pos.z;")
ck("qp_qmul", "const Quaternion& a, const QuatPos& b, QuatPos& o", "o = a * b;", qmul("a", "b.quat", "o.quat") + qrot("a", "b.pos.", "r", "") + "o.pos.x = rx; o.pos.y = ry; o.pos.z = rz;")
ck("qp_inverted", "const QuatPos& a, QuatPos& o", "o = a.inverted();", "Quaternion i; i.x = -a.quat.x; i.y = -a.quat.y; i.z = -a.quat.z; i.w = a.quat.w; float nx = -a.pos.x, ny = -a.pos.y, nz = -a.pos.z; " + qrot("i", "n", "r", "") +
   "o.quat.x = i.x; o.quat.y = i.y; o.quat.z = i.z; o.quat.w = i.w; o.pos.x = rx; o.pos.y = ry; o.pos.z = rz;")
IDQ = "o.quat.x = 0; o.quat.y = 0; o.quat.z = 0; o.quat.w = 1; "
ck("qp_identity", "QuatPos& o", "o = QuatPos::identity();", IDQ + "o.pos.x = 0; o.pos.y = 0; o.pos.z = 0;")
ck("qp_translation", "const Float3& p, QuatPos& o", "o = QuatPos::makeTranslation(p);", IDQ + "o.pos.x = p.x; o.pos.y = p.y; o.pos.z = p.z;")
ck("qp_rotation", "const Float3& a, float t, QuatPos& o", "o = QuatPos::makeRotation(a, t);", "float s = sinf(t / 2); o.quat.x = s * a.x; o.quat.y = s * a.y; o.quat.z = s * a.z; o.quat.w = cosf(t / 2); o.pos.x = 0; o.pos.y = 0; o.pos.z = 0;")
for t in ("Float3x4", "Float4x4"):
    ck("qp_fromOrtho%s" % t[5:], "const %s& m, QuatPos& o" % t, "o = QuatPos::fromOrtho(m);", FO.replace("o.", "o.quat.") + " o.pos.x = m.col[3].x; o.pos.y = m.col[3].y; o.pos.z = m.col[3].z;")
ck("qp_mix", "const QuatPos& a0, const QuatPos& b0, float f, QuatPos& o", "o = mix(a0, b0, f);",
   MIXQ.replace("a.", "a0.quat.").replace("b.", "b0.quat.").replace("o.", "o.quat.") + " o.pos.x = a0.pos.x * (1 - f) + b0.pos.x * f; o.pos.y = a0.pos.y * (1 - f) + b0.pos.y * f; o.pos.z = a0.pos.z * (1 - f) + b0.pos.z * f;")
ck("qps_mix", "const QuatPosScale& a0, const QuatPosScale& b0, float f, QuatPosScale& o", "o = mix(a0, b0, f);",
   MIXQ.replace("a.", "a0.quat.").replace("b.", "b0.quat.").replace("o.", "o.quat.") + " " + " ".join("o.%s.%s = a0.%s.%s * (1 - f) + b0.%s.%s * f;" % (m, x, m, x, m, x) for m in ("pos", "scale") for x in "xyz"))
ck("qps_mulv", "const QuatPosScale& a, const Float3& v, Float3& o", "o = a * v;", "float sx = v.x * a.scale.x, sy = v.y * a.scale.y, sz = v.z * a.scale.z; " + qrot("a.quat", "s", "r", "") + "o.x = rx + a.pos.x; o.y = ry + a.pos.y; o.z = rz + a.pos.z;")
ck("qps_mul", "const QuatPos& a, const QuatPosScale& b, QuatPosScale& o", "o = a * b;", qmul("a.quat", "b.quat", "o.quat") + qrot("a.quat", "b.pos.", "r", "") +
   "o.pos.x = rx + a.pos.x; o.pos.y = ry + a.pos.y; o.pos.z = rz + a.pos.z; o.scale.x = b.scale.x; o.scale.y = b.scale.y; o.scale.z = b.scale.z;")
ck("qps_identity", "QuatPosScale& o", "o = QuatPosScale::identity();", IDQ + "o.pos.x = 0; o.pos.y = 0; o.pos.z = 0; o.scale.x = 1; o.scale.y = 1; o.scale.z = 1;")
ck("qps_translation", "const Float3& p, QuatPosScale& o", "o = QuatPosScale::makeTranslation(p);", IDQ + "o.pos.x = p.x; o.pos.y = p.y; o.pos.z = p.z; o.scale.x = 1; o.scale.y = 1; o.scale.z = 1;")
ck("qps_scale", "const Float3& p, QuatPosScale& o", "o = QuatPosScale::makeScale(p);", IDQ + "o.pos.x = 0; o.pos.y = 0; o.pos.z = 0; o.scale.x = p.x; o.scale.y = p.y; o.scale.z = p.z;")
ck("qps_ctor", "const QuatPos& a, const Float3& s, QuatPosScale& o", "o = QuatPosScale{a, s};", " ".join("o.quat.%s = a.quat.%s;" % (x, x) for x in C) + " ".join("o.pos.%s = a.pos.%s; o.scale.%s = s.%s;" % (x, x, x, x) for x in "xyz"))
for t in ("Float3x4", "Float4x4"):
    R, K = M[t]
    ck("qps_to" + t[5:], "const QuatPosScale& a, %s& o" % t, "o = a.to%s();" % t,
       "Quaternion q; q.x = a.quat.x; q.y = a.quat.y; q.z = a.quat.z; q.w = a.quat.w; " +
       " ".join("%s = %s;" % (el("o", r, c), "(%s) * a.scale.%s" % (QM[r][c], C[c]) if r < 3 and c < 3 else ("a.pos.%s" % C[r] if r < 3 else "1") if c == 3 else "0") for c in range(4) for r in range(R)))
S = "ScalePos2"
ck("sp_identity", "ScalePos2& o", "o = ScalePos2::identity();", "o.scale.x = 1; o.scale.y = 1; o.pos.x = 0; o.pos.y = 0;")
ck("sp_scale", "const Float2& s, ScalePos2& o", "o = ScalePos2::makeScale(s);", "o.scale.x = s.x; o.scale.y = s.y; o.pos.x = 0; o.pos.y = 0;")
ck("sp_translation", "const Float2& p, ScalePos2& o", "o = ScalePos2::makeTranslation(p);", "o.scale.x = 1; o.scale.y = 1; o.pos.x = p.x; o.pos.y = p.y;")
ck("sp_mapToRect", "const Rect& r, ScalePos2& o", "o = ScalePos2::mapToRect(r);", "o.scale.x = r.maxs.x - r.mins.x; o.scale.y = r.maxs.y - r.mins.y; o.pos.x = r.mins.x; o.pos.y = r.mins.y;")
ck("sp_mul", "const ScalePos2& a, const ScalePos2& b, ScalePos2& o", "o = a * b;", " ".join("o.scale.%s = a.scale.%s * b.scale.%s; o.pos.%s = a.scale.%s * b.pos.%s + a.pos.%s;" % ((x,) * 7) for x in "xy"))
ck("sp_mulv", "const ScalePos2& a, const Float2& b, Float2& o", "o = a * b;", " ".join("o.%s = a.scale.%s * b.%s + a.pos.%s;" % ((x,) * 4) for x in "xy"))
ck("sp_mulr", "const ScalePos2& a, const Rect& b, Rect& o", "o = a * b;", " ".join("o.%s.%s = a.scale.%s * b.%s.%s + a.pos.%s;" % (h, x, x, h, x, x) for h in ("mins", "maxs") for x in "xy"))
ck("sp_inverted", "const ScalePos2& a, ScalePos2& o", "o = a.inverted();", " ".join("o.scale.%s = 1 / a.scale.%s; o.pos.%s = -a.pos.%s / a.scale.%s;" % ((x,) * 5) for x in "xy"))

# ---- scalars, complex numbers, curves, colours ------------------------------
ck("s_square", "float a, float& o", "o = square(a);", "o = a * a;")
ck("s_squared", "double a, double& o", "o = square(a);", "o = a * a;")
ck("s_approach", "float a, float b, float s, float& o", "o = approach(a, b, s);", "if (a <= b) { o = a + s < b ? a + s : b; } else { o = a - s > b ? a - s : b; }")
ck("s_roundDown", "float a, float s, float& o", "o = roundDown(a, s);", "o = floorf(a / s) * s;")
ck("s_roundUp", "float a, float s, float& o", "o = roundUp(a, s);", "o = ceilf(a / s) * s;")
ck("s_roundNearest", "float a, float s, float& o", "o = roundNearest(a, s);", "o = fastRound(a / s) * s;")
ck("s_roundInt", "float a, s32& o", "o = fastRoundInt(a);", "o = (s32) fastRound(a);")
ck("s_wrap", "float a, float r, float& o", "o = wrap(a, r);", "o = a - floorf(a / r) * r;")
ck("s_wrapOne", "float a, float& o", "o = wrapOne(a);", "o = a - floorf(a);")
ck("s_mix", "float a, float b, float f, float& o", "o = mix(a, b, f);", "o = a * (1 - f) + b * f;")
ck("s_unmix", "float a, float b, float f, float& o", "o = unmix(a, b, f);", "o = (f - a) / (b - a);")
ck("s_clampf", "float a, float l, float h, float& o", "o = clamp(a, l, h);", "o = a < l ? l : a > h ? h : a;")
ck("s_clampi", "s32 a, s32 l, s32 h, s32& o", "o = clamp(a, l, h);", "o = a < l ? l : a > h ? h : a;")
ck("s_mini", "s32 a, s32 b, s32& o", "o = min(a, b);", "o = a < b ? a : b;")
ck("s_maxi", "s32 a, s32 b, s32& o", "o = max(a, b);", "o = a < b ? b : a;")
ck("s_absf", "float a, float& o", "o = abs(a);", "o = a < 0 ? -a : a;")
ck("s_fastSin", "float a, float& o", "o = fastSin(a);", "float f = a * (0.5f / Pi); float x = (f - floorf(f)) * 2 - 1; float v = 4 * x * (fabsf(x) - 1); o = v * (0.225f * fabsf(v) + 0.775f);")
ck("s_fastCos", "float a, float& o", "o = fastCos(a);", "float f = (a + Pi * 0.5f) * (0.5f / Pi); float x = (f - floorf(f)) * 2 - 1; float v = 4 * x * (fabsf(x) - 1); o = v * (0.225f * fabsf(v) + 0.775f);")
ck("s_fastCosSin", "float a, Float2& o", "o = fastCosSin(a);", "o.x = fastCos(a); o.y = fastSin(a);")
ck("c_identity", "Float2& o", "o = Complex::identity();", "o.x = 1; o.y = 0;")
ck("c_fromAngle", "float a, Float2& o", "o = Complex::fromAngle(a);", "o.x = cosf(a); o.y = sinf(a);")
ck("c_getAngle", "const Float2& a, float& o", "o = Complex::getAngle(a);", "o = atan2f(a.y, a.x);")
ck("c_mul", "const Float2& a, const Float2& b, Float2& o", "o = Complex::mul(a, b);", "o.x = a.x * b.x - a.y * b.y; o.y = a.x * b.y + a.y * b.x;")
for T, c in (("float", [""]), ("Float2", [".x", ".y"]), ("Float3", [".x", ".y", ".z"])):
    ck("curve_cubic_" + T, "const %s& a, const %s& b, const %s& c, const %s& d, float t, %s& o" % ((T,) * 5), "o = interpolateCubic(a, b, c, d, t);",
       "float u = 1 - t; " + " ".join("o%s = a%s * u * u * u + 3 * b%s * u * u * t + 3 * c%s * u * t * t + d%s * t * t * t;" % ((x,) * 5) for x in c))
ck("curve_simple", "float t, float& o", "o = applySimpleCubic(t);", "o = 3 * t * t - 2 * t * t * t;")
ck("x_anyPerp", "const Float3& a, Float3& o", "o = anyPerp(a);", "if (a.z * a.z < 0.9f) { o.x = a.y; o.y = -a.x; o.z = 0; } else { o.x = a.z; o.y = 0; o.z = -a.x; }")
ck("x_approach", "const Float2& a, const Float2& b, float s, Float2& o", "o = approach(a, b, s);", "float dx = b.x - a.x, dy = b.y - a.y; float l = sqrtf(dx * dx + dy * dy); if (l < s) { o.x = b.x; o.y = b.y; } else { o.x = a.x + dx * s / l; o.y = a.y + dy * s / l; }")
BAS = ("float rx = f.y * u.z - f.z * u.y, ry = f.z * u.x - f.x * u.z, rz = f.x * u.y - f.y * u.x; float q = rx * rx + ry * ry + rz * rz; "
       "if (q < 1e-6f) { if (f.z * f.z < 0.9f) { rx = f.y; ry = -f.x; rz = 0; } else { rx = f.z; ry = 0; rz = -f.x; } q = rx * rx + ry * ry + rz * rz; } "
       "float l = sqrtf(q); rx = rx / l; ry = ry / l; rz = rz / l; float ux = ry * f.z - rz * f.y, uy = rz * f.x - rx * f.z, uz = rx * f.y - ry * f.x; ")
ck("x_makeBasisYZ", "const Float3& f, const Float3& u, Float3x3& o", "o = makeBasis(f, u, Axis3::YPos, Axis3::ZPos);",
   BAS + "o.col[0].x = rx; o.col[0].y = ry; o.col[0].z = rz; o.col[1].x = f.x; o.col[1].y = f.y; o.col[1].z = f.z; o.col[2].x = ux; o.col[2].y = uy; o.col[2].z = uz;")
ck("x_makeBasisXZ", "const Float3& f, const Float3& u, Float3x3& o", "o = makeBasis(f, u, Axis3::XPos, Axis3::ZPos);",
   BAS + "o.col[0].x = f.x; o.col[0].y = f.y; o.col[0].z = f.z; o.col[1].x = -rx; o.col[1].y = -ry; o.col[1].z = -rz; o.col[2].x = ux; o.col[2].y = uy; o.col[2].z = uz;")
ck("x_makeBasisZnXn", "const Float3& f, const Float3& u, Float3x3& o", "o = makeBasis(f, u, Axis3::ZNeg, Axis3::XNeg);",
   BAS + "o.col[0].x = -ux; o.col[0].y = -uy; o.col[0].z = -uz; o.col[1].x = rx; o.col[1].y = ry; o.col[1].z = rz; o.col[2].x = -f.x; o.col[2].y = -f.y; o.col[2].z = -f.z;")
HEX = lambda i: "{ int a = h[%d], b = h[%d]; int x = a >= '0' && a <= '9' ? a - '0' : a >= 'a' && a <= 'f' ? a - 'a' + 10 : a >= 'A' && a <= 'F' ? a - 'A' + 10 : 0; int y = b >= '0' && b <= '9' ? b - '0' : b >= 'a' && b <= 'f' ? b - 'a' + 10 : b >= 'A' && b <= 'F' ? b - 'A' + 10 : 0; o[%d] = (16 * x + y) / 255.f; }" % (2 * i, 2 * i + 1, i)
ck("col_fromHex", "const HexDigits& h_, float* o", "convertFromHex(o, 1, h_.h);", "auto* h = h_.h; " + HEX(0))
ck("col_toLinear", "float s, float& o", "o = sRGBToLinear(s);", "o = s < 0.0404482362771082f ? s / 12.92f : powf((s + 0.055f) / 1.055f, 2.4f);")
ck("col_toSRGB", "float s, float& o", "o = linearToSRGB(s);", "o = s < 0.00313066844250063f ? s * 12.92f : 1.055f * powf(s, 1 / 2.4f) - 0.055f;")
for n in (3, 4):
    T = "Float%d" % n
    for f, g, nm in (("fromSRGB", "sRGBToLinear", "from"), ("toSRGB", "linearToSRGB", "to")):
        ck("col_%s%d" % (nm, n), "const %s& a, %s& o" % (T, T), "o = %s(a);" % f, " ".join("o.%s = %s(a.%s);" % (x, g, x) for x in "xyz") + (" o.w = a.w;" if n == 4 else ""))
ck("col_to8888", "const Float4& a, Int4<u8>& o", "o = to8888(a);", " ".join("o.%s = (u8) (a.%s * 255.9f);" % (x, x) for x in C))

# ---- axis-aligned rotations: finite domains, every combination --------------
AX3 = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
AX2 = [(1, 0), (0, 1), (-1, 0), (0, -1)]
cr = lambda a, b: (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
dt = lambda a, b: sum(x * y for x, y in zip(a, b))
def many(name, params, pairs):
    """One function per table: o[i] for every combination."""
    ck(name, params, " ".join(a for a, _ in pairs), " ".join(b for _, b in pairs))
many("ax_cross", "u8* o", [("o[%d] = (u8) cross(Axis3(%d), Axis3(%d));" % (k, i, j), "o[%d] = %d;" % (k, AX3.index(cr(AX3[i], AX3[j]))))
     for k, (i, j) in enumerate((i, j) for i in range(6) for j in range(6) if i // 2 != j // 2)])
many("ax_dot", "s32* o", [("o[%d] = dot(Axis3(%d), Axis3(%d));" % (i * 6 + j, i, j), "o[%d] = %d;" % (i * 6 + j, dt(AX3[i], AX3[j]))) for i in range(6) for j in range(6)])
many("ax_isPerp", "bool* o", [("o[%d] = isPerp(Axis3(%d), Axis3(%d));" % (i * 6 + j, i, j), "o[%d] = %d;" % (i * 6 + j, dt(AX3[i], AX3[j]) == 0)) for i in range(6) for j in range(6)])
many("ax_dotv", "const Float3& v, float* o", [("o[%d] = dot(Axis3(%d), v);" % (i, i), "o[%d] = %sv.%s;" % (i, "-" if sum(AX3[i]) < 0 else "", C[i // 2])) for i in range(6)])
many("ax_negate", "u8* o", [("o[%d] = (u8) negate(Axis3(%d));" % (i, i), "o[%d] = %d;" % (i, i ^ 1)) for i in range(6)])
many("ax_abs", "u8* o", [("o[%d] = (u8) abs(Axis3(%d));" % (i, i), "o[%d] = %d;" % (i, i & 6)) for i in range(6)])
many("ax_sgn", "s32* o", [("o[%d] = sgn(Axis3(%d));" % (i, i), "o[%d] = %d;" % (i, sum(AX3[i]))) for i in range(6)])
many("ax_mulSign", "u8* o", [("o[%d] = (u8) mulSign(Axis3(%d), %d);" % (k, i, s), "o[%d] = %d;" % (k, i if s > 0 else i ^ 1)) for k, (i, s) in enumerate((i, s) for i in range(6) for s in (1, -1))])
many("ax_isValid", "bool* o", [("o[%d] = isValid(Axis3(%d));" % (i, i), "o[%d] = %d;" % (i, i < 6)) for i in range(8)])
many("ax_toFloat3", "Float3* o", [("o[%d] = toFloat3(Axis3(%d));" % (i, i), "o[%d].x = %d; o[%d].y = %d; o[%d].z = %d;" % (i, AX3[i][0], i, AX3[i][1], i, AX3[i][2])) for i in range(6)])
many("ax2_sgn", "s32* o", [("o[%d] = sgn(Axis2(%d));" % (i, i), "o[%d] = %d;" % (i, sum(AX2[i]))) for i in range(4)])
many("ax2_negate", "u8* o", [("o[%d] = (u8) negate(Axis2(%d));" % (i, i), "o[%d] = %d;" % (i, (-i) % 4)) for i in range(4)])
many("ax2_isValid", "bool* o", [("o[%d] = isValid(Axis2(%d));" % (i, i), "o[%d] = %d;" % (i, i < 4)) for i in range(6)])
many("ax2_mulv", "const Float2& v, Float2* o", [("o[%d] = Axis2(%d) * v;" % (i, i), "o[%d].x = %d * v.x - %d * v.y; o[%d].y = %d * v.x + %d * v.y;" % (i, AX2[i][0], AX2[i][1], i, AX2[i][1], AX2[i][0])) for i in range(4)])
many("ax2_mulv3", "const Float3& v, Float3* o", [("o[%d] = Axis2(%d) * v;" % (i, i), "o[%d].x = %d * v.x - %d * v.y; o[%d].y = %d * v.x + %d * v.y; o[%d].z = v.z;" % (i, AX2[i][0], AX2[i][1], i, AX2[i][1], AX2[i][0], i)) for i in range(4)])
many("ax2_toFloat3", "Float3* o", [("o[%d] = toFloat3(Axis2(%d));" % (i, i), "o[%d].x = %d; o[%d].y = %d; o[%d].z = 0;" % (i, AX2[i][0], i, AX2[i][1], i)) for i in range(4)])
many("ax2_toFloat2", "Float2* o", [("o[%d] = toFloat2(Axis2(%d));" % (i, i), "o[%d].x = %d; o[%d].y = %d;" % (i, AX2[i][0], i, AX2[i][1])) for i in range(4)])
many("ax2_toAxis3", "u8* o", [("o[%d] = (u8) toAxis3(Axis2(%d));" % (i, i), "o[%d] = %d;" % (i, AX3.index(AX2[i] + (0,)))) for i in range(4)])
many("ax3_toAxis2", "u8* o", [("o[%d] = (u8) toAxis2(Axis3(%d));" % (i, i), "o[%d] = %d;" % (i, AX2.index(AX3[i][:2]))) for i in range(4)])
rots = [(i, j, s) for i in range(6) for j in range(6) if i // 2 != j // 2 for s in (0, 1)]
def img(rt):
    i, j, s = rt
    z = AX3.index(cr(AX3[i], AX3[j])) ^ s
    return (i, j, z)
R = [img(r) for r in rots]
AR = lambda r: "AxisRot{Axis3(%d), Axis3(%d), Axis3(%d)}" % r
def ap(r, a):
    return r[a >> 1] ^ (a & 1)
def invr(r):
    o = [None] * 3
    for i in range(3):
        o[r[i] >> 1] = 2 * i ^ (r[i] & 1)
    return tuple(o)
many("ar_mulAxis", "u8* o", [("o[%d] = (u8) (%s * Axis3(%d));" % (k * 6 + a, AR(r), a), "o[%d] = %d;" % (k * 6 + a, ap(r, a))) for k, r in enumerate(R) for a in range(6)])
many("ar_mulAxis2", "u8* o", [("o[%d] = (u8) (%s * Axis2(%d));" % (k * 4 + a, AR(r), a), "o[%d] = %d;" % (k * 4 + a, ap(r, AX3.index(AX2[a] + (0,))))) for k, r in enumerate(R) for a in range(4)])
many("ar_inverted", "AxisRot* o", [("o[%d] = %s.inverted();" % (k, AR(r)), " ".join("o[%d].cols[%d] = Axis3(%d);" % (k, i, invr(r)[i]) for i in range(3))) for k, r in enumerate(R)])
def mv(r, pre):
    """Components of r*v."""
    o = [None] * 3
    for i in range(3):
        o[r[i] >> 1] = ("-" if r[i] & 1 else "") + pre + "." + C[i]
    return o
many("ar_mulv", "const Float3& v, Float3* o", [("o[%d] = %s * v;" % (k, AR(r)), " ".join("o[%d].%s = %s;" % (k, C[i], mv(r, "v")[i]) for i in range(3))) for k, r in enumerate(R)])
many("ar_rightHanded", "bool* o", [("o[%d] = %s.isRightHanded();" % (k, AR(r)), "o[%d] = %d;" % (k, rots[k][2] == 0)) for k, r in enumerate(R)])
many("ar_isOrtho", "bool* o", [("o[%d] = %s.isOrtho();" % (k, AR(r)), "o[%d] = %d;" % (k, len({x >> 1 for x in r}) == 3)) for k, r in enumerate(R[:6] + [(0, 1, 2), (0, 2, 3), (4, 2, 4)])])
many("ar_mul", "AxisRot* o", [("o[%d] = %s * %s;" % (k, AR(R[i]), AR(R[j])), " ".join("o[%d].cols[%d] = Axis3(%d);" % (k, c, ap(R[i], R[j][c])) for c in range(3))) for k, (i, j) in enumerate((i, (i * 7 + 3) % 48) for i in range(48))])
many("ar_cross2", "AxisRot* o", [("o[%d] = AxisRot{Axis3(%d), Axis3(%d)};" % (k, r[0], r[1]), " ".join("o[%d].cols[%d] = Axis3(%d);" % (k, c, r[c]) for c in range(3))) for k, r in enumerate(R) if rots[k][2] == 0])
many("ar_basis", "AxisRot* o", [("o[%d] = AxisRot::makeBasis(Axis3(%d), %d);" % (k, v, i), " ".join("o[%d].cols[%d] = Axis3(%d);" % (k, (i + d) % 3, (v, (v + 2) % 6, AX3.index(cr(AX3[v], AX3[(v + 2) % 6])))[d]) for d in range(3))) for k, (v, i) in enumerate((v, i) for v in range(6) for i in range(3))])
many("ar_rot2d", "AxisRot* o", [("o[%d] = AxisRot::fromRot2D(Axis2(%d));" % (i, i), "o[%d].cols[0] = Axis3(%d); o[%d].cols[1] = Axis3(%d); o[%d].cols[2] = Axis3(4);" % (i, AX3.index(AX2[i] + (0,)), i, AX3.index(AX2[(i + 1) % 4] + (0,)), i)) for i in range(4)])
many("ar_identity", "AxisRot* o", [("*o = AxisRot::identity();", "o->cols[0] = Axis3(0); o->cols[1] = Axis3(2); o->cols[2] = Axis3(4);")])
many("ar_eq", "bool* o", [("o[%d] = %s == %s;" % (k, AR(a), AR(b)), "o[%d] = %d;" % (k, a == b)) for k, (a, b) in enumerate([((0, 2, 4), (0, 2, 4)), ((0, 2, 4), (1, 2, 4)), ((0, 2, 4), (0, 3, 4)), ((0, 2, 4), (0, 2, 5))])])
many("ar_lt", "bool* o", [("o[%d] = %s < %s;" % (k, AR(a), AR(b)), "o[%d] = %d;" % (k, a < b)) for k, (a, b) in enumerate((a, b) for a in R[:5] for b in R[:5])])
many("ar_to33", "Float3x3* o", [("o[%d] = %s.toFloat3x3();" % (k, AR(r)), " ".join("o[%d].col[%d].%s = %d;" % (k, c, C[q], AX3[r[c]][q]) for c in range(3) for q in range(3))) for k, r in enumerate(R[:12])])
many("ar_to44", "Float4x4* o", [("o[%d] = %s.toFloat4x4();" % (k, AR(r)), " ".join("o[%d].col[%d].%s = %d;" % (k, c, C[q], AX3[r[c]][q] if c < 3 and q < 3 else int(c == q)) for c in range(4) for q in range(4))) for k, r in enumerate(R[:12])])
r0, r1 = R[9], R[30]
ck("arp_mul", "const Float3& p, const Float3& s, AxisRotPos& o", "o = AxisRotPos{%s, p} * AxisRotPos{%s, s};" % (AR(r0), AR(r1)),
   " ".join("o.rot.cols[%d] = Axis3(%d);" % (c, ap(r0, r1[c])) for c in range(3)) + " ".join("o.pos.%s = %s + p.%s;" % (C[i], mv(r0, "s")[i], C[i]) for i in range(3)))
ck("arp_mulv", "const Float3& p, const Float3& v, Float3& o", "o = AxisRotPos{%s, p} * v;" % AR(r0), " ".join("o.%s = %s + p.%s;" % (C[i], mv(r0, "v")[i], C[i]) for i in range(3)))
ck("arp_rotmul", "const Float3& p, AxisRotPos& o", "o = %s * AxisRotPos{%s, p};" % (AR(r0), AR(r1)), " ".join("o.rot.cols[%d] = Axis3(%d);" % (c, ap(r0, r1[c])) for c in range(3)) + " ".join("o.pos.%s = %s;" % (C[i], mv(r0, "p")[i]) for i in range(3)))
ck("arp_mulrot", "const Float3& p, AxisRotPos& o", "o = AxisRotPos{%s, p} * %s;" % (AR(r0), AR(r1)), " ".join("o.rot.cols[%d] = Axis3(%d);" % (c, ap(r0, r1[c])) for c in range(3)) + " ".join("o.pos.%s = p.%s;" % (C[i], C[i]) for i in range(3)))
ck("arp_inverted", "const Float3& p, AxisRotPos& o", "o = AxisRotPos{%s, p}.inverted();" % AR(r0), " ".join("o.rot.cols[%d] = Axis3(%d);" % (c, invr(r0)[c]) for c in range(3)) + " ".join("o.pos.%s = -(%s);" % (C[i], mv(invr(r0), "p")[i]) for i in range(3)))
ck("arp_to44", "const Float3& p, Float4x4& o", "o = AxisRotPos{%s, p}.toFloat4x4();" % AR(r0), " ".join("o.col[%d].%s = %s;" % (c, C[q], AX3[r0[c]][q] if c < 3 and q < 3 else ("p.%s" % C[q] if q < 3 else "1") if c == 3 else "0") for c in range(4) for q in range(4)))
ck("arp_translation", "const Float3& p, AxisRotPos& o", "o = AxisRotPos::makeTranslation(p);", "o.rot.cols[0] = Axis3(0); o.rot.cols[1] = Axis3(2); o.rot.cols[2] = Axis3(4); o.pos.x = p.x; o.pos.y = p.y; o.pos.z = p.z;")

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "math.cpp")
open(path, "w").write("\n".join(out) + "\n")
print(len(names), "operations")
