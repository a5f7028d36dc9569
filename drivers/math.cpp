// Generated by meta/genmath.py: m_<name> calls the library, r_<name> spells the formula out on plain scalars.
#include <ply-math/Core.h>
#include <ply-math/Base.h>
#include <ply-platform/Util.h>
using namespace ply;
struct HexDigits { char h[6]; };

extern "C" void m_f2_add(const Float2& a, const Float2& b, Float2& o) { o = a + b; }
extern "C" void r_f2_add(const Float2& a, const Float2& b, Float2& o) { o.x = a.x + b.x; o.y = a.y + b.y; }
extern "C" void m_f2_add_eq(Float2& a, const Float2& b) { a += b; }
extern "C" void r_f2_add_eq(Float2& a, const Float2& b) { a.x = a.x + b.x; a.y = a.y + b.y; }
extern "C" void m_f2_add_self(Float2& a) { a += a; }
extern "C" void r_f2_add_self(Float2& a) { a.x = a.x + a.x; a.y = a.y + a.y; }
extern "C" void m_f2_add_s(const Float2& a, float b, Float2& o) { o = a + b; }
extern "C" void r_f2_add_s(const Float2& a, float b, Float2& o) { o.x = a.x + b; o.y = a.y + b; }
extern "C" void m_f2_s_add(float a, const Float2& b, Float2& o) { o = a + b; }
extern "C" void r_f2_s_add(float a, const Float2& b, Float2& o) { o.x = a + b.x; o.y = a + b.y; }
extern "C" void m_f2_add_eq_s(Float2& a, float b) { a += b; }
extern "C" void r_f2_add_eq_s(Float2& a, float b) { a.x = a.x + b; a.y = a.y + b; }
extern "C" void m_f2_sub(const Float2& a, const Float2& b, Float2& o) { o = a - b; }
extern "C" void r_f2_sub(const Float2& a, const Float2& b, Float2& o) { o.x = a.x - b.x; o.y = a.y - b.y; }
extern "C" void m_f2_sub_eq(Float2& a, const Float2& b) { a -= b; }
extern "C" void r_f2_sub_eq(Float2& a, const Float2& b) { a.x = a.x - b.x; a.y = a.y - b.y; }
extern "C" void m_f2_sub_self(Float2& a) { a -= a; }
extern "C" void r_f2_sub_self(Float2& a) { a.x = a.x - a.x; a.y = a.y - a.y; }
extern "C" void m_f2_sub_s(const Float2& a, float b, Float2& o) { o = a - b; }
extern "C" void r_f2_sub_s(const Float2& a, float b, Float2& o) { o.x = a.x - b; o.y = a.y - b; }
extern "C" void m_f2_s_sub(float a, const Float2& b, Float2& o) { o = a - b; }
extern "C" void r_f2_s_sub(float a, const Float2& b, Float2& o) { o.x = a - b.x; o.y = a - b.y; }
extern "C" void m_f2_sub_eq_s(Float2& a, float b) { a -= b; }
extern "C" void r_f2_sub_eq_s(Float2& a, float b) { a.x = a.x - b; a.y = a.y - b; }
extern "C" void m_f2_mul(const Float2& a, const Float2& b, Float2& o) { o = a * b; }
extern "C" void r_f2_mul(const Float2& a, const Float2& b, Float2& o) { o.x = a.x * b.x; o.y = a.y * b.y; }
extern "C" void m_f2_mul_eq(Float2& a, const Float2& b) { a *= b; }
extern "C" void r_f2_mul_eq(Float2& a, const Float2& b) { a.x = a.x * b.x; a.y = a.y * b.y; }
extern "C" void m_f2_mul_self(Float2& a) { a *= a; }
extern "C" void r_f2_mul_self(Float2& a) { a.x = a.x * a.x; a.y = a.y * a.y; }
extern "C" void m_f2_mul_s(const Float2& a, float b, Float2& o) { o = a * b; }
extern "C" void r_f2_mul_s(const Float2& a, float b, Float2& o) { o.x = a.x * b; o.y = a.y * b; }
extern "C" void m_f2_s_mul(float a, const Float2& b, Float2& o) { o = a * b; }
extern "C" void r_f2_s_mul(float a, const Float2& b, Float2& o) { o.x = a * b.x; o.y = a * b.y; }
extern "C" void m_f2_mul_eq_s(Float2& a, float b) { a *= b; }
extern "C" void r_f2_mul_eq_s(Float2& a, float b) { a.x = a.x * b; a.y = a.y * b; }
extern "C" void m_f2_div(const Float2& a, const Float2& b, Float2& o) { o = a / b; }
extern "C" void r_f2_div(const Float2& a, const Float2& b, Float2& o) { o.x = a.x / b.x; o.y = a.y / b.y; }
extern "C" void m_f2_div_eq(Float2& a, const Float2& b) { a /= b; }
extern "C" void r_f2_div_eq(Float2& a, const Float2& b) { a.x = a.x / b.x; a.y = a.y / b.y; }
extern "C" void m_f2_div_self(Float2& a) { a /= a; }
extern "C" void r_f2_div_self(Float2& a) { a.x = a.x / a.x; a.y = a.y / a.y; }
extern "C" void m_f2_div_s(const Float2& a, float b, Float2& o) { o = a / b; }
extern "C" void r_f2_div_s(const Float2& a, float b, Float2& o) { o.x = a.x / b; o.y = a.y / b; }
extern "C" void m_f2_s_div(float a, const Float2& b, Float2& o) { o = a / b; }
extern "C" void r_f2_s_div(float a, const Float2& b, Float2& o) { o.x = a / b.x; o.y = a / b.y; }
extern "C" void m_f2_div_eq_s(Float2& a, float b) { a /= b; }
extern "C" void r_f2_div_eq_s(Float2& a, float b) { a.x = a.x / b; a.y = a.y / b; }
extern "C" void m_f2_neg(const Float2& a, Float2& o) { o = -a; }
extern "C" void r_f2_neg(const Float2& a, Float2& o) { o.x = -a.x; o.y = -a.y; }
extern "C" void m_f2_splat(float a, Float2& o) { o = Float2{a}; }
extern "C" void r_f2_splat(float a, Float2& o) { o.x = a; o.y = a; }
extern "C" void m_f2_ctor(float x, float y, Float2& o) { o = Float2{x, y}; }
extern "C" void r_f2_ctor(float x, float y, Float2& o) { o.x = x; o.y = y; }
extern "C" void m_f2_copy(const Float2& a, Float2& o) { Float2 t{a}; o = t; }
extern "C" void r_f2_copy(const Float2& a, Float2& o) { o.x = a.x; o.y = a.y; }
extern "C" void m_f2_length2(const Float2& a, float& o) { o = a.length2(); }
extern "C" void r_f2_length2(const Float2& a, float& o) { o = (a.x * a.x + a.y * a.y); }
extern "C" void m_f2_length(const Float2& a, float& o) { o = a.length(); }
extern "C" void r_f2_length(const Float2& a, float& o) { o = sqrtf((a.x * a.x + a.y * a.y)); }
extern "C" void m_f2_isUnit(const Float2& a, float t, bool& o) { o = a.isUnit(t); }
extern "C" void r_f2_isUnit(const Float2& a, float t, bool& o) { o = fabsf(1.f - (a.x * a.x + a.y * a.y)) < t; }
extern "C" void m_f2_normalized(const Float2& a, Float2& o) { o = a.normalized(); }
extern "C" void r_f2_normalized(const Float2& a, Float2& o) { float l = sqrtf((a.x * a.x + a.y * a.y)); o.x = a.x / l; o.y = a.y / l; }
extern "C" void m_f2_safeNormalized(const Float2& a, const Float2& f, float e, Float2& o) { o = a.safeNormalized(f, e); }
extern "C" void r_f2_safeNormalized(const Float2& a, const Float2& f, float e, Float2& o) { float q = (a.x * a.x + a.y * a.y); float l = sqrtf(q); o.x = q < e ? f.x : a.x / l; o.y = q < e ? f.y : a.y / l; }
extern "C" void m_f2_dot(const Float2& a, const Float2& b, float& o) { o = dot(a, b); }
extern "C" void r_f2_dot(const Float2& a, const Float2& b, float& o) { o = a.x * b.x + a.y * b.y; }
extern "C" void m_f2_clamp(const Float2& a, const Float2& l, const Float2& h, Float2& o) { o = clamp(a, l, h); }
extern "C" void r_f2_clamp(const Float2& a, const Float2& l, const Float2& h, Float2& o) { o.x = a.x < l.x ? l.x : a.x < h.x ? a.x : h.x; o.y = a.y < l.y ? l.y : a.y < h.y ? a.y : h.y; }
extern "C" void m_f2_abs(const Float2& a, Float2& o) { o = abs(a); }
extern "C" void r_f2_abs(const Float2& a, Float2& o) { o.x = a.x < 0 ? -a.x : a.x; o.y = a.y < 0 ? -a.y : a.y; }
extern "C" void m_f2_pow(const Float2& a, const Float2& b, Float2& o) { o = pow(a, b); }
extern "C" void r_f2_pow(const Float2& a, const Float2& b, Float2& o) { o.x = powf(a.x, b.x); o.y = powf(a.y, b.y); }
extern "C" void m_f2_min(const Float2& a, const Float2& b, Float2& o) { o = min(a, b); }
extern "C" void r_f2_min(const Float2& a, const Float2& b, Float2& o) { o.x = a.x < b.x ? a.x : b.x; o.y = a.y < b.y ? a.y : b.y; }
extern "C" void m_f2_max(const Float2& a, const Float2& b, Float2& o) { o = max(a, b); }
extern "C" void r_f2_max(const Float2& a, const Float2& b, Float2& o) { o.x = a.x > b.x ? a.x : b.x; o.y = a.y > b.y ? a.y : b.y; }
extern "C" void m_f2_eq(const Float2& a, const Float2& b, bool& o) { o = a == b; }
extern "C" void r_f2_eq(const Float2& a, const Float2& b, bool& o) { o = a.x == b.x && a.y == b.y; }
extern "C" void m_f2_ne(const Float2& a, const Float2& b, bool& o) { o = a != b; }
extern "C" void r_f2_ne(const Float2& a, const Float2& b, bool& o) { o = a.x != b.x || a.y != b.y; }
extern "C" void m_f2_isNear(const Float2& a, const Float2& b, float e, bool& o) { o = isNear(a, b, e); }
extern "C" void r_f2_isNear(const Float2& a, const Float2& b, float e, bool& o) { o = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y) <= e * e; }
extern "C" void m_f2_lt(const Float2& a, const Float2& b, Bool2& o) { o = a < b; }
extern "C" void r_f2_lt(const Float2& a, const Float2& b, Bool2& o) { o.x = a.x < b.x; o.y = a.y < b.y; }
extern "C" void m_f2_le(const Float2& a, const Float2& b, Bool2& o) { o = a <= b; }
extern "C" void r_f2_le(const Float2& a, const Float2& b, Bool2& o) { o.x = a.x <= b.x; o.y = a.y <= b.y; }
extern "C" void m_f2_gt(const Float2& a, const Float2& b, Bool2& o) { o = a > b; }
extern "C" void r_f2_gt(const Float2& a, const Float2& b, Bool2& o) { o.x = a.x > b.x; o.y = a.y > b.y; }
extern "C" void m_f2_ge(const Float2& a, const Float2& b, Bool2& o) { o = a >= b; }
extern "C" void r_f2_ge(const Float2& a, const Float2& b, Bool2& o) { o.x = a.x >= b.x; o.y = a.y >= b.y; }
extern "C" void m_b2_all(const Bool2& a, bool& o) { o = all(a); }
extern "C" void r_b2_all(const Bool2& a, bool& o) { o = (int) a.x & (int) a.y; }
extern "C" void m_b2_any(const Bool2& a, bool& o) { o = any(a); }
extern "C" void r_b2_any(const Bool2& a, bool& o) { o = (int) a.x | (int) a.y; }
extern "C" void m_f2_all(const Float2& a, const Float2& b, bool& o) { o = all(a < b); }
extern "C" void r_f2_all(const Float2& a, const Float2& b, bool& o) { o = a.x < b.x && a.y < b.y; }
extern "C" void m_f2_any(const Float2& a, const Float2& b, bool& o) { o = any(a < b); }
extern "C" void r_f2_any(const Float2& a, const Float2& b, bool& o) { o = a.x < b.x || a.y < b.y; }
extern "C" void m_f2_roundUp(const Float2& a, float s, Float2& o) { o = roundUp(a, s); }
extern "C" void r_f2_roundUp(const Float2& a, float s, Float2& o) { o.x = ceilf(a.x / s) * s; o.y = ceilf(a.y / s) * s; }
extern "C" void m_f2_roundDown(const Float2& a, float s, Float2& o) { o = roundDown(a, s); }
extern "C" void r_f2_roundDown(const Float2& a, float s, Float2& o) { o.x = floorf(a.x / s) * s; o.y = floorf(a.y / s) * s; }
extern "C" void m_f2_roundNearest(const Float2& a, float s, Float2& o) { o = roundNearest(a, s); }
extern "C" void r_f2_roundNearest(const Float2& a, float s, Float2& o) { o.x = fastRound(a.x / s) * s; o.y = fastRound(a.y / s) * s; }
extern "C" void m_f2_isRounded(const Float2& a, float s, bool& o) { o = isRounded(a, s); }
extern "C" void r_f2_isRounded(const Float2& a, float s, bool& o) { o = fastRound(a.x / s) * s == a.x && fastRound(a.y / s) * s == a.y; }
extern "C" void m_f2_swz2_0(const Float2& a, Float2& o) { o = a.swizzle(0, 1); }
extern "C" void r_f2_swz2_0(const Float2& a, Float2& o) { o.x = a.x; o.y = a.y; }
extern "C" void m_f2_swz2_1(const Float2& a, Float2& o) { o = a.swizzle(1, 0); }
extern "C" void r_f2_swz2_1(const Float2& a, Float2& o) { o.x = a.y; o.y = a.x; }
extern "C" void m_f2_swz3_0(const Float2& a, Float3& o) { o = a.swizzle(0, 1, 1); }
extern "C" void r_f2_swz3_0(const Float2& a, Float3& o) { o.x = a.x; o.y = a.y; o.z = a.y; }
extern "C" void m_f2_swz3_1(const Float2& a, Float3& o) { o = a.swizzle(1, 0, 1); }
extern "C" void r_f2_swz3_1(const Float2& a, Float3& o) { o.x = a.y; o.y = a.x; o.z = a.y; }
extern "C" void m_f2_swz4_0(const Float2& a, Float4& o) { o = a.swizzle(0, 1, 1, 1); }
extern "C" void r_f2_swz4_0(const Float2& a, Float4& o) { o.x = a.x; o.y = a.y; o.z = a.y; o.w = a.y; }
extern "C" void m_f2_swz4_1(const Float2& a, Float4& o) { o = a.swizzle(1, 0, 1, 0); }
extern "C" void r_f2_swz4_1(const Float2& a, Float4& o) { o.x = a.y; o.y = a.x; o.z = a.y; o.w = a.x; }
extern "C" void m_f2_toInt(const Float2& a, Int2<s32>& o) { o = a.to<Int2<s32>>(); }
extern "C" void r_f2_toInt(const Float2& a, Int2<s32>& o) { o.x = (s32) a.x; o.y = (s32) a.y; }
extern "C" void m_f2_r(const Float2& a, float& o) { o = a.r(); }
extern "C" void r_f2_r(const Float2& a, float& o) { o = a.x; }
extern "C" void m_f2_r_set(Float2& a, float v) { a.r() = v; }
extern "C" void r_f2_r_set(Float2& a, float v) { a.x = v; }
extern "C" void m_f2_g(const Float2& a, float& o) { o = a.g(); }
extern "C" void r_f2_g(const Float2& a, float& o) { o = a.y; }
extern "C" void m_f2_g_set(Float2& a, float v) { a.g() = v; }
extern "C" void r_f2_g_set(Float2& a, float v) { a.y = v; }
extern "C" void m_f2_mix(const Float2& a, const Float2& b, float f, Float2& o) { o = mix(a, b, f); }
extern "C" void r_f2_mix(const Float2& a, const Float2& b, float f, Float2& o) { o.x = a.x + (b.x - a.x) * f; o.y = a.y + (b.y - a.y) * f; }
extern "C" void m_f3_add(const Float3& a, const Float3& b, Float3& o) { o = a + b; }
extern "C" void r_f3_add(const Float3& a, const Float3& b, Float3& o) { o.x = a.x + b.x; o.y = a.y + b.y; o.z = a.z + b.z; }
extern "C" void m_f3_add_eq(Float3& a, const Float3& b) { a += b; }
extern "C" void r_f3_add_eq(Float3& a, const Float3& b) { a.x = a.x + b.x; a.y = a.y + b.y; a.z = a.z + b.z; }
extern "C" void m_f3_add_self(Float3& a) { a += a; }
extern "C" void r_f3_add_self(Float3& a) { a.x = a.x + a.x; a.y = a.y + a.y; a.z = a.z + a.z; }
extern "C" void m_f3_add_s(const Float3& a, float b, Float3& o) { o = a + b; }
extern "C" void r_f3_add_s(const Float3& a, float b, Float3& o) { o.x = a.x + b; o.y = a.y + b; o.z = a.z + b; }
extern "C" void m_f3_s_add(float a, const Float3& b, Float3& o) { o = a + b; }
extern "C" void r_f3_s_add(float a, const Float3& b, Float3& o) { o.x = a + b.x; o.y = a + b.y; o.z = a + b.z; }
extern "C" void m_f3_add_eq_s(Float3& a, float b) { a += b; }
extern "C" void r_f3_add_eq_s(Float3& a, float b) { a.x = a.x + b; a.y = a.y + b; a.z = a.z + b; }
extern "C" void m_f3_sub(const Float3& a, const Float3& b, Float3& o) { o = a - b; }
extern "C" void r_f3_sub(const Float3& a, const Float3& b, Float3& o) { o.x = a.x - b.x; o.y = a.y - b.y; o.z = a.z - b.z; }
extern "C" void m_f3_sub_eq(Float3& a, const Float3& b) { a -= b; }
extern "C" void r_f3_sub_eq(Float3& a, const Float3& b) { a.x = a.x - b.x; a.y = a.y - b.y; a.z = a.z - b.z; }
extern "C" void m_f3_sub_self(Float3& a) { a -= a; }
extern "C" void r_f3_sub_self(Float3& a) { a.x = a.x - a.x; a.y = a.y - a.y; a.z = a.z - a.z; }
extern "C" void m_f3_sub_s(const Float3& a, float b, Float3& o) { o = a - b; }
extern "C" void r_f3_sub_s(const Float3& a, float b, Float3& o) { o.x = a.x - b; o.y = a.y - b; o.z = a.z - b; }
extern "C" void m_f3_s_sub(float a, const Float3& b, Float3& o) { o = a - b; }
extern "C" void r_f3_s_sub(float a, const Float3& b, Float3& o) { o.x = a - b.x; o.y = a - b.y; o.z = a - b.z; }
extern "C" void m_f3_sub_eq_s(Float3& a, float b) { a -= b; }
extern "C" void r_f3_sub_eq_s(Float3& a, float b) { a.x = a.x - b; a.y = a.y - b; a.z = a.z - b; }
extern "C" void m_f3_mul(const Float3& a, const Float3& b, Float3& o) { o = a * b; }
extern "C" void r_f3_mul(const Float3& a, const Float3& b, Float3& o) { o.x = a.x * b.x; o.y = a.y * b.y; o.z = a.z * b.z; }
extern "C" void m_f3_mul_eq(Float3& a, const Float3& b) { a *= b; }
extern "C" void r_f3_mul_eq(Float3& a, const Float3& b) { a.x = a.x * b.x; a.y = a.y * b.y; a.z = a.z * b.z; }
extern "C" void m_f3_mul_self(Float3& a) { a *= a; }
extern "C" void r_f3_mul_self(Float3& a) { a.x = a.x * a.x; a.y = a.y * a.y; a.z = a.z * a.z; }
extern "C" void m_f3_mul_s(const Float3& a, float b, Float3& o) { o = a * b; }
extern "C" void r_f3_mul_s(const Float3& a, float b, Float3& o) { o.x = a.x * b; o.y = a.y * b; o.z = a.z * b; }
extern "C" void m_f3_s_mul(float a, const Float3& b, Float3& o) { o = a * b; }
extern "C" void r_f3_s_mul(float a, const Float3& b, Float3& o) { o.x = a * b.x; o.y = a * b.y; o.z = a * b.z; }
extern "C" void m_f3_mul_eq_s(Float3& a, float b) { a *= b; }
extern "C" void r_f3_mul_eq_s(Float3& a, float b) { a.x = a.x * b; a.y = a.y * b; a.z = a.z * b; }
extern "C" void m_f3_div(const Float3& a, const Float3& b, Float3& o) { o = a / b; }
extern "C" void r_f3_div(const Float3& a, const Float3& b, Float3& o) { o.x = a.x / b.x; o.y = a.y / b.y; o.z = a.z / b.z; }
extern "C" void m_f3_div_eq(Float3& a, const Float3& b) { a /= b; }
extern "C" void r_f3_div_eq(Float3& a, const Float3& b) { a.x = a.x / b.x; a.y = a.y / b.y; a.z = a.z / b.z; }
extern "C" void m_f3_div_self(Float3& a) { a /= a; }
extern "C" void r_f3_div_self(Float3& a) { a.x = a.x / a.x; a.y = a.y / a.y; a.z = a.z / a.z; }
extern "C" void m_f3_div_s(const Float3& a, float b, Float3& o) { o = a / b; }
extern "C" void r_f3_div_s(const Float3& a, float b, Float3& o) { o.x = a.x / b; o.y = a.y / b; o.z = a.z / b; }
extern "C" void m_f3_s_div(float a, const Float3& b, Float3& o) { o = a / b; }
extern "C" void r_f3_s_div(float a, const Float3& b, Float3& o) { o.x = a / b.x; o.y = a / b.y; o.z = a / b.z; }
extern "C" void m_f3_div_eq_s(Float3& a, float b) { a /= b; }
extern "C" void r_f3_div_eq_s(Float3& a, float b) { a.x = a.x / b; a.y = a.y / b; a.z = a.z / b; }
extern "C" void m_f3_neg(const Float3& a, Float3& o) { o = -a; }
extern "C" void r_f3_neg(const Float3& a, Float3& o) { o.x = -a.x; o.y = -a.y; o.z = -a.z; }
extern "C" void m_f3_splat(float a, Float3& o) { o = Float3{a}; }
extern "C" void r_f3_splat(float a, Float3& o) { o.x = a; o.y = a; o.z = a; }
extern "C" void m_f3_ctor(float x, float y, float z, Float3& o) { o = Float3{x, y, z}; }
extern "C" void r_f3_ctor(float x, float y, float z, Float3& o) { o.x = x; o.y = y; o.z = z; }
extern "C" void m_f3_copy(const Float3& a, Float3& o) { Float3 t{a}; o = t; }
extern "C" void r_f3_copy(const Float3& a, Float3& o) { o.x = a.x; o.y = a.y; o.z = a.z; }
extern "C" void m_f3_length2(const Float3& a, float& o) { o = a.length2(); }
extern "C" void r_f3_length2(const Float3& a, float& o) { o = (a.x * a.x + a.y * a.y + a.z * a.z); }
extern "C" void m_f3_length(const Float3& a, float& o) { o = a.length(); }
extern "C" void r_f3_length(const Float3& a, float& o) { o = sqrtf((a.x * a.x + a.y * a.y + a.z * a.z)); }
extern "C" void m_f3_isUnit(const Float3& a, float t, bool& o) { o = a.isUnit(t); }
extern "C" void r_f3_isUnit(const Float3& a, float t, bool& o) { o = fabsf(1.f - (a.x * a.x + a.y * a.y + a.z * a.z)) < t; }
extern "C" void m_f3_normalized(const Float3& a, Float3& o) { o = a.normalized(); }
extern "C" void r_f3_normalized(const Float3& a, Float3& o) { float l = sqrtf((a.x * a.x + a.y * a.y + a.z * a.z)); o.x = a.x / l; o.y = a.y / l; o.z = a.z / l; }
extern "C" void m_f3_safeNormalized(const Float3& a, const Float3& f, float e, Float3& o) { o = a.safeNormalized(f, e); }
extern "C" void r_f3_safeNormalized(const Float3& a, const Float3& f, float e, Float3& o) { float q = (a.x * a.x + a.y * a.y + a.z * a.z); float l = sqrtf(q); o.x = q < e ? f.x : a.x / l; o.y = q < e ? f.y : a.y / l; o.z = q < e ? f.z : a.z / l; }
extern "C" void m_f3_dot(const Float3& a, const Float3& b, float& o) { o = dot(a, b); }
extern "C" void r_f3_dot(const Float3& a, const Float3& b, float& o) { o = a.x * b.x + a.y * b.y + a.z * b.z; }
extern "C" void m_f3_clamp(const Float3& a, const Float3& l, const Float3& h, Float3& o) { o = clamp(a, l, h); }
extern "C" void r_f3_clamp(const Float3& a, const Float3& l, const Float3& h, Float3& o) { o.x = a.x < l.x ? l.x : a.x < h.x ? a.x : h.x; o.y = a.y < l.y ? l.y : a.y < h.y ? a.y : h.y; o.z = a.z < l.z ? l.z : a.z < h.z ? a.z : h.z; }
extern "C" void m_f3_abs(const Float3& a, Float3& o) { o = abs(a); }
extern "C" void r_f3_abs(const Float3& a, Float3& o) { o.x = a.x < 0 ? -a.x : a.x; o.y = a.y < 0 ? -a.y : a.y; o.z = a.z < 0 ? -a.z : a.z; }
extern "C" void m_f3_pow(const Float3& a, const Float3& b, Float3& o) { o = pow(a, b); }
extern "C" void r_f3_pow(const Float3& a, const Float3& b, Float3& o) { o.x = powf(a.x, b.x); o.y = powf(a.y, b.y); o.z = powf(a.z, b.z); }
extern "C" void m_f3_min(const Float3& a, const Float3& b, Float3& o) { o = min(a, b); }
extern "C" void r_f3_min(const Float3& a, const Float3& b, Float3& o) { o.x = a.x < b.x ? a.x : b.x; o.y = a.y < b.y ? a.y : b.y; o.z = a.z < b.z ? a.z : b.z; }
extern "C" void m_f3_max(const Float3& a, const Float3& b, Float3& o) { o = max(a, b); }
extern "C" void r_f3_max(const Float3& a, const Float3& b, Float3& o) { o.x = a.x > b.x ? a.x : b.x; o.y = a.y > b.y ? a.y : b.y; o.z = a.z > b.z ? a.z : b.z; }
extern "C" void m_f3_eq(const Float3& a, const Float3& b, bool& o) { o = a == b; }
extern "C" void r_f3_eq(const Float3& a, const Float3& b, bool& o) { o = a.x == b.x && a.y == b.y && a.z == b.z; }
extern "C" void m_f3_ne(const Float3& a, const Float3& b, bool& o) { o = a != b; }
extern "C" void r_f3_ne(const Float3& a, const Float3& b, bool& o) { o = a.x != b.x || a.y != b.y || a.z != b.z; }
extern "C" void m_f3_isNear(const Float3& a, const Float3& b, float e, bool& o) { o = isNear(a, b, e); }
extern "C" void r_f3_isNear(const Float3& a, const Float3& b, float e, bool& o) { o = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y) + (b.z - a.z) * (b.z - a.z) <= e * e; }
extern "C" void m_f3_lt(const Float3& a, const Float3& b, Bool3& o) { o = a < b; }
extern "C" void r_f3_lt(const Float3& a, const Float3& b, Bool3& o) { o.x = a.x < b.x; o.y = a.y < b.y; o.z = a.z < b.z; }
extern "C" void m_f3_le(const Float3& a, const Float3& b, Bool3& o) { o = a <= b; }
extern "C" void r_f3_le(const Float3& a, const Float3& b, Bool3& o) { o.x = a.x <= b.x; o.y = a.y <= b.y; o.z = a.z <= b.z; }
extern "C" void m_f3_gt(const Float3& a, const Float3& b, Bool3& o) { o = a > b; }
extern "C" void r_f3_gt(const Float3& a, const Float3& b, Bool3& o) { o.x = a.x > b.x; o.y = a.y > b.y; o.z = a.z > b.z; }
extern "C" void m_f3_ge(const Float3& a, const Float3& b, Bool3& o) { o = a >= b; }
extern "C" void r_f3_ge(const Float3& a, const Float3& b, Bool3& o) { o.x = a.x >= b.x; o.y = a.y >= b.y; o.z = a.z >= b.z; }
extern "C" void m_b3_all(const Bool3& a, bool& o) { o = all(a); }
extern "C" void r_b3_all(const Bool3& a, bool& o) { o = (int) a.x & (int) a.y & (int) a.z; }
extern "C" void m_b3_any(const Bool3& a, bool& o) { o = any(a); }
extern "C" void r_b3_any(const Bool3& a, bool& o) { o = (int) a.x | (int) a.y | (int) a.z; }
extern "C" void m_f3_all(const Float3& a, const Float3& b, bool& o) { o = all(a < b); }
extern "C" void r_f3_all(const Float3& a, const Float3& b, bool& o) { o = a.x < b.x && a.y < b.y && a.z < b.z; }
extern "C" void m_f3_any(const Float3& a, const Float3& b, bool& o) { o = any(a < b); }
extern "C" void r_f3_any(const Float3& a, const Float3& b, bool& o) { o = a.x < b.x || a.y < b.y || a.z < b.z; }
extern "C" void m_f3_roundUp(const Float3& a, float s, Float3& o) { o = roundUp(a, s); }
extern "C" void r_f3_roundUp(const Float3& a, float s, Float3& o) { o.x = ceilf(a.x / s) * s; o.y = ceilf(a.y / s) * s; o.z = ceilf(a.z / s) * s; }
extern "C" void m_f3_roundDown(const Float3& a, float s, Float3& o) { o = roundDown(a, s); }
extern "C" void r_f3_roundDown(const Float3& a, float s, Float3& o) { o.x = floorf(a.x / s) * s; o.y = floorf(a.y / s) * s; o.z = floorf(a.z / s) * s; }
extern "C" void m_f3_roundNearest(const Float3& a, float s, Float3& o) { o = roundNearest(a, s); }
extern "C" void r_f3_roundNearest(const Float3& a, float s, Float3& o) { o.x = fastRound(a.x / s) * s; o.y = fastRound(a.y / s) * s; o.z = fastRound(a.z / s) * s; }
extern "C" void m_f3_isRounded(const Float3& a, float s, bool& o) { o = isRounded(a, s); }
extern "C" void r_f3_isRounded(const Float3& a, float s, bool& o) { o = fastRound(a.x / s) * s == a.x && fastRound(a.y / s) * s == a.y && fastRound(a.z / s) * s == a.z; }
extern "C" void m_f3_swz2_0(const Float3& a, Float2& o) { o = a.swizzle(0, 1); }
extern "C" void r_f3_swz2_0(const Float3& a, Float2& o) { o.x = a.x; o.y = a.y; }
extern "C" void m_f3_swz2_1(const Float3& a, Float2& o) { o = a.swizzle(1, 0); }
extern "C" void r_f3_swz2_1(const Float3& a, Float2& o) { o.x = a.y; o.y = a.x; }
extern "C" void m_f3_swz2_2(const Float3& a, Float2& o) { o = a.swizzle(2, 0); }
extern "C" void r_f3_swz2_2(const Float3& a, Float2& o) { o.x = a.z; o.y = a.x; }
extern "C" void m_f3_swz3_0(const Float3& a, Float3& o) { o = a.swizzle(0, 2, 1); }
extern "C" void r_f3_swz3_0(const Float3& a, Float3& o) { o.x = a.x; o.y = a.z; o.z = a.y; }
extern "C" void m_f3_swz3_1(const Float3& a, Float3& o) { o = a.swizzle(1, 0, 2); }
extern "C" void r_f3_swz3_1(const Float3& a, Float3& o) { o.x = a.y; o.y = a.x; o.z = a.z; }
extern "C" void m_f3_swz4_0(const Float3& a, Float4& o) { o = a.swizzle(0, 1, 2, 1); }
extern "C" void r_f3_swz4_0(const Float3& a, Float4& o) { o.x = a.x; o.y = a.y; o.z = a.z; o.w = a.y; }
extern "C" void m_f3_swz4_1(const Float3& a, Float4& o) { o = a.swizzle(2, 0, 1, 0); }
extern "C" void r_f3_swz4_1(const Float3& a, Float4& o) { o.x = a.z; o.y = a.x; o.z = a.y; o.w = a.x; }
extern "C" void m_f3_toInt(const Float3& a, Int3<s32>& o) { o = a.to<Int3<s32>>(); }
extern "C" void r_f3_toInt(const Float3& a, Int3<s32>& o) { o.x = (s32) a.x; o.y = (s32) a.y; o.z = (s32) a.z; }
extern "C" void m_f3_r(const Float3& a, float& o) { o = a.r(); }
extern "C" void r_f3_r(const Float3& a, float& o) { o = a.x; }
extern "C" void m_f3_r_set(Float3& a, float v) { a.r() = v; }
extern "C" void r_f3_r_set(Float3& a, float v) { a.x = v; }
extern "C" void m_f3_g(const Float3& a, float& o) { o = a.g(); }
extern "C" void r_f3_g(const Float3& a, float& o) { o = a.y; }
extern "C" void m_f3_g_set(Float3& a, float v) { a.g() = v; }
extern "C" void r_f3_g_set(Float3& a, float v) { a.y = v; }
extern "C" void m_f3_b(const Float3& a, float& o) { o = a.b(); }
extern "C" void r_f3_b(const Float3& a, float& o) { o = a.z; }
extern "C" void m_f3_b_set(Float3& a, float v) { a.b() = v; }
extern "C" void r_f3_b_set(Float3& a, float v) { a.z = v; }
extern "C" void m_f3_mix(const Float3& a, const Float3& b, float f, Float3& o) { o = mix(a, b, f); }
extern "C" void r_f3_mix(const Float3& a, const Float3& b, float f, Float3& o) { o.x = a.x + (b.x - a.x) * f; o.y = a.y + (b.y - a.y) * f; o.z = a.z + (b.z - a.z) * f; }
extern "C" void m_f4_add(const Float4& a, const Float4& b, Float4& o) { o = a + b; }
extern "C" void r_f4_add(const Float4& a, const Float4& b, Float4& o) { o.x = a.x + b.x; o.y = a.y + b.y; o.z = a.z + b.z; o.w = a.w + b.w; }
extern "C" void m_f4_add_eq(Float4& a, const Float4& b) { a += b; }
extern "C" void r_f4_add_eq(Float4& a, const Float4& b) { a.x = a.x + b.x; a.y = a.y + b.y; a.z = a.z + b.z; a.w = a.w + b.w; }
extern "C" void m_f4_add_self(Float4& a) { a += a; }
extern "C" void r_f4_add_self(Float4& a) { a.x = a.x + a.x; a.y = a.y + a.y; a.z = a.z + a.z; a.w = a.w + a.w; }
extern "C" void m_f4_add_s(const Float4& a, float b, Float4& o) { o = a + b; }
extern "C" void r_f4_add_s(const Float4& a, float b, Float4& o) { o.x = a.x + b; o.y = a.y + b; o.z = a.z + b; o.w = a.w + b; }
extern "C" void m_f4_s_add(float a, const Float4& b, Float4& o) { o = a + b; }
extern "C" void r_f4_s_add(float a, const Float4& b, Float4& o) { o.x = a + b.x; o.y = a + b.y; o.z = a + b.z; o.w = a + b.w; }
extern "C" void m_f4_add_eq_s(Float4& a, float b) { a += b; }
extern "C" void r_f4_add_eq_s(Float4& a, float b) { a.x = a.x + b; a.y = a.y + b; a.z = a.z + b; a.w = a.w + b; }
extern "C" void m_f4_sub(const Float4& a, const Float4& b, Float4& o) { o = a - b; }
extern "C" void r_f4_sub(const Float4& a, const Float4& b, Float4& o) { o.x = a.x - b.x; o.y = a.y - b.y; o.z = a.z - b.z; o.w = a.w - b.w; }
extern "C" void m_f4_sub_eq(Float4& a, const Float4& b) { a -= b; }
extern "C" void r_f4_sub_eq(Float4& a, const Float4& b) { a.x = a.x - b.x; a.y = a.y - b.y; a.z = a.z - b.z; a.w = a.w - b.w; }
extern "C" void m_f4_sub_self(Float4& a) { a -= a; }
extern "C" void r_f4_sub_self(Float4& a) { a.x = a.x - a.x; a.y = a.y - a.y; a.z = a.z - a.z; a.w = a.w - a.w; }
extern "C" void m_f4_sub_s(const Float4& a, float b, Float4& o) { o = a - b; }
extern "C" void r_f4_sub_s(const Float4& a, float b, Float4& o) { o.x = a.x - b; o.y = a.y - b; o.z = a.z - b; o.w = a.w - b; }
extern "C" void m_f4_s_sub(float a, const Float4& b, Float4& o) { o = a - b; }
extern "C" void r_f4_s_sub(float a, const Float4& b, Float4& o) { o.x = a - b.x; o.y = a - b.y; o.z = a - b.z; o.w = a - b.w; }
extern "C" void m_f4_sub_eq_s(Float4& a, float b) { a -= b; }
extern "C" void r_f4_sub_eq_s(Float4& a, float b) { a.x = a.x - b; a.y = a.y - b; a.z = a.z - b; a.w = a.w - b; }
extern "C" void m_f4_mul(const Float4& a, const Float4& b, Float4& o) { o = a * b; }
extern "C" void r_f4_mul(const Float4& a, const Float4& b, Float4& o) { o.x = a.x * b.x; o.y = a.y * b.y; o.z = a.z * b.z; o.w = a.w * b.w; }
extern "C" void m_f4_mul_eq(Float4& a, const Float4& b) { a *= b; }
extern "C" void r_f4_mul_eq(Float4& a, const Float4& b) { a.x = a.x * b.x; a.y = a.y * b.y; a.z = a.z * b.z; a.w = a.w * b.w; }
extern "C" void m_f4_mul_self(Float4& a) { a *= a; }
extern "C" void r_f4_mul_self(Float4& a) { a.x = a.x * a.x; a.y = a.y * a.y; a.z = a.z * a.z; a.w = a.w * a.w; }
extern "C" void m_f4_mul_s(const Float4& a, float b, Float4& o) { o = a * b; }
extern "C" void r_f4_mul_s(const Float4& a, float b, Float4& o) { o.x = a.x * b; o.y = a.y * b; o.z = a.z * b; o.w = a.w * b; }
extern "C" void m_f4_s_mul(float a, const Float4& b, Float4& o) { o = a * b; }
extern "C" void r_f4_s_mul(float a, const Float4& b, Float4& o) { o.x = a * b.x; o.y = a * b.y; o.z = a * b.z; o.w = a * b.w; }
extern "C" void m_f4_mul_eq_s(Float4& a, float b) { a *= b; }
extern "C" void r_f4_mul_eq_s(Float4& a, float b) { a.x = a.x * b; a.y = a.y * b; a.z = a.z * b; a.w = a.w * b; }
extern "C" void m_f4_div(const Float4& a, const Float4& b, Float4& o) { o = a / b; }
extern "C" void r_f4_div(const Float4& a, const Float4& b, Float4& o) { o.x = a.x / b.x; o.y = a.y / b.y; o.z = a.z / b.z; o.w = a.w / b.w; }
extern "C" void m_f4_div_eq(Float4& a, const Float4& b) { a /= b; }
extern "C" void r_f4_div_eq(Float4& a, const Float4& b) { a.x = a.x / b.x; a.y = a.y / b.y; a.z = a.z / b.z; a.w = a.w / b.w; }
extern "C" void m_f4_div_self(Float4& a) { a /= a; }
extern "C" void r_f4_div_self(Float4& a) { a.x = a.x / a.x; a.y = a.y / a.y; a.z = a.z / a.z; a.w = a.w / a.w; }
extern "C" void m_f4_div_s(const Float4& a, float b, Float4& o) { o = a / b; }
extern "C" void r_f4_div_s(const Float4& a, float b, Float4& o) { o.x = a.x / b; o.y = a.y / b; o.z = a.z / b; o.w = a.w / b; }
extern "C" void m_f4_s_div(float a, const Float4& b, Float4& o) { o = a / b; }
extern "C" void r_f4_s_div(float a, const Float4& b, Float4& o) { o.x = a / b.x; o.y = a / b.y; o.z = a / b.z; o.w = a / b.w; }
extern "C" void m_f4_div_eq_s(Float4& a, float b) { a /= b; }
extern "C" void r_f4_div_eq_s(Float4& a, float b) { a.x = a.x / b; a.y = a.y / b; a.z = a.z / b; a.w = a.w / b; }
extern "C" void m_f4_neg(const Float4& a, Float4& o) { o = -a; }
extern "C" void r_f4_neg(const Float4& a, Float4& o) { o.x = -a.x; o.y = -a.y; o.z = -a.z; o.w = -a.w; }
extern "C" void m_f4_splat(float a, Float4& o) { o = Float4{a}; }
extern "C" void r_f4_splat(float a, Float4& o) { o.x = a; o.y = a; o.z = a; o.w = a; }
extern "C" void m_f4_ctor(float x, float y, float z, float w, Float4& o) { o = Float4{x, y, z, w}; }
extern "C" void r_f4_ctor(float x, float y, float z, float w, Float4& o) { o.x = x; o.y = y; o.z = z; o.w = w; }
extern "C" void m_f4_copy(const Float4& a, Float4& o) { Float4 t{a}; o = t; }
extern "C" void r_f4_copy(const Float4& a, Float4& o) { o.x = a.x; o.y = a.y; o.z = a.z; o.w = a.w; }
extern "C" void m_f4_length2(const Float4& a, float& o) { o = a.length2(); }
extern "C" void r_f4_length2(const Float4& a, float& o) { o = (a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w); }
extern "C" void m_f4_length(const Float4& a, float& o) { o = a.length(); }
extern "C" void r_f4_length(const Float4& a, float& o) { o = sqrtf((a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w)); }
extern "C" void m_f4_isUnit(const Float4& a, float t, bool& o) { o = a.isUnit(t); }
extern "C" void r_f4_isUnit(const Float4& a, float t, bool& o) { o = fabsf(1.f - (a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w)) < t; }
extern "C" void m_f4_normalized(const Float4& a, Float4& o) { o = a.normalized(); }
extern "C" void r_f4_normalized(const Float4& a, Float4& o) { float l = sqrtf((a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w)); o.x = a.x / l; o.y = a.y / l; o.z = a.z / l; o.w = a.w / l; }
extern "C" void m_f4_safeNormalized(const Float4& a, const Float4& f, float e, Float4& o) { o = a.safeNormalized(f, e); }
extern "C" void r_f4_safeNormalized(const Float4& a, const Float4& f, float e, Float4& o) { float q = (a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w); float l = sqrtf(q); o.x = q < e ? f.x : a.x / l; o.y = q < e ? f.y : a.y / l; o.z = q < e ? f.z : a.z / l; o.w = q < e ? f.w : a.w / l; }
extern "C" void m_f4_dot(const Float4& a, const Float4& b, float& o) { o = dot(a, b); }
extern "C" void r_f4_dot(const Float4& a, const Float4& b, float& o) { o = a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
extern "C" void m_f4_clamp(const Float4& a, const Float4& l, const Float4& h, Float4& o) { o = clamp(a, l, h); }
extern "C" void r_f4_clamp(const Float4& a, const Float4& l, const Float4& h, Float4& o) { o.x = a.x < l.x ? l.x : a.x < h.x ? a.x : h.x; o.y = a.y < l.y ? l.y : a.y < h.y ? a.y : h.y; o.z = a.z < l.z ? l.z : a.z < h.z ? a.z : h.z; o.w = a.w < l.w ? l.w : a.w < h.w ? a.w : h.w; }
extern "C" void m_f4_abs(const Float4& a, Float4& o) { o = abs(a); }
extern "C" void r_f4_abs(const Float4& a, Float4& o) { o.x = a.x < 0 ? -a.x : a.x; o.y = a.y < 0 ? -a.y : a.y; o.z = a.z < 0 ? -a.z : a.z; o.w = a.w < 0 ? -a.w : a.w; }
extern "C" void m_f4_pow(const Float4& a, const Float4& b, Float4& o) { o = pow(a, b); }
extern "C" void r_f4_pow(const Float4& a, const Float4& b, Float4& o) { o.x = powf(a.x, b.x); o.y = powf(a.y, b.y); o.z = powf(a.z, b.z); o.w = powf(a.w, b.w); }
extern "C" void m_f4_min(const Float4& a, const Float4& b, Float4& o) { o = min(a, b); }
extern "C" void r_f4_min(const Float4& a, const Float4& b, Float4& o) { o.x = a.x < b.x ? a.x : b.x; o.y = a.y < b.y ? a.y : b.y; o.z = a.z < b.z ? a.z : b.z; o.w = a.w < b.w ? a.w : b.w; }
extern "C" void m_f4_max(const Float4& a, const Float4& b, Float4& o) { o = max(a, b); }
extern "C" void r_f4_max(const Float4& a, const Float4& b, Float4& o) { o.x = a.x > b.x ? a.x : b.x; o.y = a.y > b.y ? a.y : b.y; o.z = a.z > b.z ? a.z : b.z; o.w = a.w > b.w ? a.w : b.w; }
extern "C" void m_f4_eq(const Float4& a, const Float4& b, bool& o) { o = a == b; }
extern "C" void r_f4_eq(const Float4& a, const Float4& b, bool& o) { o = a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; }
extern "C" void m_f4_ne(const Float4& a, const Float4& b, bool& o) { o = a != b; }
extern "C" void r_f4_ne(const Float4& a, const Float4& b, bool& o) { o = a.x != b.x || a.y != b.y || a.z != b.z || a.w != b.w; }
extern "C" void m_f4_isNear(const Float4& a, const Float4& b, float e, bool& o) { o = isNear(a, b, e); }
extern "C" void r_f4_isNear(const Float4& a, const Float4& b, float e, bool& o) { o = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y) + (b.z - a.z) * (b.z - a.z) + (b.w - a.w) * (b.w - a.w) <= e * e; }
extern "C" void m_f4_lt(const Float4& a, const Float4& b, Bool4& o) { o = a < b; }
extern "C" void r_f4_lt(const Float4& a, const Float4& b, Bool4& o) { o.x = a.x < b.x; o.y = a.y < b.y; o.z = a.z < b.z; o.w = a.w < b.w; }
extern "C" void m_f4_le(const Float4& a, const Float4& b, Bool4& o) { o = a <= b; }
extern "C" void r_f4_le(const Float4& a, const Float4& b, Bool4& o) { o.x = a.x <= b.x; o.y = a.y <= b.y; o.z = a.z <= b.z; o.w = a.w <= b.w; }
extern "C" void m_f4_gt(const Float4& a, const Float4& b, Bool4& o) { o = a > b; }
extern "C" void r_f4_gt(const Float4& a, const Float4& b, Bool4& o) { o.x = a.x > b.x; o.y = a.y > b.y; o.z = a.z > b.z; o.w = a.w > b.w; }
extern "C" void m_f4_ge(const Float4& a, const Float4& b, Bool4& o) { o = a >= b; }
extern "C" void r_f4_ge(const Float4& a, const Float4& b, Bool4& o) { o.x = a.x >= b.x; o.y = a.y >= b.y; o.z = a.z >= b.z; o.w = a.w >= b.w; }
extern "C" void m_b4_all(const Bool4& a, bool& o) { o = all(a); }
extern "C" void r_b4_all(const Bool4& a, bool& o) { o = (int) a.x & (int) a.y & (int) a.z & (int) a.w; }
extern "C" void m_b4_any(const Bool4& a, bool& o) { o = any(a); }
extern "C" void r_b4_any(const Bool4& a, bool& o) { o = (int) a.x | (int) a.y | (int) a.z | (int) a.w; }
extern "C" void m_f4_all(const Float4& a, const Float4& b, bool& o) { o = all(a < b); }
extern "C" void r_f4_all(const Float4& a, const Float4& b, bool& o) { o = a.x < b.x && a.y < b.y && a.z < b.z && a.w < b.w; }
extern "C" void m_f4_any(const Float4& a, const Float4& b, bool& o) { o = any(a < b); }
extern "C" void r_f4_any(const Float4& a, const Float4& b, bool& o) { o = a.x < b.x || a.y < b.y || a.z < b.z || a.w < b.w; }
extern "C" void m_f4_roundUp(const Float4& a, float s, Float4& o) { o = roundUp(a, s); }
extern "C" void r_f4_roundUp(const Float4& a, float s, Float4& o) { o.x = ceilf(a.x / s) * s; o.y = ceilf(a.y / s) * s; o.z = ceilf(a.z / s) * s; o.w = ceilf(a.w / s) * s; }
extern "C" void m_f4_roundDown(const Float4& a, float s, Float4& o) { o = roundDown(a, s); }
extern "C" void r_f4_roundDown(const Float4& a, float s, Float4& o) { o.x = floorf(a.x / s) * s; o.y = floorf(a.y / s) * s; o.z = floorf(a.z / s) * s; o.w = floorf(a.w / s) * s; }
extern "C" void m_f4_roundNearest(const Float4& a, float s, Float4& o) { o = roundNearest(a, s); }
extern "C" void r_f4_roundNearest(const Float4& a, float s, Float4& o) { o.x = fastRound(a.x / s) * s; o.y = fastRound(a.y / s) * s; o.z = fastRound(a.z / s) * s; o.w = fastRound(a.w / s) * s; }
extern "C" void m_f4_isRounded(const Float4& a, float s, bool& o) { o = isRounded(a, s); }
extern "C" void r_f4_isRounded(const Float4& a, float s, bool& o) { o = fastRound(a.x / s) * s == a.x && fastRound(a.y / s) * s == a.y && fastRound(a.z / s) * s == a.z && fastRound(a.w / s) * s == a.w; }
extern "C" void m_f4_swz2_0(const Float4& a, Float2& o) { o = a.swizzle(0, 1); }
extern "C" void r_f4_swz2_0(const Float4& a, Float2& o) { o.x = a.x; o.y = a.y; }
extern "C" void m_f4_swz2_1(const Float4& a, Float2& o) { o = a.swizzle(1, 0); }
extern "C" void r_f4_swz2_1(const Float4& a, Float2& o) { o.x = a.y; o.y = a.x; }
extern "C" void m_f4_swz2_2(const Float4& a, Float2& o) { o = a.swizzle(3, 0); }
extern "C" void r_f4_swz2_2(const Float4& a, Float2& o) { o.x = a.w; o.y = a.x; }
extern "C" void m_f4_swz3_0(const Float4& a, Float3& o) { o = a.swizzle(0, 3, 1); }
extern "C" void r_f4_swz3_0(const Float4& a, Float3& o) { o.x = a.x; o.y = a.w; o.z = a.y; }
extern "C" void m_f4_swz3_1(const Float4& a, Float3& o) { o = a.swizzle(1, 0, 3); }
extern "C" void r_f4_swz3_1(const Float4& a, Float3& o) { o.x = a.y; o.y = a.x; o.z = a.w; }
extern "C" void m_f4_swz4_0(const Float4& a, Float4& o) { o = a.swizzle(0, 1, 3, 1); }
extern "C" void r_f4_swz4_0(const Float4& a, Float4& o) { o.x = a.x; o.y = a.y; o.z = a.w; o.w = a.y; }
extern "C" void m_f4_swz4_1(const Float4& a, Float4& o) { o = a.swizzle(3, 0, 1, 0); }
extern "C" void r_f4_swz4_1(const Float4& a, Float4& o) { o.x = a.w; o.y = a.x; o.z = a.y; o.w = a.x; }
extern "C" void m_f4_toInt(const Float4& a, Int4<s32>& o) { o = a.to<Int4<s32>>(); }
extern "C" void r_f4_toInt(const Float4& a, Int4<s32>& o) { o.x = (s32) a.x; o.y = (s32) a.y; o.z = (s32) a.z; o.w = (s32) a.w; }
extern "C" void m_f4_r(const Float4& a, float& o) { o = a.r(); }
extern "C" void r_f4_r(const Float4& a, float& o) { o = a.x; }
extern "C" void m_f4_r_set(Float4& a, float v) { a.r() = v; }
extern "C" void r_f4_r_set(Float4& a, float v) { a.x = v; }
extern "C" void m_f4_g(const Float4& a, float& o) { o = a.g(); }
extern "C" void r_f4_g(const Float4& a, float& o) { o = a.y; }
extern "C" void m_f4_g_set(Float4& a, float v) { a.g() = v; }
extern "C" void r_f4_g_set(Float4& a, float v) { a.y = v; }
extern "C" void m_f4_b(const Float4& a, float& o) { o = a.b(); }
extern "C" void r_f4_b(const Float4& a, float& o) { o = a.z; }
extern "C" void m_f4_b_set(Float4& a, float v) { a.b() = v; }
extern "C" void r_f4_b_set(Float4& a, float v) { a.z = v; }
extern "C" void m_f4_a(const Float4& a, float& o) { o = a.a(); }
extern "C" void r_f4_a(const Float4& a, float& o) { o = a.w; }
extern "C" void m_f4_a_set(Float4& a, float v) { a.a() = v; }
extern "C" void r_f4_a_set(Float4& a, float v) { a.w = v; }
extern "C" void m_f4_mix(const Float4& a, const Float4& b, float f, Float4& o) { o = mix(a, b, f); }
extern "C" void r_f4_mix(const Float4& a, const Float4& b, float f, Float4& o) { o.x = a.x + (b.x - a.x) * f; o.y = a.y + (b.y - a.y) * f; o.z = a.z + (b.z - a.z) * f; o.w = a.w + (b.w - a.w) * f; }
extern "C" void m_f2_cross(const Float2& a, const Float2& b, float& o) { o = cross(a, b); }
extern "C" void r_f2_cross(const Float2& a, const Float2& b, float& o) { o = a.x * b.y - a.y * b.x; }
extern "C" void m_f3_cross(const Float3& a, const Float3& b, Float3& o) { o = cross(a, b); }
extern "C" void r_f3_cross(const Float3& a, const Float3& b, Float3& o) { o.x = a.y * b.z - a.z * b.y; o.y = a.z * b.x - a.x * b.z; o.z = a.x * b.y - a.y * b.x; }
extern "C" void m_f3_ctor2(const Float2& a, float z, Float3& o) { o = Float3{a, z}; }
extern "C" void r_f3_ctor2(const Float2& a, float z, Float3& o) { o.x = a.x; o.y = a.y; o.z = z; }
extern "C" void m_f4_ctor2(const Float2& a, float z, float w, Float4& o) { o = Float4{a, z, w}; }
extern "C" void r_f4_ctor2(const Float2& a, float z, float w, Float4& o) { o.x = a.x; o.y = a.y; o.z = z; o.w = w; }
extern "C" void m_f4_ctor3(const Float3& a, float w, Float4& o) { o = Float4{a, w}; }
extern "C" void r_f4_ctor3(const Float3& a, float w, Float4& o) { o.x = a.x; o.y = a.y; o.z = a.z; o.w = w; }
extern "C" void m_f3_as2(const Float3& a, Float2& o) { o = a.asFloat2(); }
extern "C" void r_f3_as2(const Float3& a, Float2& o) { o.x = a.x; o.y = a.y; }
extern "C" void m_f4_as2(const Float4& a, Float2& o) { o = a.asFloat2(); }
extern "C" void r_f4_as2(const Float4& a, Float2& o) { o.x = a.x; o.y = a.y; }
extern "C" void m_f4_as3(const Float4& a, Float3& o) { o = a.asFloat3(); }
extern "C" void r_f4_as3(const Float4& a, Float3& o) { o.x = a.x; o.y = a.y; o.z = a.z; }
extern "C" void m_rectFromFov(float fov, float aspect, Rect& o) { o = rectFromFov(fov, aspect); }
extern "C" void r_rectFromFov(float fov, float aspect, Rect& o) { float h = tanf(fov / 2); o.mins.x = -h * aspect; o.mins.y = -h; o.maxs.x = h * aspect; o.maxs.y = h; }
extern "C" void m_i2_s32_add(const Int2<s32>& a, const Int2<s32>& b, Int2<s32>& o) { o = a + b; }
extern "C" void r_i2_s32_add(const Int2<s32>& a, const Int2<s32>& b, Int2<s32>& o) { o.x = s32(a.x + b.x); o.y = s32(a.y + b.y); }
extern "C" void m_i2_s32_add_eq(Int2<s32>& a, const Int2<s32>& b) { a += b; }
extern "C" void r_i2_s32_add_eq(Int2<s32>& a, const Int2<s32>& b) { a.x = s32(a.x + b.x); a.y = s32(a.y + b.y); }
extern "C" void m_i2_s32_sub(const Int2<s32>& a, const Int2<s32>& b, Int2<s32>& o) { o = a - b; }
extern "C" void r_i2_s32_sub(const Int2<s32>& a, const Int2<s32>& b, Int2<s32>& o) { o.x = s32(a.x - b.x); o.y = s32(a.y - b.y); }
extern "C" void m_i2_s32_sub_eq(Int2<s32>& a, const Int2<s32>& b) { a -= b; }
extern "C" void r_i2_s32_sub_eq(Int2<s32>& a, const Int2<s32>& b) { a.x = s32(a.x - b.x); a.y = s32(a.y - b.y); }
extern "C" void m_i2_s32_mul(const Int2<s32>& a, const Int2<s32>& b, Int2<s32>& o) { o = a * b; }
extern "C" void r_i2_s32_mul(const Int2<s32>& a, const Int2<s32>& b, Int2<s32>& o) { o.x = s32(a.x * b.x); o.y = s32(a.y * b.y); }
extern "C" void m_i2_s32_mul_eq(Int2<s32>& a, const Int2<s32>& b) { a *= b; }
extern "C" void r_i2_s32_mul_eq(Int2<s32>& a, const Int2<s32>& b) { a.x = s32(a.x * b.x); a.y = s32(a.y * b.y); }
extern "C" void m_i2_s32_mul_s(const Int2<s32>& a, s32 b, Int2<s32>& o) { o = a * b; }
extern "C" void r_i2_s32_mul_s(const Int2<s32>& a, s32 b, Int2<s32>& o) { o.x = s32(a.x * b); o.y = s32(a.y * b); }
extern "C" void m_i2_s32_mul_eq_s(Int2<s32>& a, s32 b) { a *= b; }
extern "C" void r_i2_s32_mul_eq_s(Int2<s32>& a, s32 b) { a.x = s32(a.x * b); a.y = s32(a.y * b); }
extern "C" void m_i2_s32_div(const Int2<s32>& a, const Int2<s32>& b, Int2<s32>& o) { o = a / b; }
extern "C" void r_i2_s32_div(const Int2<s32>& a, const Int2<s32>& b, Int2<s32>& o) { o.x = s32(a.x / b.x); o.y = s32(a.y / b.y); }
extern "C" void m_i2_s32_div_eq(Int2<s32>& a, const Int2<s32>& b) { a /= b; }
extern "C" void r_i2_s32_div_eq(Int2<s32>& a, const Int2<s32>& b) { a.x = s32(a.x / b.x); a.y = s32(a.y / b.y); }
extern "C" void m_i2_s32_div_s(const Int2<s32>& a, s32 b, Int2<s32>& o) { o = a / b; }
extern "C" void r_i2_s32_div_s(const Int2<s32>& a, s32 b, Int2<s32>& o) { o.x = s32(a.x / b); o.y = s32(a.y / b); }
extern "C" void m_i2_s32_div_eq_s(Int2<s32>& a, s32 b) { a /= b; }
extern "C" void r_i2_s32_div_eq_s(Int2<s32>& a, s32 b) { a.x = s32(a.x / b); a.y = s32(a.y / b); }
extern "C" void m_i2_s32_neg(const Int2<s32>& a, Int2<s32>& o) { o = -a; }
extern "C" void r_i2_s32_neg(const Int2<s32>& a, Int2<s32>& o) { o.x = -a.x; o.y = -a.y; }
extern "C" void m_i2_s32_min(const Int2<s32>& a, const Int2<s32>& b, Int2<s32>& o) { o = min(a, b); }
extern "C" void r_i2_s32_min(const Int2<s32>& a, const Int2<s32>& b, Int2<s32>& o) { o.x = a.x < b.x ? a.x : b.x; o.y = a.y < b.y ? a.y : b.y; }
extern "C" void m_i2_s32_max(const Int2<s32>& a, const Int2<s32>& b, Int2<s32>& o) { o = max(a, b); }
extern "C" void r_i2_s32_max(const Int2<s32>& a, const Int2<s32>& b, Int2<s32>& o) { o.x = a.x > b.x ? a.x : b.x; o.y = a.y > b.y ? a.y : b.y; }
extern "C" void m_i2_s32_eq(const Int2<s32>& a, const Int2<s32>& b, bool& o) { o = a == b; }
extern "C" void r_i2_s32_eq(const Int2<s32>& a, const Int2<s32>& b, bool& o) { o = a.x == b.x && a.y == b.y; }
extern "C" void m_i2_s32_ne(const Int2<s32>& a, const Int2<s32>& b, bool& o) { o = a != b; }
extern "C" void r_i2_s32_ne(const Int2<s32>& a, const Int2<s32>& b, bool& o) { o = a.x != b.x || a.y != b.y; }
extern "C" void m_i2_s32_lt(const Int2<s32>& a, const Int2<s32>& b, Bool2& o) { o = a < b; }
extern "C" void r_i2_s32_lt(const Int2<s32>& a, const Int2<s32>& b, Bool2& o) { o.x = a.x < b.x; o.y = a.y < b.y; }
extern "C" void m_i2_s32_le(const Int2<s32>& a, const Int2<s32>& b, Bool2& o) { o = a <= b; }
extern "C" void r_i2_s32_le(const Int2<s32>& a, const Int2<s32>& b, Bool2& o) { o.x = a.x <= b.x; o.y = a.y <= b.y; }
extern "C" void m_i2_s32_gt(const Int2<s32>& a, const Int2<s32>& b, Bool2& o) { o = a > b; }
extern "C" void r_i2_s32_gt(const Int2<s32>& a, const Int2<s32>& b, Bool2& o) { o.x = a.x > b.x; o.y = a.y > b.y; }
extern "C" void m_i2_s32_ge(const Int2<s32>& a, const Int2<s32>& b, Bool2& o) { o = a >= b; }
extern "C" void r_i2_s32_ge(const Int2<s32>& a, const Int2<s32>& b, Bool2& o) { o.x = a.x >= b.x; o.y = a.y >= b.y; }
extern "C" void m_i2_s32_dot(const Int2<s32>& a, const Int2<s32>& b, sreg& o) { o = dot(a, b); }
extern "C" void r_i2_s32_dot(const Int2<s32>& a, const Int2<s32>& b, sreg& o) { o = sreg(a.x) * b.x + sreg(a.y) * b.y; }
extern "C" void m_i2_s32_length2(const Int2<s32>& a, ureg& o) { o = a.length2(); }
extern "C" void r_i2_s32_length2(const Int2<s32>& a, ureg& o) { o = sreg(a.x) * a.x + sreg(a.y) * a.y; }
extern "C" void m_i2_s32_splat(s32 v, Int2<s32>& o) { o = Int2<s32>::splat(v); }
extern "C" void r_i2_s32_splat(s32 v, Int2<s32>& o) { o.x = v; o.y = v; }
extern "C" void m_i2_s32_reverse(const Int2<s32>& a, Int2<s32>& o) { o = a.reverse(); }
extern "C" void r_i2_s32_reverse(const Int2<s32>& a, Int2<s32>& o) { o.x = a.y; o.y = a.x; }
extern "C" void m_i2_s32_swz(const Int2<s32>& a, Int2<s32>& o) { o = a.swizzle(1, 0); }
extern "C" void r_i2_s32_swz(const Int2<s32>& a, Int2<s32>& o) { o.x = a.y; o.y = a.x; }
extern "C" void m_i2_s32_ix0(const Int2<s32>& a, s32& o) { o = a[0]; }
extern "C" void r_i2_s32_ix0(const Int2<s32>& a, s32& o) { o = a.x; }
extern "C" void m_i2_s32_setix0(Int2<s32>& a, s32 v) { a[0] = v; }
extern "C" void r_i2_s32_setix0(Int2<s32>& a, s32 v) { a.x = v; }
extern "C" void m_i2_s32_ix1(const Int2<s32>& a, s32& o) { o = a[1]; }
extern "C" void r_i2_s32_ix1(const Int2<s32>& a, s32& o) { o = a.y; }
extern "C" void m_i2_s32_setix1(Int2<s32>& a, s32 v) { a[1] = v; }
extern "C" void r_i2_s32_setix1(Int2<s32>& a, s32 v) { a.y = v; }
extern "C" void m_i2_s32_copy(const Int2<s32>& a, Int2<s32>& o) { Int2<s32> t; t = a; o = t; }
extern "C" void r_i2_s32_copy(const Int2<s32>& a, Int2<s32>& o) { o.x = a.x; o.y = a.y; }
extern "C" void m_i2_s32_toF(const Int2<s32>& a, Float2& o) { o = a.to<Float2>(); }
extern "C" void r_i2_s32_toF(const Int2<s32>& a, Float2& o) { o.x = (float) a.x; o.y = (float) a.y; }
extern "C" void m_i2_s32_to16(const Int2<s32>& a, Int2<s16>& o) { o = a.to<Int2<s16>>(); }
extern "C" void r_i2_s32_to16(const Int2<s32>& a, Int2<s16>& o) { o.x = (s16) a.x; o.y = (s16) a.y; }
extern "C" void m_i3_s32_add(const Int3<s32>& a, const Int3<s32>& b, Int3<s32>& o) { o = a + b; }
extern "C" void r_i3_s32_add(const Int3<s32>& a, const Int3<s32>& b, Int3<s32>& o) { o.x = s32(a.x + b.x); o.y = s32(a.y + b.y); o.z = s32(a.z + b.z); }
extern "C" void m_i3_s32_add_eq(Int3<s32>& a, const Int3<s32>& b) { a += b; }
extern "C" void r_i3_s32_add_eq(Int3<s32>& a, const Int3<s32>& b) { a.x = s32(a.x + b.x); a.y = s32(a.y + b.y); a.z = s32(a.z + b.z); }
extern "C" void m_i3_s32_sub(const Int3<s32>& a, const Int3<s32>& b, Int3<s32>& o) { o = a - b; }
extern "C" void r_i3_s32_sub(const Int3<s32>& a, const Int3<s32>& b, Int3<s32>& o) { o.x = s32(a.x - b.x); o.y = s32(a.y - b.y); o.z = s32(a.z - b.z); }
extern "C" void m_i3_s32_sub_eq(Int3<s32>& a, const Int3<s32>& b) { a -= b; }
extern "C" void r_i3_s32_sub_eq(Int3<s32>& a, const Int3<s32>& b) { a.x = s32(a.x - b.x); a.y = s32(a.y - b.y); a.z = s32(a.z - b.z); }
extern "C" void m_i3_s32_mul(const Int3<s32>& a, const Int3<s32>& b, Int3<s32>& o) { o = a * b; }
extern "C" void r_i3_s32_mul(const Int3<s32>& a, const Int3<s32>& b, Int3<s32>& o) { o.x = s32(a.x * b.x); o.y = s32(a.y * b.y); o.z = s32(a.z * b.z); }
extern "C" void m_i3_s32_mul_eq(Int3<s32>& a, const Int3<s32>& b) { a *= b; }
extern "C" void r_i3_s32_mul_eq(Int3<s32>& a, const Int3<s32>& b) { a.x = s32(a.x * b.x); a.y = s32(a.y * b.y); a.z = s32(a.z * b.z); }
extern "C" void m_i3_s32_mul_s(const Int3<s32>& a, s32 b, Int3<s32>& o) { o = a * b; }
extern "C" void r_i3_s32_mul_s(const Int3<s32>& a, s32 b, Int3<s32>& o) { o.x = s32(a.x * b); o.y = s32(a.y * b); o.z = s32(a.z * b); }
extern "C" void m_i3_s32_mul_eq_s(Int3<s32>& a, s32 b) { a *= b; }
extern "C" void r_i3_s32_mul_eq_s(Int3<s32>& a, s32 b) { a.x = s32(a.x * b); a.y = s32(a.y * b); a.z = s32(a.z * b); }
extern "C" void m_i3_s32_div(const Int3<s32>& a, const Int3<s32>& b, Int3<s32>& o) { o = a / b; }
extern "C" void r_i3_s32_div(const Int3<s32>& a, const Int3<s32>& b, Int3<s32>& o) { o.x = s32(a.x / b.x); o.y = s32(a.y / b.y); o.z = s32(a.z / b.z); }
extern "C" void m_i3_s32_div_eq(Int3<s32>& a, const Int3<s32>& b) { a /= b; }
extern "C" void r_i3_s32_div_eq(Int3<s32>& a, const Int3<s32>& b) { a.x = s32(a.x / b.x); a.y = s32(a.y / b.y); a.z = s32(a.z / b.z); }
extern "C" void m_i3_s32_div_s(const Int3<s32>& a, s32 b, Int3<s32>& o) { o = a / b; }
extern "C" void r_i3_s32_div_s(const Int3<s32>& a, s32 b, Int3<s32>& o) { o.x = s32(a.x / b); o.y = s32(a.y / b); o.z = s32(a.z / b); }
extern "C" void m_i3_s32_div_eq_s(Int3<s32>& a, s32 b) { a /= b; }
extern "C" void r_i3_s32_div_eq_s(Int3<s32>& a, s32 b) { a.x = s32(a.x / b); a.y = s32(a.y / b); a.z = s32(a.z / b); }
extern "C" void m_i3_s32_neg(const Int3<s32>& a, Int3<s32>& o) { o = -a; }
extern "C" void r_i3_s32_neg(const Int3<s32>& a, Int3<s32>& o) { o.x = -a.x; o.y = -a.y; o.z = -a.z; }
extern "C" void m_i3_s32_min(const Int3<s32>& a, const Int3<s32>& b, Int3<s32>& o) { o = min(a, b); }
extern "C" void r_i3_s32_min(const Int3<s32>& a, const Int3<s32>& b, Int3<s32>& o) { o.x = a.x < b.x ? a.x : b.x; o.y = a.y < b.y ? a.y : b.y; o.z = a.z < b.z ? a.z : b.z; }
extern "C" void m_i3_s32_max(const Int3<s32>& a, const Int3<s32>& b, Int3<s32>& o) { o = max(a, b); }
extern "C" void r_i3_s32_max(const Int3<s32>& a, const Int3<s32>& b, Int3<s32>& o) { o.x = a.x > b.x ? a.x : b.x; o.y = a.y > b.y ? a.y : b.y; o.z = a.z > b.z ? a.z : b.z; }
extern "C" void m_i3_s32_eq(const Int3<s32>& a, const Int3<s32>& b, bool& o) { o = a == b; }
extern "C" void r_i3_s32_eq(const Int3<s32>& a, const Int3<s32>& b, bool& o) { o = a.x == b.x && a.y == b.y && a.z == b.z; }
extern "C" void m_i3_s32_ne(const Int3<s32>& a, const Int3<s32>& b, bool& o) { o = a != b; }
extern "C" void r_i3_s32_ne(const Int3<s32>& a, const Int3<s32>& b, bool& o) { o = a.x != b.x || a.y != b.y || a.z != b.z; }
extern "C" void m_i3_s32_lt(const Int3<s32>& a, const Int3<s32>& b, Bool3& o) { o = a < b; }
extern "C" void r_i3_s32_lt(const Int3<s32>& a, const Int3<s32>& b, Bool3& o) { o.x = a.x < b.x; o.y = a.y < b.y; o.z = a.z < b.z; }
extern "C" void m_i3_s32_le(const Int3<s32>& a, const Int3<s32>& b, Bool3& o) { o = a <= b; }
extern "C" void r_i3_s32_le(const Int3<s32>& a, const Int3<s32>& b, Bool3& o) { o.x = a.x <= b.x; o.y = a.y <= b.y; o.z = a.z <= b.z; }
extern "C" void m_i3_s32_gt(const Int3<s32>& a, const Int3<s32>& b, Bool3& o) { o = a > b; }
extern "C" void r_i3_s32_gt(const Int3<s32>& a, const Int3<s32>& b, Bool3& o) { o.x = a.x > b.x; o.y = a.y > b.y; o.z = a.z > b.z; }
extern "C" void m_i3_s32_ge(const Int3<s32>& a, const Int3<s32>& b, Bool3& o) { o = a >= b; }
extern "C" void r_i3_s32_ge(const Int3<s32>& a, const Int3<s32>& b, Bool3& o) { o.x = a.x >= b.x; o.y = a.y >= b.y; o.z = a.z >= b.z; }
extern "C" void m_i3_s32_dot(const Int3<s32>& a, const Int3<s32>& b, sreg& o) { o = dot(a, b); }
extern "C" void r_i3_s32_dot(const Int3<s32>& a, const Int3<s32>& b, sreg& o) { o = sreg(a.x) * b.x + sreg(a.y) * b.y + sreg(a.z) * b.z; }
extern "C" void m_i3_s32_length2(const Int3<s32>& a, ureg& o) { o = a.length2(); }
extern "C" void r_i3_s32_length2(const Int3<s32>& a, ureg& o) { o = sreg(a.x) * a.x + sreg(a.y) * a.y + sreg(a.z) * a.z; }
extern "C" void m_i3_s32_splat(s32 v, Int3<s32>& o) { o = Int3<s32>::splat(v); }
extern "C" void r_i3_s32_splat(s32 v, Int3<s32>& o) { o.x = v; o.y = v; o.z = v; }
extern "C" void m_i3_s32_reverse(const Int3<s32>& a, Int3<s32>& o) { o = a.reverse(); }
extern "C" void r_i3_s32_reverse(const Int3<s32>& a, Int3<s32>& o) { o.x = a.z; o.y = a.y; o.z = a.x; }
extern "C" void m_i3_s32_swz(const Int3<s32>& a, Int3<s32>& o) { o = a.swizzle(1, 2, 0); }
extern "C" void r_i3_s32_swz(const Int3<s32>& a, Int3<s32>& o) { o.x = a.y; o.y = a.z; o.z = a.x; }
extern "C" void m_i3_s32_ix0(const Int3<s32>& a, s32& o) { o = a[0]; }
extern "C" void r_i3_s32_ix0(const Int3<s32>& a, s32& o) { o = a.x; }
extern "C" void m_i3_s32_setix0(Int3<s32>& a, s32 v) { a[0] = v; }
extern "C" void r_i3_s32_setix0(Int3<s32>& a, s32 v) { a.x = v; }
extern "C" void m_i3_s32_ix1(const Int3<s32>& a, s32& o) { o = a[1]; }
extern "C" void r_i3_s32_ix1(const Int3<s32>& a, s32& o) { o = a.y; }
extern "C" void m_i3_s32_setix1(Int3<s32>& a, s32 v) { a[1] = v; }
extern "C" void r_i3_s32_setix1(Int3<s32>& a, s32 v) { a.y = v; }
extern "C" void m_i3_s32_ix2(const Int3<s32>& a, s32& o) { o = a[2]; }
extern "C" void r_i3_s32_ix2(const Int3<s32>& a, s32& o) { o = a.z; }
extern "C" void m_i3_s32_setix2(Int3<s32>& a, s32 v) { a[2] = v; }
extern "C" void r_i3_s32_setix2(Int3<s32>& a, s32 v) { a.z = v; }
extern "C" void m_i3_s32_copy(const Int3<s32>& a, Int3<s32>& o) { Int3<s32> t; t = a; o = t; }
extern "C" void r_i3_s32_copy(const Int3<s32>& a, Int3<s32>& o) { o.x = a.x; o.y = a.y; o.z = a.z; }
extern "C" void m_i3_s32_toF(const Int3<s32>& a, Float3& o) { o = a.to<Float3>(); }
extern "C" void r_i3_s32_toF(const Int3<s32>& a, Float3& o) { o.x = (float) a.x; o.y = (float) a.y; o.z = (float) a.z; }
extern "C" void m_i3_s32_to16(const Int3<s32>& a, Int3<s16>& o) { o = a.to<Int3<s16>>(); }
extern "C" void r_i3_s32_to16(const Int3<s32>& a, Int3<s16>& o) { o.x = (s16) a.x; o.y = (s16) a.y; o.z = (s16) a.z; }
extern "C" void m_i4_s32_add(const Int4<s32>& a, const Int4<s32>& b, Int4<s32>& o) { o = a + b; }
extern "C" void r_i4_s32_add(const Int4<s32>& a, const Int4<s32>& b, Int4<s32>& o) { o.x = s32(a.x + b.x); o.y = s32(a.y + b.y); o.z = s32(a.z + b.z); o.w = s32(a.w + b.w); }
extern "C" void m_i4_s32_add_eq(Int4<s32>& a, const Int4<s32>& b) { a += b; }
extern "C" void r_i4_s32_add_eq(Int4<s32>& a, const Int4<s32>& b) { a.x = s32(a.x + b.x); a.y = s32(a.y + b.y); a.z = s32(a.z + b.z); a.w = s32(a.w + b.w); }
extern "C" void m_i4_s32_sub(const Int4<s32>& a, const Int4<s32>& b, Int4<s32>& o) { o = a - b; }
extern "C" void r_i4_s32_sub(const Int4<s32>& a, const Int4<s32>& b, Int4<s32>& o) { o.x = s32(a.x - b.x); o.y = s32(a.y - b.y); o.z = s32(a.z - b.z); o.w = s32(a.w - b.w); }
extern "C" void m_i4_s32_sub_eq(Int4<s32>& a, const Int4<s32>& b) { a -= b; }
extern "C" void r_i4_s32_sub_eq(Int4<s32>& a, const Int4<s32>& b) { a.x = s32(a.x - b.x); a.y = s32(a.y - b.y); a.z = s32(a.z - b.z); a.w = s32(a.w - b.w); }
extern "C" void m_i4_s32_mul(const Int4<s32>& a, const Int4<s32>& b, Int4<s32>& o) { o = a * b; }
extern "C" void r_i4_s32_mul(const Int4<s32>& a, const Int4<s32>& b, Int4<s32>& o) { o.x = s32(a.x * b.x); o.y = s32(a.y * b.y); o.z = s32(a.z * b.z); o.w = s32(a.w * b.w); }
extern "C" void m_i4_s32_mul_eq(Int4<s32>& a, const Int4<s32>& b) { a *= b; }
extern "C" void r_i4_s32_mul_eq(Int4<s32>& a, const Int4<s32>& b) { a.x = s32(a.x * b.x); a.y = s32(a.y * b.y); a.z = s32(a.z * b.z); a.w = s32(a.w * b.w); }
extern "C" void m_i4_s32_mul_s(const Int4<s32>& a, s32 b, Int4<s32>& o) { o = a * b; }
extern "C" void r_i4_s32_mul_s(const Int4<s32>& a, s32 b, Int4<s32>& o) { o.x = s32(a.x * b); o.y = s32(a.y * b); o.z = s32(a.z * b); o.w = s32(a.w * b); }
extern "C" void m_i4_s32_mul_eq_s(Int4<s32>& a, s32 b) { a *= b; }
extern "C" void r_i4_s32_mul_eq_s(Int4<s32>& a, s32 b) { a.x = s32(a.x * b); a.y = s32(a.y * b); a.z = s32(a.z * b); a.w = s32(a.w * b); }
extern "C" void m_i4_s32_div(const Int4<s32>& a, const Int4<s32>& b, Int4<s32>& o) { o = a / b; }
extern "C" void r_i4_s32_div(const Int4<s32>& a, const Int4<s32>& b, Int4<s32>& o) { o.x = s32(a.x / b.x); o.y = s32(a.y / b.y); o.z = s32(a.z / b.z); o.w = s32(a.w / b.w); }
extern "C" void m_i4_s32_div_eq(Int4<s32>& a, const Int4<s32>& b) { a /= b; }
extern "C" void r_i4_s32_div_eq(Int4<s32>& a, const Int4<s32>& b) { a.x = s32(a.x / b.x); a.y = s32(a.y / b.y); a.z = s32(a.z / b.z); a.w = s32(a.w / b.w); }
extern "C" void m_i4_s32_div_s(const Int4<s32>& a, s32 b, Int4<s32>& o) { o = a / b; }
extern "C" void r_i4_s32_div_s(const Int4<s32>& a, s32 b, Int4<s32>& o) { o.x = s32(a.x / b); o.y = s32(a.y / b); o.z = s32(a.z / b); o.w = s32(a.w / b); }
extern "C" void m_i4_s32_div_eq_s(Int4<s32>& a, s32 b) { a /= b; }
extern "C" void r_i4_s32_div_eq_s(Int4<s32>& a, s32 b) { a.x = s32(a.x / b); a.y = s32(a.y / b); a.z = s32(a.z / b); a.w = s32(a.w / b); }
extern "C" void m_i4_s32_neg(const Int4<s32>& a, Int4<s32>& o) { o = -a; }
extern "C" void r_i4_s32_neg(const Int4<s32>& a, Int4<s32>& o) { o.x = -a.x; o.y = -a.y; o.z = -a.z; o.w = -a.w; }
extern "C" void m_i4_s32_min(const Int4<s32>& a, const Int4<s32>& b, Int4<s32>& o) { o = min(a, b); }
extern "C" void r_i4_s32_min(const Int4<s32>& a, const Int4<s32>& b, Int4<s32>& o) { o.x = a.x < b.x ? a.x : b.x; o.y = a.y < b.y ? a.y : b.y; o.z = a.z < b.z ? a.z : b.z; o.w = a.w < b.w ? a.w : b.w; }
extern "C" void m_i4_s32_max(const Int4<s32>& a, const Int4<s32>& b, Int4<s32>& o) { o = max(a, b); }
extern "C" void r_i4_s32_max(const Int4<s32>& a, const Int4<s32>& b, Int4<s32>& o) { o.x = a.x > b.x ? a.x : b.x; o.y = a.y > b.y ? a.y : b.y; o.z = a.z > b.z ? a.z : b.z; o.w = a.w > b.w ? a.w : b.w; }
extern "C" void m_i4_s32_eq(const Int4<s32>& a, const Int4<s32>& b, bool& o) { o = a == b; }
extern "C" void r_i4_s32_eq(const Int4<s32>& a, const Int4<s32>& b, bool& o) { o = a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; }
extern "C" void m_i4_s32_ne(const Int4<s32>& a, const Int4<s32>& b, bool& o) { o = a != b; }
extern "C" void r_i4_s32_ne(const Int4<s32>& a, const Int4<s32>& b, bool& o) { o = a.x != b.x || a.y != b.y || a.z != b.z || a.w != b.w; }
extern "C" void m_i4_s32_lt(const Int4<s32>& a, const Int4<s32>& b, Bool4& o) { o = a < b; }
extern "C" void r_i4_s32_lt(const Int4<s32>& a, const Int4<s32>& b, Bool4& o) { o.x = a.x < b.x; o.y = a.y < b.y; o.z = a.z < b.z; o.w = a.w < b.w; }
extern "C" void m_i4_s32_le(const Int4<s32>& a, const Int4<s32>& b, Bool4& o) { o = a <= b; }
extern "C" void r_i4_s32_le(const Int4<s32>& a, const Int4<s32>& b, Bool4& o) { o.x = a.x <= b.x; o.y = a.y <= b.y; o.z = a.z <= b.z; o.w = a.w <= b.w; }
extern "C" void m_i4_s32_gt(const Int4<s32>& a, const Int4<s32>& b, Bool4& o) { o = a > b; }
extern "C" void r_i4_s32_gt(const Int4<s32>& a, const Int4<s32>& b, Bool4& o) { o.x = a.x > b.x; o.y = a.y > b.y; o.z = a.z > b.z; o.w = a.w > b.w; }
extern "C" void m_i4_s32_ge(const Int4<s32>& a, const Int4<s32>& b, Bool4& o) { o = a >= b; }
extern "C" void r_i4_s32_ge(const Int4<s32>& a, const Int4<s32>& b, Bool4& o) { o.x = a.x >= b.x; o.y = a.y >= b.y; o.z = a.z >= b.z; o.w = a.w >= b.w; }
extern "C" void m_i4_s32_dot(const Int4<s32>& a, const Int4<s32>& b, sreg& o) { o = dot(a, b); }
extern "C" void r_i4_s32_dot(const Int4<s32>& a, const Int4<s32>& b, sreg& o) { o = sreg(a.x) * b.x + sreg(a.y) * b.y + sreg(a.z) * b.z + sreg(a.w) * b.w; }
extern "C" void m_i4_s32_length2(const Int4<s32>& a, ureg& o) { o = a.length2(); }
extern "C" void r_i4_s32_length2(const Int4<s32>& a, ureg& o) { o = sreg(a.x) * a.x + sreg(a.y) * a.y + sreg(a.z) * a.z + sreg(a.w) * a.w; }
extern "C" void m_i4_s32_splat(s32 v, Int4<s32>& o) { o = Int4<s32>::splat(v); }
extern "C" void r_i4_s32_splat(s32 v, Int4<s32>& o) { o.x = v; o.y = v; o.z = v; o.w = v; }
extern "C" void m_i4_s32_reverse(const Int4<s32>& a, Int4<s32>& o) { o = a.reverse(); }
extern "C" void r_i4_s32_reverse(const Int4<s32>& a, Int4<s32>& o) { o.x = a.w; o.y = a.z; o.z = a.y; o.w = a.x; }
extern "C" void m_i4_s32_swz(const Int4<s32>& a, Int4<s32>& o) { o = a.swizzle(1, 2, 3, 0); }
extern "C" void r_i4_s32_swz(const Int4<s32>& a, Int4<s32>& o) { o.x = a.y; o.y = a.z; o.z = a.w; o.w = a.x; }
extern "C" void m_i4_s32_ix0(const Int4<s32>& a, s32& o) { o = a[0]; }
extern "C" void r_i4_s32_ix0(const Int4<s32>& a, s32& o) { o = a.x; }
extern "C" void m_i4_s32_setix0(Int4<s32>& a, s32 v) { a[0] = v; }
extern "C" void r_i4_s32_setix0(Int4<s32>& a, s32 v) { a.x = v; }
extern "C" void m_i4_s32_ix1(const Int4<s32>& a, s32& o) { o = a[1]; }
extern "C" void r_i4_s32_ix1(const Int4<s32>& a, s32& o) { o = a.y; }
extern "C" void m_i4_s32_setix1(Int4<s32>& a, s32 v) { a[1] = v; }
extern "C" void r_i4_s32_setix1(Int4<s32>& a, s32 v) { a.y = v; }
extern "C" void m_i4_s32_ix2(const Int4<s32>& a, s32& o) { o = a[2]; }
extern "C" void r_i4_s32_ix2(const Int4<s32>& a, s32& o) { o = a.z; }
extern "C" void m_i4_s32_setix2(Int4<s32>& a, s32 v) { a[2] = v; }
extern "C" void r_i4_s32_setix2(Int4<s32>& a, s32 v) { a.z = v; }
extern "C" void m_i4_s32_ix3(const Int4<s32>& a, s32& o) { o = a[3]; }
extern "C" void r_i4_s32_ix3(const Int4<s32>& a, s32& o) { o = a.w; }
extern "C" void m_i4_s32_setix3(Int4<s32>& a, s32 v) { a[3] = v; }
extern "C" void r_i4_s32_setix3(Int4<s32>& a, s32 v) { a.w = v; }
extern "C" void m_i4_s32_copy(const Int4<s32>& a, Int4<s32>& o) { Int4<s32> t; t = a; o = t; }
extern "C" void r_i4_s32_copy(const Int4<s32>& a, Int4<s32>& o) { o.x = a.x; o.y = a.y; o.z = a.z; o.w = a.w; }
extern "C" void m_i4_s32_toF(const Int4<s32>& a, Float4& o) { o = a.to<Float4>(); }
extern "C" void r_i4_s32_toF(const Int4<s32>& a, Float4& o) { o.x = (float) a.x; o.y = (float) a.y; o.z = (float) a.z; o.w = (float) a.w; }
extern "C" void m_i4_s32_to16(const Int4<s32>& a, Int4<s16>& o) { o = a.to<Int4<s16>>(); }
extern "C" void r_i4_s32_to16(const Int4<s32>& a, Int4<s16>& o) { o.x = (s16) a.x; o.y = (s16) a.y; o.z = (s16) a.z; o.w = (s16) a.w; }
extern "C" void m_i2_s16_add(const Int2<s16>& a, const Int2<s16>& b, Int2<s16>& o) { o = a + b; }
extern "C" void r_i2_s16_add(const Int2<s16>& a, const Int2<s16>& b, Int2<s16>& o) { o.x = s16(a.x + b.x); o.y = s16(a.y + b.y); }
extern "C" void m_i2_s16_add_eq(Int2<s16>& a, const Int2<s16>& b) { a += b; }
extern "C" void r_i2_s16_add_eq(Int2<s16>& a, const Int2<s16>& b) { a.x = s16(a.x + b.x); a.y = s16(a.y + b.y); }
extern "C" void m_i2_s16_sub(const Int2<s16>& a, const Int2<s16>& b, Int2<s16>& o) { o = a - b; }
extern "C" void r_i2_s16_sub(const Int2<s16>& a, const Int2<s16>& b, Int2<s16>& o) { o.x = s16(a.x - b.x); o.y = s16(a.y - b.y); }
extern "C" void m_i2_s16_sub_eq(Int2<s16>& a, const Int2<s16>& b) { a -= b; }
extern "C" void r_i2_s16_sub_eq(Int2<s16>& a, const Int2<s16>& b) { a.x = s16(a.x - b.x); a.y = s16(a.y - b.y); }
extern "C" void m_i2_s16_mul_eq(Int2<s16>& a, const Int2<s16>& b) { a *= b; }
extern "C" void r_i2_s16_mul_eq(Int2<s16>& a, const Int2<s16>& b) { a.x = s16(a.x * b.x); a.y = s16(a.y * b.y); }
extern "C" void m_i2_s16_mul_eq_s(Int2<s16>& a, s16 b) { a *= b; }
extern "C" void r_i2_s16_mul_eq_s(Int2<s16>& a, s16 b) { a.x = s16(a.x * b); a.y = s16(a.y * b); }
extern "C" void m_i2_s16_div_eq(Int2<s16>& a, const Int2<s16>& b) { a /= b; }
extern "C" void r_i2_s16_div_eq(Int2<s16>& a, const Int2<s16>& b) { a.x = s16(a.x / b.x); a.y = s16(a.y / b.y); }
extern "C" void m_i2_s16_div_eq_s(Int2<s16>& a, s16 b) { a /= b; }
extern "C" void r_i2_s16_div_eq_s(Int2<s16>& a, s16 b) { a.x = s16(a.x / b); a.y = s16(a.y / b); }
extern "C" void m_i2_s16_min(const Int2<s16>& a, const Int2<s16>& b, Int2<s16>& o) { o = min(a, b); }
extern "C" void r_i2_s16_min(const Int2<s16>& a, const Int2<s16>& b, Int2<s16>& o) { o.x = a.x < b.x ? a.x : b.x; o.y = a.y < b.y ? a.y : b.y; }
extern "C" void m_i2_s16_max(const Int2<s16>& a, const Int2<s16>& b, Int2<s16>& o) { o = max(a, b); }
extern "C" void r_i2_s16_max(const Int2<s16>& a, const Int2<s16>& b, Int2<s16>& o) { o.x = a.x > b.x ? a.x : b.x; o.y = a.y > b.y ? a.y : b.y; }
extern "C" void m_i2_s16_eq(const Int2<s16>& a, const Int2<s16>& b, bool& o) { o = a == b; }
extern "C" void r_i2_s16_eq(const Int2<s16>& a, const Int2<s16>& b, bool& o) { o = a.x == b.x && a.y == b.y; }
extern "C" void m_i2_s16_ne(const Int2<s16>& a, const Int2<s16>& b, bool& o) { o = a != b; }
extern "C" void r_i2_s16_ne(const Int2<s16>& a, const Int2<s16>& b, bool& o) { o = a.x != b.x || a.y != b.y; }
extern "C" void m_i2_s16_lt(const Int2<s16>& a, const Int2<s16>& b, Bool2& o) { o = a < b; }
extern "C" void r_i2_s16_lt(const Int2<s16>& a, const Int2<s16>& b, Bool2& o) { o.x = a.x < b.x; o.y = a.y < b.y; }
extern "C" void m_i2_s16_le(const Int2<s16>& a, const Int2<s16>& b, Bool2& o) { o = a <= b; }
extern "C" void r_i2_s16_le(const Int2<s16>& a, const Int2<s16>& b, Bool2& o) { o.x = a.x <= b.x; o.y = a.y <= b.y; }
extern "C" void m_i2_s16_gt(const Int2<s16>& a, const Int2<s16>& b, Bool2& o) { o = a > b; }
extern "C" void r_i2_s16_gt(const Int2<s16>& a, const Int2<s16>& b, Bool2& o) { o.x = a.x > b.x; o.y = a.y > b.y; }
extern "C" void m_i2_s16_ge(const Int2<s16>& a, const Int2<s16>& b, Bool2& o) { o = a >= b; }
extern "C" void r_i2_s16_ge(const Int2<s16>& a, const Int2<s16>& b, Bool2& o) { o.x = a.x >= b.x; o.y = a.y >= b.y; }
extern "C" void m_i2_s16_dot(const Int2<s16>& a, const Int2<s16>& b, sreg& o) { o = dot(a, b); }
extern "C" void r_i2_s16_dot(const Int2<s16>& a, const Int2<s16>& b, sreg& o) { o = sreg(a.x) * b.x + sreg(a.y) * b.y; }
extern "C" void m_i2_s16_length2(const Int2<s16>& a, ureg& o) { o = a.length2(); }
extern "C" void r_i2_s16_length2(const Int2<s16>& a, ureg& o) { o = sreg(a.x) * a.x + sreg(a.y) * a.y; }
extern "C" void m_i2_s16_splat(s16 v, Int2<s16>& o) { o = Int2<s16>::splat(v); }
extern "C" void r_i2_s16_splat(s16 v, Int2<s16>& o) { o.x = v; o.y = v; }
extern "C" void m_i2_s16_reverse(const Int2<s16>& a, Int2<s16>& o) { o = a.reverse(); }
extern "C" void r_i2_s16_reverse(const Int2<s16>& a, Int2<s16>& o) { o.x = a.y; o.y = a.x; }
extern "C" void m_i2_s16_swz(const Int2<s16>& a, Int2<s16>& o) { o = a.swizzle(1, 0); }
extern "C" void r_i2_s16_swz(const Int2<s16>& a, Int2<s16>& o) { o.x = a.y; o.y = a.x; }
extern "C" void m_i2_s16_ix0(const Int2<s16>& a, s16& o) { o = a[0]; }
extern "C" void r_i2_s16_ix0(const Int2<s16>& a, s16& o) { o = a.x; }
extern "C" void m_i2_s16_setix0(Int2<s16>& a, s16 v) { a[0] = v; }
extern "C" void r_i2_s16_setix0(Int2<s16>& a, s16 v) { a.x = v; }
extern "C" void m_i2_s16_ix1(const Int2<s16>& a, s16& o) { o = a[1]; }
extern "C" void r_i2_s16_ix1(const Int2<s16>& a, s16& o) { o = a.y; }
extern "C" void m_i2_s16_setix1(Int2<s16>& a, s16 v) { a[1] = v; }
extern "C" void r_i2_s16_setix1(Int2<s16>& a, s16 v) { a.y = v; }
extern "C" void m_i2_s16_copy(const Int2<s16>& a, Int2<s16>& o) { Int2<s16> t; t = a; o = t; }
extern "C" void r_i2_s16_copy(const Int2<s16>& a, Int2<s16>& o) { o.x = a.x; o.y = a.y; }
extern "C" void m_i3_s16_add(const Int3<s16>& a, const Int3<s16>& b, Int3<s16>& o) { o = a + b; }
extern "C" void r_i3_s16_add(const Int3<s16>& a, const Int3<s16>& b, Int3<s16>& o) { o.x = s16(a.x + b.x); o.y = s16(a.y + b.y); o.z = s16(a.z + b.z); }
extern "C" void m_i3_s16_add_eq(Int3<s16>& a, const Int3<s16>& b) { a += b; }
extern "C" void r_i3_s16_add_eq(Int3<s16>& a, const Int3<s16>& b) { a.x = s16(a.x + b.x); a.y = s16(a.y + b.y); a.z = s16(a.z + b.z); }
extern "C" void m_i3_s16_sub(const Int3<s16>& a, const Int3<s16>& b, Int3<s16>& o) { o = a - b; }
extern "C" void r_i3_s16_sub(const Int3<s16>& a, const Int3<s16>& b, Int3<s16>& o) { o.x = s16(a.x - b.x); o.y = s16(a.y - b.y); o.z = s16(a.z - b.z); }
extern "C" void m_i3_s16_sub_eq(Int3<s16>& a, const Int3<s16>& b) { a -= b; }
extern "C" void r_i3_s16_sub_eq(Int3<s16>& a, const Int3<s16>& b) { a.x = s16(a.x - b.x); a.y = s16(a.y - b.y); a.z = s16(a.z - b.z); }
extern "C" void m_i3_s16_mul_eq(Int3<s16>& a, const Int3<s16>& b) { a *= b; }
extern "C" void r_i3_s16_mul_eq(Int3<s16>& a, const Int3<s16>& b) { a.x = s16(a.x * b.x); a.y = s16(a.y * b.y); a.z = s16(a.z * b.z); }
extern "C" void m_i3_s16_mul_eq_s(Int3<s16>& a, s16 b) { a *= b; }
extern "C" void r_i3_s16_mul_eq_s(Int3<s16>& a, s16 b) { a.x = s16(a.x * b); a.y = s16(a.y * b); a.z = s16(a.z * b); }
extern "C" void m_i3_s16_div_eq(Int3<s16>& a, const Int3<s16>& b) { a /= b; }
extern "C" void r_i3_s16_div_eq(Int3<s16>& a, const Int3<s16>& b) { a.x = s16(a.x / b.x); a.y = s16(a.y / b.y); a.z = s16(a.z / b.z); }
extern "C" void m_i3_s16_div_eq_s(Int3<s16>& a, s16 b) { a /= b; }
extern "C" void r_i3_s16_div_eq_s(Int3<s16>& a, s16 b) { a.x = s16(a.x / b); a.y = s16(a.y / b); a.z = s16(a.z / b); }
extern "C" void m_i3_s16_min(const Int3<s16>& a, const Int3<s16>& b, Int3<s16>& o) { o = min(a, b); }
extern "C" void r_i3_s16_min(const Int3<s16>& a, const Int3<s16>& b, Int3<s16>& o) { o.x = a.x < b.x ? a.x : b.x; o.y = a.y < b.y ? a.y : b.y; o.z = a.z < b.z ? a.z : b.z; }
extern "C" void m_i3_s16_max(const Int3<s16>& a, const Int3<s16>& b, Int3<s16>& o) { o = max(a, b); }
extern "C" void r_i3_s16_max(const Int3<s16>& a, const Int3<s16>& b, Int3<s16>& o) { o.x = a.x > b.x ? a.x : b.x; o.y = a.y > b.y ? a.y : b.y; o.z = a.z > b.z ? a.z : b.z; }
extern "C" void m_i3_s16_eq(const Int3<s16>& a, const Int3<s16>& b, bool& o) { o = a == b; }
extern "C" void r_i3_s16_eq(const Int3<s16>& a, const Int3<s16>& b, bool& o) { o = a.x == b.x && a.y == b.y && a.z == b.z; }
extern "C" void m_i3_s16_ne(const Int3<s16>& a, const Int3<s16>& b, bool& o) { o = a != b; }
extern "C" void r_i3_s16_ne(const Int3<s16>& a, const Int3<s16>& b, bool& o) { o = a.x != b.x || a.y != b.y || a.z != b.z; }
extern "C" void m_i3_s16_lt(const Int3<s16>& a, const Int3<s16>& b, Bool3& o) { o = a < b; }
extern "C" void r_i3_s16_lt(const Int3<s16>& a, const Int3<s16>& b, Bool3& o) { o.x = a.x < b.x; o.y = a.y < b.y; o.z = a.z < b.z; }
extern "C" void m_i3_s16_le(const Int3<s16>& a, const Int3<s16>& b, Bool3& o) { o = a <= b; }
extern "C" void r_i3_s16_le(const Int3<s16>& a, const Int3<s16>& b, Bool3& o) { o.x = a.x <= b.x; o.y = a.y <= b.y; o.z = a.z <= b.z; }
extern "C" void m_i3_s16_gt(const Int3<s16>& a, const Int3<s16>& b, Bool3& o) { o = a > b; }
extern "C" void r_i3_s16_gt(const Int3<s16>& a, const Int3<s16>& b, Bool3& o) { o.x = a.x > b.x; o.y = a.y > b.y; o.z = a.z > b.z; }
extern "C" void m_i3_s16_ge(const Int3<s16>& a, const Int3<s16>& b, Bool3& o) { o = a >= b; }
extern "C" void r_i3_s16_ge(const Int3<s16>& a, const Int3<s16>& b, Bool3& o) { o.x = a.x >= b.x; o.y = a.y >= b.y; o.z = a.z >= b.z; }
extern "C" void m_i3_s16_dot(const Int3<s16>& a, const Int3<s16>& b, sreg& o) { o = dot(a, b); }
extern "C" void r_i3_s16_dot(const Int3<s16>& a, const Int3<s16>& b, sreg& o) { o = sreg(a.x) * b.x + sreg(a.y) * b.y + sreg(a.z) * b.z; }
extern "C" void m_i3_s16_length2(const Int3<s16>& a, ureg& o) { o = a.length2(); }
extern "C" void r_i3_s16_length2(const Int3<s16>& a, ureg& o) { o = sreg(a.x) * a.x + sreg(a.y) * a.y + sreg(a.z) * a.z; }
extern "C" void m_i3_s16_splat(s16 v, Int3<s16>& o) { o = Int3<s16>::splat(v); }
extern "C" void r_i3_s16_splat(s16 v, Int3<s16>& o) { o.x = v; o.y = v; o.z = v; }
extern "C" void m_i3_s16_reverse(const Int3<s16>& a, Int3<s16>& o) { o = a.reverse(); }
extern "C" void r_i3_s16_reverse(const Int3<s16>& a, Int3<s16>& o) { o.x = a.z; o.y = a.y; o.z = a.x; }
extern "C" void m_i3_s16_swz(const Int3<s16>& a, Int3<s16>& o) { o = a.swizzle(1, 2, 0); }
extern "C" void r_i3_s16_swz(const Int3<s16>& a, Int3<s16>& o) { o.x = a.y; o.y = a.z; o.z = a.x; }
extern "C" void m_i3_s16_ix0(const Int3<s16>& a, s16& o) { o = a[0]; }
extern "C" void r_i3_s16_ix0(const Int3<s16>& a, s16& o) { o = a.x; }
extern "C" void m_i3_s16_setix0(Int3<s16>& a, s16 v) { a[0] = v; }
extern "C" void r_i3_s16_setix0(Int3<s16>& a, s16 v) { a.x = v; }
extern "C" void m_i3_s16_ix1(const Int3<s16>& a, s16& o) { o = a[1]; }
extern "C" void r_i3_s16_ix1(const Int3<s16>& a, s16& o) { o = a.y; }
extern "C" void m_i3_s16_setix1(Int3<s16>& a, s16 v) { a[1] = v; }
extern "C" void r_i3_s16_setix1(Int3<s16>& a, s16 v) { a.y = v; }
extern "C" void m_i3_s16_ix2(const Int3<s16>& a, s16& o) { o = a[2]; }
extern "C" void r_i3_s16_ix2(const Int3<s16>& a, s16& o) { o = a.z; }
extern "C" void m_i3_s16_setix2(Int3<s16>& a, s16 v) { a[2] = v; }
extern "C" void r_i3_s16_setix2(Int3<s16>& a, s16 v) { a.z = v; }
extern "C" void m_i3_s16_copy(const Int3<s16>& a, Int3<s16>& o) { Int3<s16> t; t = a; o = t; }
extern "C" void r_i3_s16_copy(const Int3<s16>& a, Int3<s16>& o) { o.x = a.x; o.y = a.y; o.z = a.z; }
extern "C" void m_i4_s16_add(const Int4<s16>& a, const Int4<s16>& b, Int4<s16>& o) { o = a + b; }
extern "C" void r_i4_s16_add(const Int4<s16>& a, const Int4<s16>& b, Int4<s16>& o) { o.x = s16(a.x + b.x); o.y = s16(a.y + b.y); o.z = s16(a.z + b.z); o.w = s16(a.w + b.w); }
extern "C" void m_i4_s16_add_eq(Int4<s16>& a, const Int4<s16>& b) { a += b; }
extern "C" void r_i4_s16_add_eq(Int4<s16>& a, const Int4<s16>& b) { a.x = s16(a.x + b.x); a.y = s16(a.y + b.y); a.z = s16(a.z + b.z); a.w = s16(a.w + b.w); }
extern "C" void m_i4_s16_sub(const Int4<s16>& a, const Int4<s16>& b, Int4<s16>& o) { o = a - b; }
extern "C" void r_i4_s16_sub(const Int4<s16>& a, const Int4<s16>& b, Int4<s16>& o) { o.x = s16(a.x - b.x); o.y = s16(a.y - b.y); o.z = s16(a.z - b.z); o.w = s16(a.w - b.w); }
extern "C" void m_i4_s16_sub_eq(Int4<s16>& a, const Int4<s16>& b) { a -= b; }
extern "C" void r_i4_s16_sub_eq(Int4<s16>& a, const Int4<s16>& b) { a.x = s16(a.x - b.x); a.y = s16(a.y - b.y); a.z = s16(a.z - b.z); a.w = s16(a.w - b.w); }
extern "C" void m_i4_s16_mul_eq(Int4<s16>& a, const Int4<s16>& b) { a *= b; }
extern "C" void r_i4_s16_mul_eq(Int4<s16>& a, const Int4<s16>& b) { a.x = s16(a.x * b.x); a.y = s16(a.y * b.y); a.z = s16(a.z * b.z); a.w = s16(a.w * b.w); }
extern "C" void m_i4_s16_mul_eq_s(Int4<s16>& a, s16 b) { a *= b; }
extern "C" void r_i4_s16_mul_eq_s(Int4<s16>& a, s16 b) { a.x = s16(a.x * b); a.y = s16(a.y * b); a.z = s16(a.z * b); a.w = s16(a.w * b); }
extern "C" void m_i4_s16_div_eq(Int4<s16>& a, const Int4<s16>& b) { a /= b; }
extern "C" void r_i4_s16_div_eq(Int4<s16>& a, const Int4<s16>& b) { a.x = s16(a.x / b.x); a.y = s16(a.y / b.y); a.z = s16(a.z / b.z); a.w = s16(a.w / b.w); }
extern "C" void m_i4_s16_div_eq_s(Int4<s16>& a, s16 b) { a /= b; }
extern "C" void r_i4_s16_div_eq_s(Int4<s16>& a, s16 b) { a.x = s16(a.x / b); a.y = s16(a.y / b); a.z = s16(a.z / b); a.w = s16(a.w / b); }
extern "C" void m_i4_s16_min(const Int4<s16>& a, const Int4<s16>& b, Int4<s16>& o) { o = min(a, b); }
extern "C" void r_i4_s16_min(const Int4<s16>& a, const Int4<s16>& b, Int4<s16>& o) { o.x = a.x < b.x ? a.x : b.x; o.y = a.y < b.y ? a.y : b.y; o.z = a.z < b.z ? a.z : b.z; o.w = a.w < b.w ? a.w : b.w; }
extern "C" void m_i4_s16_max(const Int4<s16>& a, const Int4<s16>& b, Int4<s16>& o) { o = max(a, b); }
extern "C" void r_i4_s16_max(const Int4<s16>& a, const Int4<s16>& b, Int4<s16>& o) { o.x = a.x > b.x ? a.x : b.x; o.y = a.y > b.y ? a.y : b.y; o.z = a.z > b.z ? a.z : b.z; o.w = a.w > b.w ? a.w : b.w; }
extern "C" void m_i4_s16_eq(const Int4<s16>& a, const Int4<s16>& b, bool& o) { o = a == b; }
extern "C" void r_i4_s16_eq(const Int4<s16>& a, const Int4<s16>& b, bool& o) { o = a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; }
extern "C" void m_i4_s16_ne(const Int4<s16>& a, const Int4<s16>& b, bool& o) { o = a != b; }
extern "C" void r_i4_s16_ne(const Int4<s16>& a, const Int4<s16>& b, bool& o) { o = a.x != b.x || a.y != b.y || a.z != b.z || a.w != b.w; }
extern "C" void m_i4_s16_lt(const Int4<s16>& a, const Int4<s16>& b, Bool4& o) { o = a < b; }
extern "C" void r_i4_s16_lt(const Int4<s16>& a, const Int4<s16>& b, Bool4& o) { o.x = a.x < b.x; o.y = a.y < b.y; o.z = a.z < b.z; o.w = a.w < b.w; }
extern "C" void m_i4_s16_le(const Int4<s16>& a, const Int4<s16>& b, Bool4& o) { o = a <= b; }
extern "C" void r_i4_s16_le(const Int4<s16>& a, const Int4<s16>& b, Bool4& o) { o.x = a.x <= b.x; o.y = a.y <= b.y; o.z = a.z <= b.z; o.w = a.w <= b.w; }
extern "C" void m_i4_s16_gt(const Int4<s16>& a, const Int4<s16>& b, Bool4& o) { o = a > b; }
extern "C" void r_i4_s16_gt(const Int4<s16>& a, const Int4<s16>& b, Bool4& o) { o.x = a.x > b.x; o.y = a.y > b.y; o.z = a.z > b.z; o.w = a.w > b.w; }
extern "C" void m_i4_s16_ge(const Int4<s16>& a, const Int4<s16>& b, Bool4& o) { o = a >= b; }
extern "C" void r_i4_s16_ge(const Int4<s16>& a, const Int4<s16>& b, Bool4& o) { o.x = a.x >= b.x; o.y = a.y >= b.y; o.z = a.z >= b.z; o.w = a.w >= b.w; }
extern "C" void m_i4_s16_dot(const Int4<s16>& a, const Int4<s16>& b, sreg& o) { o = dot(a, b); }
extern "C" void r_i4_s16_dot(const Int4<s16>& a, const Int4<s16>& b, sreg& o) { o = sreg(a.x) * b.x + sreg(a.y) * b.y + sreg(a.z) * b.z + sreg(a.w) * b.w; }
extern "C" void m_i4_s16_length2(const Int4<s16>& a, ureg& o) { o = a.length2(); }
extern "C" void r_i4_s16_length2(const Int4<s16>& a, ureg& o) { o = sreg(a.x) * a.x + sreg(a.y) * a.y + sreg(a.z) * a.z + sreg(a.w) * a.w; }
extern "C" void m_i4_s16_splat(s16 v, Int4<s16>& o) { o = Int4<s16>::splat(v); }
extern "C" void r_i4_s16_splat(s16 v, Int4<s16>& o) { o.x = v; o.y = v; o.z = v; o.w = v; }
extern "C" void m_i4_s16_reverse(const Int4<s16>& a, Int4<s16>& o) { o = a.reverse(); }
extern "C" void r_i4_s16_reverse(const Int4<s16>& a, Int4<s16>& o) { o.x = a.w; o.y = a.z; o.z = a.y; o.w = a.x; }
extern "C" void m_i4_s16_swz(const Int4<s16>& a, Int4<s16>& o) { o = a.swizzle(1, 2, 3, 0); }
extern "C" void r_i4_s16_swz(const Int4<s16>& a, Int4<s16>& o) { o.x = a.y; o.y = a.z; o.z = a.w; o.w = a.x; }
extern "C" void m_i4_s16_ix0(const Int4<s16>& a, s16& o) { o = a[0]; }
extern "C" void r_i4_s16_ix0(const Int4<s16>& a, s16& o) { o = a.x; }
extern "C" void m_i4_s16_setix0(Int4<s16>& a, s16 v) { a[0] = v; }
extern "C" void r_i4_s16_setix0(Int4<s16>& a, s16 v) { a.x = v; }
extern "C" void m_i4_s16_ix1(const Int4<s16>& a, s16& o) { o = a[1]; }
extern "C" void r_i4_s16_ix1(const Int4<s16>& a, s16& o) { o = a.y; }
extern "C" void m_i4_s16_setix1(Int4<s16>& a, s16 v) { a[1] = v; }
extern "C" void r_i4_s16_setix1(Int4<s16>& a, s16 v) { a.y = v; }
extern "C" void m_i4_s16_ix2(const Int4<s16>& a, s16& o) { o = a[2]; }
extern "C" void r_i4_s16_ix2(const Int4<s16>& a, s16& o) { o = a.z; }
extern "C" void m_i4_s16_setix2(Int4<s16>& a, s16 v) { a[2] = v; }
extern "C" void r_i4_s16_setix2(Int4<s16>& a, s16 v) { a.z = v; }
extern "C" void m_i4_s16_ix3(const Int4<s16>& a, s16& o) { o = a[3]; }
extern "C" void r_i4_s16_ix3(const Int4<s16>& a, s16& o) { o = a.w; }
extern "C" void m_i4_s16_setix3(Int4<s16>& a, s16 v) { a[3] = v; }
extern "C" void r_i4_s16_setix3(Int4<s16>& a, s16 v) { a.w = v; }
extern "C" void m_i4_s16_copy(const Int4<s16>& a, Int4<s16>& o) { Int4<s16> t; t = a; o = t; }
extern "C" void r_i4_s16_copy(const Int4<s16>& a, Int4<s16>& o) { o.x = a.x; o.y = a.y; o.z = a.z; o.w = a.w; }
extern "C" void m_i2_cross(const Int2<s32>& a, const Int2<s32>& b, sreg& o) { o = cross(a, b); }
extern "C" void r_i2_cross(const Int2<s32>& a, const Int2<s32>& b, sreg& o) { o = sreg(a.x) * b.y - sreg(a.y) * b.x; }
extern "C" void m_i2_yx(const Int2<s32>& a, Int2<s32>& o) { o = a.yx(); }
extern "C" void r_i2_yx(const Int2<s32>& a, Int2<s32>& o) { o.x = a.y; o.y = a.x; }
extern "C" void m_i2_add_s(const Int2<s32>& a, s32 b, Int2<s32>& o) { o = a + b; }
extern "C" void r_i2_add_s(const Int2<s32>& a, s32 b, Int2<s32>& o) { o.x = a.x + b; o.y = a.y + b; }
extern "C" void m_i2_sub_s(const Int2<s32>& a, s32 b, Int2<s32>& o) { o = a - b; }
extern "C" void r_i2_sub_s(const Int2<s32>& a, s32 b, Int2<s32>& o) { o.x = a.x - b; o.y = a.y - b; }
extern "C" void m_rect_add(const Box<Float2>& a, const Box<Float2>& b, Box<Float2>& o) { o = a + b; }
extern "C" void r_rect_add(const Box<Float2>& a, const Box<Float2>& b, Box<Float2>& o) { o.mins.x = a.mins.x + b.mins.x; o.mins.y = a.mins.y + b.mins.y; o.maxs.x = a.maxs.x + b.maxs.x; o.maxs.y = a.maxs.y + b.maxs.y; }
extern "C" void m_rect_add_eq(Box<Float2>& a, const Box<Float2>& b) { a += b; }
extern "C" void r_rect_add_eq(Box<Float2>& a, const Box<Float2>& b) { a.mins.x = a.mins.x + b.mins.x; a.mins.y = a.mins.y + b.mins.y; a.maxs.x = a.maxs.x + b.maxs.x; a.maxs.y = a.maxs.y + b.maxs.y; }
extern "C" void m_rect_sub(const Box<Float2>& a, const Box<Float2>& b, Box<Float2>& o) { o = a - b; }
extern "C" void r_rect_sub(const Box<Float2>& a, const Box<Float2>& b, Box<Float2>& o) { o.mins.x = a.mins.x - b.mins.x; o.mins.y = a.mins.y - b.mins.y; o.maxs.x = a.maxs.x - b.maxs.x; o.maxs.y = a.maxs.y - b.maxs.y; }
extern "C" void m_rect_sub_eq(Box<Float2>& a, const Box<Float2>& b) { a -= b; }
extern "C" void r_rect_sub_eq(Box<Float2>& a, const Box<Float2>& b) { a.mins.x = a.mins.x - b.mins.x; a.mins.y = a.mins.y - b.mins.y; a.maxs.x = a.maxs.x - b.maxs.x; a.maxs.y = a.maxs.y - b.maxs.y; }
extern "C" void m_rect_mul(const Box<Float2>& a, const Float2& b, Box<Float2>& o) { o = a * b; }
extern "C" void r_rect_mul(const Box<Float2>& a, const Float2& b, Box<Float2>& o) { o.mins.x = a.mins.x * b.x; o.mins.y = a.mins.y * b.y; o.maxs.x = a.maxs.x * b.x; o.maxs.y = a.maxs.y * b.y; }
extern "C" void m_rect_mul_eq(Box<Float2>& a, const Float2& b) { a *= b; }
extern "C" void r_rect_mul_eq(Box<Float2>& a, const Float2& b) { a.mins.x = a.mins.x * b.x; a.mins.y = a.mins.y * b.y; a.maxs.x = a.maxs.x * b.x; a.maxs.y = a.maxs.y * b.y; }
extern "C" void m_rect_eq(const Box<Float2>& a, const Box<Float2>& b, bool& o) { o = a == b; }
extern "C" void r_rect_eq(const Box<Float2>& a, const Box<Float2>& b, bool& o) { o = a.mins.x == b.mins.x && a.mins.y == b.mins.y && a.maxs.x == b.maxs.x && a.maxs.y == b.maxs.y; }
extern "C" void m_rect_size(const Box<Float2>& a, Float2& o) { o = a.size(); }
extern "C" void r_rect_size(const Box<Float2>& a, Float2& o) { o.x = a.maxs.x - a.mins.x; o.y = a.maxs.y - a.mins.y; }
extern "C" void m_rect_isEmpty(const Box<Float2>& a, bool& o) { o = a.isEmpty(); }
extern "C" void r_rect_isEmpty(const Box<Float2>& a, bool& o) { o = a.maxs.x <= a.mins.x || a.maxs.y <= a.mins.y; }
extern "C" void m_rect_width(const Box<Float2>& a, float& o) { o = a.width(); }
extern "C" void r_rect_width(const Box<Float2>& a, float& o) { o = a.maxs.x - a.mins.x; }
extern "C" void m_rect_height(const Box<Float2>& a, float& o) { o = a.height(); }
extern "C" void r_rect_height(const Box<Float2>& a, float& o) { o = a.maxs.y - a.mins.y; }
extern "C" void m_rect_expand(const Box<Float2>& a, const Float2& b, Box<Float2>& o) { o = expand(a, b); }
extern "C" void r_rect_expand(const Box<Float2>& a, const Float2& b, Box<Float2>& o) { o.mins.x = a.mins.x - b.x; o.maxs.x = a.maxs.x + b.x; o.mins.y = a.mins.y - b.y; o.maxs.y = a.maxs.y + b.y; }
extern "C" void m_rect_shrink(const Box<Float2>& a, const Float2& b, Box<Float2>& o) { o = shrink(a, b); }
extern "C" void r_rect_shrink(const Box<Float2>& a, const Float2& b, Box<Float2>& o) { o.mins.x = a.mins.x + b.x; o.maxs.x = a.maxs.x - b.x; o.mins.y = a.mins.y + b.y; o.maxs.y = a.maxs.y - b.y; }
extern "C" void m_rect_contains(const Box<Float2>& a, const Float2& b, bool& o) { o = a.contains(b); }
extern "C" void r_rect_contains(const Box<Float2>& a, const Float2& b, bool& o) { o = a.mins.x <= b.x && b.x < a.maxs.x && a.mins.y <= b.y && b.y < a.maxs.y; }
extern "C" void m_rect_containsBox(const Box<Float2>& a, const Box<Float2>& b, bool& o) { o = a.contains(b); }
extern "C" void r_rect_containsBox(const Box<Float2>& a, const Box<Float2>& b, bool& o) { o = a.mins.x <= b.mins.x && b.maxs.x <= a.maxs.x && a.mins.y <= b.mins.y && b.maxs.y <= a.maxs.y; }
extern "C" void m_rect_intersects(const Box<Float2>& a, const Box<Float2>& b, bool& o) { o = a.intersects(b); }
extern "C" void r_rect_intersects(const Box<Float2>& a, const Box<Float2>& b, bool& o) { o = true; { float l = a.mins.x > b.mins.x ? a.mins.x : b.mins.x; float h = a.maxs.x < b.maxs.x ? a.maxs.x : b.maxs.x; o = o && (h > l); } { float l = a.mins.y > b.mins.y ? a.mins.y : b.mins.y; float h = a.maxs.y < b.maxs.y ? a.maxs.y : b.maxs.y; o = o && (h > l); } }
extern "C" void m_rect_union(const Box<Float2>& a, const Box<Float2>& b, Box<Float2>& o) { o = makeUnion(a, b); }
extern "C" void r_rect_union(const Box<Float2>& a, const Box<Float2>& b, Box<Float2>& o) { o.mins.x = a.mins.x < b.mins.x ? a.mins.x : b.mins.x; o.maxs.x = a.maxs.x > b.maxs.x ? a.maxs.x : b.maxs.x; o.mins.y = a.mins.y < b.mins.y ? a.mins.y : b.mins.y; o.maxs.y = a.maxs.y > b.maxs.y ? a.maxs.y : b.maxs.y; }
extern "C" void m_rect_unionPt(const Box<Float2>& a, const Float2& b, Box<Float2>& o) { o = makeUnion(a, b); }
extern "C" void r_rect_unionPt(const Box<Float2>& a, const Float2& b, Box<Float2>& o) { o.mins.x = a.mins.x < b.x ? a.mins.x : b.x; o.maxs.x = a.maxs.x > b.x ? a.maxs.x : b.x; o.mins.y = a.mins.y < b.y ? a.mins.y : b.y; o.maxs.y = a.maxs.y > b.y ? a.maxs.y : b.y; }
extern "C" void m_rect_unionPts(const Float2& a, const Float2& b, Box<Float2>& o) { o = makeUnion(a, b); }
extern "C" void r_rect_unionPts(const Float2& a, const Float2& b, Box<Float2>& o) { o.mins.x = a.x < b.x ? a.x : b.x; o.maxs.x = a.x > b.x ? a.x : b.x; o.mins.y = a.y < b.y ? a.y : b.y; o.maxs.y = a.y > b.y ? a.y : b.y; }
extern "C" void m_rect_intersect(const Box<Float2>& a, const Box<Float2>& b, Box<Float2>& o) { o = intersect(a, b); }
extern "C" void r_rect_intersect(const Box<Float2>& a, const Box<Float2>& b, Box<Float2>& o) { o.mins.x = a.mins.x > b.mins.x ? a.mins.x : b.mins.x; o.maxs.x = a.maxs.x < b.maxs.x ? a.maxs.x : b.maxs.x; o.mins.y = a.mins.y > b.mins.y ? a.mins.y : b.mins.y; o.maxs.y = a.maxs.y < b.maxs.y ? a.maxs.y : b.maxs.y; }
extern "C" void m_rect_solid(const Box<Float2>& a, Box<Float2>& o) { o = makeSolid(a); }
extern "C" void r_rect_solid(const Box<Float2>& a, Box<Float2>& o) { o.mins.x = a.mins.x < a.maxs.x ? a.mins.x : a.maxs.x; o.maxs.x = a.mins.x > a.maxs.x ? a.mins.x : a.maxs.x; o.mins.y = a.mins.y < a.maxs.y ? a.mins.y : a.maxs.y; o.maxs.y = a.mins.y > a.maxs.y ? a.mins.y : a.maxs.y; }
extern "C" void m_rect_zero(Box<Float2>& o) { o = Box<Float2>::zero(); }
extern "C" void r_rect_zero(Box<Float2>& o) { o.mins.x = 0; o.mins.y = 0; o.maxs.x = 0; o.maxs.y = 0; }
extern "C" void m_rect_empty(Box<Float2>& o) { o = Box<Float2>::empty(); }
extern "C" void r_rect_empty(Box<Float2>& o) { o.mins.x = Limits<float>::Max; o.maxs.x = Limits<float>::Min; o.mins.y = Limits<float>::Max; o.maxs.y = Limits<float>::Min; }
extern "C" void m_rect_full(Box<Float2>& o) { o = Box<Float2>::full(); }
extern "C" void r_rect_full(Box<Float2>& o) { o.mins.x = Limits<float>::Min; o.maxs.x = Limits<float>::Max; o.mins.y = Limits<float>::Min; o.maxs.y = Limits<float>::Max; }
extern "C" void m_rect_point(const Float2& a, Box<Float2>& o) { o = Box<Float2>{a}; }
extern "C" void r_rect_point(const Float2& a, Box<Float2>& o) { o.mins.x = a.x; o.maxs.x = a.x; o.mins.y = a.y; o.maxs.y = a.y; }
extern "C" void m_rect_ctor(const Float2& a, const Float2& b, Box<Float2>& o) { o = Box<Float2>{a, b}; }
extern "C" void r_rect_ctor(const Float2& a, const Float2& b, Box<Float2>& o) { o.mins.x = a.x; o.maxs.x = b.x; o.mins.y = a.y; o.maxs.y = b.y; }
extern "C" void m_rect_fromSizeV(const Float2& a, const Float2& b, Box<Float2>& o) { o = Box<Float2>::fromSize(a, b); }
extern "C" void r_rect_fromSizeV(const Float2& a, const Float2& b, Box<Float2>& o) { o.mins.x = a.x; o.maxs.x = a.x + b.x; o.mins.y = a.y; o.maxs.y = a.y + b.y; }
extern "C" void m_rect_fromSize(float x, float y, float w, float h, Box<Float2>& o) { o = Box<Float2>::fromSize(x, y, w, h); }
extern "C" void r_rect_fromSize(float x, float y, float w, float h, Box<Float2>& o) { o.mins.x = x; o.mins.y = y; o.maxs.x = x + w; o.maxs.y = y + h; }
extern "C" void m_rect_topLeft(const Box<Float2>& a, Float2& o) { o = a.topLeft(); }
extern "C" void r_rect_topLeft(const Box<Float2>& a, Float2& o) { o.x = a.mins.x; o.y = a.maxs.y; }
extern "C" void m_rect_bottomRight(const Box<Float2>& a, Float2& o) { o = a.bottomRight(); }
extern "C" void r_rect_bottomRight(const Box<Float2>& a, Float2& o) { o.x = a.maxs.x; o.y = a.mins.y; }
extern "C" void m_rect_div(const Box<Float2>& a, const Float2& b, Box<Float2>& o) { o = a / b; }
extern "C" void r_rect_div(const Box<Float2>& a, const Float2& b, Box<Float2>& o) { o.mins.x = a.mins.x / b.x; o.mins.y = a.mins.y / b.y; o.maxs.x = a.maxs.x / b.x; o.maxs.y = a.maxs.y / b.y; }
extern "C" void m_rect_mid(const Box<Float2>& a, Float2& o) { o = a.mid(); }
extern "C" void r_rect_mid(const Box<Float2>& a, Float2& o) { o.x = (a.mins.x + a.maxs.x) / 2; o.y = (a.mins.y + a.maxs.y) / 2; }
extern "C" void m_rect_roundNearest(const Box<Float2>& a, float s, Box<Float2>& o) { o = roundNearest(a, s); }
extern "C" void r_rect_roundNearest(const Box<Float2>& a, float s, Box<Float2>& o) { o.mins.x = fastRound(a.mins.x / s) * s; o.mins.y = fastRound(a.mins.y / s) * s; o.maxs.x = fastRound(a.maxs.x / s) * s; o.maxs.y = fastRound(a.maxs.y / s) * s; }
extern "C" void m_rect_roundExpand(const Box<Float2>& a, float s, Box<Float2>& o) { o = roundExpand(a, s); }
extern "C" void r_rect_roundExpand(const Box<Float2>& a, float s, Box<Float2>& o) { o.mins.x = floorf(a.mins.x / s) * s; o.maxs.x = ceilf(a.maxs.x / s) * s; o.mins.y = floorf(a.mins.y / s) * s; o.maxs.y = ceilf(a.maxs.y / s) * s; }
extern "C" void m_rect_length2(const Box<Float2>& a, float& o) { o = a.length2(); }
extern "C" void r_rect_length2(const Box<Float2>& a, float& o) { o = a.mins.x * a.mins.x + a.mins.y * a.mins.y + a.maxs.x * a.maxs.x + a.maxs.y * a.maxs.y; }
extern "C" void m_rect_mix(const Box<Float2>& a, const Float2& b, Float2& o) { o = a.mix(b); }
extern "C" void r_rect_mix(const Box<Float2>& a, const Float2& b, Float2& o) { o.x = a.mins.x + (a.maxs.x - a.mins.x) * b.x; o.y = a.mins.y + (a.maxs.y - a.mins.y) * b.y; }
extern "C" void m_rect_unmix(const Box<Float2>& a, const Float2& b, Float2& o) { o = a.unmix(b); }
extern "C" void r_rect_unmix(const Box<Float2>& a, const Float2& b, Float2& o) { o.x = (b.x - a.mins.x) / (a.maxs.x - a.mins.x); o.y = (b.y - a.mins.y) / (a.maxs.y - a.mins.y); }
extern "C" void m_rect_mixBox(const Box<Float2>& a, const Box<Float2>& b, Box<Float2>& o) { o = a.mix(b); }
extern "C" void r_rect_mixBox(const Box<Float2>& a, const Box<Float2>& b, Box<Float2>& o) { o.mins.x = a.mins.x + (a.maxs.x - a.mins.x) * b.mins.x; o.mins.y = a.mins.y + (a.maxs.y - a.mins.y) * b.mins.y; o.maxs.x = a.mins.x + (a.maxs.x - a.mins.x) * b.maxs.x; o.maxs.y = a.mins.y + (a.maxs.y - a.mins.y) * b.maxs.y; }
extern "C" void m_rect_unmixBox(const Box<Float2>& a, const Box<Float2>& b, Box<Float2>& o) { o = a.unmix(b); }
extern "C" void r_rect_unmixBox(const Box<Float2>& a, const Box<Float2>& b, Box<Float2>& o) { o.mins.x = (b.mins.x - a.mins.x) / (a.maxs.x - a.mins.x); o.mins.y = (b.mins.y - a.mins.y) / (a.maxs.y - a.mins.y); o.maxs.x = (b.maxs.x - a.mins.x) / (a.maxs.x - a.mins.x); o.maxs.y = (b.maxs.y - a.mins.y) / (a.maxs.y - a.mins.y); }
extern "C" void m_rect_toInt(const Box<Float2>& a, Box<Int2<s32>>& o) { o = a.to<Box<Int2<s32>>>(); }
extern "C" void r_rect_toInt(const Box<Float2>& a, Box<Int2<s32>>& o) { o.mins.x = (s32) a.mins.x; o.mins.y = (s32) a.mins.y; o.maxs.x = (s32) a.maxs.x; o.maxs.y = (s32) a.maxs.y; }
extern "C" void m_box3_add(const Box<Float3>& a, const Box<Float3>& b, Box<Float3>& o) { o = a + b; }
extern "C" void r_box3_add(const Box<Float3>& a, const Box<Float3>& b, Box<Float3>& o) { o.mins.x = a.mins.x + b.mins.x; o.mins.y = a.mins.y + b.mins.y; o.mins.z = a.mins.z + b.mins.z; o.maxs.x = a.maxs.x + b.maxs.x; o.maxs.y = a.maxs.y + b.maxs.y; o.maxs.z = a.maxs.z + b.maxs.z; }
extern "C" void m_box3_add_eq(Box<Float3>& a, const Box<Float3>& b) { a += b; }
extern "C" void r_box3_add_eq(Box<Float3>& a, const Box<Float3>& b) { a.mins.x = a.mins.x + b.mins.x; a.mins.y = a.mins.y + b.mins.y; a.mins.z = a.mins.z + b.mins.z; a.maxs.x = a.maxs.x + b.maxs.x; a.maxs.y = a.maxs.y + b.maxs.y; a.maxs.z = a.maxs.z + b.maxs.z; }
extern "C" void m_box3_sub(const Box<Float3>& a, const Box<Float3>& b, Box<Float3>& o) { o = a - b; }
extern "C" void r_box3_sub(const Box<Float3>& a, const Box<Float3>& b, Box<Float3>& o) { o.mins.x = a.mins.x - b.mins.x; o.mins.y = a.mins.y - b.mins.y; o.mins.z = a.mins.z - b.mins.z; o.maxs.x = a.maxs.x - b.maxs.x; o.maxs.y = a.maxs.y - b.maxs.y; o.maxs.z = a.maxs.z - b.maxs.z; }
extern "C" void m_box3_sub_eq(Box<Float3>& a, const Box<Float3>& b) { a -= b; }
extern "C" void r_box3_sub_eq(Box<Float3>& a, const Box<Float3>& b) { a.mins.x = a.mins.x - b.mins.x; a.mins.y = a.mins.y - b.mins.y; a.mins.z = a.mins.z - b.mins.z; a.maxs.x = a.maxs.x - b.maxs.x; a.maxs.y = a.maxs.y - b.maxs.y; a.maxs.z = a.maxs.z - b.maxs.z; }
extern "C" void m_box3_mul(const Box<Float3>& a, const Float3& b, Box<Float3>& o) { o = a * b; }
extern "C" void r_box3_mul(const Box<Float3>& a, const Float3& b, Box<Float3>& o) { o.mins.x = a.mins.x * b.x; o.mins.y = a.mins.y * b.y; o.mins.z = a.mins.z * b.z; o.maxs.x = a.maxs.x * b.x; o.maxs.y = a.maxs.y * b.y; o.maxs.z = a.maxs.z * b.z; }
extern "C" void m_box3_mul_eq(Box<Float3>& a, const Float3& b) { a *= b; }
extern "C" void r_box3_mul_eq(Box<Float3>& a, const Float3& b) { a.mins.x = a.mins.x * b.x; a.mins.y = a.mins.y * b.y; a.mins.z = a.mins.z * b.z; a.maxs.x = a.maxs.x * b.x; a.maxs.y = a.maxs.y * b.y; a.maxs.z = a.maxs.z * b.z; }
extern "C" void m_box3_eq(const Box<Float3>& a, const Box<Float3>& b, bool& o) { o = a == b; }
extern "C" void r_box3_eq(const Box<Float3>& a, const Box<Float3>& b, bool& o) { o = a.mins.x == b.mins.x && a.mins.y == b.mins.y && a.mins.z == b.mins.z && a.maxs.x == b.maxs.x && a.maxs.y == b.maxs.y && a.maxs.z == b.maxs.z; }
extern "C" void m_box3_size(const Box<Float3>& a, Float3& o) { o = a.size(); }
extern "C" void r_box3_size(const Box<Float3>& a, Float3& o) { o.x = a.maxs.x - a.mins.x; o.y = a.maxs.y - a.mins.y; o.z = a.maxs.z - a.mins.z; }
extern "C" void m_box3_isEmpty(const Box<Float3>& a, bool& o) { o = a.isEmpty(); }
extern "C" void r_box3_isEmpty(const Box<Float3>& a, bool& o) { o = a.maxs.x <= a.mins.x || a.maxs.y <= a.mins.y || a.maxs.z <= a.mins.z; }
extern "C" void m_box3_width(const Box<Float3>& a, float& o) { o = a.width(); }
extern "C" void r_box3_width(const Box<Float3>& a, float& o) { o = a.maxs.x - a.mins.x; }
extern "C" void m_box3_height(const Box<Float3>& a, float& o) { o = a.height(); }
extern "C" void r_box3_height(const Box<Float3>& a, float& o) { o = a.maxs.y - a.mins.y; }
extern "C" void m_box3_depth(const Box<Float3>& a, float& o) { o = a.depth(); }
extern "C" void r_box3_depth(const Box<Float3>& a, float& o) { o = a.maxs.z - a.mins.z; }
extern "C" void m_box3_expand(const Box<Float3>& a, const Float3& b, Box<Float3>& o) { o = expand(a, b); }
extern "C" void r_box3_expand(const Box<Float3>& a, const Float3& b, Box<Float3>& o) { o.mins.x = a.mins.x - b.x; o.maxs.x = a.maxs.x + b.x; o.mins.y = a.mins.y - b.y; o.maxs.y = a.maxs.y + b.y; o.mins.z = a.mins.z - b.z; o.maxs.z = a.maxs.z + b.z; }
extern "C" void m_box3_shrink(const Box<Float3>& a, const Float3& b, Box<Float3>& o) { o = shrink(a, b); }
extern "C" void r_box3_shrink(const Box<Float3>& a, const Float3& b, Box<Float3>& o) { o.mins.x = a.mins.x + b.x; o.maxs.x = a.maxs.x - b.x; o.mins.y = a.mins.y + b.y; o.maxs.y = a.maxs.y - b.y; o.mins.z = a.mins.z + b.z; o.maxs.z = a.maxs.z - b.z; }
extern "C" void m_box3_contains(const Box<Float3>& a, const Float3& b, bool& o) { o = a.contains(b); }
extern "C" void r_box3_contains(const Box<Float3>& a, const Float3& b, bool& o) { o = a.mins.x <= b.x && b.x < a.maxs.x && a.mins.y <= b.y && b.y < a.maxs.y && a.mins.z <= b.z && b.z < a.maxs.z; }
extern "C" void m_box3_containsBox(const Box<Float3>& a, const Box<Float3>& b, bool& o) { o = a.contains(b); }
extern "C" void r_box3_containsBox(const Box<Float3>& a, const Box<Float3>& b, bool& o) { o = a.mins.x <= b.mins.x && b.maxs.x <= a.maxs.x && a.mins.y <= b.mins.y && b.maxs.y <= a.maxs.y && a.mins.z <= b.mins.z && b.maxs.z <= a.maxs.z; }
extern "C" void m_box3_intersects(const Box<Float3>& a, const Box<Float3>& b, bool& o) { o = a.intersects(b); }
extern "C" void r_box3_intersects(const Box<Float3>& a, const Box<Float3>& b, bool& o) { o = true; { float l = a.mins.x > b.mins.x ? a.mins.x : b.mins.x; float h = a.maxs.x < b.maxs.x ? a.maxs.x : b.maxs.x; o = o && (h > l); } { float l = a.mins.y > b.mins.y ? a.mins.y : b.mins.y; float h = a.maxs.y < b.maxs.y ? a.maxs.y : b.maxs.y; o = o && (h > l); } { float l = a.mins.z > b.mins.z ? a.mins.z : b.mins.z; float h = a.maxs.z < b.maxs.z ? a.maxs.z : b.maxs.z; o = o && (h > l); } }
extern "C" void m_box3_union(const Box<Float3>& a, const Box<Float3>& b, Box<Float3>& o) { o = makeUnion(a, b); }
extern "C" void r_box3_union(const Box<Float3>& a, const Box<Float3>& b, Box<Float3>& o) { o.mins.x = a.mins.x < b.mins.x ? a.mins.x : b.mins.x; o.maxs.x = a.maxs.x > b.maxs.x ? a.maxs.x : b.maxs.x; o.mins.y = a.mins.y < b.mins.y ? a.mins.y : b.mins.y; o.maxs.y = a.maxs.y > b.maxs.y ? a.maxs.y : b.maxs.y; o.mins.z = a.mins.z < b.mins.z ? a.mins.z : b.mins.z; o.maxs.z = a.maxs.z > b.maxs.z ? a.maxs.z : b.maxs.z; }
extern "C" void m_box3_unionPt(const Box<Float3>& a, const Float3& b, Box<Float3>& o) { o = makeUnion(a, b); }
extern "C" void r_box3_unionPt(const Box<Float3>& a, const Float3& b, Box<Float3>& o) { o.mins.x = a.mins.x < b.x ? a.mins.x : b.x; o.maxs.x = a.maxs.x > b.x ? a.maxs.x : b.x; o.mins.y = a.mins.y < b.y ? a.mins.y : b.y; o.maxs.y = a.maxs.y > b.y ? a.maxs.y : b.y; o.mins.z = a.mins.z < b.z ? a.mins.z : b.z; o.maxs.z = a.maxs.z > b.z ? a.maxs.z : b.z; }
extern "C" void m_box3_unionPts(const Float3& a, const Float3& b, Box<Float3>& o) { o = makeUnion(a, b); }
extern "C" void r_box3_unionPts(const Float3& a, const Float3& b, Box<Float3>& o) { o.mins.x = a.x < b.x ? a.x : b.x; o.maxs.x = a.x > b.x ? a.x : b.x; o.mins.y = a.y < b.y ? a.y : b.y; o.maxs.y = a.y > b.y ? a.y : b.y; o.mins.z = a.z < b.z ? a.z : b.z; o.maxs.z = a.z > b.z ? a.z : b.z; }
extern "C" void m_box3_intersect(const Box<Float3>& a, const Box<Float3>& b, Box<Float3>& o) { o = intersect(a, b); }
extern "C" void r_box3_intersect(const Box<Float3>& a, const Box<Float3>& b, Box<Float3>& o) { o.mins.x = a.mins.x > b.mins.x ? a.mins.x : b.mins.x; o.maxs.x = a.maxs.x < b.maxs.x ? a.maxs.x : b.maxs.x; o.mins.y = a.mins.y > b.mins.y ? a.mins.y : b.mins.y; o.maxs.y = a.maxs.y < b.maxs.y ? a.maxs.y : b.maxs.y; o.mins.z = a.mins.z > b.mins.z ? a.mins.z : b.mins.z; o.maxs.z = a.maxs.z < b.maxs.z ? a.maxs.z : b.maxs.z; }
extern "C" void m_box3_solid(const Box<Float3>& a, Box<Float3>& o) { o = makeSolid(a); }
extern "C" void r_box3_solid(const Box<Float3>& a, Box<Float3>& o) { o.mins.x = a.mins.x < a.maxs.x ? a.mins.x : a.maxs.x; o.maxs.x = a.mins.x > a.maxs.x ? a.mins.x : a.maxs.x; o.mins.y = a.mins.y < a.maxs.y ? a.mins.y : a.maxs.y; o.maxs.y = a.mins.y > a.maxs.y ? a.mins.y : a.maxs.y; o.mins.z = a.mins.z < a.maxs.z ? a.mins.z : a.maxs.z; o.maxs.z = a.mins.z > a.maxs.z ? a.mins.z : a.maxs.z; }
extern "C" void m_box3_zero(Box<Float3>& o) { o = Box<Float3>::zero(); }
extern "C" void r_box3_zero(Box<Float3>& o) { o.mins.x = 0; o.mins.y = 0; o.mins.z = 0; o.maxs.x = 0; o.maxs.y = 0; o.maxs.z = 0; }
extern "C" void m_box3_empty(Box<Float3>& o) { o = Box<Float3>::empty(); }
extern "C" void r_box3_empty(Box<Float3>& o) { o.mins.x = Limits<float>::Max; o.maxs.x = Limits<float>::Min; o.mins.y = Limits<float>::Max; o.maxs.y = Limits<float>::Min; o.mins.z = Limits<float>::Max; o.maxs.z = Limits<float>::Min; }
extern "C" void m_box3_full(Box<Float3>& o) { o = Box<Float3>::full(); }
extern "C" void r_box3_full(Box<Float3>& o) { o.mins.x = Limits<float>::Min; o.maxs.x = Limits<float>::Max; o.mins.y = Limits<float>::Min; o.maxs.y = Limits<float>::Max; o.mins.z = Limits<float>::Min; o.maxs.z = Limits<float>::Max; }
extern "C" void m_box3_point(const Float3& a, Box<Float3>& o) { o = Box<Float3>{a}; }
extern "C" void r_box3_point(const Float3& a, Box<Float3>& o) { o.mins.x = a.x; o.maxs.x = a.x; o.mins.y = a.y; o.maxs.y = a.y; o.mins.z = a.z; o.maxs.z = a.z; }
extern "C" void m_box3_ctor(const Float3& a, const Float3& b, Box<Float3>& o) { o = Box<Float3>{a, b}; }
extern "C" void r_box3_ctor(const Float3& a, const Float3& b, Box<Float3>& o) { o.mins.x = a.x; o.maxs.x = b.x; o.mins.y = a.y; o.maxs.y = b.y; o.mins.z = a.z; o.maxs.z = b.z; }
extern "C" void m_box3_fromSizeV(const Float3& a, const Float3& b, Box<Float3>& o) { o = Box<Float3>::fromSize(a, b); }
extern "C" void r_box3_fromSizeV(const Float3& a, const Float3& b, Box<Float3>& o) { o.mins.x = a.x; o.maxs.x = a.x + b.x; o.mins.y = a.y; o.maxs.y = a.y + b.y; o.mins.z = a.z; o.maxs.z = a.z + b.z; }
extern "C" void m_box3_div(const Box<Float3>& a, const Float3& b, Box<Float3>& o) { o = a / b; }
extern "C" void r_box3_div(const Box<Float3>& a, const Float3& b, Box<Float3>& o) { o.mins.x = a.mins.x / b.x; o.mins.y = a.mins.y / b.y; o.mins.z = a.mins.z / b.z; o.maxs.x = a.maxs.x / b.x; o.maxs.y = a.maxs.y / b.y; o.maxs.z = a.maxs.z / b.z; }
extern "C" void m_box3_mid(const Box<Float3>& a, Float3& o) { o = a.mid(); }
extern "C" void r_box3_mid(const Box<Float3>& a, Float3& o) { o.x = (a.mins.x + a.maxs.x) / 2; o.y = (a.mins.y + a.maxs.y) / 2; o.z = (a.mins.z + a.maxs.z) / 2; }
extern "C" void m_box3_roundNearest(const Box<Float3>& a, float s, Box<Float3>& o) { o = roundNearest(a, s); }
extern "C" void r_box3_roundNearest(const Box<Float3>& a, float s, Box<Float3>& o) { o.mins.x = fastRound(a.mins.x / s) * s; o.mins.y = fastRound(a.mins.y / s) * s; o.mins.z = fastRound(a.mins.z / s) * s; o.maxs.x = fastRound(a.maxs.x / s) * s; o.maxs.y = fastRound(a.maxs.y / s) * s; o.maxs.z = fastRound(a.maxs.z / s) * s; }
extern "C" void m_box3_roundExpand(const Box<Float3>& a, float s, Box<Float3>& o) { o = roundExpand(a, s); }
extern "C" void r_box3_roundExpand(const Box<Float3>& a, float s, Box<Float3>& o) { o.mins.x = floorf(a.mins.x / s) * s; o.maxs.x = ceilf(a.maxs.x / s) * s; o.mins.y = floorf(a.mins.y / s) * s; o.maxs.y = ceilf(a.maxs.y / s) * s; o.mins.z = floorf(a.mins.z / s) * s; o.maxs.z = ceilf(a.maxs.z / s) * s; }
extern "C" void m_box3_length2(const Box<Float3>& a, float& o) { o = a.length2(); }
extern "C" void r_box3_length2(const Box<Float3>& a, float& o) { o = a.mins.x * a.mins.x + a.mins.y * a.mins.y + a.mins.z * a.mins.z + a.maxs.x * a.maxs.x + a.maxs.y * a.maxs.y + a.maxs.z * a.maxs.z; }
extern "C" void m_irect_add(const Box<Int2<s32>>& a, const Box<Int2<s32>>& b, Box<Int2<s32>>& o) { o = a + b; }
extern "C" void r_irect_add(const Box<Int2<s32>>& a, const Box<Int2<s32>>& b, Box<Int2<s32>>& o) { o.mins.x = a.mins.x + b.mins.x; o.mins.y = a.mins.y + b.mins.y; o.maxs.x = a.maxs.x + b.maxs.x; o.maxs.y = a.maxs.y + b.maxs.y; }
extern "C" void m_irect_add_eq(Box<Int2<s32>>& a, const Box<Int2<s32>>& b) { a += b; }
extern "C" void r_irect_add_eq(Box<Int2<s32>>& a, const Box<Int2<s32>>& b) { a.mins.x = a.mins.x + b.mins.x; a.mins.y = a.mins.y + b.mins.y; a.maxs.x = a.maxs.x + b.maxs.x; a.maxs.y = a.maxs.y + b.maxs.y; }
extern "C" void m_irect_sub(const Box<Int2<s32>>& a, const Box<Int2<s32>>& b, Box<Int2<s32>>& o) { o = a - b; }
extern "C" void r_irect_sub(const Box<Int2<s32>>& a, const Box<Int2<s32>>& b, Box<Int2<s32>>& o) { o.mins.x = a.mins.x - b.mins.x; o.mins.y = a.mins.y - b.mins.y; o.maxs.x = a.maxs.x - b.maxs.x; o.maxs.y = a.maxs.y - b.maxs.y; }
extern "C" void m_irect_sub_eq(Box<Int2<s32>>& a, const Box<Int2<s32>>& b) { a -= b; }
extern "C" void r_irect_sub_eq(Box<Int2<s32>>& a, const Box<Int2<s32>>& b) { a.mins.x = a.mins.x - b.mins.x; a.mins.y = a.mins.y - b.mins.y; a.maxs.x = a.maxs.x - b.maxs.x; a.maxs.y = a.maxs.y - b.maxs.y; }
extern "C" void m_irect_mul(const Box<Int2<s32>>& a, const Int2<s32>& b, Box<Int2<s32>>& o) { o = a * b; }
extern "C" void r_irect_mul(const Box<Int2<s32>>& a, const Int2<s32>& b, Box<Int2<s32>>& o) { o.mins.x = a.mins.x * b.x; o.mins.y = a.mins.y * b.y; o.maxs.x = a.maxs.x * b.x; o.maxs.y = a.maxs.y * b.y; }
extern "C" void m_irect_mul_eq(Box<Int2<s32>>& a, const Int2<s32>& b) { a *= b; }
extern "C" void r_irect_mul_eq(Box<Int2<s32>>& a, const Int2<s32>& b) { a.mins.x = a.mins.x * b.x; a.mins.y = a.mins.y * b.y; a.maxs.x = a.maxs.x * b.x; a.maxs.y = a.maxs.y * b.y; }
extern "C" void m_irect_eq(const Box<Int2<s32>>& a, const Box<Int2<s32>>& b, bool& o) { o = a == b; }
extern "C" void r_irect_eq(const Box<Int2<s32>>& a, const Box<Int2<s32>>& b, bool& o) { o = a.mins.x == b.mins.x && a.mins.y == b.mins.y && a.maxs.x == b.maxs.x && a.maxs.y == b.maxs.y; }
extern "C" void m_irect_size(const Box<Int2<s32>>& a, Int2<s32>& o) { o = a.size(); }
extern "C" void r_irect_size(const Box<Int2<s32>>& a, Int2<s32>& o) { o.x = a.maxs.x - a.mins.x; o.y = a.maxs.y - a.mins.y; }
extern "C" void m_irect_isEmpty(const Box<Int2<s32>>& a, bool& o) { o = a.isEmpty(); }
extern "C" void r_irect_isEmpty(const Box<Int2<s32>>& a, bool& o) { o = a.maxs.x <= a.mins.x || a.maxs.y <= a.mins.y; }
extern "C" void m_irect_width(const Box<Int2<s32>>& a, s32& o) { o = a.width(); }
extern "C" void r_irect_width(const Box<Int2<s32>>& a, s32& o) { o = a.maxs.x - a.mins.x; }
extern "C" void m_irect_height(const Box<Int2<s32>>& a, s32& o) { o = a.height(); }
extern "C" void r_irect_height(const Box<Int2<s32>>& a, s32& o) { o = a.maxs.y - a.mins.y; }
extern "C" void m_irect_expand(const Box<Int2<s32>>& a, const Int2<s32>& b, Box<Int2<s32>>& o) { o = expand(a, b); }
extern "C" void r_irect_expand(const Box<Int2<s32>>& a, const Int2<s32>& b, Box<Int2<s32>>& o) { o.mins.x = a.mins.x - b.x; o.maxs.x = a.maxs.x + b.x; o.mins.y = a.mins.y - b.y; o.maxs.y = a.maxs.y + b.y; }
extern "C" void m_irect_shrink(const Box<Int2<s32>>& a, const Int2<s32>& b, Box<Int2<s32>>& o) { o = shrink(a, b); }
extern "C" void r_irect_shrink(const Box<Int2<s32>>& a, const Int2<s32>& b, Box<Int2<s32>>& o) { o.mins.x = a.mins.x + b.x; o.maxs.x = a.maxs.x - b.x; o.mins.y = a.mins.y + b.y; o.maxs.y = a.maxs.y - b.y; }
extern "C" void m_irect_contains(const Box<Int2<s32>>& a, const Int2<s32>& b, bool& o) { o = a.contains(b); }
extern "C" void r_irect_contains(const Box<Int2<s32>>& a, const Int2<s32>& b, bool& o) { o = a.mins.x <= b.x && b.x < a.maxs.x && a.mins.y <= b.y && b.y < a.maxs.y; }
extern "C" void m_irect_containsBox(const Box<Int2<s32>>& a, const Box<Int2<s32>>& b, bool& o) { o = a.contains(b); }
extern "C" void r_irect_containsBox(const Box<Int2<s32>>& a, const Box<Int2<s32>>& b, bool& o) { o = a.mins.x <= b.mins.x && b.maxs.x <= a.maxs.x && a.mins.y <= b.mins.y && b.maxs.y <= a.maxs.y; }
extern "C" void m_irect_intersects(const Box<Int2<s32>>& a, const Box<Int2<s32>>& b, bool& o) { o = a.intersects(b); }
extern "C" void r_irect_intersects(const Box<Int2<s32>>& a, const Box<Int2<s32>>& b, bool& o) { o = true; { s32 l = a.mins.x > b.mins.x ? a.mins.x : b.mins.x; s32 h = a.maxs.x < b.maxs.x ? a.maxs.x : b.maxs.x; o = o && (h > l); } { s32 l = a.mins.y > b.mins.y ? a.mins.y : b.mins.y; s32 h = a.maxs.y < b.maxs.y ? a.maxs.y : b.maxs.y; o = o && (h > l); } }
extern "C" void m_irect_union(const Box<Int2<s32>>& a, const Box<Int2<s32>>& b, Box<Int2<s32>>& o) { o = makeUnion(a, b); }
extern "C" void r_irect_union(const Box<Int2<s32>>& a, const Box<Int2<s32>>& b, Box<Int2<s32>>& o) { o.mins.x = a.mins.x < b.mins.x ? a.mins.x : b.mins.x; o.maxs.x = a.maxs.x > b.maxs.x ? a.maxs.x : b.maxs.x; o.mins.y = a.mins.y < b.mins.y ? a.mins.y : b.mins.y; o.maxs.y = a.maxs.y > b.maxs.y ? a.maxs.y : b.maxs.y; }
extern "C" void m_irect_unionPt(const Box<Int2<s32>>& a, const Int2<s32>& b, Box<Int2<s32>>& o) { o = makeUnion(a, b); }
extern "C" void r_irect_unionPt(const Box<Int2<s32>>& a, const Int2<s32>& b, Box<Int2<s32>>& o) { o.mins.x = a.mins.x < b.x ? a.mins.x : b.x; o.maxs.x = a.maxs.x > b.x ? a.maxs.x : b.x; o.mins.y = a.mins.y < b.y ? a.mins.y : b.y; o.maxs.y = a.maxs.y > b.y ? a.maxs.y : b.y; }
extern "C" void m_irect_unionPts(const Int2<s32>& a, const Int2<s32>& b, Box<Int2<s32>>& o) { o = makeUnion(a, b); }
extern "C" void r_irect_unionPts(const Int2<s32>& a, const Int2<s32>& b, Box<Int2<s32>>& o) { o.mins.x = a.x < b.x ? a.x : b.x; o.maxs.x = a.x > b.x ? a.x : b.x; o.mins.y = a.y < b.y ? a.y : b.y; o.maxs.y = a.y > b.y ? a.y : b.y; }
extern "C" void m_irect_intersect(const Box<Int2<s32>>& a, const Box<Int2<s32>>& b, Box<Int2<s32>>& o) { o = intersect(a, b); }
extern "C" void r_irect_intersect(const Box<Int2<s32>>& a, const Box<Int2<s32>>& b, Box<Int2<s32>>& o) { o.mins.x = a.mins.x > b.mins.x ? a.mins.x : b.mins.x; o.maxs.x = a.maxs.x < b.maxs.x ? a.maxs.x : b.maxs.x; o.mins.y = a.mins.y > b.mins.y ? a.mins.y : b.mins.y; o.maxs.y = a.maxs.y < b.maxs.y ? a.maxs.y : b.maxs.y; }
extern "C" void m_irect_solid(const Box<Int2<s32>>& a, Box<Int2<s32>>& o) { o = makeSolid(a); }
extern "C" void r_irect_solid(const Box<Int2<s32>>& a, Box<Int2<s32>>& o) { o.mins.x = a.mins.x < a.maxs.x ? a.mins.x : a.maxs.x; o.maxs.x = a.mins.x > a.maxs.x ? a.mins.x : a.maxs.x; o.mins.y = a.mins.y < a.maxs.y ? a.mins.y : a.maxs.y; o.maxs.y = a.mins.y > a.maxs.y ? a.mins.y : a.maxs.y; }
extern "C" void m_irect_zero(Box<Int2<s32>>& o) { o = Box<Int2<s32>>::zero(); }
extern "C" void r_irect_zero(Box<Int2<s32>>& o) { o.mins.x = 0; o.mins.y = 0; o.maxs.x = 0; o.maxs.y = 0; }
extern "C" void m_irect_empty(Box<Int2<s32>>& o) { o = Box<Int2<s32>>::empty(); }
extern "C" void r_irect_empty(Box<Int2<s32>>& o) { o.mins.x = Limits<s32>::Max; o.maxs.x = Limits<s32>::Min; o.mins.y = Limits<s32>::Max; o.maxs.y = Limits<s32>::Min; }
extern "C" void m_irect_full(Box<Int2<s32>>& o) { o = Box<Int2<s32>>::full(); }
extern "C" void r_irect_full(Box<Int2<s32>>& o) { o.mins.x = Limits<s32>::Min; o.maxs.x = Limits<s32>::Max; o.mins.y = Limits<s32>::Min; o.maxs.y = Limits<s32>::Max; }
extern "C" void m_irect_point(const Int2<s32>& a, Box<Int2<s32>>& o) { o = Box<Int2<s32>>{a}; }
extern "C" void r_irect_point(const Int2<s32>& a, Box<Int2<s32>>& o) { o.mins.x = a.x; o.maxs.x = a.x; o.mins.y = a.y; o.maxs.y = a.y; }
extern "C" void m_irect_ctor(const Int2<s32>& a, const Int2<s32>& b, Box<Int2<s32>>& o) { o = Box<Int2<s32>>{a, b}; }
extern "C" void r_irect_ctor(const Int2<s32>& a, const Int2<s32>& b, Box<Int2<s32>>& o) { o.mins.x = a.x; o.maxs.x = b.x; o.mins.y = a.y; o.maxs.y = b.y; }
extern "C" void m_irect_fromSizeV(const Int2<s32>& a, const Int2<s32>& b, Box<Int2<s32>>& o) { o = Box<Int2<s32>>::fromSize(a, b); }
extern "C" void r_irect_fromSizeV(const Int2<s32>& a, const Int2<s32>& b, Box<Int2<s32>>& o) { o.mins.x = a.x; o.maxs.x = a.x + b.x; o.mins.y = a.y; o.maxs.y = a.y + b.y; }
extern "C" void m_irect_fromSize(s32 x, s32 y, s32 w, s32 h, Box<Int2<s32>>& o) { o = Box<Int2<s32>>::fromSize(x, y, w, h); }
extern "C" void r_irect_fromSize(s32 x, s32 y, s32 w, s32 h, Box<Int2<s32>>& o) { o.mins.x = x; o.mins.y = y; o.maxs.x = x + w; o.maxs.y = y + h; }
extern "C" void m_irect_topLeft(const Box<Int2<s32>>& a, Int2<s32>& o) { o = a.topLeft(); }
extern "C" void r_irect_topLeft(const Box<Int2<s32>>& a, Int2<s32>& o) { o.x = a.mins.x; o.y = a.maxs.y; }
extern "C" void m_irect_bottomRight(const Box<Int2<s32>>& a, Int2<s32>& o) { o = a.bottomRight(); }
extern "C" void r_irect_bottomRight(const Box<Int2<s32>>& a, Int2<s32>& o) { o.x = a.maxs.x; o.y = a.mins.y; }
extern "C" void m_m2x2_identity(Float2x2& o) { o = Float2x2::identity(); }
extern "C" void r_m2x2_identity(Float2x2& o) { o.col[0].x = 1; o.col[0].y = 0; o.col[1].x = 0; o.col[1].y = 1; }
extern "C" void m_m2x2_eq(const Float2x2& a, const Float2x2& b, bool& o) { o = a == b; }
extern "C" void r_m2x2_eq(const Float2x2& a, const Float2x2& b, bool& o) { o = a.col[0].x == b.col[0].x && a.col[0].y == b.col[0].y && a.col[1].x == b.col[1].x && a.col[1].y == b.col[1].y; }
extern "C" void m_m2x2_ne(const Float2x2& a, const Float2x2& b, bool& o) { o = a != b; }
extern "C" void r_m2x2_ne(const Float2x2& a, const Float2x2& b, bool& o) { o = a.col[0].x != b.col[0].x || a.col[0].y != b.col[0].y || a.col[1].x != b.col[1].x || a.col[1].y != b.col[1].y; }
extern "C" void m_m2x2_transposed(const Float2x2& a, Float2x2& o) { o = a.transposed(); }
extern "C" void r_m2x2_transposed(const Float2x2& a, Float2x2& o) { o.col[0].x = a.col[0].x; o.col[0].y = a.col[1].x; o.col[1].x = a.col[0].y; o.col[1].y = a.col[1].y; }
extern "C" void m_m2x2_mulv(const Float2x2& a, const Float2& v, Float2& o) { o = a * v; }
extern "C" void r_m2x2_mulv(const Float2x2& a, const Float2& v, Float2& o) { o.x = a.col[0].x * v.x + a.col[1].x * v.y; o.y = a.col[0].y * v.x + a.col[1].y * v.y; }
extern "C" void m_m2x2_mulm(const Float2x2& a, const Float2x2& b, Float2x2& o) { o = a * b; }
extern "C" void r_m2x2_mulm(const Float2x2& a, const Float2x2& b, Float2x2& o) { o.col[0].x = a.col[0].x * b.col[0].x + a.col[1].x * b.col[0].y; o.col[0].y = a.col[0].y * b.col[0].x + a.col[1].y * b.col[0].y; o.col[1].x = a.col[0].x * b.col[1].x + a.col[1].x * b.col[1].y; o.col[1].y = a.col[0].y * b.col[1].x + a.col[1].y * b.col[1].y; }
extern "C" void m_m2x2_mulm_self(Float2x2& a) { a = a * a; }
extern "C" void r_m2x2_mulm_self(Float2x2& a) { Float2x2 t;t.col[0].x = a.col[0].x * a.col[0].x + a.col[1].x * a.col[0].y; t.col[0].y = a.col[0].y * a.col[0].x + a.col[1].y * a.col[0].y; t.col[1].x = a.col[0].x * a.col[1].x + a.col[1].x * a.col[1].y; t.col[1].y = a.col[0].y * a.col[1].x + a.col[1].y * a.col[1].y;a.col[0].x = t.col[0].x; a.col[0].y = t.col[0].y; a.col[1].x = t.col[1].x; a.col[1].y = t.col[1].y; }
extern "C" void m_m2x2_col0(const Float2x2& a, Float2& o) { o = a[0]; }
extern "C" void r_m2x2_col0(const Float2x2& a, Float2& o) { o.x = a.col[0].x; o.y = a.col[0].y; }
extern "C" void m_m2x2_setcol0(Float2x2& a, const Float2& v) { a[0] = v; }
extern "C" void r_m2x2_setcol0(Float2x2& a, const Float2& v) { a.col[0].x = v.x; a.col[0].y = v.y; }
extern "C" void m_m2x2_col1(const Float2x2& a, Float2& o) { o = a[1]; }
extern "C" void r_m2x2_col1(const Float2x2& a, Float2& o) { o.x = a.col[1].x; o.y = a.col[1].y; }
extern "C" void m_m2x2_setcol1(Float2x2& a, const Float2& v) { a[1] = v; }
extern "C" void r_m2x2_setcol1(Float2x2& a, const Float2& v) { a.col[1].x = v.x; a.col[1].y = v.y; }
extern "C" void m_m2x2_ctor(const Float2& c0, const Float2& c1, Float2x2& o) { o = Float2x2{c0, c1}; }
extern "C" void r_m2x2_ctor(const Float2& c0, const Float2& c1, Float2x2& o) { o.col[0].x = c0.x; o.col[0].y = c0.y; o.col[1].x = c1.x; o.col[1].y = c1.y; }
extern "C" void m_m2x2_scale(const Float2& s, Float2x2& o) { o = Float2x2::makeScale(s); }
extern "C" void r_m2x2_scale(const Float2& s, Float2x2& o) { o.col[0].x = s.x; o.col[0].y = 0; o.col[1].x = 0; o.col[1].y = s.y; }
extern "C" void m_m3x3_identity(Float3x3& o) { o = Float3x3::identity(); }
extern "C" void r_m3x3_identity(Float3x3& o) { o.col[0].x = 1; o.col[0].y = 0; o.col[0].z = 0; o.col[1].x = 0; o.col[1].y = 1; o.col[1].z = 0; o.col[2].x = 0; o.col[2].y = 0; o.col[2].z = 1; }
extern "C" void m_m3x3_eq(const Float3x3& a, const Float3x3& b, bool& o) { o = a == b; }
extern "C" void r_m3x3_eq(const Float3x3& a, const Float3x3& b, bool& o) { o = a.col[0].x == b.col[0].x && a.col[0].y == b.col[0].y && a.col[0].z == b.col[0].z && a.col[1].x == b.col[1].x && a.col[1].y == b.col[1].y && a.col[1].z == b.col[1].z && a.col[2].x == b.col[2].x && a.col[2].y == b.col[2].y && a.col[2].z == b.col[2].z; }
extern "C" void m_m3x3_ne(const Float3x3& a, const Float3x3& b, bool& o) { o = a != b; }
extern "C" void r_m3x3_ne(const Float3x3& a, const Float3x3& b, bool& o) { o = a.col[0].x != b.col[0].x || a.col[0].y != b.col[0].y || a.col[0].z != b.col[0].z || a.col[1].x != b.col[1].x || a.col[1].y != b.col[1].y || a.col[1].z != b.col[1].z || a.col[2].x != b.col[2].x || a.col[2].y != b.col[2].y || a.col[2].z != b.col[2].z; }
extern "C" void m_m3x3_transposed(const Float3x3& a, Float3x3& o) { o = a.transposed(); }
extern "C" void r_m3x3_transposed(const Float3x3& a, Float3x3& o) { o.col[0].x = a.col[0].x; o.col[0].y = a.col[1].x; o.col[0].z = a.col[2].x; o.col[1].x = a.col[0].y; o.col[1].y = a.col[1].y; o.col[1].z = a.col[2].y; o.col[2].x = a.col[0].z; o.col[2].y = a.col[1].z; o.col[2].z = a.col[2].z; }
extern "C" void m_m3x3_mulv(const Float3x3& a, const Float3& v, Float3& o) { o = a * v; }
extern "C" void r_m3x3_mulv(const Float3x3& a, const Float3& v, Float3& o) { o.x = a.col[0].x * v.x + a.col[1].x * v.y + a.col[2].x * v.z; o.y = a.col[0].y * v.x + a.col[1].y * v.y + a.col[2].y * v.z; o.z = a.col[0].z * v.x + a.col[1].z * v.y + a.col[2].z * v.z; }
extern "C" void m_m3x3_mulm(const Float3x3& a, const Float3x3& b, Float3x3& o) { o = a * b; }
extern "C" void r_m3x3_mulm(const Float3x3& a, const Float3x3& b, Float3x3& o) { o.col[0].x = a.col[0].x * b.col[0].x + a.col[1].x * b.col[0].y + a.col[2].x * b.col[0].z; o.col[0].y = a.col[0].y * b.col[0].x + a.col[1].y * b.col[0].y + a.col[2].y * b.col[0].z; o.col[0].z = a.col[0].z * b.col[0].x + a.col[1].z * b.col[0].y + a.col[2].z * b.col[0].z; o.col[1].x = a.col[0].x * b.col[1].x + a.col[1].x * b.col[1].y + a.col[2].x * b.col[1].z; o.col[1].y = a.col[0].y * b.col[1].x + a.col[1].y * b.col[1].y + a.col[2].y * b.col[1].z; o.col[1].z = a.col[0].z * b.col[1].x + a.col[1].z * b.col[1].y + a.col[2].z * b.col[1].z; o.col[2].x = a.col[0].x * b.col[2].x + a.col[1].x * b.col[2].y + a.col[2].x * b.col[2].z; o.col[2].y = a.col[0].y * b.col[2].x + a.col[1].y * b.col[2].y + a.col[2].y * b.col[2].z; o.col[2].z = a.col[0].z * b.col[2].x + a.col[1].z * b.col[2].y + a.col[2].z * b.col[2].z; }
extern "C" void m_m3x3_mulm_self(Float3x3& a) { a = a * a; }
extern "C" void r_m3x3_mulm_self(Float3x3& a) { Float3x3 t;t.col[0].x = a.col[0].x * a.col[0].x + a.col[1].x * a.col[0].y + a.col[2].x * a.col[0].z; t.col[0].y = a.col[0].y * a.col[0].x + a.col[1].y * a.col[0].y + a.col[2].y * a.col[0].z; t.col[0].z = a.col[0].z * a.col[0].x + a.col[1].z * a.col[0].y + a.col[2].z * a.col[0].z; t.col[1].x = a.col[0].x * a.col[1].x + a.col[1].x * a.col[1].y + a.col[2].x * a.col[1].z; t.col[1].y = a.col[0].y * a.col[1].x + a.col[1].y * a.col[1].y + a.col[2].y * a.col[1].z; t.col[1].z = a.col[0].z * a.col[1].x + a.col[1].z * a.col[1].y + a.col[2].z * a.col[1].z; t.col[2].x = a.col[0].x * a.col[2].x + a.col[1].x * a.col[2].y + a.col[2].x * a.col[2].z; t.col[2].y = a.col[0].y * a.col[2].x + a.col[1].y * a.col[2].y + a.col[2].y * a.col[2].z; t.col[2].z = a.col[0].z * a.col[2].x + a.col[1].z * a.col[2].y + a.col[2].z * a.col[2].z;a.col[0].x = t.col[0].x; a.col[0].y = t.col[0].y; a.col[0].z = t.col[0].z; a.col[1].x = t.col[1].x; a.col[1].y = t.col[1].y; a.col[1].z = t.col[1].z; a.col[2].x = t.col[2].x; a.col[2].y = t.col[2].y; a.col[2].z = t.col[2].z; }
extern "C" void m_m3x3_col0(const Float3x3& a, Float3& o) { o = a[0]; }
extern "C" void r_m3x3_col0(const Float3x3& a, Float3& o) { o.x = a.col[0].x; o.y = a.col[0].y; o.z = a.col[0].z; }
extern "C" void m_m3x3_setcol0(Float3x3& a, const Float3& v) { a[0] = v; }
extern "C" void r_m3x3_setcol0(Float3x3& a, const Float3& v) { a.col[0].x = v.x; a.col[0].y = v.y; a.col[0].z = v.z; }
extern "C" void m_m3x3_col1(const Float3x3& a, Float3& o) { o = a[1]; }
extern "C" void r_m3x3_col1(const Float3x3& a, Float3& o) { o.x = a.col[1].x; o.y = a.col[1].y; o.z = a.col[1].z; }
extern "C" void m_m3x3_setcol1(Float3x3& a, const Float3& v) { a[1] = v; }
extern "C" void r_m3x3_setcol1(Float3x3& a, const Float3& v) { a.col[1].x = v.x; a.col[1].y = v.y; a.col[1].z = v.z; }
extern "C" void m_m3x3_col2(const Float3x3& a, Float3& o) { o = a[2]; }
extern "C" void r_m3x3_col2(const Float3x3& a, Float3& o) { o.x = a.col[2].x; o.y = a.col[2].y; o.z = a.col[2].z; }
extern "C" void m_m3x3_setcol2(Float3x3& a, const Float3& v) { a[2] = v; }
extern "C" void r_m3x3_setcol2(Float3x3& a, const Float3& v) { a.col[2].x = v.x; a.col[2].y = v.y; a.col[2].z = v.z; }
extern "C" void m_m3x3_ctor(const Float3& c0, const Float3& c1, const Float3& c2, Float3x3& o) { o = Float3x3{c0, c1, c2}; }
extern "C" void r_m3x3_ctor(const Float3& c0, const Float3& c1, const Float3& c2, Float3x3& o) { o.col[0].x = c0.x; o.col[0].y = c0.y; o.col[0].z = c0.z; o.col[1].x = c1.x; o.col[1].y = c1.y; o.col[1].z = c1.z; o.col[2].x = c2.x; o.col[2].y = c2.y; o.col[2].z = c2.z; }
extern "C" void m_m3x3_scale(const Float3& s, Float3x3& o) { o = Float3x3::makeScale(s); }
extern "C" void r_m3x3_scale(const Float3& s, Float3x3& o) { o.col[0].x = s.x; o.col[0].y = 0; o.col[0].z = 0; o.col[1].x = 0; o.col[1].y = s.y; o.col[1].z = 0; o.col[2].x = 0; o.col[2].y = 0; o.col[2].z = s.z; }
extern "C" void m_m3x4_identity(Float3x4& o) { o = Float3x4::identity(); }
extern "C" void r_m3x4_identity(Float3x4& o) { o.col[0].x = 1; o.col[0].y = 0; o.col[0].z = 0; o.col[1].x = 0; o.col[1].y = 1; o.col[1].z = 0; o.col[2].x = 0; o.col[2].y = 0; o.col[2].z = 1; o.col[3].x = 0; o.col[3].y = 0; o.col[3].z = 0; }
extern "C" void m_m3x4_eq(const Float3x4& a, const Float3x4& b, bool& o) { o = a == b; }
extern "C" void r_m3x4_eq(const Float3x4& a, const Float3x4& b, bool& o) { o = a.col[0].x == b.col[0].x && a.col[0].y == b.col[0].y && a.col[0].z == b.col[0].z && a.col[1].x == b.col[1].x && a.col[1].y == b.col[1].y && a.col[1].z == b.col[1].z && a.col[2].x == b.col[2].x && a.col[2].y == b.col[2].y && a.col[2].z == b.col[2].z && a.col[3].x == b.col[3].x && a.col[3].y == b.col[3].y && a.col[3].z == b.col[3].z; }
extern "C" void m_m3x4_ne(const Float3x4& a, const Float3x4& b, bool& o) { o = a != b; }
extern "C" void r_m3x4_ne(const Float3x4& a, const Float3x4& b, bool& o) { o = a.col[0].x != b.col[0].x || a.col[0].y != b.col[0].y || a.col[0].z != b.col[0].z || a.col[1].x != b.col[1].x || a.col[1].y != b.col[1].y || a.col[1].z != b.col[1].z || a.col[2].x != b.col[2].x || a.col[2].y != b.col[2].y || a.col[2].z != b.col[2].z || a.col[3].x != b.col[3].x || a.col[3].y != b.col[3].y || a.col[3].z != b.col[3].z; }
extern "C" void m_m3x4_mulm(const Float3x4& a, const Float3x4& b, Float3x4& o) { o = a * b; }
extern "C" void r_m3x4_mulm(const Float3x4& a, const Float3x4& b, Float3x4& o) { o.col[0].x = a.col[0].x * b.col[0].x + a.col[1].x * b.col[0].y + a.col[2].x * b.col[0].z + a.col[3].x * 0.f; o.col[0].y = a.col[0].y * b.col[0].x + a.col[1].y * b.col[0].y + a.col[2].y * b.col[0].z + a.col[3].y * 0.f; o.col[0].z = a.col[0].z * b.col[0].x + a.col[1].z * b.col[0].y + a.col[2].z * b.col[0].z + a.col[3].z * 0.f; o.col[1].x = a.col[0].x * b.col[1].x + a.col[1].x * b.col[1].y + a.col[2].x * b.col[1].z + a.col[3].x * 0.f; o.col[1].y = a.col[0].y * b.col[1].x + a.col[1].y * b.col[1].y + a.col[2].y * b.col[1].z + a.col[3].y * 0.f; o.col[1].z = a.col[0].z * b.col[1].x + a.col[1].z * b.col[1].y + a.col[2].z * b.col[1].z + a.col[3].z * 0.f; o.col[2].x = a.col[0].x * b.col[2].x + a.col[1].x * b.col[2].y + a.col[2].x * b.col[2].z + a.col[3].x * 0.f; o.col[2].y = a.col[0].y * b.col[2].x + a.col[1].y * b.col[2].y + a.col[2].y * b.col[2].z + a.col[3].y * 0.f; o.col[2].z = a.col[0].z * b.col[2].x + a.col[1].z * b.col[2].y + a.col[2].z * b.col[2].z + a.col[3].z * 0.f; o.col[3].x = a.col[0].x * b.col[3].x + a.col[1].x * b.col[3].y + a.col[2].x * b.col[3].z + a.col[3].x * 1.f; o.col[3].y = a.col[0].y * b.col[3].x + a.col[1].y * b.col[3].y + a.col[2].y * b.col[3].z + a.col[3].y * 1.f; o.col[3].z = a.col[0].z * b.col[3].x + a.col[1].z * b.col[3].y + a.col[2].z * b.col[3].z + a.col[3].z * 1.f; }
extern "C" void m_m3x4_mulm_self(Float3x4& a) { a = a * a; }
extern "C" void r_m3x4_mulm_self(Float3x4& a) { Float3x4 t;t.col[0].x = a.col[0].x * a.col[0].x + a.col[1].x * a.col[0].y + a.col[2].x * a.col[0].z + a.col[3].x * 0.f; t.col[0].y = a.col[0].y * a.col[0].x + a.col[1].y * a.col[0].y + a.col[2].y * a.col[0].z + a.col[3].y * 0.f; t.col[0].z = a.col[0].z * a.col[0].x + a.col[1].z * a.col[0].y + a.col[2].z * a.col[0].z + a.col[3].z * 0.f; t.col[1].x = a.col[0].x * a.col[1].x + a.col[1].x * a.col[1].y + a.col[2].x * a.col[1].z + a.col[3].x * 0.f; t.col[1].y = a.col[0].y * a.col[1].x + a.col[1].y * a.col[1].y + a.col[2].y * a.col[1].z + a.col[3].y * 0.f; t.col[1].z = a.col[0].z * a.col[1].x + a.col[1].z * a.col[1].y + a.col[2].z * a.col[1].z + a.col[3].z * 0.f; t.col[2].x = a.col[0].x * a.col[2].x + a.col[1].x * a.col[2].y + a.col[2].x * a.col[2].z + a.col[3].x * 0.f; t.col[2].y = a.col[0].y * a.col[2].x + a.col[1].y * a.col[2].y + a.col[2].y * a.col[2].z + a.col[3].y * 0.f; t.col[2].z = a.col[0].z * a.col[2].x + a.col[1].z * a.col[2].y + a.col[2].z * a.col[2].z + a.col[3].z * 0.f; t.col[3].x = a.col[0].x * a.col[3].x + a.col[1].x * a.col[3].y + a.col[2].x * a.col[3].z + a.col[3].x * 1.f; t.col[3].y = a.col[0].y * a.col[3].x + a.col[1].y * a.col[3].y + a.col[2].y * a.col[3].z + a.col[3].y * 1.f; t.col[3].z = a.col[0].z * a.col[3].x + a.col[1].z * a.col[3].y + a.col[2].z * a.col[3].z + a.col[3].z * 1.f;a.col[0].x = t.col[0].x; a.col[0].y = t.col[0].y; a.col[0].z = t.col[0].z; a.col[1].x = t.col[1].x; a.col[1].y = t.col[1].y; a.col[1].z = t.col[1].z; a.col[2].x = t.col[2].x; a.col[2].y = t.col[2].y; a.col[2].z = t.col[2].z; a.col[3].x = t.col[3].x; a.col[3].y = t.col[3].y; a.col[3].z = t.col[3].z; }
extern "C" void m_m3x4_col0(const Float3x4& a, Float3& o) { o = a[0]; }
extern "C" void r_m3x4_col0(const Float3x4& a, Float3& o) { o.x = a.col[0].x; o.y = a.col[0].y; o.z = a.col[0].z; }
extern "C" void m_m3x4_setcol0(Float3x4& a, const Float3& v) { a[0] = v; }
extern "C" void r_m3x4_setcol0(Float3x4& a, const Float3& v) { a.col[0].x = v.x; a.col[0].y = v.y; a.col[0].z = v.z; }
extern "C" void m_m3x4_col1(const Float3x4& a, Float3& o) { o = a[1]; }
extern "C" void r_m3x4_col1(const Float3x4& a, Float3& o) { o.x = a.col[1].x; o.y = a.col[1].y; o.z = a.col[1].z; }
extern "C" void m_m3x4_setcol1(Float3x4& a, const Float3& v) { a[1] = v; }
extern "C" void r_m3x4_setcol1(Float3x4& a, const Float3& v) { a.col[1].x = v.x; a.col[1].y = v.y; a.col[1].z = v.z; }
extern "C" void m_m3x4_col2(const Float3x4& a, Float3& o) { o = a[2]; }
extern "C" void r_m3x4_col2(const Float3x4& a, Float3& o) { o.x = a.col[2].x; o.y = a.col[2].y; o.z = a.col[2].z; }
extern "C" void m_m3x4_setcol2(Float3x4& a, const Float3& v) { a[2] = v; }
extern "C" void r_m3x4_setcol2(Float3x4& a, const Float3& v) { a.col[2].x = v.x; a.col[2].y = v.y; a.col[2].z = v.z; }
extern "C" void m_m3x4_col3(const Float3x4& a, Float3& o) { o = a[3]; }
extern "C" void r_m3x4_col3(const Float3x4& a, Float3& o) { o.x = a.col[3].x; o.y = a.col[3].y; o.z = a.col[3].z; }
extern "C" void m_m3x4_setcol3(Float3x4& a, const Float3& v) { a[3] = v; }
extern "C" void r_m3x4_setcol3(Float3x4& a, const Float3& v) { a.col[3].x = v.x; a.col[3].y = v.y; a.col[3].z = v.z; }
extern "C" void m_m3x4_ctor(const Float3& c0, const Float3& c1, const Float3& c2, const Float3& c3, Float3x4& o) { o = Float3x4{c0, c1, c2, c3}; }
extern "C" void r_m3x4_ctor(const Float3& c0, const Float3& c1, const Float3& c2, const Float3& c3, Float3x4& o) { o.col[0].x = c0.x; o.col[0].y = c0.y; o.col[0].z = c0.z; o.col[1].x = c1.x; o.col[1].y = c1.y; o.col[1].z = c1.z; o.col[2].x = c2.x; o.col[2].y = c2.y; o.col[2].z = c2.z; o.col[3].x = c3.x; o.col[3].y = c3.y; o.col[3].z = c3.z; }
extern "C" void m_m3x4_scale(const Float3& s, Float3x4& o) { o = Float3x4::makeScale(s); }
extern "C" void r_m3x4_scale(const Float3& s, Float3x4& o) { o.col[0].x = s.x; o.col[0].y = 0; o.col[0].z = 0; o.col[1].x = 0; o.col[1].y = s.y; o.col[1].z = 0; o.col[2].x = 0; o.col[2].y = 0; o.col[2].z = s.z; o.col[3].x = 0; o.col[3].y = 0; o.col[3].z = 0; }
extern "C" void m_m4x4_identity(Float4x4& o) { o = Float4x4::identity(); }
extern "C" void r_m4x4_identity(Float4x4& o) { o.col[0].x = 1; o.col[0].y = 0; o.col[0].z = 0; o.col[0].w = 0; o.col[1].x = 0; o.col[1].y = 1; o.col[1].z = 0; o.col[1].w = 0; o.col[2].x = 0; o.col[2].y = 0; o.col[2].z = 1; o.col[2].w = 0; o.col[3].x = 0; o.col[3].y = 0; o.col[3].z = 0; o.col[3].w = 1; }
extern "C" void m_m4x4_eq(const Float4x4& a, const Float4x4& b, bool& o) { o = a == b; }
extern "C" void r_m4x4_eq(const Float4x4& a, const Float4x4& b, bool& o) { o = a.col[0].x == b.col[0].x && a.col[0].y == b.col[0].y && a.col[0].z == b.col[0].z && a.col[0].w == b.col[0].w && a.col[1].x == b.col[1].x && a.col[1].y == b.col[1].y && a.col[1].z == b.col[1].z && a.col[1].w == b.col[1].w && a.col[2].x == b.col[2].x && a.col[2].y == b.col[2].y && a.col[2].z == b.col[2].z && a.col[2].w == b.col[2].w && a.col[3].x == b.col[3].x && a.col[3].y == b.col[3].y && a.col[3].z == b.col[3].z && a.col[3].w == b.col[3].w; }
extern "C" void m_m4x4_ne(const Float4x4& a, const Float4x4& b, bool& o) { o = a != b; }
extern "C" void r_m4x4_ne(const Float4x4& a, const Float4x4& b, bool& o) { o = a.col[0].x != b.col[0].x || a.col[0].y != b.col[0].y || a.col[0].z != b.col[0].z || a.col[0].w != b.col[0].w || a.col[1].x != b.col[1].x || a.col[1].y != b.col[1].y || a.col[1].z != b.col[1].z || a.col[1].w != b.col[1].w || a.col[2].x != b.col[2].x || a.col[2].y != b.col[2].y || a.col[2].z != b.col[2].z || a.col[2].w != b.col[2].w || a.col[3].x != b.col[3].x || a.col[3].y != b.col[3].y || a.col[3].z != b.col[3].z || a.col[3].w != b.col[3].w; }
extern "C" void m_m4x4_transposed(const Float4x4& a, Float4x4& o) { o = a.transposed(); }
extern "C" void r_m4x4_transposed(const Float4x4& a, Float4x4& o) { o.col[0].x = a.col[0].x; o.col[0].y = a.col[1].x; o.col[0].z = a.col[2].x; o.col[0].w = a.col[3].x; o.col[1].x = a.col[0].y; o.col[1].y = a.col[1].y; o.col[1].z = a.col[2].y; o.col[1].w = a.col[3].y; o.col[2].x = a.col[0].z; o.col[2].y = a.col[1].z; o.col[2].z = a.col[2].z; o.col[2].w = a.col[3].z; o.col[3].x = a.col[0].w; o.col[3].y = a.col[1].w; o.col[3].z = a.col[2].w; o.col[3].w = a.col[3].w; }
extern "C" void m_m4x4_mulv(const Float4x4& a, const Float4& v, Float4& o) { o = a * v; }
extern "C" void r_m4x4_mulv(const Float4x4& a, const Float4& v, Float4& o) { o.x = a.col[0].x * v.x + a.col[1].x * v.y + a.col[2].x * v.z + a.col[3].x * v.w; o.y = a.col[0].y * v.x + a.col[1].y * v.y + a.col[2].y * v.z + a.col[3].y * v.w; o.z = a.col[0].z * v.x + a.col[1].z * v.y + a.col[2].z * v.z + a.col[3].z * v.w; o.w = a.col[0].w * v.x + a.col[1].w * v.y + a.col[2].w * v.z + a.col[3].w * v.w; }
extern "C" void m_m4x4_mulm(const Float4x4& a, const Float4x4& b, Float4x4& o) { o = a * b; }
extern "C" void r_m4x4_mulm(const Float4x4& a, const Float4x4& b, Float4x4& o) { o.col[0].x = a.col[0].x * b.col[0].x + a.col[1].x * b.col[0].y + a.col[2].x * b.col[0].z + a.col[3].x * b.col[0].w; o.col[0].y = a.col[0].y * b.col[0].x + a.col[1].y * b.col[0].y + a.col[2].y * b.col[0].z + a.col[3].y * b.col[0].w; o.col[0].z = a.col[0].z * b.col[0].x + a.col[1].z * b.col[0].y + a.col[2].z * b.col[0].z + a.col[3].z * b.col[0].w; o.col[0].w = a.col[0].w * b.col[0].x + a.col[1].w * b.col[0].y + a.col[2].w * b.col[0].z + a.col[3].w * b.col[0].w; o.col[1].x = a.col[0].x * b.col[1].x + a.col[1].x * b.col[1].y + a.col[2].x * b.col[1].z + a.col[3].x * b.col[1].w; o.col[1].y = a.col[0].y * b.col[1].x + a.col[1].y * b.col[1].y + a.col[2].y * b.col[1].z + a.col[3].y * b.col[1].w; o.col[1].z = a.col[0].z * b.col[1].x + a.col[1].z * b.col[1].y + a.col[2].z * b.col[1].z + a.col[3].z * b.col[1].w; o.col[1].w = a.col[0].w * b.col[1].x + a.col[1].w * b.col[1].y + a.col[2].w * b.col[1].z + a.col[3].w * b.col[1].w; o.col[2].x = a.col[0].x * b.col[2].x + a.col[1].x * b.col[2].y + a.col[2].x * b.col[2].z + a.col[3].x * b.col[2].w; o.col[2].y = a.col[0].y * b.col[2].x + a.col[1].y * b.col[2].y + a.col[2].y * b.col[2].z + a.col[3].y * b.col[2].w; o.col[2].z = a.col[0].z * b.col[2].x + a.col[1].z * b.col[2].y + a.col[2].z * b.col[2].z + a.col[3].z * b.col[2].w; o.col[2].w = a.col[0].w * b.col[2].x + a.col[1].w * b.col[2].y + a.col[2].w * b.col[2].z + a.col[3].w * b.col[2].w; o.col[3].x = a.col[0].x * b.col[3].x + a.col[1].x * b.col[3].y + a.col[2].x * b.col[3].z + a.col[3].x * b.col[3].w; o.col[3].y = a.col[0].y * b.col[3].x + a.col[1].y * b.col[3].y + a.col[2].y * b.col[3].z + a.col[3].y * b.col[3].w; o.col[3].z = a.col[0].z * b.col[3].x + a.col[1].z * b.col[3].y + a.col[2].z * b.col[3].z + a.col[3].z * b.col[3].w; o.col[3].w = a.col[0].w * b.col[3].x + a.col[1].w * b.col[3].y + a.col[2].w * b.col[3].z + a.col[3].w * b.col[3].w; }
extern "C" void m_m4x4_mulm_self(Float4x4& a) { a = a * a; }
extern "C" void r_m4x4_mulm_self(Float4x4& a) { Float4x4 t;t.col[0].x = a.col[0].x * a.col[0].x + a.col[1].x * a.col[0].y + a.col[2].x * a.col[0].z + a.col[3].x * a.col[0].w; t.col[0].y = a.col[0].y * a.col[0].x + a.col[1].y * a.col[0].y + a.col[2].y * a.col[0].z + a.col[3].y * a.col[0].w; t.col[0].z = a.col[0].z * a.col[0].x + a.col[1].z * a.col[0].y + a.col[2].z * a.col[0].z + a.col[3].z * a.col[0].w; t.col[0].w = a.col[0].w * a.col[0].x + a.col[1].w * a.col[0].y + a.col[2].w * a.col[0].z + a.col[3].w * a.col[0].w; t.col[1].x = a.col[0].x * a.col[1].x + a.col[1].x * a.col[1].y + a.col[2].x * a.col[1].z + a.col[3].x * a.col[1].w; t.col[1].y = a.col[0].y * a.col[1].x + a.col[1].y * a.col[1].y + a.col[2].y * a.col[1].z + a.col[3].y * a.col[1].w; t.col[1].z = a.col[0].z * a.col[1].x + a.col[1].z * a.col[1].y + a.col[2].z * a.col[1].z + a.col[3].z * a.col[1].w; t.col[1].w = a.col[0].w * a.col[1].x + a.col[1].w * a.col[1].y + a.col[2].w * a.col[1].z + a.col[3].w * a.col[1].w; t.col[2].x = a.col[0].x * a.col[2].x + a.col[1].x * a.col[2].y + a.col[2].x * a.col[2].z + a.col[3].x * a.col[2].w; t.col[2].y = a.col[0].y * a.col[2].x + a.col[1].y * a.col[2].y + a.col[2].y * a.col[2].z + a.col[3].y * a.col[2].w; t.col[2].z = a.col[0].z * a.col[2].x + a.col[1].z * a.col[2].y + a.col[2].z * a.col[2].z + a.col[3].z * a.col[2].w; t.col[2].w = a.col[0].w * a.col[2].x + a.col[1].w * a.col[2].y + a.col[2].w * a.col[2].z + a.col[3].w * a.col[2].w; t.col[3].x = a.col[0].x * a.col[3].x + a.col[1].x * a.col[3].y + a.col[2].x * a.col[3].z + a.col[3].x * a.col[3].w; t.col[3].y = a.col[0].y * a.col[3].x + a.col[1].y * a.col[3].y + a.col[2].y * a.col[3].z + a.col[3].y * a.col[3].w; t.col[3].z = a.col[0].z * a.col[3].x + a.col[1].z * a.col[3].y + a.col[2].z * a.col[3].z + a.col[3].z * a.col[3].w; t.col[3].w = a.col[0].w * a.col[3].x + a.col[1].w * a.col[3].y + a.col[2].w * a.col[3].z + a.col[3].w * a.col[3].w;a.col[0].x = t.col[0].x; a.col[0].y = t.col[0].y; a.col[0].z = t.col[0].z; a.col[0].w = t.col[0].w; a.col[1].x = t.col[1].x; a.col[1].y = t.col[1].y; a.col[1].z = t.col[1].z; a.col[1].w = t.col[1].w; a.col[2].x = t.col[2].x; a.col[2].y = t.col[2].y; a.col[2].z = t.col[2].z; a.col[2].w = t.col[2].w; a.col[3].x = t.col[3].x; a.col[3].y = t.col[3].y; a.col[3].z = t.col[3].z; a.col[3].w = t.col[3].w; }
extern "C" void m_m4x4_col0(const Float4x4& a, Float4& o) { o = a[0]; }
extern "C" void r_m4x4_col0(const Float4x4& a, Float4& o) { o.x = a.col[0].x; o.y = a.col[0].y; o.z = a.col[0].z; o.w = a.col[0].w; }
extern "C" void m_m4x4_setcol0(Float4x4& a, const Float4& v) { a[0] = v; }
extern "C" void r_m4x4_setcol0(Float4x4& a, const Float4& v) { a.col[0].x = v.x; a.col[0].y = v.y; a.col[0].z = v.z; a.col[0].w = v.w; }
extern "C" void m_m4x4_col1(const Float4x4& a, Float4& o) { o = a[1]; }
extern "C" void r_m4x4_col1(const Float4x4& a, Float4& o) { o.x = a.col[1].x; o.y = a.col[1].y; o.z = a.col[1].z; o.w = a.col[1].w; }
extern "C" void m_m4x4_setcol1(Float4x4& a, const Float4& v) { a[1] = v; }
extern "C" void r_m4x4_setcol1(Float4x4& a, const Float4& v) { a.col[1].x = v.x; a.col[1].y = v.y; a.col[1].z = v.z; a.col[1].w = v.w; }
extern "C" void m_m4x4_col2(const Float4x4& a, Float4& o) { o = a[2]; }
extern "C" void r_m4x4_col2(const Float4x4& a, Float4& o) { o.x = a.col[2].x; o.y = a.col[2].y; o.z = a.col[2].z; o.w = a.col[2].w; }
extern "C" void m_m4x4_setcol2(Float4x4& a, const Float4& v) { a[2] = v; }
extern "C" void r_m4x4_setcol2(Float4x4& a, const Float4& v) { a.col[2].x = v.x; a.col[2].y = v.y; a.col[2].z = v.z; a.col[2].w = v.w; }
extern "C" void m_m4x4_col3(const Float4x4& a, Float4& o) { o = a[3]; }
extern "C" void r_m4x4_col3(const Float4x4& a, Float4& o) { o.x = a.col[3].x; o.y = a.col[3].y; o.z = a.col[3].z; o.w = a.col[3].w; }
extern "C" void m_m4x4_setcol3(Float4x4& a, const Float4& v) { a[3] = v; }
extern "C" void r_m4x4_setcol3(Float4x4& a, const Float4& v) { a.col[3].x = v.x; a.col[3].y = v.y; a.col[3].z = v.z; a.col[3].w = v.w; }
extern "C" void m_m4x4_ctor(const Float4& c0, const Float4& c1, const Float4& c2, const Float4& c3, Float4x4& o) { o = Float4x4{c0, c1, c2, c3}; }
extern "C" void r_m4x4_ctor(const Float4& c0, const Float4& c1, const Float4& c2, const Float4& c3, Float4x4& o) { o.col[0].x = c0.x; o.col[0].y = c0.y; o.col[0].z = c0.z; o.col[0].w = c0.w; o.col[1].x = c1.x; o.col[1].y = c1.y; o.col[1].z = c1.z; o.col[1].w = c1.w; o.col[2].x = c2.x; o.col[2].y = c2.y; o.col[2].z = c2.z; o.col[2].w = c2.w; o.col[3].x = c3.x; o.col[3].y = c3.y; o.col[3].z = c3.z; o.col[3].w = c3.w; }
extern "C" void m_m4x4_scale(const Float3& s, Float4x4& o) { o = Float4x4::makeScale(s); }
extern "C" void r_m4x4_scale(const Float3& s, Float4x4& o) { o.col[0].x = s.x; o.col[0].y = 0; o.col[0].z = 0; o.col[0].w = 0; o.col[1].x = 0; o.col[1].y = s.y; o.col[1].z = 0; o.col[1].w = 0; o.col[2].x = 0; o.col[2].y = 0; o.col[2].z = s.z; o.col[2].w = 0; o.col[3].x = 0; o.col[3].y = 0; o.col[3].z = 0; o.col[3].w = 1; }
extern "C" void m_m3x3_fromQuat(const Quaternion& q, Float3x3& o) { o = Float3x3::fromQuaternion(q); }
extern "C" void r_m3x3_fromQuat(const Quaternion& q, Float3x3& o) { o.col[0].x = 1 - 2 * (q.y * q.y + q.z * q.z); o.col[0].y = 2 * (q.x * q.y + q.z * q.w); o.col[0].z = 2 * (q.x * q.z - q.y * q.w); o.col[1].x = 2 * (q.x * q.y - q.z * q.w); o.col[1].y = 1 - 2 * (q.x * q.x + q.z * q.z); o.col[1].z = 2 * (q.y * q.z + q.x * q.w); o.col[2].x = 2 * (q.x * q.z + q.y * q.w); o.col[2].y = 2 * (q.y * q.z - q.x * q.w); o.col[2].z = 1 - 2 * (q.x * q.x + q.y * q.y); }
extern "C" void m_m3x3_makeRotation(const Float3& a, float t, Float3x3& o) { o = Float3x3::makeRotation(a, t); }
extern "C" void r_m3x3_makeRotation(const Float3& a, float t, Float3x3& o) { Quaternion q; float s = sinf(t / 2); q.x = s * a.x; q.y = s * a.y; q.z = s * a.z; q.w = cosf(t / 2); o.col[0].x = 1 - 2 * (q.y * q.y + q.z * q.z); o.col[0].y = 2 * (q.x * q.y + q.z * q.w); o.col[0].z = 2 * (q.x * q.z - q.y * q.w); o.col[1].x = 2 * (q.x * q.y - q.z * q.w); o.col[1].y = 1 - 2 * (q.x * q.x + q.z * q.z); o.col[1].z = 2 * (q.y * q.z + q.x * q.w); o.col[2].x = 2 * (q.x * q.z + q.y * q.w); o.col[2].y = 2 * (q.y * q.z - q.x * q.w); o.col[2].z = 1 - 2 * (q.x * q.x + q.y * q.y); }
extern "C" void m_m3x3_hasScale(const Float3x3& a, float t, bool& o) { o = a.hasScale(t); }
extern "C" void r_m3x3_hasScale(const Float3x3& a, float t, bool& o) { o = !(fabsf(1.f - (a.col[0].x * a.col[0].x + a.col[0].y * a.col[0].y + a.col[0].z * a.col[0].z)) < t && fabsf(1.f - (a.col[1].x * a.col[1].x + a.col[1].y * a.col[1].y + a.col[1].z * a.col[1].z)) < t && fabsf(1.f - (a.col[2].x * a.col[2].x + a.col[2].y * a.col[2].y + a.col[2].z * a.col[2].z)) < t); }
extern "C" void m_m3x4_fromQuat(const Quaternion& q, Float3x4& o) { o = Float3x4::fromQuaternion(q); }
extern "C" void r_m3x4_fromQuat(const Quaternion& q, Float3x4& o) { o.col[0].x = 1 - 2 * (q.y * q.y + q.z * q.z); o.col[0].y = 2 * (q.x * q.y + q.z * q.w); o.col[0].z = 2 * (q.x * q.z - q.y * q.w); o.col[1].x = 2 * (q.x * q.y - q.z * q.w); o.col[1].y = 1 - 2 * (q.x * q.x + q.z * q.z); o.col[1].z = 2 * (q.y * q.z + q.x * q.w); o.col[2].x = 2 * (q.x * q.z + q.y * q.w); o.col[2].y = 2 * (q.y * q.z - q.x * q.w); o.col[2].z = 1 - 2 * (q.x * q.x + q.y * q.y); o.col[3].x = 0; o.col[3].y = 0; o.col[3].z = 0; }
extern "C" void m_m3x4_makeRotation(const Float3& a, float t, Float3x4& o) { o = Float3x4::makeRotation(a, t); }
extern "C" void r_m3x4_makeRotation(const Float3& a, float t, Float3x4& o) { Quaternion q; float s = sinf(t / 2); q.x = s * a.x; q.y = s * a.y; q.z = s * a.z; q.w = cosf(t / 2); o.col[0].x = 1 - 2 * (q.y * q.y + q.z * q.z); o.col[0].y = 2 * (q.x * q.y + q.z * q.w); o.col[0].z = 2 * (q.x * q.z - q.y * q.w); o.col[1].x = 2 * (q.x * q.y - q.z * q.w); o.col[1].y = 1 - 2 * (q.x * q.x + q.z * q.z); o.col[1].z = 2 * (q.y * q.z + q.x * q.w); o.col[2].x = 2 * (q.x * q.z + q.y * q.w); o.col[2].y = 2 * (q.y * q.z - q.x * q.w); o.col[2].z = 1 - 2 * (q.x * q.x + q.y * q.y); o.col[3].x = 0; o.col[3].y = 0; o.col[3].z = 0; }
extern "C" void m_m3x4_fromQuatPos3(const Quaternion& q, const Float3& p, Float3x4& o) { o = Float3x4::fromQuaternion(q, p); }
extern "C" void r_m3x4_fromQuatPos3(const Quaternion& q, const Float3& p, Float3x4& o) { o.col[0].x = 1 - 2 * (q.y * q.y + q.z * q.z); o.col[0].y = 2 * (q.x * q.y + q.z * q.w); o.col[0].z = 2 * (q.x * q.z - q.y * q.w); o.col[1].x = 2 * (q.x * q.y - q.z * q.w); o.col[1].y = 1 - 2 * (q.x * q.x + q.z * q.z); o.col[1].z = 2 * (q.y * q.z + q.x * q.w); o.col[2].x = 2 * (q.x * q.z + q.y * q.w); o.col[2].y = 2 * (q.y * q.z - q.x * q.w); o.col[2].z = 1 - 2 * (q.x * q.x + q.y * q.y); o.col[3].x = p.x; o.col[3].y = p.y; o.col[3].z = p.z; }
extern "C" void m_m3x4_fromQuatPos(const QuatPos& qp, Float3x4& o) { o = Float3x4::fromQuatPos(qp); }
extern "C" void r_m3x4_fromQuatPos(const QuatPos& qp, Float3x4& o) { Quaternion q; q.x = qp.quat.x; q.y = qp.quat.y; q.z = qp.quat.z; q.w = qp.quat.w; Float3 p; p.x = qp.pos.x; p.y = qp.pos.y; p.z = qp.pos.z; o.col[0].x = 1 - 2 * (q.y * q.y + q.z * q.z); o.col[0].y = 2 * (q.x * q.y + q.z * q.w); o.col[0].z = 2 * (q.x * q.z - q.y * q.w); o.col[1].x = 2 * (q.x * q.y - q.z * q.w); o.col[1].y = 1 - 2 * (q.x * q.x + q.z * q.z); o.col[1].z = 2 * (q.y * q.z + q.x * q.w); o.col[2].x = 2 * (q.x * q.z + q.y * q.w); o.col[2].y = 2 * (q.y * q.z - q.x * q.w); o.col[2].z = 1 - 2 * (q.x * q.x + q.y * q.y); o.col[3].x = p.x; o.col[3].y = p.y; o.col[3].z = p.z; }
extern "C" void m_m3x4_translation(const Float3& p, Float3x4& o) { o = Float3x4::makeTranslation(p); }
extern "C" void r_m3x4_translation(const Float3& p, Float3x4& o) { o.col[0].x = 1; o.col[0].y = 0; o.col[0].z = 0; o.col[1].x = 0; o.col[1].y = 1; o.col[1].z = 0; o.col[2].x = 0; o.col[2].y = 0; o.col[2].z = 1; o.col[3].x = p.x; o.col[3].y = p.y; o.col[3].z = p.z; }
extern "C" void m_m3x4_from33(const Float3x3& m, const Float3& p, Float3x4& o) { o = Float3x4{m, p}; }
extern "C" void r_m3x4_from33(const Float3x3& m, const Float3& p, Float3x4& o) { o.col[0].x = m.col[0].x; o.col[0].y = m.col[0].y; o.col[0].z = m.col[0].z; o.col[1].x = m.col[1].x; o.col[1].y = m.col[1].y; o.col[1].z = m.col[1].z; o.col[2].x = m.col[2].x; o.col[2].y = m.col[2].y; o.col[2].z = m.col[2].z; o.col[3].x = p.x; o.col[3].y = p.y; o.col[3].z = p.z; }
extern "C" void m_m3x4_from33only(const Float3x3& m, Float3x4& o) { o = Float3x4{m}; }
extern "C" void r_m3x4_from33only(const Float3x3& m, Float3x4& o) { o.col[0].x = m.col[0].x; o.col[0].y = m.col[0].y; o.col[0].z = m.col[0].z; o.col[1].x = m.col[1].x; o.col[1].y = m.col[1].y; o.col[1].z = m.col[1].z; o.col[2].x = m.col[2].x; o.col[2].y = m.col[2].y; o.col[2].z = m.col[2].z; o.col[3].x = 0; o.col[3].y = 0; o.col[3].z = 0; }
extern "C" void m_m3x4_invertedOrtho(const Float3x4& a, Float3x4& o) { o = a.invertedOrtho(); }
extern "C" void r_m3x4_invertedOrtho(const Float3x4& a, Float3x4& o) { o.col[0].x = a.col[0].x; o.col[1].x = a.col[0].y; o.col[2].x = a.col[0].z; o.col[3].x = -(a.col[0].x * a.col[3].x + a.col[0].y * a.col[3].y + a.col[0].z * a.col[3].z); o.col[0].y = a.col[1].x; o.col[1].y = a.col[1].y; o.col[2].y = a.col[1].z; o.col[3].y = -(a.col[1].x * a.col[3].x + a.col[1].y * a.col[3].y + a.col[1].z * a.col[3].z); o.col[0].z = a.col[2].x; o.col[1].z = a.col[2].y; o.col[2].z = a.col[2].z; o.col[3].z = -(a.col[2].x * a.col[3].x + a.col[2].y * a.col[3].y + a.col[2].z * a.col[3].z); }
extern "C" void m_m3x4_hasScale(const Float3x4& a, float t, bool& o) { o = a.hasScale(t); }
extern "C" void r_m3x4_hasScale(const Float3x4& a, float t, bool& o) { o = !(fabsf(1.f - (a.col[0].x * a.col[0].x + a.col[0].y * a.col[0].y + a.col[0].z * a.col[0].z)) < t && fabsf(1.f - (a.col[1].x * a.col[1].x + a.col[1].y * a.col[1].y + a.col[1].z * a.col[1].z)) < t && fabsf(1.f - (a.col[2].x * a.col[2].x + a.col[2].y * a.col[2].y + a.col[2].z * a.col[2].z)) < t); }
extern "C" void m_m4x4_fromQuat(const Quaternion& q, Float4x4& o) { o = Float4x4::fromQuaternion(q); }
extern "C" void r_m4x4_fromQuat(const Quaternion& q, Float4x4& o) { o.col[0].x = 1 - 2 * (q.y * q.y + q.z * q.z); o.col[0].y = 2 * (q.x * q.y + q.z * q.w); o.col[0].z = 2 * (q.x * q.z - q.y * q.w); o.col[0].w = 0; o.col[1].x = 2 * (q.x * q.y - q.z * q.w); o.col[1].y = 1 - 2 * (q.x * q.x + q.z * q.z); o.col[1].z = 2 * (q.y * q.z + q.x * q.w); o.col[1].w = 0; o.col[2].x = 2 * (q.x * q.z + q.y * q.w); o.col[2].y = 2 * (q.y * q.z - q.x * q.w); o.col[2].z = 1 - 2 * (q.x * q.x + q.y * q.y); o.col[2].w = 0; o.col[3].x = 0; o.col[3].y = 0; o.col[3].z = 0; o.col[3].w = 1; }
extern "C" void m_m4x4_makeRotation(const Float3& a, float t, Float4x4& o) { o = Float4x4::makeRotation(a, t); }
extern "C" void r_m4x4_makeRotation(const Float3& a, float t, Float4x4& o) { Quaternion q; float s = sinf(t / 2); q.x = s * a.x; q.y = s * a.y; q.z = s * a.z; q.w = cosf(t / 2); o.col[0].x = 1 - 2 * (q.y * q.y + q.z * q.z); o.col[0].y = 2 * (q.x * q.y + q.z * q.w); o.col[0].z = 2 * (q.x * q.z - q.y * q.w); o.col[0].w = 0; o.col[1].x = 2 * (q.x * q.y - q.z * q.w); o.col[1].y = 1 - 2 * (q.x * q.x + q.z * q.z); o.col[1].z = 2 * (q.y * q.z + q.x * q.w); o.col[1].w = 0; o.col[2].x = 2 * (q.x * q.z + q.y * q.w); o.col[2].y = 2 * (q.y * q.z - q.x * q.w); o.col[2].z = 1 - 2 * (q.x * q.x + q.y * q.y); o.col[2].w = 0; o.col[3].x = 0; o.col[3].y = 0; o.col[3].z = 0; o.col[3].w = 1; }
extern "C" void m_m4x4_fromQuatPos3(const Quaternion& q, const Float3& p, Float4x4& o) { o = Float4x4::fromQuaternion(q, p); }
extern "C" void r_m4x4_fromQuatPos3(const Quaternion& q, const Float3& p, Float4x4& o) { o.col[0].x = 1 - 2 * (q.y * q.y + q.z * q.z); o.col[0].y = 2 * (q.x * q.y + q.z * q.w); o.col[0].z = 2 * (q.x * q.z - q.y * q.w); o.col[0].w = 0; o.col[1].x = 2 * (q.x * q.y - q.z * q.w); o.col[1].y = 1 - 2 * (q.x * q.x + q.z * q.z); o.col[1].z = 2 * (q.y * q.z + q.x * q.w); o.col[1].w = 0; o.col[2].x = 2 * (q.x * q.z + q.y * q.w); o.col[2].y = 2 * (q.y * q.z - q.x * q.w); o.col[2].z = 1 - 2 * (q.x * q.x + q.y * q.y); o.col[2].w = 0; o.col[3].x = p.x; o.col[3].y = p.y; o.col[3].z = p.z; o.col[3].w = 1; }
extern "C" void m_m4x4_fromQuatPos(const QuatPos& qp, Float4x4& o) { o = Float4x4::fromQuatPos(qp); }
extern "C" void r_m4x4_fromQuatPos(const QuatPos& qp, Float4x4& o) { Quaternion q; q.x = qp.quat.x; q.y = qp.quat.y; q.z = qp.quat.z; q.w = qp.quat.w; Float3 p; p.x = qp.pos.x; p.y = qp.pos.y; p.z = qp.pos.z; o.col[0].x = 1 - 2 * (q.y * q.y + q.z * q.z); o.col[0].y = 2 * (q.x * q.y + q.z * q.w); o.col[0].z = 2 * (q.x * q.z - q.y * q.w); o.col[0].w = 0; o.col[1].x = 2 * (q.x * q.y - q.z * q.w); o.col[1].y = 1 - 2 * (q.x * q.x + q.z * q.z); o.col[1].z = 2 * (q.y * q.z + q.x * q.w); o.col[1].w = 0; o.col[2].x = 2 * (q.x * q.z + q.y * q.w); o.col[2].y = 2 * (q.y * q.z - q.x * q.w); o.col[2].z = 1 - 2 * (q.x * q.x + q.y * q.y); o.col[2].w = 0; o.col[3].x = p.x; o.col[3].y = p.y; o.col[3].z = p.z; o.col[3].w = 1; }
extern "C" void m_m4x4_translation(const Float3& p, Float4x4& o) { o = Float4x4::makeTranslation(p); }
extern "C" void r_m4x4_translation(const Float3& p, Float4x4& o) { o.col[0].x = 1; o.col[0].y = 0; o.col[0].z = 0; o.col[0].w = 0; o.col[1].x = 0; o.col[1].y = 1; o.col[1].z = 0; o.col[1].w = 0; o.col[2].x = 0; o.col[2].y = 0; o.col[2].z = 1; o.col[2].w = 0; o.col[3].x = p.x; o.col[3].y = p.y; o.col[3].z = p.z; o.col[3].w = 1; }
extern "C" void m_m4x4_from33(const Float3x3& m, const Float3& p, Float4x4& o) { o = Float4x4{m, p}; }
extern "C" void r_m4x4_from33(const Float3x3& m, const Float3& p, Float4x4& o) { o.col[0].x = m.col[0].x; o.col[0].y = m.col[0].y; o.col[0].z = m.col[0].z; o.col[0].w = 0; o.col[1].x = m.col[1].x; o.col[1].y = m.col[1].y; o.col[1].z = m.col[1].z; o.col[1].w = 0; o.col[2].x = m.col[2].x; o.col[2].y = m.col[2].y; o.col[2].z = m.col[2].z; o.col[2].w = 0; o.col[3].x = p.x; o.col[3].y = p.y; o.col[3].z = p.z; o.col[3].w = 1; }
extern "C" void m_m4x4_from33only(const Float3x3& m, Float4x4& o) { o = Float4x4{m}; }
extern "C" void r_m4x4_from33only(const Float3x3& m, Float4x4& o) { o.col[0].x = m.col[0].x; o.col[0].y = m.col[0].y; o.col[0].z = m.col[0].z; o.col[0].w = 0; o.col[1].x = m.col[1].x; o.col[1].y = m.col[1].y; o.col[1].z = m.col[1].z; o.col[1].w = 0; o.col[2].x = m.col[2].x; o.col[2].y = m.col[2].y; o.col[2].z = m.col[2].z; o.col[2].w = 0; o.col[3].x = 0; o.col[3].y = 0; o.col[3].z = 0; o.col[3].w = 1; }
extern "C" void m_m4x4_invertedOrtho(const Float4x4& a, Float4x4& o) { Float4x4 t = a; t.col[0].w = 0; t.col[1].w = 0; t.col[2].w = 0; t.col[3].w = 1; o = t.invertedOrtho(); }
extern "C" void r_m4x4_invertedOrtho(const Float4x4& a, Float4x4& o) { o.col[0].x = a.col[0].x; o.col[1].x = a.col[0].y; o.col[2].x = a.col[0].z; o.col[3].x = -(a.col[0].x * a.col[3].x + a.col[0].y * a.col[3].y + a.col[0].z * a.col[3].z); o.col[0].y = a.col[1].x; o.col[1].y = a.col[1].y; o.col[2].y = a.col[1].z; o.col[3].y = -(a.col[1].x * a.col[3].x + a.col[1].y * a.col[3].y + a.col[1].z * a.col[3].z); o.col[0].z = a.col[2].x; o.col[1].z = a.col[2].y; o.col[2].z = a.col[2].z; o.col[3].z = -(a.col[2].x * a.col[3].x + a.col[2].y * a.col[3].y + a.col[2].z * a.col[3].z); o.col[0].w = 0; o.col[1].w = 0; o.col[2].w = 0; o.col[3].w = 1; }
extern "C" void m_m2x2_complex(const Float2& c, Float2x2& o) { o = Float2x2::fromComplex(c); }
extern "C" void r_m2x2_complex(const Float2& c, Float2x2& o) { o.col[0].x = c.x; o.col[0].y = c.y; o.col[1].x = -c.y; o.col[1].y = c.x; }
extern "C" void m_m2x2_rotation(float t, Float2x2& o) { o = Float2x2::makeRotation(t); }
extern "C" void r_m2x2_rotation(float t, Float2x2& o) { o.col[0].x = cosf(t); o.col[0].y = sinf(t); o.col[1].x = -sinf(t); o.col[1].y = cosf(t); }
extern "C" void m_m3x4_mulv3(const Float3x4& a, const Float3& v, Float3& o) { o = a * v; }
extern "C" void r_m3x4_mulv3(const Float3x4& a, const Float3& v, Float3& o) { o.x = a.col[0].x * v.x + a.col[1].x * v.y + a.col[2].x * v.z + a.col[3].x; o.y = a.col[0].y * v.x + a.col[1].y * v.y + a.col[2].y * v.z + a.col[3].y; o.z = a.col[0].z * v.x + a.col[1].z * v.y + a.col[2].z * v.z + a.col[3].z; }
extern "C" void m_m3x4_mulv4(const Float3x4& a, const Float4& v, Float4& o) { o = a * v; }
extern "C" void r_m3x4_mulv4(const Float3x4& a, const Float4& v, Float4& o) { o.x = a.col[0].x * v.x + a.col[1].x * v.y + a.col[2].x * v.z + a.col[3].x * v.w; o.y = a.col[0].y * v.x + a.col[1].y * v.y + a.col[2].y * v.z + a.col[3].y * v.w; o.z = a.col[0].z * v.x + a.col[1].z * v.y + a.col[2].z * v.z + a.col[3].z * v.w; o.w = v.w; }
extern "C" void m_m3x4_mul_4x4(const Float3x4& a, const Float4x4& b, Float4x4& o) { o = a * b; }
extern "C" void r_m3x4_mul_4x4(const Float3x4& a, const Float4x4& b, Float4x4& o) { o.col[0].x = a.col[0].x * b.col[0].x + a.col[1].x * b.col[0].y + a.col[2].x * b.col[0].z + a.col[3].x * b.col[0].w; o.col[0].y = a.col[0].y * b.col[0].x + a.col[1].y * b.col[0].y + a.col[2].y * b.col[0].z + a.col[3].y * b.col[0].w; o.col[0].z = a.col[0].z * b.col[0].x + a.col[1].z * b.col[0].y + a.col[2].z * b.col[0].z + a.col[3].z * b.col[0].w; o.col[0].w = 0.f * b.col[0].x + 0.f * b.col[0].y + 0.f * b.col[0].z + 1.f * b.col[0].w; o.col[1].x = a.col[0].x * b.col[1].x + a.col[1].x * b.col[1].y + a.col[2].x * b.col[1].z + a.col[3].x * b.col[1].w; o.col[1].y = a.col[0].y * b.col[1].x + a.col[1].y * b.col[1].y + a.col[2].y * b.col[1].z + a.col[3].y * b.col[1].w; o.col[1].z = a.col[0].z * b.col[1].x + a.col[1].z * b.col[1].y + a.col[2].z * b.col[1].z + a.col[3].z * b.col[1].w; o.col[1].w = 0.f * b.col[1].x + 0.f * b.col[1].y + 0.f * b.col[1].z + 1.f * b.col[1].w; o.col[2].x = a.col[0].x * b.col[2].x + a.col[1].x * b.col[2].y + a.col[2].x * b.col[2].z + a.col[3].x * b.col[2].w; o.col[2].y = a.col[0].y * b.col[2].x + a.col[1].y * b.col[2].y + a.col[2].y * b.col[2].z + a.col[3].y * b.col[2].w; o.col[2].z = a.col[0].z * b.col[2].x + a.col[1].z * b.col[2].y + a.col[2].z * b.col[2].z + a.col[3].z * b.col[2].w; o.col[2].w = 0.f * b.col[2].x + 0.f * b.col[2].y + 0.f * b.col[2].z + 1.f * b.col[2].w; o.col[3].x = a.col[0].x * b.col[3].x + a.col[1].x * b.col[3].y + a.col[2].x * b.col[3].z + a.col[3].x * b.col[3].w; o.col[3].y = a.col[0].y * b.col[3].x + a.col[1].y * b.col[3].y + a.col[2].y * b.col[3].z + a.col[3].y * b.col[3].w; o.col[3].z = a.col[0].z * b.col[3].x + a.col[1].z * b.col[3].y + a.col[2].z * b.col[3].z + a.col[3].z * b.col[3].w; o.col[3].w = 0.f * b.col[3].x + 0.f * b.col[3].y + 0.f * b.col[3].z + 1.f * b.col[3].w; }
extern "C" void m_m4x4_mul_3x4(const Float4x4& a, const Float3x4& b, Float4x4& o) { o = a * b; }
extern "C" void r_m4x4_mul_3x4(const Float4x4& a, const Float3x4& b, Float4x4& o) { o.col[0].x = a.col[0].x * b.col[0].x + a.col[1].x * b.col[0].y + a.col[2].x * b.col[0].z + a.col[3].x * 0.f; o.col[0].y = a.col[0].y * b.col[0].x + a.col[1].y * b.col[0].y + a.col[2].y * b.col[0].z + a.col[3].y * 0.f; o.col[0].z = a.col[0].z * b.col[0].x + a.col[1].z * b.col[0].y + a.col[2].z * b.col[0].z + a.col[3].z * 0.f; o.col[0].w = a.col[0].w * b.col[0].x + a.col[1].w * b.col[0].y + a.col[2].w * b.col[0].z + a.col[3].w * 0.f; o.col[1].x = a.col[0].x * b.col[1].x + a.col[1].x * b.col[1].y + a.col[2].x * b.col[1].z + a.col[3].x * 0.f; o.col[1].y = a.col[0].y * b.col[1].x + a.col[1].y * b.col[1].y + a.col[2].y * b.col[1].z + a.col[3].y * 0.f; o.col[1].z = a.col[0].z * b.col[1].x + a.col[1].z * b.col[1].y + a.col[2].z * b.col[1].z + a.col[3].z * 0.f; o.col[1].w = a.col[0].w * b.col[1].x + a.col[1].w * b.col[1].y + a.col[2].w * b.col[1].z + a.col[3].w * 0.f; o.col[2].x = a.col[0].x * b.col[2].x + a.col[1].x * b.col[2].y + a.col[2].x * b.col[2].z + a.col[3].x * 0.f; o.col[2].y = a.col[0].y * b.col[2].x + a.col[1].y * b.col[2].y + a.col[2].y * b.col[2].z + a.col[3].y * 0.f; o.col[2].z = a.col[0].z * b.col[2].x + a.col[1].z * b.col[2].y + a.col[2].z * b.col[2].z + a.col[3].z * 0.f; o.col[2].w = a.col[0].w * b.col[2].x + a.col[1].w * b.col[2].y + a.col[2].w * b.col[2].z + a.col[3].w * 0.f; o.col[3].x = a.col[0].x * b.col[3].x + a.col[1].x * b.col[3].y + a.col[2].x * b.col[3].z + a.col[3].x * 1.f; o.col[3].y = a.col[0].y * b.col[3].x + a.col[1].y * b.col[3].y + a.col[2].y * b.col[3].z + a.col[3].y * 1.f; o.col[3].z = a.col[0].z * b.col[3].x + a.col[1].z * b.col[3].y + a.col[2].z * b.col[3].z + a.col[3].z * 1.f; o.col[3].w = a.col[0].w * b.col[3].x + a.col[1].w * b.col[3].y + a.col[2].w * b.col[3].z + a.col[3].w * 1.f; }
extern "C" void m_m3x4_as33(const Float3x4& a, Float3x3& o) { o = a.asFloat3x3(); }
extern "C" void r_m3x4_as33(const Float3x4& a, Float3x3& o) { o.col[0].x = a.col[0].x; o.col[0].y = a.col[0].y; o.col[0].z = a.col[0].z; o.col[1].x = a.col[1].x; o.col[1].y = a.col[1].y; o.col[1].z = a.col[1].z; o.col[2].x = a.col[2].x; o.col[2].y = a.col[2].y; o.col[2].z = a.col[2].z; }
extern "C" void m_m3x4_to44(const Float3x4& a, Float4x4& o) { o = a.toFloat4x4(); }
extern "C" void r_m3x4_to44(const Float3x4& a, Float4x4& o) { o.col[0].x = a.col[0].x; o.col[0].y = a.col[0].y; o.col[0].z = a.col[0].z; o.col[0].w = 0.f; o.col[1].x = a.col[1].x; o.col[1].y = a.col[1].y; o.col[1].z = a.col[1].z; o.col[1].w = 0.f; o.col[2].x = a.col[2].x; o.col[2].y = a.col[2].y; o.col[2].z = a.col[2].z; o.col[2].w = 0.f; o.col[3].x = a.col[3].x; o.col[3].y = a.col[3].y; o.col[3].z = a.col[3].z; o.col[3].w = 1.f; }
extern "C" void m_m4x4_to33(const Float4x4& a, Float3x3& o) { o = a.toFloat3x3(); }
extern "C" void r_m4x4_to33(const Float4x4& a, Float3x3& o) { o.col[0].x = a.col[0].x; o.col[0].y = a.col[0].y; o.col[0].z = a.col[0].z; o.col[1].x = a.col[1].x; o.col[1].y = a.col[1].y; o.col[1].z = a.col[1].z; o.col[2].x = a.col[2].x; o.col[2].y = a.col[2].y; o.col[2].z = a.col[2].z; }
extern "C" void m_m4x4_to34(const Float4x4& a, Float3x4& o) { o = a.toFloat3x4(); }
extern "C" void r_m4x4_to34(const Float4x4& a, Float3x4& o) { o.col[0].x = a.col[0].x; o.col[0].y = a.col[0].y; o.col[0].z = a.col[0].z; o.col[1].x = a.col[1].x; o.col[1].y = a.col[1].y; o.col[1].z = a.col[1].z; o.col[2].x = a.col[2].x; o.col[2].y = a.col[2].y; o.col[2].z = a.col[2].z; o.col[3].x = a.col[3].x; o.col[3].y = a.col[3].y; o.col[3].z = a.col[3].z; }
extern "C" void m_m4x4_projection(const Rect& f, float n, float z, Float4x4& o) { o = Float4x4::makeProjection(f, n, z); }
extern "C" void r_m4x4_projection(const Rect& f, float n, float z, Float4x4& o) { for (int c = 0; c < 4; c++) { o.col[c].x = 0; o.col[c].y = 0; o.col[c].z = 0; o.col[c].w = 0; } o.col[0].x = 2 / (f.maxs.x - f.mins.x); o.col[1].y = 2 / (f.maxs.y - f.mins.y); o.col[2].x = (f.maxs.x + f.mins.x) / (f.maxs.x - f.mins.x); o.col[2].y = (f.maxs.y + f.mins.y) / (f.maxs.y - f.mins.y); o.col[2].z = -(z + n) / (z - n); o.col[2].w = -1; o.col[3].z = -(2 * z * n) / (z - n); }
extern "C" void m_m4x4_ortho(const Rect& f, float n, float z, Float4x4& o) { o = Float4x4::makeOrtho(f, n, z); }
extern "C" void r_m4x4_ortho(const Rect& f, float n, float z, Float4x4& o) { for (int c = 0; c < 4; c++) { o.col[c].x = 0; o.col[c].y = 0; o.col[c].z = 0; o.col[c].w = 0; } o.col[0].x = 2 / (f.maxs.x - f.mins.x); o.col[1].y = 2 / (f.maxs.y - f.mins.y); o.col[2].z = -2 / (z - n); o.col[3].x = -(f.maxs.x + f.mins.x) / (f.maxs.x - f.mins.x); o.col[3].y = -(f.maxs.y + f.mins.y) / (f.maxs.y - f.mins.y); o.col[3].z = -(z + n) / (z - n); o.col[3].w = 1; }
extern "C" void m_m4x4_lookAt(const Float3& d, Float4x4& o) { o = lookAt(d); }
extern "C" void r_m4x4_lookAt(const Float3& d, Float4x4& o) { float l = sqrtf(d.x * d.x + d.y * d.y + d.z * d.z); float fx = d.x / l, fy = d.y / l, fz = d.z / l; float k = sqrtf(fx * fx + fy * fy); float rx = fy / k, ry = -fx / k; for (int c = 0; c < 4; c++) { o.col[c].x = 0; o.col[c].y = 0; o.col[c].z = 0; o.col[c].w = 0; } o.col[0].x = rx; o.col[1].x = ry; o.col[0].y = ry * fz; o.col[1].y = -rx * fz; o.col[2].y = rx * fy - ry * fx; o.col[0].z = -fx; o.col[1].z = -fy; o.col[2].z = -fz; o.col[3].w = 1; }
extern "C" void m_q_mul(const Quaternion& a, const Quaternion& b, Quaternion& o) { o = a * b; }
extern "C" void r_q_mul(const Quaternion& a, const Quaternion& b, Quaternion& o) { o.x = a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y; o.y = a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x; o.z = a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w; o.w = a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z; }
extern "C" void m_q_mul_self(Quaternion& a) { a = a * a; }
extern "C" void r_q_mul_self(Quaternion& a) { Quaternion o; o.x = a.w * a.x + a.x * a.w + a.y * a.z - a.z * a.y; o.y = a.w * a.y - a.x * a.z + a.y * a.w + a.z * a.x; o.z = a.w * a.z + a.x * a.y - a.y * a.x + a.z * a.w; o.w = a.w * a.w - a.x * a.x - a.y * a.y - a.z * a.z; a.x = o.x; a.y = o.y; a.z = o.z; a.w = o.w; }
extern "C" void m_q_rot(const Quaternion& q, const Float3& v, Float3& o) { o = q * v; }
extern "C" void r_q_rot(const Quaternion& q, const Float3& v, Float3& o) { float tx = 2 * (q.y * v.z - q.z * v.y), ty = 2 * (q.z * v.x - q.x * v.z), tz = 2 * (q.x * v.y - q.y * v.x); o.x = v.x + q.w * tx + (q.y * tz - q.z * ty); o.y = v.y + q.w * ty + (q.z * tx - q.x * tz); o.z = v.z + q.w * tz + (q.x * ty - q.y * tx); }
extern "C" void m_q_rotUnitX(const Quaternion& q, Float3& o) { o = q.rotateUnitX(); }
extern "C" void r_q_rotUnitX(const Quaternion& q, Float3& o) { o.x = 1 - 2 * (q.y * q.y + q.z * q.z); o.y = 2 * (q.x * q.y + q.z * q.w); o.z = 2 * (q.x * q.z - q.y * q.w); }
extern "C" void m_q_rotUnitY(const Quaternion& q, Float3& o) { o = q.rotateUnitY(); }
extern "C" void r_q_rotUnitY(const Quaternion& q, Float3& o) { o.x = 2 * (q.x * q.y - q.z * q.w); o.y = 1 - 2 * (q.x * q.x + q.z * q.z); o.z = 2 * (q.y * q.z + q.x * q.w); }
extern "C" void m_q_rotUnitZ(const Quaternion& q, Float3& o) { o = q.rotateUnitZ(); }
extern "C" void r_q_rotUnitZ(const Quaternion& q, Float3& o) { o.x = 2 * (q.x * q.z + q.y * q.w); o.y = 2 * (q.y * q.z - q.x * q.w); o.z = 1 - 2 * (q.x * q.x + q.y * q.y); }
extern "C" void m_q_inverted(const Quaternion& a, Quaternion& o) { o = a.inverted(); }
extern "C" void r_q_inverted(const Quaternion& a, Quaternion& o) { o.x = -a.x; o.y = -a.y; o.z = -a.z; o.w = a.w; }
extern "C" void m_q_neg(const Quaternion& a, Quaternion& o) { o = -a; }
extern "C" void r_q_neg(const Quaternion& a, Quaternion& o) { o.x = -a.x; o.y = -a.y; o.z = -a.z; o.w = -a.w; }
extern "C" void m_q_identity(Quaternion& o) { o = Quaternion::identity(); }
extern "C" void r_q_identity(Quaternion& o) { o.x = 0; o.y = 0; o.z = 0; o.w = 1; }
extern "C" void m_q_ctor(float x, float y, float z, float w, Quaternion& o) { o = Quaternion{x, y, z, w}; }
extern "C" void r_q_ctor(float x, float y, float z, float w, Quaternion& o) { o.x = x; o.y = y; o.z = z; o.w = w; }
extern "C" void m_q_ctor3(const Float3& v, float w, Quaternion& o) { o = Quaternion{v, w}; }
extern "C" void r_q_ctor3(const Float3& v, float w, Quaternion& o) { o.x = v.x; o.y = v.y; o.z = v.z; o.w = w; }
extern "C" void m_q_normalized(const Quaternion& a, Quaternion& o) { o = a.normalized(); }
extern "C" void r_q_normalized(const Quaternion& a, Quaternion& o) { float l = sqrtf(a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w); o.x = a.x / l; o.y = a.y / l; o.z = a.z / l; o.w = a.w / l; }
extern "C" void m_q_axisAngle(const Float3& a, float t, Quaternion& o) { o = Quaternion::fromAxisAngle(a, t); }
extern "C" void r_q_axisAngle(const Float3& a, float t, Quaternion& o) { float s = sinf(t / 2); o.x = s * a.x; o.y = s * a.y; o.z = s * a.z; o.w = cosf(t / 2); }
extern "C" void m_q_negIfCloser(const Quaternion& a, const Quaternion& b, Quaternion& o) { o = a.negatedIfCloserTo(b); }
extern "C" void r_q_negIfCloser(const Quaternion& a, const Quaternion& b, Quaternion& o) { float d = a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; float s = d > 0 ? 1.f : -1.f; o.x = s * a.x; o.y = s * a.y; o.z = s * a.z; o.w = s * a.w; }
extern "C" void m_q_mix(const Quaternion& a, const Quaternion& b, float f, Quaternion& o) { o = mix(a, b, f); }
extern "C" void r_q_mix(const Quaternion& a, const Quaternion& b, float f, Quaternion& o) { float d = a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; float s = d > 0 ? 1.f : -1.f; float x = s * a.x * (1 - f) + b.x * f, y = s * a.y * (1 - f) + b.y * f, z = s * a.z * (1 - f) + b.z * f, w = s * a.w * (1 - f) + b.w * f; float l = sqrtf(x * x + y * y + z * z + w * w); o.x = x / l; o.y = y / l; o.z = z / l; o.w = w / l; }
extern "C" void m_q_unitVectors(const Float3& a, const Float3& b, Quaternion& o) { o = Quaternion::fromUnitVectors(a, b); }
extern "C" void r_q_unitVectors(const Float3& a, const Float3& b, Quaternion& o) { float w = a.x * b.x + a.y * b.y + a.z * b.z + 1; float x, y, z; if (w < 1e-6f) { w = 0; if (fabsf(a.x) < 0.9f) { x = 0; y = a.z; z = -a.y; } else { x = -a.z; y = 0; z = a.x; } } else { x = a.y * b.z - a.z * b.y; y = a.z * b.x - a.x * b.z; z = a.x * b.y - a.y * b.x; } float l = sqrtf(x * x + y * y + z * z + w * w); o.x = x / l; o.y = y / l; o.z = z / l; o.w = w / l; }
extern "C" void m_q_fromOrtho33(const Float3x3& m, Quaternion& o) { o = Quaternion::fromOrtho(m); }
extern "C" void r_q_fromOrtho33(const Float3x3& m, Quaternion& o) { float t, d, s; if ((t = 1.f + m.col[0].x + m.col[1].y + m.col[2].z) >= 0.5f) { d = sqrtf(t) * 0.5f; o.x = (m.col[1].z - m.col[2].y) / (4 * d); o.y = (m.col[2].x - m.col[0].z) / (4 * d); o.z = (m.col[0].y - m.col[1].x) / (4 * d); o.w = d; } else if ((t = 1.f + m.col[0].x - m.col[1].y - m.col[2].z) >= 0.5f) { float k = m.col[1].z - m.col[2].y; s = k >= 0 ? 0.5f : -0.5f; d = sqrtf(t) * s; o.x = d; o.y = (m.col[1].x + m.col[0].y) / (4 * d); o.z = (m.col[2].x + m.col[0].z) / (4 * d); o.w = k / (4 * d); } else if ((t = 1.f - m.col[0].x + m.col[1].y - m.col[2].z) >= 0.5f) { float k = m.col[2].x - m.col[0].z; s = k >= 0 ? 0.5f : -0.5f; d = sqrtf(t) * s; o.x = (m.col[1].x + m.col[0].y) / (4 * d); o.y = d; o.z = (m.col[2].y + m.col[1].z) / (4 * d); o.w = k / (4 * d); } else if ((t = 1.f - m.col[0].x - m.col[1].y + m.col[2].z) >= 0.5f) { float k = m.col[0].y - m.col[1].x; s = k >= 0 ? 0.5f : -0.5f; d = sqrtf(t) * s; o.x = (m.col[2].x + m.col[0].z) / (4 * d); o.y = (m.col[2].y + m.col[1].z) / (4 * d); o.z = d; o.w = k / (4 * d); } else { o.x = 0; o.y = 0; o.z = 0; o.w = 1; } }
extern "C" void m_q_fromOrtho44(const Float4x4& m, Quaternion& o) { o = Quaternion::fromOrtho(m); }
extern "C" void r_q_fromOrtho44(const Float4x4& m, Quaternion& o) { float t, d, s; if ((t = 1.f + m.col[0].x + m.col[1].y + m.col[2].z) >= 0.5f) { d = sqrtf(t) * 0.5f; o.x = (m.col[1].z - m.col[2].y) / (4 * d); o.y = (m.col[2].x - m.col[0].z) / (4 * d); o.z = (m.col[0].y - m.col[1].x) / (4 * d); o.w = d; } else if ((t = 1.f + m.col[0].x - m.col[1].y - m.col[2].z) >= 0.5f) { float k = m.col[1].z - m.col[2].y; s = k >= 0 ? 0.5f : -0.5f; d = sqrtf(t) * s; o.x = d; o.y = (m.col[1].x + m.col[0].y) / (4 * d); o.z = (m.col[2].x + m.col[0].z) / (4 * d); o.w = k / (4 * d); } else if ((t = 1.f - m.col[0].x + m.col[1].y - m.col[2].z) >= 0.5f) { float k = m.col[2].x - m.col[0].z; s = k >= 0 ? 0.5f : -0.5f; d = sqrtf(t) * s; o.x = (m.col[1].x + m.col[0].y) / (4 * d); o.y = d; o.z = (m.col[2].y + m.col[1].z) / (4 * d); o.w = k / (4 * d); } else if ((t = 1.f - m.col[0].x - m.col[1].y + m.col[2].z) >= 0.5f) { float k = m.col[0].y - m.col[1].x; s = k >= 0 ? 0.5f : -0.5f; d = sqrtf(t) * s; o.x = (m.col[2].x + m.col[0].z) / (4 * d); o.y = (m.col[2].y + m.col[1].z) / (4 * d); o.z = d; o.w = k / (4 * d); } else { o.x = 0; o.y = 0; o.z = 0; o.w = 1; } }
extern "C" void m_qp_mulv(const QuatPos& a, const Float3& v, Float3& o) { o = a * v; }
extern "C" void r_qp_mulv(const QuatPos& a, const Float3& v, Float3& o) { float tx = 2 * (a.quat.y * v.z - a.quat.z * v.y), ty = 2 * (a.quat.z * v.x - a.quat.x * v.z), tz = 2 * (a.quat.x * v.y - a.quat.y * v.x); float rx = v.x + a.quat.w * tx + (a.quat.y * tz - a.quat.z * ty), ry = v.y + a.quat.w * ty + (a.quat.z * tx - a.quat.x * tz), rz = v.z + a.quat.w * tz + (a.quat.x * ty - a.quat.y * tx); o.x = rx + a.pos.x; o.y = ry + a.pos.y; o.z = rz + a.pos.z; }
extern "C" void m_qp_mul(const QuatPos& a, const QuatPos& b, QuatPos& o) { o = a * b; }
extern "C" void r_qp_mul(const QuatPos& a, const QuatPos& b, QuatPos& o) { o.quat.x = a.quat.w * b.quat.x + a.quat.x * b.quat.w + a.quat.y * b.quat.z - a.quat.z * b.quat.y; o.quat.y = a.quat.w * b.quat.y - a.quat.x * b.quat.z + a.quat.y * b.quat.w + a.quat.z * b.quat.x; o.quat.z = a.quat.w * b.quat.z + a.quat.x * b.quat.y - a.quat.y * b.quat.x + a.quat.z * b.quat.w; o.quat.w = a.quat.w * b.quat.w - a.quat.x * b.quat.x - a.quat.y * b.quat.y - a.quat.z * b.quat.z;float tx = 2 * (a.quat.y * b.pos.z - a.quat.z * b.pos.y), ty = 2 * (a.quat.z * b.pos.x - a.quat.x * b.pos.z), tz = 2 * (a.quat.x * b.pos.y - a.quat.y * b.pos.x); float rx = b.pos.x + a.quat.w * tx + (a.quat.y * tz - a.quat.z * ty), ry = b.pos.y + a.quat.w * ty + (a.quat.z * tx - a.quat.x * tz), rz = b.pos.z + a.quat.w * tz + (a.quat.x * ty - a.quat.y * tx); o.pos.x = rx + a.pos.x; o.pos.y = ry + a.pos.y; o.pos.z = rz + a.pos.z; }
extern "C" void m_qp_mulq(const QuatPos& a, const Quaternion& b, QuatPos& o) { o = a * b; }
extern "C" void r_qp_mulq(const QuatPos& a, const Quaternion& b, QuatPos& o) { o.quat.x = a.quat.w * b.x + a.quat.x * b.w + a.quat.y * b.z - a.quat.z * b.y; o.quat.y = a.quat.w * b.y - a.quat.x * b.z + a.quat.y * b.w + a.quat.z * b.x; o.quat.z = a.quat.w * b.z + a.quat.x * b.y - a.quat.y * b.x + a.quat.z * b.w; o.quat.w = a.quat.w * b.w - a.quat.x * b.x - a.quat.y * b.y - a.quat.z * b.z;o.pos.x = a.pos.x; o.pos.y = a.pos.y; o.pos.z = a.pos.z; }
extern "C" void m_qp_qmul(const Quaternion& a, const QuatPos& b, QuatPos& o) { o = a * b; }
extern "C" void r_qp_qmul(const Quaternion& a, const QuatPos& b, QuatPos& o) { o.quat.x = a.w * b.quat.x + a.x * b.quat.w + a.y * b.quat.z - a.z * b.quat.y; o.quat.y = a.w * b.quat.y - a.x * b.quat.z + a.y * b.quat.w + a.z * b.quat.x; o.quat.z = a.w * b.quat.z + a.x * b.quat.y - a.y * b.quat.x + a.z * b.quat.w; o.quat.w = a.w * b.quat.w - a.x * b.quat.x - a.y * b.quat.y - a.z * b.quat.z;float tx = 2 * (a.y * b.pos.z - a.z * b.pos.y), ty = 2 * (a.z * b.pos.x - a.x * b.pos.z), tz = 2 * (a.x * b.pos.y - a.y * b.pos.x); float rx = b.pos.x + a.w * tx + (a.y * tz - a.z * ty), ry = b.pos.y + a.w * ty + (a.z * tx - a.x * tz), rz = b.pos.z + a.w * tz + (a.x * ty - a.y * tx); o.pos.x = rx; o.pos.y = ry; o.pos.z = rz; }
extern "C" void m_qp_inverted(const QuatPos& a, QuatPos& o) { o = a.inverted(); }
extern "C" void r_qp_inverted(const QuatPos& a, QuatPos& o) { Quaternion i; i.x = -a.quat.x; i.y = -a.quat.y; i.z = -a.quat.z; i.w = a.quat.w; float nx = -a.pos.x, ny = -a.pos.y, nz = -a.pos.z; float tx = 2 * (i.y * nz - i.z * ny), ty = 2 * (i.z * nx - i.x * nz), tz = 2 * (i.x * ny - i.y * nx); float rx = nx + i.w * tx + (i.y * tz - i.z * ty), ry = ny + i.w * ty + (i.z * tx - i.x * tz), rz = nz + i.w * tz + (i.x * ty - i.y * tx); o.quat.x = i.x; o.quat.y = i.y; o.quat.z = i.z; o.quat.w = i.w; o.pos.x = rx; o.pos.y = ry; o.pos.z = rz; }
extern "C" void m_qp_identity(QuatPos& o) { o = QuatPos::identity(); }
extern "C" void r_qp_identity(QuatPos& o) { o.quat.x = 0; o.quat.y = 0; o.quat.z = 0; o.quat.w = 1; o.pos.x = 0; o.pos.y = 0; o.pos.z = 0; }
extern "C" void m_qp_translation(const Float3& p, QuatPos& o) { o = QuatPos::makeTranslation(p); }
extern "C" void r_qp_translation(const Float3& p, QuatPos& o) { o.quat.x = 0; o.quat.y = 0; o.quat.z = 0; o.quat.w = 1; o.pos.x = p.x; o.pos.y = p.y; o.pos.z = p.z; }
extern "C" void m_qp_rotation(const Float3& a, float t, QuatPos& o) { o = QuatPos::makeRotation(a, t); }
extern "C" void r_qp_rotation(const Float3& a, float t, QuatPos& o) { float s = sinf(t / 2); o.quat.x = s * a.x; o.quat.y = s * a.y; o.quat.z = s * a.z; o.quat.w = cosf(t / 2); o.pos.x = 0; o.pos.y = 0; o.pos.z = 0; }
extern "C" void m_qp_fromOrtho3x4(const Float3x4& m, QuatPos& o) { o = QuatPos::fromOrtho(m); }
extern "C" void r_qp_fromOrtho3x4(const Float3x4& m, QuatPos& o) { float t, d, s; if ((t = 1.f + m.col[0].x + m.col[1].y + m.col[2].z) >= 0.5f) { d = sqrtf(t) * 0.5f; o.quat.x = (m.col[1].z - m.col[2].y) / (4 * d); o.quat.y = (m.col[2].x - m.col[0].z) / (4 * d); o.quat.z = (m.col[0].y - m.col[1].x) / (4 * d); o.quat.w = d; } else if ((t = 1.f + m.col[0].x - m.col[1].y - m.col[2].z) >= 0.5f) { float k = m.col[1].z - m.col[2].y; s = k >= 0 ? 0.5f : -0.5f; d = sqrtf(t) * s; o.quat.x = d; o.quat.y = (m.col[1].x + m.col[0].y) / (4 * d); o.quat.z = (m.col[2].x + m.col[0].z) / (4 * d); o.quat.w = k / (4 * d); } else if ((t = 1.f - m.col[0].x + m.col[1].y - m.col[2].z) >= 0.5f) { float k = m.col[2].x - m.col[0].z; s = k >= 0 ? 0.5f : -0.5f; d = sqrtf(t) * s; o.quat.x = (m.col[1].x + m.col[0].y) / (4 * d); o.quat.y = d; o.quat.z = (m.col[2].y + m.col[1].z) / (4 * d); o.quat.w = k / (4 * d); } else if ((t = 1.f - m.col[0].x - m.col[1].y + m.col[2].z) >= 0.5f) { float k = m.col[0].y - m.col[1].x; s = k >= 0 ? 0.5f : -0.5f; d = sqrtf(t) * s; o.quat.x = (m.col[2].x + m.col[0].z) / (4 * d); o.quat.y = (m.col[2].y + m.col[1].z) / (4 * d); o.quat.z = d; o.quat.w = k / (4 * d); } else { o.quat.x = 0; o.quat.y = 0; o.quat.z = 0; o.quat.w = 1; } o.pos.x = m.col[3].x; o.pos.y = m.col[3].y; o.pos.z = m.col[3].z; }
extern "C" void m_qp_fromOrtho4x4(const Float4x4& m, QuatPos& o) { o = QuatPos::fromOrtho(m); }
extern "C" void r_qp_fromOrtho4x4(const Float4x4& m, QuatPos& o) { float t, d, s; if ((t = 1.f + m.col[0].x + m.col[1].y + m.col[2].z) >= 0.5f) { d = sqrtf(t) * 0.5f; o.quat.x = (m.col[1].z - m.col[2].y) / (4 * d); o.quat.y = (m.col[2].x - m.col[0].z) / (4 * d); o.quat.z = (m.col[0].y - m.col[1].x) / (4 * d); o.quat.w = d; } else if ((t = 1.f + m.col[0].x - m.col[1].y - m.col[2].z) >= 0.5f) { float k = m.col[1].z - m.col[2].y; s = k >= 0 ? 0.5f : -0.5f; d = sqrtf(t) * s; o.quat.x = d; o.quat.y = (m.col[1].x + m.col[0].y) / (4 * d); o.quat.z = (m.col[2].x + m.col[0].z) / (4 * d); o.quat.w = k / (4 * d); } else if ((t = 1.f - m.col[0].x + m.col[1].y - m.col[2].z) >= 0.5f) { float k = m.col[2].x - m.col[0].z; s = k >= 0 ? 0.5f : -0.5f; d = sqrtf(t) * s; o.quat.x = (m.col[1].x + m.col[0].y) / (4 * d); o.quat.y = d; o.quat.z = (m.col[2].y + m.col[1].z) / (4 * d); o.quat.w = k / (4 * d); } else if ((t = 1.f - m.col[0].x - m.col[1].y + m.col[2].z) >= 0.5f) { float k = m.col[0].y - m.col[1].x; s = k >= 0 ? 0.5f : -0.5f; d = sqrtf(t) * s; o.quat.x = (m.col[2].x + m.col[0].z) / (4 * d); o.quat.y = (m.col[2].y + m.col[1].z) / (4 * d); o.quat.z = d; o.quat.w = k / (4 * d); } else { o.quat.x = 0; o.quat.y = 0; o.quat.z = 0; o.quat.w = 1; } o.pos.x = m.col[3].x; o.pos.y = m.col[3].y; o.pos.z = m.col[3].z; }
extern "C" void m_qp_mix(const QuatPos& a0, const QuatPos& b0, float f, QuatPos& o) { o = mix(a0, b0, f); }
extern "C" void r_qp_mix(const QuatPos& a0, const QuatPos& b0, float f, QuatPos& o) { float d = a0.quat.x * b0.quat.x + a0.quat.y * b0.quat.y + a0.quat.z * b0.quat.z + a0.quat.w * b0.quat.w; float s = d > 0 ? 1.f : -1.f; float x = s * a0.quat.x * (1 - f) + b0.quat.x * f, y = s * a0.quat.y * (1 - f) + b0.quat.y * f, z = s * a0.quat.z * (1 - f) + b0.quat.z * f, w = s * a0.quat.w * (1 - f) + b0.quat.w * f; float l = sqrtf(x * x + y * y + z * z + w * w); o.quat.x = x / l; o.quat.y = y / l; o.quat.z = z / l; o.quat.w = w / l; o.pos.x = a0.pos.x * (1 - f) + b0.pos.x * f; o.pos.y = a0.pos.y * (1 - f) + b0.pos.y * f; o.pos.z = a0.pos.z * (1 - f) + b0.pos.z * f; }
extern "C" void m_qps_mix(const QuatPosScale& a0, const QuatPosScale& b0, float f, QuatPosScale& o) { o = mix(a0, b0, f); }
extern "C" void r_qps_mix(const QuatPosScale& a0, const QuatPosScale& b0, float f, QuatPosScale& o) { float d = a0.quat.x * b0.quat.x + a0.quat.y * b0.quat.y + a0.quat.z * b0.quat.z + a0.quat.w * b0.quat.w; float s = d > 0 ? 1.f : -1.f; float x = s * a0.quat.x * (1 - f) + b0.quat.x * f, y = s * a0.quat.y * (1 - f) + b0.quat.y * f, z = s * a0.quat.z * (1 - f) + b0.quat.z * f, w = s * a0.quat.w * (1 - f) + b0.quat.w * f; float l = sqrtf(x * x + y * y + z * z + w * w); o.quat.x = x / l; o.quat.y = y / l; o.quat.z = z / l; o.quat.w = w / l; o.pos.x = a0.pos.x * (1 - f) + b0.pos.x * f; o.pos.y = a0.pos.y * (1 - f) + b0.pos.y * f; o.pos.z = a0.pos.z * (1 - f) + b0.pos.z * f; o.scale.x = a0.scale.x * (1 - f) + b0.scale.x * f; o.scale.y = a0.scale.y * (1 - f) + b0.scale.y * f; o.scale.z = a0.scale.z * (1 - f) + b0.scale.z * f; }
extern "C" void m_qps_mulv(const QuatPosScale& a, const Float3& v, Float3& o) { o = a * v; }
extern "C" void r_qps_mulv(const QuatPosScale& a, const Float3& v, Float3& o) { float sx = v.x * a.scale.x, sy = v.y * a.scale.y, sz = v.z * a.scale.z; float tx = 2 * (a.quat.y * sz - a.quat.z * sy), ty = 2 * (a.quat.z * sx - a.quat.x * sz), tz = 2 * (a.quat.x * sy - a.quat.y * sx); float rx = sx + a.quat.w * tx + (a.quat.y * tz - a.quat.z * ty), ry = sy + a.quat.w * ty + (a.quat.z * tx - a.quat.x * tz), rz = sz + a.quat.w * tz + (a.quat.x * ty - a.quat.y * tx); o.x = rx + a.pos.x; o.y = ry + a.pos.y; o.z = rz + a.pos.z; }
extern "C" void m_qps_mul(const QuatPos& a, const QuatPosScale& b, QuatPosScale& o) { o = a * b; }
extern "C" void r_qps_mul(const QuatPos& a, const QuatPosScale& b, QuatPosScale& o) { o.quat.x = a.quat.w * b.quat.x + a.quat.x * b.quat.w + a.quat.y * b.quat.z - a.quat.z * b.quat.y; o.quat.y = a.quat.w * b.quat.y - a.quat.x * b.quat.z + a.quat.y * b.quat.w + a.quat.z * b.quat.x; o.quat.z = a.quat.w * b.quat.z + a.quat.x * b.quat.y - a.quat.y * b.quat.x + a.quat.z * b.quat.w; o.quat.w = a.quat.w * b.quat.w - a.quat.x * b.quat.x - a.quat.y * b.quat.y - a.quat.z * b.quat.z;float tx = 2 * (a.quat.y * b.pos.z - a.quat.z * b.pos.y), ty = 2 * (a.quat.z * b.pos.x - a.quat.x * b.pos.z), tz = 2 * (a.quat.x * b.pos.y - a.quat.y * b.pos.x); float rx = b.pos.x + a.quat.w * tx + (a.quat.y * tz - a.quat.z * ty), ry = b.pos.y + a.quat.w * ty + (a.quat.z * tx - a.quat.x * tz), rz = b.pos.z + a.quat.w * tz + (a.quat.x * ty - a.quat.y * tx); o.pos.x = rx + a.pos.x; o.pos.y = ry + a.pos.y; o.pos.z = rz + a.pos.z; o.scale.x = b.scale.x; o.scale.y = b.scale.y; o.scale.z = b.scale.z; }
extern "C" void m_qps_identity(QuatPosScale& o) { o = QuatPosScale::identity(); }
extern "C" void r_qps_identity(QuatPosScale& o) { o.quat.x = 0; o.quat.y = 0; o.quat.z = 0; o.quat.w = 1; o.pos.x = 0; o.pos.y = 0; o.pos.z = 0; o.scale.x = 1; o.scale.y = 1; o.scale.z = 1; }
extern "C" void m_qps_translation(const Float3& p, QuatPosScale& o) { o = QuatPosScale::makeTranslation(p); }
extern "C" void r_qps_translation(const Float3& p, QuatPosScale& o) { o.quat.x = 0; o.quat.y = 0; o.quat.z = 0; o.quat.w = 1; o.pos.x = p.x; o.pos.y = p.y; o.pos.z = p.z; o.scale.x = 1; o.scale.y = 1; o.scale.z = 1; }
extern "C" void m_qps_scale(const Float3& p, QuatPosScale& o) { o = QuatPosScale::makeScale(p); }
extern "C" void r_qps_scale(const Float3& p, QuatPosScale& o) { o.quat.x = 0; o.quat.y = 0; o.quat.z = 0; o.quat.w = 1; o.pos.x = 0; o.pos.y = 0; o.pos.z = 0; o.scale.x = p.x; o.scale.y = p.y; o.scale.z = p.z; }
extern "C" void m_qps_ctor(const QuatPos& a, const Float3& s, QuatPosScale& o) { o = QuatPosScale{a, s}; }
extern "C" void r_qps_ctor(const QuatPos& a, const Float3& s, QuatPosScale& o) { o.quat.x = a.quat.x; o.quat.y = a.quat.y; o.quat.z = a.quat.z; o.quat.w = a.quat.w;o.pos.x = a.pos.x; o.scale.x = s.x; o.pos.y = a.pos.y; o.scale.y = s.y; o.pos.z = a.pos.z; o.scale.z = s.z; }
extern "C" void m_qps_to3x4(const QuatPosScale& a, Float3x4& o) { o = a.toFloat3x4(); }
extern "C" void r_qps_to3x4(const QuatPosScale& a, Float3x4& o) { Quaternion q; q.x = a.quat.x; q.y = a.quat.y; q.z = a.quat.z; q.w = a.quat.w; o.col[0].x = (1 - 2 * (q.y * q.y + q.z * q.z)) * a.scale.x; o.col[0].y = (2 * (q.x * q.y + q.z * q.w)) * a.scale.x; o.col[0].z = (2 * (q.x * q.z - q.y * q.w)) * a.scale.x; o.col[1].x = (2 * (q.x * q.y - q.z * q.w)) * a.scale.y; o.col[1].y = (1 - 2 * (q.x * q.x + q.z * q.z)) * a.scale.y; o.col[1].z = (2 * (q.y * q.z + q.x * q.w)) * a.scale.y; o.col[2].x = (2 * (q.x * q.z + q.y * q.w)) * a.scale.z; o.col[2].y = (2 * (q.y * q.z - q.x * q.w)) * a.scale.z; o.col[2].z = (1 - 2 * (q.x * q.x + q.y * q.y)) * a.scale.z; o.col[3].x = a.pos.x; o.col[3].y = a.pos.y; o.col[3].z = a.pos.z; }
extern "C" void m_qps_to4x4(const QuatPosScale& a, Float4x4& o) { o = a.toFloat4x4(); }
extern "C" void r_qps_to4x4(const QuatPosScale& a, Float4x4& o) { Quaternion q; q.x = a.quat.x; q.y = a.quat.y; q.z = a.quat.z; q.w = a.quat.w; o.col[0].x = (1 - 2 * (q.y * q.y + q.z * q.z)) * a.scale.x; o.col[0].y = (2 * (q.x * q.y + q.z * q.w)) * a.scale.x; o.col[0].z = (2 * (q.x * q.z - q.y * q.w)) * a.scale.x; o.col[0].w = 0; o.col[1].x = (2 * (q.x * q.y - q.z * q.w)) * a.scale.y; o.col[1].y = (1 - 2 * (q.x * q.x + q.z * q.z)) * a.scale.y; o.col[1].z = (2 * (q.y * q.z + q.x * q.w)) * a.scale.y; o.col[1].w = 0; o.col[2].x = (2 * (q.x * q.z + q.y * q.w)) * a.scale.z; o.col[2].y = (2 * (q.y * q.z - q.x * q.w)) * a.scale.z; o.col[2].z = (1 - 2 * (q.x * q.x + q.y * q.y)) * a.scale.z; o.col[2].w = 0; o.col[3].x = a.pos.x; o.col[3].y = a.pos.y; o.col[3].z = a.pos.z; o.col[3].w = 1; }
extern "C" void m_sp_identity(ScalePos2& o) { o = ScalePos2::identity(); }
extern "C" void r_sp_identity(ScalePos2& o) { o.scale.x = 1; o.scale.y = 1; o.pos.x = 0; o.pos.y = 0; }
extern "C" void m_sp_scale(const Float2& s, ScalePos2& o) { o = ScalePos2::makeScale(s); }
extern "C" void r_sp_scale(const Float2& s, ScalePos2& o) { o.scale.x = s.x; o.scale.y = s.y; o.pos.x = 0; o.pos.y = 0; }
extern "C" void m_sp_translation(const Float2& p, ScalePos2& o) { o = ScalePos2::makeTranslation(p); }
extern "C" void r_sp_translation(const Float2& p, ScalePos2& o) { o.scale.x = 1; o.scale.y = 1; o.pos.x = p.x; o.pos.y = p.y; }
extern "C" void m_sp_mapToRect(const Rect& r, ScalePos2& o) { o = ScalePos2::mapToRect(r); }
extern "C" void r_sp_mapToRect(const Rect& r, ScalePos2& o) { o.scale.x = r.maxs.x - r.mins.x; o.scale.y = r.maxs.y - r.mins.y; o.pos.x = r.mins.x; o.pos.y = r.mins.y; }
extern "C" void m_sp_mul(const ScalePos2& a, const ScalePos2& b, ScalePos2& o) { o = a * b; }
extern "C" void r_sp_mul(const ScalePos2& a, const ScalePos2& b, ScalePos2& o) { o.scale.x = a.scale.x * b.scale.x; o.pos.x = a.scale.x * b.pos.x + a.pos.x; o.scale.y = a.scale.y * b.scale.y; o.pos.y = a.scale.y * b.pos.y + a.pos.y; }
extern "C" void m_sp_mulv(const ScalePos2& a, const Float2& b, Float2& o) { o = a * b; }
extern "C" void r_sp_mulv(const ScalePos2& a, const Float2& b, Float2& o) { o.x = a.scale.x * b.x + a.pos.x; o.y = a.scale.y * b.y + a.pos.y; }
extern "C" void m_sp_mulr(const ScalePos2& a, const Rect& b, Rect& o) { o = a * b; }
extern "C" void r_sp_mulr(const ScalePos2& a, const Rect& b, Rect& o) { o.mins.x = a.scale.x * b.mins.x + a.pos.x; o.mins.y = a.scale.y * b.mins.y + a.pos.y; o.maxs.x = a.scale.x * b.maxs.x + a.pos.x; o.maxs.y = a.scale.y * b.maxs.y + a.pos.y; }
extern "C" void m_sp_inverted(const ScalePos2& a, ScalePos2& o) { o = a.inverted(); }
extern "C" void r_sp_inverted(const ScalePos2& a, ScalePos2& o) { o.scale.x = 1 / a.scale.x; o.pos.x = -a.pos.x / a.scale.x; o.scale.y = 1 / a.scale.y; o.pos.y = -a.pos.y / a.scale.y; }
extern "C" void m_s_square(float a, float& o) { o = square(a); }
extern "C" void r_s_square(float a, float& o) { o = a * a; }
extern "C" void m_s_squared(double a, double& o) { o = square(a); }
extern "C" void r_s_squared(double a, double& o) { o = a * a; }
extern "C" void m_s_approach(float a, float b, float s, float& o) { o = approach(a, b, s); }
extern "C" void r_s_approach(float a, float b, float s, float& o) { if (a <= b) { o = a + s < b ? a + s : b; } else { o = a - s > b ? a - s : b; } }
extern "C" void m_s_roundDown(float a, float s, float& o) { o = roundDown(a, s); }
extern "C" void r_s_roundDown(float a, float s, float& o) { o = floorf(a / s) * s; }
extern "C" void m_s_roundUp(float a, float s, float& o) { o = roundUp(a, s); }
extern "C" void r_s_roundUp(float a, float s, float& o) { o = ceilf(a / s) * s; }
extern "C" void m_s_roundNearest(float a, float s, float& o) { o = roundNearest(a, s); }
extern "C" void r_s_roundNearest(float a, float s, float& o) { o = fastRound(a / s) * s; }
extern "C" void m_s_roundInt(float a, s32& o) { o = fastRoundInt(a); }
extern "C" void r_s_roundInt(float a, s32& o) { o = (s32) fastRound(a); }
extern "C" void m_s_wrap(float a, float r, float& o) { o = wrap(a, r); }
extern "C" void r_s_wrap(float a, float r, float& o) { o = a - floorf(a / r) * r; }
extern "C" void m_s_wrapOne(float a, float& o) { o = wrapOne(a); }
extern "C" void r_s_wrapOne(float a, float& o) { o = a - floorf(a); }
extern "C" void m_s_mix(float a, float b, float f, float& o) { o = mix(a, b, f); }
extern "C" void r_s_mix(float a, float b, float f, float& o) { o = a * (1 - f) + b * f; }
extern "C" void m_s_unmix(float a, float b, float f, float& o) { o = unmix(a, b, f); }
extern "C" void r_s_unmix(float a, float b, float f, float& o) { o = (f - a) / (b - a); }
extern "C" void m_s_clampf(float a, float l, float h, float& o) { o = clamp(a, l, h); }
extern "C" void r_s_clampf(float a, float l, float h, float& o) { o = a < l ? l : a > h ? h : a; }
extern "C" void m_s_clampi(s32 a, s32 l, s32 h, s32& o) { o = clamp(a, l, h); }
extern "C" void r_s_clampi(s32 a, s32 l, s32 h, s32& o) { o = a < l ? l : a > h ? h : a; }
extern "C" void m_s_mini(s32 a, s32 b, s32& o) { o = min(a, b); }
extern "C" void r_s_mini(s32 a, s32 b, s32& o) { o = a < b ? a : b; }
extern "C" void m_s_maxi(s32 a, s32 b, s32& o) { o = max(a, b); }
extern "C" void r_s_maxi(s32 a, s32 b, s32& o) { o = a < b ? b : a; }
extern "C" void m_s_absf(float a, float& o) { o = abs(a); }
extern "C" void r_s_absf(float a, float& o) { o = a < 0 ? -a : a; }
extern "C" void m_s_fastSin(float a, float& o) { o = fastSin(a); }
extern "C" void r_s_fastSin(float a, float& o) { float f = a * (0.5f / Pi); float x = (f - floorf(f)) * 2 - 1; float v = 4 * x * (fabsf(x) - 1); o = v * (0.225f * fabsf(v) + 0.775f); }
extern "C" void m_s_fastCos(float a, float& o) { o = fastCos(a); }
extern "C" void r_s_fastCos(float a, float& o) { float f = (a + Pi * 0.5f) * (0.5f / Pi); float x = (f - floorf(f)) * 2 - 1; float v = 4 * x * (fabsf(x) - 1); o = v * (0.225f * fabsf(v) + 0.775f); }
extern "C" void m_s_fastCosSin(float a, Float2& o) { o = fastCosSin(a); }
extern "C" void r_s_fastCosSin(float a, Float2& o) { o.x = fastCos(a); o.y = fastSin(a); }
extern "C" void m_c_identity(Float2& o) { o = Complex::identity(); }
extern "C" void r_c_identity(Float2& o) { o.x = 1; o.y = 0; }
extern "C" void m_c_fromAngle(float a, Float2& o) { o = Complex::fromAngle(a); }
extern "C" void r_c_fromAngle(float a, Float2& o) { o.x = cosf(a); o.y = sinf(a); }
extern "C" void m_c_getAngle(const Float2& a, float& o) { o = Complex::getAngle(a); }
extern "C" void r_c_getAngle(const Float2& a, float& o) { o = atan2f(a.y, a.x); }
extern "C" void m_c_mul(const Float2& a, const Float2& b, Float2& o) { o = Complex::mul(a, b); }
extern "C" void r_c_mul(const Float2& a, const Float2& b, Float2& o) { o.x = a.x * b.x - a.y * b.y; o.y = a.x * b.y + a.y * b.x; }
extern "C" void m_curve_cubic_float(const float& a, const float& b, const float& c, const float& d, float t, float& o) { o = interpolateCubic(a, b, c, d, t); }
extern "C" void r_curve_cubic_float(const float& a, const float& b, const float& c, const float& d, float t, float& o) { float u = 1 - t; o = a * u * u * u + 3 * b * u * u * t + 3 * c * u * t * t + d * t * t * t; }
extern "C" void m_curve_cubic_Float2(const Float2& a, const Float2& b, const Float2& c, const Float2& d, float t, Float2& o) { o = interpolateCubic(a, b, c, d, t); }
extern "C" void r_curve_cubic_Float2(const Float2& a, const Float2& b, const Float2& c, const Float2& d, float t, Float2& o) { float u = 1 - t; o.x = a.x * u * u * u + 3 * b.x * u * u * t + 3 * c.x * u * t * t + d.x * t * t * t; o.y = a.y * u * u * u + 3 * b.y * u * u * t + 3 * c.y * u * t * t + d.y * t * t * t; }
extern "C" void m_curve_cubic_Float3(const Float3& a, const Float3& b, const Float3& c, const Float3& d, float t, Float3& o) { o = interpolateCubic(a, b, c, d, t); }
extern "C" void r_curve_cubic_Float3(const Float3& a, const Float3& b, const Float3& c, const Float3& d, float t, Float3& o) { float u = 1 - t; o.x = a.x * u * u * u + 3 * b.x * u * u * t + 3 * c.x * u * t * t + d.x * t * t * t; o.y = a.y * u * u * u + 3 * b.y * u * u * t + 3 * c.y * u * t * t + d.y * t * t * t; o.z = a.z * u * u * u + 3 * b.z * u * u * t + 3 * c.z * u * t * t + d.z * t * t * t; }
extern "C" void m_curve_simple(float t, float& o) { o = applySimpleCubic(t); }
extern "C" void r_curve_simple(float t, float& o) { o = 3 * t * t - 2 * t * t * t; }
extern "C" void m_x_anyPerp(const Float3& a, Float3& o) { o = anyPerp(a); }
extern "C" void r_x_anyPerp(const Float3& a, Float3& o) { if (a.z * a.z < 0.9f) { o.x = a.y; o.y = -a.x; o.z = 0; } else { o.x = a.z; o.y = 0; o.z = -a.x; } }
extern "C" void m_x_approach(const Float2& a, const Float2& b, float s, Float2& o) { o = approach(a, b, s); }
extern "C" void r_x_approach(const Float2& a, const Float2& b, float s, Float2& o) { float dx = b.x - a.x, dy = b.y - a.y; float l = sqrtf(dx * dx + dy * dy); if (l < s) { o.x = b.x; o.y = b.y; } else { o.x = a.x + dx * s / l; o.y = a.y + dy * s / l; } }
extern "C" void m_x_makeBasisYZ(const Float3& f, const Float3& u, Float3x3& o) { o = makeBasis(f, u, Axis3::YPos, Axis3::ZPos); }
extern "C" void r_x_makeBasisYZ(const Float3& f, const Float3& u, Float3x3& o) { float rx = f.y * u.z - f.z * u.y, ry = f.z * u.x - f.x * u.z, rz = f.x * u.y - f.y * u.x; float q = rx * rx + ry * ry + rz * rz; if (q < 1e-6f) { if (f.z * f.z < 0.9f) { rx = f.y; ry = -f.x; rz = 0; } else { rx = f.z; ry = 0; rz = -f.x; } q = rx * rx + ry * ry + rz * rz; } float l = sqrtf(q); rx = rx / l; ry = ry / l; rz = rz / l; float ux = ry * f.z - rz * f.y, uy = rz * f.x - rx * f.z, uz = rx * f.y - ry * f.x; o.col[0].x = rx; o.col[0].y = ry; o.col[0].z = rz; o.col[1].x = f.x; o.col[1].y = f.y; o.col[1].z = f.z; o.col[2].x = ux; o.col[2].y = uy; o.col[2].z = uz; }
extern "C" void m_x_makeBasisXZ(const Float3& f, const Float3& u, Float3x3& o) { o = makeBasis(f, u, Axis3::XPos, Axis3::ZPos); }
extern "C" void r_x_makeBasisXZ(const Float3& f, const Float3& u, Float3x3& o) { float rx = f.y * u.z - f.z * u.y, ry = f.z * u.x - f.x * u.z, rz = f.x * u.y - f.y * u.x; float q = rx * rx + ry * ry + rz * rz; if (q < 1e-6f) { if (f.z * f.z < 0.9f) { rx = f.y; ry = -f.x; rz = 0; } else { rx = f.z; ry = 0; rz = -f.x; } q = rx * rx + ry * ry + rz * rz; } float l = sqrtf(q); rx = rx / l; ry = ry / l; rz = rz / l; float ux = ry * f.z - rz * f.y, uy = rz * f.x - rx * f.z, uz = rx * f.y - ry * f.x; o.col[0].x = f.x; o.col[0].y = f.y; o.col[0].z = f.z; o.col[1].x = -rx; o.col[1].y = -ry; o.col[1].z = -rz; o.col[2].x = ux; o.col[2].y = uy; o.col[2].z = uz; }
extern "C" void m_x_makeBasisZnXn(const Float3& f, const Float3& u, Float3x3& o) { o = makeBasis(f, u, Axis3::ZNeg, Axis3::XNeg); }
extern "C" void r_x_makeBasisZnXn(const Float3& f, const Float3& u, Float3x3& o) { float rx = f.y * u.z - f.z * u.y, ry = f.z * u.x - f.x * u.z, rz = f.x * u.y - f.y * u.x; float q = rx * rx + ry * ry + rz * rz; if (q < 1e-6f) { if (f.z * f.z < 0.9f) { rx = f.y; ry = -f.x; rz = 0; } else { rx = f.z; ry = 0; rz = -f.x; } q = rx * rx + ry * ry + rz * rz; } float l = sqrtf(q); rx = rx / l; ry = ry / l; rz = rz / l; float ux = ry * f.z - rz * f.y, uy = rz * f.x - rx * f.z, uz = rx * f.y - ry * f.x; o.col[0].x = -ux; o.col[0].y = -uy; o.col[0].z = -uz; o.col[1].x = rx; o.col[1].y = ry; o.col[1].z = rz; o.col[2].x = -f.x; o.col[2].y = -f.y; o.col[2].z = -f.z; }
extern "C" void m_col_fromHex(const HexDigits& h_, float* o) { convertFromHex(o, 1, h_.h); }
extern "C" void r_col_fromHex(const HexDigits& h_, float* o) { auto* h = h_.h; { int a = h[0], b = h[1]; int x = a >= '0' && a <= '9' ? a - '0' : a >= 'a' && a <= 'f' ? a - 'a' + 10 : a >= 'A' && a <= 'F' ? a - 'A' + 10 : 0; int y = b >= '0' && b <= '9' ? b - '0' : b >= 'a' && b <= 'f' ? b - 'a' + 10 : b >= 'A' && b <= 'F' ? b - 'A' + 10 : 0; o[0] = (16 * x + y) / 255.f; } }
extern "C" void m_col_toLinear(float s, float& o) { o = sRGBToLinear(s); }
extern "C" void r_col_toLinear(float s, float& o) { o = s < 0.0404482362771082f ? s / 12.92f : powf((s + 0.055f) / 1.055f, 2.4f); }
extern "C" void m_col_toSRGB(float s, float& o) { o = linearToSRGB(s); }
extern "C" void r_col_toSRGB(float s, float& o) { o = s < 0.00313066844250063f ? s * 12.92f : 1.055f * powf(s, 1 / 2.4f) - 0.055f; }
extern "C" void m_col_from3(const Float3& a, Float3& o) { o = fromSRGB(a); }
extern "C" void r_col_from3(const Float3& a, Float3& o) { o.x = sRGBToLinear(a.x); o.y = sRGBToLinear(a.y); o.z = sRGBToLinear(a.z); }
extern "C" void m_col_to3(const Float3& a, Float3& o) { o = toSRGB(a); }
extern "C" void r_col_to3(const Float3& a, Float3& o) { o.x = linearToSRGB(a.x); o.y = linearToSRGB(a.y); o.z = linearToSRGB(a.z); }
extern "C" void m_col_from4(const Float4& a, Float4& o) { o = fromSRGB(a); }
extern "C" void r_col_from4(const Float4& a, Float4& o) { o.x = sRGBToLinear(a.x); o.y = sRGBToLinear(a.y); o.z = sRGBToLinear(a.z); o.w = a.w; }
extern "C" void m_col_to4(const Float4& a, Float4& o) { o = toSRGB(a); }
extern "C" void r_col_to4(const Float4& a, Float4& o) { o.x = linearToSRGB(a.x); o.y = linearToSRGB(a.y); o.z = linearToSRGB(a.z); o.w = a.w; }
extern "C" void m_col_to8888(const Float4& a, Int4<u8>& o) { o = to8888(a); }
extern "C" void r_col_to8888(const Float4& a, Int4<u8>& o) { o.x = (u8) (a.x * 255.9f); o.y = (u8) (a.y * 255.9f); o.z = (u8) (a.z * 255.9f); o.w = (u8) (a.w * 255.9f); }
extern "C" void m_ax_cross(u8* o) { o[0] = (u8) cross(Axis3(0), Axis3(2)); o[1] = (u8) cross(Axis3(0), Axis3(3)); o[2] = (u8) cross(Axis3(0), Axis3(4)); o[3] = (u8) cross(Axis3(0), Axis3(5)); o[4] = (u8) cross(Axis3(1), Axis3(2)); o[5] = (u8) cross(Axis3(1), Axis3(3)); o[6] = (u8) cross(Axis3(1), Axis3(4)); o[7] = (u8) cross(Axis3(1), Axis3(5)); o[8] = (u8) cross(Axis3(2), Axis3(0)); o[9] = (u8) cross(Axis3(2), Axis3(1)); o[10] = (u8) cross(Axis3(2), Axis3(4)); o[11] = (u8) cross(Axis3(2), Axis3(5)); o[12] = (u8) cross(Axis3(3), Axis3(0)); o[13] = (u8) cross(Axis3(3), Axis3(1)); o[14] = (u8) cross(Axis3(3), Axis3(4)); o[15] = (u8) cross(Axis3(3), Axis3(5)); o[16] = (u8) cross(Axis3(4), Axis3(0)); o[17] = (u8) cross(Axis3(4), Axis3(1)); o[18] = (u8) cross(Axis3(4), Axis3(2)); o[19] = (u8) cross(Axis3(4), Axis3(3)); o[20] = (u8) cross(Axis3(5), Axis3(0)); o[21] = (u8) cross(Axis3(5), Axis3(1)); o[22] = (u8) cross(Axis3(5), Axis3(2)); o[23] = (u8) cross(Axis3(5), Axis3(3)); }
extern "C" void r_ax_cross(u8* o) { o[0] = 4; o[1] = 5; o[2] = 3; o[3] = 2; o[4] = 5; o[5] = 4; o[6] = 2; o[7] = 3; o[8] = 5; o[9] = 4; o[10] = 0; o[11] = 1; o[12] = 4; o[13] = 5; o[14] = 1; o[15] = 0; o[16] = 2; o[17] = 3; o[18] = 1; o[19] = 0; o[20] = 3; o[21] = 2; o[22] = 0; o[23] = 1; }
extern "C" void m_ax_dot(s32* o) { o[0] = dot(Axis3(0), Axis3(0)); o[1] = dot(Axis3(0), Axis3(1)); o[2] = dot(Axis3(0), Axis3(2)); o[3] = dot(Axis3(0), Axis3(3)); o[4] = dot(Axis3(0), Axis3(4)); o[5] = dot(Axis3(0), Axis3(5)); o[6] = dot(Axis3(1), Axis3(0)); o[7] = dot(Axis3(1), Axis3(1)); o[8] = dot(Axis3(1), Axis3(2)); o[9] = dot(Axis3(1), Axis3(3)); o[10] = dot(Axis3(1), Axis3(4)); o[11] = dot(Axis3(1), Axis3(5)); o[12] = dot(Axis3(2), Axis3(0)); o[13] = dot(Axis3(2), Axis3(1)); o[14] = dot(Axis3(2), Axis3(2)); o[15] = dot(Axis3(2), Axis3(3)); o[16] = dot(Axis3(2), Axis3(4)); o[17] = dot(Axis3(2), Axis3(5)); o[18] = dot(Axis3(3), Axis3(0)); o[19] = dot(Axis3(3), Axis3(1)); o[20] = dot(Axis3(3), Axis3(2)); o[21] = dot(Axis3(3), Axis3(3)); o[22] = dot(Axis3(3), Axis3(4)); o[23] = dot(Axis3(3), Axis3(5)); o[24] = dot(Axis3(4), Axis3(0)); o[25] = dot(Axis3(4), Axis3(1)); o[26] = dot(Axis3(4), Axis3(2)); o[27] = dot(Axis3(4), Axis3(3)); o[28] = dot(Axis3(4), Axis3(4)); o[29] = dot(Axis3(4), Axis3(5)); o[30] = dot(Axis3(5), Axis3(0)); o[31] = dot(Axis3(5), Axis3(1)); o[32] = dot(Axis3(5), Axis3(2)); o[33] = dot(Axis3(5), Axis3(3)); o[34] = dot(Axis3(5), Axis3(4)); o[35] = dot(Axis3(5), Axis3(5)); }
extern "C" void r_ax_dot(s32* o) { o[0] = 1; o[1] = -1; o[2] = 0; o[3] = 0; o[4] = 0; o[5] = 0; o[6] = -1; o[7] = 1; o[8] = 0; o[9] = 0; o[10] = 0; o[11] = 0; o[12] = 0; o[13] = 0; o[14] = 1; o[15] = -1; o[16] = 0; o[17] = 0; o[18] = 0; o[19] = 0; o[20] = -1; o[21] = 1; o[22] = 0; o[23] = 0; o[24] = 0; o[25] = 0; o[26] = 0; o[27] = 0; o[28] = 1; o[29] = -1; o[30] = 0; o[31] = 0; o[32] = 0; o[33] = 0; o[34] = -1; o[35] = 1; }
extern "C" void m_ax_isPerp(bool* o) { o[0] = isPerp(Axis3(0), Axis3(0)); o[1] = isPerp(Axis3(0), Axis3(1)); o[2] = isPerp(Axis3(0), Axis3(2)); o[3] = isPerp(Axis3(0), Axis3(3)); o[4] = isPerp(Axis3(0), Axis3(4)); o[5] = isPerp(Axis3(0), Axis3(5)); o[6] = isPerp(Axis3(1), Axis3(0)); o[7] = isPerp(Axis3(1), Axis3(1)); o[8] = isPerp(Axis3(1), Axis3(2)); o[9] = isPerp(Axis3(1), Axis3(3)); o[10] = isPerp(Axis3(1), Axis3(4)); o[11] = isPerp(Axis3(1), Axis3(5)); o[12] = isPerp(Axis3(2), Axis3(0)); o[13] = isPerp(Axis3(2), Axis3(1)); o[14] = isPerp(Axis3(2), Axis3(2)); o[15] = isPerp(Axis3(2), Axis3(3)); o[16] = isPerp(Axis3(2), Axis3(4)); o[17] = isPerp(Axis3(2), Axis3(5)); o[18] = isPerp(Axis3(3), Axis3(0)); o[19] = isPerp(Axis3(3), Axis3(1)); o[20] = isPerp(Axis3(3), Axis3(2)); o[21] = isPerp(Axis3(3), Axis3(3)); o[22] = isPerp(Axis3(3), Axis3(4)); o[23] = isPerp(Axis3(3), Axis3(5)); o[24] = isPerp(Axis3(4), Axis3(0)); o[25] = isPerp(Axis3(4), Axis3(1)); o[26] = isPerp(Axis3(4), Axis3(2)); o[27] = isPerp(Axis3(4), Axis3(3)); o[28] = isPerp(Axis3(4), Axis3(4)); o[29] = isPerp(Axis3(4), Axis3(5)); o[30] = isPerp(Axis3(5), Axis3(0)); o[31] = isPerp(Axis3(5), Axis3(1)); o[32] = isPerp(Axis3(5), Axis3(2)); o[33] = isPerp(Axis3(5), Axis3(3)); o[34] = isPerp(Axis3(5), Axis3(4)); o[35] = isPerp(Axis3(5), Axis3(5)); }
extern "C" void r_ax_isPerp(bool* o) { o[0] = 0; o[1] = 0; o[2] = 1; o[3] = 1; o[4] = 1; o[5] = 1; o[6] = 0; o[7] = 0; o[8] = 1; o[9] = 1; o[10] = 1; o[11] = 1; o[12] = 1; o[13] = 1; o[14] = 0; o[15] = 0; o[16] = 1; o[17] = 1; o[18] = 1; o[19] = 1; o[20] = 0; o[21] = 0; o[22] = 1; o[23] = 1; o[24] = 1; o[25] = 1; o[26] = 1; o[27] = 1; o[28] = 0; o[29] = 0; o[30] = 1; o[31] = 1; o[32] = 1; o[33] = 1; o[34] = 0; o[35] = 0; }
extern "C" void m_ax_dotv(const Float3& v, float* o) { o[0] = dot(Axis3(0), v); o[1] = dot(Axis3(1), v); o[2] = dot(Axis3(2), v); o[3] = dot(Axis3(3), v); o[4] = dot(Axis3(4), v); o[5] = dot(Axis3(5), v); }
extern "C" void r_ax_dotv(const Float3& v, float* o) { o[0] = v.x; o[1] = -v.x; o[2] = v.y; o[3] = -v.y; o[4] = v.z; o[5] = -v.z; }
extern "C" void m_ax_negate(u8* o) { o[0] = (u8) negate(Axis3(0)); o[1] = (u8) negate(Axis3(1)); o[2] = (u8) negate(Axis3(2)); o[3] = (u8) negate(Axis3(3)); o[4] = (u8) negate(Axis3(4)); o[5] = (u8) negate(Axis3(5)); }
extern "C" void r_ax_negate(u8* o) { o[0] = 1; o[1] = 0; o[2] = 3; o[3] = 2; o[4] = 5; o[5] = 4; }
extern "C" void m_ax_abs(u8* o) { o[0] = (u8) abs(Axis3(0)); o[1] = (u8) abs(Axis3(1)); o[2] = (u8) abs(Axis3(2)); o[3] = (u8) abs(Axis3(3)); o[4] = (u8) abs(Axis3(4)); o[5] = (u8) abs(Axis3(5)); }
extern "C" void r_ax_abs(u8* o) { o[0] = 0; o[1] = 0; o[2] = 2; o[3] = 2; o[4] = 4; o[5] = 4; }
extern "C" void m_ax_sgn(s32* o) { o[0] = sgn(Axis3(0)); o[1] = sgn(Axis3(1)); o[2] = sgn(Axis3(2)); o[3] = sgn(Axis3(3)); o[4] = sgn(Axis3(4)); o[5] = sgn(Axis3(5)); }
extern "C" void r_ax_sgn(s32* o) { o[0] = 1; o[1] = -1; o[2] = 1; o[3] = -1; o[4] = 1; o[5] = -1; }
extern "C" void m_ax_mulSign(u8* o) { o[0] = (u8) mulSign(Axis3(0), 1); o[1] = (u8) mulSign(Axis3(0), -1); o[2] = (u8) mulSign(Axis3(1), 1); o[3] = (u8) mulSign(Axis3(1), -1); o[4] = (u8) mulSign(Axis3(2), 1); o[5] = (u8) mulSign(Axis3(2), -1); o[6] = (u8) mulSign(Axis3(3), 1); o[7] = (u8) mulSign(Axis3(3), -1); o[8] = (u8) mulSign(Axis3(4), 1); o[9] = (u8) mulSign(Axis3(4), -1); o[10] = (u8) mulSign(Axis3(5), 1); o[11] = (u8) mulSign(Axis3(5), -1); }
extern "C" void r_ax_mulSign(u8* o) { o[0] = 0; o[1] = 1; o[2] = 1; o[3] = 0; o[4] = 2; o[5] = 3; o[6] = 3; o[7] = 2; o[8] = 4; o[9] = 5; o[10] = 5; o[11] = 4; }
extern "C" void m_ax_isValid(bool* o) { o[0] = isValid(Axis3(0)); o[1] = isValid(Axis3(1)); o[2] = isValid(Axis3(2)); o[3] = isValid(Axis3(3)); o[4] = isValid(Axis3(4)); o[5] = isValid(Axis3(5)); o[6] = isValid(Axis3(6)); o[7] = isValid(Axis3(7)); }
extern "C" void r_ax_isValid(bool* o) { o[0] = 1; o[1] = 1; o[2] = 1; o[3] = 1; o[4] = 1; o[5] = 1; o[6] = 0; o[7] = 0; }
extern "C" void m_ax_toFloat3(Float3* o) { o[0] = toFloat3(Axis3(0)); o[1] = toFloat3(Axis3(1)); o[2] = toFloat3(Axis3(2)); o[3] = toFloat3(Axis3(3)); o[4] = toFloat3(Axis3(4)); o[5] = toFloat3(Axis3(5)); }
extern "C" void r_ax_toFloat3(Float3* o) { o[0].x = 1; o[0].y = 0; o[0].z = 0; o[1].x = -1; o[1].y = 0; o[1].z = 0; o[2].x = 0; o[2].y = 1; o[2].z = 0; o[3].x = 0; o[3].y = -1; o[3].z = 0; o[4].x = 0; o[4].y = 0; o[4].z = 1; o[5].x = 0; o[5].y = 0; o[5].z = -1; }
extern "C" void m_ax2_sgn(s32* o) { o[0] = sgn(Axis2(0)); o[1] = sgn(Axis2(1)); o[2] = sgn(Axis2(2)); o[3] = sgn(Axis2(3)); }
extern "C" void r_ax2_sgn(s32* o) { o[0] = 1; o[1] = 1; o[2] = -1; o[3] = -1; }
extern "C" void m_ax2_negate(u8* o) { o[0] = (u8) negate(Axis2(0)); o[1] = (u8) negate(Axis2(1)); o[2] = (u8) negate(Axis2(2)); o[3] = (u8) negate(Axis2(3)); }
extern "C" void r_ax2_negate(u8* o) { o[0] = 0; o[1] = 3; o[2] = 2; o[3] = 1; }
extern "C" void m_ax2_isValid(bool* o) { o[0] = isValid(Axis2(0)); o[1] = isValid(Axis2(1)); o[2] = isValid(Axis2(2)); o[3] = isValid(Axis2(3)); o[4] = isValid(Axis2(4)); o[5] = isValid(Axis2(5)); }
extern "C" void r_ax2_isValid(bool* o) { o[0] = 1; o[1] = 1; o[2] = 1; o[3] = 1; o[4] = 0; o[5] = 0; }
extern "C" void m_ax2_mulv(const Float2& v, Float2* o) { o[0] = Axis2(0) * v; o[1] = Axis2(1) * v; o[2] = Axis2(2) * v; o[3] = Axis2(3) * v; }
extern "C" void r_ax2_mulv(const Float2& v, Float2* o) { o[0].x = 1 * v.x - 0 * v.y; o[0].y = 0 * v.x + 1 * v.y; o[1].x = 0 * v.x - 1 * v.y; o[1].y = 1 * v.x + 0 * v.y; o[2].x = -1 * v.x - 0 * v.y; o[2].y = 0 * v.x + -1 * v.y; o[3].x = 0 * v.x - -1 * v.y; o[3].y = -1 * v.x + 0 * v.y; }
extern "C" void m_ax2_mulv3(const Float3& v, Float3* o) { o[0] = Axis2(0) * v; o[1] = Axis2(1) * v; o[2] = Axis2(2) * v; o[3] = Axis2(3) * v; }
extern "C" void r_ax2_mulv3(const Float3& v, Float3* o) { o[0].x = 1 * v.x - 0 * v.y; o[0].y = 0 * v.x + 1 * v.y; o[0].z = v.z; o[1].x = 0 * v.x - 1 * v.y; o[1].y = 1 * v.x + 0 * v.y; o[1].z = v.z; o[2].x = -1 * v.x - 0 * v.y; o[2].y = 0 * v.x + -1 * v.y; o[2].z = v.z; o[3].x = 0 * v.x - -1 * v.y; o[3].y = -1 * v.x + 0 * v.y; o[3].z = v.z; }
extern "C" void m_ax2_toFloat3(Float3* o) { o[0] = toFloat3(Axis2(0)); o[1] = toFloat3(Axis2(1)); o[2] = toFloat3(Axis2(2)); o[3] = toFloat3(Axis2(3)); }
extern "C" void r_ax2_toFloat3(Float3* o) { o[0].x = 1; o[0].y = 0; o[0].z = 0; o[1].x = 0; o[1].y = 1; o[1].z = 0; o[2].x = -1; o[2].y = 0; o[2].z = 0; o[3].x = 0; o[3].y = -1; o[3].z = 0; }
extern "C" void m_ax2_toFloat2(Float2* o) { o[0] = toFloat2(Axis2(0)); o[1] = toFloat2(Axis2(1)); o[2] = toFloat2(Axis2(2)); o[3] = toFloat2(Axis2(3)); }
extern "C" void r_ax2_toFloat2(Float2* o) { o[0].x = 1; o[0].y = 0; o[1].x = 0; o[1].y = 1; o[2].x = -1; o[2].y = 0; o[3].x = 0; o[3].y = -1; }
extern "C" void m_ax2_toAxis3(u8* o) { o[0] = (u8) toAxis3(Axis2(0)); o[1] = (u8) toAxis3(Axis2(1)); o[2] = (u8) toAxis3(Axis2(2)); o[3] = (u8) toAxis3(Axis2(3)); }
extern "C" void r_ax2_toAxis3(u8* o) { o[0] = 0; o[1] = 2; o[2] = 1; o[3] = 3; }
extern "C" void m_ax3_toAxis2(u8* o) { o[0] = (u8) toAxis2(Axis3(0)); o[1] = (u8) toAxis2(Axis3(1)); o[2] = (u8) toAxis2(Axis3(2)); o[3] = (u8) toAxis2(Axis3(3)); }
extern "C" void r_ax3_toAxis2(u8* o) { o[0] = 0; o[1] = 2; o[2] = 1; o[3] = 3; }
extern "C" void m_ar_mulAxis(u8* o) { o[0] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(4)} * Axis3(0)); o[1] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(4)} * Axis3(1)); o[2] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(4)} * Axis3(2)); o[3] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(4)} * Axis3(3)); o[4] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(4)} * Axis3(4)); o[5] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(4)} * Axis3(5)); o[6] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(5)} * Axis3(0)); o[7] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(5)} * Axis3(1)); o[8] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(5)} * Axis3(2)); o[9] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(5)} * Axis3(3)); o[10] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(5)} * Axis3(4)); o[11] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(5)} * Axis3(5)); o[12] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(5)} * Axis3(0)); o[13] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(5)} * Axis3(1)); o[14] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(5)} * Axis3(2)); o[15] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(5)} * Axis3(3)); o[16] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(5)} * Axis3(4)); o[17] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(5)} * Axis3(5)); o[18] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(4)} * Axis3(0)); o[19] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(4)} * Axis3(1)); o[20] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(4)} * Axis3(2)); o[21] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(4)} * Axis3(3)); o[22] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(4)} * Axis3(4)); o[23] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(4)} * Axis3(5)); o[24] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(3)} * Axis3(0)); o[25] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(3)} * Axis3(1)); o[26] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(3)} * Axis3(2)); o[27] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(3)} * Axis3(3)); o[28] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(3)} * Axis3(4)); o[29] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(3)} * Axis3(5)); o[30] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(2)} * Axis3(0)); o[31] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(2)} * Axis3(1)); o[32] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(2)} * Axis3(2)); o[33] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(2)} * Axis3(3)); o[34] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(2)} * Axis3(4)); o[35] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(2)} * Axis3(5)); o[36] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(2)} * Axis3(0)); o[37] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(2)} * Axis3(1)); o[38] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(2)} * Axis3(2)); o[39] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(2)} * Axis3(3)); o[40] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(2)} * Axis3(4)); o[41] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(2)} * Axis3(5)); o[42] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(3)} * Axis3(0)); o[43] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(3)} * Axis3(1)); o[44] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(3)} * Axis3(2)); o[45] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(3)} * Axis3(3)); o[46] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(3)} * Axis3(4)); o[47] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(3)} * Axis3(5)); o[48] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(5)} * Axis3(0)); o[49] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(5)} * Axis3(1)); o[50] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(5)} * Axis3(2)); o[51] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(5)} * Axis3(3)); o[52] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(5)} * Axis3(4)); o[53] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(5)} * Axis3(5)); o[54] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(4)} * Axis3(0)); o[55] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(4)} * Axis3(1)); o[56] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(4)} * Axis3(2)); o[57] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(4)} * Axis3(3)); o[58] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(4)} * Axis3(4)); o[59] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(4)} * Axis3(5)); o[60] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(4)} * Axis3(0)); o[61] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(4)} * Axis3(1)); o[62] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(4)} * Axis3(2)); o[63] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(4)} * Axis3(3)); o[64] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(4)} * Axis3(4)); o[65] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(4)} * Axis3(5)); o[66] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(5)} * Axis3(0)); o[67] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(5)} * Axis3(1)); o[68] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(5)} * Axis3(2)); o[69] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(5)} * Axis3(3)); o[70] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(5)} * Axis3(4)); o[71] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(5)} * Axis3(5)); o[72] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(2)} * Axis3(0)); o[73] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(2)} * Axis3(1)); o[74] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(2)} * Axis3(2)); o[75] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(2)} * Axis3(3)); o[76] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(2)} * Axis3(4)); o[77] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(2)} * Axis3(5)); o[78] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(3)} * Axis3(0)); o[79] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(3)} * Axis3(1)); o[80] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(3)} * Axis3(2)); o[81] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(3)} * Axis3(3)); o[82] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(3)} * Axis3(4)); o[83] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(3)} * Axis3(5)); o[84] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(3)} * Axis3(0)); o[85] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(3)} * Axis3(1)); o[86] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(3)} * Axis3(2)); o[87] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(3)} * Axis3(3)); o[88] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(3)} * Axis3(4)); o[89] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(3)} * Axis3(5)); o[90] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(2)} * Axis3(0)); o[91] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(2)} * Axis3(1)); o[92] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(2)} * Axis3(2)); o[93] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(2)} * Axis3(3)); o[94] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(2)} * Axis3(4)); o[95] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(2)} * Axis3(5)); o[96] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(5)} * Axis3(0)); o[97] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(5)} * Axis3(1)); o[98] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(5)} * Axis3(2)); o[99] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(5)} * Axis3(3)); o[100] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(5)} * Axis3(4)); o[101] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(5)} * Axis3(5)); o[102] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(4)} * Axis3(0)); o[103] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(4)} * Axis3(1)); o[104] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(4)} * Axis3(2)); o[105] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(4)} * Axis3(3)); o[106] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(4)} * Axis3(4)); o[107] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(4)} * Axis3(5)); o[108] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(4)} * Axis3(0)); o[109] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(4)} * Axis3(1)); o[110] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(4)} * Axis3(2)); o[111] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(4)} * Axis3(3)); o[112] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(4)} * Axis3(4)); o[113] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(4)} * Axis3(5)); o[114] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(5)} * Axis3(0)); o[115] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(5)} * Axis3(1)); o[116] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(5)} * Axis3(2)); o[117] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(5)} * Axis3(3)); o[118] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(5)} * Axis3(4)); o[119] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(5)} * Axis3(5)); o[120] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(0)} * Axis3(0)); o[121] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(0)} * Axis3(1)); o[122] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(0)} * Axis3(2)); o[123] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(0)} * Axis3(3)); o[124] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(0)} * Axis3(4)); o[125] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(0)} * Axis3(5)); o[126] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(1)} * Axis3(0)); o[127] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(1)} * Axis3(1)); o[128] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(1)} * Axis3(2)); o[129] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(1)} * Axis3(3)); o[130] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(1)} * Axis3(4)); o[131] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(1)} * Axis3(5)); o[132] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(1)} * Axis3(0)); o[133] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(1)} * Axis3(1)); o[134] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(1)} * Axis3(2)); o[135] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(1)} * Axis3(3)); o[136] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(1)} * Axis3(4)); o[137] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(1)} * Axis3(5)); o[138] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(0)} * Axis3(0)); o[139] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(0)} * Axis3(1)); o[140] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(0)} * Axis3(2)); o[141] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(0)} * Axis3(3)); o[142] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(0)} * Axis3(4)); o[143] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(0)} * Axis3(5)); o[144] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(4)} * Axis3(0)); o[145] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(4)} * Axis3(1)); o[146] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(4)} * Axis3(2)); o[147] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(4)} * Axis3(3)); o[148] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(4)} * Axis3(4)); o[149] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(4)} * Axis3(5)); o[150] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(5)} * Axis3(0)); o[151] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(5)} * Axis3(1)); o[152] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(5)} * Axis3(2)); o[153] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(5)} * Axis3(3)); o[154] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(5)} * Axis3(4)); o[155] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(5)} * Axis3(5)); o[156] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(5)} * Axis3(0)); o[157] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(5)} * Axis3(1)); o[158] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(5)} * Axis3(2)); o[159] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(5)} * Axis3(3)); o[160] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(5)} * Axis3(4)); o[161] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(5)} * Axis3(5)); o[162] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(4)} * Axis3(0)); o[163] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(4)} * Axis3(1)); o[164] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(4)} * Axis3(2)); o[165] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(4)} * Axis3(3)); o[166] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(4)} * Axis3(4)); o[167] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(4)} * Axis3(5)); o[168] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(1)} * Axis3(0)); o[169] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(1)} * Axis3(1)); o[170] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(1)} * Axis3(2)); o[171] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(1)} * Axis3(3)); o[172] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(1)} * Axis3(4)); o[173] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(1)} * Axis3(5)); o[174] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(0)} * Axis3(0)); o[175] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(0)} * Axis3(1)); o[176] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(0)} * Axis3(2)); o[177] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(0)} * Axis3(3)); o[178] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(0)} * Axis3(4)); o[179] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(0)} * Axis3(5)); o[180] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(0)} * Axis3(0)); o[181] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(0)} * Axis3(1)); o[182] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(0)} * Axis3(2)); o[183] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(0)} * Axis3(3)); o[184] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(0)} * Axis3(4)); o[185] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(0)} * Axis3(5)); o[186] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(1)} * Axis3(0)); o[187] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(1)} * Axis3(1)); o[188] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(1)} * Axis3(2)); o[189] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(1)} * Axis3(3)); o[190] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(1)} * Axis3(4)); o[191] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(1)} * Axis3(5)); o[192] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(2)} * Axis3(0)); o[193] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(2)} * Axis3(1)); o[194] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(2)} * Axis3(2)); o[195] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(2)} * Axis3(3)); o[196] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(2)} * Axis3(4)); o[197] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(2)} * Axis3(5)); o[198] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(3)} * Axis3(0)); o[199] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(3)} * Axis3(1)); o[200] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(3)} * Axis3(2)); o[201] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(3)} * Axis3(3)); o[202] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(3)} * Axis3(4)); o[203] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(3)} * Axis3(5)); o[204] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(3)} * Axis3(0)); o[205] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(3)} * Axis3(1)); o[206] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(3)} * Axis3(2)); o[207] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(3)} * Axis3(3)); o[208] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(3)} * Axis3(4)); o[209] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(3)} * Axis3(5)); o[210] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(2)} * Axis3(0)); o[211] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(2)} * Axis3(1)); o[212] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(2)} * Axis3(2)); o[213] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(2)} * Axis3(3)); o[214] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(2)} * Axis3(4)); o[215] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(2)} * Axis3(5)); o[216] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(1)} * Axis3(0)); o[217] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(1)} * Axis3(1)); o[218] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(1)} * Axis3(2)); o[219] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(1)} * Axis3(3)); o[220] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(1)} * Axis3(4)); o[221] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(1)} * Axis3(5)); o[222] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(0)} * Axis3(0)); o[223] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(0)} * Axis3(1)); o[224] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(0)} * Axis3(2)); o[225] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(0)} * Axis3(3)); o[226] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(0)} * Axis3(4)); o[227] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(0)} * Axis3(5)); o[228] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(0)} * Axis3(0)); o[229] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(0)} * Axis3(1)); o[230] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(0)} * Axis3(2)); o[231] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(0)} * Axis3(3)); o[232] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(0)} * Axis3(4)); o[233] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(0)} * Axis3(5)); o[234] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(1)} * Axis3(0)); o[235] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(1)} * Axis3(1)); o[236] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(1)} * Axis3(2)); o[237] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(1)} * Axis3(3)); o[238] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(1)} * Axis3(4)); o[239] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(1)} * Axis3(5)); o[240] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(3)} * Axis3(0)); o[241] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(3)} * Axis3(1)); o[242] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(3)} * Axis3(2)); o[243] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(3)} * Axis3(3)); o[244] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(3)} * Axis3(4)); o[245] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(3)} * Axis3(5)); o[246] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(2)} * Axis3(0)); o[247] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(2)} * Axis3(1)); o[248] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(2)} * Axis3(2)); o[249] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(2)} * Axis3(3)); o[250] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(2)} * Axis3(4)); o[251] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(2)} * Axis3(5)); o[252] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(2)} * Axis3(0)); o[253] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(2)} * Axis3(1)); o[254] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(2)} * Axis3(2)); o[255] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(2)} * Axis3(3)); o[256] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(2)} * Axis3(4)); o[257] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(2)} * Axis3(5)); o[258] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(3)} * Axis3(0)); o[259] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(3)} * Axis3(1)); o[260] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(3)} * Axis3(2)); o[261] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(3)} * Axis3(3)); o[262] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(3)} * Axis3(4)); o[263] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(3)} * Axis3(5)); o[264] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(0)} * Axis3(0)); o[265] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(0)} * Axis3(1)); o[266] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(0)} * Axis3(2)); o[267] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(0)} * Axis3(3)); o[268] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(0)} * Axis3(4)); o[269] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(0)} * Axis3(5)); o[270] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(1)} * Axis3(0)); o[271] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(1)} * Axis3(1)); o[272] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(1)} * Axis3(2)); o[273] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(1)} * Axis3(3)); o[274] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(1)} * Axis3(4)); o[275] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(1)} * Axis3(5)); o[276] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(1)} * Axis3(0)); o[277] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(1)} * Axis3(1)); o[278] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(1)} * Axis3(2)); o[279] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(1)} * Axis3(3)); o[280] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(1)} * Axis3(4)); o[281] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(1)} * Axis3(5)); o[282] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(0)} * Axis3(0)); o[283] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(0)} * Axis3(1)); o[284] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(0)} * Axis3(2)); o[285] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(0)} * Axis3(3)); o[286] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(0)} * Axis3(4)); o[287] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(0)} * Axis3(5)); }
extern "C" void r_ar_mulAxis(u8* o) { o[0] = 0; o[1] = 1; o[2] = 2; o[3] = 3; o[4] = 4; o[5] = 5; o[6] = 0; o[7] = 1; o[8] = 2; o[9] = 3; o[10] = 5; o[11] = 4; o[12] = 0; o[13] = 1; o[14] = 3; o[15] = 2; o[16] = 5; o[17] = 4; o[18] = 0; o[19] = 1; o[20] = 3; o[21] = 2; o[22] = 4; o[23] = 5; o[24] = 0; o[25] = 1; o[26] = 4; o[27] = 5; o[28] = 3; o[29] = 2; o[30] = 0; o[31] = 1; o[32] = 4; o[33] = 5; o[34] = 2; o[35] = 3; o[36] = 0; o[37] = 1; o[38] = 5; o[39] = 4; o[40] = 2; o[41] = 3; o[42] = 0; o[43] = 1; o[44] = 5; o[45] = 4; o[46] = 3; o[47] = 2; o[48] = 1; o[49] = 0; o[50] = 2; o[51] = 3; o[52] = 5; o[53] = 4; o[54] = 1; o[55] = 0; o[56] = 2; o[57] = 3; o[58] = 4; o[59] = 5; o[60] = 1; o[61] = 0; o[62] = 3; o[63] = 2; o[64] = 4; o[65] = 5; o[66] = 1; o[67] = 0; o[68] = 3; o[69] = 2; o[70] = 5; o[71] = 4; o[72] = 1; o[73] = 0; o[74] = 4; o[75] = 5; o[76] = 2; o[77] = 3; o[78] = 1; o[79] = 0; o[80] = 4; o[81] = 5; o[82] = 3; o[83] = 2; o[84] = 1; o[85] = 0; o[86] = 5; o[87] = 4; o[88] = 3; o[89] = 2; o[90] = 1; o[91] = 0; o[92] = 5; o[93] = 4; o[94] = 2; o[95] = 3; o[96] = 2; o[97] = 3; o[98] = 0; o[99] = 1; o[100] = 5; o[101] = 4; o[102] = 2; o[103] = 3; o[104] = 0; o[105] = 1; o[106] = 4; o[107] = 5; o[108] = 2; o[109] = 3; o[110] = 1; o[111] = 0; o[112] = 4; o[113] = 5; o[114] = 2; o[115] = 3; o[116] = 1; o[117] = 0; o[118] = 5; o[119] = 4; o[120] = 2; o[121] = 3; o[122] = 4; o[123] = 5; o[124] = 0; o[125] = 1; o[126] = 2; o[127] = 3; o[128] = 4; o[129] = 5; o[130] = 1; o[131] = 0; o[132] = 2; o[133] = 3; o[134] = 5; o[135] = 4; o[136] = 1; o[137] = 0; o[138] = 2; o[139] = 3; o[140] = 5; o[141] = 4; o[142] = 0; o[143] = 1; o[144] = 3; o[145] = 2; o[146] = 0; o[147] = 1; o[148] = 4; o[149] = 5; o[150] = 3; o[151] = 2; o[152] = 0; o[153] = 1; o[154] = 5; o[155] = 4; o[156] = 3; o[157] = 2; o[158] = 1; o[159] = 0; o[160] = 5; o[161] = 4; o[162] = 3; o[163] = 2; o[164] = 1; o[165] = 0; o[166] = 4; o[167] = 5; o[168] = 3; o[169] = 2; o[170] = 4; o[171] = 5; o[172] = 1; o[173] = 0; o[174] = 3; o[175] = 2; o[176] = 4; o[177] = 5; o[178] = 0; o[179] = 1; o[180] = 3; o[181] = 2; o[182] = 5; o[183] = 4; o[184] = 0; o[185] = 1; o[186] = 3; o[187] = 2; o[188] = 5; o[189] = 4; o[190] = 1; o[191] = 0; o[192] = 4; o[193] = 5; o[194] = 0; o[195] = 1; o[196] = 2; o[197] = 3; o[198] = 4; o[199] = 5; o[200] = 0; o[201] = 1; o[202] = 3; o[203] = 2; o[204] = 4; o[205] = 5; o[206] = 1; o[207] = 0; o[208] = 3; o[209] = 2; o[210] = 4; o[211] = 5; o[212] = 1; o[213] = 0; o[214] = 2; o[215] = 3; o[216] = 4; o[217] = 5; o[218] = 2; o[219] = 3; o[220] = 1; o[221] = 0; o[222] = 4; o[223] = 5; o[224] = 2; o[225] = 3; o[226] = 0; o[227] = 1; o[228] = 4; o[229] = 5; o[230] = 3; o[231] = 2; o[232] = 0; o[233] = 1; o[234] = 4; o[235] = 5; o[236] = 3; o[237] = 2; o[238] = 1; o[239] = 0; o[240] = 5; o[241] = 4; o[242] = 0; o[243] = 1; o[244] = 3; o[245] = 2; o[246] = 5; o[247] = 4; o[248] = 0; o[249] = 1; o[250] = 2; o[251] = 3; o[252] = 5; o[253] = 4; o[254] = 1; o[255] = 0; o[256] = 2; o[257] = 3; o[258] = 5; o[259] = 4; o[260] = 1; o[261] = 0; o[262] = 3; o[263] = 2; o[264] = 5; o[265] = 4; o[266] = 2; o[267] = 3; o[268] = 0; o[269] = 1; o[270] = 5; o[271] = 4; o[272] = 2; o[273] = 3; o[274] = 1; o[275] = 0; o[276] = 5; o[277] = 4; o[278] = 3; o[279] = 2; o[280] = 1; o[281] = 0; o[282] = 5; o[283] = 4; o[284] = 3; o[285] = 2; o[286] = 0; o[287] = 1; }
extern "C" void m_ar_mulAxis2(u8* o) { o[0] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(4)} * Axis2(0)); o[1] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(4)} * Axis2(1)); o[2] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(4)} * Axis2(2)); o[3] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(4)} * Axis2(3)); o[4] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(5)} * Axis2(0)); o[5] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(5)} * Axis2(1)); o[6] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(5)} * Axis2(2)); o[7] = (u8) (AxisRot{Axis3(0), Axis3(2), Axis3(5)} * Axis2(3)); o[8] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(5)} * Axis2(0)); o[9] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(5)} * Axis2(1)); o[10] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(5)} * Axis2(2)); o[11] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(5)} * Axis2(3)); o[12] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(4)} * Axis2(0)); o[13] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(4)} * Axis2(1)); o[14] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(4)} * Axis2(2)); o[15] = (u8) (AxisRot{Axis3(0), Axis3(3), Axis3(4)} * Axis2(3)); o[16] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(3)} * Axis2(0)); o[17] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(3)} * Axis2(1)); o[18] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(3)} * Axis2(2)); o[19] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(3)} * Axis2(3)); o[20] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(2)} * Axis2(0)); o[21] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(2)} * Axis2(1)); o[22] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(2)} * Axis2(2)); o[23] = (u8) (AxisRot{Axis3(0), Axis3(4), Axis3(2)} * Axis2(3)); o[24] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(2)} * Axis2(0)); o[25] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(2)} * Axis2(1)); o[26] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(2)} * Axis2(2)); o[27] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(2)} * Axis2(3)); o[28] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(3)} * Axis2(0)); o[29] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(3)} * Axis2(1)); o[30] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(3)} * Axis2(2)); o[31] = (u8) (AxisRot{Axis3(0), Axis3(5), Axis3(3)} * Axis2(3)); o[32] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(5)} * Axis2(0)); o[33] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(5)} * Axis2(1)); o[34] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(5)} * Axis2(2)); o[35] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(5)} * Axis2(3)); o[36] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(4)} * Axis2(0)); o[37] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(4)} * Axis2(1)); o[38] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(4)} * Axis2(2)); o[39] = (u8) (AxisRot{Axis3(1), Axis3(2), Axis3(4)} * Axis2(3)); o[40] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(4)} * Axis2(0)); o[41] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(4)} * Axis2(1)); o[42] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(4)} * Axis2(2)); o[43] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(4)} * Axis2(3)); o[44] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(5)} * Axis2(0)); o[45] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(5)} * Axis2(1)); o[46] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(5)} * Axis2(2)); o[47] = (u8) (AxisRot{Axis3(1), Axis3(3), Axis3(5)} * Axis2(3)); o[48] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(2)} * Axis2(0)); o[49] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(2)} * Axis2(1)); o[50] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(2)} * Axis2(2)); o[51] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(2)} * Axis2(3)); o[52] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(3)} * Axis2(0)); o[53] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(3)} * Axis2(1)); o[54] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(3)} * Axis2(2)); o[55] = (u8) (AxisRot{Axis3(1), Axis3(4), Axis3(3)} * Axis2(3)); o[56] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(3)} * Axis2(0)); o[57] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(3)} * Axis2(1)); o[58] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(3)} * Axis2(2)); o[59] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(3)} * Axis2(3)); o[60] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(2)} * Axis2(0)); o[61] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(2)} * Axis2(1)); o[62] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(2)} * Axis2(2)); o[63] = (u8) (AxisRot{Axis3(1), Axis3(5), Axis3(2)} * Axis2(3)); o[64] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(5)} * Axis2(0)); o[65] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(5)} * Axis2(1)); o[66] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(5)} * Axis2(2)); o[67] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(5)} * Axis2(3)); o[68] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(4)} * Axis2(0)); o[69] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(4)} * Axis2(1)); o[70] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(4)} * Axis2(2)); o[71] = (u8) (AxisRot{Axis3(2), Axis3(0), Axis3(4)} * Axis2(3)); o[72] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(4)} * Axis2(0)); o[73] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(4)} * Axis2(1)); o[74] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(4)} * Axis2(2)); o[75] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(4)} * Axis2(3)); o[76] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(5)} * Axis2(0)); o[77] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(5)} * Axis2(1)); o[78] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(5)} * Axis2(2)); o[79] = (u8) (AxisRot{Axis3(2), Axis3(1), Axis3(5)} * Axis2(3)); o[80] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(0)} * Axis2(0)); o[81] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(0)} * Axis2(1)); o[82] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(0)} * Axis2(2)); o[83] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(0)} * Axis2(3)); o[84] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(1)} * Axis2(0)); o[85] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(1)} * Axis2(1)); o[86] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(1)} * Axis2(2)); o[87] = (u8) (AxisRot{Axis3(2), Axis3(4), Axis3(1)} * Axis2(3)); o[88] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(1)} * Axis2(0)); o[89] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(1)} * Axis2(1)); o[90] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(1)} * Axis2(2)); o[91] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(1)} * Axis2(3)); o[92] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(0)} * Axis2(0)); o[93] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(0)} * Axis2(1)); o[94] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(0)} * Axis2(2)); o[95] = (u8) (AxisRot{Axis3(2), Axis3(5), Axis3(0)} * Axis2(3)); o[96] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(4)} * Axis2(0)); o[97] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(4)} * Axis2(1)); o[98] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(4)} * Axis2(2)); o[99] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(4)} * Axis2(3)); o[100] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(5)} * Axis2(0)); o[101] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(5)} * Axis2(1)); o[102] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(5)} * Axis2(2)); o[103] = (u8) (AxisRot{Axis3(3), Axis3(0), Axis3(5)} * Axis2(3)); o[104] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(5)} * Axis2(0)); o[105] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(5)} * Axis2(1)); o[106] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(5)} * Axis2(2)); o[107] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(5)} * Axis2(3)); o[108] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(4)} * Axis2(0)); o[109] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(4)} * Axis2(1)); o[110] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(4)} * Axis2(2)); o[111] = (u8) (AxisRot{Axis3(3), Axis3(1), Axis3(4)} * Axis2(3)); o[112] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(1)} * Axis2(0)); o[113] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(1)} * Axis2(1)); o[114] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(1)} * Axis2(2)); o[115] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(1)} * Axis2(3)); o[116] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(0)} * Axis2(0)); o[117] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(0)} * Axis2(1)); o[118] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(0)} * Axis2(2)); o[119] = (u8) (AxisRot{Axis3(3), Axis3(4), Axis3(0)} * Axis2(3)); o[120] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(0)} * Axis2(0)); o[121] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(0)} * Axis2(1)); o[122] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(0)} * Axis2(2)); o[123] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(0)} * Axis2(3)); o[124] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(1)} * Axis2(0)); o[125] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(1)} * Axis2(1)); o[126] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(1)} * Axis2(2)); o[127] = (u8) (AxisRot{Axis3(3), Axis3(5), Axis3(1)} * Axis2(3)); o[128] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(2)} * Axis2(0)); o[129] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(2)} * Axis2(1)); o[130] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(2)} * Axis2(2)); o[131] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(2)} * Axis2(3)); o[132] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(3)} * Axis2(0)); o[133] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(3)} * Axis2(1)); o[134] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(3)} * Axis2(2)); o[135] = (u8) (AxisRot{Axis3(4), Axis3(0), Axis3(3)} * Axis2(3)); o[136] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(3)} * Axis2(0)); o[137] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(3)} * Axis2(1)); o[138] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(3)} * Axis2(2)); o[139] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(3)} * Axis2(3)); o[140] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(2)} * Axis2(0)); o[141] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(2)} * Axis2(1)); o[142] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(2)} * Axis2(2)); o[143] = (u8) (AxisRot{Axis3(4), Axis3(1), Axis3(2)} * Axis2(3)); o[144] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(1)} * Axis2(0)); o[145] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(1)} * Axis2(1)); o[146] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(1)} * Axis2(2)); o[147] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(1)} * Axis2(3)); o[148] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(0)} * Axis2(0)); o[149] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(0)} * Axis2(1)); o[150] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(0)} * Axis2(2)); o[151] = (u8) (AxisRot{Axis3(4), Axis3(2), Axis3(0)} * Axis2(3)); o[152] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(0)} * Axis2(0)); o[153] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(0)} * Axis2(1)); o[154] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(0)} * Axis2(2)); o[155] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(0)} * Axis2(3)); o[156] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(1)} * Axis2(0)); o[157] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(1)} * Axis2(1)); o[158] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(1)} * Axis2(2)); o[159] = (u8) (AxisRot{Axis3(4), Axis3(3), Axis3(1)} * Axis2(3)); o[160] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(3)} * Axis2(0)); o[161] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(3)} * Axis2(1)); o[162] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(3)} * Axis2(2)); o[163] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(3)} * Axis2(3)); o[164] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(2)} * Axis2(0)); o[165] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(2)} * Axis2(1)); o[166] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(2)} * Axis2(2)); o[167] = (u8) (AxisRot{Axis3(5), Axis3(0), Axis3(2)} * Axis2(3)); o[168] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(2)} * Axis2(0)); o[169] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(2)} * Axis2(1)); o[170] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(2)} * Axis2(2)); o[171] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(2)} * Axis2(3)); o[172] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(3)} * Axis2(0)); o[173] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(3)} * Axis2(1)); o[174] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(3)} * Axis2(2)); o[175] = (u8) (AxisRot{Axis3(5), Axis3(1), Axis3(3)} * Axis2(3)); o[176] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(0)} * Axis2(0)); o[177] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(0)} * Axis2(1)); o[178] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(0)} * Axis2(2)); o[179] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(0)} * Axis2(3)); o[180] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(1)} * Axis2(0)); o[181] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(1)} * Axis2(1)); o[182] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(1)} * Axis2(2)); o[183] = (u8) (AxisRot{Axis3(5), Axis3(2), Axis3(1)} * Axis2(3)); o[184] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(1)} * Axis2(0)); o[185] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(1)} * Axis2(1)); o[186] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(1)} * Axis2(2)); o[187] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(1)} * Axis2(3)); o[188] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(0)} * Axis2(0)); o[189] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(0)} * Axis2(1)); o[190] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(0)} * Axis2(2)); o[191] = (u8) (AxisRot{Axis3(5), Axis3(3), Axis3(0)} * Axis2(3)); }
extern "C" void r_ar_mulAxis2(u8* o) { o[0] = 0; o[1] = 2; o[2] = 1; o[3] = 3; o[4] = 0; o[5] = 2; o[6] = 1; o[7] = 3; o[8] = 0; o[9] = 3; o[10] = 1; o[11] = 2; o[12] = 0; o[13] = 3; o[14] = 1; o[15] = 2; o[16] = 0; o[17] = 4; o[18] = 1; o[19] = 5; o[20] = 0; o[21] = 4; o[22] = 1; o[23] = 5; o[24] = 0; o[25] = 5; o[26] = 1; o[27] = 4; o[28] = 0; o[29] = 5; o[30] = 1; o[31] = 4; o[32] = 1; o[33] = 2; o[34] = 0; o[35] = 3; o[36] = 1; o[37] = 2; o[38] = 0; o[39] = 3; o[40] = 1; o[41] = 3; o[42] = 0; o[43] = 2; o[44] = 1; o[45] = 3; o[46] = 0; o[47] = 2; o[48] = 1; o[49] = 4; o[50] = 0; o[51] = 5; o[52] = 1; o[53] = 4; o[54] = 0; o[55] = 5; o[56] = 1; o[57] = 5; o[58] = 0; o[59] = 4; o[60] = 1; o[61] = 5; o[62] = 0; o[63] = 4; o[64] = 2; o[65] = 0; o[66] = 3; o[67] = 1; o[68] = 2; o[69] = 0; o[70] = 3; o[71] = 1; o[72] = 2; o[73] = 1; o[74] = 3; o[75] = 0; o[76] = 2; o[77] = 1; o[78] = 3; o[79] = 0; o[80] = 2; o[81] = 4; o[82] = 3; o[83] = 5; o[84] = 2; o[85] = 4; o[86] = 3; o[87] = 5; o[88] = 2; o[89] = 5; o[90] = 3; o[91] = 4; o[92] = 2; o[93] = 5; o[94] = 3; o[95] = 4; o[96] = 3; o[97] = 0; o[98] = 2; o[99] = 1; o[100] = 3; o[101] = 0; o[102] = 2; o[103] = 1; o[104] = 3; o[105] = 1; o[106] = 2; o[107] = 0; o[108] = 3; o[109] = 1; o[110] = 2; o[111] = 0; o[112] = 3; o[113] = 4; o[114] = 2; o[115] = 5; o[116] = 3; o[117] = 4; o[118] = 2; o[119] = 5; o[120] = 3; o[121] = 5; o[122] = 2; o[123] = 4; o[124] = 3; o[125] = 5; o[126] = 2; o[127] = 4; o[128] = 4; o[129] = 0; o[130] = 5; o[131] = 1; o[132] = 4; o[133] = 0; o[134] = 5; o[135] = 1; o[136] = 4; o[137] = 1; o[138] = 5; o[139] = 0; o[140] = 4; o[141] = 1; o[142] = 5; o[143] = 0; o[144] = 4; o[145] = 2; o[146] = 5; o[147] = 3; o[148] = 4; o[149] = 2; o[150] = 5; o[151] = 3; o[152] = 4; o[153] = 3; o[154] = 5; o[155] = 2; o[156] = 4; o[157] = 3; o[158] = 5; o[159] = 2; o[160] = 5; o[161] = 0; o[162] = 4; o[163] = 1; o[164] = 5; o[165] = 0; o[166] = 4; o[167] = 1; o[168] = 5; o[169] = 1; o[170] = 4; o[171] = 0; o[172] = 5; o[173] = 1; o[174] = 4; o[175] = 0; o[176] = 5; o[177] = 2; o[178] = 4; o[179] = 3; o[180] = 5; o[181] = 2; o[182] = 4; o[183] = 3; o[184] = 5; o[185] = 3; o[186] = 4; o[187] = 2; o[188] = 5; o[189] = 3; o[190] = 4; o[191] = 2; }
extern "C" void m_ar_inverted(AxisRot* o) { o[0] = AxisRot{Axis3(0), Axis3(2), Axis3(4)}.inverted(); o[1] = AxisRot{Axis3(0), Axis3(2), Axis3(5)}.inverted(); o[2] = AxisRot{Axis3(0), Axis3(3), Axis3(5)}.inverted(); o[3] = AxisRot{Axis3(0), Axis3(3), Axis3(4)}.inverted(); o[4] = AxisRot{Axis3(0), Axis3(4), Axis3(3)}.inverted(); o[5] = AxisRot{Axis3(0), Axis3(4), Axis3(2)}.inverted(); o[6] = AxisRot{Axis3(0), Axis3(5), Axis3(2)}.inverted(); o[7] = AxisRot{Axis3(0), Axis3(5), Axis3(3)}.inverted(); o[8] = AxisRot{Axis3(1), Axis3(2), Axis3(5)}.inverted(); o[9] = AxisRot{Axis3(1), Axis3(2), Axis3(4)}.inverted(); o[10] = AxisRot{Axis3(1), Axis3(3), Axis3(4)}.inverted(); o[11] = AxisRot{Axis3(1), Axis3(3), Axis3(5)}.inverted(); o[12] = AxisRot{Axis3(1), Axis3(4), Axis3(2)}.inverted(); o[13] = AxisRot{Axis3(1), Axis3(4), Axis3(3)}.inverted(); o[14] = AxisRot{Axis3(1), Axis3(5), Axis3(3)}.inverted(); o[15] = AxisRot{Axis3(1), Axis3(5), Axis3(2)}.inverted(); o[16] = AxisRot{Axis3(2), Axis3(0), Axis3(5)}.inverted(); o[17] = AxisRot{Axis3(2), Axis3(0), Axis3(4)}.inverted(); o[18] = AxisRot{Axis3(2), Axis3(1), Axis3(4)}.inverted(); o[19] = AxisRot{Axis3(2), Axis3(1), Axis3(5)}.inverted(); o[20] = AxisRot{Axis3(2), Axis3(4), Axis3(0)}.inverted(); o[21] = AxisRot{Axis3(2), Axis3(4), Axis3(1)}.inverted(); o[22] = AxisRot{Axis3(2), Axis3(5), Axis3(1)}.inverted(); o[23] = AxisRot{Axis3(2), Axis3(5), Axis3(0)}.inverted(); o[24] = AxisRot{Axis3(3), Axis3(0), Axis3(4)}.inverted(); o[25] = AxisRot{Axis3(3), Axis3(0), Axis3(5)}.inverted(); o[26] = AxisRot{Axis3(3), Axis3(1), Axis3(5)}.inverted(); o[27] = AxisRot{Axis3(3), Axis3(1), Axis3(4)}.inverted(); o[28] = AxisRot{Axis3(3), Axis3(4), Axis3(1)}.inverted(); o[29] = AxisRot{Axis3(3), Axis3(4), Axis3(0)}.inverted(); o[30] = AxisRot{Axis3(3), Axis3(5), Axis3(0)}.inverted(); o[31] = AxisRot{Axis3(3), Axis3(5), Axis3(1)}.inverted(); o[32] = AxisRot{Axis3(4), Axis3(0), Axis3(2)}.inverted(); o[33] = AxisRot{Axis3(4), Axis3(0), Axis3(3)}.inverted(); o[34] = AxisRot{Axis3(4), Axis3(1), Axis3(3)}.inverted(); o[35] = AxisRot{Axis3(4), Axis3(1), Axis3(2)}.inverted(); o[36] = AxisRot{Axis3(4), Axis3(2), Axis3(1)}.inverted(); o[37] = AxisRot{Axis3(4), Axis3(2), Axis3(0)}.inverted(); o[38] = AxisRot{Axis3(4), Axis3(3), Axis3(0)}.inverted(); o[39] = AxisRot{Axis3(4), Axis3(3), Axis3(1)}.inverted(); o[40] = AxisRot{Axis3(5), Axis3(0), Axis3(3)}.inverted(); o[41] = AxisRot{Axis3(5), Axis3(0), Axis3(2)}.inverted(); o[42] = AxisRot{Axis3(5), Axis3(1), Axis3(2)}.inverted(); o[43] = AxisRot{Axis3(5), Axis3(1), Axis3(3)}.inverted(); o[44] = AxisRot{Axis3(5), Axis3(2), Axis3(0)}.inverted(); o[45] = AxisRot{Axis3(5), Axis3(2), Axis3(1)}.inverted(); o[46] = AxisRot{Axis3(5), Axis3(3), Axis3(1)}.inverted(); o[47] = AxisRot{Axis3(5), Axis3(3), Axis3(0)}.inverted(); }
extern "C" void r_ar_inverted(AxisRot* o) { o[0].cols[0] = Axis3(0); o[0].cols[1] = Axis3(2); o[0].cols[2] = Axis3(4); o[1].cols[0] = Axis3(0); o[1].cols[1] = Axis3(2); o[1].cols[2] = Axis3(5); o[2].cols[0] = Axis3(0); o[2].cols[1] = Axis3(3); o[2].cols[2] = Axis3(5); o[3].cols[0] = Axis3(0); o[3].cols[1] = Axis3(3); o[3].cols[2] = Axis3(4); o[4].cols[0] = Axis3(0); o[4].cols[1] = Axis3(5); o[4].cols[2] = Axis3(2); o[5].cols[0] = Axis3(0); o[5].cols[1] = Axis3(4); o[5].cols[2] = Axis3(2); o[6].cols[0] = Axis3(0); o[6].cols[1] = Axis3(4); o[6].cols[2] = Axis3(3); o[7].cols[0] = Axis3(0); o[7].cols[1] = Axis3(5); o[7].cols[2] = Axis3(3); o[8].cols[0] = Axis3(1); o[8].cols[1] = Axis3(2); o[8].cols[2] = Axis3(5); o[9].cols[0] = Axis3(1); o[9].cols[1] = Axis3(2); o[9].cols[2] = Axis3(4); o[10].cols[0] = Axis3(1); o[10].cols[1] = Axis3(3); o[10].cols[2] = Axis3(4); o[11].cols[0] = Axis3(1); o[11].cols[1] = Axis3(3); o[11].cols[2] = Axis3(5); o[12].cols[0] = Axis3(1); o[12].cols[1] = Axis3(4); o[12].cols[2] = Axis3(2); o[13].cols[0] = Axis3(1); o[13].cols[1] = Axis3(5); o[13].cols[2] = Axis3(2); o[14].cols[0] = Axis3(1); o[14].cols[1] = Axis3(5); o[14].cols[2] = Axis3(3); o[15].cols[0] = Axis3(1); o[15].cols[1] = Axis3(4); o[15].cols[2] = Axis3(3); o[16].cols[0] = Axis3(2); o[16].cols[1] = Axis3(0); o[16].cols[2] = Axis3(5); o[17].cols[0] = Axis3(2); o[17].cols[1] = Axis3(0); o[17].cols[2] = Axis3(4); o[18].cols[0] = Axis3(3); o[18].cols[1] = Axis3(0); o[18].cols[2] = Axis3(4); o[19].cols[0] = Axis3(3); o[19].cols[1] = Axis3(0); o[19].cols[2] = Axis3(5); o[20].cols[0] = Axis3(4); o[20].cols[1] = Axis3(0); o[20].cols[2] = Axis3(2); o[21].cols[0] = Axis3(5); o[21].cols[1] = Axis3(0); o[21].cols[2] = Axis3(2); o[22].cols[0] = Axis3(5); o[22].cols[1] = Axis3(0); o[22].cols[2] = Axis3(3); o[23].cols[0] = Axis3(4); o[23].cols[1] = Axis3(0); o[23].cols[2] = Axis3(3); o[24].cols[0] = Axis3(2); o[24].cols[1] = Axis3(1); o[24].cols[2] = Axis3(4); o[25].cols[0] = Axis3(2); o[25].cols[1] = Axis3(1); o[25].cols[2] = Axis3(5); o[26].cols[0] = Axis3(3); o[26].cols[1] = Axis3(1); o[26].cols[2] = Axis3(5); o[27].cols[0] = Axis3(3); o[27].cols[1] = Axis3(1); o[27].cols[2] = Axis3(4); o[28].cols[0] = Axis3(5); o[28].cols[1] = Axis3(1); o[28].cols[2] = Axis3(2); o[29].cols[0] = Axis3(4); o[29].cols[1] = Axis3(1); o[29].cols[2] = Axis3(2); o[30].cols[0] = Axis3(4); o[30].cols[1] = Axis3(1); o[30].cols[2] = Axis3(3); o[31].cols[0] = Axis3(5); o[31].cols[1] = Axis3(1); o[31].cols[2] = Axis3(3); o[32].cols[0] = Axis3(2); o[32].cols[1] = Axis3(4); o[32].cols[2] = Axis3(0); o[33].cols[0] = Axis3(2); o[33].cols[1] = Axis3(5); o[33].cols[2] = Axis3(0); o[34].cols[0] = Axis3(3); o[34].cols[1] = Axis3(5); o[34].cols[2] = Axis3(0); o[35].cols[0] = Axis3(3); o[35].cols[1] = Axis3(4); o[35].cols[2] = Axis3(0); o[36].cols[0] = Axis3(5); o[36].cols[1] = Axis3(2); o[36].cols[2] = Axis3(0); o[37].cols[0] = Axis3(4); o[37].cols[1] = Axis3(2); o[37].cols[2] = Axis3(0); o[38].cols[0] = Axis3(4); o[38].cols[1] = Axis3(3); o[38].cols[2] = Axis3(0); o[39].cols[0] = Axis3(5); o[39].cols[1] = Axis3(3); o[39].cols[2] = Axis3(0); o[40].cols[0] = Axis3(2); o[40].cols[1] = Axis3(5); o[40].cols[2] = Axis3(1); o[41].cols[0] = Axis3(2); o[41].cols[1] = Axis3(4); o[41].cols[2] = Axis3(1); o[42].cols[0] = Axis3(3); o[42].cols[1] = Axis3(4); o[42].cols[2] = Axis3(1); o[43].cols[0] = Axis3(3); o[43].cols[1] = Axis3(5); o[43].cols[2] = Axis3(1); o[44].cols[0] = Axis3(4); o[44].cols[1] = Axis3(2); o[44].cols[2] = Axis3(1); o[45].cols[0] = Axis3(5); o[45].cols[1] = Axis3(2); o[45].cols[2] = Axis3(1); o[46].cols[0] = Axis3(5); o[46].cols[1] = Axis3(3); o[46].cols[2] = Axis3(1); o[47].cols[0] = Axis3(4); o[47].cols[1] = Axis3(3); o[47].cols[2] = Axis3(1); }
extern "C" void m_ar_mulv(const Float3& v, Float3* o) { o[0] = AxisRot{Axis3(0), Axis3(2), Axis3(4)} * v; o[1] = AxisRot{Axis3(0), Axis3(2), Axis3(5)} * v; o[2] = AxisRot{Axis3(0), Axis3(3), Axis3(5)} * v; o[3] = AxisRot{Axis3(0), Axis3(3), Axis3(4)} * v; o[4] = AxisRot{Axis3(0), Axis3(4), Axis3(3)} * v; o[5] = AxisRot{Axis3(0), Axis3(4), Axis3(2)} * v; o[6] = AxisRot{Axis3(0), Axis3(5), Axis3(2)} * v; o[7] = AxisRot{Axis3(0), Axis3(5), Axis3(3)} * v; o[8] = AxisRot{Axis3(1), Axis3(2), Axis3(5)} * v; o[9] = AxisRot{Axis3(1), Axis3(2), Axis3(4)} * v; o[10] = AxisRot{Axis3(1), Axis3(3), Axis3(4)} * v; o[11] = AxisRot{Axis3(1), Axis3(3), Axis3(5)} * v; o[12] = AxisRot{Axis3(1), Axis3(4), Axis3(2)} * v; o[13] = AxisRot{Axis3(1), Axis3(4), Axis3(3)} * v; o[14] = AxisRot{Axis3(1), Axis3(5), Axis3(3)} * v; o[15] = AxisRot{Axis3(1), Axis3(5), Axis3(2)} * v; o[16] = AxisRot{Axis3(2), Axis3(0), Axis3(5)} * v; o[17] = AxisRot{Axis3(2), Axis3(0), Axis3(4)} * v; o[18] = AxisRot{Axis3(2), Axis3(1), Axis3(4)} * v; o[19] = AxisRot{Axis3(2), Axis3(1), Axis3(5)} * v; o[20] = AxisRot{Axis3(2), Axis3(4), Axis3(0)} * v; o[21] = AxisRot{Axis3(2), Axis3(4), Axis3(1)} * v; o[22] = AxisRot{Axis3(2), Axis3(5), Axis3(1)} * v; o[23] = AxisRot{Axis3(2), Axis3(5), Axis3(0)} * v; o[24] = AxisRot{Axis3(3), Axis3(0), Axis3(4)} * v; o[25] = AxisRot{Axis3(3), Axis3(0), Axis3(5)} * v; o[26] = AxisRot{Axis3(3), Axis3(1), Axis3(5)} * v; o[27] = AxisRot{Axis3(3), Axis3(1), Axis3(4)} * v; o[28] = AxisRot{Axis3(3), Axis3(4), Axis3(1)} * v; o[29] = AxisRot{Axis3(3), Axis3(4), Axis3(0)} * v; o[30] = AxisRot{Axis3(3), Axis3(5), Axis3(0)} * v; o[31] = AxisRot{Axis3(3), Axis3(5), Axis3(1)} * v; o[32] = AxisRot{Axis3(4), Axis3(0), Axis3(2)} * v; o[33] = AxisRot{Axis3(4), Axis3(0), Axis3(3)} * v; o[34] = AxisRot{Axis3(4), Axis3(1), Axis3(3)} * v; o[35] = AxisRot{Axis3(4), Axis3(1), Axis3(2)} * v; o[36] = AxisRot{Axis3(4), Axis3(2), Axis3(1)} * v; o[37] = AxisRot{Axis3(4), Axis3(2), Axis3(0)} * v; o[38] = AxisRot{Axis3(4), Axis3(3), Axis3(0)} * v; o[39] = AxisRot{Axis3(4), Axis3(3), Axis3(1)} * v; o[40] = AxisRot{Axis3(5), Axis3(0), Axis3(3)} * v; o[41] = AxisRot{Axis3(5), Axis3(0), Axis3(2)} * v; o[42] = AxisRot{Axis3(5), Axis3(1), Axis3(2)} * v; o[43] = AxisRot{Axis3(5), Axis3(1), Axis3(3)} * v; o[44] = AxisRot{Axis3(5), Axis3(2), Axis3(0)} * v; o[45] = AxisRot{Axis3(5), Axis3(2), Axis3(1)} * v; o[46] = AxisRot{Axis3(5), Axis3(3), Axis3(1)} * v; o[47] = AxisRot{Axis3(5), Axis3(3), Axis3(0)} * v; }
extern "C" void r_ar_mulv(const Float3& v, Float3* o) { o[0].x = v.x; o[0].y = v.y; o[0].z = v.z; o[1].x = v.x; o[1].y = v.y; o[1].z = -v.z; o[2].x = v.x; o[2].y = -v.y; o[2].z = -v.z; o[3].x = v.x; o[3].y = -v.y; o[3].z = v.z; o[4].x = v.x; o[4].y = -v.z; o[4].z = v.y; o[5].x = v.x; o[5].y = v.z; o[5].z = v.y; o[6].x = v.x; o[6].y = v.z; o[6].z = -v.y; o[7].x = v.x; o[7].y = -v.z; o[7].z = -v.y; o[8].x = -v.x; o[8].y = v.y; o[8].z = -v.z; o[9].x = -v.x; o[9].y = v.y; o[9].z = v.z; o[10].x = -v.x; o[10].y = -v.y; o[10].z = v.z; o[11].x = -v.x; o[11].y = -v.y; o[11].z = -v.z; o[12].x = -v.x; o[12].y = v.z; o[12].z = v.y; o[13].x = -v.x; o[13].y = -v.z; o[13].z = v.y; o[14].x = -v.x; o[14].y = -v.z; o[14].z = -v.y; o[15].x = -v.x; o[15].y = v.z; o[15].z = -v.y; o[16].x = v.y; o[16].y = v.x; o[16].z = -v.z; o[17].x = v.y; o[17].y = v.x; o[17].z = v.z; o[18].x = -v.y; o[18].y = v.x; o[18].z = v.z; o[19].x = -v.y; o[19].y = v.x; o[19].z = -v.z; o[20].x = v.z; o[20].y = v.x; o[20].z = v.y; o[21].x = -v.z; o[21].y = v.x; o[21].z = v.y; o[22].x = -v.z; o[22].y = v.x; o[22].z = -v.y; o[23].x = v.z; o[23].y = v.x; o[23].z = -v.y; o[24].x = v.y; o[24].y = -v.x; o[24].z = v.z; o[25].x = v.y; o[25].y = -v.x; o[25].z = -v.z; o[26].x = -v.y; o[26].y = -v.x; o[26].z = -v.z; o[27].x = -v.y; o[27].y = -v.x; o[27].z = v.z; o[28].x = -v.z; o[28].y = -v.x; o[28].z = v.y; o[29].x = v.z; o[29].y = -v.x; o[29].z = v.y; o[30].x = v.z; o[30].y = -v.x; o[30].z = -v.y; o[31].x = -v.z; o[31].y = -v.x; o[31].z = -v.y; o[32].x = v.y; o[32].y = v.z; o[32].z = v.x; o[33].x = v.y; o[33].y = -v.z; o[33].z = v.x; o[34].x = -v.y; o[34].y = -v.z; o[34].z = v.x; o[35].x = -v.y; o[35].y = v.z; o[35].z = v.x; o[36].x = -v.z; o[36].y = v.y; o[36].z = v.x; o[37].x = v.z; o[37].y = v.y; o[37].z = v.x; o[38].x = v.z; o[38].y = -v.y; o[38].z = v.x; o[39].x = -v.z; o[39].y = -v.y; o[39].z = v.x; o[40].x = v.y; o[40].y = -v.z; o[40].z = -v.x; o[41].x = v.y; o[41].y = v.z; o[41].z = -v.x; o[42].x = -v.y; o[42].y = v.z; o[42].z = -v.x; o[43].x = -v.y; o[43].y = -v.z; o[43].z = -v.x; o[44].x = v.z; o[44].y = v.y; o[44].z = -v.x; o[45].x = -v.z; o[45].y = v.y; o[45].z = -v.x; o[46].x = -v.z; o[46].y = -v.y; o[46].z = -v.x; o[47].x = v.z; o[47].y = -v.y; o[47].z = -v.x; }
extern "C" void m_ar_rightHanded(bool* o) { o[0] = AxisRot{Axis3(0), Axis3(2), Axis3(4)}.isRightHanded(); o[1] = AxisRot{Axis3(0), Axis3(2), Axis3(5)}.isRightHanded(); o[2] = AxisRot{Axis3(0), Axis3(3), Axis3(5)}.isRightHanded(); o[3] = AxisRot{Axis3(0), Axis3(3), Axis3(4)}.isRightHanded(); o[4] = AxisRot{Axis3(0), Axis3(4), Axis3(3)}.isRightHanded(); o[5] = AxisRot{Axis3(0), Axis3(4), Axis3(2)}.isRightHanded(); o[6] = AxisRot{Axis3(0), Axis3(5), Axis3(2)}.isRightHanded(); o[7] = AxisRot{Axis3(0), Axis3(5), Axis3(3)}.isRightHanded(); o[8] = AxisRot{Axis3(1), Axis3(2), Axis3(5)}.isRightHanded(); o[9] = AxisRot{Axis3(1), Axis3(2), Axis3(4)}.isRightHanded(); o[10] = AxisRot{Axis3(1), Axis3(3), Axis3(4)}.isRightHanded(); o[11] = AxisRot{Axis3(1), Axis3(3), Axis3(5)}.isRightHanded(); o[12] = AxisRot{Axis3(1), Axis3(4), Axis3(2)}.isRightHanded(); o[13] = AxisRot{Axis3(1), Axis3(4), Axis3(3)}.isRightHanded(); o[14] = AxisRot{Axis3(1), Axis3(5), Axis3(3)}.isRightHanded(); o[15] = AxisRot{Axis3(1), Axis3(5), Axis3(2)}.isRightHanded(); o[16] = AxisRot{Axis3(2), Axis3(0), Axis3(5)}.isRightHanded(); o[17] = AxisRot{Axis3(2), Axis3(0), Axis3(4)}.isRightHanded(); o[18] = AxisRot{Axis3(2), Axis3(1), Axis3(4)}.isRightHanded(); o[19] = AxisRot{Axis3(2), Axis3(1), Axis3(5)}.isRightHanded(); o[20] = AxisRot{Axis3(2), Axis3(4), Axis3(0)}.isRightHanded(); o[21] = AxisRot{Axis3(2), Axis3(4), Axis3(1)}.isRightHanded(); o[22] = AxisRot{Axis3(2), Axis3(5), Axis3(1)}.isRightHanded(); o[23] = AxisRot{Axis3(2), Axis3(5), Axis3(0)}.isRightHanded(); o[24] = AxisRot{Axis3(3), Axis3(0), Axis3(4)}.isRightHanded(); o[25] = AxisRot{Axis3(3), Axis3(0), Axis3(5)}.isRightHanded(); o[26] = AxisRot{Axis3(3), Axis3(1), Axis3(5)}.isRightHanded(); o[27] = AxisRot{Axis3(3), Axis3(1), Axis3(4)}.isRightHanded(); o[28] = AxisRot{Axis3(3), Axis3(4), Axis3(1)}.isRightHanded(); o[29] = AxisRot{Axis3(3), Axis3(4), Axis3(0)}.isRightHanded(); o[30] = AxisRot{Axis3(3), Axis3(5), Axis3(0)}.isRightHanded(); o[31] = AxisRot{Axis3(3), Axis3(5), Axis3(1)}.isRightHanded(); o[32] = AxisRot{Axis3(4), Axis3(0), Axis3(2)}.isRightHanded(); o[33] = AxisRot{Axis3(4), Axis3(0), Axis3(3)}.isRightHanded(); o[34] = AxisRot{Axis3(4), Axis3(1), Axis3(3)}.isRightHanded(); o[35] = AxisRot{Axis3(4), Axis3(1), Axis3(2)}.isRightHanded(); o[36] = AxisRot{Axis3(4), Axis3(2), Axis3(1)}.isRightHanded(); o[37] = AxisRot{Axis3(4), Axis3(2), Axis3(0)}.isRightHanded(); o[38] = AxisRot{Axis3(4), Axis3(3), Axis3(0)}.isRightHanded(); o[39] = AxisRot{Axis3(4), Axis3(3), Axis3(1)}.isRightHanded(); o[40] = AxisRot{Axis3(5), Axis3(0), Axis3(3)}.isRightHanded(); o[41] = AxisRot{Axis3(5), Axis3(0), Axis3(2)}.isRightHanded(); o[42] = AxisRot{Axis3(5), Axis3(1), Axis3(2)}.isRightHanded(); o[43] = AxisRot{Axis3(5), Axis3(1), Axis3(3)}.isRightHanded(); o[44] = AxisRot{Axis3(5), Axis3(2), Axis3(0)}.isRightHanded(); o[45] = AxisRot{Axis3(5), Axis3(2), Axis3(1)}.isRightHanded(); o[46] = AxisRot{Axis3(5), Axis3(3), Axis3(1)}.isRightHanded(); o[47] = AxisRot{Axis3(5), Axis3(3), Axis3(0)}.isRightHanded(); }
extern "C" void r_ar_rightHanded(bool* o) { o[0] = 1; o[1] = 0; o[2] = 1; o[3] = 0; o[4] = 1; o[5] = 0; o[6] = 1; o[7] = 0; o[8] = 1; o[9] = 0; o[10] = 1; o[11] = 0; o[12] = 1; o[13] = 0; o[14] = 1; o[15] = 0; o[16] = 1; o[17] = 0; o[18] = 1; o[19] = 0; o[20] = 1; o[21] = 0; o[22] = 1; o[23] = 0; o[24] = 1; o[25] = 0; o[26] = 1; o[27] = 0; o[28] = 1; o[29] = 0; o[30] = 1; o[31] = 0; o[32] = 1; o[33] = 0; o[34] = 1; o[35] = 0; o[36] = 1; o[37] = 0; o[38] = 1; o[39] = 0; o[40] = 1; o[41] = 0; o[42] = 1; o[43] = 0; o[44] = 1; o[45] = 0; o[46] = 1; o[47] = 0; }
extern "C" void m_ar_isOrtho(bool* o) { o[0] = AxisRot{Axis3(0), Axis3(2), Axis3(4)}.isOrtho(); o[1] = AxisRot{Axis3(0), Axis3(2), Axis3(5)}.isOrtho(); o[2] = AxisRot{Axis3(0), Axis3(3), Axis3(5)}.isOrtho(); o[3] = AxisRot{Axis3(0), Axis3(3), Axis3(4)}.isOrtho(); o[4] = AxisRot{Axis3(0), Axis3(4), Axis3(3)}.isOrtho(); o[5] = AxisRot{Axis3(0), Axis3(4), Axis3(2)}.isOrtho(); o[6] = AxisRot{Axis3(0), Axis3(1), Axis3(2)}.isOrtho(); o[7] = AxisRot{Axis3(0), Axis3(2), Axis3(3)}.isOrtho(); o[8] = AxisRot{Axis3(4), Axis3(2), Axis3(4)}.isOrtho(); }
extern "C" void r_ar_isOrtho(bool* o) { o[0] = 1; o[1] = 1; o[2] = 1; o[3] = 1; o[4] = 1; o[5] = 1; o[6] = 0; o[7] = 0; o[8] = 0; }
extern "C" void m_ar_mul(AxisRot* o) { o[0] = AxisRot{Axis3(0), Axis3(2), Axis3(4)} * AxisRot{Axis3(0), Axis3(3), Axis3(4)}; o[1] = AxisRot{Axis3(0), Axis3(2), Axis3(5)} * AxisRot{Axis3(1), Axis3(3), Axis3(4)}; o[2] = AxisRot{Axis3(0), Axis3(3), Axis3(5)} * AxisRot{Axis3(2), Axis3(0), Axis3(4)}; o[3] = AxisRot{Axis3(0), Axis3(3), Axis3(4)} * AxisRot{Axis3(3), Axis3(0), Axis3(4)}; o[4] = AxisRot{Axis3(0), Axis3(4), Axis3(3)} * AxisRot{Axis3(3), Axis3(5), Axis3(1)}; o[5] = AxisRot{Axis3(0), Axis3(4), Axis3(2)} * AxisRot{Axis3(4), Axis3(3), Axis3(0)}; o[6] = AxisRot{Axis3(0), Axis3(5), Axis3(2)} * AxisRot{Axis3(5), Axis3(2), Axis3(1)}; o[7] = AxisRot{Axis3(0), Axis3(5), Axis3(3)} * AxisRot{Axis3(0), Axis3(4), Axis3(3)}; o[8] = AxisRot{Axis3(1), Axis3(2), Axis3(5)} * AxisRot{Axis3(1), Axis3(3), Axis3(5)}; o[9] = AxisRot{Axis3(1), Axis3(2), Axis3(4)} * AxisRot{Axis3(2), Axis3(1), Axis3(4)}; o[10] = AxisRot{Axis3(1), Axis3(3), Axis3(4)} * AxisRot{Axis3(3), Axis3(0), Axis3(5)}; o[11] = AxisRot{Axis3(1), Axis3(3), Axis3(5)} * AxisRot{Axis3(4), Axis3(0), Axis3(2)}; o[12] = AxisRot{Axis3(1), Axis3(4), Axis3(2)} * AxisRot{Axis3(4), Axis3(3), Axis3(1)}; o[13] = AxisRot{Axis3(1), Axis3(4), Axis3(3)} * AxisRot{Axis3(5), Axis3(3), Axis3(1)}; o[14] = AxisRot{Axis3(1), Axis3(5), Axis3(3)} * AxisRot{Axis3(0), Axis3(4), Axis3(2)}; o[15] = AxisRot{Axis3(1), Axis3(5), Axis3(2)} * AxisRot{Axis3(1), Axis3(4), Axis3(2)}; o[16] = AxisRot{Axis3(2), Axis3(0), Axis3(5)} * AxisRot{Axis3(2), Axis3(1), Axis3(5)}; o[17] = AxisRot{Axis3(2), Axis3(0), Axis3(4)} * AxisRot{Axis3(3), Axis3(1), Axis3(5)}; o[18] = AxisRot{Axis3(2), Axis3(1), Axis3(4)} * AxisRot{Axis3(4), Axis3(0), Axis3(3)}; o[19] = AxisRot{Axis3(2), Axis3(1), Axis3(5)} * AxisRot{Axis3(5), Axis3(0), Axis3(3)}; o[20] = AxisRot{Axis3(2), Axis3(4), Axis3(0)} * AxisRot{Axis3(5), Axis3(3), Axis3(0)}; o[21] = AxisRot{Axis3(2), Axis3(4), Axis3(1)} * AxisRot{Axis3(0), Axis3(5), Axis3(2)}; o[22] = AxisRot{Axis3(2), Axis3(5), Axis3(1)} * AxisRot{Axis3(1), Axis3(4), Axis3(3)}; o[23] = AxisRot{Axis3(2), Axis3(5), Axis3(0)} * AxisRot{Axis3(2), Axis3(4), Axis3(0)}; o[24] = AxisRot{Axis3(3), Axis3(0), Axis3(4)} * AxisRot{Axis3(3), Axis3(1), Axis3(4)}; o[25] = AxisRot{Axis3(3), Axis3(0), Axis3(5)} * AxisRot{Axis3(4), Axis3(1), Axis3(3)}; o[26] = AxisRot{Axis3(3), Axis3(1), Axis3(5)} * AxisRot{Axis3(5), Axis3(0), Axis3(2)}; o[27] = AxisRot{Axis3(3), Axis3(1), Axis3(4)} * AxisRot{Axis3(0), Axis3(2), Axis3(4)}; o[28] = AxisRot{Axis3(3), Axis3(4), Axis3(1)} * AxisRot{Axis3(0), Axis3(5), Axis3(3)}; o[29] = AxisRot{Axis3(3), Axis3(4), Axis3(0)} * AxisRot{Axis3(1), Axis3(5), Axis3(3)}; o[30] = AxisRot{Axis3(3), Axis3(5), Axis3(0)} * AxisRot{Axis3(2), Axis3(4), Axis3(1)}; o[31] = AxisRot{Axis3(3), Axis3(5), Axis3(1)} * AxisRot{Axis3(3), Axis3(4), Axis3(1)}; o[32] = AxisRot{Axis3(4), Axis3(0), Axis3(2)} * AxisRot{Axis3(4), Axis3(1), Axis3(2)}; o[33] = AxisRot{Axis3(4), Axis3(0), Axis3(3)} * AxisRot{Axis3(5), Axis3(1), Axis3(2)}; o[34] = AxisRot{Axis3(4), Axis3(1), Axis3(3)} * AxisRot{Axis3(0), Axis3(2), Axis3(5)}; o[35] = AxisRot{Axis3(4), Axis3(1), Axis3(2)} * AxisRot{Axis3(1), Axis3(2), Axis3(5)}; o[36] = AxisRot{Axis3(4), Axis3(2), Axis3(1)} * AxisRot{Axis3(1), Axis3(5), Axis3(2)}; o[37] = AxisRot{Axis3(4), Axis3(2), Axis3(0)} * AxisRot{Axis3(2), Axis3(5), Axis3(1)}; o[38] = AxisRot{Axis3(4), Axis3(3), Axis3(0)} * AxisRot{Axis3(3), Axis3(4), Axis3(0)}; o[39] = AxisRot{Axis3(4), Axis3(3), Axis3(1)} * AxisRot{Axis3(4), Axis3(2), Axis3(1)}; o[40] = AxisRot{Axis3(5), Axis3(0), Axis3(3)} * AxisRot{Axis3(5), Axis3(1), Axis3(3)}; o[41] = AxisRot{Axis3(5), Axis3(0), Axis3(2)} * AxisRot{Axis3(0), Axis3(3), Axis3(5)}; o[42] = AxisRot{Axis3(5), Axis3(1), Axis3(2)} * AxisRot{Axis3(1), Axis3(2), Axis3(4)}; o[43] = AxisRot{Axis3(5), Axis3(1), Axis3(3)} * AxisRot{Axis3(2), Axis3(0), Axis3(5)}; o[44] = AxisRot{Axis3(5), Axis3(2), Axis3(0)} * AxisRot{Axis3(2), Axis3(5), Axis3(0)}; o[45] = AxisRot{Axis3(5), Axis3(2), Axis3(1)} * AxisRot{Axis3(3), Axis3(5), Axis3(0)}; o[46] = AxisRot{Axis3(5), Axis3(3), Axis3(1)} * AxisRot{Axis3(4), Axis3(2), Axis3(0)}; o[47] = AxisRot{Axis3(5), Axis3(3), Axis3(0)} * AxisRot{Axis3(5), Axis3(2), Axis3(0)}; }
extern "C" void r_ar_mul(AxisRot* o) { o[0].cols[0] = Axis3(0); o[0].cols[1] = Axis3(3); o[0].cols[2] = Axis3(4); o[1].cols[0] = Axis3(1); o[1].cols[1] = Axis3(3); o[1].cols[2] = Axis3(5); o[2].cols[0] = Axis3(3); o[2].cols[1] = Axis3(0); o[2].cols[2] = Axis3(5); o[3].cols[0] = Axis3(2); o[3].cols[1] = Axis3(0); o[3].cols[2] = Axis3(4); o[4].cols[0] = Axis3(5); o[4].cols[1] = Axis3(2); o[4].cols[2] = Axis3(1); o[5].cols[0] = Axis3(2); o[5].cols[1] = Axis3(5); o[5].cols[2] = Axis3(0); o[6].cols[0] = Axis3(3); o[6].cols[1] = Axis3(5); o[6].cols[2] = Axis3(1); o[7].cols[0] = Axis3(0); o[7].cols[1] = Axis3(3); o[7].cols[2] = Axis3(4); o[8].cols[0] = Axis3(0); o[8].cols[1] = Axis3(3); o[8].cols[2] = Axis3(4); o[9].cols[0] = Axis3(2); o[9].cols[1] = Axis3(0); o[9].cols[2] = Axis3(4); o[10].cols[0] = Axis3(2); o[10].cols[1] = Axis3(1); o[10].cols[2] = Axis3(5); o[11].cols[0] = Axis3(5); o[11].cols[1] = Axis3(1); o[11].cols[2] = Axis3(3); o[12].cols[0] = Axis3(2); o[12].cols[1] = Axis3(5); o[12].cols[2] = Axis3(0); o[13].cols[0] = Axis3(2); o[13].cols[1] = Axis3(5); o[13].cols[2] = Axis3(0); o[14].cols[0] = Axis3(1); o[14].cols[1] = Axis3(3); o[14].cols[2] = Axis3(5); o[15].cols[0] = Axis3(0); o[15].cols[1] = Axis3(2); o[15].cols[2] = Axis3(5); o[16].cols[0] = Axis3(0); o[16].cols[1] = Axis3(3); o[16].cols[2] = Axis3(4); o[17].cols[0] = Axis3(1); o[17].cols[1] = Axis3(3); o[17].cols[2] = Axis3(5); o[18].cols[0] = Axis3(4); o[18].cols[1] = Axis3(2); o[18].cols[2] = Axis3(0); o[19].cols[0] = Axis3(4); o[19].cols[1] = Axis3(2); o[19].cols[2] = Axis3(0); o[20].cols[0] = Axis3(1); o[20].cols[1] = Axis3(5); o[20].cols[2] = Axis3(2); o[21].cols[0] = Axis3(2); o[21].cols[1] = Axis3(0); o[21].cols[2] = Axis3(4); o[22].cols[0] = Axis3(3); o[22].cols[1] = Axis3(1); o[22].cols[2] = Axis3(4); o[23].cols[0] = Axis3(5); o[23].cols[1] = Axis3(0); o[23].cols[2] = Axis3(2); o[24].cols[0] = Axis3(1); o[24].cols[1] = Axis3(2); o[24].cols[2] = Axis3(4); o[25].cols[0] = Axis3(5); o[25].cols[1] = Axis3(2); o[25].cols[2] = Axis3(1); o[26].cols[0] = Axis3(4); o[26].cols[1] = Axis3(3); o[26].cols[2] = Axis3(1); o[27].cols[0] = Axis3(3); o[27].cols[1] = Axis3(1); o[27].cols[2] = Axis3(4); o[28].cols[0] = Axis3(3); o[28].cols[1] = Axis3(0); o[28].cols[2] = Axis3(5); o[29].cols[0] = Axis3(2); o[29].cols[1] = Axis3(1); o[29].cols[2] = Axis3(5); o[30].cols[0] = Axis3(5); o[30].cols[1] = Axis3(0); o[30].cols[2] = Axis3(2); o[31].cols[0] = Axis3(4); o[31].cols[1] = Axis3(1); o[31].cols[2] = Axis3(2); o[32].cols[0] = Axis3(2); o[32].cols[1] = Axis3(5); o[32].cols[2] = Axis3(0); o[33].cols[0] = Axis3(2); o[33].cols[1] = Axis3(5); o[33].cols[2] = Axis3(0); o[34].cols[0] = Axis3(4); o[34].cols[1] = Axis3(1); o[34].cols[2] = Axis3(2); o[35].cols[0] = Axis3(5); o[35].cols[1] = Axis3(1); o[35].cols[2] = Axis3(3); o[36].cols[0] = Axis3(5); o[36].cols[1] = Axis3(0); o[36].cols[2] = Axis3(2); o[37].cols[0] = Axis3(2); o[37].cols[1] = Axis3(1); o[37].cols[2] = Axis3(5); o[38].cols[0] = Axis3(2); o[38].cols[1] = Axis3(0); o[38].cols[2] = Axis3(4); o[39].cols[0] = Axis3(1); o[39].cols[1] = Axis3(3); o[39].cols[2] = Axis3(5); o[40].cols[0] = Axis3(2); o[40].cols[1] = Axis3(4); o[40].cols[2] = Axis3(1); o[41].cols[0] = Axis3(5); o[41].cols[1] = Axis3(1); o[41].cols[2] = Axis3(3); o[42].cols[0] = Axis3(4); o[42].cols[1] = Axis3(1); o[42].cols[2] = Axis3(2); o[43].cols[0] = Axis3(1); o[43].cols[1] = Axis3(5); o[43].cols[2] = Axis3(2); o[44].cols[0] = Axis3(2); o[44].cols[1] = Axis3(1); o[44].cols[2] = Axis3(5); o[45].cols[0] = Axis3(3); o[45].cols[1] = Axis3(0); o[45].cols[2] = Axis3(5); o[46].cols[0] = Axis3(1); o[46].cols[1] = Axis3(3); o[46].cols[2] = Axis3(5); o[47].cols[0] = Axis3(1); o[47].cols[1] = Axis3(3); o[47].cols[2] = Axis3(5); }
extern "C" void m_ar_cross2(AxisRot* o) { o[0] = AxisRot{Axis3(0), Axis3(2)}; o[2] = AxisRot{Axis3(0), Axis3(3)}; o[4] = AxisRot{Axis3(0), Axis3(4)}; o[6] = AxisRot{Axis3(0), Axis3(5)}; o[8] = AxisRot{Axis3(1), Axis3(2)}; o[10] = AxisRot{Axis3(1), Axis3(3)}; o[12] = AxisRot{Axis3(1), Axis3(4)}; o[14] = AxisRot{Axis3(1), Axis3(5)}; o[16] = AxisRot{Axis3(2), Axis3(0)}; o[18] = AxisRot{Axis3(2), Axis3(1)}; o[20] = AxisRot{Axis3(2), Axis3(4)}; o[22] = AxisRot{Axis3(2), Axis3(5)}; o[24] = AxisRot{Axis3(3), Axis3(0)}; o[26] = AxisRot{Axis3(3), Axis3(1)}; o[28] = AxisRot{Axis3(3), Axis3(4)}; o[30] = AxisRot{Axis3(3), Axis3(5)}; o[32] = AxisRot{Axis3(4), Axis3(0)}; o[34] = AxisRot{Axis3(4), Axis3(1)}; o[36] = AxisRot{Axis3(4), Axis3(2)}; o[38] = AxisRot{Axis3(4), Axis3(3)}; o[40] = AxisRot{Axis3(5), Axis3(0)}; o[42] = AxisRot{Axis3(5), Axis3(1)}; o[44] = AxisRot{Axis3(5), Axis3(2)}; o[46] = AxisRot{Axis3(5), Axis3(3)}; }
extern "C" void r_ar_cross2(AxisRot* o) { o[0].cols[0] = Axis3(0); o[0].cols[1] = Axis3(2); o[0].cols[2] = Axis3(4); o[2].cols[0] = Axis3(0); o[2].cols[1] = Axis3(3); o[2].cols[2] = Axis3(5); o[4].cols[0] = Axis3(0); o[4].cols[1] = Axis3(4); o[4].cols[2] = Axis3(3); o[6].cols[0] = Axis3(0); o[6].cols[1] = Axis3(5); o[6].cols[2] = Axis3(2); o[8].cols[0] = Axis3(1); o[8].cols[1] = Axis3(2); o[8].cols[2] = Axis3(5); o[10].cols[0] = Axis3(1); o[10].cols[1] = Axis3(3); o[10].cols[2] = Axis3(4); o[12].cols[0] = Axis3(1); o[12].cols[1] = Axis3(4); o[12].cols[2] = Axis3(2); o[14].cols[0] = Axis3(1); o[14].cols[1] = Axis3(5); o[14].cols[2] = Axis3(3); o[16].cols[0] = Axis3(2); o[16].cols[1] = Axis3(0); o[16].cols[2] = Axis3(5); o[18].cols[0] = Axis3(2); o[18].cols[1] = Axis3(1); o[18].cols[2] = Axis3(4); o[20].cols[0] = Axis3(2); o[20].cols[1] = Axis3(4); o[20].cols[2] = Axis3(0); o[22].cols[0] = Axis3(2); o[22].cols[1] = Axis3(5); o[22].cols[2] = Axis3(1); o[24].cols[0] = Axis3(3); o[24].cols[1] = Axis3(0); o[24].cols[2] = Axis3(4); o[26].cols[0] = Axis3(3); o[26].cols[1] = Axis3(1); o[26].cols[2] = Axis3(5); o[28].cols[0] = Axis3(3); o[28].cols[1] = Axis3(4); o[28].cols[2] = Axis3(1); o[30].cols[0] = Axis3(3); o[30].cols[1] = Axis3(5); o[30].cols[2] = Axis3(0); o[32].cols[0] = Axis3(4); o[32].cols[1] = Axis3(0); o[32].cols[2] = Axis3(2); o[34].cols[0] = Axis3(4); o[34].cols[1] = Axis3(1); o[34].cols[2] = Axis3(3); o[36].cols[0] = Axis3(4); o[36].cols[1] = Axis3(2); o[36].cols[2] = Axis3(1); o[38].cols[0] = Axis3(4); o[38].cols[1] = Axis3(3); o[38].cols[2] = Axis3(0); o[40].cols[0] = Axis3(5); o[40].cols[1] = Axis3(0); o[40].cols[2] = Axis3(3); o[42].cols[0] = Axis3(5); o[42].cols[1] = Axis3(1); o[42].cols[2] = Axis3(2); o[44].cols[0] = Axis3(5); o[44].cols[1] = Axis3(2); o[44].cols[2] = Axis3(0); o[46].cols[0] = Axis3(5); o[46].cols[1] = Axis3(3); o[46].cols[2] = Axis3(1); }
extern "C" void m_ar_basis(AxisRot* o) { o[0] = AxisRot::makeBasis(Axis3(0), 0); o[1] = AxisRot::makeBasis(Axis3(0), 1); o[2] = AxisRot::makeBasis(Axis3(0), 2); o[3] = AxisRot::makeBasis(Axis3(1), 0); o[4] = AxisRot::makeBasis(Axis3(1), 1); o[5] = AxisRot::makeBasis(Axis3(1), 2); o[6] = AxisRot::makeBasis(Axis3(2), 0); o[7] = AxisRot::makeBasis(Axis3(2), 1); o[8] = AxisRot::makeBasis(Axis3(2), 2); o[9] = AxisRot::makeBasis(Axis3(3), 0); o[10] = AxisRot::makeBasis(Axis3(3), 1); o[11] = AxisRot::makeBasis(Axis3(3), 2); o[12] = AxisRot::makeBasis(Axis3(4), 0); o[13] = AxisRot::makeBasis(Axis3(4), 1); o[14] = AxisRot::makeBasis(Axis3(4), 2); o[15] = AxisRot::makeBasis(Axis3(5), 0); o[16] = AxisRot::makeBasis(Axis3(5), 1); o[17] = AxisRot::makeBasis(Axis3(5), 2); }
extern "C" void r_ar_basis(AxisRot* o) { o[0].cols[0] = Axis3(0); o[0].cols[1] = Axis3(2); o[0].cols[2] = Axis3(4); o[1].cols[1] = Axis3(0); o[1].cols[2] = Axis3(2); o[1].cols[0] = Axis3(4); o[2].cols[2] = Axis3(0); o[2].cols[0] = Axis3(2); o[2].cols[1] = Axis3(4); o[3].cols[0] = Axis3(1); o[3].cols[1] = Axis3(3); o[3].cols[2] = Axis3(4); o[4].cols[1] = Axis3(1); o[4].cols[2] = Axis3(3); o[4].cols[0] = Axis3(4); o[5].cols[2] = Axis3(1); o[5].cols[0] = Axis3(3); o[5].cols[1] = Axis3(4); o[6].cols[0] = Axis3(2); o[6].cols[1] = Axis3(4); o[6].cols[2] = Axis3(0); o[7].cols[1] = Axis3(2); o[7].cols[2] = Axis3(4); o[7].cols[0] = Axis3(0); o[8].cols[2] = Axis3(2); o[8].cols[0] = Axis3(4); o[8].cols[1] = Axis3(0); o[9].cols[0] = Axis3(3); o[9].cols[1] = Axis3(5); o[9].cols[2] = Axis3(0); o[10].cols[1] = Axis3(3); o[10].cols[2] = Axis3(5); o[10].cols[0] = Axis3(0); o[11].cols[2] = Axis3(3); o[11].cols[0] = Axis3(5); o[11].cols[1] = Axis3(0); o[12].cols[0] = Axis3(4); o[12].cols[1] = Axis3(0); o[12].cols[2] = Axis3(2); o[13].cols[1] = Axis3(4); o[13].cols[2] = Axis3(0); o[13].cols[0] = Axis3(2); o[14].cols[2] = Axis3(4); o[14].cols[0] = Axis3(0); o[14].cols[1] = Axis3(2); o[15].cols[0] = Axis3(5); o[15].cols[1] = Axis3(1); o[15].cols[2] = Axis3(2); o[16].cols[1] = Axis3(5); o[16].cols[2] = Axis3(1); o[16].cols[0] = Axis3(2); o[17].cols[2] = Axis3(5); o[17].cols[0] = Axis3(1); o[17].cols[1] = Axis3(2); }
extern "C" void m_ar_rot2d(AxisRot* o) { o[0] = AxisRot::fromRot2D(Axis2(0)); o[1] = AxisRot::fromRot2D(Axis2(1)); o[2] = AxisRot::fromRot2D(Axis2(2)); o[3] = AxisRot::fromRot2D(Axis2(3)); }
extern "C" void r_ar_rot2d(AxisRot* o) { o[0].cols[0] = Axis3(0); o[0].cols[1] = Axis3(2); o[0].cols[2] = Axis3(4); o[1].cols[0] = Axis3(2); o[1].cols[1] = Axis3(1); o[1].cols[2] = Axis3(4); o[2].cols[0] = Axis3(1); o[2].cols[1] = Axis3(3); o[2].cols[2] = Axis3(4); o[3].cols[0] = Axis3(3); o[3].cols[1] = Axis3(0); o[3].cols[2] = Axis3(4); }
extern "C" void m_ar_identity(AxisRot* o) { *o = AxisRot::identity(); }
extern "C" void r_ar_identity(AxisRot* o) { o->cols[0] = Axis3(0); o->cols[1] = Axis3(2); o->cols[2] = Axis3(4); }
extern "C" void m_ar_eq(bool* o) { o[0] = AxisRot{Axis3(0), Axis3(2), Axis3(4)} == AxisRot{Axis3(0), Axis3(2), Axis3(4)}; o[1] = AxisRot{Axis3(0), Axis3(2), Axis3(4)} == AxisRot{Axis3(1), Axis3(2), Axis3(4)}; o[2] = AxisRot{Axis3(0), Axis3(2), Axis3(4)} == AxisRot{Axis3(0), Axis3(3), Axis3(4)}; o[3] = AxisRot{Axis3(0), Axis3(2), Axis3(4)} == AxisRot{Axis3(0), Axis3(2), Axis3(5)}; }
extern "C" void r_ar_eq(bool* o) { o[0] = 1; o[1] = 0; o[2] = 0; o[3] = 0; }
extern "C" void m_ar_lt(bool* o) { o[0] = AxisRot{Axis3(0), Axis3(2), Axis3(4)} < AxisRot{Axis3(0), Axis3(2), Axis3(4)}; o[1] = AxisRot{Axis3(0), Axis3(2), Axis3(4)} < AxisRot{Axis3(0), Axis3(2), Axis3(5)}; o[2] = AxisRot{Axis3(0), Axis3(2), Axis3(4)} < AxisRot{Axis3(0), Axis3(3), Axis3(5)}; o[3] = AxisRot{Axis3(0), Axis3(2), Axis3(4)} < AxisRot{Axis3(0), Axis3(3), Axis3(4)}; o[4] = AxisRot{Axis3(0), Axis3(2), Axis3(4)} < AxisRot{Axis3(0), Axis3(4), Axis3(3)}; o[5] = AxisRot{Axis3(0), Axis3(2), Axis3(5)} < AxisRot{Axis3(0), Axis3(2), Axis3(4)}; o[6] = AxisRot{Axis3(0), Axis3(2), Axis3(5)} < AxisRot{Axis3(0), Axis3(2), Axis3(5)}; o[7] = AxisRot{Axis3(0), Axis3(2), Axis3(5)} < AxisRot{Axis3(0), Axis3(3), Axis3(5)}; o[8] = AxisRot{Axis3(0), Axis3(2), Axis3(5)} < AxisRot{Axis3(0), Axis3(3), Axis3(4)}; o[9] = AxisRot{Axis3(0), Axis3(2), Axis3(5)} < AxisRot{Axis3(0), Axis3(4), Axis3(3)}; o[10] = AxisRot{Axis3(0), Axis3(3), Axis3(5)} < AxisRot{Axis3(0), Axis3(2), Axis3(4)}; o[11] = AxisRot{Axis3(0), Axis3(3), Axis3(5)} < AxisRot{Axis3(0), Axis3(2), Axis3(5)}; o[12] = AxisRot{Axis3(0), Axis3(3), Axis3(5)} < AxisRot{Axis3(0), Axis3(3), Axis3(5)}; o[13] = AxisRot{Axis3(0), Axis3(3), Axis3(5)} < AxisRot{Axis3(0), Axis3(3), Axis3(4)}; o[14] = AxisRot{Axis3(0), Axis3(3), Axis3(5)} < AxisRot{Axis3(0), Axis3(4), Axis3(3)}; o[15] = AxisRot{Axis3(0), Axis3(3), Axis3(4)} < AxisRot{Axis3(0), Axis3(2), Axis3(4)}; o[16] = AxisRot{Axis3(0), Axis3(3), Axis3(4)} < AxisRot{Axis3(0), Axis3(2), Axis3(5)}; o[17] = AxisRot{Axis3(0), Axis3(3), Axis3(4)} < AxisRot{Axis3(0), Axis3(3), Axis3(5)}; o[18] = AxisRot{Axis3(0), Axis3(3), Axis3(4)} < AxisRot{Axis3(0), Axis3(3), Axis3(4)}; o[19] = AxisRot{Axis3(0), Axis3(3), Axis3(4)} < AxisRot{Axis3(0), Axis3(4), Axis3(3)}; o[20] = AxisRot{Axis3(0), Axis3(4), Axis3(3)} < AxisRot{Axis3(0), Axis3(2), Axis3(4)}; o[21] = AxisRot{Axis3(0), Axis3(4), Axis3(3)} < AxisRot{Axis3(0), Axis3(2), Axis3(5)}; o[22] = AxisRot{Axis3(0), Axis3(4), Axis3(3)} < AxisRot{Axis3(0), Axis3(3), Axis3(5)}; o[23] = AxisRot{Axis3(0), Axis3(4), Axis3(3)} < AxisRot{Axis3(0), Axis3(3), Axis3(4)}; o[24] = AxisRot{Axis3(0), Axis3(4), Axis3(3)} < AxisRot{Axis3(0), Axis3(4), Axis3(3)}; }
extern "C" void r_ar_lt(bool* o) { o[0] = 0; o[1] = 1; o[2] = 1; o[3] = 1; o[4] = 1; o[5] = 0; o[6] = 0; o[7] = 1; o[8] = 1; o[9] = 1; o[10] = 0; o[11] = 0; o[12] = 0; o[13] = 0; o[14] = 1; o[15] = 0; o[16] = 0; o[17] = 1; o[18] = 0; o[19] = 1; o[20] = 0; o[21] = 0; o[22] = 0; o[23] = 0; o[24] = 0; }
extern "C" void m_ar_to33(Float3x3* o) { o[0] = AxisRot{Axis3(0), Axis3(2), Axis3(4)}.toFloat3x3(); o[1] = AxisRot{Axis3(0), Axis3(2), Axis3(5)}.toFloat3x3(); o[2] = AxisRot{Axis3(0), Axis3(3), Axis3(5)}.toFloat3x3(); o[3] = AxisRot{Axis3(0), Axis3(3), Axis3(4)}.toFloat3x3(); o[4] = AxisRot{Axis3(0), Axis3(4), Axis3(3)}.toFloat3x3(); o[5] = AxisRot{Axis3(0), Axis3(4), Axis3(2)}.toFloat3x3(); o[6] = AxisRot{Axis3(0), Axis3(5), Axis3(2)}.toFloat3x3(); o[7] = AxisRot{Axis3(0), Axis3(5), Axis3(3)}.toFloat3x3(); o[8] = AxisRot{Axis3(1), Axis3(2), Axis3(5)}.toFloat3x3(); o[9] = AxisRot{Axis3(1), Axis3(2), Axis3(4)}.toFloat3x3(); o[10] = AxisRot{Axis3(1), Axis3(3), Axis3(4)}.toFloat3x3(); o[11] = AxisRot{Axis3(1), Axis3(3), Axis3(5)}.toFloat3x3(); }
extern "C" void r_ar_to33(Float3x3* o) { o[0].col[0].x = 1; o[0].col[0].y = 0; o[0].col[0].z = 0; o[0].col[1].x = 0; o[0].col[1].y = 1; o[0].col[1].z = 0; o[0].col[2].x = 0; o[0].col[2].y = 0; o[0].col[2].z = 1; o[1].col[0].x = 1; o[1].col[0].y = 0; o[1].col[0].z = 0; o[1].col[1].x = 0; o[1].col[1].y = 1; o[1].col[1].z = 0; o[1].col[2].x = 0; o[1].col[2].y = 0; o[1].col[2].z = -1; o[2].col[0].x = 1; o[2].col[0].y = 0; o[2].col[0].z = 0; o[2].col[1].x = 0; o[2].col[1].y = -1; o[2].col[1].z = 0; o[2].col[2].x = 0; o[2].col[2].y = 0; o[2].col[2].z = -1; o[3].col[0].x = 1; o[3].col[0].y = 0; o[3].col[0].z = 0; o[3].col[1].x = 0; o[3].col[1].y = -1; o[3].col[1].z = 0; o[3].col[2].x = 0; o[3].col[2].y = 0; o[3].col[2].z = 1; o[4].col[0].x = 1; o[4].col[0].y = 0; o[4].col[0].z = 0; o[4].col[1].x = 0; o[4].col[1].y = 0; o[4].col[1].z = 1; o[4].col[2].x = 0; o[4].col[2].y = -1; o[4].col[2].z = 0; o[5].col[0].x = 1; o[5].col[0].y = 0; o[5].col[0].z = 0; o[5].col[1].x = 0; o[5].col[1].y = 0; o[5].col[1].z = 1; o[5].col[2].x = 0; o[5].col[2].y = 1; o[5].col[2].z = 0; o[6].col[0].x = 1; o[6].col[0].y = 0; o[6].col[0].z = 0; o[6].col[1].x = 0; o[6].col[1].y = 0; o[6].col[1].z = -1; o[6].col[2].x = 0; o[6].col[2].y = 1; o[6].col[2].z = 0; o[7].col[0].x = 1; o[7].col[0].y = 0; o[7].col[0].z = 0; o[7].col[1].x = 0; o[7].col[1].y = 0; o[7].col[1].z = -1; o[7].col[2].x = 0; o[7].col[2].y = -1; o[7].col[2].z = 0; o[8].col[0].x = -1; o[8].col[0].y = 0; o[8].col[0].z = 0; o[8].col[1].x = 0; o[8].col[1].y = 1; o[8].col[1].z = 0; o[8].col[2].x = 0; o[8].col[2].y = 0; o[8].col[2].z = -1; o[9].col[0].x = -1; o[9].col[0].y = 0; o[9].col[0].z = 0; o[9].col[1].x = 0; o[9].col[1].y = 1; o[9].col[1].z = 0; o[9].col[2].x = 0; o[9].col[2].y = 0; o[9].col[2].z = 1; o[10].col[0].x = -1; o[10].col[0].y = 0; o[10].col[0].z = 0; o[10].col[1].x = 0; o[10].col[1].y = -1; o[10].col[1].z = 0; o[10].col[2].x = 0; o[10].col[2].y = 0; o[10].col[2].z = 1; o[11].col[0].x = -1; o[11].col[0].y = 0; o[11].col[0].z = 0; o[11].col[1].x = 0; o[11].col[1].y = -1; o[11].col[1].z = 0; o[11].col[2].x = 0; o[11].col[2].y = 0; o[11].col[2].z = -1; }
extern "C" void m_ar_to44(Float4x4* o) { o[0] = AxisRot{Axis3(0), Axis3(2), Axis3(4)}.toFloat4x4(); o[1] = AxisRot{Axis3(0), Axis3(2), Axis3(5)}.toFloat4x4(); o[2] = AxisRot{Axis3(0), Axis3(3), Axis3(5)}.toFloat4x4(); o[3] = AxisRot{Axis3(0), Axis3(3), Axis3(4)}.toFloat4x4(); o[4] = AxisRot{Axis3(0), Axis3(4), Axis3(3)}.toFloat4x4(); o[5] = AxisRot{Axis3(0), Axis3(4), Axis3(2)}.toFloat4x4(); o[6] = AxisRot{Axis3(0), Axis3(5), Axis3(2)}.toFloat4x4(); o[7] = AxisRot{Axis3(0), Axis3(5), Axis3(3)}.toFloat4x4(); o[8] = AxisRot{Axis3(1), Axis3(2), Axis3(5)}.toFloat4x4(); o[9] = AxisRot{Axis3(1), Axis3(2), Axis3(4)}.toFloat4x4(); o[10] = AxisRot{Axis3(1), Axis3(3), Axis3(4)}.toFloat4x4(); o[11] = AxisRot{Axis3(1), Axis3(3), Axis3(5)}.toFloat4x4(); }
extern "C" void r_ar_to44(Float4x4* o) { o[0].col[0].x = 1; o[0].col[0].y = 0; o[0].col[0].z = 0; o[0].col[0].w = 0; o[0].col[1].x = 0; o[0].col[1].y = 1; o[0].col[1].z = 0; o[0].col[1].w = 0; o[0].col[2].x = 0; o[0].col[2].y = 0; o[0].col[2].z = 1; o[0].col[2].w = 0; o[0].col[3].x = 0; o[0].col[3].y = 0; o[0].col[3].z = 0; o[0].col[3].w = 1; o[1].col[0].x = 1; o[1].col[0].y = 0; o[1].col[0].z = 0; o[1].col[0].w = 0; o[1].col[1].x = 0; o[1].col[1].y = 1; o[1].col[1].z = 0; o[1].col[1].w = 0; o[1].col[2].x = 0; o[1].col[2].y = 0; o[1].col[2].z = -1; o[1].col[2].w = 0; o[1].col[3].x = 0; o[1].col[3].y = 0; o[1].col[3].z = 0; o[1].col[3].w = 1; o[2].col[0].x = 1; o[2].col[0].y = 0; o[2].col[0].z = 0; o[2].col[0].w = 0; o[2].col[1].x = 0; o[2].col[1].y = -1; o[2].col[1].z = 0; o[2].col[1].w = 0; o[2].col[2].x = 0; o[2].col[2].y = 0; o[2].col[2].z = -1; o[2].col[2].w = 0; o[2].col[3].x = 0; o[2].col[3].y = 0; o[2].col[3].z = 0; o[2].col[3].w = 1; o[3].col[0].x = 1; o[3].col[0].y = 0; o[3].col[0].z = 0; o[3].col[0].w = 0; o[3].col[1].x = 0; o[3].col[1].y = -1; o[3].col[1].z = 0; o[3].col[1].w = 0; o[3].col[2].x = 0; o[3].col[2].y = 0; o[3].col[2].z = 1; o[3].col[2].w = 0; o[3].col[3].x = 0; o[3].col[3].y = 0; o[3].col[3].z = 0; o[3].col[3].w = 1; o[4].col[0].x = 1; o[4].col[0].y = 0; o[4].col[0].z = 0; o[4].col[0].w = 0; o[4].col[1].x = 0; o[4].col[1].y = 0; o[4].col[1].z = 1; o[4].col[1].w = 0; o[4].col[2].x = 0; o[4].col[2].y = -1; o[4].col[2].z = 0; o[4].col[2].w = 0; o[4].col[3].x = 0; o[4].col[3].y = 0; o[4].col[3].z = 0; o[4].col[3].w = 1; o[5].col[0].x = 1; o[5].col[0].y = 0; o[5].col[0].z = 0; o[5].col[0].w = 0; o[5].col[1].x = 0; o[5].col[1].y = 0; o[5].col[1].z = 1; o[5].col[1].w = 0; o[5].col[2].x = 0; o[5].col[2].y = 1; o[5].col[2].z = 0; o[5].col[2].w = 0; o[5].col[3].x = 0; o[5].col[3].y = 0; o[5].col[3].z = 0; o[5].col[3].w = 1; o[6].col[0].x = 1; o[6].col[0].y = 0; o[6].col[0].z = 0; o[6].col[0].w = 0; o[6].col[1].x = 0; o[6].col[1].y = 0; o[6].col[1].z = -1; o[6].col[1].w = 0; o[6].col[2].x = 0; o[6].col[2].y = 1; o[6].col[2].z = 0; o[6].col[2].w = 0; o[6].col[3].x = 0; o[6].col[3].y = 0; o[6].col[3].z = 0; o[6].col[3].w = 1; o[7].col[0].x = 1; o[7].col[0].y = 0; o[7].col[0].z = 0; o[7].col[0].w = 0; o[7].col[1].x = 0; o[7].col[1].y = 0; o[7].col[1].z = -1; o[7].col[1].w = 0; o[7].col[2].x = 0; o[7].col[2].y = -1; o[7].col[2].z = 0; o[7].col[2].w = 0; o[7].col[3].x = 0; o[7].col[3].y = 0; o[7].col[3].z = 0; o[7].col[3].w = 1; o[8].col[0].x = -1; o[8].col[0].y = 0; o[8].col[0].z = 0; o[8].col[0].w = 0; o[8].col[1].x = 0; o[8].col[1].y = 1; o[8].col[1].z = 0; o[8].col[1].w = 0; o[8].col[2].x = 0; o[8].col[2].y = 0; o[8].col[2].z = -1; o[8].col[2].w = 0; o[8].col[3].x = 0; o[8].col[3].y = 0; o[8].col[3].z = 0; o[8].col[3].w = 1; o[9].col[0].x = -1; o[9].col[0].y = 0; o[9].col[0].z = 0; o[9].col[0].w = 0; o[9].col[1].x = 0; o[9].col[1].y = 1; o[9].col[1].z = 0; o[9].col[1].w = 0; o[9].col[2].x = 0; o[9].col[2].y = 0; o[9].col[2].z = 1; o[9].col[2].w = 0; o[9].col[3].x = 0; o[9].col[3].y = 0; o[9].col[3].z = 0; o[9].col[3].w = 1; o[10].col[0].x = -1; o[10].col[0].y = 0; o[10].col[0].z = 0; o[10].col[0].w = 0; o[10].col[1].x = 0; o[10].col[1].y = -1; o[10].col[1].z = 0; o[10].col[1].w = 0; o[10].col[2].x = 0; o[10].col[2].y = 0; o[10].col[2].z = 1; o[10].col[2].w = 0; o[10].col[3].x = 0; o[10].col[3].y = 0; o[10].col[3].z = 0; o[10].col[3].w = 1; o[11].col[0].x = -1; o[11].col[0].y = 0; o[11].col[0].z = 0; o[11].col[0].w = 0; o[11].col[1].x = 0; o[11].col[1].y = -1; o[11].col[1].z = 0; o[11].col[1].w = 0; o[11].col[2].x = 0; o[11].col[2].y = 0; o[11].col[2].z = -1; o[11].col[2].w = 0; o[11].col[3].x = 0; o[11].col[3].y = 0; o[11].col[3].z = 0; o[11].col[3].w = 1; }
extern "C" void m_arp_mul(const Float3& p, const Float3& s, AxisRotPos& o) { o = AxisRotPos{AxisRot{Axis3(1), Axis3(2), Axis3(4)}, p} * AxisRotPos{AxisRot{Axis3(3), Axis3(5), Axis3(0)}, s}; }
extern "C" void r_arp_mul(const Float3& p, const Float3& s, AxisRotPos& o) { o.rot.cols[0] = Axis3(3); o.rot.cols[1] = Axis3(5); o.rot.cols[2] = Axis3(1);o.pos.x = -s.x + p.x; o.pos.y = s.y + p.y; o.pos.z = s.z + p.z; }
extern "C" void m_arp_mulv(const Float3& p, const Float3& v, Float3& o) { o = AxisRotPos{AxisRot{Axis3(1), Axis3(2), Axis3(4)}, p} * v; }
extern "C" void r_arp_mulv(const Float3& p, const Float3& v, Float3& o) { o.x = -v.x + p.x; o.y = v.y + p.y; o.z = v.z + p.z; }
extern "C" void m_arp_rotmul(const Float3& p, AxisRotPos& o) { o = AxisRot{Axis3(1), Axis3(2), Axis3(4)} * AxisRotPos{AxisRot{Axis3(3), Axis3(5), Axis3(0)}, p}; }
extern "C" void r_arp_rotmul(const Float3& p, AxisRotPos& o) { o.rot.cols[0] = Axis3(3); o.rot.cols[1] = Axis3(5); o.rot.cols[2] = Axis3(1);o.pos.x = -p.x; o.pos.y = p.y; o.pos.z = p.z; }
extern "C" void m_arp_mulrot(const Float3& p, AxisRotPos& o) { o = AxisRotPos{AxisRot{Axis3(1), Axis3(2), Axis3(4)}, p} * AxisRot{Axis3(3), Axis3(5), Axis3(0)}; }
extern "C" void r_arp_mulrot(const Float3& p, AxisRotPos& o) { o.rot.cols[0] = Axis3(3); o.rot.cols[1] = Axis3(5); o.rot.cols[2] = Axis3(1);o.pos.x = p.x; o.pos.y = p.y; o.pos.z = p.z; }
extern "C" void m_arp_inverted(const Float3& p, AxisRotPos& o) { o = AxisRotPos{AxisRot{Axis3(1), Axis3(2), Axis3(4)}, p}.inverted(); }
extern "C" void r_arp_inverted(const Float3& p, AxisRotPos& o) { o.rot.cols[0] = Axis3(1); o.rot.cols[1] = Axis3(2); o.rot.cols[2] = Axis3(4);o.pos.x = -(-p.x); o.pos.y = -(p.y); o.pos.z = -(p.z); }
extern "C" void m_arp_to44(const Float3& p, Float4x4& o) { o = AxisRotPos{AxisRot{Axis3(1), Axis3(2), Axis3(4)}, p}.toFloat4x4(); }
extern "C" void r_arp_to44(const Float3& p, Float4x4& o) { o.col[0].x = -1; o.col[0].y = 0; o.col[0].z = 0; o.col[0].w = 0; o.col[1].x = 0; o.col[1].y = 1; o.col[1].z = 0; o.col[1].w = 0; o.col[2].x = 0; o.col[2].y = 0; o.col[2].z = 1; o.col[2].w = 0; o.col[3].x = p.x; o.col[3].y = p.y; o.col[3].z = p.z; o.col[3].w = 1; }
extern "C" void m_arp_translation(const Float3& p, AxisRotPos& o) { o = AxisRotPos::makeTranslation(p); }
extern "C" void r_arp_translation(const Float3& p, AxisRotPos& o) { o.rot.cols[0] = Axis3(0); o.rot.cols[1] = Axis3(2); o.rot.cols[2] = Axis3(4); o.pos.x = p.x; o.pos.y = p.y; o.pos.z = p.z; }
