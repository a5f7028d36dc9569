// One function per way of creating, copying, moving, replacing and dropping an owner. Each ends by destroying every
// owner involved, so that whatever the owners held must have been released exactly once. Analysed, never run.
#include <ply-runtime/Base.h>
#include <ply-runtime/container/Functor.h>
#include <ply-runtime/container/Reference.h>
#include <ply-runtime/container/Sequence.h>
#include <ply-runtime/container/Pool.h>
#include <ply-runtime/container/BigPool.h>
#include <ply-runtime/container/Any.h>
#include <ply-runtime/container/Switch.h>
#include <ply-runtime/container/WeakRef.h>
#include <ply-reflect/AnyOwnedObject.h>
using namespace ply;
struct K { // an owned thing: only its constructors and destructor matter
    u32 data[6];
    K();
    K(const K&);
    K(K&&);
    ~K();
    void operator=(const K&);
    void operator=(K&&);
};
struct KB : K {
};
struct RC { // a counted thing
    void incRef();
    void decRef();
};
template <typename H>
static PLY_INLINE void drop(H* a) {
    a->~H();
}
#define OP1(type, name, H, ...) void own__##type##__##name(H* a) { __VA_ARGS__; drop(a); }
#define OP2(type, name, H, ...) void own__##type##__##name(H* a, H* b) { __VA_ARGS__; drop(a); drop(b); }
#define NEW1(type, name, H, ...) void own__##type##__##name(H* mem) { __VA_ARGS__; drop(mem); }
// the ways every owner type has in common
#define COMMON(type, H) \
    OP2(type, base, H, ) \
    void own__##type##__default() { H x; } \
    OP1(type, movector, H, H x{std::move(*a)}) \
    OP2(type, moveassign, H, *a = std::move(*b)) \
    OP1(type, moveout, H, H x; x = std::move(*a)) \
    OP1(type, movein, H, *a = H{}) \
    OP1(type, there_and_back, H, H x{std::move(*a)}; *a = std::move(x)) \
    OP2(type, swap, H, std::swap(*a, *b))
#define COPYING(type, H) \
    OP1(type, copyctor, H, H x{(const H&) *a}) \
    OP2(type, copyassign, H, *a = (const H&) *b) \
    OP1(type, copyout, H, H x; x = (const H&) *a) \
    OP1(type, copyin, H, H x; *a = (const H&) x)

COMMON(owned, Owned<K>)
OP1(owned, clear, Owned<K>, a->clear())
OP1(owned, readopt, Owned<K>, auto x = Owned<K>::adopt(a->release()))
OP1(owned, create, Owned<K>, *a = Owned<K>::create())
OP1(owned, assignptr, Owned<K>, *a = new K)
OP1(owned, fromptr, Owned<K>, Owned<K> x{a->release()})
OP1(owned, derivedctor, Owned<K>, Owned<K> x{Owned<KB>::create()})
OP1(owned, assignnull, Owned<K>, *a = nullptr)

COMMON(optowned, OptionallyOwned<K>)
OP1(optowned, fromowned, OptionallyOwned<K>, *a = Owned<K>::create())
void own__optowned__transfer(Owned<K>* a) { OptionallyOwned<K> x{std::move(*a)}; drop(a); }
void own__optowned__borrowed(OptionallyOwned<K>* a, K* k) { *a = OptionallyOwned<K>{Borrowed<K>{k}}; drop(a); }

COMMON(reference, Reference<RC>)
COPYING(reference, Reference<RC>)
OP1(reference, selfassign, Reference<RC>, *a = (const Reference<RC>&) *a)
void own__reference__keepself(Reference<RC>* a) { *a = (const Reference<RC>&) *a; }
void own__reference__keepptr(Reference<RC>* a) { *a = a->get(); }
OP1(reference, selfptr, Reference<RC>, *a = a->get())
void own__reference__fromptr(RC* k) { Reference<RC> x{k}; }
void own__reference__assignptr(Reference<RC>* a, RC* k) { *a = k; drop(a); }

COMMON(string, String)
COPYING(string, String)
OP1(string, view, String, String x{a->view()})
void own__string__assignview(String* a, StringView v) { *a = v; drop(a); }
void own__string__append(String* a, StringView v) { *a += v; drop(a); }
OP1(string, clear, String, a->clear())
OP1(string, resize, String, a->resize(20))
void own__string__allocate(u32 n) { String x = String::allocate(n); }
OP1(string, readopt, String, u32 n = a->numBytes; String x = String::adopt(a->release(), n))
void own__string__concat(StringView v, StringView w) { String x = v + w; }
void own__string__repeat(StringView v, u32 n) { String x = v * n; }
void own__string__fromchar(char c) { String x{c}; }
void own__string__fromhybrid(HybridString* a) { String x{std::move(*a)}; drop(a); }
void own__string__upper(StringView v) { String x = v.upperAsc(); }
void own__string__reversedbytes(StringView v) { String x = v.reversedBytes(); }

COMMON(hybrid, HybridString)
COPYING(hybrid, HybridString)
void own__hybrid__fromstring(String* a) { HybridString x{std::move(*a)}; drop(a); }
void own__hybrid__fromview(StringView v) { HybridString x{v}; }
void own__hybrid__borrowstring(String* a) { HybridString x{(const String&) *a}; drop(a); }
void own__hybrid__assignstring(HybridString* a, String* b) { *a = std::move(*b); drop(a); drop(b); }
void own__hybrid__assignview(HybridString* a, StringView v) { *a = v; drop(a); }

COMMON(array, Array<u32>)
COPYING(array, Array<u32>)
OP1(array, reserve, Array<u32>, a->reserve(50))
OP1(array, resize, Array<u32>, a->resize(50))
OP1(array, append, Array<u32>, a->append(5))
OP1(array, insert, Array<u32>, a->insert(0))
OP1(array, erase, Array<u32>, a->erase(0))
OP1(array, erasequick, Array<u32>, a->eraseQuick(0))
OP1(array, truncate, Array<u32>, a->truncate())
OP1(array, pop, Array<u32>, a->pop())
OP1(array, clear, Array<u32>, a->clear())
OP2(array, moveextend, Array<u32>, a->moveExtend(b->view()))
OP2(array, extend, Array<u32>, a->extend(*b))
void own__array__init() { Array<u32> x = {1, 2, 3}; }
void own__array__fromview(ArrayView<u32> v) { Array<u32> x{v}; }
OP1(array, readopt, Array<u32>, u32 n = a->numItems(); auto x = Array<u32>::adopt(a->release(), n))

typedef Functor<void(u32)> Fn;
COMMON(functor, Fn)
void own__functor__create(u32 n) { Fn x = [n](u32 m) { }; }
void own__functor__assign(Fn* a, u32 n) { *a = [n](u32 m) { }; drop(a); }
void own__functor__capture(K* k) { Fn x = [c = std::move(*k)](u32) { }; }

COMMON(anyowned, AnyOwnedObject)
