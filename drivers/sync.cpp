// One function per operation of the thread primitives. Analysed, never run.
#include <ply-runtime/Base.h>
#include <ply-runtime/thread/Atomic.h>
#include <ply-runtime/thread/Mutex.h>
#include <ply-runtime/thread/impl/Mutex_POSIX.h>
#include <ply-runtime/thread/impl/Mutex_CPP11.h>
#include <ply-runtime/thread/impl/Mutex_LazyInit.h>
#include <ply-runtime/thread/impl/Mutex_SpinLock.h>
#include <ply-runtime/thread/impl/RWLock_POSIX.h>
#include <ply-runtime/thread/RWLock.h>
#include <ply-runtime/thread/impl/ConditionVariable_POSIX.h>
#include <ply-runtime/thread/impl/ConditionVariable_CPP11.h>
#include <ply-runtime/thread/impl/Semaphore_POSIX.h>
#include <ply-runtime/thread/impl/ManualResetEvent_CondVar.h>
#include <ply-runtime/thread/impl/Thread_POSIX.h>
#include <ply-runtime/thread/ThreadLocal.h>
#include <ply-runtime/container/WeakRef.h>
using namespace ply;
#define S(type, name, ret, ...) ret sync__##type##__##name(__VA_ARGS__)
// atomics: every operation with every order
#define ORD1(X) X(Relaxed) X(Consume) X(Acquire) X(Release) X(AcquireRelease) X(ConsumeRelease)
#define RMW(o) \
    S(atomic, fetchAdd_##o, u32, Atomic<u32>* a, u32 v) { return a->fetchAdd(v, ply::o); } \
    S(atomic, fetchSub_##o, u32, Atomic<u32>* a, u32 v) { return a->fetchSub(v, ply::o); } \
    S(atomic, fetchAnd_##o, u32, Atomic<u32>* a, u32 v) { return a->fetchAnd(v, ply::o); } \
    S(atomic, fetchOr_##o, u32, Atomic<u32>* a, u32 v) { return a->fetchOr(v, ply::o); } \
    S(atomic, exchange_##o, u32, Atomic<u32>* a, u32 v) { return a->exchange(v, ply::o); } \
    S(atomic, compareExchange_##o, u32, Atomic<u32>* a, u32 e, u32 v) { return a->compareExchange(e, v, ply::o); } \
    S(atomic, compareExchangeStrong_##o, bool, Atomic<u32>* a, u32* e, u32 v) { return a->compareExchangeStrong(*e, v, ply::o); } \
    S(atomic, compareExchangeWeak_##o, bool, Atomic<u32>* a, u32* e, u32 v) { return a->compareExchangeWeak(*e, v, ply::o, ply::Relaxed); }
#define LD(o) S(atomic, load_##o, u32, Atomic<u32>* a) { return a->load(ply::o); }
#define ST(o) S(atomic, store_##o, void, Atomic<u32>* a, u32 v) { a->store(v, ply::o); }
ORD1(RMW)
LD(Relaxed) LD(Consume) LD(Acquire)
ST(Relaxed) ST(Release)
S(fence, acquire, void) { threadFenceAcquire(); }
S(fence, release, void) { threadFenceRelease(); }
S(fence, consume, void) { threadFenceConsume(); }
S(fence, seqcst, void) { threadFenceSeqCst(); }
// counted objects
struct RCObj : RefCounted<RCObj> { void onRefCountZero(); };
struct DRObj : DualRefCounted<DRObj> { void onPartialRefCountZero(); void onFullRefCountZero(); };
S(count, incRef, void, RCObj* a) { a->incRef(); }
S(count, decRef, void, RCObj* a) { a->decRef(); }
S(dual, incRef, void, DRObj* a) { a->incRef(); }
S(dual, decRef, void, DRObj* a) { a->decRef(); }
S(dual, incWeakRef, void, DRObj* a) { a->incWeakRef(); }
S(dual, decWeakRef, void, DRObj* a) { a->decWeakRef(); }
// locks
#define LOCK(type, M) \
    S(type, lock, void, M* m) { m->lock(); } \
    S(type, unlock, void, M* m) { m->unlock(); } \
    S(type, guard, void, M* m) { LockGuard<M> g{*m}; }
LOCK(mutexposix, Mutex_POSIX)
LOCK(mutexcpp, Mutex_CPP11)
LOCK(mutexdefault, Mutex)
LOCK(lazy, Mutex_LazyInit)
S(mutexposix, ctor, void, Mutex_POSIX* m) { new (m) Mutex_POSIX; }
S(mutexposix, dtor, void, Mutex_POSIX* m) { m->~Mutex_POSIX(); }
S(mutexposix, tryLock, bool, Mutex_POSIX* m) { return m->tryLock(); }
S(mutexcpp, tryLock, bool, Mutex_CPP11* m) { return m->tryLock(); }
S(spin, lock, void, Mutex_SpinLock* m) { m->lock(); }
S(spin, unlock, void, Mutex_SpinLock* m) { m->unlock(); }
S(rw, ctor, void, RWLock_POSIX* m) { new (m) RWLock_POSIX; }
S(rw, dtor, void, RWLock_POSIX* m) { m->~RWLock_POSIX(); }
S(rw, lockExclusive, void, RWLock_POSIX* m) { m->lockExclusive(); }
S(rw, unlockExclusive, void, RWLock_POSIX* m) { m->unlockExclusive(); }
S(rw, lockShared, void, RWLock_POSIX* m) { m->lockShared(); }
S(rw, unlockShared, void, RWLock_POSIX* m) { m->unlockShared(); }
S(rw, sharedguard, void, RWLock_POSIX* m) { SharedLockGuard<RWLock_POSIX> g{*m}; }
S(rw, exclusiveguard, void, RWLock_POSIX* m) { ExclusiveLockGuard<RWLock_POSIX> g{*m}; }
// condition variables
S(condposix, ctor, void, ConditionVariable_POSIX* c) { new (c) ConditionVariable_POSIX; }
S(condposix, dtor, void, ConditionVariable_POSIX* c) { c->~ConditionVariable_POSIX(); }
S(condposix, wait, void, ConditionVariable_POSIX* c, LockGuard<Mutex_POSIX>* g) { c->wait(*g); }
S(condposix, timedWait, void, ConditionVariable_POSIX* c, LockGuard<Mutex_POSIX>* g, ureg n) { c->timedWait(*g, n); }
S(condposix, wakeOne, void, ConditionVariable_POSIX* c) { c->wakeOne(); }
S(condposix, wakeAll, void, ConditionVariable_POSIX* c) { c->wakeAll(); }
S(condcpp, wait, void, ConditionVariable_CPP11* c, LockGuard<Mutex_CPP11>* g) { c->wait(*g); }
S(condcpp, wakeOne, void, ConditionVariable_CPP11* c) { c->wakeOne(); }
S(condcpp, wakeAll, void, ConditionVariable_CPP11* c) { c->wakeAll(); }
S(sem, ctor, void, Semaphore_POSIX* s) { new (s) Semaphore_POSIX; }
S(sem, dtor, void, Semaphore_POSIX* s) { s->~Semaphore_POSIX(); }
S(sem, wait, void, Semaphore_POSIX* s) { s->wait(); }
S(sem, signal, void, Semaphore_POSIX* s, ureg n) { s->signal(n); }
S(event, signal, void, ManualResetEvent_CondVar* e) { e->signal(); }
S(event, reset, void, ManualResetEvent_CondVar* e) { e->reset(); }
S(event, wait, void, ManualResetEvent_CondVar* e) { e->wait(); }
// threads
struct Fn { u32 x; Fn(const Fn&); Fn(Fn&&); ~Fn(); void operator()(); };
S(thread, run, void, Thread_POSIX* t, Fn* f) { t->run(std::move(*f)); }
S(thread, join, void, Thread_POSIX* t) { t->join(); }
S(thread, dtor, void, Thread_POSIX* t) { t->~Thread_POSIX(); }
// per-thread values
S(tls, ctor, void, ThreadLocal<u32>* t) { new (t) ThreadLocal<u32>; }
S(tls, load, u32, ThreadLocal<u32>* t) { return t->load(); }
S(tls, store, void, ThreadLocal<u32>* t, u32 v) { t->store(v); }
S(tls, dtor, void, ThreadLocal<u32>* t) { t->~ThreadLocal<u32>(); }
