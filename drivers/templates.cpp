// Every member of the container templates, so that members the repository itself never instantiates are analysed too.
#include <ply-runtime/Base.h>
#include <ply-runtime/container/BTree.h>
#include <ply-runtime/container/BigPool.h>
#include <ply-runtime/container/Sequence.h>
#include <ply-runtime/container/Pool.h>
#include <ply-runtime/container/EnumIndexedArray.h>
#include <ply-runtime/container/FixedArray.h>
#include <ply-runtime/container/Functor.h>
#include <ply-runtime/container/HiddenArgFunctor.h>
#include <ply-runtime/container/LambdaView.h>
#include <ply-runtime/container/Reference.h>
#include <ply-runtime/container/SetInScope.h>
#include <ply-runtime/container/Tuple.h>
#include <ply-runtime/container/WeakRef.h>
#include <ply-runtime/container/Int128.h>
#include <ply-runtime/container/Numeric.h>
struct DrvItem {
    ply::String name;
    ply::u32 num = 0;
};
struct DrvCounted : ply::RefCounted<DrvCounted> {
    void onRefCountZero() {
        delete this;
    }
};
template class ply::Array<ply::u32>;
template class ply::Array<ply::String>;
template class ply::Array<DrvItem>;
template class ply::ArrayView<const ply::u32>;
template class ply::Owned<DrvItem>;
template class ply::Borrowed<DrvItem>;
template class ply::Reference<DrvCounted>;
template class ply::FixedArray<ply::u32, 4>;

using namespace ply;
u32 drv_sequence(Sequence<DrvItem>& s, Sequence<DrvItem>& t, DrvItem&& item) {
    s.append(item);
    s.append(std::move(item));
    u32 n = s.numItems() + (s.isEmpty() ? 1 : 0) + s.head().num + s.tail().num;
    auto v = s.beginWriteViewNoConstruct();
    if (v.numItems > 1)
        s.endWrite(0);
    auto it = s.begin();
    for (; it != s.end(); ++it)
        n += it->num + (*it).num;
    --it;
    n += it.read().num;
    it.endRead(0);
    t = std::move(s);
    Sequence<DrvItem> u = std::move(t);
    return n;
}
u32 drv_pool(Pool<DrvItem>& p, u32 i, const DrvItem* q) {
    u32 n = p.indexOf(q) + p.get(PoolIndex<DrvItem, u32>{i})->num;
    for (PoolPtr<DrvItem> x : p)
        n += x->num;
    p.delItem(PoolIndex<DrvItem, u32>{i});
    p.clear();
    return n;
}
