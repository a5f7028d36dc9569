// Uses of the inline stream members, so that they are part of the analysed program.  Never linked or executed.
#include <ply-runtime/Base.h>
#include <ply-runtime/io/OutStream.h>
#include <ply-runtime/io/InStream.h>
using namespace ply;

bool drv_out_write(OutStream* o, StringView s) {
    return o->write(s);
}
bool drv_out_writeByte(OutStream* o, u8 c) {
    return o->writeByte(c);
}
u32 drv_out_try(OutStream* o, u32 n) {
    return o->tryMakeBytesAvailable(n);
}
void drv_out_make(OutStream* o, u32 n) {
    o->makeBytesAvailable(n);
}
bool drv_out_flush(OutStream* o, bool dev) {
    return o->flush(dev);
}
void drv_out_flushMem(OutStream* o) {
    o->flushMem();
}
void drv_out_destroy(OutStream* o) {
    o->~OutStream();
}
u64 drv_out_seekPos(OutStream* o) {
    return o->getSeekPos();
}
void drv_out_write2(OutStream* o, StringView s, StringView t) {
    o->write(s);
    o->write(t);
}
void drv_out_write_flush_write(OutStream* o, StringView s, StringView t) {
    o->write(s);
    o->flush();
    o->write(t);
}
void drv_out_write_destroy(OutStream* o, StringView s) {
    o->write(s);
    o->~OutStream();
}
void drv_out_move_write_flush(OutStream* src, StringView s) {
    OutStream dst{std::move(*src)};
    dst.write(s);
    dst.flush();
}
void drv_out_move_away(OutStream* src, OutStream* dst) {
    new (dst) OutStream{std::move(*src)};
    src->~OutStream();
}
String drv_mem_toString(MemOutStream* m) {
    return m->moveToString();
}
bool drv_in_read(InStream* i, MutableStringView d) {
    return i->read(d);
}
u8 drv_in_readByte(InStream* i) {
    return i->readByte();
}
u32 drv_in_try(InStream* i, u32 n) {
    return i->tryMakeBytesAvailable(n);
}
bool drv_in_skip(InStream* i, u32 n) {
    return i->skip(n);
}
u64 drv_in_seekPos(InStream* i) {
    return i->getSeekPos();
}
void drv_in_destroy(InStream* i) {
    i->~InStream();
}
void drv_in_move(InStream* dst, InStream* src) {
    new (dst) InStream{std::move(*src)};
}
void drv_ctor_own(OutPipe* p, OutStream* dst) {
    new (dst) OutStream{Owned<OutPipe>::adopt(p)};
}
void drv_ctor_borrow(OutPipe* p, OutStream* dst) {
    new (dst) OutStream{borrow(p)};
}
void drv_ctor_mem(MemOutStream* dst) {
    new (dst) MemOutStream;
}
void drv_in_rewind(InStream* i, BlockList::WeakRef* r) {
    i->rewind(*r);
}
String drv_in_rest(InStream* i) {
    return i->readRemainingContents();
}
void drv_ictor_own(InPipe* p, InStream* dst) {
    new (dst) InStream{Owned<InPipe>::adopt(p)};
}
void drv_ictor_borrow(InPipe* p, InStream* dst) {
    new (dst) InStream{borrow(p)};
}
bool drv_inpipe_read(InPipe* p, MutableStringView d) {
    return p->read(d);
}
