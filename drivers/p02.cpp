// Client code whose handles must all be released once when it ends.  Never linked or executed.
#include <ply-runtime/Base.h>
#include <ply-runtime/filesystem/FileSystem.h>
#include <ply-runtime/filesystem/impl/FileSystem_POSIX.h>
#include <ply-runtime/io/impl/Pipe_FD.h>
#include <ply-runtime/network/Socket.h>
#include <ply-runtime/process/Subprocess.h>
using namespace ply;

void drv_use(const void*);

void drv_open_read(FileSystem* fs, StringView path) {
    Owned<InPipe> p = FileSystem_POSIX::openPipeForRead(fs, path);
}
void drv_open_write(FileSystem* fs, StringView path) {
    Owned<OutPipe> p = FileSystem_POSIX::openPipeForWrite(fs, path);
}
void drv_list(FileSystem* fs, StringView path) {
    Directory dir = FileSystem_POSIX::listDir(fs, path, 0);
}
void drv_list_partial(FileSystem* fs, StringView path, u32 flags) {
    Directory dir = FileSystem_POSIX::listDir(fs, path, flags);
    for (DirectoryEntry& e : dir) {
        if (e.isDir)
            return;
    }
}
void drv_connect(const IPAddress& a, u16 port) {
    Owned<TCPConnection> c = Socket::connectTCP(a, port);
}
void drv_bind(u16 port) {
    TCPListener l = Socket::bindTCP(port);
}
void drv_bind_close(u16 port) {
    TCPListener l = Socket::bindTCP(port);
    l.close();
}
void drv_bind_move(u16 port) {
    TCPListener l = Socket::bindTCP(port);
    TCPListener m = std::move(l);
}
void drv_bind_assign(u16 port, u16 port2) {
    TCPListener l = Socket::bindTCP(port);
    TCPListener m = Socket::bindTCP(port2);
    m = std::move(l);
}
void drv_accept(TCPListener* l) {
    Owned<TCPConnection> c = l->accept();
}
void drv_exec(StringView exe, ArrayView<const StringView> args, StringView dir, const Subprocess::Output& o,
              const Subprocess::Input& i) {
    Owned<Subprocess> s = Subprocess::exec(exe, args, dir, o, i);
}
void drv_exec_join(StringView exe, ArrayView<const StringView> args, StringView dir, const Subprocess::Output& o,
              const Subprocess::Input& i) {
    Owned<Subprocess> s = Subprocess::exec(exe, args, dir, o, i);
    s->join();
}
void drv_socket_init(IPAddress::Version v) {
    Socket::initialize(v);
}
