// The parts of the library that read differently in another configuration: C++98 and the
// epoll variant of the socket.  Nothing here is ever executed.
#include <cybozu/inttype.hpp>
#define CYBOZU_SOCKET_USE_EPOLL
#include <cybozu/socket.hpp>
#include <cybozu/event.hpp>
#include <cybozu/thread.hpp>
#include <cybozu/mutex.hpp>
#include <cybozu/tls.hpp>
namespace cybozu { namespace drv {
void use_event(cybozu::Event& a) { cybozu::Event b; b.wakeup(); a.wait(); }
bool use_socket(cybozu::Socket& a, int msec, bool w) { return a.queryAccept(msec, w); }
bool use_epoll(cybozu::experimental::Epoll& e, cybozu::experimental::EpollEvent& v, int fd, unsigned ev) { int err; if (!e.init(&err)) return false; cybozu::experimental::AutoLock al(e, fd, ev); return e.wait(&v, 1, 3) > 0; }
}}
