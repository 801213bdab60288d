/* Trace input from the network: bytes come out exactly as received, in order, whatever the chunks; the end is reported once there is nothing left. */
#include "env_cpp.h"
#include <cstddef>
extern "C" void* G_memcpy(void* d, const void* s, size_t n);
#define VF_COPY G_memcpy
#include <string>
#include <vector>
#include <queue>
#include <mutex>
#include <thread>
#include <atomic>
#include <condition_variable>
#include <chrono>
#include <algorithm>
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
extern "C" {
ssize_t G_recv(int fd, void* p, size_t n, int flags);
int G_close(int fd);
int G_socket(int a, int b, int c);
int G_connect(int fd, const struct sockaddr* a, socklen_t n);
int G_shutdown(int fd, int how);
in_addr_t G_inet_addr(const char* s);
uint16_t G_htons(uint16_t v);
}
#define memcpy G_memcpy
#define memmove G_memcpy
#define recv G_recv
#define close G_close
#define socket G_socket
#define connect G_connect
#define shutdown G_shutdown
#define inet_addr G_inet_addr
#undef htons
#define htons G_htons
#define private public
#include "client_utils/tcp_client_stream.cpp"
#undef recv
#undef memcpy
#undef memmove
#undef close
#undef socket
#undef connect
#undef shutdown
#undef inet_addr
#undef htons
using HawkTracer::ClientUtils::TCPClientStream;
typedef std::pair<size_t, std::vector<char>> Chunk;

/* the whole stream is one array of bytes: what has been received lies before g_received, what has been read before g_read */
static char* g_stream; static uint64_t g_len, g_tail;        /* g_tail: end of the chunk at the front */
static TCPClientStream* g_s;
static int g_locked, g_done, g_notified, g_pending;
static uint64_t g_received, g_pushed, g_w;
namespace std {
template<> struct vf_queue_<Chunk>
{
    static void next(Chunk* e)
    {
        uint64_t n = vf_u64("chunk");
        uint64_t behind = g_s->_datas._n - 1;              /* every chunk has a byte at least */
        vf_assume(behind <= g_len - g_tail);
        vf_assume(n >= 1 && n <= g_len - g_tail - behind);
        /* the chunk [tail, tail + n) of the stream: a buffer that has been read up to the chunk */
        e->first = g_tail;
        e->second._b = g_stream;
        g_tail += n;
        e->second._n = g_tail;
        e->second._c = g_tail;
    }
    static void pushed(Chunk& e, size_t n)
    {
        vf_assert(g_locked, "the received data is handed over under the lock");
        vf_assert(e.first == 0, "chunks are read from their start");
        vf_assert(e.second._n == g_received - g_pushed, "everything received is handed over");
        if (g_w < e.second._n) vf_assert(e.second._b[g_w] == g_stream[g_pushed + g_w], "bytes are handed over as received");
        g_pushed = g_received;
        g_pending = 1;
    }
};
}
static char* g_dst; static uint64_t g_dw;
extern "C" {
/* copying, represented at one arbitrary byte of the destination of the reader */
void* G_memcpy(void* d, const void* s, size_t n)
{
    vf_assert(vf_valid(d, n) && vf_valid(s, n), "only memory of the source and the destination is touched");
    uint64_t off = (uint64_t)(g_dst + g_dw) - (uint64_t)d;
    if (!g_dst) __builtin_memcpy(d, s, n);
    else if (off < n) g_dst[g_dw] = ((const char*)s)[off];
    return d;
}
int vf_mutex_init(void* m) { return 1; }
void vf_mutex_fini(void* m) {}
int vf_mutex_lock(void* m) { vf_assert(!g_locked, "the lock is not held already"); g_locked = 1; return 1; }
int vf_mutex_try_lock(void* m) { return 1; }
void vf_mutex_unlock(void* m) { vf_assert(g_locked, "the lock is held"); g_locked = 0; }
static int g_threads, g_joins, g_shut, g_thread_fd;
static void* (*g_thread)(void*); static void* g_thread_arg;
void* vf_thread_start(void* (*f)(void*), void* arg) { g_thread = f; g_thread_arg = arg; g_threads++; g_thread_fd = *(int*)&g_s->_sock_fd; return (void*)1; }
static int g_open, g_fd, g_finished;
void vf_thread_join(void* h)
{
    g_joins++;
    vf_assert(!g_locked, "a thread that needs the lock is not waited for with the lock held");
    vf_assert(g_finished || g_shut, "a thread that may be waiting for data is woken before it is waited for");
    if (!g_finished) { *(int*)&g_s->_sock_fd = -1; g_open = 0; g_finished = 1; }
}
void vf_thread_lost(void* h) { vf_assert(0, "a running thread is never abandoned"); }
void vf_cv_wait(void* cv, void* m)
{
    vf_assert(g_locked && m == (void*)&g_s->_datas_mtx && cv == (void*)&g_s->_datas_cv, "waiting happens under the lock");
    if (vf_bool("disconnected")) { *(int*)&g_s->_sock_fd = -1; return; }
    if (g_s->_datas._n == 0 && g_tail < g_len && vf_bool("received"))
    {
        g_s->_datas._n = vf_range("received chunks", 1, VF_BIG, 3);
        std::vf_queue_<Chunk>::next((Chunk*)g_s->_datas._s);
    }
}
void vf_cv_notify(void* cv, int all)
{
    if (cv == (void*)&g_s->_datas_cv) g_notified = 1, g_pending = 0;
}
int vf_map_other_key(void) { return 0; }
void C___ZdlPv(void* p) {}
ssize_t G_recv(int fd, void* p, size_t n, int flags)
{
    vf_assert(fd == g_fd && g_open, "only the open connection is read");
    vf_assert(!g_locked, "the lock is not held while waiting for the network");
    vf_assert(!g_pending, "readers are told about the data before more is waited for");
    ssize_t r = (ssize_t)vf_u64("received");
    if (vf_bool("end")) { if (vf_bool("error")) return -1; return 0; }
    vf_assume(r >= 1 && (uint64_t)r <= n && (uint64_t)r <= g_len - g_received);
    memcpy(p, g_stream + g_received, (size_t)r);
    g_received += (uint64_t)r;
    return r;
}
static int g_closes, g_sockets, g_connects;
int G_close(int fd) { vf_assert(fd == g_fd && g_open, "only the open connection is closed"); g_open = 0; g_closes++; return 0; }
int G_socket(int a, int b, int c)
{
    vf_assert(a == AF_INET && b == SOCK_STREAM, "a stream connection is made");
    vf_assert(!g_open, "an earlier connection is closed before another one is made");
    if (vf_bool("no socket")) return -1;
    g_sockets++;
    g_open = 1;
    return g_fd;
}
static in_addr_t g_ip; static uint16_t g_port; static int g_connected;
int G_connect(int fd, const struct sockaddr* a, socklen_t n)
{
    const struct sockaddr_in* s = (const struct sockaddr_in*)a;
    vf_assert(fd == g_fd && g_open && n == sizeof(*s), "the new socket is connected");
    vf_assert(s->sin_family == AF_INET && s->sin_addr.s_addr == g_ip && s->sin_port == (uint16_t)((g_port >> 8) | (g_port << 8)), "the connection goes to the address asked for");
    g_connects++;
    if (vf_bool("refused")) return -1;
    g_connected = 1;
    return 0;
}
int G_shutdown(int fd, int how) { vf_assert(fd == g_fd && g_open, "only the open connection is shut down"); if (how == SHUT_RDWR || how == SHUT_RD) g_shut = 1; return 0; }
uint16_t G_htons(uint16_t v) { return (uint16_t)((v >> 8) | (v << 8)); }
in_addr_t G_inet_addr(const char* s) { return g_ip; }

static TCPClientStream* any_stream(void)
{
    TCPClientStream* s = (TCPClientStream*)vf_raw("stream", sizeof(TCPClientStream));
    g_s = s;
    g_fd = (int)vf_range("socket", 0, 1000, 3);
    *(int*)&s->_sock_fd = vf_bool("connected") ? g_fd : -1;
    g_open = *(int*)&s->_sock_fd != -1;
    *(void**)&s->_thread = NULL;
    g_len = vf_range("length of the stream", 0, VF_BIG, 8);
    g_stream = (char*)vf_obj("bytes", g_len + 1);
    return s;
}
static uint64_t position(TCPClientStream* s) { return vf_ite(s->_datas._n != 0, ((Chunk*)s->_datas._s)->first, g_tail); }
static uint64_t POS(void) { return position(g_s); }
static int INV_queue(void)
{
    Chunk* c = (Chunk*)g_s->_datas._s;
    return vf_and(g_tail <= g_len, vf_and(vf_imp(g_s->_datas._n != 0, vf_and(c->first < c->second._n, c->second._n == g_tail)),
           vf_and(vf_imp(g_s->_datas._n != 0, g_s->_datas._n - 1 <= g_len - g_tail), vf_imp(g_s->_datas._n == 0, c->second._n <= g_len))));
}
static void any_queue(TCPClientStream* s)
{
    g_tail = vf_u64("read before");
    vf_assume(g_tail <= g_len);
    s->_datas._n = vf_range("chunks", 0, VF_BIG, 3);
    Chunk* c = (Chunk*)s->_datas._s;
    if (s->_datas._n)
    {
        std::vf_queue_<Chunk>::next(c);
        uint64_t r = vf_u64("read from the chunk");
        vf_assume(r >= c->first && r < c->second._n);
        c->first = r;
    }
    else
    {
        c->first = 0;
        c->second._b = g_stream;
        c->second._n = c->second._c = 0;
    }
}
static int g_contract;
bool C___ZN10HawkTracer11ClientUtils15TCPClientStream14_wait_for_dataERSt11unique_lockISt5mutexE(TCPClientStream* s, std::unique_lock<std::mutex>* l)
{
    vf_assert(g_locked && s == g_s && l->mutex() == &s->_datas_mtx, "waiting happens under the lock");
    if (s->_datas._n == 0)
    {
        if (g_tail == g_len || vf_bool("disconnected")) { *(int*)&s->_sock_fd = -1; return false; }
        s->_datas._n = vf_range("received chunks", 1, VF_BIG, 3);
        std::vf_queue_<Chunk>::next((Chunk*)s->_datas._s);
    }
    return true;
}
void H_wait_for_data(void)
{
    TCPClientStream* s = any_stream();
    any_queue(s);
    uint64_t pos = position(s), n = s->_datas._n;
    std::unique_lock<std::mutex> l(s->_datas_mtx);
    vf_inv(INV_queue);
    vf_term(POS);
    vf_cover("pre");
    bool ok = s->_wait_for_data(l);
    vf_inv_clear();
    vf_assert(g_locked && position(s) == pos && INV_queue(), "waiting takes nothing");
    if (n) vf_assert(ok, "nothing is waited for when there is data");
    if (ok) { vf_cover("data"); vf_assert(!s->_datas.empty(), "waiting ends when there is data"); }
    else { vf_cover("end"); vf_assert(s->_datas.empty() && *(int*)&s->_sock_fd == -1, "the end is reported only when everything has been read"); }
}
void H_read_byte(void)
{
    TCPClientStream* s = any_stream();
    any_queue(s);
    uint64_t pos = position(s);
    vf_inv(INV_queue);
    vf_term(POS);
    vf_cover("pre");
    int r = s->TCPClientStream::read_byte();
    vf_assert(!g_locked, "the lock is released");
    if (r == -1)
    {
        vf_cover("end");
        vf_assert(s->_datas.empty() && *(int*)&s->_sock_fd == -1 && position(s) == pos, "the end is reported only when everything has been read");
    }
    else
    {
        vf_cover("byte");
        vf_assert(pos < g_len && r == (int)(unsigned char)g_stream[pos], "the next byte is returned, whatever its value");
        vf_assert(position(s) == pos + 1, "one byte is taken");
    }
}
static uint64_t g_size, g_pos;
static int INV_bytes(void) { return vf_imp(g_w < position(g_s) - g_pos, vf_peek(g_dst, g_w, g_size) == vf_peek(g_stream, g_pos + g_w, g_len + 1)); }
void H_read_data(void)
{
    TCPClientStream* s = any_stream();
    any_queue(s);
    uint64_t pos = position(s), size = vf_range("size", 1, VF_BIG, 8), w = vf_u64("w");
    char* dst = (char*)vf_raw("destination", size);
    vf_inv(INV_queue);
    vf_term(POS);
    vf_cover("pre");
    g_dst = dst; g_w = g_dw = w; g_pos = pos; g_size = size;
    vf_assume(w < size);
    vf_inv(INV_bytes);
    bool ok = s->TCPClientStream::read_data(dst, size);
    vf_assert(!g_locked, "the lock is released");
    if (ok)
    {
        vf_cover("read");
        vf_assert(position(s) == pos + size, "exactly the bytes asked for are taken");
        vf_assert(dst[w] == g_stream[pos + w], "the bytes are delivered as received, in order");
    }
    else
    {
        vf_cover("short");
        vf_assert(s->_datas.empty() && *(int*)&s->_sock_fd == -1 && position(s) - pos < size, "a short read is reported only when everything has been read");
    }
}
static int INV_run(void)
{
    return vf_and((*(int*)&g_s->_sock_fd == g_fd) == (g_open != 0), vf_and(vf_imp(!g_open, *(int*)&g_s->_sock_fd == -1),
           vf_and(g_received <= g_len, vf_and(g_pushed == g_received, vf_and(g_closes == (g_open == 0), vf_and(!g_pending, vf_imp(g_closes, g_notified)))))));
}
void H_run(void)
{
    TCPClientStream* s = any_stream();
    s->_datas._n = 0;
    g_w = vf_u64("w");
    vf_assume(g_open);
    vf_malloc_may_fail(0);
    vf_inv(INV_run);
    vf_cover("pre");
    s->_run();
    vf_inv_clear();
    vf_cover("ended");
    vf_assert(!g_locked && *(int*)&s->_sock_fd == -1 && !g_open && g_closes == 1, "at the end of the data the connection is closed");
    vf_assert(g_pushed == g_received, "everything received is handed over");
    vf_assert(g_notified && !g_pending, "readers are told about the end");
}
void H_start(void)
{
    vf_malloc_may_fail(0);
    uint16_t port = (uint16_t)vf_range("port", 0, 65535, 65535);
    int wait = vf_bool("wait for the server");
    TCPClientStream* s = new TCPClientStream("1.2.3.4", port, wait);
    vf_assert(!s->is_connected() && s->_port == port && s->_wait_for_server == wait, "a new stream is not connected");
    g_s = s;
    g_fd = (int)vf_range("socket", 0, 1000, 3);
    g_open = vf_bool("connected");
    if (g_open) *(int*)&s->_sock_fd = g_fd;
    int was = g_open;
    *(void**)&s->_thread = was || vf_bool("ended thread") ? (void*)1 : NULL;
    int thread = *(void**)&s->_thread != NULL;
    g_finished = !was;
    g_port = port;
    g_ip = vf_u32("address");
    vf_cover("pre");
    bool ok = s->TCPClientStream::start();
    vf_assert(!g_locked && g_joins == thread, "the thread of an earlier connection is waited for");
    vf_assert(ok == (g_threads == 1) && g_threads <= 1, "a thread reads the connection exactly when it has been made");
    if (ok)
    {
        vf_cover("started");
        vf_assert(g_connected && g_open && *(int*)&s->_sock_fd == g_fd && g_thread_fd == g_fd, "the connection is known before it is read");
    }
    else
    {
        vf_cover("failed");
        vf_assert(!g_open && *(int*)&s->_sock_fd == -1, "a connection that could not be made is closed");
    }
}
void H_stop(void)
{
    TCPClientStream* s = any_stream();
    int was = g_open;
    *(void**)&s->_thread = was || vf_bool("ended thread") ? (void*)1 : NULL;
    int thread = *(void**)&s->_thread != NULL;
    g_finished = !was;
    vf_cover("pre");
    s->TCPClientStream::stop();
    vf_assert(!g_locked && g_joins == thread && *(void**)&s->_thread == NULL, "the thread is waited for");
    vf_assert(*(int*)&s->_sock_fd == -1 && !g_open, "the connection is closed");
}
}
