/* TCP server: sends are complete and in order, failing clients are dropped and closed without affecting others, every socket, thread and
   block is released once.  Sockets and threads are assumed contracts (below). */
#include <stdio.h>
#include "env_cpp.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>
#ifndef HT_ENABLE_TCP_LISTENER
#define HT_ENABLE_TCP_LISTENER
#endif
#include <new>
#include <thread>
extern "C" {
static int G_socket(int d, int t, int p);
static int G_setsockopt(int fd, int l, int o, const void* v, socklen_t n);
static int G_bind(int fd, const struct sockaddr* a, socklen_t n);
static int G_listen(int fd, int b);
static int G_accept(int fd, struct sockaddr* a, socklen_t* n);
static ssize_t G_send(int fd, const void* p, size_t n, int flags);
static int G_shutdown(int fd, int how);
static int G_close(int fd);
static uint16_t G_htons(uint16_t v) { return (uint16_t)((v << 8) | (v >> 8)); }
static uint32_t G_htonl(uint32_t v) { return __builtin_bswap32(v); }
}
#undef htons
#undef htonl
#define socket(a, b, c) G_socket(a, b, c)
#define setsockopt G_setsockopt
#define bind(a, b, c) G_bind(a, b, c)
#define listen(a, b) G_listen(a, b)
#define accept(a, b, c) G_accept(a, b, c)
#define send(a, b, c, d) G_send(a, b, c, d)
#define shutdown(a, b) G_shutdown(a, b)
#define close(a) G_close(a)
#define htons G_htons
#define htonl G_htonl
extern "C" {
#include "lib/bag.c"
}
#include "lib/tcp_server.cpp"

static HT_TCPServer* S;
static char* g_buf; static size_t g_size, g_sent, g_idx; static int g_fd, g_bad, g_failed, g_sends;
/* ---- one socket ---- */
static ssize_t G_send(int fd, const void* p, size_t n, int flags)
{
    vf_assert(fd == g_fd, "sent to the given socket");
    vf_assert(!g_failed, "nothing is sent after a failure");
    vf_assert(flags & MSG_NOSIGNAL, "a client that has gone does not raise a signal");
    vf_assert(n <= g_size - g_sent && n > 0 && vf_valid(p, n), "the sent range is the rest of the data");
    g_bad |= vf_and(vf_and(g_idx >= g_sent, g_idx - g_sent < n), vf_peek(p, g_idx - g_sent, n) != (uint8_t)g_buf[g_idx]);
    if (vf_bool("fails")) { g_failed = 1; return vf_bool("closed") ? 0 : -1; }
    size_t k = vf_range("accepted", 1, 0x7ffff000, 4);
    vf_assume(k <= n);
    g_sent += k;
    return (ssize_t)k;
}
static int SEND_INV(void) { return vf_and(vf_and(g_sent <= g_size, g_bad == 0), g_failed == 0); }
static uint64_t SENT(void) { return g_sent; }
extern "C" void H_send(void)
{
    S = (HT_TCPServer*)vf_obj("server", sizeof(HT_TCPServer));
    g_fd = (int)vf_u32("fd");
    g_size = vf_range("size", 0, VF_BIG, 10);
    g_buf = (char*)vf_obj("buf", g_size);
    g_idx = vf_range("idx", 0, VF_BIG, 10);
    vf_assume(g_idx < g_size || g_size == 0);
    g_sent = 0;
    vf_inv(SEND_INV);
    vf_term(SENT);
    vf_cover("pre");
    HT_Boolean r = ht_tcp_server_write_to_socket(S, g_fd, g_buf, g_size);
    vf_cover("post");
    vf_assert(!g_bad, "every byte is sent unmodified at its position");
    if (r) vf_assert(g_sent == g_size && !g_failed, "success means everything was sent");
    else vf_assert(g_failed, "failure means the socket failed");
}
/* ---- all clients: the list is abstract (position i yields some socket; removing may rearrange what follows) ---- */
static size_t g_pos, g_removed, g_closed, g_n, g_written;
static int g_cur, g_cur_written, g_cur_failed, g_cur_closed, g_cur_removed, g_stage;
static void any_fd(size_t i, void* p)
{
    int fd = (int)vf_u32("client");
    vf_assume(fd >= 0);
    *(int*)p = fd;
    if (!g_stage) return;
    vf_assert(i == g_pos, "the clients are served one after the other, none twice");
    vf_assert(g_pos == 0 || (g_cur_written && g_cur_removed == g_cur_failed && g_cur_closed == g_cur_failed), "a client is served, and dropped if it failed, before the next one");
    g_pos = i + 1;
    g_cur = fd;
    g_cur_written = g_cur_failed = g_cur_closed = g_cur_removed = 0;
}
extern "C" HT_Boolean C__ht_tcp_server_write_to_socket(HT_TCPServer* s, int fd, char* b, size_t n)
{
    vf_assert(s == S && fd == g_cur && b == g_buf && n == g_size, "every client gets the whole data");
    vf_assert(!g_cur_written, "no client gets the data twice");
    vf_assert(S->client_mutex->held, "the client list is locked");
    g_cur_written = 1;
    g_cur_failed = vf_bool("fails");
    return g_cur_failed ? HT_FALSE : HT_TRUE;
}
extern "C" void C__ht_bag_int_remove_nth(HT_BagInt* bag, size_t n)
{
    vf_assert(bag == &S->client_sock_fd && g_pos > 0 && n == g_pos - 1 && g_cur_failed && !g_cur_removed, "only a failed client is dropped, once");
    bag->size--;
    g_removed++;
    g_pos = n;
    g_cur_removed = 1;
    vf_lazy_reset(bag->data);
}
/* ---- stop: every client socket is closed once ---- */
static int g_server_fd, g_shut, g_server_closed, g_joined, g_thread_freed, g_started;
static size_t g_w, g_wclosed, g_nclosed;
static int G_close(int fd)
{
    if (g_stage == 1)
    {
        vf_assert(fd == g_cur && g_cur_failed && !g_cur_closed, "only the socket of a failed client is closed, once");
        g_cur_closed = 1;
    }
    else if (g_stage == 2)
    {
        if (fd == g_server_fd) { vf_assert(!g_server_closed && g_shut && (g_joined || !g_started), "the server socket is closed once, after its thread has ended"); g_server_closed = 1; }
        else { vf_assert(g_nclosed < g_n, "no socket is closed twice"); g_nclosed++; }
    }
    else if (g_stage == 3)
    {
        vf_assert(fd == g_cur && g_cur_written && !g_cur_closed, "only a client that can not be kept is closed");
        g_cur_closed = 1;
    }
    return 0;
}
static int WRITE_INV(void)
{
    return vf_and(vf_and(S->client_sock_fd.size + g_removed == g_n, g_removed <= g_n),
           vf_and(g_pos <= S->client_sock_fd.size,
           vf_imp(vf_imp(g_pos == 0, g_removed > 0), vf_and(g_cur_written == 1, vf_and(g_cur_removed == g_cur_failed, g_cur_closed == g_cur_failed)))));
}
static void server(int stage)
{
    g_stage = 0;
    S = (HT_TCPServer*)ht_alloc(sizeof(HT_TCPServer));
    vf_assume(S != NULL);
    S->client_mutex = ht_mutex_create();
    vf_assume(S->client_mutex != NULL);
    S->client_sock_fd.min_capacity = 8;
    S->client_sock_fd.capacity = vf_range("capacity", 8, VF_BIG, 10);
    g_n = S->client_sock_fd.size = vf_range("clients", 0, VF_BIG, 10);
    vf_assume(g_n <= S->client_sock_fd.capacity);
    S->client_sock_fd.data = (int*)vf_lazy_("clients", g_n, S->client_sock_fd.capacity, sizeof(int), any_fd);
    vf_heapify(S->client_sock_fd.data);
    S->accept_client_thread = NULL;
    g_stage = stage;
}
extern "C" void H_write(void)
{
    server(1);
    vf_guard(&S->client_sock_fd, sizeof S->client_sock_fd, &S->client_mutex->held);
    vf_guard(S->client_sock_fd.data, S->client_sock_fd.capacity * sizeof(int), &S->client_mutex->held);
    g_size = vf_range("size", 0, VF_BIG, 10);
    g_buf = (char*)vf_obj("buf", g_size);
    vf_inv(WRITE_INV);
    vf_cover("pre");
    ht_tcp_server_write(S, g_buf, g_size);
    vf_cover("post");
    S->client_mutex->held = 1;
    vf_assert(WRITE_INV() && g_pos == S->client_sock_fd.size, "every client is served; failed ones are dropped and closed");
    S->client_mutex->held = 0;
    locks_released();
}
static int G_shutdown(int fd, int how)
{
    (void)how;
    vf_assert(fd == g_server_fd && !g_shut, "the server socket is shut down once");
    vf_assert(S->server_sock_fd == -1, "the server is marked stopped before its thread is woken up");
    g_shut = 1;
    return 0;
}
extern "C" void* vf_thread_start(void* (*f)(void*), void* arg)
{
    vf_assert(f == _ht_tcp_server_run && arg == (void*)S, "the server thread accepts clients");
    vf_assert(!g_started && S->client_connected_cb != NULL, "everything is set up before the thread is started");
    g_started = 1;
    return &g_started;
}
extern "C" void vf_thread_join(void* h)
{
    vf_assert(h == &g_started && g_started && !g_joined, "a running thread is joined once");
    vf_assert(g_shut, "the thread is woken up before it is waited for");
    vf_assert(g_held == 0, "no lock the thread may need is held while waiting for it");
    g_joined = 1;
}
extern "C" void vf_thread_lost(void*) { vf_assert(0, "a running thread is not abandoned"); }
static void any_cb(int, void*) {}
static void running_server(void)
{
    server(0);
    g_server_fd = (int)vf_range("server_fd", 0, 1000, 1000);
    S->server_sock_fd = g_server_fd;
    S->client_connected_cb = any_cb;
    g_started = vf_bool("thread");
    if (g_started)
    {
        g_started = 0;
        S->accept_client_thread = ht_thread_create(_ht_tcp_server_run, S);
        vf_assume(S->accept_client_thread != NULL);
    }
}
static int STOP_INV(void) { return vf_and(g_nclosed <= g_n, vf_and(g_shut == 1, vf_imp(g_started, g_joined == 1))); }
static void not_server(size_t i, void* p) { (void)i; int fd = (int)vf_u32("client"); vf_assume(fd != g_server_fd); *(int*)p = fd; }
extern "C" void H_stop(void)
{
    running_server();
    ht_free(S->client_sock_fd.data);
    S->client_sock_fd.data = (int*)vf_lazy_("clients", g_n, S->client_sock_fd.capacity, sizeof(int), not_server);
    vf_heapify(S->client_sock_fd.data);
    g_stage = 2;
    int live = vf_live(), th = S->accept_client_thread != NULL;
    int whole = vf_bool("destroy");
    vf_inv(STOP_INV);
    vf_cover("pre");
    if (whole)
    {
        ht_tcp_server_destroy(S);
        vf_cover("destroyed");
        vf_assert(vf_live() == live - 3 - th && g_mutexes == 0, "everything is released");
    }
    else
    {
        ht_tcp_server_stop(S);
        vf_cover("stopped");
        vf_assert(vf_live() == live - th && S->accept_client_thread == NULL && S->server_sock_fd == -1 && S->client_sock_fd.size == 0, "the thread is released and no client is kept");
        ht_tcp_server_stop(S);
        vf_assert(vf_live() == live - th, "stopping again changes nothing");
    }
    vf_assert(g_nclosed == g_n && g_server_closed && g_shut && g_joined == g_started, "every socket is closed and the thread has ended");
    locks_released();
}
/* ---- start ---- */
static int g_step, g_port;
static int G_socket(int d, int t, int p)
{
    vf_assert(d == AF_INET && t == SOCK_STREAM && p == 0, "a stream socket");
    if (vf_bool("socket_fails")) return -1;
    return g_server_fd = (int)vf_range("server_fd", 0, 1000, 1000);
}
static int G_setsockopt(int fd, int, int, const void* v, socklen_t n) { vf_assert(fd == g_server_fd && vf_valid(v, n), "own socket"); return vf_bool("setsockopt_fails") ? -1 : 0; }
static int G_bind(int fd, const struct sockaddr* a, socklen_t n)
{
    vf_assert(fd == g_server_fd && n == sizeof(struct sockaddr_in) && vf_valid(a, n), "own socket");
    vf_assert(((const struct sockaddr_in*)a)->sin_family == AF_INET && ((const struct sockaddr_in*)a)->sin_port == G_htons((uint16_t)g_port), "the requested port");
    g_step = 1;
    return vf_bool("bind_fails") ? -1 : 0;
}
static int G_listen(int fd, int b) { vf_assert(fd == g_server_fd && b > 0 && g_step == 1, "a bound socket"); g_step = 2; return vf_bool("listen_fails") ? -1 : 0; }
extern "C" void H_start(void)
{
    int live = vf_live();
    vf_malloc_may_fail(1);
    S = ht_tcp_server_create();
    if (!S) { vf_cover("oom"); vf_assert(vf_live() == live && g_mutexes == 0, "a failed creation releases everything"); return; }
    vf_assert(!ht_tcp_server_is_running(S) && S->client_sock_fd.size == 0, "a new server is stopped and has no clients");
    g_stage = 2; g_n = 0;
    g_port = (int)vf_range("port", 0, 65535, 65535);
    int alive = vf_live();
    vf_cover("pre");
    HT_Boolean r = ht_tcp_server_start(S, g_port, any_cb, S);
    if (r)
    {
        vf_cover("started");
        vf_assert(g_step == 2 && g_started && ht_tcp_server_is_running(S) && S->server_sock_fd == g_server_fd && !g_server_closed, "the server listens");
        vf_assert(S->client_connected_cb == any_cb && S->client_connected_ud == (void*)S, "the callback is kept");
    }
    else
    {
        vf_cover("failed");
        vf_assert(!g_started && !ht_tcp_server_is_running(S), "a failed start leaves the server stopped");
        vf_assert(vf_live() == alive, "a failed start leaks no memory");
        vf_assert(g_server_fd == 0 || g_server_closed, "a failed start closes its socket");
    }
    vf_unroll(1);
    ht_tcp_server_destroy(S);
    vf_assert(vf_live() == live && g_mutexes == 0 && g_joined == g_started, "everything is released");
    locks_released();
}
/* ---- the accepting thread ---- */
static int g_accepts;
static int G_accept(int fd, struct sockaddr* a, socklen_t* n)
{
    (void)a;
    vf_assert(g_held == 0, "no lock is held while waiting for a client");
    vf_assert(*n == sizeof(struct sockaddr_in), "the size of the address buffer");
    vf_assert(!g_cur_written || g_cur_closed || g_cur_removed, "a client that connected is kept or closed before the next one");
    if (vf_bool("stopped")) S->server_sock_fd = -1;
    if (vf_bool("accept_fails")) { g_cur_written = 0; return -1; }
    g_cur = (int)vf_range("client", 0, 0x7fffffff, 100);
    g_cur_written = g_cur_closed = g_cur_removed = 0;
    g_accepts = 1;
    return g_cur;
}
static void connected(int fd, void* ud)
{
    vf_assert(ud == (void*)&g_port && g_accepts && fd == g_cur && !g_cur_written, "a new client is announced once");
    vf_assert(g_held == 0, "no lock is held during the callback");
    vf_assert(!g_cur_removed && !g_cur_closed, "a client is announced before it is added");
    g_cur_written = 1;
}
extern "C" HT_ErrorCode C__ht_bag_int_add(HT_BagInt* b, int fd)
{
    vf_assert(b == &S->client_sock_fd && fd == g_cur && g_cur_written && !g_cur_removed, "a client is added once, after it got the metadata");
    vf_assert(S->client_mutex->held, "the client list is locked");
    if (vf_bool("oom")) return HT_ERR_OUT_OF_MEMORY;
    g_cur_removed = 1;
    return HT_ERR_OK;
}
static int RUN_INV(void) { return vf_and(vf_imp(g_cur_written, vf_and(g_cur_closed, g_cur_removed) == 0), vf_and(g_held == 0, vf_imp(g_cur_written, vf_imp(g_cur_closed == 0, g_cur_removed)))); }
extern "C" void H_accept(void)
{
    server(3);
    S->server_sock_fd = g_server_fd = 5;
    S->client_connected_cb = connected;
    S->client_connected_ud = &g_port;
    vf_inv(RUN_INV);
    vf_cover("pre");
    _ht_tcp_server_run(S);
    vf_cover("post");
    vf_assert(RUN_INV(), "the last client is kept or closed too");
    locks_released();
}
