/* Network listener: batches go through the buffer to every client, a new client gets the metadata, resources are released once.
   The TCP server is an assumed contract here (its code is decided in tcp_server.cpp); the stream is watched at one arbitrary index. */
#include "env.h"
#ifndef HT_ENABLE_TCP_LISTENER
#define HT_ENABLE_TCP_LISTENER
#endif
#include "lib/alloc.c"
#include "lib/listener_buffer.c"
#include "lib/listeners/tcp_listener.c"

static size_t g_idx, g_pos, g_out;
static uint8_t g_val;
static int g_bad, g_running, g_servers, g_stopped, g_starts, g_writes;
static HT_TCPListener* L;
struct _HT_TCPServer { int x; };
static HT_TCPServer* g_server;

HT_TCPServer* ht_tcp_server_create(void)
{
    HT_TCPServer* s = (HT_TCPServer*)ht_alloc(sizeof(HT_TCPServer));
    if (s) { g_servers++; g_server = s; g_running = 0; }
    return s;
}
void ht_tcp_server_stop(HT_TCPServer* s)
{
    vf_assert(s != NULL && s == g_server && g_servers == 1, "the server exists when stopped");
    vf_assert(g_held == 0, "no lock the server's thread may need is held while stopping the server");
    g_running = 0;
}
void ht_tcp_server_destroy(HT_TCPServer* s)
{
    ht_tcp_server_stop(s);
    g_servers--;
    ht_free(s);
}
static int g_port, g_start_fails;
static OnClientConnected g_cb; static void* g_cb_ud;
HT_Boolean ht_tcp_server_start(HT_TCPServer* s, int port, OnClientConnected cb, void* ud)
{
    vf_assert(s == g_server && g_servers == 1 && port == g_port && cb && ud, "the server is started on the requested port");
    g_starts++;
    g_cb = cb; g_cb_ud = ud;
    g_running = !g_start_fails;
    /* a client may connect before this call returns */
    if (g_running && vf_bool("client_at_once")) cb(5, ud);
    return g_running ? HT_TRUE : HT_FALSE;
}
HT_Boolean ht_tcp_server_is_running(const HT_TCPServer* s) { vf_assert(s == g_server && g_servers == 1, "the server exists"); return g_running ? HT_TRUE : HT_FALSE; }
void ht_tcp_server_write(HT_TCPServer* s, char* d, size_t n)
{
    vf_assert(s == g_server && g_servers == 1, "the server exists when written to");
    vf_assert(n == 0 || vf_valid(d, n), "the sent range is readable memory");
    g_bad |= vf_and(vf_and(g_idx >= g_out, g_idx - g_out < n), vf_peek(d, g_idx - g_out, n) != g_val);
    g_out += n;
}
static TEventPtr g_meta; static size_t g_metasize; static int g_metacalls, g_sock, g_sent_meta, g_told;
HT_Boolean ht_tcp_server_write_to_socket(HT_TCPServer* s, int fd, char* d, size_t n)
{
    vf_assert(s == g_server && g_servers == 1, "the server exists when written to");
    vf_assert(fd == g_sock && (TEventPtr)d == g_meta && n == g_metasize, "the metadata go to the new client");
    g_sent_meta++;
    return vf_bool("send_fails") ? HT_FALSE : HT_TRUE;
}
size_t ht_timeline_listener_push_metadata(HT_TimelineListenerCallback cb, void* ud, HT_Boolean serialized)
{
    vf_assert(serialized && ud != NULL, "the metadata are serialized");
    g_metacalls++;
    cb(g_meta, g_metasize, HT_TRUE, ud);
    return g_metasize;
}
static size_t g_out0;
static int INV(void)
{
    return vf_imp(L->_was_flushed == HT_FALSE, g_out == g_out0) & vf_and(g_bad == 0, L->_buffer.usage < L->_buffer.max_size) &
     vf_imp(vf_and(g_idx >= g_out, g_idx - g_out < L->_buffer.usage), vf_peek(L->_buffer.data, g_idx - g_out, L->_buffer.usage) == g_val);
}
static uint64_t TOT(void) { return g_out + L->_buffer.usage; }
static void told(int fd, void* ud) { vf_assert(fd == g_sock && ud == (void*)&g_told, "the user's callback gets the socket and its user data"); vf_assert(g_sent_meta == 1 || !g_server || L->_tcp_server == NULL, "the metadata come first"); g_told++; }
enum { RUNNING, IDLE, STOPPED };
static void arbitrary_listener(int state, int exclusive)
{
    L = (HT_TCPListener*)ht_alloc(sizeof(HT_TCPListener));
    vf_assume(L != NULL);
    L->_push_action_mutex = ht_mutex_create();
    vf_assume(L->_push_action_mutex != NULL);
    L->_tcp_server = state == STOPPED ? NULL : ht_tcp_server_create();
    vf_assume(state == STOPPED || L->_tcp_server != NULL);
    g_running = state == RUNNING;
    L->_was_flushed = HT_FALSE;
    L->_last_client_sock_fd = 0;
    L->_client_connected_callback = vf_bool("callback") ? told : NULL;
    L->_client_connected_user_data = &g_told;
    g_out = vf_range("out", 0, VF_BIG, 3);
    L->_buffer.data = NULL; L->_buffer.max_size = 0; L->_buffer.usage = 0;
    if (state != STOPPED)
    {
        L->_buffer.max_size = vf_range("max_size", 1, VF_BIG, 6);
        L->_buffer.usage = vf_range("usage", 0, VF_BIG, 5);
        vf_assume(L->_buffer.usage < L->_buffer.max_size);
        L->_buffer.data = (HT_Byte*)vf_obj("data", L->_buffer.max_size);
        vf_heapify(L->_buffer.data);
    }
    g_bad = 0;
    g_pos = g_out + L->_buffer.usage;
    g_idx = vf_range("idx", 0, VF_BIG * 4, 30);
    vf_assume(g_idx >= g_out);
    if (g_idx < g_pos) g_val = L->_buffer.data[g_idx - g_out];
    if (exclusive) return;
    vf_guard(&L->_buffer, sizeof L->_buffer, &L->_push_action_mutex->held);
    vf_guard(&L->_tcp_server, sizeof L->_tcp_server, &L->_push_action_mutex->held);
    vf_guard(&L->_was_flushed, sizeof L->_was_flushed, &L->_push_action_mutex->held);
}
void H_callback(void)
{
    arbitrary_listener(RUNNING, 0);
    size_t n = vf_range("n", 0, VF_BIG, 14);
    HT_Byte* ev = (HT_Byte*)vf_obj("ev", n);
    size_t start = g_pos, tot = g_pos + n, out = g_out0 = g_out;
    vf_assume(g_idx < tot);
    if (g_idx >= start) g_val = ev[g_idx - start];
    vf_cover("pre");
    vf_term(TOT);
    vf_watch(tot);
    vf_inv(INV);
    ht_tcp_listener_callback(ev, n, HT_TRUE, L);
    vf_cover("post");
    vf_assert(!g_bad, "every byte sent is the byte handed in at that position");
    vf_assert(g_out + L->_buffer.usage == tot && L->_buffer.usage <= L->_buffer.max_size, "no byte lost or duplicated");
    if (g_idx >= g_out && g_idx < tot) vf_assert(L->_buffer.data[g_idx - g_out] == g_val, "buffered bytes intact");
    vf_assert(g_out == out || g_out == tot, "what is sent ends at the end of a batch");
    locks_released();
}
void H_callback_idle(void)
{
    arbitrary_listener(vf_bool("stopped") ? STOPPED : IDLE, 0);
    size_t n = vf_range("n", 0, VF_BIG, 14), u = L->_buffer.usage, out = g_out;
    HT_Byte* ev = (HT_Byte*)vf_obj("ev", n);
    vf_cover("pre");
    ht_tcp_listener_callback(ev, n, vf_bool("serialized") ? HT_TRUE : HT_FALSE, L);
    vf_cover("post");
    vf_assert(g_out == out && L->_buffer.usage == u, "without a running server nothing is sent or kept");
    locks_released();
}
static TEventPtr g_ev; static size_t g_n; static int g_unser;
void C__ht_listener_buffer_process_unserialized_events(HT_ListenerBuffer* b, TEventPtr e, size_t n, HT_ListenerFlushCallback cb, void* ud)
{
    vf_assert(b == &L->_buffer && e == g_ev && n == g_n && ud == (void*)L, "the whole batch goes through the listener's buffer");
    g_unser++;
    if (!vf_bool("emits")) return;
    size_t k = vf_range("k", 0, VF_BIG, 8);
    HT_Byte* chunk = (HT_Byte*)vf_obj("chunk", k);
    if (g_idx >= g_out && g_idx - g_out < k) g_val = chunk[g_idx - g_out];
    size_t before = g_out;
    b->usage = 0;
    cb(ud, chunk, k);
    vf_assert(g_out == before + k && !g_bad, "what the buffer emits is sent unchanged");
}
/* no-native H_callback_unserialized */
void H_callback_unserialized(void)
{
    arbitrary_listener(RUNNING, 0);
    g_n = vf_range("n", 0, VF_BIG, 14);
    g_ev = (HT_Byte*)vf_obj("ev", g_n);
    g_unser = 0;
    vf_cover("pre");
    ht_tcp_listener_callback(g_ev, g_n, HT_FALSE, L);
    vf_cover("post");
    vf_assert(g_unser == 1, "a batch is processed exactly once");
    locks_released();
}
void H_client(void)
{
    arbitrary_listener(vf_bool("stopped") ? STOPPED : RUNNING, 0);
    int cb = L->_client_connected_callback != NULL, on = L->_tcp_server != NULL;
    g_metasize = vf_range("meta", 0, VF_BIG, 12);
    g_meta = (HT_Byte*)vf_obj("metadata", g_metasize);
    g_sock = (int)vf_u32("fd");
    size_t out = g_out, u = L->_buffer.usage;
    vf_cover("pre");
    ht_tcp_listener_client_connected(g_sock, L);
    vf_cover("post");
    vf_assert(g_metacalls == 1 && g_sent_meta == on, "a new client gets the whole metadata once");
    vf_assert(g_told == cb, "the user's callback is called once");
    vf_assert(g_out == out && L->_buffer.usage == u, "nothing is sent to the other clients");
    locks_released();
}
void H_stop(void)
{
    arbitrary_listener(RUNNING, 0);
    g_running = vf_bool("running");
    size_t tot = g_pos;
    int live = vf_live();
    vf_cover("pre");
    ht_tcp_listener_stop(L);
    vf_cover("post");
    vf_assert(!g_bad && g_out == tot, "what was buffered is sent");
    vf_assert(g_servers == 0 && vf_live() == live - 2, "server and buffer are released once");
    locks_released();
    size_t n = vf_range("n", 0, VF_BIG, 14);
    HT_Byte* ev = (HT_Byte*)vf_obj("ev", n);
    ht_tcp_listener_callback(ev, n, vf_bool("ser") ? HT_TRUE : HT_FALSE, L);
    ht_tcp_listener_stop(L);
    vf_assert(g_out == tot && g_servers == 0 && vf_live() == live - 2, "after stop nothing is sent, stopping again changes nothing");
    locks_released();
    vf_cover("again");
}
static void destroy_all(int state)
{
    int live = vf_live();
    arbitrary_listener(state, 1);
    size_t tot = g_pos;
    vf_cover("pre");
    ht_tcp_listener_destroy(L);
    vf_cover("post");
    vf_assert(g_servers == 0 && vf_live() == live && g_mutexes == 0, "server, buffer, lock and listener are released exactly once");
    vf_assert(!g_bad && g_out == tot, "what was buffered is sent first");
    locks_released();
}
void H_destroy_running(void) { destroy_all(RUNNING); }
void H_destroy_stopped(void) { destroy_all(STOPPED); }
void H_create(void)
{
    int live = vf_live();
    HT_ErrorCode err = (HT_ErrorCode)77;
    size_t size = vf_range("size", 0, VF_BIG, 8);
    g_port = (int)vf_range("port", 0, 65535, 65535);
    g_sock = 5;
    g_metasize = vf_range("meta", 0, VF_BIG, 12);
    g_meta = (HT_Byte*)vf_obj("metadata", g_metasize);
    g_start_fails = vf_bool("start_fails");
    vf_malloc_may_fail(1);
    vf_cover("pre");
    HT_TCPListener* l = ht_tcp_listener_create(g_port, size, vf_bool("noerr") ? NULL : &err);
    if (l)
    {
        vf_cover("ok");
        vf_assert(err == (HT_ErrorCode)77 || err == HT_ERR_OK, "success is reported");
        vf_assert(g_running && g_starts == 1 && l->_tcp_server == g_server && g_cb_ud == (void*)l && l->_buffer.max_size == size && l->_buffer.usage == 0, "the listener runs");
        vf_assert(l->_client_connected_callback == NULL && l->_was_flushed == HT_FALSE, "no user callback yet");
        vf_assert(g_sent_meta == g_metacalls, "a client that connects at once gets the metadata");
    }
    else
    {
        vf_cover("failed");
        vf_assert(err == (HT_ErrorCode)77 || err == (g_starts ? HT_ERR_CANT_START_TCP_SERVER : HT_ERR_OUT_OF_MEMORY), "the reason is reported");
        vf_assert(!g_running && g_servers == 0 && g_mutexes == 0 && vf_live() == live, "a failed creation releases everything it acquired");
    }
    locks_released();
}
static char g_timeline[8]; static int g_reg, g_reg_fails; static void* g_reg_ud;
HT_ErrorCode ht_timeline_register_listener_full(HT_Timeline* t, HT_TimelineListenerCallback cb, void* ud, HT_DestroyCallback d)
{
    vf_assert(t == (HT_Timeline*)g_timeline && cb == ht_tcp_listener_callback && d == (HT_DestroyCallback)ht_tcp_listener_destroy, "registered with its callback and release function");
    g_reg++;
    g_reg_ud = ud;
    return g_reg_fails ? HT_ERR_OUT_OF_MEMORY : HT_ERR_OK;
}
void H_register(void)
{
    int live = vf_live();
    HT_ErrorCode err = (HT_ErrorCode)77;
    size_t size = vf_range("size", 1, VF_BIG, 8);
    g_port = 9; g_sock = 5;
    g_metasize = 4; g_meta = (HT_Byte*)vf_obj("metadata", 4);
    g_start_fails = vf_bool("start_fails");
    g_reg_fails = vf_bool("reg_fails");
    vf_malloc_may_fail(1);
    vf_cover("pre");
    HT_TCPListener* r = ht_tcp_listener_register((HT_Timeline*)g_timeline, g_port, size, &err);
    if (r)
    {
        vf_cover("ok");
        vf_assert(err == HT_ERR_OK && g_reg == 1 && !g_reg_fails && r == g_reg_ud && g_running, "the registered listener is returned");
    }
    else
    {
        vf_cover("failed");
        vf_assert(err != HT_ERR_OK && err != (HT_ErrorCode)77 && !g_running && g_servers == 0 && vf_live() == live && g_mutexes == 0, "a failure is reported and everything released");
    }
    locks_released();
}
