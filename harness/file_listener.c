/* File listener: metadata first, then every delivered byte, in order; nothing after stop; every resource released once.
   The file is a stream watched at one arbitrary index.  stdio, the mutex and the timeline are assumed contracts (below). */
#include <stdio.h>
#include "env.h"
#include "lib/alloc.c"
#include "lib/listener_buffer.c"
static FILE* G_fopen(const char* name, const char* mode);
static size_t G_fwrite(const void* p, size_t es, size_t n, FILE* f);
static int G_fflush(FILE* f);
static int G_fclose(FILE* f);
#define fopen G_fopen
#define fwrite G_fwrite
#define fflush G_fflush
#define fclose G_fclose
#include "lib/listeners/file_dump_listener.c"

static size_t g_idx, g_pos, g_out;    /* watched stream index; bytes handed in; bytes in the file */
static uint8_t g_val;                 /* the byte that belongs at g_idx */
static int g_bad, g_open, g_opened, g_flushed, g_flush_result, g_meta;
static char g_file[8];
static const char* g_name;
static HT_FileDumpListener* L;

static FILE* G_fopen(const char* name, const char* mode)
{
    vf_assert(name == g_name && mode[0] == 'w' && mode[1] == 'b' && mode[2] == 0, "the given file is created, in binary mode");
    if (vf_bool("fopen_fails")) return NULL;
    vf_assert(!g_opened, "the file is opened once");
    g_open = g_opened = 1;
    return (FILE*)g_file;
}
static size_t G_fwrite(const void* p, size_t es, size_t n, FILE* f)
{
    vf_assert(f == (FILE*)g_file && g_open, "only the open file is written");
    vf_assert(es == 1, "bytes are written");
    vf_assert(n == 0 || vf_valid(p, n), "the written range is readable memory");
    g_bad |= vf_and(vf_and(g_idx >= g_out, g_idx - g_out < n), vf_peek(p, g_idx - g_out, n) != g_val);
    g_out += n;
    g_flushed = 0;
    return n;
}
static int G_fflush(FILE* f)
{
    vf_assert(f == (FILE*)g_file && g_open, "only the open file is flushed");
    g_flushed = 1;
    return g_flush_result = vf_bool("fflush_fails") ? -1 : 0;
}
static int G_fclose(FILE* f)
{
    vf_assert(f == (FILE*)g_file && g_open, "only the open file is closed, once");
    g_open = 0;
    return 0;
}
/* the metadata are delivered to the given callback as one serialized range (their content is decided under P04) */
static size_t g_metasize;
static int M_INV(void)
{
    return vf_and(g_bad == 0, L->buffer.usage < L->buffer.max_size) &
     vf_imp(vf_and(g_idx >= g_out, g_idx - g_out < L->buffer.usage), vf_peek(L->buffer.data, g_idx - g_out, L->buffer.usage) == g_val);
}
static uint64_t TOT(void) { return g_out + L->buffer.usage; }

static void arbitrary_listener(int running, int exclusive)
{
    L = (HT_FileDumpListener*)ht_alloc(sizeof(HT_FileDumpListener));
    vf_assume(L != NULL);
    L->mtx = ht_mutex_create();
    vf_assume(L->mtx != NULL);
    L->p_file = running ? (FILE*)g_file : NULL;
    g_open = g_opened = running;
    g_bad = 0; g_flushed = 0;
    g_out = vf_range("out", 0, VF_BIG, 3);
    if (running)
    {
        L->buffer.max_size = vf_range("max_size", 1, VF_BIG, 6);
        L->buffer.usage = vf_range("usage", 0, VF_BIG, 5);
        vf_assume(L->buffer.usage < L->buffer.max_size);
        L->buffer.data = (HT_Byte*)vf_obj("data", L->buffer.max_size);
        vf_heapify(L->buffer.data);
    }
    else { L->buffer.max_size = 0; L->buffer.usage = 0; L->buffer.data = NULL; }
    g_pos = g_out + L->buffer.usage;
    g_idx = vf_range("idx", 0, VF_BIG * 4, 30);
    vf_assume(g_idx >= g_out);
    if (g_idx < g_pos) g_val = L->buffer.data[g_idx - g_out];
    if (exclusive) return;
    vf_guard(&L->buffer, sizeof L->buffer, &L->mtx->held);
    vf_guard(&L->p_file, sizeof L->p_file, &L->mtx->held);
}
static void arbitrary_running(void) { arbitrary_listener(1, 0); }
static void intact(size_t tot)
{
    vf_assert(!g_bad, "every written byte is the byte handed in at that position");
    vf_assert(g_out + L->buffer.usage == tot && L->buffer.usage <= L->buffer.max_size, "no byte lost or duplicated");
    if (g_idx >= g_out && g_idx < tot) vf_assert(L->buffer.data[g_idx - g_out] == g_val, "buffered bytes intact");
}
void H_callback(void)
{
    arbitrary_running();
    size_t n = vf_range("n", 0, VF_BIG, 14);
    HT_Byte* ev = (HT_Byte*)vf_obj("ev", n);
    size_t start = g_pos, tot = g_pos + n;
    vf_assume(g_idx < tot);
    if (g_idx >= start) g_val = ev[g_idx - start];
    vf_cover("pre");
    vf_term(TOT);
    vf_watch(tot);
    vf_inv(M_INV);
    ht_file_dump_listener_callback(ev, n, HT_TRUE, L);
    vf_cover("post");
    intact(tot);
    vf_assert(L->p_file == (FILE*)g_file && g_open, "the listener keeps running");
    locks_released();
}
void H_callback_unbuffered(void)
{
    arbitrary_running();
    L->mtx->held = 1;
    vf_assume(L->buffer.max_size == 1 && L->buffer.usage == 0);
    ht_free(L->buffer.data);
    L->buffer.data = NULL; L->buffer.max_size = 0;
    L->mtx->held = 0;
    size_t n = vf_range("n", 0, VF_BIG, 14);
    HT_Byte* ev = (HT_Byte*)vf_obj("ev", n);
    size_t tot = g_pos + n;
    vf_assume(g_idx < tot);
    g_val = ev[g_idx - g_pos];
    vf_cover("pre");
    ht_file_dump_listener_callback(ev, n, HT_TRUE, L);
    vf_cover("post");
    vf_assert(!g_bad && g_out == tot, "without a buffer everything is written at once");
    locks_released();
}
/* batches in in-memory form go, whole, through the serializing path of the buffer (its contract is P02) */
static TEventPtr g_ev; static size_t g_n; static int g_unser;
void C__ht_listener_buffer_process_unserialized_events(HT_ListenerBuffer* b, TEventPtr e, size_t n, HT_ListenerFlushCallback cb, void* ud)
{
    vf_assert(b == &L->buffer && e == g_ev && n == g_n && ud == (void*)L, "the whole batch goes through the listener's buffer");
    g_unser++;
    size_t k = vf_range("k", 0, VF_BIG, 8);
    HT_Byte* chunk = (HT_Byte*)vf_obj("chunk", k);
    if (g_idx >= g_out && g_idx - g_out < k) g_val = chunk[g_idx - g_out];
    size_t before = g_out;
    cb(ud, chunk, k);
    vf_assert(g_out == before + k && !g_bad, "what the buffer emits is written unchanged");
}
/* no-native H_callback_unserialized */
void H_callback_unserialized(void)
{
    arbitrary_running();
    g_n = vf_range("n", 0, VF_BIG, 14);
    g_ev = (HT_Byte*)vf_obj("ev", g_n);
    g_unser = 0;
    vf_cover("pre");
    ht_file_dump_listener_callback(g_ev, g_n, HT_FALSE, L);
    vf_cover("post");
    vf_assert(g_unser == 1, "a batch is processed exactly once");
    locks_released();
}
void H_flush(void)
{
    arbitrary_running();
    size_t tot = g_pos;
    HT_Boolean stream = vf_bool("stream") ? HT_TRUE : HT_FALSE;
    vf_cover("pre");
    HT_ErrorCode err = ht_file_dump_listener_flush(L, stream);
    vf_cover("post");
    intact(tot);
    vf_assert(g_out == tot, "everything delivered so far is written");
    vf_assert(!stream || g_flushed, "the stream is flushed when asked to");
    vf_assert((err == HT_ERR_OK) == (!stream || g_flush_result == 0), "a failing flush is reported");
    vf_assert(L->p_file == (FILE*)g_file && g_open, "the listener keeps running");
    locks_released();
}
void H_stop(void)
{
    arbitrary_running();
    size_t tot = g_pos;
    int live = vf_live();
    vf_cover("pre");
    ht_file_dump_listener_stop(L);
    vf_cover("post");
    vf_assert(!g_bad && g_out == tot, "everything delivered so far is written");
    vf_assert(!g_open && vf_live() == live - 1, "the file is closed and the buffer released");
    locks_released();
    size_t n = vf_range("n", 0, VF_BIG, 14);
    HT_Byte* ev = (HT_Byte*)vf_obj("ev", n);
    ht_file_dump_listener_callback(ev, n, vf_bool("ser") ? HT_TRUE : HT_FALSE, L);
    vf_assert(ht_file_dump_listener_flush(L, vf_bool("stream") ? HT_TRUE : HT_FALSE) == HT_ERR_OK, "flushing after stop does nothing");
    ht_file_dump_listener_stop(L);
    vf_assert(g_out == tot && !g_open && vf_live() == live - 1, "after stop nothing is written, stopping again changes nothing");
    locks_released();
    vf_cover("again");
}
static void destroy_all(int running)
{
    int live = vf_live();
    arbitrary_listener(running, 1);   /* nobody else uses a listener that is being destroyed */
    size_t tot = g_pos;
    vf_cover("pre");
    ht_file_dump_listener_destroy(L);
    vf_cover("post");
    vf_assert(!g_open && vf_live() == live && g_mutexes == 0, "file, buffer, lock and listener are released exactly once");
    vf_assert(!g_bad && g_out == tot, "what was buffered is written first");
    ht_file_dump_listener_destroy(NULL);
}
void H_destroy_running(void) { destroy_all(1); }
void H_destroy_stopped(void) { destroy_all(0); }
void H_create(void)
{
    int live = vf_live();
    HT_ErrorCode err = (HT_ErrorCode)77;
    size_t size = vf_range("size", 0, VF_BIG, 8);
    g_name = vf_cstr("name", VF_BIG, 4);
    g_metasize = vf_range("meta", 0, VF_BIG, 12);
    g_idx = vf_range("idx", 0, VF_BIG * 4, 30);
    vf_malloc_may_fail(1);
    vf_cover("pre");
    L = ht_file_dump_listener_create(g_name, size, vf_bool("noerr") ? NULL : &err);
    if (!L)
    {
        vf_cover("failed");
        vf_assert(err == (HT_ErrorCode)77 || err == (g_opened ? HT_ERR_OUT_OF_MEMORY : err), "the reason is reported");
        vf_assert(err != HT_ERR_OK, "a failure is reported");
        vf_assert(!g_open && vf_live() == live && g_mutexes == 0, "a failed creation releases everything it acquired");
        vf_assert(g_out == 0 && !g_meta, "nothing is written");
        return;
    }
    vf_cover("created");
    vf_assert(err == (HT_ErrorCode)77 || err == HT_ERR_OK, "success is reported");
    vf_assert(g_open && L->p_file == (FILE*)g_file && L->mtx && L->buffer.max_size == size, "the listener is ready");
    vf_assert(g_meta == 1 && L->buffer.usage + g_out == g_metasize && !g_bad, "the metadata come first");
    if (g_idx >= g_out && g_idx < g_metasize) vf_assert(L->buffer.data[g_idx - g_out] == g_val, "buffered metadata intact");
    locks_released();
}
size_t ht_timeline_listener_push_metadata(HT_TimelineListenerCallback cb, void* ud, HT_Boolean serialized)
{
    HT_Byte* m = (HT_Byte*)vf_obj("metadata", g_metasize);
    L = (HT_FileDumpListener*)ud;
    vf_assert(serialized, "the metadata are serialized");
    vf_assert(g_out == 0 && L->buffer.usage == 0, "the metadata come first");
    if (g_idx < g_metasize) g_val = m[g_idx];
    g_meta++;
    vf_term(TOT);
    vf_watch(g_metasize);
    vf_inv(M_INV);
    cb(m, g_metasize, HT_TRUE, ud);
    vf_inv_clear();
    return g_metasize;
}
/* registration with a timeline */
static char g_timeline[8]; static int g_reg, g_reg_fails;
HT_ErrorCode ht_timeline_register_listener_full(HT_Timeline* t, HT_TimelineListenerCallback cb, void* ud, HT_DestroyCallback d)
{
    vf_assert(t == (HT_Timeline*)g_timeline && cb == ht_file_dump_listener_callback && d == (HT_DestroyCallback)ht_file_dump_listener_destroy, "registered with its callback and release function");
    g_reg++;
    L = (HT_FileDumpListener*)ud;
    return g_reg_fails ? HT_ERR_OUT_OF_MEMORY : HT_ERR_OK;
}
void H_register(void)
{
    int live = vf_live();
    HT_ErrorCode err = (HT_ErrorCode)77;
    g_name = vf_cstr("name", VF_BIG, 4);
    g_metasize = 0;
    g_reg_fails = vf_bool("reg_fails");
    size_t size = vf_range("size", 1, VF_BIG, 8);
    vf_malloc_may_fail(1);
    vf_cover("pre");
    HT_FileDumpListener* r = ht_file_dump_listener_register((HT_Timeline*)g_timeline, g_name, size, &err);
    if (r)
    {
        vf_cover("ok");
        vf_assert(err == HT_ERR_OK && g_reg == 1 && !g_reg_fails && r == L && g_open, "the registered listener is returned");
    }
    else
    {
        vf_cover("failed");
        vf_assert(err != HT_ERR_OK && err != (HT_ErrorCode)77 && !g_open && vf_live() == live && g_mutexes == 0, "a failure is reported and everything released");
    }
    locks_released();
}
