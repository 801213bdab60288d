/* Listener buffer: delivered bytes ++ buffered bytes == serialized form of everything handed in, in order.
   The stream is watched at one arbitrary index g_idx (so the statement holds for every index). */
#include "vf.h"
#include "lib/alloc.c"
#include "lib/listener_buffer.c"

static size_t g_idx;      /* watched stream index */
static uint8_t g_val;     /* the byte that belongs there */
static size_t g_pos;      /* bytes that entered the stream so far */
static size_t g_out;      /* bytes delivered so far */
static size_t g_next;     /* next event expected to be serialized */
static int g_bad, g_order;
static void* g_listener;
static HT_ListenerBuffer g_b;

static void G_flush(void* l, TEventPtr d, size_t n)
{
    vf_assert(vf_valid(d, n), "the delivered range is readable memory");
    g_bad |= l != g_listener;
    g_bad |= vf_and(vf_and(g_idx >= g_out, g_idx - g_out < n), vf_peek(d, g_idx - g_out, n) != g_val);
    g_out += n;
}

static int INV(void)
{
    return vf_and(vf_and(vf_and(g_bad == 0, g_order == 0), vf_and(g_b.usage <= g_b.max_size, g_b.usage <= g_pos)), g_out == g_pos - g_b.usage) &
     vf_imp(vf_and(g_idx >= g_out, g_idx - g_out < g_b.usage), vf_peek(g_b.data, g_idx - g_out, g_b.usage) == g_val);
}
static int ROOM(void) { return g_b.usage < g_b.max_size; }
static uint64_t TOT(void) { return g_out + g_b.usage; }
static uint64_t NXT(void) { return g_next; }

static void arbitrary_buffer(int full_ok)
{
    g_listener = &g_val;
    g_b.max_size = vf_range("max_size", 1, VF_BIG, 6);
    g_b.usage = vf_range("usage", 0, VF_BIG, 6);
    vf_assume(full_ok ? g_b.usage <= g_b.max_size : g_b.usage < g_b.max_size);
    g_b.data = (HT_Byte*)vf_obj("data", g_b.max_size);
    vf_heapify(g_b.data);
    g_out = vf_range("out", 0, VF_BIG, 3);
    g_pos = g_out + g_b.usage;
    g_idx = vf_range("idx", 0, VF_BIG * 4, 30);
    vf_assume(g_idx >= g_out);
    g_bad = 0;
    g_order = 0;
    if (g_idx < g_pos) g_val = g_b.data[g_idx - g_out];
}

static void post(size_t tot)
{
    vf_cover("post");
    vf_assert(!g_bad, "every delivered byte is the byte handed in at that stream position");
    vf_assert(g_out + g_b.usage == tot, "no byte lost or duplicated");
    vf_assert(g_b.usage <= g_b.max_size, "buffered amount fits the buffer");
    if (g_idx >= g_out && g_idx < tot) vf_assert(g_b.data[g_idx - g_out] == g_val, "buffered bytes intact");
}

/* process_serialized_events, from every reachable buffer state */
void H_serialized(void)
{
    arbitrary_buffer(0);
    size_t n = vf_range("n", 0, VF_BIG, 14);
    HT_Byte* ev = (HT_Byte*)vf_obj("ev", n);
    size_t start = g_pos, tot = g_pos + n;
    vf_assume(g_idx < tot);
    g_pos = tot;
    if (g_idx >= start) g_val = ev[g_idx - start];
    vf_cover("pre");
    vf_term(TOT);
    vf_inv(ROOM);
    {
        /* g_pos already counts the whole input here */
        vf_watch(tot);
    }
    extern int INV_ser(void);
    vf_inv(INV_ser);
    ht_listener_buffer_process_serialized_events(&g_b, ev, n, G_flush, g_listener);
    post(tot);
    vf_assert(g_b.usage < g_b.max_size, "a full buffer is always flushed");
}
int INV_ser(void)
{
    return vf_and(g_bad == 0, g_b.usage < g_b.max_size) &
     vf_imp(vf_and(g_idx >= g_out, g_idx - g_out < g_b.usage), vf_peek(g_b.data, g_idx - g_out, g_b.usage) == g_val);
}

/* bypass mode: every chunk is delivered at once, unchanged */
void H_bypass(void)
{
    g_listener = &g_val;
    if (ht_listener_buffer_init(&g_b, 0) != HT_ERR_OK) { vf_assert(0, "bypass buffer needs no memory"); }
    size_t n = vf_range("n", 0, VF_BIG, 14);
    HT_Byte* ev = (HT_Byte*)vf_obj("ev", n);
    g_out = vf_range("out", 0, VF_BIG, 3);
    g_idx = vf_range("idx", 0, VF_BIG * 4, 30);
    vf_assume(g_idx >= g_out && g_idx < g_out + n);
    g_val = ev[g_idx - g_out];
    g_bad = 0;
    size_t tot = g_out + n;
    vf_cover("pre");
    ht_listener_buffer_process_serialized_events(&g_b, ev, n, G_flush, g_listener);
    vf_assert(!g_bad && g_out == tot, "bypass delivers everything immediately");
    ht_listener_buffer_deinit(&g_b);
}

void H_flush(void)
{
    arbitrary_buffer(1);
    size_t tot = g_pos;
    vf_cover("pre");
    ht_listener_buffer_flush(&g_b, G_flush, g_listener);
    post(tot);
    vf_assert(g_b.usage == 0 && g_out == tot, "flush delivers everything");
    ht_listener_buffer_deinit(&g_b);
    vf_assert(vf_live() == 0, "deinit releases the buffer");
}

/* init, with allocation possibly failing */
void H_init(void)
{
    size_t m = vf_range("max_size", 1, VF_BIG, 6);
    vf_malloc_may_fail(1);
    HT_ErrorCode rc = ht_listener_buffer_init(&g_b, m);
    vf_cover("pre");
    if (rc == HT_ERR_OK)
    {
        vf_cover("ok");
        vf_assert(g_b.usage == 0 && g_b.max_size == m && vf_valid(g_b.data, m), "initialised empty with the requested capacity");
        ht_listener_buffer_deinit(&g_b);
    }
    else vf_cover("oom");
    vf_assert(vf_live() == 0, "nothing leaked");
}

/* ---- unserialized events: n events, each with its own serialized size and content ---- */
typedef struct { HT_Event base; size_t sz; size_t index; } Ev;
static HT_EventKlass g_klass;
static MKCREFLECT_TypeInfo g_ti;
static size_t G_get_size(HT_Event* e) { return ((Ev*)e)->sz; }
static size_t G_serialize(HT_Event* e, HT_Byte* out)
{
    size_t sz = ((Ev*)e)->sz;
    g_order |= ((Ev*)e)->index != g_next;
    g_next++;
    vf_assume(g_pos <= VF_BIG * 2);
    vf_havoc(out, sz);
    g_val = vf_ite(vf_and(g_idx >= g_pos, g_idx - g_pos < sz), vf_peek(out, g_idx - g_pos, sz), g_val);
    g_pos += sz;
    return sz;
}
static void init_ev(size_t i, void* slot)
{
    Ev* e = (Ev*)slot;
    e->base.klass = &g_klass;
    e->base.id = 0; e->base.timestamp = 0;
    e->sz = vf_range("sz", 1, VF_BIG, 8);
    e->index = i;
}
void H_unserialized(void)
{
    g_ti.size = sizeof(Ev);
    g_klass.type_info = &g_ti;
    g_klass.get_size = G_get_size;
    g_klass.serialize = G_serialize;
    arbitrary_buffer(1);
    size_t n = vf_range("n", 0, 1 << 20, 3);
    Ev* evs = (Ev*)vf_lazy("evs", n, n, sizeof(Ev), init_ev);
    g_next = 0;
    size_t start = g_pos;
    vf_cover("pre");
    vf_inv(INV);
    vf_term(NXT);
    ht_listener_buffer_process_unserialized_events(&g_b, (TEventPtr)evs, n * sizeof(Ev), G_flush, g_listener);
    vf_assert(g_next == n && !g_order, "every event is serialized exactly once, in order");
    post(g_pos);
}
