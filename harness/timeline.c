/* Timeline: the concatenation of the byte ranges handed to the listeners followed by the bytes still buffered is
   exactly the events pushed so far, in order.  One operation from an arbitrary timeline state, the stream watched at
   one arbitrary index. */
#include "env.h"
#include "internal/timeline_listener_container.h"
#include "hawktracer/timeline.h"
static size_t g_out, g_pos, g_idx;
static uint8_t g_val;
static int g_bad, g_calls, g_unrefs, g_created;
static HT_Boolean g_ser;
static HT_TimelineListenerContainer* g_container;
static int* g_locked;      /* lock of the timeline under test, NULL when not thread safe */
static struct { int x; } g_cobj;
static uint64_t g_next_id; static HT_TimestampNs g_now;
static void* g_provider;

void ht_timeline_listener_container_notify_listeners(HT_TimelineListenerContainer* c, TEventPtr d, size_t n, HT_Boolean ser)
{
    vf_assert(c == g_container, "the timeline's own listeners are notified");
    vf_assert(n > 0, "no empty batch");
    vf_assert(ser == g_ser, "the serialization mode is passed through");
    vf_assert(vf_valid(d, n), "the delivered range is readable memory");
    if (g_locked) vf_assert(*g_locked, "listeners are notified under the timeline lock");
    g_bad |= vf_and(vf_and(g_idx >= g_out, g_idx - g_out < n), vf_peek(d, g_idx - g_out, n) != g_val);
    g_out += n;
    g_calls++;
}
void ht_timeline_listener_container_unref(HT_TimelineListenerContainer* c) { vf_assert(c == g_container, "own container released"); g_unrefs++; }
HT_TimelineListenerContainer* ht_find_or_create_listener(const char* name)
{
    (void)name;
    if (vf_bool("no_container")) return NULL;
    g_created++;
    return g_container;
}
static int g_reg;
HT_ErrorCode ht_timeline_listener_container_register_listener(HT_TimelineListenerContainer* c, HT_TimelineListenerCallback cb, void* ud, HT_DestroyCallback d)
{ (void)cb; (void)ud; (void)d; vf_assert(c == g_container, "registered with the own container"); g_reg++; return HT_ERR_OK; }
void ht_timeline_listener_container_unregister_all_listeners(HT_TimelineListenerContainer* c) { vf_assert(c == g_container, "own container"); g_reg = 0; }
HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { g_now = vf_u64("now"); return g_now; }
HT_EventIdProvider* ht_event_id_provider_get_default(void) { return (HT_EventIdProvider*)&g_provider; }
HT_EventId ht_event_id_provider_next(HT_EventIdProvider* p) { vf_assert((void*)p == (void*)&g_provider, "the timeline's own id source"); return g_next_id++; }

#include "lib/alloc.c"
#include "lib/timeline.c"

static HT_Timeline* t;
static HT_Mutex* m;
static void arbitrary_timeline(int ser)
{
    g_container = (HT_TimelineListenerContainer*)&g_cobj;
    t = (HT_Timeline*)malloc(sizeof(HT_Timeline));
    vf_assume(t != NULL);
    t->buffer_capacity = vf_range("capacity", 0, VF_BIG, 20);
    t->buffer_usage = vf_range("usage", 0, VF_BIG, 20);
    vf_assume(t->buffer_usage <= t->buffer_capacity);
    t->buffer = (HT_Byte*)vf_obj("buffer", t->buffer_capacity);
    vf_heapify(t->buffer);
    t->id_provider = (HT_EventIdProvider*)&g_provider;
    t->listeners = g_container;
    t->locking_policy = NULL;
    g_locked = NULL;
    m = NULL;
    for (size_t i = 0; i < HT_TIMELINE_MAX_FEATURES; i++) t->features[i] = NULL;
    if (vf_bool("thread_safe"))
    {
        m = ht_mutex_create();
        vf_assume(m != NULL);
        t->locking_policy = m;
        g_locked = &m->held;
        vf_guard(&t->buffer_usage, sizeof(size_t), &m->held);
        vf_guard(t->buffer, t->buffer_capacity, &m->held);
    }
    t->serialize_events = g_ser = ser;
    g_bad = 0; g_calls = 0;
    g_out = vf_range("out", 0, VF_BIG, 3);
    g_pos = g_out + t->buffer_usage;
    g_idx = vf_range("idx", 0, VF_BIG * 4, 60);
    vf_assume(g_idx >= g_out);
    g_val = vf_peek(t->buffer, g_idx - g_out, t->buffer_usage);
}
static void stream_ok(size_t tot)
{
    vf_assert(!g_bad, "every delivered byte is the byte pushed at that stream position");
    vf_assert(t->buffer_usage <= t->buffer_capacity, "buffered amount fits the buffer");
    vf_assert(g_out + t->buffer_usage == tot, "no byte lost or duplicated");
    if (g_idx >= g_out && g_idx < tot) vf_assert(t->buffer[g_idx - g_out] == g_val, "buffered bytes intact");
    locks_released();
}
static HT_EventKlass g_klass;
static MKCREFLECT_TypeInfo g_ti;
static size_t g_sz;
static int g_serialized;
static size_t G_get_size(HT_Event* e) { (void)e; return g_sz; }
static size_t G_serialize(HT_Event* e, HT_Byte* out)
{
    (void)e;
    g_serialized++;
    vf_havoc(out, g_sz);
    g_val = vf_ite(vf_and(g_idx >= g_pos, g_idx - g_pos < g_sz), vf_peek(out, g_idx - g_pos, g_sz), g_val);
    return g_sz;
}
void H_push_serialized(void)
{
    arbitrary_timeline(1);
    HT_Event ev;
    g_klass.get_size = G_get_size; g_klass.serialize = G_serialize; g_klass.type_info = &g_ti;
    g_ti.size = sizeof(HT_Event);
    ev.klass = &g_klass; ev.timestamp = vf_u64("ts"); ev.id = vf_u64("id");
    g_sz = vf_range("sz", 1, VF_BIG, 200);
    g_serialized = 0;
    vf_malloc_may_fail(1);
    size_t p0 = g_pos;
    vf_cover("pre");
    ht_timeline_push_event(t, &ev);
    vf_assert(g_serialized <= 1, "the event is serialized once");
    vf_assert(g_calls <= 2, "a push delivers at most the old batch and the new event");
    if (g_serialized) { vf_cover("delivered"); stream_ok(p0 + g_sz); }
    else { vf_cover("oom"); stream_ok(p0); }
}
/* with memory available every event is delivered */
void H_push_serialized_nofail(void)
{
    arbitrary_timeline(1);
    HT_Event ev;
    g_klass.get_size = G_get_size; g_klass.serialize = G_serialize; g_klass.type_info = &g_ti;
    g_ti.size = sizeof(HT_Event);
    ev.klass = &g_klass; ev.timestamp = vf_u64("ts"); ev.id = vf_u64("id");
    g_sz = vf_range("sz", 1, VF_BIG, 200);
    g_serialized = 0;
    size_t p0 = g_pos;
    vf_cover("pre");
    ht_timeline_push_event(t, &ev);
    vf_assert(g_serialized == 1, "every event is serialized exactly once");
    stream_ok(p0 + g_sz);
    vf_assert(vf_live() == 2 + (m != NULL), "no temporary is leaked");
}
void H_push_unserialized(void)
{
    arbitrary_timeline(0);
    vf_malloc_may_fail(1);
    g_klass.type_info = &g_ti;
    g_ti.size = vf_range("sz", sizeof(HT_Event), VF_BIG, 40);
    HT_Event* ev = (HT_Event*)vf_obj("ev", g_ti.size);
    ev->klass = &g_klass;
    size_t p0 = g_pos;
    g_val = vf_ite(vf_and(g_idx >= p0, g_idx - p0 < g_ti.size), vf_peek(ev, g_idx - p0, g_ti.size), g_val);
    vf_cover("pre");
    ht_timeline_push_event(t, ev);
    vf_assert(g_calls <= 2, "a push delivers at most the old batch and the new event");
    stream_ok(p0 + g_ti.size);
}
void H_flush(void)
{
    arbitrary_timeline(vf_bool("ser"));
    size_t p0 = g_pos;
    vf_cover("pre");
    ht_timeline_flush(t);
    vf_assert(t->buffer_usage == 0 && g_out == p0, "flush delivers everything buffered");
    vf_assert(g_calls <= 1, "flush delivers one batch");
    stream_ok(p0);
}
void H_destroy(void)
{
    arbitrary_timeline(vf_bool("ser"));
    size_t p0 = g_pos;
    g_unrefs = 0;
    vf_cover("pre");
    ht_timeline_destroy(t);
    vf_assert(!g_bad && g_out == p0, "destroying a timeline first delivers everything buffered");
    vf_assert(g_unrefs == 1, "destroying a timeline releases its listeners once");
    vf_assert(vf_live() == 0 && g_mutexes == 0, "destroying a timeline releases its memory");
    locks_released();
}
void H_create(void)
{
    g_container = (HT_TimelineListenerContainer*)&g_cobj;
    size_t cap = vf_range("capacity", 0, VF_BIG, 20);
    HT_Boolean ts = vf_bool("thread_safe"), ser = vf_bool("ser");
    HT_ErrorCode err = HT_ERR_UNKNOWN;
    vf_malloc_may_fail(1);
    g_created = 0; g_unrefs = 0;
    HT_Timeline* x = ht_timeline_create(cap, ts, ser, "name", &err);
    vf_assert((x != NULL) == (err == HT_ERR_OK), "an error code is reported exactly when creation fails");
    if (x)
    {
        vf_cover("ok");
        size_t k = vf_range("k", 0, HT_TIMELINE_MAX_FEATURES - 1, HT_TIMELINE_MAX_FEATURES - 1);
        vf_assert(x->buffer_usage == 0 && x->buffer_capacity == cap && vf_valid(x->buffer, cap), "starts empty with the requested capacity");
        vf_assert(x->serialize_events == ser, "serialization mode as requested");
        vf_assert(vf_peek64(x->features, k, HT_TIMELINE_MAX_FEATURES) == 0, "no feature is set initially");
        vf_assert((x->locking_policy != NULL) == (ts != 0), "a lock exists exactly when thread safety was requested");
        vf_assert(x->listeners == g_container && g_created == 1 && g_unrefs == 0, "holds one reference to its listeners");
        vf_assert(x->id_provider == (HT_EventIdProvider*)&g_provider, "uses the default id source");
        ht_timeline_destroy(x);
    }
    else vf_cover("failed");
    vf_assert(g_created == g_unrefs, "the listener reference is released on every path");
    vf_assert(vf_live() == 0 && g_mutexes == 0, "nothing leaked");
    locks_released();
}
/* init_event: timestamp and a fresh id, nothing else */
void H_init_event(void)
{
    arbitrary_timeline(1);
    size_t n = vf_range("n", sizeof(HT_Event), VF_BIG, 40), w = vf_range("w", 0, VF_BIG, 40);
    vf_assume(w < n);
    HT_Event* ev = (HT_Event*)vf_obj("ev", n);
    uint8_t old = ((uint8_t*)ev)[w];
    HT_EventKlass* k = ev->klass;
    g_next_id = vf_u64("next_id");
    uint64_t id0 = g_next_id;
    ht_timeline_init_event(t, ev);
    vf_cover("post");
    vf_assert(ev->id == id0 && g_next_id == id0 + 1, "a fresh id is taken exactly once");
    vf_assert(ev->timestamp == g_now, "the timestamp is the current time");
    vf_assert(ev->klass == k, "the class is untouched");
    if (w >= sizeof(HT_Event)) vf_assert(((uint8_t*)ev)[w] == old, "the other fields are untouched");
}

/* ------------------------------------------------------------------ feature slots */
static int g_destroyed_own, g_destroyed_other;
static HT_Feature* g_own;
static void G_destroy_feature(HT_Feature* x) { if (x == g_own) g_destroyed_own++; else g_destroyed_other++; }
static HT_FeatureKlass g_slot_klass[HT_TIMELINE_MAX_FEATURES];
static HT_Feature g_slot[HT_TIMELINE_MAX_FEATURES];
static size_t g_set_count;
static void arbitrary_features(void)
{
    arbitrary_timeline(1);
    g_destroyed_own = g_destroyed_other = 0;
    g_set_count = 0;
    for (size_t i = 0; i < HT_TIMELINE_MAX_FEATURES; i++)
    {
        g_slot_klass[i].id = (uint32_t)i;
        g_slot_klass[i].destroy = G_destroy_feature;
        g_slot[i].klass = &g_slot_klass[i];
    }
}
void H_feature_set(void)
{
    arbitrary_features();
    size_t w = vf_range("w", 0, HT_TIMELINE_MAX_FEATURES - 1, HT_TIMELINE_MAX_FEATURES - 1);
    HT_FeatureKlass k; HT_Feature x;
    k.id = vf_u32("id"); k.destroy = G_destroy_feature;
    x.klass = &k; g_own = &x;
    size_t in = vf_range("in", 0, HT_TIMELINE_MAX_FEATURES - 1, HT_TIMELINE_MAX_FEATURES - 1);
    int known = k.id < HT_TIMELINE_MAX_FEATURES;
    if (known) vf_assume(in == k.id);
    HT_Feature* prev = vf_bool("taken") ? &g_slot[in] : NULL;
    HT_Feature* other = vf_bool("other") ? &g_slot[w] : NULL;
    if (w == in) vf_assume(other == prev);
    t->features[in] = prev; t->features[w] = other;
    vf_cover("pre");
    vf_assert(ht_timeline_get_feature(t, &k) == (known ? prev : NULL), "the feature that was set is returned, none if never set or not registered");
    HT_ErrorCode err = ht_timeline_set_feature(t, &x);
    if (known && !prev)
    {
        vf_cover("set");
        vf_assert(err == HT_ERR_OK && t->features[in] == &x && g_destroyed_own == 0, "the feature is kept");
        vf_assert(ht_timeline_get_feature(t, &k) == &x, "and returned from now on");
    }
    else
    {
        vf_cover("refused");
        vf_assert(err == (known ? HT_ERR_FEATURE_ALREADY_REGISTERED : HT_ERR_FEATURE_NOT_REGISTERED), "the reason of the refusal is reported");
        vf_assert(g_destroyed_own == 1 && t->features[in] == prev, "a refused feature is destroyed at once, exactly once, and the old one kept");
    }
    vf_assert(g_destroyed_other == 0, "no other feature is destroyed");
    if (w != in) vf_assert(t->features[w] == other, "the other slots are untouched");
    locks_released();
}
/* none, one arbitrary or all of the slots are taken: each feature is destroyed exactly once with the timeline */
void H_feature_destroy(void)
{
    vf_unroll(HT_TIMELINE_MAX_FEATURES + 2);
    arbitrary_features();
    size_t w = vf_range("w", 0, HT_TIMELINE_MAX_FEATURES - 1, HT_TIMELINE_MAX_FEATURES - 1), n = 0;
    t->buffer_usage = 0;    /* pending events: H_destroy */
    if (vf_bool("all")) { for (size_t i = 0; i < HT_TIMELINE_MAX_FEATURES; i++) t->features[i] = &g_slot[i]; n = HT_TIMELINE_MAX_FEATURES; }
    else if (vf_bool("one")) { t->features[w] = &g_slot[w]; n = 1; }
    g_own = &g_slot[w];
    int set = t->features[w] != NULL;
    vf_cover("pre");
    ht_timeline_destroy(t);
    vf_assert(g_destroyed_own == set, "a feature of the timeline is destroyed exactly once");
    vf_assert((size_t)(g_destroyed_own + g_destroyed_other) == n, "and nothing else is destroyed");
    vf_assert(vf_live() == 0 && g_mutexes == 0, "nothing leaks");
    locks_released();
}
