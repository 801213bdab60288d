/* Call-stack tracepoints on an arbitrary stack of open tracepoints (real stack and bag code). */
#define MKCREFLECT_IMPL
#include "env.h"
#include "hawktracer/timeline.h"
#include "hawktracer/thread.h"
#include "lib/alloc.c"
#include "lib/bag.c"
#include "lib/stack.c"
#include "lib/events.c"
#include "lib/feature_callstack.c"
#include "lib/scoped_tracepoint.c"

static int g_tl;
static HT_Timeline* const g_timeline = (HT_Timeline*)&g_tl;
static HT_FeatureCallstack* f;
static HT_Feature* g_set; static int g_refuse;
HT_Feature* ht_timeline_get_feature(HT_Timeline* t, HT_FeatureKlass* k) { vf_assert(t == g_timeline && k == HT_FeatureCallstack_get_class(), "the call stack of this timeline"); return (HT_Feature*)f; }
HT_ErrorCode ht_timeline_set_feature(HT_Timeline* t, HT_Feature* x)
{
    vf_assert(t == g_timeline && x->klass == HT_FeatureCallstack_get_class(), "set on this timeline");
    if (g_refuse) { x->klass->destroy(x); return HT_ERR_FEATURE_ALREADY_REGISTERED; }
    g_set = x;
    return HT_ERR_OK;
}
HT_ErrorCode ht_registry_register_feature(HT_FeatureKlass* k) { (void)k; return HT_ERR_OK; }
HT_EventKlassId ht_registry_register_event_klass(HT_EventKlass* k) { (void)k; return 0; }
static uint64_t g_now; static HT_ThreadId g_tid;
HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { return g_now; }
HT_ThreadId ht_thread_get_current_thread_id(void) { return g_tid; }
static int g_inits;
static uint64_t g_id;
void ht_timeline_init_event(HT_Timeline* t, HT_Event* e)
{
    vf_assert(t == g_timeline, "initialised by this timeline");
    e->timestamp = g_now; e->id = g_id; g_inits++;
}
static HT_EventKlass* g_custom; static size_t g_csize, g_cw; static HT_Byte g_cbyte;
static int g_pushed;
static HT_CallstackIntEvent g_out; static HT_CallstackStringEvent g_outs; static HT_EventKlass* g_klass;
void ht_timeline_push_event(HT_Timeline* t, HT_Event* e)
{
    vf_assert(t == g_timeline, "pushed to this timeline");
    g_pushed++;
    g_klass = e->klass;
    if (e->klass == g_custom)
    {
        vf_assert(vf_valid(e, g_csize), "the whole event is there");
        g_outs.base = *(HT_CallstackBaseEvent*)e;
        g_cbyte = vf_peek(e, g_cw, g_csize);
        return;
    }
    if (e->klass == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)) g_out = *(HT_CallstackIntEvent*)e;
    else g_outs = *(HT_CallstackStringEvent*)e;
}
static HT_Byte ow; static uint64_t ok; static size_t n, sz, w, k; static int what;
/* any number of open tracepoints of any kind */
static void arbitrary_stack(void)
{
    mkcreflect_get_HT_CallstackIntEvent_type_info();
    ht_HT_CallstackIntEvent_register_event_klass();
    ht_HT_CallstackStringEvent_register_event_klass();
    f = (HT_FeatureCallstack*)ht_alloc(sizeof *f);
    vf_assume(f != NULL);
    f->base.klass = HT_FeatureCallstack_get_class();
    f->lost = 0;
    HT_Stack* s = &f->stack;
    s->min_capacity = 1024;
    s->capacity = vf_range("capacity", 1024, VF_BIG, 1024);
    s->size = sz = vf_range("size", 0, VF_BIG, 1024);
    vf_assume(sz <= s->capacity && sz % 8 == 0);
    s->data = vf_obj("data", s->capacity);
    vf_heapify(s->data);
    HT_BagVoidPtr* b = &s->sizes_stack;
    b->min_capacity = 32;
    b->capacity = vf_range("entries", 32, VF_BIG, 40);
    b->size = n = vf_range("depth", 0, VF_BIG, 40);
    vf_assume(n <= b->capacity);
    b->data = (void**)vf_obj("bounds", b->capacity * sizeof(void*));
    vf_heapify(b->data);
    w = vf_range("w", 0, VF_BIG, 1024); k = vf_range("k", 0, VF_BIG, 40);
    if (what == 0) ow = vf_peek(s->data, w, sz);
    else ok = vf_peek64(b->data, k, n);
    g_pushed = g_inits = 0;
}
static void unchanged(void)
{
    vf_assert(f->stack.size == sz && f->stack.sizes_stack.size == n, "the enclosing tracepoints stay open");
    if (what == 0) { if (w < sz) vf_assert(((HT_Byte*)f->stack.data)[w] == ow, "and keep their data"); }
    else if (k < n) vf_assert((uint64_t)f->stack.sizes_stack.data[k] == ok, "and their places");
}
static void start(int str, uint64_t label) { if (str) ht_feature_callstack_start_string(g_timeline, (const char*)(uintptr_t)label); else ht_feature_callstack_start_int(g_timeline, label); }
static void check(int str, uint64_t label, uint64_t ts, uint64_t id)
{
    vf_assert(g_pushed == 1, "one event per tracepoint");
    vf_assert(g_klass == (str ? HT_EVENT_KLASS_GET(HT_CallstackStringEvent) : HT_EVENT_KLASS_GET(HT_CallstackIntEvent)), "of its kind");
    HT_CallstackBaseEvent* b = str ? (HT_CallstackBaseEvent*)&g_outs : (HT_CallstackBaseEvent*)&g_out;
    vf_assert((str ? (uint64_t)(uintptr_t)g_outs.label : g_out.label) == label, "with its own label");
    vf_assert(b->base.timestamp == ts && b->base.id == id, "start time and id from the start");
    vf_assert(b->duration == g_now - ts, "the duration is stop time minus start time");
    vf_assert(b->thread_id == g_tid, "the stopping thread");
    g_pushed = 0;
}
static void start_stop(void)
{
    arbitrary_stack();
    g_tid = vf_u32("thread");
    int a = vf_bool("string");
    uint64_t la = vf_u64("label"), ta = vf_u64("t"), ia = vf_u64("id");
    g_now = ta; g_id = ia;
    vf_cover("pre");
    start(a, la);
    vf_assert(g_pushed == 0 && g_inits == 1, "nothing is pushed at the start");
    vf_assert(f->stack.size > sz && f->stack.sizes_stack.size == n + 1, "the tracepoint is open");
    g_now = vf_u64("t2"); g_id = vf_u64("id2");
    ht_feature_callstack_stop(g_timeline);
    check(a, la, ta, ia);
    vf_assert(g_inits == 1, "the event takes one id");
    unchanged();
}
void H_start_stop(void) { what = 0; start_stop(); }
void H_start_stop_places(void) { what = 1; start_stop(); }
/* any event class derived from HT_CallstackBaseEvent, of any size */
static void start_class(void)
{
    arbitrary_stack();
    g_tid = vf_u32("thread");
    vf_unroll(64);
    g_csize = vf_range("class size", sizeof(HT_CallstackBaseEvent), VF_BIG, 120);
    vf_assume(g_csize % 8 == 0);
    g_cw = vf_range("payload byte", sizeof(HT_CallstackBaseEvent), VF_BIG, 120);
    vf_assume(vf_imp(g_csize > sizeof(HT_CallstackBaseEvent), g_cw < g_csize));
    HT_EventKlass klass; memset(&klass, 0, sizeof klass);
    MKCREFLECT_TypeInfo* info = (MKCREFLECT_TypeInfo*)vf_obj("type", sizeof(MKCREFLECT_TypeInfo));
    info->size = g_csize;
    klass.type_info = info;
    HT_CallstackBaseEvent* e = (HT_CallstackBaseEvent*)vf_obj("event", g_csize);
    e->base.klass = g_custom = &klass;
    HT_Byte old = vf_peek(e, g_cw, g_csize);
    uint64_t t = vf_u64("t"), id = vf_u64("id");
    g_now = t; g_id = id;
    vf_cover("pre");
    ht_feature_callstack_start(g_timeline, e);
    vf_assert(g_pushed == 0 && g_inits == 1, "nothing is pushed at the start");
    g_now = vf_u64("t2"); g_id = vf_u64("id2");
    ht_feature_callstack_stop(g_timeline);
    vf_assert(g_pushed == 1 && g_klass == &klass, "one event of the class");
    vf_assert(g_csize == sizeof(HT_CallstackBaseEvent) || g_cbyte == old, "the fields of the class are kept");
    vf_assert(g_outs.base.base.timestamp == t && g_outs.base.base.id == id, "start time and id from the start");
    vf_assert(g_outs.base.duration == g_now - t, "the duration is stop time minus start time");
    vf_assert(g_outs.base.thread_id == g_tid, "the stopping thread");
    unchanged();
    g_custom = NULL;
}
void H_start_class(void) { what = 0; start_class(); }
void H_start_class_places(void) { what = 1; start_class(); }
/* two nested tracepoints: the inner one is stopped first, each keeps its own data (deeper nesting follows by induction) */
static void nested(void)
{
    arbitrary_stack();
    g_tid = vf_u32("thread");
    int a = vf_bool("outer string"), b = vf_bool("inner string");
    uint64_t la = vf_u64("outer"), lb = vf_u64("inner"), ta = vf_u64("ta"), tb = vf_u64("tb"), ia = vf_u64("ia"), ib = vf_u64("ib");
    g_now = ta; g_id = ia; start(a, la);
    g_now = tb; g_id = ib; start(b, lb);
    vf_cover("open");
    g_now = vf_u64("tc"); ht_feature_callstack_stop(g_timeline);
    check(b, lb, tb, ib);
    g_now = vf_u64("td"); ht_feature_callstack_stop(g_timeline);
    check(a, la, ta, ia);
    unchanged();
}
void H_nested(void) { what = 0; nested(); }
void H_nested_places(void) { what = 1; nested(); }
/* a tracepoint that could not be stored is dropped without disturbing the enclosing ones */
static void start_oom(void)
{
    arbitrary_stack();
    int a = vf_bool("string");
    g_now = vf_u64("t"); g_id = vf_u64("id");
    vf_malloc_may_fail(1);
    vf_cover("pre");
    start(a, 1);
    start(0, 2);
    g_tid = vf_u32("thread");
    size_t deep = f->stack.sizes_stack.size;
    ht_feature_callstack_stop(g_timeline);
    if (deep < n + 2) { vf_cover("lost"); vf_assert(g_pushed == 0, "a lost tracepoint produces no event"); }
    else check(0, 2, g_now, g_id);
    g_pushed = 0;
    ht_feature_callstack_stop(g_timeline);
    if (deep == n) { vf_cover("both lost"); vf_assert(g_pushed == 0, "a lost tracepoint produces no event"); }
    else check(a, 1, g_now, g_id);
    unchanged();
}
void H_start_oom(void) { what = 0; start_oom(); }
void H_start_oom_places(void) { what = 1; start_oom(); }
static void scoped(void)
{
    arbitrary_stack();
    g_tid = vf_u32("thread");
    uint64_t la = vf_u64("label"), ta = vf_u64("t"), ia = vf_u64("id");
    int a = vf_bool("string");
    g_now = ta; g_id = ia;
    vf_cover("pre");
    if (a) { HT_TP_SCOPED_STRING(g_timeline, (const char*)(uintptr_t)la); vf_assert(g_pushed == 0, "open inside the scope"); g_now = vf_u64("t2"); }
    else { HT_TP_SCOPED_INT(g_timeline, la); vf_assert(g_pushed == 0, "open inside the scope"); g_now = vf_u64("t2"); }
    check(a, la, ta, ia);
    unchanged();
}
void H_scoped(void) { what = 0; scoped(); }
void H_scoped_places(void) { what = 1; scoped(); }
/* tracepoints still open when the feature goes away */
void H_destroy_open(void)
{
    arbitrary_stack();
    vf_cover("pre");
    f->base.klass->destroy(&f->base);
    vf_assert(vf_live() == 0, "nothing leaks");
}
void H_enable(void)
{
    g_set = NULL; f = NULL;
    g_refuse = vf_bool("refused");
    vf_malloc_may_fail(1);
    vf_cover("pre");
    HT_ErrorCode err = ht_feature_callstack_enable(g_timeline);
    vf_assert((err == HT_ERR_OK) == (g_set != NULL), "an error is reported exactly when the feature could not be enabled");
    if (g_set) { vf_cover("ok"); g_set->klass->destroy(g_set); }
    vf_assert(vf_live() == 0, "nothing leaks");
}
