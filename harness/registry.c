/* Event class registry: ids, lookup groups, feature slots, metadata prologue. */
#define MKCREFLECT_IMPL
#include "env.h"
#include "lib/alloc.c"
#include "lib/bag.c"
#include "lib/events.c"
#include "lib/event_utils.c"
#include "lib/system_info.c"
#include "lib/registry.c"
#include "lib/timeline_listener.c"

HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { return vf_u64("now"); }
static int g_prov;
HT_EventIdProvider* ht_event_id_provider_get_default(void) { return (HT_EventIdProvider*)&g_prov; }
HT_EventId ht_event_id_provider_next(HT_EventIdProvider* p) { (void)p; return vf_u64("eid"); }
HT_ErrorCode HT_FeatureCachedString_register(void) { return HT_ERR_OK; }
HT_ErrorCode HT_FeatureCallstack_register(void) { return HT_ERR_OK; }

static HT_Mutex g_mtx[3];
static void mutexes(void)
{
    listeners_register_mutex = &g_mtx[0]; features_register_mutex = &g_mtx[1]; event_klass_registry_register_mutex = &g_mtx[2];
    g_mtx[0].held = g_mtx[1].held = g_mtx[2].held = 0;
    g_held = 0;
}

/* ------------------------------------------------------------------ class ids: id == position */
static void any_klass(size_t i, void* p)
{
    HT_EventKlass* k = (HT_EventKlass*)vf_obj("klass", sizeof(HT_EventKlass));
    k->klass_id = (HT_EventKlassId)i;
    *(HT_EventKlass**)p = k;
}
static HT_EventKlass** arbitrary_classes(void)
{
    mutexes();
    event_klass_register.min_capacity = 8;
    event_klass_register.capacity = vf_range("capacity", 8, VF_BIG, 12);
    event_klass_register.size = vf_range("size", 0, 0xfffffffe, 12);
    vf_assume(event_klass_register.size <= event_klass_register.capacity);
    event_klass_register.data = (void**)vf_lazy("data", event_klass_register.size, event_klass_register.capacity, sizeof(void*), any_klass);
    vf_heapify(event_klass_register.data);
    vf_guard(&event_klass_register.size, sizeof(size_t), &g_mtx[2].held);
    return (HT_EventKlass**)event_klass_register.data;
}
static HT_EventKlass g_new;
/* a class that is not in the list: never registered, or carrying the id of an earlier run of the library */
void H_register_new(void)
{
    HT_EventKlass** d = arbitrary_classes();
    size_t n = event_klass_register.size, w = vf_range("w", 0, VF_BIG, 12);
    vf_assume(w < n || n == 0);
    HT_EventKlass* old = n ? d[w] : NULL;
    g_new.klass_id = HT_INVALID_KLASS_ID;
    vf_malloc_may_fail(1);
    vf_cover("pre");
    HT_EventKlassId id = ht_registry_register_event_klass(&g_new);
    size_t now = 99;
    HT_EventKlass** list = NULL;
    g_mtx[2].held = 1;
    list = ht_registry_get_event_klasses(&now);
    g_mtx[2].held = 0;
    if (id != HT_INVALID_KLASS_ID)
    {
        vf_cover("ok");
        vf_assert(id == n && g_new.klass_id == id, "the id is the position in the class list");
        vf_assert(now == n + 1 && list[n] == &g_new, "the class is appended to the list");
    }
    else
    {
        vf_cover("oom");
        vf_assert(now == n && g_new.klass_id == HT_INVALID_KLASS_ID, "a failed registration changes nothing");
    }
    if (n) vf_assert(list[w] == old && old->klass_id == (HT_EventKlassId)w, "classes registered before keep position and id");
    locks_released();
}
void H_register_again(void)
{
    HT_EventKlass** d = arbitrary_classes();
    size_t n = event_klass_register.size, w = vf_range("w", 0, VF_BIG, 12), v = vf_range("v", 0, VF_BIG, 12);
    vf_assume(w < n); vf_assume(v < n);
    HT_EventKlass *k = d[w], *o = d[v];
    vf_malloc_may_fail(1);
    vf_cover("pre");
    HT_EventKlassId id = ht_registry_register_event_klass(k);
    vf_assert(id == w && k->klass_id == w, "registering again returns the same id");
    vf_assert(event_klass_register.size == n && event_klass_register.data[v] == (void*)o && o->klass_id == v, "and changes nothing");
    locks_released();
}
/* a class whose id was given by an earlier run of the library */
void H_register_stale(void)
{
    arbitrary_classes();
    size_t n = event_klass_register.size;
    g_new.klass_id = vf_u32("stale");
    vf_cover("pre");
    HT_EventKlassId id = ht_registry_register_event_klass(&g_new);
    vf_assert(id == n && g_new.klass_id == id && event_klass_register.size == n + 1 && event_klass_register.data[n] == (void*)&g_new,
              "a class that is not in the list is added to it");
    locks_released();
}

/* ------------------------------------------------------------------ feature slots */
void H_register_feature(void)
{
    mutexes();
    HT_FeatureKlass k;
    feature_count = vf_range("count", 0, HT_TIMELINE_MAX_FEATURES, HT_TIMELINE_MAX_FEATURES);
    size_t n = feature_count;
    k.id = vf_bool("fresh") ? HT_INVALID_FEATURE_ID : vf_u32("id");
    vf_assume(k.id == HT_INVALID_FEATURE_ID || k.id < n);
    uint32_t old = k.id;
    vf_guard(&feature_count, sizeof feature_count, &g_mtx[1].held);
    vf_guard(&k.id, sizeof k.id, &g_mtx[1].held);
    HT_ErrorCode err = ht_registry_register_feature(&k);
    if (old != HT_INVALID_FEATURE_ID)
    {
        vf_cover("again");
        vf_assert(err == HT_ERR_FEATURE_ALREADY_REGISTERED && k.id == old, "a registered feature class keeps its id");
        vf_assert(feature_count == n, "registering again takes no slot");
    }
    else if (n == HT_TIMELINE_MAX_FEATURES)
    {
        vf_cover("full");
        vf_assert(err == HT_ERR_MAX_FEATURE_COUNT_REACHED && k.id == HT_INVALID_FEATURE_ID && feature_count == n, "no id beyond the limit is handed out");
    }
    else
    {
        vf_cover("new");
        vf_assert(err == HT_ERR_OK && k.id == n && feature_count == n + 1 && k.id < HT_TIMELINE_MAX_FEATURES, "a fresh id below the limit");
    }
    locks_released();
}
