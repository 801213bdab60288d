/* Library initialisation and shutdown: nested use, reinitialisation, failed allocations. */
#define MKCREFLECT_IMPL
#include "env.h"
#include "lib/alloc.c"
#include "lib/bag.c"
#include "lib/events.c"
#include "lib/event_utils.c"
#include "lib/system_info.c"
#include "lib/registry.c"
#include "lib/posix_mapped_tracepoint.c"
#include "hawktracer/core_events.h"
#include "hawktracer/feature_callstack.h"
#include "lib/init.c"

HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { return vf_u64("now"); }
static int g_prov;
HT_EventIdProvider* ht_event_id_provider_get_default(void) { return (HT_EventIdProvider*)&g_prov; }
HT_EventId ht_event_id_provider_next(HT_EventIdProvider* p) { (void)p; return vf_u64("eid"); }
static HT_FeatureKlass g_fk[2];
HT_ErrorCode HT_FeatureCachedString_register(void) { return ht_registry_register_feature(&g_fk[0]); }
HT_ErrorCode HT_FeatureCallstack_register(void) { return ht_registry_register_feature(&g_fk[1]); }
uintptr_t ht_feature_cached_string_add_mapping(HT_Timeline* t, const char* l) { (void)t; (void)l; return 0; }
static int g_parsed;
void ht_command_line_parse_args(int argc, char** argv) { (void)argc; (void)argv; g_parsed++; }
static int g_unref; static void* g_watch;
uint32_t ht_timeline_listener_container_get_id(HT_TimelineListenerContainer* c) { (void)c; return 0; }
void ht_timeline_listener_container_set_id(HT_TimelineListenerContainer* c, uint32_t id) { (void)c; (void)id; }
void ht_timeline_listener_container_ref(HT_TimelineListenerContainer* c) { (void)c; }
void ht_timeline_listener_container_unref(HT_TimelineListenerContainer* c) { if ((void*)c == g_watch) g_unref++; }

typedef HT_EventKlass* (*KlassFn)(void);
static KlassFn core[] = {
    ht_HT_EndiannessInfoEvent_get_event_klass_instance, ht_HT_Event_get_event_klass_instance,
    ht_HT_EventKlassInfoEvent_get_event_klass_instance, ht_HT_EventKlassFieldInfoEvent_get_event_klass_instance,
    ht_HT_CallstackBaseEvent_get_event_klass_instance, ht_HT_CallstackIntEvent_get_event_klass_instance,
    ht_HT_CallstackStringEvent_get_event_klass_instance, ht_HT_StringMappingEvent_get_event_klass_instance,
    ht_HT_SystemInfoEvent_get_event_klass_instance };
#define NCORE (sizeof(core) / sizeof(core[0]))
static size_t core_ok(int complete)
{
    size_t n, found = 0;
    event_klass_registry_register_mutex->held = 1;
    HT_EventKlass** l = ht_registry_get_event_klasses(&n);
    event_klass_registry_register_mutex->held = 0;
    for (size_t i = 0; i < NCORE; i++)
    {
        HT_EventKlass* k = core[i]();
        if (k->klass_id < n) { vf_assert(l[k->klass_id] == k, "the id of a core class is its position in the list"); found++; }
        else vf_assert(!complete, "every core class is registered");
        vf_assert(k->type_info != NULL || !complete, "with its description");
    }
    return found;
}
/* ids of an earlier run: those of all classes in another order, or none, but for one class any number at all */
static void stale_ids(void)
{
    int rev = vf_bool("reversed");
    for (size_t i = 0; i < NCORE; i++) core[i]()->klass_id = rev ? (HT_EventKlassId)(NCORE - 1 - i) : HT_INVALID_KLASS_ID;
    size_t w = vf_range("w", 0, NCORE - 1, NCORE - 1);
    for (size_t i = 0; i < NCORE; i++) if (i == w) core[i]()->klass_id = vf_u32("old id");
}
static void no_features(void) { g_fk[0].id = g_fk[1].id = HT_INVALID_FEATURE_ID; feature_count = 0; }

/* initialisation of an uninitialised library: the classes may carry ids of an earlier run */
void H_init_first(void)
{
    vf_unroll(12);
    stale_ids();
    no_features();
    vf_cover("pre");
    ht_init(0, NULL);
    vf_assert(g_parsed == 1, "the command line is parsed");
    vf_assert(ht_is_initialized(), "initialised");
    vf_assert(core_ok(1) == NCORE, "every core class is registered");
    vf_assert(core[0]()->klass_id == 0 && event_klass_register.size == NCORE, "ids are dense, the byte order class is the first");
    vf_assert(g_fk[0].id == 0 && g_fk[1].id == 1, "the core features are registered");
    ht_deinit();
    vf_assert(!ht_is_initialized() && vf_live() == 0 && g_mutexes == 0, "a shutdown releases everything");
    locks_released();
}
/* nested use: only the first initialisation and the last shutdown do anything */
void H_nested(void)
{
    vf_unroll(12);
    no_features();
    for (size_t i = 0; i < NCORE; i++) core[i]()->klass_id = HT_INVALID_KLASS_ID;
    ht_init(0, NULL);
    size_t live = vf_live();
    _ht_init_counter = (int)vf_range("depth", 1, 1000, 5);
    int depth = _ht_init_counter;
    void** data = event_klass_register.data;
    vf_cover("pre");
    ht_init(0, NULL);
    vf_assert(ht_is_initialized() && event_klass_register.size == NCORE && event_klass_register.data == data && vf_live() == live, "initialising again keeps everything registered");
    core_ok(1);
    ht_deinit();
    vf_assert(ht_is_initialized() && event_klass_register.size == NCORE && vf_live() == live, "a nested shutdown keeps everything registered");
    core_ok(1);
    ht_deinit();
    vf_assert((ht_is_initialized() != 0) == (depth > 1), "as many shutdowns as initialisations end the library");
    if (depth == 1) { vf_cover("last"); vf_assert(vf_live() == 0 && g_mutexes == 0, "the last shutdown releases everything"); ht_deinit(); vf_assert(!ht_is_initialized(), "a surplus shutdown does nothing"); }
    locks_released();
}
/* shutdown, then initialise again, with a class of the user in between */
void H_reinit(void)
{
    vf_unroll(12);
    no_features();
    static HT_EventKlass user;
    user.klass_id = HT_INVALID_KLASS_ID;
    for (size_t i = 0; i < NCORE; i++) core[i]()->klass_id = HT_INVALID_KLASS_ID;
    ht_init(0, NULL);
    if (vf_bool("user first")) { ht_registry_register_event_klass(&user); vf_assert(user.klass_id == NCORE, "the next id"); }
    ht_deinit();
    vf_cover("pre");
    ht_init(0, NULL);
    core_ok(1);
    HT_EventKlassId id = ht_registry_register_event_klass(&user);
    vf_assert(id == NCORE && user.klass_id == id && event_klass_register.data[id] == (void*)&user, "a class of the user is registered anew after a restart");
    core_ok(1);
    ht_deinit();
    vf_assert(vf_live() == 0 && g_mutexes == 0, "nothing leaks");
    locks_released();
}
/* any allocation may fail: no crash, no leak, ids stay true */
void H_init_oom(void)
{
    vf_unroll(12);
    no_features();
    for (size_t i = 0; i < NCORE; i++) core[i]()->klass_id = HT_INVALID_KLASS_ID;
    vf_malloc_may_fail(1);
    ht_init(0, NULL);
    if (ht_is_initialized()) { vf_cover("ok"); core_ok(0); ht_deinit(); }
    else vf_cover("failed");
    vf_assert(!ht_is_initialized() && vf_live() == 0 && g_mutexes == 0, "nothing leaks");
    locks_released();
}
/* shutdown with any number of shared listener groups */
static void any_container(size_t i, void* p) { *(void**)p = vf_obj("container", 1); }
void H_shutdown_listeners(void)
{
    vf_unroll(3);
    event_klass_register.data = (void**)malloc(64); listeners_register.capacity = event_klass_register.capacity = 8;
    listeners_register.size = vf_range("groups", 0, VF_BIG, 10);
    listeners_register.data = (void**)vf_lazy("data", listeners_register.size, listeners_register.size, sizeof(void*), any_container);
    vf_heapify(listeners_register.data);
    vf_assume(event_klass_register.data != NULL);
    listeners_register_mutex = ht_mutex_create(); features_register_mutex = ht_mutex_create(); event_klass_registry_register_mutex = ht_mutex_create();
    size_t w = vf_range("w", 0, VF_BIG, 10);
    vf_assume(w < listeners_register.size);
    vf_watch(w);
    g_watch = listeners_register.data[w];
    g_unref = 0;
    _ht_init_counter = 1;
    vf_cover("pre");
    ht_deinit();
    vf_assert(g_unref == 1, "the reference to every shared listener group is released exactly once");
    vf_assert(vf_live() == 0 && g_mutexes == 0, "nothing leaks");
}
