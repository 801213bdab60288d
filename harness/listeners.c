/* Listener containers: every batch reaches every registered listener once, in order; entries and containers are released once. */
#define MKCREFLECT_IMPL
#include "env.h"
#include "lib/alloc.c"
#include "lib/bag.c"
#include "lib/events.c"
#include "lib/event_utils.c"
#include "lib/system_info.c"
#include "lib/registry.c"
#include "lib/timeline_listener.c"

HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { return vf_u64("now"); }
static int g_prov;
HT_EventIdProvider* ht_event_id_provider_get_default(void) { return (HT_EventIdProvider*)&g_prov; }
HT_EventId ht_event_id_provider_next(HT_EventIdProvider* p) { (void)p; return vf_u64("eid"); }
HT_ErrorCode HT_FeatureCachedString_register(void) { return HT_ERR_OK; }
HT_ErrorCode HT_FeatureCallstack_register(void) { return HT_ERR_OK; }

static HT_TimelineListenerContainer* c;
static size_t g_next, g_n, g_w, g_wdest;     /* next listener to be called; watched listener: how often it was destroyed */
static TEventPtr g_events; static size_t g_size; static HT_Boolean g_ser;
static int* g_clock;
static void G_listener(TEventPtr e, size_t n, HT_Boolean ser, void* ud)
{
    vf_assert(g_next < g_n, "no listener is called twice");
    vf_assert((size_t)ud == g_next * 8, "listeners are called in registration order with their user data");
    vf_assert(e == g_events && n == g_size && ser == g_ser, "every listener gets the whole batch");
    g_next++;
}
static void G_destroy(void* ud)
{
    vf_assert((size_t)ud == g_next * 8 || g_next == (size_t)-1, "listeners are released in turn");
    g_wdest += (size_t)ud == g_w * 8;
}
static void any_entry(size_t i, void* p)
{
    HT_TimelineListenerEntry* e = (HT_TimelineListenerEntry*)p;
    e->callback = G_listener;
    e->user_data = (void*)(i * 8);
    e->destroy_cb = G_destroy;
}
static void arbitrary_container(void)
{
    c = (HT_TimelineListenerContainer*)ht_alloc(sizeof(HT_TimelineListenerContainer));
    vf_assume(c != NULL);
    c->mutex = ht_mutex_create();
    vf_assume(c->mutex != NULL);
    c->entries.min_capacity = 16;
    c->entries.capacity = vf_range("capacity", 16, VF_BIG, 20);
    c->entries.size = g_n = vf_range("entries", 0, VF_BIG, 20);
    vf_assume(g_n <= c->entries.capacity);
    c->entries.data = (HT_TimelineListenerEntry*)vf_lazy("entries", g_n, c->entries.capacity, sizeof(HT_TimelineListenerEntry), any_entry);
    vf_heapify(c->entries.data);
    c->id = vf_u32("id");
    c->refcount = vf_range("refcount", 1, 0xfffffff0, 3);
    g_next = 0;
}
static int INV(void) { return vf_and(g_next <= g_n, g_wdest <= 1); }

void H_notify(void)
{
    arbitrary_container();
    g_events = (TEventPtr)vf_obj("batch", 1); g_size = vf_u64("size"); g_ser = vf_bool("ser");
    vf_inv(INV);
    vf_cover("pre");
    ht_timeline_listener_container_notify_listeners(c, g_events, g_size, g_ser);
    vf_cover("post");
    vf_assert(g_next == g_n, "every listener is called");
    vf_assert(c->entries.size == g_n, "the listeners stay registered");
    locks_released();
}
/* a group may be shared by several timelines, so its list is shared state (known finding: it is walked without the lock) */
/* no-native H_notify_race */
void H_notify_race(void)
{
    arbitrary_container();
    vf_guard(&c->entries, sizeof c->entries, &c->mutex->held);
    g_events = (TEventPtr)vf_obj("batch", 1); g_size = vf_u64("size"); g_ser = vf_bool("ser");
    vf_inv(INV);
    vf_cover("pre");
    ht_timeline_listener_container_notify_listeners(c, g_events, g_size, g_ser);
}
void H_register(void)
{
    arbitrary_container();
    vf_guard(&c->entries, sizeof c->entries, &c->mutex->held);
    vf_guard(c->entries.data, c->entries.capacity * sizeof(HT_TimelineListenerEntry), &c->mutex->held);
    size_t w = vf_range("w", 0, VF_BIG, 20);
    uint64_t cb = vf_u64("cb"), ud = vf_u64("ud"), de = vf_u64("de");
    vf_malloc_may_fail(1);
    vf_cover("pre");
    HT_ErrorCode err = ht_timeline_listener_container_register_listener(c, (HT_TimelineListenerCallback)(uintptr_t)cb, (void*)(uintptr_t)ud, (HT_DestroyCallback)(uintptr_t)de);
    HT_TimelineListenerEntry* d = c->entries.data;
    if (err == HT_ERR_OK)
    {
        vf_cover("ok");
        vf_assert(c->entries.size == g_n + 1, "one more listener");
        vf_assert((uint64_t)(uintptr_t)d[g_n].callback == cb && (uint64_t)(uintptr_t)d[g_n].user_data == ud && (uint64_t)(uintptr_t)d[g_n].destroy_cb == de,
                  "the listener is appended with its callback, user data and release function");
    }
    else
    {
        vf_cover("oom");
        vf_assert(err == HT_ERR_OUT_OF_MEMORY && c->entries.size == g_n, "a failed registration changes nothing");
    }
    if (w < g_n)
        vf_assert(d[w].callback == G_listener && (size_t)d[w].user_data == w * 8 && d[w].destroy_cb == G_destroy, "listeners registered before stay registered");
    locks_released();
}
static uint64_t WDEST(void) { return g_wdest; }
void H_unref(void)
{
    arbitrary_container();
    uint32_t r = c->refcount;
    g_w = vf_range("w", 0, VF_BIG, 20); g_wdest = 0; g_next = (size_t)-1;
    vf_guard(&c->refcount, sizeof c->refcount, &c->mutex->held);
    vf_inv(INV);
    vf_watch(g_w);
    vf_cover("pre");
    ht_timeline_listener_container_unref(c);
    if (r > 1)
    {
        vf_cover("shared");
        vf_assert(vf_alive(c) && c->refcount == r - 1 && g_wdest == 0 && c->entries.size == g_n, "a group still in use is kept");
    }
    else
    {
        vf_cover("last");
        vf_assert(!vf_alive(c) && vf_live() == 0 && g_mutexes == 0, "the last release frees the group, its list and its lock");
        vf_assert(g_wdest == (g_w < g_n), "every listener is released exactly once");
    }
    locks_released();
}
void H_ref(void)
{
    arbitrary_container();
    uint32_t r = c->refcount;
    vf_guard(&c->refcount, sizeof c->refcount, &c->mutex->held);
    vf_cover("pre");
    ht_timeline_listener_container_ref(c);
    vf_assert(c->refcount == r + 1, "one more user");
    locks_released();
}
void H_unregister_all(void)
{
    arbitrary_container();
    g_w = vf_range("w", 0, VF_BIG, 20); g_wdest = 0; g_next = (size_t)-1;
    vf_inv(INV);
    vf_watch(g_w);
    vf_malloc_may_fail(1);
    vf_cover("pre");
    ht_timeline_listener_container_unregister_all_listeners(c);
    vf_assert(g_wdest == (g_w < g_n), "every listener is released exactly once");
    vf_assert(c->entries.size == 0, "no listener stays registered");
    vf_assert(c->entries.capacity >= 1 && vf_valid(c->entries.data, c->entries.capacity * sizeof(HT_TimelineListenerEntry)), "the list stays usable");
    ht_timeline_listener_container_unref(c);
    vf_assert(g_wdest == (g_w < g_n), "and is not released again");
    locks_released();
}
/* entries without a release function */
static void plain_entry(size_t i, void* p) { any_entry(i, p); ((HT_TimelineListenerEntry*)p)->destroy_cb = NULL; }
void H_unref_plain(void)
{
    arbitrary_container();
    c->entries.data = (HT_TimelineListenerEntry*)vf_lazy("entries", g_n, c->entries.capacity, sizeof(HT_TimelineListenerEntry), plain_entry);
    vf_heapify(c->entries.data);
    c->refcount = 1;
    vf_cover("pre");
    ht_timeline_listener_container_unref(c);
    vf_assert(!vf_alive(c), "released");
    locks_released();
}
void H_create(void)
{
    vf_malloc_may_fail(1);
    HT_TimelineListenerContainer* x = ht_timeline_listener_container_create();
    if (x)
    {
        vf_cover("ok");
        vf_assert(x->entries.size == 0 && x->refcount == 1 && x->id == 0 && x->mutex != NULL, "an empty group with one user");
        ht_timeline_listener_container_unref(x);
    }
    else vf_cover("oom");
    vf_assert(vf_live() == 0 && g_mutexes == 0, "nothing leaks");
    locks_released();
}

/* ------------------------------------------------------------------ registry of named groups */
static HT_Mutex g_lock;
static size_t g_count; static uint32_t g_ids0;
static HT_Mutex g_cm;
static void any_container(size_t i, void* p)
{
    HT_TimelineListenerContainer* x = (HT_TimelineListenerContainer*)vf_obj("container", sizeof(HT_TimelineListenerContainer));
    (void)i;
    if (!vf_is_proof() && vf_bool("same name")) x->id = g_ids0;
    *(HT_TimelineListenerContainer**)p = x;
}
static void arbitrary_registry(void)
{
    listeners_register_mutex = &g_lock;
    g_lock.held = 0;
    listeners_register.min_capacity = 8;
    listeners_register.capacity = vf_range("capacity", 8, VF_BIG, 12);
    listeners_register.size = g_count = vf_range("groups", 0, VF_BIG, 12);
    vf_assume(g_count <= listeners_register.capacity);
    listeners_register.data = (void**)vf_lazy("groups", g_count, listeners_register.capacity, sizeof(void*), any_container);
    vf_heapify(listeners_register.data);
    vf_guard(&listeners_register, sizeof listeners_register, &g_lock.held);
}
uint32_t C__djb2_hash(const char* s) { (void)s; return g_ids0; }
static HT_TimelineListenerContainer** groups(void) { return (HT_TimelineListenerContainer**)listeners_register.data; }
/* (djb2 collisions between different names are a design limit, see DESIGN.md) */
static const char* any_name(void) { g_ids0 = vf_is_verifier() ? vf_u32("hash of the name") : djb2_hash("name"); return "name"; }
void H_find(void)
{
    const char* n = any_name();
    arbitrary_registry();
    size_t w = vf_range("w", 0, VF_BIG, 12);
    vf_assume(w < g_count);
    uint32_t idw = groups()[w]->id;
    if (vf_bool("match")) vf_assume(idw == g_ids0); else vf_assume(idw != g_ids0);
    vf_watch(w);
    vf_cover("pre");
    HT_TimelineListenerContainer* x = ht_registry_find_listener_container(n);
    if (x) { vf_cover("found"); vf_assert(x->id == g_ids0, "the group found has the name"); }
    else { vf_cover("none"); vf_assert(idw != g_ids0, "a registered group is found"); }
    vf_assert(listeners_register.size == g_count && groups()[w]->id == idw, "nothing changes");
    locks_released();
}
void H_register_group(void)
{
    const char* n = any_name();
    arbitrary_registry();
    size_t w = vf_range("w", 0, VF_BIG, 12);
    vf_assume(w < g_count || g_count == 0);
    HT_TimelineListenerContainer* old = g_count ? groups()[w] : NULL;
    uint32_t idw = old ? old->id : 0;
    if (vf_bool("match")) vf_assume(idw == g_ids0); else vf_assume(idw != g_ids0);
    vf_watch(w);
    c = (HT_TimelineListenerContainer*)vf_obj("new", sizeof(HT_TimelineListenerContainer));
    c->mutex = &g_cm; g_cm.held = 0;
    c->refcount = 1; c->id = 0;
    vf_malloc_may_fail(1);
    vf_cover("pre");
    HT_ErrorCode err = ht_registry_register_listener_container(n, c);
    if (err == HT_ERR_OK)
    {
        vf_cover("ok");
        vf_assert(listeners_register.size == g_count + 1 && groups()[g_count] == c && c->id == g_ids0, "the group is registered under the name");
        vf_assert(c->refcount == 2, "the registry keeps one reference");
        vf_assert(old == NULL || idw != g_ids0, "a name is registered once");
    }
    else
    {
        if (err == HT_ERR_OUT_OF_MEMORY) vf_cover("oom"); else vf_cover("exists");
        vf_assert(listeners_register.size == g_count && c->refcount == 1, "a failed registration changes nothing");
    }
    vf_assert(old == NULL || (groups()[w] == old && old->id == idw), "groups registered before stay");
    locks_released();
}

/* ------------------------------------------------------------------ sharing by name */
static HT_TimelineListenerContainer* g_shared; static int g_registered, g_race; static HT_TimelineListenerContainer* g_mine;
HT_TimelineListenerContainer* C__ht_registry_find_listener_container(const char* n)
{
    (void)n;
    return g_registered ? g_shared : NULL;
}
HT_ErrorCode C__ht_registry_register_listener_container(const char* n, HT_TimelineListenerContainer* x)
{
    (void)n;
    if (g_registered || g_race) { g_registered = 1; return HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED; }
    if (vf_bool("no memory")) return HT_ERR_OUT_OF_MEMORY;
    g_registered = 1; g_shared = g_mine = x;
    x->refcount++;
    return HT_ERR_OK;
}
/* no-native H_share */
void H_share(void)
{
    arbitrary_container();
    g_shared = c; g_mine = NULL;
    uint32_t r = c->refcount;
    size_t live0 = vf_live();
    g_registered = vf_bool("registered");
    g_race = vf_bool("registered meanwhile");
    int there = g_registered;
    vf_malloc_may_fail(1);
    vf_cover("pre");
    HT_TimelineListenerContainer* x = ht_find_or_create_listener(vf_bool("named") ? "name" : NULL);
    vf_cover("post");
    if (x == c)
    {
        vf_cover("shared");
        vf_assert(c->refcount == r + 1, "a shared group has one more user");
        vf_assert(vf_live() == live0, "nothing leaks");
    }
    else
    {
        vf_assert(c->refcount == r, "another group is not touched");
        if (x) vf_assert(x->refcount == 1 + (x == g_mine) && x->entries.size == 0, "a fresh group, one reference for the caller and one for the registry");
        else vf_assert(vf_live() == live0, "nothing leaks");
    }
    locks_released();
}
void H_share_named(void)
{
    arbitrary_container();
    g_shared = c; g_mine = NULL; g_registered = 1;
    vf_malloc_may_fail(1);
    vf_cover("pre");
    vf_assert(ht_find_or_create_listener("name") == c, "the same name gives the same group");
    locks_released();
}
/* no-native H_share_named */
void H_share_unnamed(void)
{
    arbitrary_container();
    g_shared = c; g_mine = NULL; g_registered = 1;
    vf_malloc_may_fail(1);
    vf_cover("pre");
    vf_assert(ht_find_or_create_listener(NULL) != c && g_mine == NULL, "without a name nothing is shared");
    locks_released();
}
/* no-native H_share_unnamed */
