/* Cached strings.  The hash map is replaced by its contract (P09), observed at one arbitrary key per map. */
#define MKCREFLECT_IMPL
#include "env.h"
#include "hawktracer/timeline.h"
#include "hawktracer/registry.h"
#include "internal/hash_map.h"

#include "lib/alloc.c"
#include "lib/events.c"
#include "lib/feature_cached_string.c"

static int g_tl;
static HT_Timeline* const g_timeline = (HT_Timeline*)&g_tl;
static HT_FeatureCachedString* f;
static HT_Feature* g_set; static HT_Boolean g_refuse;
HT_Feature* ht_timeline_get_feature(HT_Timeline* t, HT_FeatureKlass* k)
{
    vf_assert(t == g_timeline && k == HT_FeatureCachedString_get_class(), "the cache of this timeline");
    return (HT_Feature*)f;
}
HT_ErrorCode ht_timeline_set_feature(HT_Timeline* t, HT_Feature* x)
{
    vf_assert(t == g_timeline && x->klass == HT_FeatureCachedString_get_class(), "set on this timeline");
    if (g_refuse) { x->klass->destroy(x); return HT_ERR_FEATURE_ALREADY_REGISTERED; }
    g_set = x;
    return HT_ERR_OK;
}
HT_ErrorCode ht_registry_register_feature(HT_FeatureKlass* k) { (void)k; return HT_ERR_OK; }
HT_EventKlassId ht_registry_register_event_klass(HT_EventKlass* k) { (void)k; return 0; }
static uint64_t g_now, g_id;
HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { return g_now; }
HT_EventIdProvider* ht_timeline_get_id_provider(HT_Timeline* t) { vf_assert(t == g_timeline, "id source of the timeline"); return NULL; }
HT_EventId ht_event_id_provider_next(HT_EventIdProvider* p) { (void)p; return g_id; }

/* events pushed: how many, how many for the watched identifier, and the last one */
static int g_pushed, g_pushed_key; static uint64_t g_key; static const char* g_last_label; static uint64_t g_last_id;
static int g_strict;
void ht_timeline_push_event(HT_Timeline* t, HT_Event* e)
{
    HT_StringMappingEvent* m = (HT_StringMappingEvent*)e;
    vf_assert(t == g_timeline, "pushed to the timeline of the cache");
    vf_assert(e->klass == HT_EVENT_KLASS_GET(HT_StringMappingEvent), "a mapping event");
    vf_assert(e->timestamp == g_now && e->id == g_id, "timestamp and id as for every event");
    g_pushed++;
    g_last_label = m->label; g_last_id = m->identifier;
    g_pushed_key += m->identifier == g_key;
}

/* contract of the string map (P09): the two maps of the cache, each known at the key under test */
static struct { HT_HashMap* map; int present; const char* value; } g_m[2];
static int g_inits, g_deinits;
static int which(HT_HashMap* m) { return m == &f->dynamic_hashes; }
HT_ErrorCode ht_hash_map_init(HT_HashMap* m)
{
    void* p = ht_alloc(1);      /* stands for the storage of the map */
    if (!p) return HT_ERR_OUT_OF_MEMORY;
    *(void**)&m->buckets[0].key_bag.data = p;
    return HT_ERR_OK;
}
void ht_hash_map_deinit(HT_HashMap* m) { ht_free(m->buckets[0].key_bag.data); }
static void locked(void) { if (f->lock) vf_assert(f->lock->held, "the maps are only used under the lock of the cache"); }
const char* ht_hash_map_insert(HT_HashMap* m, uint64_t key, const char* v, HT_ErrorCode* err)
{
    locked();
    int w = which(m);
    vf_assert(m == &f->static_hashes || w, "map of the cache");
    vf_assert(v != NULL, "a label is stored");
    if (key != g_key) vf_assert(0, "the identifier of the label is its key");
    if (g_m[w].present) { const char* o = g_m[w].value; g_m[w].value = v; *err = HT_ERR_OK; return o; }
    if (vf_bool("insert fails")) { *err = HT_ERR_OUT_OF_MEMORY; return NULL; }
    g_m[w].present = 1; g_m[w].value = v; *err = HT_ERR_OK;
    return NULL;
}
const char* ht_hash_map_get_value(HT_HashMap* m, uint64_t key)
{
    locked();
    int w = which(m);
    if (key != g_key) vf_assert(0, "the identifier of the label is its key");
    return g_m[w].present ? g_m[w].value : NULL;
}
/* every entry is visited once (P09): here any number of entries, the watched one among them or not */
static int g_visits[2]; static uint64_t g_e; static const char* g_ev; static const char* g_wlabel;
static int g_freed;
void ht_hash_map_for_each(HT_HashMap* m, HT_Boolean (*cb)(uint64_t, const char*, void*), void* ud)
{
    int w = which(m);
    if (g_strict) locked();
    g_visits[w]++;
    /* an arbitrary entry of the map */
    g_e = vf_u64("entry key"); 
    char* v = (char*)malloc(4);
    vf_assume(v != NULL);
    v[0] = 0;
    g_ev = v;
    int before = g_pushed;
    HT_Boolean r = cb(g_e, v, ud);
    vf_assert(r == HT_TRUE, "no entry is skipped");
    if (g_strict)
    {
        vf_assert(g_pushed == before + 1 && g_last_id == g_e && g_last_label == v, "one mapping event per cached label, with its identifier and text");
        free(v);
    }
    else
    {
        vf_assert(w == 1 && !vf_alive(v), "copies of temporary labels are released with the cache");
    }
}

static void arbitrary_cache(void)
{
    f = (HT_FeatureCachedString*)ht_alloc(sizeof(HT_FeatureCachedString));
    vf_assume(f != NULL);
    f->base.klass = HT_FeatureCachedString_get_class();
    f->lock = NULL;
    if (vf_bool("thread safe")) { f->lock = ht_mutex_create(); vf_assume(f->lock != NULL); }
    g_pushed = g_pushed_key = 0; g_visits[0] = g_visits[1] = 0;
    g_now = vf_u64("now"); g_id = vf_u64("event id");
    g_strict = 1;
}
static const char* any_map_state(int w, const char* v) { g_m[w].present = vf_bool("cached"); g_m[w].value = v; return v; }

void H_add_static(void)
{
    arbitrary_cache();
    const char* label = vf_cstr("label", VF_BIG, 6);
    g_key = (uint64_t)(uintptr_t)label;
    any_map_state(0, label);
    int cached = g_m[0].present;
    vf_cover("pre");
    uintptr_t r = ht_feature_cached_string_add_mapping(g_timeline, label);
    if (r)
    {
        vf_cover("ok");
        vf_assert(r == (uintptr_t)label && g_m[0].present && g_m[0].value == label, "the label is cached under its own identifier");
        vf_assert(g_pushed == !cached, "one mapping event the first time, none afterwards");
        if (!cached) vf_assert(g_last_id == r && g_last_label == label, "the event carries the returned identifier and the label");
    }
    else
    {
        vf_cover("failed");
        vf_assert(g_pushed == 0 && !g_m[0].present, "a label that can not be cached announces nothing");
    }
    locks_released();
}
uint32_t C__djb2_hash(const char* s) { (void)s; return (uint32_t)g_key; }
void H_add_dynamic(void)
{
    arbitrary_cache();
    char* label = vf_cstr("label", VF_BIG, 6);
    size_t len = strlen(label), w = vf_range("w", 0, VF_BIG, 6);
    vf_assume(w <= len);
    g_key = vf_is_verifier() ? vf_u32("hash") : djb2_hash(label);
    char c = label[w];
    char* old = (char*)vf_obj("old copy", 3);
    any_map_state(1, old);
    int cached = g_m[1].present;
    size_t live0 = vf_live();
    vf_malloc_may_fail(1);
    vf_cover("pre");
    uintptr_t r = ht_feature_cached_string_add_mapping_dynamic(g_timeline, label);
    if (g_m[1].present && !cached)
    {
        vf_cover("new");
        vf_assert(r == g_key, "the identifier is returned");
        vf_assert(g_pushed == 1 && g_last_id == r && g_last_label == g_m[1].value, "one mapping event with the identifier and the text");
        vf_assert(g_m[1].value != label && vf_valid(g_m[1].value, len + 1) && g_m[1].value[w] == c, "a copy of the text is kept");
        vf_assert(vf_live() == live0 + 1, "one copy");
    }
    else
    {
        if (cached) { vf_cover("cached"); vf_assert(r == g_key && g_m[1].value == old, "the same identifier, nothing changes"); }
        else vf_cover("failed");
        vf_assert(g_pushed == 0, "no event");
        vf_assert(vf_live() == live0, "nothing leaks");
    }
    locks_released();
}
void H_push_map(void)
{
    arbitrary_cache();
    vf_cover("pre");
    ht_feature_cached_string_push_map(g_timeline);
    vf_assert(g_visits[0] == 1 && g_visits[1] == 1, "both kinds of labels are dumped once");
    vf_assert(g_pushed == 2, "only cached labels are announced");
    locks_released();
}
void H_enable_destroy(void)
{
    g_set = NULL; f = NULL; g_strict = 0;
    g_refuse = vf_bool("refused");
    vf_malloc_may_fail(1);
    g_visits[0] = g_visits[1] = 0;
    HT_Boolean ts = vf_bool("thread safe");
    /* a refused feature is destroyed by the timeline; let f point to it then, too */
    vf_cover("pre");
    HT_Feature* x = ht_feature_cached_string_create(ts, NULL);
    if (x)
    {
        vf_cover("created");
        f = (HT_FeatureCachedString*)x;
        vf_assert((f->lock != NULL) == (ts != 0), "a lock exists exactly when thread safety was requested");
        vf_assert(x->klass == HT_FeatureCachedString_get_class(), "class of the feature");
        x->klass->destroy(x);
        vf_assert(g_visits[1] == 1, "the copies of temporary labels are released once");
    }
    else vf_cover("oom");
    vf_assert(vf_live() == 0 && g_mutexes == 0, "nothing leaks");
    locks_released();
}
void H_enable(void)
{
    g_set = NULL; f = NULL; g_strict = 0; g_refuse = 0;
    vf_malloc_may_fail(1);
    HT_ErrorCode err = ht_feature_cached_string_enable(g_timeline, vf_bool("thread safe"));
    vf_assert((err == HT_ERR_OK) == (g_set != NULL), "an error is reported exactly when the cache could not be created");
    if (g_set) { vf_cover("ok"); f = (HT_FeatureCachedString*)g_set; g_set->klass->destroy(g_set); } else vf_cover("oom");
    vf_assert(vf_live() == 0 && g_mutexes == 0, "nothing leaks");
}
