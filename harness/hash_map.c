/* String map: lookups return the last inserted value; iteration visits every entry once.
   One operation on an arbitrary map (512 buckets of arbitrary content) satisfying the representation invariant
   (key and value arrays of a bucket have equal length, keys are distinct), watched at one arbitrary key. */
#include "vf.h"
#include "lib/alloc.c"
#include "lib/bag.c"
#include "lib/hash_map.c"
#define NB (sizeof(((HT_HashMap*)0)->buckets) / sizeof(((HT_HashMap*)0)->buckets[0]))

static uint64_t g_k;          /* watched key */
static size_t g_b;            /* its bucket */
static int g_present;         /* whether it is in the map */
static size_t g_w;            /* at which position of its bucket */
static uint64_t g_vk;         /* its value */
static size_t cur_b;

static void init_key(size_t i, void* slot)
{
    uint64_t v = vf_u64("key");
    vf_assume(v % NB == g_b);
    vf_assume((v == g_k) == vf_and(g_present, i == g_w));
    *(uint64_t*)slot = v;
}
static void init_key_other(size_t i, void* slot)
{
    uint64_t v = vf_u64("okey");
    vf_assume(v != g_k);
    *(uint64_t*)slot = v;
}
static void bag_dims(size_t* cap, size_t* size)
{
    *size = vf_range("n", 0, VF_BIG, 4);
    *cap = vf_range("cap", 4, VF_BIG, 8);
    vf_assume(*size <= *cap);
}
static void init_bucket(size_t i, void* slot)
{
    HT_HashBucket* b = (HT_HashBucket*)slot;
    size_t vcap, n2;
    b->key_bag.min_capacity = 4;
    b->value_bag.min_capacity = 4;
    bag_dims(&b->key_bag.capacity, &b->key_bag.size);
    b->value_bag.capacity = vf_range("vcap", 4, VF_BIG, 8);
    vf_assume(b->key_bag.size <= b->value_bag.capacity);
    b->value_bag.size = b->key_bag.size;
    b->value_bag.data = (void**)vf_obj("values", b->value_bag.capacity * sizeof(void*));
    vf_heapify(b->value_bag.data);
    if (i == g_b)
    {
        vf_assume(vf_imp(g_present, g_w < b->key_bag.size));
        b->key_bag.data = (uint64_t*)vf_lazy("keys", b->key_bag.size, b->key_bag.capacity, sizeof(uint64_t), init_key);
    }
    else b->key_bag.data = (uint64_t*)vf_lazy("okeys", b->key_bag.size, b->key_bag.capacity, sizeof(uint64_t), init_key_other);
    vf_heapify(b->key_bag.data);
}
static HT_HashMap* arbitrary_map(void)
{
    g_k = vf_u64("k");
    g_b = g_k % NB;
    g_present = vf_bool("present");
    g_w = vf_range("w", 0, VF_BIG, 4);
    HT_HashMap* m = (HT_HashMap*)vf_lazy("map", NB, NB, sizeof(HT_HashBucket), init_bucket);
    HT_BagVoidPtr* v = &m->buckets[g_b].value_bag;
    g_vk = vf_peek64(v->data, g_w, g_present ? v->size : 0);
    vf_watch(g_w);
    return m;
}
void H_get(void)
{
    HT_HashMap* m = arbitrary_map();
    vf_cover("pre");
    const char* r = ht_hash_map_get_value(m, g_k);
    vf_cover("post");
    vf_assert((uintptr_t)r == (g_present ? g_vk : 0), "lookup returns the value of the key, nothing when absent");
}
void H_insert_same(void)
{
    HT_HashMap* m = arbitrary_map();
    vf_malloc_may_fail(1);
    uint64_t v = vf_u64("v");
    HT_ErrorCode err = HT_ERR_UNKNOWN;
    HT_HashBucket* b = &m->buckets[g_b];
    size_t n = b->key_bag.size;
    const char* old = ht_hash_map_insert(m, g_k, (const char*)(uintptr_t)v, &err);
    vf_assert((uintptr_t)old == (g_present ? g_vk : 0), "insertion returns the previous value");
    vf_assert(b->key_bag.size == b->value_bag.size, "keys and values stay paired");
    vf_assert(b->key_bag.size == n + (size_t)(err == HT_ERR_OK && !g_present), "a new key adds one entry, otherwise none");
    vf_assert(vf_valid(b->key_bag.data, b->key_bag.capacity * 8) && vf_valid(b->value_bag.data, b->value_bag.capacity * 8), "arrays hold their capacity");
    if (err == HT_ERR_OK) { vf_cover("ok"); } else { vf_cover("oom"); vf_assert(!g_present, "replacing needs no memory"); }
    vf_watch(n);
    const char* r = ht_hash_map_get_value(m, g_k);
    vf_assert((uintptr_t)r == (err == HT_ERR_OK ? v : g_present ? g_vk : 0), "lookup returns the value last inserted");
}
/* another key of the same bucket */
void H_insert_other(void)
{
    HT_HashMap* m = arbitrary_map();
    vf_malloc_may_fail(1);
    uint64_t v = vf_u64("v"), k2 = vf_u64("k2");
    vf_assume(k2 != g_k);
    vf_assume(k2 % NB == g_b);
    HT_ErrorCode err = HT_ERR_UNKNOWN;
    HT_HashBucket* b = &m->buckets[g_b];
    size_t n = b->key_bag.size;
    ht_hash_map_insert(m, k2, (const char*)(uintptr_t)v, &err);
    vf_cover("post");
    vf_assert(b->key_bag.size == b->value_bag.size, "keys and values stay paired");
    vf_assert(b->key_bag.size <= n + 1, "at most one entry added");
    if (err != HT_ERR_OK) vf_assert(b->key_bag.size == n, "a failed insertion leaves the map as it was");
    const char* r = ht_hash_map_get_value(m, g_k);
    vf_assert((uintptr_t)r == (g_present ? g_vk : 0), "inserting another key does not disturb this one");
}
/* a key of another bucket */
void H_insert_elsewhere(void)
{
    HT_HashMap* m = arbitrary_map();
    vf_malloc_may_fail(1);
    uint64_t v = vf_u64("v"), k2 = vf_u64("k2");
    vf_assume(k2 % NB != g_b);
    HT_ErrorCode err = HT_ERR_UNKNOWN;
    ht_hash_map_insert(m, k2, (const char*)(uintptr_t)v, &err);
    vf_cover("post");
    const char* r = ht_hash_map_get_value(m, g_k);
    vf_assert((uintptr_t)r == (g_present ? g_vk : 0), "inserting another key does not disturb this one");
}
/* iteration */
static uint32_t g_seen, g_stop, g_bad;
static int g_ud;
static HT_Boolean G_cb(uint64_t key, const char* value, void* ud)
{
    vf_assert(!g_stop, "no call after the callback asked to stop");
    vf_assert(ud == (void*)&g_ud, "the user data is passed through");
    g_bad |= vf_and(key == g_k, (uintptr_t)value != g_vk);
    g_seen += key == g_k;
    if (vf_bool("stop")) { g_stop = 1; return HT_FALSE; }
    return HT_TRUE;
}
static int INV(void) { return g_bad == 0; }
static void for_each(int present)
{
    HT_HashMap* m = arbitrary_map();
    if (g_present != present) vf_stop();
    vf_watch(g_b);
    vf_inv(INV);
    g_seen = 0; g_stop = 0; g_bad = 0;
    vf_cover("pre");
    ht_hash_map_for_each(m, G_cb, &g_ud);
    if (g_stop) vf_cover("stopped"); else vf_cover("completed");
    vf_assert(!g_bad, "each key is reported with its current value");
    vf_assert(g_seen <= 1, "no key is reported twice");
    if (!g_stop) vf_assert(g_seen == (uint32_t)g_present, "every key is reported");
}
void H_for_each_present(void) { for_each(1); }
void H_for_each_absent(void) { for_each(0); }
/* creation and destruction, with one of the first or last allocations failing (bounded: failing positions listed) */
static long g_count, g_fail;
static void* G_alloc(void* p, size_t n, void* ud)
{
    if (n == 0) { free(p); return NULL; }
    if (g_count++ == g_fail) return NULL;
    return realloc(p, n);
}
static HT_HashMap g_map;
static void life(long f)
{
    g_count = 0; g_fail = f;
    HT_ErrorCode rc = ht_hash_map_init(&g_map);
    vf_assert((rc == HT_ERR_OK) == (f < 0 || f >= g_count), "a failed allocation is reported");
    if (rc == HT_ERR_OK) ht_hash_map_deinit(&g_map);
    vf_assert(vf_live() == 0, "nothing leaked");
}
void B_life(void)
{
    vf_unroll(600);
    ht_allocator_set(G_alloc, NULL);
    life(-1); life(0); life(1); life(2); life(5); life(1022); life(1023);
    vf_cover("post");
}
/* native model-based run over keys that differ in single bits */
typedef struct { uint64_t k[70]; const char* v[70]; int n, seen[70], stop_after; } Model;
static HT_Boolean native_visit(uint64_t k, const char* v, void* ud)
{
    Model* m = (Model*)ud;
    int j = -1;
    for (int i = 0; i < m->n; i++) if (m->k[i] == k) j = i;
    vf_assert(j >= 0 && m->v[j] == v && !m->seen[j], "iteration visits every key once with its current value");
    m->seen[j] = 1;
    return --m->stop_after != 0;
}
void N_map(void)
{
    static HT_HashMap map;
    static char vals[64];
    Model md;
    memset(&md, 0, sizeof md);
    uint64_t base = vf_u64("base");
    if (ht_hash_map_init(&map) != HT_ERR_OK) return;
    int ops = (int)vf_range("ops", 1, 200, 200);
    for (int o = 0; o < ops; o++)
    {
        uint64_t r = vf_range("bit", 0, 64, 64), k = r == 64 ? base : base ^ ((uint64_t)1 << r);
        const char* v = &vals[vf_range("val", 0, 63, 63)];
        int j = -1;
        for (int i = 0; i < md.n; i++) if (md.k[i] == k) j = i;
        vf_assert(ht_hash_map_get_value(&map, k) == (j >= 0 ? md.v[j] : NULL), "lookup returns the value last inserted, nothing for a key never inserted");
        if (vf_bool("insert"))
        {
            const char* old = ht_hash_map_insert(&map, k, v, NULL);
            vf_assert(old == (j >= 0 ? md.v[j] : NULL), "insertion returns the previous value");
            if (j < 0) { j = md.n++; md.k[j] = k; }
            md.v[j] = v;
        }
    }
    md.stop_after = -1;
    ht_hash_map_for_each(&map, native_visit, &md);
    for (int i = 0; i < md.n; i++) vf_assert(md.seen[i], "iteration visits every key");
    memset(md.seen, 0, sizeof md.seen);
    md.stop_after = 3;
    ht_hash_map_for_each(&map, native_visit, &md);
    int s = 0;
    for (int i = 0; i < md.n; i++) s += md.seen[i];
    vf_assert(s == (md.n < 3 ? md.n : 3), "iteration stops when told");
    ht_hash_map_deinit(&map);
}
